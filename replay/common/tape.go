package verifreplay_common

import (
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"unsafe"
)

// Tape is a reader of pseudorandom bytes that remembers what it delivered.
type Tape struct {
	R   *rand.Rand
	Out []byte
	// Gen, if set, fills the next read
	Gen func(p []byte)
}

func NewTape(seed int64) *Tape { return &Tape{R: rand.New(rand.NewSource(seed))} }

func (t *Tape) Read(p []byte) (int, error) {
	if t.Gen != nil {
		t.Gen(p)
	} else {
		t.R.Read(p)
	}
	t.Out = append(t.Out, p...)
	return len(p), nil
}

// Fixed delivers the given bytes in order, then zeros.
type Fixed struct {
	B []byte
	P int
}

func (t *Fixed) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	if t.P < len(t.B) {
		copy(p, t.B[t.P:])
	}
	t.P += len(p)
	return len(p), nil
}

// Field digs out a private field along a path, nil if there is none.
func Field(x interface{}, path ...string) (r interface{}) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	v := reflect.ValueOf(x)
	for _, p := range path {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		v = v.FieldByName(p)
		if v.CanAddr() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		}
	}
	return v.Interface()
}

// Child runs the test binary again with VERIF_CHILD=what; it returns the
// output and whether the child ended normally.
func Child(what string) (string, bool) {
	cmd := exec.Command(os.Args[0], "-test.run", "TestVerif$", "-test.timeout", "60s")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+what)
	out, err := cmd.CombinedOutput()
	return string(out), err == nil
}

func ChildOf() string { return os.Getenv("VERIF_CHILD") }
