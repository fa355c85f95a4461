// Package verifreplay_common: helpers of the concrete drivers that evaluate the
// contracts on inputs of the real code.
package verifreplay_common

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Drv struct {
	R     *rand.Rand
	Thor  bool
	Rule  string
	mu    sync.Mutex
	n     int
	seen  map[string]bool
	fails int
	start time.Time
	lim   time.Duration
	last  *os.File
	held  []held
}

// New makes a driver; lim bounds the time spent on random rounds.
func New(rule string, lim time.Duration) *Drv {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := &Drv{R: rand.New(rand.NewSource(seed)), Rule: rule, seen: map[string]bool{}, start: time.Now(), lim: lim}
	d.Thor = os.Getenv("VERIF_TIER") == "thorough"
	if d.Thor {
		d.lim *= 12
	}
	return d
}

func (d *Drv) More() bool { return d.fails < 3 && time.Since(d.start) < d.lim }

// Rounds says whether round i is to be run: at least min, at most max rounds.
func (d *Drv) Rounds(i, min, max int) bool {
	if d.Thor {
		max *= 10
	}
	return d.fails < 3 && i < max && (i < min || time.Since(d.start) < d.lim)
}

// Input names the input about to be evaluated.
func (d *Drv) Input(f string, a ...interface{}) {
	s := one(fmt.Sprintf(f, a...))
	d.mu.Lock()
	d.n++
	if len(d.seen) < 200000 {
		d.seen[s] = true
	}
	d.mu.Unlock()
	if d.last == nil {
		d.last, _ = os.Create(os.Getenv("VERIF_SCRATCH") + "/last-input")
	}
	if d.last != nil {
		d.last.WriteAt([]byte(fmt.Sprintf("%-700s", s)), 0)
	}
}

func one(s string) string {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return '?'
		}
		return r
	}, s)
}

func (d *Drv) Fail(f string, a ...interface{}) {
	d.mu.Lock()
	d.fails++
	n := d.fails
	d.mu.Unlock()
	if n <= 3 {
		fmt.Println("VERIF-FAIL", one(fmt.Sprintf(f, a...)))
	}
}

func (d *Drv) Check(ok bool, f string, a ...interface{}) bool {
	if !ok {
		d.Fail(f, a...)
	}
	return ok
}

// Panics runs f and says whether (and with what) it panicked.
func Panics(f func()) (msg interface{}) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return nil
}

// Guard runs f; a panic in it is a failure.
func (d *Drv) Guard(what string, f func()) bool {
	if m := Panics(f); m != nil {
		d.Fail("%s: %v", what, m)
		return false
	}
	return true
}

type held struct {
	what string
	b, c []byte
}

// Hold keeps a result and checks that later calls leave it as it was.
func (d *Drv) Hold(what string, b []byte) {
	for _, h := range d.held {
		if string(h.b) != string(h.c) {
			d.Fail("%s: the result %x became %x after later calls", h.what, h.c, h.b)
			d.held = nil
			break
		}
	}
	if len(d.held) > 8 {
		d.held = d.held[1:]
	}
	d.held = append(d.held, held{what, b, append([]byte{}, b...)})
}

func (d *Drv) Done() {
	d.Hold("", nil)
	fmt.Println("VERIF-EVALS", d.n, len(d.seen), d.Rule)
}

func (d *Drv) Bytes(n int) []byte {
	b := make([]byte, n)
	d.R.Read(b)
	return b
}

// Pick returns one of the values.
func (d *Drv) Pick(v ...int) int { return v[d.R.Intn(len(v))] }
