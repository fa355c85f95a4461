package verifreplay

import (
	"bytes"
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/cmd/grpc/client/manager"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/pgp"
	"github.com/si-co/vpir-code/lib/proto"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	_ "google.golang.org/grpc/encoding/gzip"
)

// fake is a server that records what it gets.
type fake struct {
	proto.UnimplementedVPIRServer
	mu   sync.Mutex
	info *proto.DatabaseInfoResponse
	got  [][]byte
	ans  func(q []byte) []byte
	n    int32
}

func (f *fake) DatabaseInfo(context.Context, *proto.DatabaseInfoRequest) (*proto.DatabaseInfoResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.info, nil
}

func (f *fake) Query(_ context.Context, q *proto.QueryRequest) (*proto.QueryResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.got = append(f.got, append([]byte{}, q.GetQuery()...))
	return &proto.QueryResponse{Answer: f.ans(q.GetQuery())}, nil
}

func (f *fake) take() [][]byte {
	f.mu.Lock()
	defer f.mu.Unlock()
	g := f.got
	f.got = nil
	return g
}

func serve(i int, s proto.VPIRServer) (string, func()) {
	cfg := &tls.Config{Certificates: []tls.Certificate{utils.ServerCertificates[i]}, ClientAuth: tls.NoClientCert}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	g := grpc.NewServer(grpc.Creds(credentials.NewTLS(cfg)))
	proto.RegisterVPIRServer(g, s)
	go g.Serve(lis)
	return lis.Addr().String(), g.Stop
}

func fakes(n int) ([]*fake, []string, func()) {
	var fs []*fake
	var as []string
	var stops []func()
	for i := 0; i < n; i++ {
		f := &fake{info: &proto.DatabaseInfoResponse{NumRows: 2, NumColumns: 3, BlockLength: 8}, ans: func(q []byte) []byte { return q }}
		a, stop := serve(i, f)
		fs, as, stops = append(fs, f), append(as, a), append(stops, stop)
	}
	return fs, as, func() {
		for _, s := range stops {
			s()
		}
	}
}

func cloneInfo(i *proto.DatabaseInfoResponse) *proto.DatabaseInfoResponse {
	return &proto.DatabaseInfoResponse{NumRows: i.NumRows, NumColumns: i.NumColumns, BlockLength: i.BlockLength, PirType: i.PirType, Root: append([]byte{}, i.Root...), ProofLen: i.ProofLen}
}

// the ways in which two servers can announce different databases
var differences = []struct {
	what string
	f    func(i *proto.DatabaseInfoResponse)
}{
	{"number of rows", func(i *proto.DatabaseInfoResponse) { i.NumRows++ }},
	{"number of columns", func(i *proto.DatabaseInfoResponse) { i.NumColumns++ }},
	{"exchanged rows and columns", func(i *proto.DatabaseInfoResponse) { i.NumRows, i.NumColumns = i.NumColumns, i.NumRows }},
	{"block size", func(i *proto.DatabaseInfoResponse) { i.BlockLength += 256 }},
	{"scheme", func(i *proto.DatabaseInfoResponse) { i.PirType += "x" }},
	{"root, in its last byte", func(i *proto.DatabaseInfoResponse) { i.Root[len(i.Root)-1] ^= 1 }},
	{"root, in its first byte", func(i *proto.DatabaseInfoResponse) { i.Root[0] ^= 0x80 }},
	{"root, cut off", func(i *proto.DatabaseInfoResponse) { i.Root = i.Root[:len(i.Root)-1] }},
	{"root, absent", func(i *proto.DatabaseInfoResponse) { i.Root = nil }},
	{"proof length", func(i *proto.DatabaseInfoResponse) { i.ProofLen += 32 }},
}

type proc struct {
	cmd *exec.Cmd
	out *bytes.Buffer
}

func repo() string {
	if r := os.Getenv("GOVC_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func build(pkg, out string) error {
	c := exec.Command("go", "build", "-o", out, pkg)
	c.Dir = repo()
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	return nil
}

func freePorts(n int) []int {
	var ls []net.Listener
	var ps []int
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		ls = append(ls, l)
		ps = append(ps, l.Addr().(*net.TCPAddr).Port)
	}
	for _, l := range ls {
		l.Close()
	}
	return ps
}

func config(dir string, addrs []string) string {
	var b strings.Builder
	b.WriteString("[servers]\n")
	for i, a := range addrs {
		h, p, _ := net.SplitHostPort(a)
		fmt.Fprintf(&b, "  [servers.%d]\n  ip = %q\n  port = %s\n", i, h, p)
	}
	f := filepath.Join(dir, "config.toml")
	os.WriteFile(f, []byte(b.String()), 0o644)
	return f
}

func waitUp(a string, secs int) bool {
	for i := 0; i < secs*50; i++ {
		if c, err := net.Dial("tcp", a); err == nil {
			c.Close()
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

type deployment struct {
	addrs []string
	ps    []*exec.Cmd
	conf  string
	keys  string
}

func deploy(dir, bin, keys, scheme string, n int, extra ...string) (*deployment, error) {
	for try := 0; ; try++ {
		dep := &deployment{keys: keys}
		for _, p := range freePorts(n) {
			dep.addrs = append(dep.addrs, "127.0.0.1:"+strconv.Itoa(p))
		}
		sub, err := os.MkdirTemp(dir, "dep")
		if err != nil {
			return nil, err
		}
		dep.conf = config(sub, dep.addrs)
		for i := 0; i < n; i++ {
			c := exec.Command(bin, append([]string{"-id", strconv.Itoa(i), "-scheme", scheme}, extra...)...)
			c.Env = append(os.Environ(), "VPIR_CONFIG="+dep.conf, "VPIR_SKS_ROOT="+keys)
			c.Dir = sub
			if err := c.Start(); err != nil {
				return nil, err
			}
			dep.ps = append(dep.ps, c)
		}
		up := true
		for _, a := range dep.addrs {
			up = up && waitUp(a, 15)
		}
		if up {
			return dep, nil
		}
		dep.stop()
		if try == 1 {
			return nil, fmt.Errorf("the servers of %d do not start", n)
		}
	}
}

func (dep *deployment) stop() {
	for _, p := range dep.ps {
		p.Process.Kill()
		p.Wait()
	}
}

func run(bin, conf string, args ...string) (string, bool) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = filepath.Dir(conf)
	c.Env = append(os.Environ(), "VPIR_CONFIG="+conf)
	o, err := c.CombinedOutput()
	return string(o), err == nil
}

func makeKeys(d *vc.Drv, n int) ([]*pgp.Key, []*openpgp.Entity, error) {
	var ks []*pgp.Key
	var es []*openpgp.Entity
	for i := 0; i < n; i++ {
		mail := fmt.Sprintf("%s%d@%s.org", []string{"alice", "bob", "carol"}[i%3], i, []string{"epfl", "mit"}[i%2])
		cfg := &packet.Config{RSABits: 1024, Time: func() time.Time { return time.Date(2015+i%5, 3, 4, 5, 6, 7, 0, time.UTC) }}
		e, err := openpgp.NewEntity("u", "", mail, cfg)
		if err != nil {
			return nil, nil, err
		}
		if err := e.SerializePrivate(io.Discard, cfg); err != nil {
			return nil, nil, err
		}
		e.Subkeys = nil
		var b bytes.Buffer
		if err := e.Serialize(&b); err != nil {
			return nil, nil, err
		}
		ks = append(ks, &pgp.Key{ID: mail, Packet: b.Bytes()})
		es = append(es, e)
	}
	return ks, es, nil
}

func TestVerif(t *testing.T) {
	log.SetOutput(io.Discard)
	d := vc.New("client manager against recording servers; deployed client and server programs end to end for every scheme and 2 to 4 servers; concurrent and abandoned queries", 60*time.Second)
	defer d.Done()
	if c, err := x509.ParseCertificate(utils.ServerCertificates[0].Certificate[0]); err != nil || time.Now().After(c.NotAfter) || time.Now().Before(c.NotBefore) {
		fmt.Println("the servers' certificates are not valid now: nothing can be run over the network")
		return
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(scratch)
	srvBin, cliBin := filepath.Join(scratch, "server"), filepath.Join(scratch, "client")
	bc := make(chan error, 2)
	go func() { bc <- build("./cmd/grpc/server", srvBin) }()
	go func() { bc <- build("./cmd/grpc/client", cliBin) }()

	for n := 1; n <= 13; n++ {
		d.Input("configuration of %d servers", n)
		var as []string
		for i := 0; i < n; i++ {
			as = append(as, fmt.Sprintf("10.0.%d.%d:%d", d.R.Intn(256), i, 1024+d.R.Intn(60000)))
		}
		d.Guard("loading a configuration", func() {
			c, err := utils.LoadConfig(config(scratch, as))
			d.Check(err == nil && fmt.Sprint(c.Addresses) == fmt.Sprint(as), "the configured servers %v are loaded as %v (%v)", as, c, err)
		})
	}
	roles(d)
	differ(d)
	b1, b2 := <-bc, <-bc
	if b1 != nil || b2 != nil {
		fmt.Println("the programs do not build:", b1, b2)
		return
	}
	clientDiffer(d, cliBin, scratch)

	keys, ents, err := makeKeys(d, 95)
	if err != nil {
		fmt.Println("no keys:", err)
		return
	}
	kd := filepath.Join(scratch, "keys")
	os.MkdirAll(kd, 0o755)
	file := filepath.Join(kd, "keys.pgp")
	f, _ := os.Create(file)
	enc := gob.NewEncoder(f)
	for _, k := range keys {
		enc.Encode(k)
	}
	f.Close()
	points(d, scratch, srvBin, cliBin, kd, keys, ents)
	predicates(d, scratch, srvBin, cliBin, kd, keys)
	concurrent(d, scratch, srvBin, kd, file)
}

// roles: the j-th query goes to the j-th server on every run.
func roles(d *vc.Drv) {
	for n := 1; n <= 5 && d.More(); n++ {
		fs, addrs, stop := fakes(n)
		d.Guard("client manager", func() {
			m := manager.NewManager(utils.Config{Addresses: addrs}, nil)
			a, err := m.Connect()
			if !d.Check(err == nil, "the client manager does not connect to %d servers: %v", n, err) {
				return
			}
			for r := 0; r < 25; r++ {
				d.Input("run %d of %d queries to %d servers", r, n, n)
				qs := make([][]byte, n)
				for j := range qs {
					qs[j] = append(d.Bytes(d.Pick(1, 16, 300)), byte(j))
				}
				done := make(chan [][]byte, 1)
				go func() { done <- a.RunQueries(qs) }()
				var ans [][]byte
				select {
				case ans = <-done:
				case <-time.After(20 * time.Second):
					d.Fail("running the queries on %d servers does not end", n)
					return
				}
				for j, f := range fs {
					got := f.take()
					if !d.Check(len(got) == 1 && bytes.Equal(got[0], qs[j]), "run %d with %d servers: server %d got %d queries, %x, want %x", r, n, j, len(got), got, qs[j]) {
						return
					}
				}
				left := map[string]int{}
				for _, q := range qs {
					left[string(q)]++
				}
				for _, x := range ans {
					left[string(x)]--
				}
				ok := len(ans) == n
				for _, c := range left {
					ok = ok && c == 0
				}
				if !d.Check(ok, "run %d with %d servers: the answers returned are %x, those given are %x", r, n, ans, qs) {
					return
				}
			}
		})
		stop()
	}
}

// differ: different database information is refused.
func differ(d *vc.Drv) {
	for n := 2; n <= 3; n++ {
		fs, addrs, stop := fakes(n)
		d.Guard("client manager", func() {
			m := manager.NewManager(utils.Config{Addresses: addrs}, nil)
			a, err := m.Connect()
			if !d.Check(err == nil, "the client manager does not connect to %d servers: %v", n, err) {
				return
			}
			base := &proto.DatabaseInfoResponse{NumRows: 3, NumColumns: 5, BlockLength: 100, PirType: "merkle", Root: d.Bytes(32), ProofLen: 140}
			set := func() {
				for _, f := range fs {
					f.info = cloneInfo(base)
				}
			}
			set()
			d.Input("equal information of %d servers", n)
			is, err := a.GetDBInfos()
			if d.Check(err == nil && len(is) == n, "equal information of %d servers is refused: %v", n, err) {
				for _, i := range is {
					d.Check(i.NumRows == 3 && i.NumColumns == 5 && i.BlockSize == 100 && i.PIRType == "merkle" && i.Merkle != nil && bytes.Equal(i.Root, base.Root) && i.ProofLen == 140, "the information of the servers is received as %+v, want %v", i, base)
				}
			}
			for _, df := range differences {
				for s := 0; s < n; s++ {
					for rep := 0; rep < 3; rep++ {
						set()
						df.f(fs[s].info)
						d.Input("server %d of %d announces a different %s", s, n, df.what)
						_, err := a.GetDBInfos()
						if !d.Check(err != nil, "the client manager accepts that server %d of %d announces a different database: %s", s, n, df.what) {
							break
						}
					}
				}
			}
		})
		stop()
	}
}

// clientDiffer: the client program sends no query to servers that differ.
func clientDiffer(d *vc.Drv, cli, scratch string) {
	fs, addrs, stop := fakes(2)
	defer stop()
	dir, _ := os.MkdirTemp(scratch, "cd")
	conf := config(dir, addrs)
	base := &proto.DatabaseInfoResponse{NumRows: 3, NumColumns: 5, BlockLength: 100, Root: d.Bytes(32), ProofLen: 140}
	args := []string{"-scheme", "pointPIR", "-id", "alice0@epfl.org"}
	ask := func(what string, s int, f func(i *proto.DatabaseInfoResponse)) (int, bool) {
		for _, k := range fs {
			k.mu.Lock()
			k.info = cloneInfo(base)
			k.ans = func([]byte) []byte { return make([]byte, 4000) }
			k.mu.Unlock()
		}
		f(fs[s].info)
		d.Input("client program, %s at server %d", what, s)
		_, ok := run(cli, conf, args...)
		return len(fs[0].take()) + len(fs[1].take()), ok
	}
	if n, _ := ask("equal information", 0, func(*proto.DatabaseInfoResponse) {}); n != 2 {
		d.Fail("the client program sends %d queries to two servers that announce equal databases", n)
		return
	}
	for i, df := range differences {
		n, ok := ask(df.what, i%2, df.f)
		d.Check(n == 0 && !ok, "the client program goes on (%d queries sent, exit status 0: %v) although server %d announces a different database: %s", n, ok, i%2, df.what)
	}
}

func points(d *vc.Drv, scratch, srv, cli, kd string, keys []*pgp.Key, ents []*openpgp.Entity) {
	type conf struct {
		scheme string
		n      int
		extra  []string
	}
	cs := []conf{{"pointPIR", 2, nil}, {"pointVPIR", 2, nil}, {"pointPIR", 3, nil}, {"pointVPIR", 3, nil}, {"pointPIR", 2, []string{"-experiment", "-cores", "2"}}}
	if d.Thor {
		cs = append(cs, conf{"pointPIR", 4, nil}, conf{"pointVPIR", 5, nil}, conf{"pointVPIR", 2, []string{"-experiment", "-cores", "2"}}, conf{"pointVPIR", 3, []string{"-experiment", "-cores", "3"}})
	}
	for _, c := range cs {
		d.Input("%d servers of %s %v", c.n, c.scheme, c.extra)
		dep, err := deploy(scratch, srv, kd, c.scheme, c.n, c.extra...)
		if !d.Check(err == nil, "%s with %d servers: %v", c.scheme, c.n, err) {
			continue
		}
		reps := 3
		if d.Thor {
			reps = 12
		}
		m := manager.NewManager(utils.Config{Addresses: dep.addrs}, nil)
		for r := 0; r < reps; r++ {
			i := d.R.Intn(len(keys))
			d.Input("key %s from %d servers of %s %v", keys[i].ID, c.n, c.scheme, c.extra)
			want := armored(keys[i])
			out, ok := run(cli, dep.conf, "-scheme", c.scheme, "-id", keys[i].ID)
			if !d.Check(ok && strings.Contains(out, want), "the client program asking %d servers of %s %v for the key of %s fails: %s", c.n, c.scheme, c.extra, keys[i].ID, lastOf(out)) {
				break
			}
			if r > 0 {
				continue
			}
			good := d.Guard("client manager", func() {
				a, err := m.Connect()
				if !d.Check(err == nil, "the client manager does not connect: %v", err) {
					return
				}
				is, err := a.GetDBInfos()
				if !d.Check(err == nil && len(is) == c.n, "the client manager refuses %d servers of %s: %v", c.n, c.scheme, err) {
					return
				}
				got, err := a.GetKey(keys[i].ID, is[0], client.NewPIR(utils.RandomPRG(), &is[0]))
				d.Check(err == nil && got == want, "the client manager asking %d servers of %s for the key of %s gets %v %s", c.n, c.scheme, keys[i].ID, err, got)
			})
			if !good {
				break
			}
		}
		if c.n == 2 && c.extra == nil {
			_, ok := run(cli, dep.conf, "-scheme", c.scheme, "-id", "nobody@nowhere.org")
			d.Check(ok == false, "the client program asking %s for an absent key succeeds", c.scheme)
		}
		dep.stop()
	}
}

func armored(k *pgp.Key) string {
	e, err := pgp.RecoverKeyFromBlock(k.Packet, k.ID)
	if err != nil {
		panic(err)
	}
	s, err := pgp.ArmorKey(e)
	if err != nil {
		panic(err)
	}
	return s
}

func lastOf(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func predicates(d *vc.Drv, scratch, srv, cli, kd string, keys []*pgp.Key) {
	count := func(f func(id string) bool) string {
		n := 0
		for _, k := range keys {
			if f(k.ID) {
				n++
			}
		}
		return strconv.Itoa(n)
	}
	for _, scheme := range []string{"complexPIR", "complexVPIR"} {
		d.Input("two servers of %s", scheme)
		dep, err := deploy(scratch, srv, kd, scheme, 2)
		if !d.Check(err == nil, "%s: %v", scheme, err) {
			continue
		}
		type q struct {
			want string
			args []string
		}
		qs := []q{
			{count(func(s string) bool { return strings.HasPrefix(s, "alice") }), []string{"-target", "email", "-id", "alice", "-from-start", "5"}},
			{count(func(s string) bool { return strings.HasSuffix(s, "@epfl.org") }), []string{"-target", "email", "-id", "@epfl.org", "-from-end", "9"}},
			{count(func(s string) bool { return s == "bob1@mit.org" }), []string{"-target", "email", "-id", "bob1@mit.org"}},
			{count(func(string) bool { return true }), []string{"-target", "algo", "-id", "RSA"}},
		}
		// an order of the servers taken from a map is wrong in one run of eight
		reps := 25
		if d.Thor {
			reps = 100
		}
	loop:
		for r := 0; r < reps; r++ {
			for _, x := range qs {
				if r > 0 && x.args[1] == "algo" {
					continue
				}
				d.Input("predicate query %v to %s, run %d", x.args, scheme, r)
				out, ok := run(cli, dep.conf, append([]string{"-scheme", scheme}, x.args...)...)
				got := ""
				for _, l := range strings.Split(out, "\n") {
					if _, err := strconv.Atoi(l); err == nil {
						got = l
					}
				}
				if !d.Check(ok && got == x.want, "the client program asking %s for %v (run %d) gets %q, want %s: %s", scheme, x.args, r, got, x.want, lastOf(out)) {
					break loop
				}
			}
		}
		dep.stop()
	}
}

// concurrent: every query is answered with its own answer, whatever other
// queries are under way, finished or abandoned.
func concurrent(d *vc.Drv, scratch, srv, kd, file string) {
	db, err := database.GenerateRealKeyBytes([]string{file}, true)
	if err != nil {
		return
	}
	ref := server.NewPIR(db)
	d.Input("three servers for concurrent queries")
	dep, err := deploy(scratch, srv, kd, "pointPIR", 3)
	if !d.Check(err == nil, "pointPIR with 3 servers: %v", err) {
		return
	}
	defer dep.stop()
	creds, err := utils.LoadServersCertificates()
	if err != nil {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, dep.addrs[1], grpc.WithTransportCredentials(creds), grpc.WithBlock())
	if !d.Check(err == nil, "no connection to the server: %v", err) {
		return
	}
	defer conn.Close()
	c := proto.NewVPIRClient(conn)
	n := (db.NumColumns + 7) / 8
	want := make([]string, 1<<uint(db.NumColumns))
	mk := func(v int) []byte {
		q := make([]byte, n)
		for j := range q {
			q[j] = byte(v >> uint(8*j))
		}
		return q
	}
	for v := range want {
		want[v] = string(ref.Answer(mk(v)))
	}
	var wg sync.WaitGroup
	var bad int32
	rounds := 40
	if d.Thor {
		rounds = 400
	}
	for w := 0; w < 24; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			s := uint32(w*7919 + 1)
			for r := 0; r < rounds && atomic.LoadInt32(&bad) == 0; r++ {
				s = s*1664525 + 1013904223
				v := int(s>>8) % len(want)
				q := mk(v)
				if s>>28 == 0 {
					cx, stop := context.WithCancel(ctx)
					go func() { time.Sleep(time.Duration(s>>12&0x3ff) * time.Microsecond); stop() }()
					c.Query(cx, &proto.QueryRequest{Query: q})
					stop()
					continue
				}
				a, err := c.Query(ctx, &proto.QueryRequest{Query: q})
				if err != nil || string(a.GetAnswer()) != want[v] {
					atomic.AddInt32(&bad, 1)
					other := -1
					for o := range want {
						if err == nil && string(a.GetAnswer()) == want[o] {
							other = o
						}
					}
					d.Fail("query %x, one of 24 concurrent ones, gets (error %v) the answer to query %d (-1: to none)", q, err, other)
				}
			}
		}(w)
	}
	wg.Wait()
	d.Input("%d concurrent queries", 24*rounds)
}
