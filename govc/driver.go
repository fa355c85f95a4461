package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// runProp decides one property: every contract tagged with it, and every
// contract these rely on, is proved against the code in the working tree.
func runProp(w *World, id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0o755)

	byName := map[string]*Contract{}
	var start []string
	for _, c := range w.specs.contracts {
		byName[c.name] = c
		for _, p := range c.props {
			if p == id && !c.assumed {
				start = append(start, c.name)
			}
		}
	}
	for n, l := range w.specs.lemmas {
		byName[n] = l
	}
	if len(start) == 0 {
		fmt.Println("no contract is tagged", id)
		return 2
	}

	rep := make(chan *replayRes, 1)
	go func() { rep <- runReplay(id, tier, seed) }()

	drop := map[string]bool{}
	var res map[string]*UnitRes
	for round := 0; ; round++ {
		res = runUnits(byName, start, drop, tier, res, t0)
		if round == 0 {
			retryUnits(byName, drop, tier, res, t0)
		}
		if round == 3 || time.Since(t0) > 300*time.Second {
			break
		}
		again := false
		for n, u := range res {
			if u.ok() || drop[n] {
				continue
			}
			c := byName[n]
			if c == nil || c.theorem || c.lemma || c.opts["key"] != "" || hasOpt(c, "key") {
				continue
			}
			if !ast.IsExported(n[strings.LastIndex(n, ".")+1:]) && (missing(u) || usedBy(n, res, drop)) {
				drop[n] = true
				again = true
			}
		}
		if !again {
			break
		}
		fmt.Println("# contracts of internal helpers that no longer fit are dropped, their callers see the bodies:", keysOf(drop))
	}

	var names []string
	for n := range res {
		names = append(names, n)
	}
	sort.Strings(names)
	known := loadKnown(id)
	type fail struct {
		Unit, Kind, What, Pos, Detail string
	}
	var fails []fail
	nob, ndis := 0, 0
	by := map[string]int{}
	var solver float64
	var funcs, lems, theos, trusted, bounded []string
	tr := map[string]bool{}
	covers := 0
	for _, n := range names {
		u := res[n]
		if drop[n] {
			continue
		}
		solver += u.Solver
		covers += u.Covers
		d := 0
		for _, o := range u.Obls {
			if o.OK {
				d++
				by[o.By]++
			} else {
				fails = append(fails, fail{n, o.Kind, o.What, o.Pos, o.Verdict + " " + o.By + " goal " + trunc(o.Goal, 1500)})
			}
		}
		nob += len(u.Obls)
		ndis += d
		if u.Err != "" {
			fails = append(fails, fail{n, "generation", u.Err, u.Pos, "no obligations could be generated"})
			nob++
		}
		if u.Vacuous != "" {
			fails = append(fails, fail{n, "vacuity", u.Vacuous, u.Pos, ""})
		}
		line := fmt.Sprintf("%s (%s): %d/%d obligations, %.1fs", n, u.Pos, d, len(u.Obls), u.Secs)
		switch u.Kind {
		case "lemma":
			lems = append(lems, line)
		case "theorem":
			theos = append(theos, line)
		default:
			funcs = append(funcs, line)
		}
		for _, x := range u.Used {
			if strings.HasPrefix(x, "intrinsic:") || strings.HasPrefix(x, "assumed:") {
				tr[x] = true
			} else if c := byName[strings.TrimPrefix(x, "contract:")]; c != nil && c.assumed {
				tr["assumed contract: "+strings.TrimPrefix(x, "contract:")] = true
			}
		}
	}
	for x := range tr {
		trusted = append(trusted, x)
	}
	sort.Strings(trusted)
	var assumptions []string
	assumptions = append(assumptions, stdAssumptions...)
	for _, n := range names {
		if c := byName[n]; c != nil {
			for _, cl := range c.clauses {
				if cl.kind == "note" {
					assumptions = append(assumptions, n+": "+cl.text)
				}
				if cl.kind == "bounded" {
					bounded = append(bounded, n+": "+cl.text)
				}
			}
		}
	}
	for x := range tr {
		if c := byName[strings.TrimPrefix(x, "assumed contract: ")]; c != nil {
			for _, cl := range c.clauses {
				if cl.kind == "note" {
					assumptions = append(assumptions, c.name+" (assumed): "+cl.text)
				}
			}
		}
	}
	rr := <-rep

	viol := 0
	var knownHit []string
	// concrete failing inputs first
	var concrete []string
	for _, f := range rr.Failures {
		if k := known.match("replay", f); k != "" {
			knownHit = append(knownHit, k)
			continue
		}
		concrete = append(concrete, f)
	}
	var open []fail
	for _, f := range fails {
		if k := known.match("obligation", f.Unit+"|"+f.Kind+"|"+f.What); k != "" {
			knownHit = append(knownHit, k)
			continue
		}
		open = append(open, f)
	}
	seenK := map[string]bool{}
	for _, k := range knownHit {
		if !seenK[k] {
			seenK[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	rdir := filepath.Join(evdir, "replay")
	os.MkdirAll(rdir, 0o755)
	rfile := filepath.Join(rdir, id+".txt")
	if len(open) > 0 || len(concrete) > 0 {
		viol = 1
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\n\nfailed obligations: %d\n", id, len(open))
		for _, f := range open {
			fmt.Fprintf(&b, "\n* %s [%s] %s\n  at %s\n  verifier: %s\n", f.Unit, f.Kind, f.What, f.Pos, f.Detail)
		}
		fmt.Fprintf(&b, "\nfailing inputs replayed on the real code: %d\n", len(concrete))
		for _, f := range concrete {
			fmt.Fprintf(&b, "\n%s\n", f)
		}
		fmt.Fprintf(&b, "\nreplay command: %s\n", rr.Cmd)
		if len(concrete) == 0 {
			fmt.Fprintf(&b, "\noutput of the replay search:\n%s\n", trunc(rr.Output, 6000))
		}
		os.WriteFile(rfile, b.Bytes(), 0o644)
		for i, f := range open {
			if i < 12 {
				fmt.Printf("FAILED OBLIGATION %s [%s] %s at %s: %s\n", f.Unit, f.Kind, trunc(f.What, 200), f.Pos, trunc(f.Detail, 160))
			}
		}
		for i, f := range concrete {
			if i < 3 {
				fmt.Printf("FAILING INPUT %s\n", trunc(f, 600))
			}
		}
		if len(concrete) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rfile)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rfile)
		}
	}
	cov := map[string]interface{}{
		"obligations":                nob,
		"discharged":                 ndis,
		"checker_cmd":                fmt.Sprintf("govc prop %s  (obligations generated from the SSA of %s, discharged by z3 %s / cvc5)", id, w.repo, solverVersions()),
		"trusted_base":               append([]string{"govc verification condition generator (/verif/govc), go/types and golang.org/x/tools/go/ssa", "z3, cvc5 (either alone suffices for an obligation)"}, trusted...),
		"functions_under_contract":   funcs,
		"theorems":                   theos,
		"lemmas":                     lems,
		"discharged_by":              by,
		"solver_seconds":             round2(solver),
		"vacuity_checks":             covers,
		"contracts_dropped_this_run": keysOf(drop),
		"bounded_stand_ins":          bounded,
		"bounded_corroboration":      rr.summary(),
	}
	if rr.Evals > 0 {
		cov["evaluations"] = rr.Evals
		cov["distinct_nontrivial"] = rr.Distinct
		cov["rule"] = "bounded corroboration on the real code, never counted as proved: " + strings.Join(rr.Rules, "; ")
	}
	sort.Strings(assumptions)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": dedup(assumptions), "wall_s": round2(time.Since(t0).Seconds()), "violations": viol,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations of %d units discharged, %d bounded evaluations, %.0fs\n", id, ndis, nob, len(names), rr.Evals, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

var stdAssumptions = []string{
	"int and int64 arithmetic on lengths and indices is mathematical (no overflow of 64-bit signed values); uint8..uint64, uint and 128-bit arithmetic wraps",
	"partial correctness: termination is not proved",
	"a dereference of a pointer parameter or field is presumed non-nil; computed pointers are checked",
	"goroutines are executed at the point where they are started; channels carry one message per send; data races are outside the proof",
	"readers fill the whole buffer or return an error",
	"memory is not exhausted; log.Fatal and panics count as refusing to answer",
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
func hasOpt(c *Contract, o string) bool {
	_, ok := c.opts[o]
	return ok
}
func dedup(s []string) []string {
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}
func keysOf(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func solverVersions() string {
	o, _ := exec.Command("z3-new", "--version").Output()
	f := strings.Fields(string(o))
	if len(f) > 2 {
		return f[2]
	}
	return "?"
}

// ---------------------------------------------------------------- units

// runUnits verifies the contracts named by start and, transitively, those they
// use. Results of an earlier round stand unless they used a dropped contract.
func runUnits(byName map[string]*Contract, start []string, drop map[string]bool, tier string, prev map[string]*UnitRes, t0 time.Time) map[string]*UnitRes {
	res := map[string]*UnitRes{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queued := map[string]bool{}
	var queue []string
	active := 0
	push := func(n string) {
		if queued[n] || drop[n] {
			return
		}
		queued[n] = true
		queue = append(queue, n)
	}
	for _, n := range start {
		push(n)
	}
	self, _ := os.Executable()
	tmo := 200 * time.Second
	if tier == "thorough" {
		tmo = 600 * time.Second
	}
	worker := func() {
		mu.Lock()
		defer mu.Unlock()
		for {
			for len(queue) == 0 {
				if active == 0 {
					cond.Broadcast()
					return
				}
				cond.Wait()
			}
			n := queue[0]
			queue = queue[1:]
			active++
			mu.Unlock()
			u := prev[n]
			if u != nil {
				for _, x := range u.Used {
					if drop[strings.TrimPrefix(x, "contract:")] {
						u = nil
						break
					}
				}
			}
			if u == nil {
				left := tmo
				if l := budget(tier) - time.Since(t0); l < left {
					left = l
				}
				if left > time.Second {
					u = runUnit(self, n, drop, left)
				} else {
					u = &UnitRes{Name: n, Kind: "function", Err: "no time left for this unit"}
				}
			}
			mu.Lock()
			active--
			res[n] = u
			for _, x := range u.Used {
				x = strings.TrimPrefix(x, "contract:")
				if c := byName[x]; c != nil && !c.assumed {
					push(x)
				}
			}
			cond.Broadcast()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); worker() }()
	}
	wg.Wait()
	return res
}

// retryUnits verifies the few units that failed once more, one at a time: the
// solvers' limits are in seconds, and the machine may have been busy.
func retryUnits(byName map[string]*Contract, drop map[string]bool, tier string, res map[string]*UnitRes, t0 time.Time) {
	var bad []string
	for n, u := range res {
		if !u.ok() && !missing(u) {
			bad = append(bad, n)
		}
	}
	sort.Strings(bad)
	self, err := os.Executable()
	if err != nil || len(bad) > 3 {
		return
	}
	for _, n := range bad {
		if time.Since(t0) > 250*time.Second {
			return
		}
		if u := runUnit(self, n, drop, 120*time.Second); u.ok() {
			fmt.Println("# verified in a second attempt:", n)
			res[n] = u
		}
	}
}

// missing: the function is gone or its parameters have changed
func missing(u *UnitRes) bool {
	return strings.Contains(u.Err, "not found or its parameters do not match")
}

// usedBy: some other function under contract calls n, so that what n does is
// still decided when its body takes the place of its contract
func usedBy(n string, res map[string]*UnitRes, drop map[string]bool) bool {
	for m, u := range res {
		if m == n || drop[m] || u.Kind != "function" {
			continue
		}
		for _, x := range u.Used {
			if strings.TrimPrefix(x, "contract:") == n {
				return true
			}
		}
	}
	return false
}

func budget(tier string) time.Duration {
	if tier == "thorough" {
		return 3000 * time.Second
	}
	return 780 * time.Second
}

func runUnit(self, n string, drop map[string]bool, tmo time.Duration) *UnitRes {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "unit", n)
	cmd.Env = append(os.Environ(), "GOVC_DROP="+strings.Join(keysOf(drop), ","))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	u := &UnitRes{}
	if json.Unmarshal(out.Bytes(), u) != nil || u.Name == "" {
		u = &UnitRes{Name: n, Kind: "function", Err: fmt.Sprintf("the verifier gave no result: %v %s", err, trunc(errb.String(), 400))}
		if ctx.Err() != nil {
			u.Err = fmt.Sprintf("verifier timeout after %s", tmo)
		}
	}
	return u
}

func unitMain(w *World, n string) int {
	for _, c := range w.specs.contracts {
		if c.name == n && !c.assumed {
			u := w.verify(c)
			json.NewEncoder(os.Stdout).Encode(u)
			return 0
		}
	}
	if c := w.specs.lemmas[n]; c != nil {
		json.NewEncoder(os.Stdout).Encode(w.verify(c))
		return 0
	}
	return 2
}

// ---------------------------------------------------------------- known findings

type knownList []struct{ kind, key, text string }

func (k knownList) match(kind, s string) string {
	for _, x := range k {
		if x.kind == kind && strings.Contains(s, x.key) {
			return x.text
		}
	}
	return ""
}

// known-findings.txt: lines "finding: property=ID kind=replay|obligation key=<<...>> text"
func loadKnown(id string) knownList {
	var r knownList
	data, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	re := regexp.MustCompile(`^finding: property=(\S+) kind=(\S+) key=<<(.*?)>> (.*)$`)
	for _, l := range strings.Split(string(data), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == id {
			r = append(r, struct{ kind, key, text string }{m[2], m[3], m[4]})
		}
	}
	return r
}

// ---------------------------------------------------------------- replay on the real code

type replayRes struct {
	Ran      bool
	Failures []string
	Evals    int
	Distinct int
	Rules    []string
	Output   string
	Cmd      string
	Note     string
	Secs     float64
}

func (r *replayRes) summary() string {
	if !r.Ran {
		return "none: " + r.Note
	}
	return fmt.Sprintf("%d evaluations of the contracts on concrete inputs of the real code, %d failing, %.1fs; %s", r.Evals, len(r.Failures), r.Secs, r.Note)
}

// runReplay executes the concrete drivers of the property: Go tests under
// /verif/replay/<id>, laid over the working tree as package verifreplay/<id>,
// and in-package drivers under /verif/replay/<id>/in/<dir>.
func runReplay(id, tier string, seed int) *replayRes {
	r := &replayRes{}
	t0 := time.Now()
	defer func() { r.Secs = time.Since(t0).Seconds() }()
	dir := filepath.Join(verifDir(), "replay", id)
	fs, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	if len(fs) == 0 {
		r.Note = "no concrete driver"
		return r
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		r.Note = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	pkg := "./verifreplay_" + strings.ToLower(id)
	for _, f := range fs {
		repl[filepath.Join(repoDir(), pkg, filepath.Base(f))] = f
	}
	common, _ := filepath.Glob(filepath.Join(verifDir(), "replay", "common", "*.go"))
	for _, f := range common {
		repl[filepath.Join(repoDir(), "verifreplay_common", filepath.Base(f))] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	tmo := 240 * time.Second
	if tier == "thorough" {
		tmo = 700 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo+20*time.Second)
	defer cancel()
	bin := filepath.Join(tmp, "driver")
	env := append(os.Environ(), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_SCRATCH="+tmp)
	bld := exec.CommandContext(ctx, "go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, pkg)
	bld.Dir, bld.Env = repoDir(), env
	if o, err := bld.CombinedOutput(); err != nil {
		r.Note = "the concrete driver does not build against this tree"
		fmt.Println("# the concrete driver does not build:", trunc(string(o), 800))
		r.Output = string(o)
		return r
	}
	cmd := exec.CommandContext(ctx, bin, "-test.v", "-test.timeout", tmo.String())
	cmd.Dir, cmd.Env = tmp, env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	out, err := cmd.CombinedOutput()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // what it left running
	r.Output = string(out)
	last, _ := os.ReadFile(filepath.Join(tmp, "last-input"))
	lastIn := strings.TrimSpace(string(last))
	r.Cmd = "cd " + repoDir() + " && go test -c -vet=off -overlay OVERLAY -o /tmp/driver " + pkg + " && cd /tmp && VERIF_SEED=" + strconv.Itoa(seed) + " VERIF_TIER=" + tier + " /tmp/driver -test.v   (OVERLAY lays the files of " + dir + " over " + pkg + " and those of /verif/replay/common over verifreplay_common)"
	re := regexp.MustCompile(`VERIF-(FAIL|EVALS) (.*)`)
	for _, m := range re.FindAllStringSubmatch(r.Output, -1) {
		if m[1] == "FAIL" {
			r.Failures = append(r.Failures, m[2])
			continue
		}
		var n, d int
		var rule string
		f := strings.SplitN(m[2], " ", 3)
		if len(f) == 3 {
			n, _ = strconv.Atoi(f[0])
			d, _ = strconv.Atoi(f[1])
			rule = f[2]
		}
		r.Evals += n
		r.Distinct += d
		r.Rules = append(r.Rules, rule)
	}
	r.Ran = true
	if err != nil && len(r.Failures) == 0 {
		switch {
		case strings.Contains(r.Output, "panic: test timed out") || ctx.Err() != nil:
			r.Failures = append(r.Failures, "the real code does not terminate on the replayed input: "+lastIn+" | "+tail(r.Output, 600))
		case strings.Contains(r.Output, "panic:") || strings.Contains(r.Output, "fatal error:") || strings.Contains(r.Output, "--- FAIL") || strings.Contains(r.Output, "exit status"):
			r.Failures = append(r.Failures, "the real code crashes on the replayed input: "+lastIn+" | "+head(r.Output, "panic:", 1500))
		default:
			r.Note = "driver error: " + err.Error()
		}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head(s, from string, n int) string {
	if i := strings.Index(s, from); i >= 0 {
		s = s[i:]
	}
	return strings.ReplaceAll(trunc(s, n), "\n", " | ")
}
