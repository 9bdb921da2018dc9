//go:build go1.22

// Command zzverif is the runtime-monitoring harness for addchain. It is built
// inside the module (through a go build overlay) so that internal packages can
// be observed; it uses exported API only.
//
// Roles: the supervisor (default) starts a child that runs the workload under
// the monitors, survives its crashes and hangs, attributes them to a case by
// re-running the in-flight cases alone, writes evidence and prints the verdict.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode"
)

// Case is one unit of workload: a kind (which selects the monitor driver) and
// its arguments. It is everything needed to run the same thing again.
type Case struct {
	K string   `json:"k"`
	A []string `json:"a"`
}

// Prop describes the check of one property.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Gen         func(g *Gen)
	Run         map[string]func(c *Ctx, a []string)
	MaxWorkers  int
	NoRlimit    bool // address space limit not applicable (race detector)
	Floor       map[string]int64
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Gen collects cases. Everything is determined by seed and tier.
type Gen struct {
	Seed  int64
	Tier  string
	boost int // factor for the number of generated blocks
	cases []Case
	r     *rand.Rand
}

// Emit a case.
func (g *Gen) Emit(k string, a ...interface{}) {
	ss := make([]string, len(a))
	for i := range a {
		ss[i] = fmt.Sprint(a[i])
	}
	g.cases = append(g.cases, Case{K: k, A: ss})
}

// N picks a size according to tier.
func (g *Gen) N(quick, thorough int) int {
	if g.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Thorough reports whether this is the thorough tier.
func (g *Gen) Thorough() bool { return g.Tier == "thorough" }

// S returns a fresh sub-seed.
func (g *Gen) S() int64 { return g.r.Int63() }

// Blocks emits n cases of the given kind with fresh sub-seed and count.
func (g *Gen) Blocks(k string, n, count int, extra ...interface{}) {
	if g.Tier != "thorough" && g.boost > 1 {
		n *= g.boost
	}
	for i := 0; i < n; i++ {
		g.Emit(k, append([]interface{}{g.S(), count}, extra...)...)
	}
}

// boosts are the factors by which the quick tier generates more blocks where the
// monitors are cheap.
var boosts = map[string]int{
	"C05": 2, "C06": 2, "C07": 2, "C09": 2, "C10": 3, "C13": 2, "C15": 2,
	"C16": 8, "C17": 8, "C18": 5, "C19": 4, "C20": 8,
}

// Violation is a monitor's refutation.
type Violation struct {
	Case   Case   `json:"case"`
	Detail string `json:"detail"`
	Known  string `json:"known,omitempty"`
}

// Ctx is the monitor context of a worker.
type Ctx struct {
	run    *Run
	id     int
	evals  int64
	counts map[string]int64
	cur    Case
	sub    func() Case
	fails  int
	samp   map[string]int
	Seed   int64
	Tier   string
	kept   [keptResults]kept
	nkept  int
}

// kept is a result that a later call must not change.
type kept struct {
	what func() string
	now  func() string
	was  string
}

const keptResults = 12

// Keep remembers a result as snap shows it and checks later in the same case,
// after further calls of the code under test, that it is still the same.
func (c *Ctx) Keep(what func() string, snap func() string) {
	k := &c.kept[c.nkept%keptResults]
	if k.now != nil {
		c.checkKept(k)
	}
	*k = kept{what, snap, snap()}
	c.nkept++
}

func (c *Ctx) checkKept(k *kept) {
	c.counts["kept-results"]++
	now := k.now()
	if now == k.was {
		return
	}
	sub := c.sub
	c.sub = nil // the whole case replays this
	c.Fail("the result of %s was %s and has become %s after later calls", k.what(), clip(k.was, 2000), clip(now, 2000))
	c.sub = sub
}

// KeepBigs keeps a list of integers.
func (c *Ctx) KeepBigs(what func() string, xs []*big.Int) {
	c.Keep(what, func() string { return joinBig(xs) })
}

// Run is the state of a child run.
type Run struct {
	prop    *Prop
	mu      sync.Mutex
	viol    []Violation
	samples []string
	total   map[string]int64
	evals   int64
	shards  [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	ndist  int64
	ninter int64
	stop   int32
	slots  []byte
	start  []int64
	curIdx []int64
	bin    string
	tmp    string
}

const maxDistinct = 6000000

// Eval counts n evaluations of the monitor.
func (c *Ctx) Eval(n int) { c.evals += int64(n) }

// Count adds to a named event counter.
func (c *Ctx) Count(name string, n int) { c.counts[name] += int64(n) }

// Max keeps the maximum of a named gauge (name must start with "max").
func (c *Ctx) Max(name string, n int) {
	if int64(n) > c.counts[name] {
		c.counts[name] = int64(n)
	}
}

// Nontrivial records a distinct non-trivial observation.
func (c *Ctx) Nontrivial(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.NontrivialHash(h.Sum64())
}

// NontrivialHash is Nontrivial given a hash.
func (c *Ctx) NontrivialHash(v uint64) {
	s := &c.run.shards[(v^(v>>17))%64]
	s.mu.Lock()
	if len(s.m) < maxDistinct/64 {
		s.m[v] = struct{}{}
	}
	s.mu.Unlock()
}

// Sample keeps up to a few written-out cases per kind.
func (c *Ctx) Sample(kind string, f func() string) {
	if c.samp[kind] >= 1 {
		return
	}
	c.samp[kind]++
	s := f()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.run.mu.Lock()
	defer c.run.mu.Unlock()
	n := 0
	for _, t := range c.run.samples {
		if strings.HasPrefix(t, kind+": ") {
			n++
		}
	}
	if n < 2 && len(c.run.samples) < 24 {
		c.run.samples = append(c.run.samples, kind+": "+s)
	}
}

// At names the concrete case being run inside of a block.
func (c *Ctx) At(f func() Case) { c.sub = f }

// Fail records a violation.
func (c *Ctx) Fail(format string, args ...interface{}) { c.fail("", format, args...) }

// Known records a violation with the identifier under which it may be listed in
// the known findings file.
func (c *Ctx) Known(id, format string, args ...interface{}) { c.fail(id, format, args...) }

func (c *Ctx) fail(known, format string, args ...interface{}) {
	cs := c.cur
	if c.sub != nil {
		cs = c.sub()
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "FAIL %v: %s\n", cs, d)
	}
	c.run.mu.Lock()
	defer c.run.mu.Unlock()
	n := 0
	for _, v := range c.run.viol {
		if v.Known == known {
			n++
		}
	}
	if n < 40 {
		c.run.viol = append(c.run.viol, Violation{Case: cs, Detail: d, Known: known})
	}
	if known == "" {
		c.fails++
		if n > 40 {
			atomic.StoreInt32(&c.run.stop, 1)
		}
	}
}

// Failed reports whether the current worker has had too many failures.
func (c *Ctx) Stop() bool { return atomic.LoadInt32(&c.run.stop) != 0 || c.fails > 20 }

func (c *Ctx) exec(cs Case) {
	c.cur, c.sub = cs, nil
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f, ok := c.run.prop.Run[cs.K]
	if !ok {
		panic("unknown case kind " + cs.K)
	}
	c.kept, c.nkept = [keptResults]kept{}, 0
	f(c, cs.A)
	for i := range c.kept {
		if c.kept[i].now != nil {
			c.checkKept(&c.kept[i])
		}
	}
	c.kept = [keptResults]kept{}
}

// Guard runs f, converting a panic into a violation with the given context.
// Returns false if f panicked.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			c.Fail("%s panicked: %v\n%s", what, e, debug.Stack())
			ok = false
		}
	}()
	f()
	return true
}

func newctx(r *Run, id int, seed int64, tier string) *Ctx {
	return &Ctx{run: r, id: id, counts: map[string]int64{}, samp: map[string]int{}, Seed: seed, Tier: tier}
}

// Result of a child run.
type Result struct {
	Evals    int64            `json:"evals"`
	Distinct int64            `json:"distinct"`
	Counts   map[string]int64 `json:"counts"`
	Samples  []string         `json:"samples"`
	Viol     []Violation      `json:"viol"`
	Cases    int              `json:"cases"`
	Stopped  bool             `json:"stopped"`
}

func cases(p *Prop, seed int64, tier string) []Case {
	h := fnv.New64a()
	h.Write([]byte(p.ID))
	g := &Gen{Seed: seed, Tier: tier, boost: boosts[p.ID], r: rand.New(rand.NewSource(seed*1000003 ^ int64(h.Sum64()>>1)))}
	p.Gen(g)
	return g.cases
}

const slotSize = 64

// fuzzTime is the length of the coverage-guided stage of the thorough tier.
const fuzzTime = 10 * time.Minute

func child(p *Prop, cs []Case, dir, bin string, seed int64, tier string, only int, limit time.Duration) {
	debug.SetMaxStack(1 << 30)
	debug.SetGCPercent(400)
	if fn := os.Getenv("VERIF_PROF"); fn != "" {
		f, err := os.Create(fn)
		must(err)
		must(pprof.StartCPUProfile(f))
	}
	if os.Getenv("VERIF_RACE") == "" {
		lim := uint64(24 << 30)
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	r := &Run{prop: p, total: map[string]int64{}, bin: bin, tmp: dir}
	for i := range r.shards {
		r.shards[i].m = map[uint64]struct{}{}
	}
	nw := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	if p.MaxWorkers > 0 && nw > p.MaxWorkers {
		nw = p.MaxWorkers
	}
	idx := make([]int, 0, len(cs))
	if only >= 0 {
		idx = append(idx, only)
		nw = 1
	} else {
		for i := range cs {
			idx = append(idx, i)
		}
	}
	f, err := os.OpenFile(filepath.Join(dir, "slots"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	must(err)
	must(f.Truncate(int64(slotSize * (nw + 1))))
	r.slots, err = syscall.Mmap(int(f.Fd()), 0, slotSize*(nw+1), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	r.start = make([]int64, nw)

	var next int64
	var wg sync.WaitGroup
	ctxs := make([]*Ctx, nw)
	for w := 0; w < nw; w++ {
		ctxs[w] = newctx(r, w, seed, tier)
		wg.Add(1)
		go func(w int, c *Ctx) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= len(idx) || c.Stop() {
					return
				}
				binary.LittleEndian.PutUint64(r.slots[w*slotSize:], uint64(idx[i]+1))
				atomic.StoreInt64(&r.start[w], time.Now().UnixNano())
				t0 := time.Now()
				c.exec(cs[idx[i]])
				if os.Getenv("VERIF_TIMING") != "" {
					if d := time.Since(t0); d > 2*time.Second {
						fmt.Fprintf(os.Stderr, "slow case %v: %.1fs\n", cs[idx[i]], d.Seconds())
					}
				}
				atomic.StoreInt64(&r.start[w], 0)
				binary.LittleEndian.PutUint64(r.slots[w*slotSize:], 0)
			}
		}(w, ctxs[w])
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(time.Second)
wait:
	for {
		select {
		case <-done:
			break wait
		case <-tick.C:
			for w := range r.start {
				s := atomic.LoadInt64(&r.start[w])
				if s != 0 && time.Since(time.Unix(0, s)) > limit {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					sub := ""
					func() {
						defer func() { recover() }()
						if f := ctxs[w].sub; f != nil {
							b, _ := json.Marshal(f())
							sub = tail(string(b), 3000)
						}
					}()
					os.WriteFile(filepath.Join(dir, "hang"), []byte(fmt.Sprintf("worker %d exceeded %v in %s\n%s", w, limit, sub, buf)), 0o644)
					os.Exit(97)
				}
			}
		}
	}
	pprof.StopCPUProfile()
	res := Result{Counts: map[string]int64{}, Cases: len(idx)}
	for _, c := range ctxs {
		res.Evals += c.evals
		for k, v := range c.counts {
			if strings.HasPrefix(k, "max") {
				if v > res.Counts[k] {
					res.Counts[k] = v
				}
			} else {
				res.Counts[k] += v
			}
		}
		if c.fails > 20 {
			res.Stopped = true
		}
	}
	for i := range r.shards {
		res.Distinct += int64(len(r.shards[i].m))
	}
	sort.Strings(r.samples)
	res.Samples = r.samples
	res.Viol = r.viol
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "result.json.tmp"), b, 0o644))
	must(os.Rename(filepath.Join(dir, "result.json.tmp"), filepath.Join(dir, "result.json")))
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

type childEnd struct {
	res      *Result
	code     int
	signal   string
	stderr   string
	inflight []int
	hang     bool
	killed   bool
}

// runchild starts a child and waits for it.
func runchild(dir string, budget time.Duration, env []string, args ...string) childEnd {
	os.Remove(filepath.Join(dir, "result.json"))
	os.Remove(filepath.Join(dir, "slots"))
	os.Remove(filepath.Join(dir, "hang"))
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), env...)
	var eb bytes.Buffer
	cmd.Stderr = &capWriter{b: &eb, max: 4 << 20}
	if os.Getenv("VERIF_DEBUG") != "" || os.Getenv("VERIF_TIMING") != "" {
		cmd.Stderr = os.Stderr
	}
	cmd.Stdout = cmd.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	var e childEnd
	timer := time.AfterFunc(budget, func() {
		e.killed = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	cmd.Wait()
	timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	e.code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		e.signal = ws.Signal().String()
	}
	e.stderr = eb.String()
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			e.res = &r
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "slots")); err == nil {
		for i := 0; i+slotSize <= len(b); i += slotSize {
			if v := binary.LittleEndian.Uint64(b[i:]); v != 0 {
				e.inflight = append(e.inflight, int(v-1))
			}
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "hang")); err == nil {
		e.hang = true
		e.stderr += string(b)
	}
	return e
}

type capWriter struct {
	mu  sync.Mutex
	b   *bytes.Buffer
	max int
}

func (w *capWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := w.max - w.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		w.b.Write(p[:n])
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// goodEnd reports whether the child completed its workload. Under the race
// detector the exit code is 66 when races were reported.
func (e childEnd) good() bool {
	return e.res != nil && e.signal == "" && !e.hang && (e.code == 0 || e.code == 66)
}

func supervise(p *Prop, seed int64, tier, dir, bin, out, known string) int {
	t0 := time.Now()
	cs := cases(p, seed, tier)
	base := []string{"-role", "child", "-prop", p.ID, "-seed", fmt.Sprint(seed), "-tier", tier, "-tmp", dir, "-bin", bin}
	budget, caselimit, onelimit := 420*time.Second, 100*time.Second, 150*time.Second
	if tier == "thorough" {
		budget, caselimit, onelimit = 6*time.Hour, 900*time.Second, 1800*time.Second
	}
	var extra []Violation
	e := runchild(dir, budget, nil, append(base, "-limit", caselimit.String())...)
	inconclusive := ""
	if !e.good() {
		fmt.Fprintf(os.Stderr, "child ended abnormally: code=%d signal=%q hang=%v killed=%v in-flight=%v\n%s\n", e.code, e.signal, e.hang, e.killed, e.inflight, printable(tail(e.stderr, 3000)))
		if e.code == 3 && !e.hang {
			return 3
		}
		// Attribute: run the in-flight cases alone.
		for _, i := range e.inflight {
			one := runchild(dir, onelimit+20*time.Second, nil, append(base, "-limit", onelimit.String(), "-only", fmt.Sprint(i))...)
			if one.good() {
				if one.res != nil {
					extra = append(extra, one.res.Viol...)
				}
				continue
			}
			what := "crashed the process"
			if one.hang || one.killed {
				what = "did not terminate"
			}
			extra = append(extra, Violation{Case: cs[i], Detail: fmt.Sprintf("case %s (run alone, exit code %d %s)\n%s", what, one.code, one.signal, tail(one.stderr, 5000))})
			if one.hang || one.killed {
				break
			}
		}
		if len(extra) == 0 {
			// Not attributable to a single case: same workload, one worker.
			e2 := runchild(dir, budget, []string{"VERIF_WORKERS=2"}, append(base, "-limit", onelimit.String())...)
			if e2.good() {
				e = e2
			} else {
				inconclusive = "workload could not be completed and no single case reproduces it: " + tail(e2.stderr, 2000)
			}
		}
	}
	res := e.res
	if res == nil {
		res = &Result{Counts: map[string]int64{}}
	}
	viol := append(append([]Violation{}, res.Viol...), extra...)
	var fuzzed map[string]interface{}
	unlisted := 0
	for _, v := range viol {
		if v.Known == "" {
			unlisted++
		}
	}
	if tier == "thorough" && unlisted == 0 && inconclusive == "" {
		var fv []Violation
		fuzzed, fv = fuzzStage(p, os.Getenv("VERIF_FUZZBIN"), bin, dir, fuzzTime)
		viol = append(viol, fv...)
	}
	if p.NoRlimit {
		for _, blk := range races(dir) {
			viol = append(viol, Violation{Case: Case{K: "race-detector"}, Detail: "data race reported while running the workload:\n" + blk})
		}
	}

	// Split off known findings.
	listed := readKnown(known, p.ID)
	var fresh []Violation
	hit := map[string]Violation{}
	for _, v := range viol {
		if v.Known != "" {
			if _, ok := listed[v.Known]; ok {
				if _, dup := hit[v.Known]; !dup {
					hit[v.Known] = v
				}
				continue
			}
		}
		fresh = append(fresh, v)
	}
	for id := range hit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, listed[id])
	}

	// The monitors must have observed something.
	if len(fresh) == 0 && inconclusive == "" {
		for k, v := range p.Floor {
			if res.Counts[k] < v {
				inconclusive = fmt.Sprintf("monitor observed too little: %s=%d, want at least %d", k, res.Counts[k], v)
			}
		}
		if res.Evals == 0 || res.Distinct == 0 {
			inconclusive = "monitor observed nothing"
		}
	}

	// Evidence.
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": res.Evals, "distinct_nontrivial": res.Distinct, "rule": p.Rule,
			"samples": nonnil(res.Samples), "workload_cases": res.Cases, "observed": res.Counts,
			"known_findings_observed": len(hit),
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      time.Since(t0).Seconds(), "violations": len(fresh),
	}
	if fuzzed != nil {
		ev["coverage"].(map[string]interface{})["coverage_guided"] = fuzzed
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(out, 0o755))
	must(os.WriteFile(filepath.Join(out, p.ID+".json"), append(b, '\n'), 0o644))

	if len(fresh) > 0 {
		sort.SliceStable(fresh, func(i, j int) bool { return len(fresh[i].Detail) < len(fresh[j].Detail) })
		for i, v := range fresh {
			if i >= 5 {
				fmt.Printf("... %d further violations not listed\n", len(fresh)-i)
				break
			}
			rp := filepath.Join(out, fmt.Sprintf("%s.replay.%d.json", p.ID, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": p.ID, "seed": seed, "tier": tier, "case": v.Case, "detail": v.Detail,
				"how": "/verif/check " + p.ID + " -replay " + rp}, "", " ")
			must(os.WriteFile(rp, rb, 0o644))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
			fmt.Printf("  %s\n", printable(tail(v.Detail, 800)))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, inconclusive)
		return 3
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d cases=%d wall=%.1fs\n", p.ID, tier, res.Evals, res.Distinct, res.Cases, time.Since(t0).Seconds())
	return 0
}

// races collects deduplicated race detector reports.
func races(dir string) []string {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	var out []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			key := ""
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.Contains(l, "(") && strings.Contains(l, "addchain") {
					key += l[:strings.Index(l, "(")] + ";"
				}
			}
			if !seen[key] {
				seen[key] = true
				out = append(out, blk)
			}
		}
	}
	return out
}

func nonnil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// readKnown reads lines "known: property=<id> id=<key> <what fails>".
func readKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		m[f[2][3:]] = strings.Join(f[3:], " ")
	}
	return m
}

// printable escapes everything in s that a line-oriented reader of the output
// could choke on, and indents it.
func printable(s string) string {
	var b strings.Builder
	for _, r := range strings.ToValidUTF8(s, "\uFFFD") {
		switch {
		case r == '\n':
			b.WriteString("\n  ")
		case r == '\t' || unicode.IsPrint(r):
			b.WriteRune(r)
		default:
			fmt.Fprintf(&b, "\\u%04x", r)
		}
	}
	return b.String()
}

func main() {
	role := flag.String("role", "supervise", "")
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	tmp := flag.String("tmp", "", "")
	bin := flag.String("bin", "", "")
	out := flag.String("out", "", "")
	known := flag.String("known", "", "")
	only := flag.Int("only", -1, "")
	limit := flag.Duration("limit", 100*time.Second, "")
	replay := flag.String("replay", "", "")
	flag.Parse()

	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	switch {
	case *role == "child":
		child(p, cases(p, *seed, *tier), *tmp, *bin, *seed, *tier, *only, *limit)
	case *role == "list":
		for i, c := range cases(p, *seed, *tier) {
			fmt.Println(i, c)
		}
	case *replay != "":
		b, err := os.ReadFile(*replay)
		must(err)
		var v struct {
			Case Case   `json:"case"`
			Seed int64  `json:"seed"`
			Tier string `json:"tier"`
		}
		must(json.Unmarshal(b, &v))
		r := &Run{prop: p, total: map[string]int64{}, bin: *bin, tmp: *tmp}
		for i := range r.shards {
			r.shards[i].m = map[uint64]struct{}{}
		}
		c := newctx(r, 0, v.Seed, v.Tier)
		c.exec(v.Case)
		for _, x := range r.viol {
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", p.ID, *replay, printable(x.Detail))
		}
		if len(r.viol) > 0 {
			os.Exit(1)
		}
		fmt.Println("replay: no violation")
	default:
		os.Exit(supervise(p, *seed, *tier, *tmp, *bin, *out, *known))
	}
}
