//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	osexec "os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "a case counts once per distinct (list size, limit, observed sequence of algorithm starts and finishes), or per distinct (target, limit, processors, mode) of a real ensemble run with more than one algorithm",
		Assumptions: []string{
			"an algorithm is running while control is inside its FindChain method",
			"results are equal when algorithm, target value, chain, program and error text are equal",
			"the race detector sees accesses in Go code; writes made by assembly are seen through the write-protected target and the results",
			"a schedule in which nothing happens for 30 s is a deadlock",
		},
		Gen: c12gen,
		Run: map[string]func(*Ctx, []string){
			"sched":    c12sched,
			"one":      c12one,
			"random":   c12random,
			"hold":     c12hold,
			"free":     c12free,
			"ensemble": c12ensemble,
			"history":  c12history,
			"mixed":    c12mixed,
			"readonly": c12readonly,
			"cli":      c12cli,
		},
		MaxWorkers: 6,
		NoRlimit:   true,
		Floor: map[string]int64{"schedules driven": 3000, "uncontrolled executions": 200, "ensemble executions": 20,
			"write-protected target executions": 5, "command runs": 2, "library algorithms run in parallel": 200},
	})
}

func c12gen(g *Gen) {
	g.Emit("hold", 31000)
	kmax := g.N(6, 7)
	for k := 0; k <= kmax; k++ {
		for l := 1; l <= k+2; l++ {
			n := 1
			if k == 7 {
				n = 4
			}
			for s := 0; s < n; s++ {
				g.Emit("sched", k, l, g.S(), s, n)
			}
		}
	}
	for i := 0; i < g.N(6, 60); i++ {
		g.Emit("random", g.S(), g.N(40, 200), 7+i%6*8)
	}
	g.Emit("hold", 1500)
	g.Emit("hold", 12000)
	if g.Thorough() {
		g.Emit("hold", 70000)
		g.Emit("hold", 310000)
	}
	for i := 0; i < g.N(12, 200); i++ {
		g.Emit("free", g.S(), g.N(30, 100), i%4)
	}
	targets := []string{"1", "2", "31", "0xffff", "0xdeadbeef", "0xfffffffffffffffb", "0x8000000000000000"}
	limits := []int{1, 2, 3, 4, 8, 16, 64, 1000}
	for i, t := range targets {
		for j := 0; j < g.N(2, 8); j++ {
			g.Emit("ensemble", t, limits[(i*3+j*5)%8], []int{1, 2, 8, 3}[(i+j)%4], j%3)
		}
	}
	big := []string{
		"0x7fffffffffffffffffffffffffffffed", "0xffffffff00000001000000000000000000000000fffffffffffffffffffffffd",
		"0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeb"}
	if g.Thorough() {
		big = append(big, "0xfffffffffffffffffffffffffffffffeffffffffffffffff", "0x3fffffffffffffffffffffffffffffffffffffffc",
			"0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffd", "0x123456789abcdef0fedcba9876543210deadbeefcafebabe0123456789")
	}
	for i, t := range big {
		for j := 0; j < g.N(1, 6); j++ {
			g.Emit("ensemble", t, limits[(i*5+3+j)%8], []int{8, 2, 4, 1}[(i+j)%4], (i+j)%3)
		}
	}
	for i := 0; i < g.N(3, 30); i++ {
		g.Emit("history", g.S(), g.N(4, 8), 20+i%3*20)
	}
	for i := 0; i < g.N(16, 200); i++ {
		g.Emit("mixed", g.S(), 8+i%5*6, g.N(24, 60))
	}
	for i, t := range []string{"1", "255", "0xfffffffb", "0xffffffffffffffff", "0x10000000000000000", "0xffffffffffffffffffffffe1", "0x1f0f0f0f00ff00ff1111111111111111"} {
		g.Emit("readonly", t, []int{8, 1, 3, 64}[i%4])
	}
	for i := 0; i < g.N(0, 40); i++ {
		g.Emit("readonly", hexs(randExact(rand.New(rand.NewSource(g.S())), 20+i*4)), 1+i%9)
	}
	for i, e := range []string{"2^40-3", "0xdeadbeef", "2^127-3", "2^255-21"}[:g.N(3, 4)] {
		g.Emit("cli", e, []int{8, 3, 1, 5}[i])
	}
}

func randExact(r *rand.Rand, bits int) *big.Int {
	x := new(big.Int).Rand(r, new(big.Int).Lsh(bi(1), uint(bits)))
	return x.SetBit(x, bits-1, 1)
}

// mixChain is a valid addition chain for n whose shape depends on r.
func mixChain(r *rand.Rand, n *big.Int, wmax int) addchain.Chain {
	w := 1 + r.Intn(wmax)
	for n.BitLen() <= w {
		w--
	}
	if w < 1 {
		w = 1
	}
	set := map[string]*big.Int{}
	add := func(x *big.Int) { set[x.Text(62)] = new(big.Int).Set(x) }
	for i := int64(1); i < 1<<uint(w) && bi(i).Cmp(n) <= 0; i++ {
		add(bi(i))
	}
	bits := n.BitLen()
	v := bi(0)
	for pos := bits; pos > 0; {
		t := 1 + r.Intn(w)
		if t > pos {
			t = pos
		}
		d := new(big.Int).Rsh(n, uint(pos-t))
		d.And(d, bi(1<<uint(t)-1))
		if v.Sign() != 0 {
			for i := 0; i < t; i++ {
				v.Lsh(v, 1)
				add(v)
			}
		}
		if v.Add(v, d); v.Sign() != 0 {
			add(v)
		}
		pos -= t
	}
	c := addchain.Chain{}
	for _, x := range set {
		c = append(c, x)
	}
	sort.Slice(c, func(i, j int) bool { return c[i].Cmp(c[j]) < 0 })
	return c
}

// ctrl drives the algorithms of one execution.
type ctrl struct {
	limit   int64
	running int64
	over    int64 // highest number running at once
	events  chan int
}

// scripted is a controlled algorithm: FindChain reports its start, waits for
// its gate, reports its finish and returns the scripted result.
type scripted struct {
	name  string
	chain addchain.Chain
	err   error
	gate  chan struct{}
	id    int
	ctl   *ctrl
	slow  time.Duration
	spin  int
	calls int32
	live  *int64
	peak  *int64
	share bool
	nest  func()
}

func (s *scripted) String() string { return s.name }

func raise(p *int64, v int64) {
	for {
		o := atomic.LoadInt64(p)
		if v <= o || atomic.CompareAndSwapInt64(p, o, v) {
			return
		}
	}
}

func (s *scripted) FindChain(n *big.Int) (addchain.Chain, error) {
	atomic.AddInt32(&s.calls, 1)
	if s.ctl != nil {
		raise(&s.ctl.over, atomic.AddInt64(&s.ctl.running, 1))
		s.ctl.events <- s.id
		<-s.gate
		s.ctl.events <- ^s.id
		atomic.AddInt64(&s.ctl.running, -1)
	}
	if s.live != nil {
		raise(s.peak, atomic.AddInt64(s.live, 1))
	}
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	for i := 0; i < s.spin; i++ {
		runtime.Gosched()
	}
	if s.nest != nil {
		s.nest()
	}
	if s.live != nil {
		atomic.AddInt64(s.live, -1)
	}
	if s.chain == nil {
		return nil, s.err
	}
	if s.share {
		return s.chain, s.err
	}
	c := make(addchain.Chain, len(s.chain))
	for i, x := range s.chain {
		if x != nil {
			c[i] = new(big.Int).Set(x)
		}
	}
	return c, s.err
}

// newScripted picks a result: mostly distinct valid chains, sometimes wrong or
// failing ones.
func newScripted(r *rand.Rand, n *big.Int, id, wmax int) *scripted {
	s := &scripted{id: id, name: fmt.Sprintf("scripted(%d)", id)}
	if r.Intn(4) == 0 {
		s.name = "scripted" // same name, different algorithm
	}
	switch r.Intn(12) {
	case 0:
		s.err = fmt.Errorf("scripted failure %d", id)
	case 1:
		s.chain = mixChain(r, new(big.Int).Add(n, bi(int64(1+r.Intn(5)))), wmax) // other target
	case 2:
		s.chain = mixChain(r, n, wmax) // not a chain
		s.chain = append(s.chain[:len(s.chain):len(s.chain)], new(big.Int).Mul(n, bi(100003)))
	case 3:
		s.chain = mixChain(r, n, wmax) // chain and error
		s.err = errors.New("partial")
	default:
		s.chain = mixChain(r, n, wmax)
		if r.Intn(3) == 0 && len(s.chain) <= 40 {
			s.chain = shuffleChain(r, s.chain)
		}
	}
	return s
}

// shuffleChain returns the elements of an ascending chain in some other order
// that is a valid chain with the same end.
func shuffleChain(r *rand.Rand, c addchain.Chain) addchain.Chain {
	out := addchain.Chain{c[0]}
	rest := append(addchain.Chain{}, c[1:]...)
	sum := new(big.Int)
	for len(rest) > 0 {
		var ready []int
		for k, x := range rest {
			if k == len(rest)-1 && k > 0 {
				break // the end stays last
			}
		search:
			for i := range out {
				for j := i; j < len(out); j++ {
					if sum.Add(out[i], out[j]).Cmp(x) == 0 {
						ready = append(ready, k)
						break search
					}
				}
			}
		}
		if len(ready) == 0 {
			return c // not a chain
		}
		k := ready[r.Intn(len(ready))]
		out = append(out, rest[k])
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	return out
}

// solo executes an ungated copy of the algorithm alone.
func solo(n *big.Int, s *scripted) exec.Result {
	return exec.Execute(n, &scripted{name: s.name, chain: s.chain, err: s.err})
}

// sameResult describes how two results differ, "" if not.
func sameResult(got, want exec.Result) string {
	switch {
	case (got.Err == nil) != (want.Err == nil) || got.Err != nil && got.Err.Error() != want.Err.Error():
		return fmt.Sprintf("error %v, alone %v", got.Err, want.Err)
	case got.Target == nil || got.Target.Cmp(want.Target) != 0:
		return fmt.Sprintf("target %v, alone %v", got.Target, want.Target)
	case len(got.Chain) != len(want.Chain):
		return fmt.Sprintf("chain of length %d, alone %d", len(got.Chain), len(want.Chain))
	case len(got.Program) != len(want.Program):
		return fmt.Sprintf("program of length %d, alone %d", len(got.Program), len(want.Program))
	}
	for i := range got.Chain {
		if got.Chain[i] == nil || got.Chain[i].Cmp(want.Chain[i]) != 0 {
			return fmt.Sprintf("chain element %d is %v, alone %v", i, got.Chain[i], want.Chain[i])
		}
	}
	for i := range got.Program {
		if got.Program[i] != want.Program[i] {
			return fmt.Sprintf("operation %d is %v, alone %v", i, got.Program[i], want.Program[i])
		}
	}
	return ""
}

// judgeResults compares a parallel execution of scripted algorithms.
func judgeResults(c *Ctx, n *big.Int, ss []*scripted, rs []exec.Result) {
	if len(rs) != len(ss) {
		c.Fail("%d results for %d algorithms", len(rs), len(ss))
		return
	}
	memo := map[*scripted]exec.Result{}
	for i, s := range ss {
		if a, ok := rs[i].Algorithm.(*scripted); !ok || a != s {
			c.Fail("result %d is that of algorithm %v, want %v (algorithm %d)", i, rs[i].Algorithm, s, i)
			return
		}
		w, ok := memo[s]
		if !ok {
			w = solo(n, s)
			memo[s] = w
		}
		if d := sameResult(rs[i], w); d != "" {
			c.Fail("result %d of %d: %s", i, len(ss), d)
			return
		}
	}
	c.Count("results compared", len(ss))
}

const quiet = 15 * time.Millisecond

// drive executes the algorithms under the controller. choose picks which of the
// running algorithms to let finish. Returns the events.
func drive(c *Ctx, n *big.Int, ss []*scripted, limit int, lg *log.Logger, choose func(running []int) int) (trace []int, ok bool) {
	ctl := &ctrl{limit: int64(limit), events: make(chan int, 4*len(ss)+16)}
	for _, s := range ss {
		s.ctl, s.gate = ctl, make(chan struct{}, 8)
	}
	as := make([]alg.ChainAlgorithm, len(ss))
	for i, s := range ss {
		as[i] = s
	}
	p := exec.NewParallel()
	p.SetConcurrency(limit)
	if lg != nil {
		p.SetLogger(lg)
	}
	t := new(big.Int).Set(n)
	ret := make(chan []exec.Result, 1)
	go func() { ret <- p.Execute(t, as) }()

	running := map[int]bool{}
	finished := 0
	started := 0
	var early []exec.Result
	returned := false
	take := func(e int) {
		trace = append(trace, e)
		if e >= 0 {
			running[e] = true
			started++
		} else {
			delete(running, ^e)
			finished++
		}
	}
	poll := func() {
		for {
			select {
			case e := <-ctl.events:
				take(e)
			case early = <-ret:
				returned = true
			default:
				return
			}
		}
	}
	fail := func(format string, args ...interface{}) {
		c.Fail("%d algorithms, limit %d, events %s: %s", len(ss), limit, traceString(trace), fmt.Sprintf(format, args...))
		for _, s := range ss { // let everything go
			for i := 0; i < cap(s.gate); i++ {
				select {
				case s.gate <- struct{}{}:
				default:
				}
			}
		}
		ok = false
	}
	bad := func() bool {
		if int(atomic.LoadInt64(&ctl.over)) > limit {
			fail("%d algorithms were running at once", atomic.LoadInt64(&ctl.over))
			return true
		}
		if returned && finished < len(ss) {
			fail("returned when only %d had finished (%d running)", finished, len(running))
			return true
		}
		return false
	}
	for finished < len(ss) {
		// Wait for algorithms to start.
		last := time.Now()
		for {
			before := len(trace)
			poll()
			if bad() {
				return trace, false
			}
			if len(trace) != before {
				last = time.Now()
			}
			want := limit
			if rest := len(ss) - finished; rest < want {
				want = rest
			}
			if len(running) >= want {
				break
			}
			idle := time.Since(last)
			if len(running) > 0 && idle > quiet {
				c.Count("steps below the limit", 1)
				break
			}
			if idle > 30*time.Second {
				fail("no algorithm starts and the execution does not end")
				return trace, false
			}
			if idle > time.Millisecond {
				time.Sleep(100 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
		}
		// Time for one too many to start, or for an early return.
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		poll()
		if bad() {
			return trace, false
		}
		ids := make([]int, 0, len(running))
		for i := range running {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		pick := ids[choose(ids)%len(ids)]
		target := finished + 1
		ss[pick].gate <- struct{}{}
		last = time.Now()
		for finished < target {
			poll()
			if time.Since(last) > 30*time.Second {
				fail("algorithm %d does not finish", pick)
				return trace, false
			}
			runtime.Gosched()
		}
	}
	if !returned {
		select {
		case early = <-ret:
		case <-time.After(30 * time.Second):
			fail("does not return after all have finished")
			return trace, false
		}
	}
	poll()
	if started != len(ss) {
		c.Count("algorithms run more than once", started-len(ss))
	}
	c.Eval(1)
	if t.Cmp(n) != 0 {
		c.Fail("target changed from %v to %v", n, t)
		return trace, false
	}
	f := c.fails
	judgeResults(c, n, ss, early)
	c.Max("max running at once", int(ctl.over))
	return trace, c.fails == f
}

func traceString(tr []int) string {
	var b strings.Builder
	for _, e := range tr {
		if e >= 0 {
			fmt.Fprintf(&b, "s%d ", e)
		} else {
			fmt.Fprintf(&b, "f%d ", ^e)
		}
	}
	return strings.TrimSpace(b.String())
}

func (c *Ctx) noteSchedule(k, limit int, tr []int) {
	c.Count("schedules driven", 1)
	if k > 1 {
		c.Nontrivial("sched", fmt.Sprint(k, limit), traceString(tr))
	}
	if k < 5 {
		return
	}
	c.Sample("schedule", func() string { return fmt.Sprintf("k=%d limit=%d: %s", k, limit, traceString(tr)) })
}

// slowWriter is a log output that yields or sleeps.
type slowWriter struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	x := w.r.Intn(24)
	w.mu.Unlock()
	switch {
	case x == 0:
		time.Sleep(time.Duration(x+1) * 50 * time.Microsecond)
	case x < 12:
		for i := 0; i < x; i++ {
			runtime.Gosched()
		}
	}
	return len(p), nil
}

func slowLogger(seed int64) *log.Logger {
	return log.New(&slowWriter{r: rand.New(rand.NewSource(seed))}, "", 0)
}

// c12sched: every completion order of k controlled algorithms for a limit.
func c12sched(c *Ctx, a []string) {
	k, limit, seed, part, parts := atoi(a[0]), atoi(a[1]), atoi64(a[2]), atoi(a[3]), atoi(a[4])
	path := []int{}
	for count := 0; ; count++ {
		if c.Stop() {
			return
		}
		var width []int
		choices := []int{}
		depth := 0
		skip := parts > 1 && len(path) > 0 && path[0]%parts != part
		if !skip {
			c.At(func() Case { return Case{"one", []string{a[0], a[1], a[2], fmt.Sprint(count), joinInts(choices)}} })
			tr, ok := c12run(c, k, limit, seed, int64(count), func(ids []int) int {
				x := 0
				if depth < len(path) {
					x = path[depth]
				} else if parts > 1 && depth == 0 {
					x = part
				}
				if x >= len(ids) { // fewer running than on the previous visit
					x = len(ids) - 1
				}
				depth++
				width = append(width, len(ids))
				choices = append(choices, x)
				return x
			})
			if !ok {
				return
			}
			c.noteSchedule(k, limit, tr)
		} else {
			choices = append(choices, path...)
			width = append(width, limit)
			choices = choices[:1]
		}
		// Next path in the tree of choices.
		i := len(choices) - 1
		for i >= 0 && choices[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return
		}
		if i == 0 && parts > 1 {
			x := choices[0] + parts
			if x >= width[0] {
				return
			}
			path = []int{x}
			continue
		}
		path = append(choices[:i:i], choices[i]+1)
	}
}

func joinInts(xs []int) string {
	ss := make([]string, len(xs))
	for i, x := range xs {
		ss[i] = fmt.Sprint(x)
	}
	return strings.Join(ss, ",")
}

func c12run(c *Ctx, k, limit int, seed, count int64, choose func([]int) int) ([]int, bool) {
	r := rand.New(rand.NewSource(seed + count))
	n := bi(60 + r.Int63n(200))
	ss := make([]*scripted, k)
	for i := range ss {
		ss[i] = newScripted(r, n, i, 5)
	}
	var lg *log.Logger
	if count%3 == 1 {
		lg = slowLogger(seed ^ count)
	}
	return drive(c, n, ss, limit, lg, choose)
}

// c12one replays one controlled schedule.
func c12one(c *Ctx, a []string) {
	var path []int
	for _, f := range strings.Split(a[4], ",") {
		if f != "" {
			path = append(path, atoi(f))
		}
	}
	d := 0
	c12run(c, atoi(a[0]), atoi(a[1]), atoi64(a[2]), atoi64(a[3]), func(ids []int) int {
		d++
		if d <= len(path) {
			return path[d-1]
		}
		return 0
	})
}

// c12random: random completion orders of longer lists.
func c12random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for j := 0; j < atoi(a[1]) && !c.Stop(); j++ {
		k := 2 + r.Intn(atoi(a[2]))
		limit := 1 + r.Intn(k+2)
		switch r.Intn(8) {
		case 0:
			limit = 1 << uint(10+r.Intn(50))
		case 1:
			limit = k
		case 2:
			limit = k - 1
		}
		if limit < 1 {
			limit = 1
		}
		sub := r.Int63()
		rr := rand.New(rand.NewSource(sub))
		mode := r.Intn(4)
		tr, ok := c12run(c, k, limit, sub, int64(r.Intn(3)), func(ids []int) int {
			switch mode {
			case 0:
				return len(ids) - 1 // newest first
			case 1:
				return 0
			}
			return rr.Intn(len(ids))
		})
		if !ok {
			return
		}
		c.noteSchedule(k, limit, tr)
	}
}

// c12hold: one algorithm takes long; nothing may return before it does.
func c12hold(c *Ctx, a []string) {
	d := time.Duration(atoi(a[0])) * time.Millisecond
	n := bi(1000)
	r := rand.New(rand.NewSource(7))
	var wg sync.WaitGroup
	for k := 1; k <= 3; k++ {
		for limit := 1; limit <= 4; limit++ {
			for slow := 0; slow < k; slow++ {
				ss := make([]*scripted, k)
				as := make([]alg.ChainAlgorithm, k)
				for i := range ss {
					ss[i] = &scripted{id: i, name: "held", chain: mixChain(r, n, 4)}
					as[i] = ss[i]
				}
				ss[slow].slow = d
				wg.Add(1)
				var rs []exec.Result
				go func(k, limit, slow int) {
					defer wg.Done()
					p := exec.NewParallel()
					p.SetConcurrency(limit)
					t0 := time.Now()
					rs = p.Execute(n, as)
					if e := time.Since(t0); e < d {
						c.Fail("%d algorithms, limit %d: returned after %v, algorithm %d takes %v", k, limit, e, slow, d)
					}
				}(k, limit, slow)
				defer func() { judgeResults(c, n, ss, rs); c.Eval(1); c.Count("held executions", 1) }()
			}
		}
	}
	wg.Wait()
}

// c12free: uncontrolled executions. The instrumentation adds no ordering between
// an algorithm's result being stored and the executor's return.
func c12free(c *Ctx, a []string) {
	seed := atoi64(a[0])
	mode := atoi(a[2])
	for j := 0; j < atoi(a[1]) && !c.Stop(); j++ {
		sub := seed + int64(j)
		c.At(func() Case { return Case{"free", []string{fmt.Sprint(sub), "1", a[2]}} })
		r := rand.New(rand.NewSource(sub))
		n := randExact(r, 7+r.Intn(30))
		k := r.Intn(24)
		switch r.Intn(20) {
		case 0:
			k = 1000
		case 1:
			k = 100 + r.Intn(200)
		case 2:
			k = r.Intn(3)
		}
		limits := []int{1, 2, 3, 4, 8, 16, 64, 1000, k + 1, k, k - 1, r.Intn(k+1) + 1}
		limit := limits[r.Intn(len(limits))]
		if limit < 1 {
			limit = 1
		}
		wmax := 4
		if r.Intn(4) == 0 && k < 30 {
			wmax = 7
		}
		live, peak := make([]int64, 2), make([]int64, 2)
		mk := func(x int) []*scripted {
			ss := make([]*scripted, k)
			for i := range ss {
				if i > 0 && r.Intn(6) == 0 {
					ss[i] = ss[r.Intn(i)] // the same algorithm again
					continue
				}
				ss[i] = newScripted(r, n, i, wmax)
				if mode >= 1 {
					ss[i].live, ss[i].peak = &live[x], &peak[x]
					ss[i].spin = r.Intn(20)
					if r.Intn(8) == 0 {
						ss[i].slow = time.Duration(r.Intn(300)) * time.Microsecond
					}
				}
				ss[i].share = r.Intn(4) == 0
			}
			if mode == 3 && k > 1 {
				// Several algorithms hand out one and the same chain.
				x := ss[r.Intn(k)]
				for i := range ss {
					if r.Intn(3) == 0 && ss[i] != x {
						ss[i] = &scripted{id: i, name: "shared", chain: x.chain, err: x.err, share: true, live: ss[i].live, peak: ss[i].peak, spin: ss[i].spin}
					}
				}
			}
			return ss
		}
		p := exec.NewParallel()
		p.SetConcurrency(limit)
		if mode == 2 {
			p.SetLogger(slowLogger(sub))
		}
		run := func(ss []*scripted) []exec.Result {
			as := make([]alg.ChainAlgorithm, k)
			for i, s := range ss {
				as[i] = s
			}
			rs := p.Execute(n, as)
			for i := range as {
				if as[i] != alg.ChainAlgorithm(ss[i]) {
					c.Fail("execution changed the list of algorithms at %d", i)
				}
			}
			return rs
		}
		n0 := new(big.Int).Set(n)
		s0, s1 := mk(0), mk(1)
		if mode == 3 && k > 0 && k < 50 {
			// An algorithm that itself uses the executor.
			q := p
			inner := newScripted(r, n, 0, 3)
			s0[r.Intn(k)].nest = func() { q.Execute(n, []alg.ChainAlgorithm{inner, inner}) }
		}
		var r0, r1 []exec.Result
		switch mode {
		case 0, 2: // one after the other, executor reused
			r0 = run(s0)
			judgeResults(c, n, s0, r0)
			r1 = run(s1)
			judgeResults(c, n, s1, r1)
		default: // two executions at once
			var wg sync.WaitGroup
			wg.Add(1)
			go func() { defer wg.Done(); r1 = run(s1) }()
			r0 = run(s0)
			wg.Wait()
			judgeResults(c, n, s0, r0)
			judgeResults(c, n, s1, r1)
		}
		for x := range peak {
			if peak[x] > int64(limit) {
				c.Fail("%d algorithms, limit %d: %d were running at once", k, limit, peak[x])
			}
			c.Max("max running at once", int(peak[x]))
		}
		if n.Cmp(n0) != 0 {
			c.Fail("target changed from %v to %v", n0, n)
		}
		c.Eval(2)
		c.Count("uncontrolled executions", 2)
		c.Count("algorithms run uncontrolled", 2*k)
		if k > 1 {
			c.Nontrivial("free", fmt.Sprint(sub, mode, limit))
		}
	}
}

var soloCache sync.Map // target -> []exec.Result

// soloEnsemble executes every algorithm of the ensemble alone.
func soloEnsemble(n *big.Int) []exec.Result {
	if v, ok := soloCache.Load(n.String()); ok {
		return v.([]exec.Result)
	}
	as := ensemble.Ensemble()
	rs := make([]exec.Result, len(as))
	for i, a := range as {
		rs[i] = exec.Execute(new(big.Int).Set(n), a)
	}
	soloCache.Store(n.String(), rs)
	return rs
}

func judgeEnsemble(c *Ctx, what string, n *big.Int, as []alg.ChainAlgorithm, rs []exec.Result) {
	want := soloEnsemble(n)
	if len(rs) != len(want) || len(as) != len(want) {
		c.Fail("%s: %d results, want %d", what, len(rs), len(want))
		return
	}
	for i := range rs {
		if rs[i].Algorithm == nil || rs[i].Algorithm.String() != want[i].Algorithm.String() || !reflect.DeepEqual(rs[i].Algorithm, as[i]) {
			c.Fail("%s: result %d is that of %v, want %v", what, i, rs[i].Algorithm, want[i].Algorithm)
			return
		}
		if d := sameResult(rs[i], want[i]); d != "" {
			c.Fail("%s: result %d (%s): %s", what, i, want[i].Algorithm, d)
			return
		}
	}
	c.Count("ensemble results compared", len(rs))
}

var gomaxprocs sync.Mutex

func c12ensemble(c *Ctx, a []string) {
	n := parseBig(a[0])
	limit, procs, mode := atoi(a[1]), atoi(a[2]), atoi(a[3])
	soloEnsemble(n)
	gomaxprocs.Lock()
	defer gomaxprocs.Unlock()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	as := ensemble.Ensemble()
	p := exec.NewParallel()
	p.SetConcurrency(limit)
	switch mode {
	case 1:
		p.SetLogger(slowLogger(int64(limit)))
	case 2:
		p.SetLogger(log.New(io.Discard, "x", log.LstdFlags))
	}
	t := new(big.Int).Set(n)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	reads := 0
	go func() { // reads the target all the time; any write races with it
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			if t.Cmp(n) != 0 || t.Sign() <= 0 {
				c.Fail("target %v observed as %v during execution", n, t)
				return
			}
			reads++
			if reads%64 == 0 {
				time.Sleep(50 * time.Microsecond)
			}
		}
	}()
	rs := p.Execute(t, as)
	judgeEnsemble(c, fmt.Sprintf("target %v limit %d GOMAXPROCS %d", n, limit, procs), n, as, rs)
	close(stop)
	wg.Wait()
	c.Eval(1)
	c.Count("ensemble executions", 1)
	c.Count("concurrent reads of the target", reads)
	c.Nontrivial("ensemble", a[0], a[1], a[2], a[3])
	c.Sample("ensemble", func() string { return fmt.Sprintf("target %v limit %d: %d algorithms", n, limit, len(as)) })
}

// c12history: the same algorithm values used for several targets at once and
// again afterwards; every use must equal a first use in isolation.
func c12history(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	m, bits := atoi(a[1]), atoi(a[2])
	ts := make([]*big.Int, m)
	for i := range ts {
		ts[i] = randExact(r, bits-r.Intn(8))
	}
	as := ensemble.Ensemble()
	p := exec.NewParallel()
	p.SetConcurrency(1 + r.Intn(6))
	var wg sync.WaitGroup
	rs := make([][]exec.Result, m)
	for i := range ts {
		wg.Add(1)
		go func(i int) { defer wg.Done(); rs[i] = p.Execute(ts[i], as) }(i)
	}
	wg.Wait()
	again := p.Execute(ts[0], as)
	for i := range ts {
		judgeEnsemble(c, fmt.Sprintf("one of %d concurrent executions, target %v", m, ts[i]), ts[i], as, rs[i])
	}
	judgeEnsemble(c, fmt.Sprintf("repeated execution, target %v", ts[0]), ts[0], as, again)
	c.Eval(m + 1)
	c.Count("ensemble executions", m+1)
	c.Nontrivial("history", a[0])
}

// c12mixed: lists of all kinds of algorithms the library exports, the same ones
// several times and several ones sharing their parts.
func c12mixed(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	bits, k := atoi(a[1]), atoi(a[2])
	n := randTarget(r, bits, 4, 8)
	if r.Intn(8) == 0 {
		n = bi(int64(1 + r.Intn(9)))
	}
	var as []alg.ChainAlgorithm
	var specs []string
	add := func(a alg.ChainAlgorithm, spec string) { as, specs = append(as, a), append(specs, spec) }
	seqs := append([]string{}, largeSeqs...)
	for _, x := range allSeqs {
		if l := seqLimit(x); l > 0 && n.Cmp(bi(l/4)) <= 0 {
			seqs = append(seqs, x, x)
		}
	}
	for len(as) < k {
		switch r.Intn(6) {
		case 0: // the same algorithm again
			if len(as) > 0 {
				i := r.Intn(len(as))
				add(as[i], specs[i])
			}
		case 1: // decomposers with one sequence algorithm
			name := seqs[r.Intn(len(seqs))]
			seq := mkSeq(name)
			for _, d := range []dict.Decomposer{dict.FixedWindow{K: uint(1 + r.Intn(6))}, dict.SlidingWindow{K: uint(1 + r.Intn(6))}, dict.RunLength{T: uint(r.Intn(6))}, dict.Hybrid{K: uint(1 + r.Intn(4)), T: uint(r.Intn(9))}} {
				add(dict.NewAlgorithm(d, seq), fmt.Sprintf("%s with shared %s", d, name))
			}
			add(dict.NewRunsAlgorithm(seq), "runs with shared "+name)
			add(alg.AsChainAlgorithm(seq), "shared "+name)
		case 2: // different heuristics with shared parts
			name := []string{"h.hd", "h.ha"}[r.Intn(2)]
			h := mkHeuristic(name[2:])
			d := dict.SlidingWindow{K: uint(2 + r.Intn(4))}
			for j := 0; j < 2; j++ {
				add(dict.NewAlgorithm(d, heuristic.NewAlgorithm(h)), "sliding window with shared heuristic "+name)
				add(opt.Algorithm{Algorithm: dict.NewAlgorithm(dict.RunLength{T: 3}, heuristic.NewAlgorithm(heuristic.UseFirst(heuristic.Halving{}, h)))}, "runs with shared heuristic "+name)
			}
		case 3: // all strategies, where affordable
			for _, st := range contfrac.Strategies {
				if l := cfLimits[st.String()]; l == 0 || n.Cmp(bi(l/4)) <= 0 {
					add(alg.AsChainAlgorithm(contfrac.NewAlgorithm(st)), "strategy "+st.String())
				}
			}
		default:
			s, _, _ := randAlg(r, bits)
			add(mkAlg(s), s)
		}
	}
	want := make([]exec.Result, len(as))
	for i, x := range as {
		want[i] = exec.Execute(new(big.Int).Set(n), x)
	}
	t := new(big.Int).Set(n)
	p := exec.NewParallel()
	p.SetConcurrency(1 + r.Intn(len(as)+2))
	for round := 0; round < 2; round++ {
		rs := p.Execute(t, as)
		if len(rs) != len(as) {
			c.Fail("%d results for %d algorithms", len(rs), len(as))
			return
		}
		for i := range rs {
			if !reflect.DeepEqual(rs[i].Algorithm, as[i]) {
				c.Fail("target %v algorithms %q: result %d is that of %v", n, specs, i, rs[i].Algorithm)
			} else if d := sameResult(rs[i], want[i]); d != "" {
				c.Fail("target %v algorithms %q: result %d (%s): %s", n, specs, i, specs[i], d)
			}
		}
		if t.Cmp(n) != 0 {
			c.Fail("target changed from %v to %v", n, t)
			return
		}
		c.Eval(1)
		c.Count("library algorithms run in parallel", len(as))
	}
	c.Nontrivial("mixed", a[0], a[1])
	c.Sample("mixed", func() string { return fmt.Sprintf("target %v: %q", n, specs) })
}

// roInt copies n into memory that cannot be written.
func roInt(n *big.Int) (*big.Int, func()) {
	w := n.Bits()
	size := 4096 + (len(w)*8+4095)/4096*4096
	mem, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	words := unsafe.Slice((*big.Word)(unsafe.Pointer(&mem[4096])), len(w))
	copy(words, w)
	x := (*big.Int)(unsafe.Pointer(&mem[0]))
	x.SetBits(words[:len(w):len(w)])
	must(syscall.Mprotect(mem, syscall.PROT_READ))
	return x, func() { syscall.Munmap(mem) }
}

// c12readonly: the target lies in write-protected memory, so that any write to
// it, also one of the same value or undone later, ends the process.
func c12readonly(c *Ctx, a []string) {
	n := parseBig(a[0])
	x, _ := roInt(n) // stays mapped: results may refer to it
	as := ensemble.Ensemble()
	p := exec.NewParallel()
	p.SetConcurrency(atoi(a[1]))
	rs := p.Execute(x, as)
	judgeEnsemble(c, fmt.Sprintf("write-protected target %v", n), n, as, rs)
	c.Eval(1)
	c.Count("write-protected target executions", 1)
	c.Nontrivial("readonly", a[0], a[1])
}

// c12cli: the search command built with the race detector.
func c12cli(c *Ctx, a []string) {
	var first []byte
	for i, lim := range []string{a[1], "1", "64"} {
		cmd := osexec.Command(c.run.bin, "search", "-v", "-p", lim, a[0])
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		// Exit status 66 is the race detector's: the reports are collected.
		if err != nil && cmd.ProcessState.ExitCode() != 66 {
			c.Fail("addchain search -p %s %s: %v\n%s", lim, a[0], err, tail(errb.String(), 2000))
			return
		}
		if i == 0 {
			first = out.Bytes()
		} else if !bytes.Equal(first, out.Bytes()) {
			c.Fail("addchain search %s prints different scripts with -p %s and -p %s", a[0], a[1], lim)
		}
		c.Eval(1)
		c.Count("command runs", 1)
	}
	c.Nontrivial("cli", a[0])
}
