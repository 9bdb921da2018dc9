//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
)

func init() {
	register(&Prop{
		ID: "C17",
		Rule: "Each evaluation allocates one well-formed instruction program in which every output but the last is read, and compares the number of declared temporaries, and of distinct names actually used other than input and output, with the peak number of simultaneously live chain values computed by the harness from first definition and last read. " +
			"Exhaustive: all such programs with up to 5 instructions of add/double/shift and 7 of add/double. Generated: up to 400 instructions (and a few thousand) with narrow and wide liveness, up to hundreds of values alive at once, programs keeping the input live throughout or dropping it early, search results. " +
			"Non-trivial: distinct programs whose peak is at least 2.",
		Assumptions: []string{"liveness is taken between instructions; element 0 is live from the start until its last read and the final value at the end"},
		Gen: func(g *Gen) {
			g.Blocks("random", g.N(240, 2400), g.N(800, 800), 24)
			g.Blocks("random", g.N(96, 600), g.N(120, 200), 120)
			g.Blocks("random", g.N(48, 200), g.N(30, 60), 400)
			g.Blocks("huge", g.N(32, 200), g.N(2, 10))
			g.Blocks("bigshift", g.N(16, 100), g.N(40, 100), 5000)
			g.Blocks("bigshift", g.N(16, 100), g.N(40, 100), 70000)
			g.Blocks("wide", g.N(96, 800), g.N(120, 200))
			g.Blocks("search", g.N(40, 400), g.N(12, 40))
			emitIR(g, g.N(5, 6), g.N(7, 7))
		},
		Run: map[string]func(*Ctx, []string){
			"one":  func(c *Ctx, a []string) { c17one(c, parseIR(a[0]), "one") },
			"enum": func(c *Ctx, a []string) { runIR(c, a, func(p *ir.Program) { c17one(c, p, "enum") }) },
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c17one(c, randIR(r, 1+r.Intn(atoi(a[2])), true), "random")
				}
			},
			"bigshift": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c17one(c, bigShiftIR(r, atoi(a[2])), "bigshift")
				}
			},
			"wide": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c17one(c, wideIR(r, true), "wide")
				}
			},
			"huge": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if i%2 == 0 {
						c17one(c, hugeIR(r, 50+r.Intn(1500)), "huge")
					} else {
						c17one(c, randIR(r, 1000+r.Intn(2000), true), "huge")
					}
				}
			},
			"search": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if p := searchProgram(r, 300); len(p) > 0 {
						if d, err := acc.Decompile(p); err == nil {
							if _, bad := irExpand(d); bad == "" {
								c17one(c, d, "search")
							}
						}
					}
				}
			},
		},
		Floor: map[string]int64{"allocated": 10000, "tight": 100, "peak>4": 1000},
	})
}

// emitIR emits exhaustive enumerations of instruction programs: "enum n prefix
// addsonly".
func emitIR(g *Gen, n, nadds int) {
	for k := 1; k <= n; k++ {
		enumIR(&ir.Program{}, min(k, 2), func(p *ir.Program) { g.Emit("enum", k, irString(p), 0) })
	}
	for k := n + 1; k <= nadds; k++ {
		enumAddsIR(&ir.Program{}, 3, func(p *ir.Program) { g.Emit("enum", k, irString(p), 1) })
	}
}

func runIR(c *Ctx, a []string, f func(p *ir.Program)) {
	e := enumIR
	if a[2] == "1" {
		e = enumAddsIR
	}
	e(parseIR(a[1]), atoi(a[0]), func(p *ir.Program) {
		if !c.Stop() {
			f(p)
		}
	})
}

// enumAddsIR is enumIR with additions and doublings only.
func enumAddsIR(prefix *ir.Program, n int, f func(p *ir.Program)) {
	p := &ir.Program{Instructions: append([]*ir.Instruction{}, prefix.Instructions...)}
	var rec func()
	rec = func() {
		m := len(p.Instructions) + 1
		if m-1 == n {
			f(p)
			return
		}
		for i := 0; i < m; i++ {
			for j := i; j < m; j++ {
				var op ir.Op = ir.Add{X: ir.Index(j), Y: ir.Index(i)}
				if i == j {
					op = ir.Double{X: ir.Index(i)}
				}
				p.Instructions = append(p.Instructions, &ir.Instruction{Output: ir.Index(m), Op: op})
				rec()
				p.Instructions = p.Instructions[:m-1]
			}
		}
	}
	rec()
}

// wideIR makes programs with many values alive at once: produce a batch, then
// consume it in some order, possibly several times.
func wideIR(r *rand.Rand, alluse bool) *ir.Program {
	p := &ir.Program{}
	next := 0
	emit := func(op ir.Op) int {
		if s, ok := op.(ir.Shift); ok {
			next += int(s.S)
		} else {
			next++
		}
		p.AddInstruction(&ir.Instruction{Output: ir.Index(next), Op: op})
		return next
	}
	acc := 0
	for round := 1 + r.Intn(3); round > 0; round-- {
		w := 1 + r.Intn(30)
		batch := []int{}
		src := acc
		for i := 0; i < w; i++ {
			switch r.Intn(3) {
			case 0:
				src = emit(ir.Double{X: ir.Index(src)})
			case 1:
				src = emit(ir.Add{X: ir.Index(src), Y: ir.Index(0)})
			default:
				src = emit(ir.Shift{X: ir.Index(src), S: uint(1 + r.Intn(5))})
			}
			batch = append(batch, src)
		}
		if r.Intn(2) == 0 {
			r.Shuffle(len(batch), func(i, j int) { batch[i], batch[j] = batch[j], batch[i] })
		}
		acc = batch[0]
		for _, b := range batch[1:] {
			x, y := acc, b
			if r.Intn(2) == 0 {
				x, y = y, x
			}
			acc = emit(ir.Add{X: ir.Index(x), Y: ir.Index(y)})
		}
		if r.Intn(3) == 0 {
			acc = emit(ir.Add{X: ir.Index(0), Y: ir.Index(acc)})
		}
	}
	if !alluse && r.Intn(2) == 0 {
		emit(ir.Double{X: ir.Index(0)})
	}
	return p
}

// hugeIR makes a program with w values alive at once, used up while others take
// their place for a while.
func hugeIR(r *rand.Rand, w int) *ir.Program {
	p := &ir.Program{}
	n := 0
	emit := func(op ir.Op) int {
		n++
		p.AddInstruction(&ir.Instruction{Output: ir.Index(n), Op: op})
		return n
	}
	live := []int{emit(ir.Double{X: ir.Index(0)})}
	for len(live) < w {
		live = append(live, emit(ir.Add{X: ir.Index(n), Y: ir.Index(0)}))
	}
	take := func() int {
		k := r.Intn(len(live))
		x := live[k]
		live[k] = live[len(live)-1]
		live = live[:len(live)-1]
		return x
	}
	for k := r.Intn(w); k > 0; k-- {
		x := take()
		live = append(live, emit(ir.Double{X: ir.Index(x)}))
	}
	for len(live) > 1 {
		x, y := take(), take()
		live = append(live, emit(ir.Add{X: ir.Index(x), Y: ir.Index(y)}))
		if r.Intn(3) == 0 && len(live) > 1 {
			x := take()
			live = append(live, emit(ir.Double{X: ir.Index(x)}))
		}
	}
	return p
}

// peakLive returns the largest number of values alive between two consecutive
// instructions, and whether every output but the last is read.
func peakLive(p *ir.Program) (peak int, alluse bool) {
	last := map[int]int{} // element -> position of last read
	for k, inst := range p.Instructions {
		for _, in := range inst.Op.Inputs() {
			last[in.Index] = k
		}
	}
	n := len(p.Instructions)
	final := p.Instructions[n-1].Output.Index
	alluse = true
	def := map[int]int{0: -1}
	for k, inst := range p.Instructions {
		def[inst.Output.Index] = k
		if _, ok := last[inst.Output.Index]; !ok && inst.Output.Index != final {
			alluse = false
		}
	}
	last[final] = n
	// Live between instruction k and k+1: defined at or before k, read after k.
	change := make([]int, n+2)
	for e, d := range def {
		l, ok := last[e]
		if !ok {
			continue
		}
		change[d+1]++
		change[l+1]--
	}
	cur := 0
	for k := 0; k <= n; k++ {
		cur += change[k]
		if cur > peak {
			peak = cur
		}
	}
	return peak, alluse
}

func c17one(c *Ctx, p0 *ir.Program, kind string) {
	peak, alluse := peakLive(p0)
	if !alluse {
		c.Count("skipped-dead-values", 1)
		return
	}
	src := irString(p0)
	c.At(func() Case { return Case{"one", []string{src}} })
	c.Eval(1)
	if peak >= 2 {
		c.Nontrivial(src)
	}
	p := p0.Clone()
	if r := rand.New(rand.NewSource(int64(hashStr(src)))); r.Intn(8) == 0 { // one name per element, some operands shared
		shareOperands(r, p, true)
		c.Count("prenamed", 1)
	}
	a := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
	if err := a.Execute(p); err != nil {
		c.Fail("allocation of %s: %v", src, err)
		return
	}
	c.Count("allocated", 1)
	if len(p.Temporaries) > peak {
		c.Fail("%s: %d temporaries declared %v, but at most %d values are alive at the same time\n%s", src, len(p.Temporaries), p.Temporaries, peak, p)
	}
	used := map[string]bool{}
	for _, inst := range p.Instructions {
		for _, o := range inst.Operands() {
			if o.Identifier != "x" && o.Identifier != "z" {
				used[o.Identifier] = true
			}
		}
	}
	if len(used) > peak {
		c.Fail("%s: %d temporary names used, but at most %d values are alive at the same time\n%s", src, len(used), peak, p)
	}
	if len(p.Temporaries) == peak {
		c.Count("tight", 1)
	}
	if peak > 4 {
		c.Count("peak>4", 1)
	}
	c.Count(fmt.Sprintf("slack-%d", peak-len(p.Temporaries)), 1)
	c.Max("max_peak", peak)
	c.Max("max_instructions", len(p.Instructions))
	if len(p.Instructions) > 5 {
		c.Sample(kind, func() string { return fmt.Sprintf("%s: peak %d, temporaries %v", src, peak, p.Temporaries) })
	}
}
