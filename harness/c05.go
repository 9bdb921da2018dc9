//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/eval"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
)

// c05names are naming configurations: input, output, format of temporaries.
var c05names = [][3]string{
	{"x", "z", "t%d"}, {"in", "out", "tmp%d"}, {"a", "b", "r%d"}, {"z", "x", "v%d"}, {"t", "tt", "t%d"},
	{"t0x", "t1x", "t%d"}, {"x", "y", "x%d"}, {"z", "zz", "z%d"}, {"i1", "i2", "t[%d]"}, {"p.x", "p.z", "&tmp[%02d]"},
	{"X", "x", "%d"}, {"*x", "*z", "t%x"}, {"input value", "output value", "temp %d"}, {"é", "ü", "τ%d"}, {"_", "__", "___%d"},
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "Each evaluation allocates one well-formed instruction program under one naming configuration and executes the result on the harness's register machine (registers poisoned until written; only input, output and declared temporaries exist) twice, with the output register distinct from and aliased to the input register: the output must hold the last element of the chain the harness computes from the original instructions, every operand must be named, the input name must never be written, and the declared temporaries must be exactly the names used other than input and output. The repository's interpreter is run as well, in both modes. " +
			"Exhaustive: all programs of up to 5 (thorough 6) instructions over add, double and shift with every operand choice and up to 7 of add and double. Generated: up to 400 instructions, with dead and repeated values, wide and narrow liveness, the input read late or never again; decompiled from random and searched operation lists; translated from scripts; operands shared between instructions, pre-named operands, other passes already run. " +
			"Non-trivial: distinct (program, configuration) pairs with at least 2 instructions.",
		Assumptions: []string{"input, output and temporary names are pairwise distinct", "a program in which one element has two different names beforehand may be refused, as the operand canonicalisation pass documents"},
		Gen: func(g *Gen) {
			g.Blocks("random", g.N(240, 2400), g.N(300, 800), 24)
			g.Blocks("random", g.N(48, 600), g.N(40, 200), 120)
			g.Blocks("random", g.N(24, 200), g.N(10, 40), 400)
			g.Blocks("wide", g.N(64, 800), g.N(60, 200))
			g.Blocks("huge", g.N(24, 200), g.N(2, 6))
			g.Blocks("bigshift", g.N(24, 200), g.N(4, 8), 5000)
			g.Blocks("bigshift", g.N(4, 20), 1, 70000)
			g.Blocks("ops", g.N(96, 1000), g.N(60, 200))
			g.Blocks("search", g.N(40, 400), g.N(12, 40))
			g.Blocks("script", g.N(96, 1000), g.N(40, 120))
			emitIR(g, g.N(5, 6), g.N(7, 7))
		},
		Run: map[string]func(*Ctx, []string){
			"one": func(c *Ctx, a []string) {
				c05one(c, parseIR(a[0]), atoi(a[1]), atoi64(a[2]), "one")
			},
			"enum": func(c *Ctx, a []string) {
				k := 0
				runIR(c, a, func(p *ir.Program) {
					k++
					c05one(c, p, 0, 0, "enum")
					if k%16 == 0 {
						c05one(c, p, 1+(k/16)%(len(c05names)-1), int64(k), "enum")
					}
				})
			},
			"bigshift": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c05one(c, bigShiftIR(r, atoi(a[2])), r.Intn(len(c05names)), 0, "bigshift")
				}
			},
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c05one(c, randIR(r, 1+r.Intn(atoi(a[2])), r.Intn(3) == 0), r.Intn(len(c05names)), r.Int63(), "random")
				}
			},
			"wide": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c05one(c, wideIR(r, false), r.Intn(len(c05names)), r.Int63(), "wide")
				}
			},
			"huge": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					p := hugeIR(r, 50+r.Intn(600))
					if r.Intn(2) == 0 {
						p = randIR(r, 400+r.Intn(1000), r.Intn(2) == 0)
					}
					c05one(c, p, r.Intn(len(c05names)), r.Int63(), "huge")
				}
			},
			"ops": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					p := randProgram(r, 1+r.Intn(60))
					if r.Intn(2) == 0 {
						p = runsProgram(r, 1+r.Intn(80))
					}
					c05decompile(c, r, p, "ops")
				}
			},
			"search": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if p := searchProgram(r, 400); len(p) > 0 {
						c05decompile(c, r, p, "search")
					}
				}
			},
			"script": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					g.zero = false
					g.outsOnly = true
					t := g.script(r.Intn(10), 6)
					src := writeScript(r, t)
					c05script(c, src, r.Intn(len(c05names)), "script")
				}
			},
			"text": func(c *Ctx, a []string) { c05script(c, a[0], atoi(a[1]), "text") },
		},
		Floor: map[string]int64{"executed": 50000, "input-read-last": 1000, "output-reused": 1000, "dead-values": 1000, "translated": 500, "decompiled": 500, "allocated-again": 5000},
	})
}

func c05decompile(c *Ctx, r *rand.Rand, p addchain.Program, kind string) {
	d, err := acc.Decompile(p)
	if err != nil {
		return
	}
	if _, bad := irExpand(d); bad != "" || len(d.Instructions) == 0 {
		return // another property
	}
	c.Count("decompiled", 1)
	c05one(c, d, r.Intn(len(c05names)), r.Int63(), kind)
}

// c05script allocates what a script translates to, names and shared operands
// included.
func c05script(c *Ctx, src string, cfg int, kind string) {
	c.At(func() Case { return Case{"text", []string{src, fmt.Sprint(cfg)}} })
	t, err := parse.String(src)
	if err != nil {
		return
	}
	if chainShift(t) > c03shift {
		return
	}
	p, err := acc.Translate(t)
	if err != nil {
		return
	}
	if _, bad := irExpand(p); bad != "" || len(p.Instructions) == 0 {
		return
	}
	c.Count("translated", 1)
	plain := parseIR(irString(p))
	c05judge(c, plain, p, cfg, fmt.Sprintf("script %q", src), kind)
}

// c05one allocates a copy of p. How the copy is made depends on how: operands
// shared or not, names given beforehand, passes run beforehand.
func c05one(c *Ctx, p *ir.Program, cfg int, how int64, kind string) {
	src := irString(p)
	c.At(func() Case { return Case{"one", []string{src, fmt.Sprint(cfg), fmt.Sprint(how)}} })
	q := parseIR(src)
	if how != 0 {
		r := rand.New(rand.NewSource(how))
		switch r.Intn(6) {
		case 0:
			q = p.Clone()
		case 1: // share some operand objects
			shareOperands(r, q, false)
		case 2: // names, consistent per element
			shareOperands(r, q, true)
		case 3:
			if err := pass.Exec(q, pass.Func(pass.Eval), pass.Func(pass.ReadCounts)); err != nil {
				c.Fail("passes on %s: %v", src, err)
				return
			}
		case 4:
			if err := pass.Exec(q, pass.Func(pass.Indexes), pass.NameByteValues, pass.NameXRuns); err != nil {
				c.Fail("passes on %s: %v", src, err)
				return
			}
		case 5:
			shareOperands(r, q, true)
			if err := pass.Exec(q, pass.Func(pass.CanonicalizeOperands), pass.Func(pass.Compile)); err != nil {
				c.Fail("passes on %s: %v", src, err)
				return
			}
		}
	}
	c05judge(c, parseIR(src), q, cfg, src, kind)
	// An allocated program is a program like any other: allocate it, or a copy
	// of it, again under another configuration.
	if how%3 == 1 {
		if how%5 == 0 {
			q = q.Clone()
		}
		c.Count("allocated-again", 1)
		c05judge(c, parseIR(src), q, (cfg+int(how%7))%len(c05names), src+" (second allocation)", kind)
	}
	if c.evals%16 == 0 && len(q.Instructions) < 100 {
		c.Keep(func() string { return "allocating " + src }, func() string {
			s := irString(q) + fmt.Sprint(q.Temporaries)
			for _, i := range q.Instructions {
				s += " " + i.Output.Identifier
				for _, o := range i.Op.Inputs() {
					s += " " + o.Identifier
				}
			}
			return s
		})
	}
}

// shareOperands replaces operand objects by shared ones, and names elements.
func shareOperands(r *rand.Rand, p *ir.Program, named bool) {
	pool := map[int]*ir.Operand{}
	get := func(o *ir.Operand) *ir.Operand {
		name := ""
		if named && (o.Index*7+p.Instructions[0].Output.Index)%3 != 0 {
			name = []string{"x", "z", "t0", "t1", "v"}[o.Index%5] + strings.Repeat("_", o.Index%3) + fmt.Sprint(o.Index)
		}
		if s, ok := pool[o.Index]; ok && r.Intn(4) != 0 {
			return s
		}
		n := &ir.Operand{Index: o.Index, Identifier: name}
		if r.Intn(5) == 0 {
			n.Identifier = ""
		}
		pool[o.Index] = n
		return n
	}
	for _, inst := range p.Instructions {
		switch op := inst.Op.(type) {
		case ir.Add:
			inst.Op = ir.Add{X: get(op.X), Y: get(op.Y)}
		case ir.Double:
			inst.Op = ir.Double{X: get(op.X)}
		case ir.Shift:
			inst.Op = ir.Shift{X: get(op.X), S: op.S}
		}
		inst.Output = get(inst.Output)
	}
}

// c05judge allocates q, whose instructions are those of plain.
func c05judge(c *Ctx, plain, q *ir.Program, cfg int, what, kind string) {
	c.Eval(1)
	if len(plain.Instructions) >= 2 {
		c.NontrivialHash(fnvInts(cfg, int(hashStr(irString(plain)))))
	}
	in, out, format := c05names[cfg][0], c05names[cfg][1], c05names[cfg][2]
	a := pass.Allocator{Input: in, Output: out, Format: format}
	bad := func(f string, args ...interface{}) {
		c.Fail("%s with input %q, output %q, format %q: %s\n%s", what, in, out, format, fmt.Sprintf(f, args...), q)
	}
	// Different names for one element are documented to be refused.
	conflict := nameConflict(q)
	if err := a.Execute(q); err != nil {
		if conflict {
			c.Count("refused-name-conflict", 1)
			return
		}
		bad("allocation fails: %v", err)
		return
	}
	// The chain, from the original instructions.
	ops, why := irExpand(plain)
	if why != "" {
		panic(why)
	}
	chain, _ := evalOps(ops)
	want := chain[len(chain)-1]
	// Same instructions as before, now with names.
	if irString(q) != irString(plain) {
		bad("the instructions changed from %s to %s", irString(plain), irString(q))
		return
	}
	var is []rinst
	used := map[string]bool{}
	lastIn, dead := -1, false
	readAt := map[int]bool{}
	for k, inst := range plain.Instructions {
		for _, o := range inst.Op.Inputs() {
			readAt[o.Index] = true
			if o.Index == 0 {
				lastIn = k
			}
		}
	}
	for k, inst := range q.Instructions {
		for _, o := range inst.Operands() {
			if o.Identifier == "" {
				bad("instruction %d has an operand without a name", k)
				return
			}
			used[o.Identifier] = true
		}
		if inst.Output.Identifier == in {
			bad("instruction %d writes the input variable", k)
		}
		if inst.Output.Identifier == out && k < len(q.Instructions)-1 {
			c.Count("output-reused", 1)
		}
		if !readAt[inst.Output.Index] && k < len(q.Instructions)-1 {
			dead = true
		}
		switch op := inst.Op.(type) {
		case ir.Add:
			is = append(is, rinst{Op: "add", Z: inst.Output.Identifier, X: op.X.Identifier, Y: op.Y.Identifier})
		case ir.Double:
			is = append(is, rinst{Op: "double", Z: inst.Output.Identifier, X: op.X.Identifier})
		case ir.Shift:
			is = append(is, rinst{Op: "shift", Z: inst.Output.Identifier, X: op.X.Identifier, N: op.S})
		}
	}
	if lastIn == len(plain.Instructions)-1 {
		c.Count("input-read-last", 1)
	}
	if dead {
		c.Count("dead-values", 1)
	}
	temps := append([]string{}, q.Temporaries...)
	sort.Strings(temps)
	var names []string
	for n := range used {
		if n != in && n != out {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if strings.Join(temps, "\x00") != strings.Join(names, "\x00") {
		bad("declared temporaries are %q, the names used are %q", temps, names)
	}
	for _, alias := range []bool{false, true} {
		v, why := runRegs(is, in, out, q.Temporaries, alias)
		c.Count("executed", 1)
		if why != "" {
			bad("executing it with aliasing %v: %s", alias, why)
			return
		}
		if v.Cmp(want) != 0 {
			bad("executing it with aliasing %v gives %s, want %s", alias, hexs(v), hexs(want))
			return
		}
	}
	// The repository's interpreter.
	if len(plain.Instructions) > 3 || c.evals%8 == 0 {
		for _, alias := range []bool{false, true} {
			e := eval.NewInterpreter()
			x := bi(1)
			if c.evals%2 == 0 {
				if err := e.Initialize(in, x); err != nil {
					bad("interpreter: Initialize(%q): %v", in, err)
					return
				}
			} else {
				e.Store(in, x)
			}
			if alias {
				e.Store(out, x)
			}
			if err := e.Execute(q); err != nil {
				bad("interpreter with aliasing %v: %v", alias, err)
				return
			}
			v, ok := e.Load(out)
			if !ok || v.Cmp(want) != 0 {
				bad("interpreter with aliasing %v gives %v, want %s", alias, v, hexs(want))
				return
			}
			if !alias && x.Cmp(bi(1)) != 0 {
				bad("interpreter: input variable overwritten with %v", x)
			}
			c.Count("interpreted", 1)
		}
	}
	c.Max("max_instructions", len(is))
	c.Max("max_temporaries", len(temps))
	if len(is) > 5 {
		c.Sample(kind, func() string { return what + " -> " + fmt.Sprint(is) })
	}
}

// nameConflict reports whether some element goes by two different names.
func nameConflict(p *ir.Program) bool {
	name := map[int]string{}
	for _, inst := range p.Instructions {
		for _, o := range inst.Operands() {
			if o.Identifier == "" {
				continue
			}
			if n, ok := name[o.Index]; ok && n != o.Identifier {
				return true
			}
			name[o.Index] = o.Identifier
		}
	}
	return false
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// bigShiftIR returns a short program in which every output is read, with one
// shift by an amount up to max near a power of two or ten.
func bigShiftIR(r *rand.Rand, max int) *ir.Program {
	var f []string
	outs, unread := []int{0}, []int{}
	next := 0
	emit := func(s string, n int) {
		f = append(f, s)
		next += n
		outs, unread = append(outs, next), append(unread, next)
	}
	read := func() int {
		if n := len(unread); n > 0 && r.Intn(3) > 0 {
			i := unread[n-1]
			unread = unread[:n-1]
			return i
		}
		i := outs[r.Intn(len(outs))]
		for k, u := range unread {
			if u == i {
				unread = append(unread[:k], unread[k+1:]...)
				break
			}
		}
		return i
	}
	sizes := []int{}
	for _, s := range []int{250, 255, 256, 257, 1000, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 65540, 66000} {
		if s <= max && 16*s > max {
			sizes = append(sizes, s)
		}
	}
	at := r.Intn(5)
	for k := 0; k < 6+r.Intn(10); k++ {
		switch x := r.Intn(8); {
		case k == at:
			s := sizes[r.Intn(len(sizes))]
			emit(fmt.Sprintf("s%d,%d", read(), s), s)
		case x == 0:
			emit(fmt.Sprintf("d%d", read()), 1)
		case x == 1:
			s := 1 + r.Intn(5)
			emit(fmt.Sprintf("s%d,%d", read(), s), s)
		default:
			emit(fmt.Sprintf("a%d,%d", read(), read()), 1)
		}
	}
	for len(unread) > 1 {
		a, b := unread[0], unread[1]
		unread = unread[2:]
		emit(fmt.Sprintf("a%d,%d", a, b), 1)
	}
	return parseIR(strings.Join(f, " "))
}
