//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() {
	register(&Prop{
		ID: "C04",
		Rule: "Each evaluation takes one valid duplicate-free program, decompiles it, expands the instructions by definition (must be exactly the program; every read must be element 0 or an earlier output), prints it, loads the text with the library and with the reference grammar interpreter and evaluator, and compares chain and operations (up to operand order). " +
			"Exhaustive: all programs with up to 6 (thorough 8) operations, a quarter of those with 7, operands in both orders (all combinations to 5 operations, random beyond). Generated: programs to 700 operations with doubling runs read in the middle, single-use sums, wide reuse; elements read up to 65537 times; results of searches; through Write/String/Save/LoadFile and the eval command. " +
			"Non-trivial: distinct programs with at least 2 operations.",
		Gen: func(g *Gen) {
			g.Blocks("search", g.N(40, 600), g.N(12, 40))
			g.Blocks("random", g.N(200, 3000), g.N(120, 300), 40)
			g.Blocks("random", g.N(64, 800), g.N(20, 60), 250)
			g.Blocks("random", g.N(24, 300), g.N(6, 20), 700)
			g.Blocks("runs", g.N(200, 3000), g.N(120, 300))
			g.Blocks("cli", g.N(24, 200), g.N(4, 8))
			for _, l := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097} {
				for v := 0; v < 4; v++ {
					g.Emit("long", l, v, l*7+v)
				}
			}
			g.Blocks("random", g.N(8, 60), 1, 2500)
			// Past 16 bits: half a gigabyte each.
			g.Emit("long", 65537, 3, 1)
			g.Emit("long", 65536, 0, 2)
			if g.Thorough() {
				for v := 0; v < 4; v++ {
					g.Emit("long", 17000, v, v)
				}
			}
			for _, n := range []int{2, 3, 5, 63, 64, 65, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 514, 768, 769, 1024, 1025, 4097} {
				for v := 0; v < 6; v++ {
					g.Emit("hot", n, v, n*7+v)
				}
			}
			for v := 0; v < g.N(3, 6); v++ {
				g.Emit("hot", 65537, v, v)
			}
			g.Emit("enum", 0, "")
			for n := 1; n <= g.N(7, 8); n++ {
				for _, p := range prefixes(min(n, 4)) {
					g.Emit("enum", n, p)
				}
			}
		},
		Run: map[string]func(*Ctx, []string){
			"one":  func(c *Ctx, a []string) { c04one(c, parseOps(a[0]), "one") },
			"enum": c04enum,
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c04one(c, randProgram(r, 1+r.Intn(atoi(a[2]))), "random")
				}
			},
			"runs": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c04one(c, runsProgram(r, 2+r.Intn(60)), "runs")
				}
			},
			"long": func(c *Ctx, a []string) {
				c04one(c, longProgram(atoi(a[0]), atoi(a[1]), atoi64(a[2])), "long")
			},
			"hot": func(c *Ctx, a []string) {
				c.Max("max_reads", atoi(a[0]))
				c04one(c, hotProgram(atoi(a[0]), atoi(a[1]), atoi64(a[2])), "hot")
			},
			"search": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if p := searchProgram(r, 300); p != nil {
						c04one(c, p, "search")
					}
				}
			},
			"cli": c04cli,
		},
		Floor: map[string]int64{"shifts": 1000, "inlined": 1000, "loads": 10000, "searches": 50},
	})
}

// searchProgram returns the program a random algorithm finds for a random
// target (nil if the search itself fails, which is not this monitor's concern).
func searchProgram(r *rand.Rand, maxbits int) addchain.Program {
	bits := 1 + r.Intn(maxbits)
	spec, K, T := randAlg(r, bits)
	if len(spec) > 7 && (spec[:4] == "seq:" || spec[:7] == "opt:seq") {
		spec = "runs:h.hd"
	}
	n := randTarget(r, bits, K, T)
	if n.Sign() == 0 {
		n = bi(1)
	}
	res := exec.Execute(n, mkAlg(spec))
	if res.Err != nil || certErr(res.Chain, res.Program) != "" {
		return nil
	}
	return res.Program
}

// runsProgram makes programs dominated by doubling runs whose intermediate and
// end values are read in various ways.
func runsProgram(r *rand.Rand, n int) addchain.Program {
	p := addchain.Program{}
	c := []int{0} // indexes of interest
	top := 0      // index of the largest value
	exps := map[string]bool{"1": true}
	vals := []interface{}{}
	_ = vals
	cs, _ := evalOps(p)
	add := func(i, j int) bool {
		s := bi(0).Add(cs[i], cs[j])
		if exps[s.String()] {
			return false
		}
		exps[s.String()] = true
		p = append(p, addchain.Op{I: i, J: j})
		cs = append(cs, s)
		if s.Cmp(cs[top]) > 0 {
			top = len(cs) - 1
		}
		return true
	}
	for len(p) < n {
		i := top
		if r.Intn(3) == 0 {
			i = c[r.Intn(len(c))]
		}
		for k := 1 + r.Intn(1+r.Intn(12)); k > 0; k-- {
			if !add(i, i) {
				break
			}
			i = len(cs) - 1
			if r.Intn(6) == 0 {
				c = append(c, i)
			}
		}
		c = append(c, len(cs)-1)
		for k := r.Intn(3); k > 0; k-- {
			x, y := len(cs)-1, c[r.Intn(len(c))]
			switch r.Intn(4) {
			case 0:
				y = r.Intn(len(cs))
			case 1:
				y = max(0, len(cs)-1-r.Intn(4))
			case 2:
				x = c[r.Intn(len(c))]
			}
			if r.Intn(2) == 0 {
				x, y = y, x
			}
			add(x, y)
		}
	}
	return p
}

// longProgram has a run of l doublings of some value, preceded and followed by
// short sums that read the ends (v&1: also an element inside) of the run.
func longProgram(l, v int, seed int64) addchain.Program {
	r := rand.New(rand.NewSource(seed))
	p := addchain.Program{{I: 0, J: 0}, {I: 1, J: 0}, {I: 2, J: 1}, {I: 3, J: 2}}
	start := 4 - v/2
	at := start
	first := len(p) + 1
	if start != 4 { // the run starts below the largest value: 3, 6, 12, ...
		start, at, first = 2, 2, len(p)+1
	}
	for k := 0; k < l; k++ {
		p = append(p, addchain.Op{I: at, J: at})
		at = len(p)
	}
	add := func(i, j int) { p = append(p, addchain.Op{I: i, J: j}) }
	if v&1 == 1 {
		add(first+r.Intn(l), at)
	}
	add(len(p), start)
	if v > 1 {
		add(len(p), at)
	}
	at = len(p)
	for k := 0; k < 3; k++ {
		p = append(p, addchain.Op{I: len(p), J: len(p)})
	}
	add(len(p), at)
	return p
}

// hotProgram has an element that exactly n operations read: an element inside a
// run of doublings (v 0 and 1), the start or the end of the run (2, 3), or a sum
// (4, 5). The operation after the element reads it first, for the sum and odd v
// in the second place.
func hotProgram(n, v int, seed int64) addchain.Program {
	r := rand.New(rand.NewSource(seed))
	p := addchain.Program{{I: 0, J: 0}, {I: 1, J: 0}, {I: 2, J: 1}}
	add := func(i, j int) { p = append(p, addchain.Op{I: i, J: j}) }
	double := func(k int) {
		for ; k > 0; k-- {
			add(len(p), len(p))
		}
	}
	hot, reads := 0, 0
	switch v {
	case 0, 1:
		double(1 + r.Intn(4))
		hot, reads = len(p), 1
		double(1 + r.Intn(4))
	case 2:
		hot, reads = len(p), 1
		double(2 + r.Intn(4))
	case 3:
		double(2 + r.Intn(4))
		hot = len(p)
	default:
		double(2)
		add(len(p), 2)
		hot, reads = len(p), 1
		if v == 4 {
			double(1)
		} else {
			add(1, len(p))
		}
	}
	if reads == 0 {
		add(len(p), 1)
	}
	// Every sum is the largest element yet.
	for ; reads < n; reads++ {
		if v%2 == 0 {
			add(len(p), hot)
		} else {
			add(hot, len(p))
		}
		if r.Intn(60) == 0 {
			double(1 + r.Intn(2))
		}
	}
	return p
}

func c04one(c *Ctx, p addchain.Program, kind string) {
	c.At(func() Case { return Case{"one", []string{opsString(p)}} })
	c.Eval(1)
	if len(p) >= 2 {
		c.NontrivialHash(hashOps(p))
	}
	ch, _ := evalOps(p)
	in := append(addchain.Program{}, p...)
	r, err := acc.Decompile(in)
	if err != nil {
		c.Fail("Decompile(%s): %v", opsString(p), err)
		return
	}
	for i := range p {
		if in[i] != p[i] {
			c.Fail("Decompile changed the program %s to %s", opsString(p), opsString(in))
			return
		}
	}
	ops, bad := irExpand(r)
	if bad != "" {
		c.Fail("Decompile(%s) = %s: %s", opsString(p), irString(r), bad)
		return
	}
	if opsString(ops) != opsString(p) {
		c.Fail("Decompile(%s) = %s expands to %s", opsString(p), irString(r), opsString(ops))
		return
	}
	for _, i := range r.Instructions {
		if _, ok := i.Op.(ir.Shift); ok {
			c.Count("shifts", 1)
		}
	}
	// The same through the repository's own expansion and dangling check.
	r2, err := acc.Decompile(append(addchain.Program{}, p...))
	if err == nil {
		err = pass.Exec(r2, pass.Validate, pass.Func(pass.Compile), pass.Func(pass.Eval))
	}
	if err != nil || opsString(r2.Program) != opsString(p) || !equalBigs(r2.Chain, ch) {
		c.Fail("compiling Decompile(%s) = %s gave %s, error %v", opsString(p), irString(r), opsString(r2.Program), err)
		return
	}
	tree, err := acc.Build(r)
	if err != nil {
		c.Fail("Build(Decompile(%s)): %v", opsString(p), err)
		return
	}
	if c.evals%8 == 0 && len(p) <= 60 {
		what := func() string { return "Build(Decompile(" + opsString(p) + "))" }
		if kind != "exhaustive" || c.evals%64 == 0 {
			c.Keep(what, func() string { return treeString(tree) + irString(r) })
		}
	}
	if len(r.Instructions) > len(tree.Statements) {
		c.Count("inlined", 1)
	}
	c.Max("max_ops", len(p))
	c.Max("max_statements", len(tree.Statements))
	text, err := printer.String(tree)
	if err != nil {
		c.Fail("printing Build(Decompile(%s)): %v", opsString(p), err)
		return
	}
	c04judge(c, p, text)
	// The one-call form, from the already processed and from a fresh program.
	if s, err := acc.String(r2); err != nil || s != text {
		c.Fail("String of the evaluated program for %s gave %q (%v), Build and print gave %q", opsString(p), s, err, text)
	}
	if len(p) > 8 {
		c.Sample(kind, func() string { return text })
	}
}

func c04judge(c *Ctx, p addchain.Program, text string) {
	ch, _ := evalOps(p)
	c.Count("loads", 1)
	q, err := acc.LoadString(text)
	if err != nil {
		c.Fail("script for %s does not load: %v\n%s", opsString(p), err, text)
		return
	}
	if !equalBigs(q.Chain, ch) {
		c.Fail("script for %s loads to chain [%s], want [%s]\n%s", opsString(p), joinBig(q.Chain), joinBig(ch), text)
		return
	}
	if !sameOps(q.Program, p) {
		c.Fail("script for %s loads to operations %s\n%s", opsString(p), opsString(q.Program), text)
		return
	}
	// The text itself, by the published grammar.
	t, ok := refParse(text)
	if !ok {
		c.Fail("script for %s is outside the published grammar\n%s", opsString(p), text)
		return
	}
	m := refEval(t)
	if m.Err != "" || !equalBigs(m.Chain, ch) || !sameOps(m.Ops, p) {
		c.Fail("script for %s evaluates by definition to %s (%s)\n%s", opsString(p), opsString(m.Ops), m.Err, text)
	}
}

func c04enum(c *Ctx, a []string) {
	n := atoi(a[0])
	r := rand.New(rand.NewSource(int64(fnvInts(n, len(a[1]))) ^ c.Seed))
	enumPrograms(parseOps(a[1]), n, func(p addchain.Program, _ []int64) {
		if c.Stop() {
			return
		}
		var adds []int
		for i, op := range p {
			if op.I != op.J {
				adds = append(adds, i)
			}
		}
		flip := func(m int) addchain.Program {
			q := append(addchain.Program{}, p...)
			for b, i := range adds {
				if m>>uint(b)&1 == 1 {
					q[i].I, q[i].J = q[i].J, q[i].I
				}
			}
			return q
		}
		if n <= 5 {
			for m := 0; m < 1<<uint(len(adds)); m++ {
				c04one(c, flip(m), "enum")
			}
			return
		}
		if n == 7 && c.Tier != "thorough" && r.Intn(4) != 0 {
			return
		}
		c04one(c, flip(r.Intn(1<<uint(len(adds)))), "enum")
	})
}

func c04cli(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		p := runsProgram(r, 1+r.Intn(50))
		switch r.Intn(4) {
		case 0:
			p = randProgram(r, 1+r.Intn(120))
		case 1:
			if q := searchProgram(r, 200); q != nil {
				p = q
			}
		case 2:
			if r.Intn(3) == 0 {
				p = addchain.Program{}
			}
		}
		c.At(func() Case { return Case{"one", []string{opsString(p)}} })
		c.Eval(1)
		c.Count("searches", 1)
		d, err := acc.Decompile(append(addchain.Program{}, p...))
		if err != nil {
			c.Fail("Decompile(%s): %v", opsString(p), err)
			return
		}
		name := filepath.Join(c.run.tmp, fmt.Sprintf("s%d.acc", c.id))
		if err := acc.Save(name, d); err != nil {
			c.Fail("Save for %s: %v", opsString(p), err)
			continue
		}
		b, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		c04judge(c, p, string(b))
		q, err := acc.LoadFile(name)
		ch, _ := evalOps(p)
		if err != nil || !equalBigs(q.Chain, ch) || !sameOps(q.Program, p) {
			c.Fail("file saved for %s does not load back: %v\n%s", opsString(p), err, b)
			continue
		}
		res := c.addchainCmd("", "eval", name)
		if want := evalOutput(q.Program, ch); res.Code != 0 || res.Out != want {
			c.Fail("eval of the script for %s: %s\nwant %q", opsString(p), res, want)
		}
		res = c.addchainCmd(string(b), "fmt", "-b")
		if res.Code != 0 {
			c.Fail("fmt -b of the script for %s: %s", opsString(p), res)
			continue
		}
		c04judge(c, p, res.Out)
	}
}
