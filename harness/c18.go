//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain"
)

func init() {
	register(&Prop{
		ID: "C18",
		Rule: "Each evaluation replays one history of builder calls (a=add, d=double, s=shift with operands) against a list model: acceptance, returned index, contents after each call; then compares Evaluate/Count/Doubles/Adds/ReadCounts/Dependencies with definitions, and Product/Plus of valid ascending chains with exact validity. " +
			"Exhaustive: all histories of up to 4 (thorough 5) calls with operands from -1 to one past the end and shifts 1..2, all pairs of ascending chains with up to 4 additions; one shift by up to 70001; random histories up to 400 operations with hostile operands (min/max int, off-by-one). " +
			"Non-trivial: distinct final programs with at least 2 operations, and distinct chain pairs.",
		Gen: func(g *Gen) {
			for l := 0; l <= g.N(4, 5); l++ {
				if l < 2 {
					g.Emit("histories", l, "")
					continue
				}
				for _, f := range c18calls(0) {
					for _, f2 := range c18calls(1) {
						g.Emit("histories", l, f+" "+f2)
					}
				}
			}
			g.Blocks("random", g.N(400, 3000), g.N(300, 300))
			g.Blocks("deps", g.N(48, 400), g.N(8, 30))
			for _, n := range []int{600, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 2100, 2600} {
				g.Emit("longdeps", n, n)
			}
			for _, n := range []int{255, 256, 4095, 4096, 65535, 65536, 70001} {
				g.Emit("longshift", n)
			}
			for v, n := range []int{129, 256, 257, 513, 32769, 65536, 65537, 70001} {
				g.Emit("hot", n, v%6, n)
			}
			g.Blocks("longpairs", g.N(8, 40), 1)
			for i, p := range ascPrograms(4) {
				if i%4 == 0 || g.Thorough() {
					g.Emit("pairs", p)
				}
			}
			g.Blocks("randpairs", g.N(320, 2000), g.N(150, 150))
		},
		Run: map[string]func(*Ctx, []string){
			"histories": c18histories, "hist": func(c *Ctx, a []string) { c18hist(c, a[0]) }, "random": c18random, "deps": c18deps,
			"pairs": c18pairs, "pair": func(c *Ctx, a []string) { c18pair(c, splitBig(a[0]), splitBig(a[1])) }, "randpairs": c18randpairs,
			"longdeps": c18longdeps, "longshift": c18longshift, "longpairs": c18longpairs, "hot": c18hot,
		},
		Floor: map[string]int64{"rejected": 1000, "accepted": 1000, "products": 1000, "plus": 1000},
	})
}

// ascPrograms lists strictly ascending chains with up to n additions.
func ascPrograms(n int) []string {
	var out []string
	for m := 0; m <= n; m++ {
		seen := map[string]bool{}
		enumPrograms(nil, m, func(p addchain.Program, c []int64) {
			s := []*big.Int{}
			for i, v := range c {
				if i > 0 && v < c[i-1] {
					return
				}
				s = append(s, bi(v))
			}
			k := joinBig(s)
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		})
	}
	return out
}

// c18calls lists the calls to explore when the program has n operations (chain
// indices 0..n are valid).
func c18calls(n int) []string {
	var out []string
	for i := -1; i <= n+1; i++ {
		out = append(out, fmt.Sprintf("d:%d", i), fmt.Sprintf("s:%d:1", i), fmt.Sprintf("s:%d:2", i))
		for j := -1; j <= n+1; j++ {
			out = append(out, fmt.Sprintf("a:%d:%d", i, j))
		}
	}
	return out
}

// c18apply performs one call on the program and the model.
func c18apply(c *Ctx, p *addchain.Program, model *addchain.Program, call string, hist func() string) bool {
	var i, j int
	var s uint
	n := len(*model)
	in := func(k int) bool { return k >= 0 && k <= n }
	before := append(addchain.Program{}, (*p)...)
	var idx int
	var err error
	ok := true
	switch call[0] {
	case 'a':
		fmt.Sscanf(call, "a:%d:%d", &i, &j)
		idx, err = p.Add(i, j)
		ok = in(i) && in(j)
		if ok {
			*model = append(*model, addchain.Op{I: i, J: j})
		}
	case 'd':
		fmt.Sscanf(call, "d:%d", &i)
		idx, err = p.Double(i)
		ok = in(i)
		if ok {
			*model = append(*model, addchain.Op{I: i, J: i})
		}
	case 's':
		fmt.Sscanf(call, "s:%d:%d", &i, &s)
		idx, err = p.Shift(i, s)
		ok = in(i)
		if ok {
			for k := uint(0); k < s; k++ {
				*model = append(*model, addchain.Op{I: i, J: i})
				i = len(*model)
			}
		}
	}
	c.Eval(1)
	if (err == nil) != ok {
		c.Fail("history %s: call %s on program with %d operations: error %v, want accepted=%v", hist(), call, n, err, ok)
		return false
	}
	if !ok {
		c.Count("rejected", 1)
		if opsString(before) != opsString(*p) {
			c.Fail("history %s: rejected call %s changed the program from %s to %s", hist(), call, opsString(before), opsString(*p))
			return false
		}
		return true
	}
	c.Count("accepted", 1)
	if idx != len(*model) {
		c.Fail("history %s: call %s returned index %d, last element is %d", hist(), call, idx, len(*model))
		return false
	}
	if !sameOps(*p, *model) {
		c.Fail("history %s: call %s gave program %s, want %s", hist(), call, opsString(*p), opsString(*model))
		return false
	}
	return true
}

func c18hist(c *Ctx, hist string) {
	p, m := addchain.Program{}, addchain.Program{}
	for _, call := range strings.Fields(hist) {
		if !c18apply(c, &p, &m, call, func() string { return hist }) {
			return
		}
	}
	c18analyse(c, p, m, hist)
}

// c18analyse checks the program analyses against definitions.
func c18analyse(c *Ctx, p, m addchain.Program, hist string) {
	n := len(m)
	keep := opsString(p)
	fail := func(f string, a ...interface{}) {
		if len(hist) > 3000 {
			hist = hist[:3000] + "..."
		}
		c.Fail("history [%s] program [%s]: %s", hist, opsString(p), fmt.Sprintf(f, a...))
	}
	want, _ := evalOps(m)
	got := p.Evaluate()
	if !equalBigs(got, want) {
		fail("Evaluate() = [%s] want [%s]", joinBig(got), joinBig(want))
	}
	doubles, adds := 0, 0
	reads := make([]int, n+1)
	for _, op := range m {
		if op.I == op.J {
			doubles++
			reads[op.I]++
		} else {
			adds++
			reads[op.I]++
			reads[op.J]++
		}
	}
	d, a := p.Count()
	if d != doubles || a != adds || p.Doubles() != doubles || p.Adds() != adds || d+a != len(p) {
		fail("Count() = %d,%d Doubles=%d Adds=%d, want %d doubles %d adds", d, a, p.Doubles(), p.Adds(), doubles, adds)
	}
	rc := p.ReadCounts()
	if fmt.Sprint(rc) != fmt.Sprint(reads) {
		fail("ReadCounts() = %v want %v", rc, reads)
	}
	// Dependencies by reachability search from every element.
	deps := p.Dependencies()
	if len(deps) != n+1 {
		fail("Dependencies() has %d entries", len(deps))
		return
	}
	for k := 0; k <= n; k++ {
		seen := make([]bool, n+1)
		stack := []int{k}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if x > 0 {
				stack = append(stack, m[x-1].I, m[x-1].J)
			}
		}
		for x := 0; x <= n; x++ {
			if (deps[k].Bit(x) == 1) != seen[x] {
				fail("Dependencies()[%d] bit %d is %d", k, x, deps[k].Bit(x))
				return
			}
		}
		if deps[k].BitLen() > n+1 || deps[k].Sign() < 0 {
			fail("Dependencies()[%d] has stray bits", k)
			return
		}
	}
	for _, op := range m {
		for k := -1; k <= n+1; k += 1 + n/20 {
			if op.Uses(k) != (op.I == k || op.J == k) {
				fail("Op%v.Uses(%d) wrong", op, k)
			}
		}
		if op.IsDouble() != (op.I == op.J) {
			fail("Op%v.IsDouble wrong", op)
		}
	}
	if c.evals%16 == 0 && n <= 100 {
		c.Keep(func() string { return "the analyses of " + keep }, func() string {
			return fmt.Sprint(rc) + " [" + joinBig(deps) + "] [" + joinBig(got) + "]"
		})
	}
	if opsString(p) != keep {
		fail("an analysis modified the program (was %s)", keep)
	}
	if n >= 2 {
		c.NontrivialHash(hashOps(m))
		c.Sample("history", func() string { return hist + " => " + opsString(p) })
	}
	c.Max("max_ops", n)
}

func c18histories(c *Ctx, a []string) {
	depth := atoi(a[0])
	p, m := addchain.Program{}, addchain.Program{}
	calls := strings.Fields(a[1])
	for _, call := range calls {
		c.At(func() Case { return Case{"hist", []string{a[1]}} })
		// A prefix call naming an element that does not exist is explored as such.
		if !c18apply(c, &p, &m, call, func() string { return a[1] }) {
			return
		}
	}
	var rec func(p, m addchain.Program, hist []string)
	rec = func(p, m addchain.Program, hist []string) {
		if c.Stop() {
			return
		}
		h := strings.Join(hist, " ")
		c.At(func() Case { return Case{"hist", []string{h}} })
		c18analyse(c, p, m, h)
		if len(hist) >= depth {
			return
		}
		for _, call := range c18calls(len(m)) {
			p2, m2 := append(addchain.Program{}, p...), append(addchain.Program{}, m...)
			hh := append(append([]string{}, hist...), call)
			c.At(func() Case { return Case{"hist", []string{strings.Join(hh, " ")}} })
			if !c18apply(c, &p2, &m2, call, func() string { return strings.Join(hh, " ") }) {
				continue
			}
			if opsString(m2) == opsString(m) {
				continue // rejected: nothing new below
			}
			rec(p2, m2, hh)
		}
	}
	rec(p, m, calls)
}

func hostileIndex(r *rand.Rand, n int) int {
	switch r.Intn(12) {
	case 0:
		return -1 - r.Intn(3)
	case 1:
		return n + 1 + r.Intn(3)
	case 2:
		return []int{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32, 1 << 40}[r.Intn(5)]
	case 3, 4:
		return n
	default:
		return r.Intn(n + 1)
	}
}

func c18random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		p, m := addchain.Program{}, addchain.Program{}
		var hist []string
		c.At(func() Case { return Case{"hist", []string{strings.Join(hist, " ")}} })
		steps := 1 + r.Intn(40)
		ok := true
		for k := 0; k < steps && ok; k++ {
			n := len(m)
			var call string
			switch r.Intn(4) {
			case 0:
				call = fmt.Sprintf("d:%d", hostileIndex(r, n))
			case 1:
				s := 1 + r.Intn(4)
				if r.Intn(8) == 0 {
					s = 1 + r.Intn(70)
				}
				call = fmt.Sprintf("s:%d:%d", hostileIndex(r, n), s)
			default:
				call = fmt.Sprintf("a:%d:%d", hostileIndex(r, n), hostileIndex(r, n))
			}
			hist = append(hist, call)
			ok = c18apply(c, &p, &m, call, func() string { return strings.Join(hist, " ") })
		}
		if ok {
			c18analyse(c, p, m, strings.Join(hist, " "))
		}
	}
}

// c18deps builds long programs to check the analyses at word boundaries.
func c18deps(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 55 + r.Intn(20)
		if r.Intn(3) == 0 {
			n = 120 + r.Intn(280)
		}
		q := randProgram(r, n)
		if r.Intn(3) == 0 { // long runs of doublings
			q = addchain.Program{}
			for k := 0; k < n; k++ {
				j := k
				if r.Intn(30) == 0 {
					j = r.Intn(k + 1)
				}
				q = append(q, addchain.Op{I: j, J: k})
			}
		}
		var hist []string
		for _, op := range q {
			if op.I == op.J && r.Intn(2) == 0 {
				hist = append(hist, fmt.Sprintf("d:%d", op.I))
			} else {
				hist = append(hist, fmt.Sprintf("a:%d:%d", op.I, op.J))
			}
		}
		h := strings.Join(hist, " ")
		c.At(func() Case { return Case{"hist", []string{h}} })
		c18hist(c, h)
	}
}

// c18longdeps builds one long program that reads one element very often.
func c18longdeps(c *Ctx, a []string) {
	n := atoi(a[0])
	r := rand.New(rand.NewSource(atoi64(a[1])))
	hub := r.Intn(5)
	var hist []string
	for k := 0; k < n; {
		switch r.Intn(8) {
		case 0:
			s := 1 + r.Intn(9)
			if r.Intn(20) == 0 {
				s = 1 + r.Intn(300)
			}
			hist = append(hist, fmt.Sprintf("s:%d:%d", k, s))
			k += s
		case 1:
			hist = append(hist, fmt.Sprintf("a:%d:%d", r.Intn(k+1), k))
			k++
		case 2:
			hist = append(hist, fmt.Sprintf("d:%d", r.Intn(k+1)))
			k++
		case 3:
			hist = append(hist, fmt.Sprintf("a:%d:%d", k+1+r.Intn(2), k))
		case 4:
			hist = append(hist, fmt.Sprintf("a:%d:%d", r.Intn(k+1), r.Intn(k+1)))
			k++
		default:
			if hub > k {
				hub = k
			}
			hist = append(hist, fmt.Sprintf("a:%d:%d", k, hub))
			k++
		}
	}
	h := strings.Join(hist, " ")
	c.At(func() Case { return Case{"hist", []string{h}} })
	c18hist(c, h)
}

// c18longshift builds a program with one long shift, calls that must be refused
// after it and a few more that must not, and checks it without the analyses that
// take quadratic space.
func c18longshift(c *Ctx, a []string) {
	n := atoi(a[0])
	p, m := addchain.Program{}, addchain.Program{}
	calls := []string{"s:0:3", "a:1:3", fmt.Sprintf("s:%d:%d", n, n), fmt.Sprintf("s:2:%d", n)}
	top := 4 + n
	for _, d := range []int{1, 2, 256, 65536, 65537, 1 << 32} {
		calls = append(calls, fmt.Sprintf("d:%d", top+d), fmt.Sprintf("a:%d:1", top+d), fmt.Sprintf("a:1:%d", top+d), fmt.Sprintf("s:%d:2", top+d))
	}
	calls = append(calls, "a:0:1", fmt.Sprintf("d:%d", top), fmt.Sprintf("a:%d:%d", top, top-1), fmt.Sprintf("a:%d:%d", n, n-1), "s:1:2", "d:-1", fmt.Sprintf("a:%d:0", top+6))
	for _, call := range calls {
		if !c18apply(c, &p, &m, call, func() string { return strings.Join(calls, " ") }) {
			return
		}
	}
	if !c18counts(c, p, m, fmt.Sprintf("shift by %d", n)) {
		return
	}
	if n > 5000 {
		return
	}
	want, _ := evalOps(m)
	if got := p.Evaluate(); !equalBigs(got, want) {
		c.Fail("shift by %d: Evaluate() is wrong", n)
	}
}

// c18counts compares the operation and read counts of p with those of m.
func c18counts(c *Ctx, p, m addchain.Program, what string) bool {
	doubles := 0
	reads := make([]int, len(m)+1)
	for _, op := range m {
		reads[op.I]++
		if op.I == op.J {
			doubles++
		} else {
			reads[op.J]++
		}
	}
	d, ad := p.Count()
	if d != doubles || ad != len(m)-doubles || p.Doubles() != doubles || p.Adds() != ad {
		c.Fail("%s: Count() = %d, %d, want %d doubles of %d", what, d, ad, doubles, len(m))
	}
	rc := p.ReadCounts()
	if len(rc) != len(reads) {
		c.Fail("%s: ReadCounts() has %d entries, want %d", what, len(rc), len(reads))
		return false
	}
	for i := range rc {
		if rc[i] != reads[i] {
			c.Fail("%s: ReadCounts()[%d] = %d, want %d", what, i, rc[i], reads[i])
			return false
		}
	}
	return true
}

// c18hot has an element that a given number of operations reads.
func c18hot(c *Ctx, a []string) {
	m := hotProgram(atoi(a[0]), atoi(a[1]), atoi64(a[2]))
	p := addchain.Program{}
	c.Eval(1)
	c.NontrivialHash(hashOps(m))
	c.Max("max_reads", atoi(a[0]))
	for k, op := range m {
		if i, err := p.Add(op.I, op.J); i != k+1 || err != nil || len(p) != k+1 {
			c.Fail("Add(%d, %d) to %d operations = %d, %v", op.I, op.J, k, i, err)
			return
		}
	}
	what := fmt.Sprintf("element read %s times", a[0])
	if c18counts(c, p, m, what) {
		if want, _ := evalOps(m); !equalBigs(p.Evaluate(), want) {
			c.Fail("%s: Evaluate() is wrong", what)
		}
	}
}

func c18longpairs(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	x, y := msort(randChain(r, 20+r.Intn(300))), msort(randChain(r, 310+r.Intn(500)))
	if r.Intn(2) == 0 {
		x, y = y, x
	}
	c.At(func() Case { return Case{"pair", []string{joinBig(x), joinBig(y)}} })
	c18pair(c, x, y)
}

func c18pair(c *Ctx, a, b []*big.Int) {
	c.Eval(1)
	xa, sa := withSlack(a)
	xb, sb := withSlack(b)
	pr := addchain.Product(addchain.Chain(xa), addchain.Chain(xb))
	want := new(big.Int).Mul(a[len(a)-1], b[len(b)-1])
	if e := chainErr(pr); e != "" || pr[len(pr)-1].Cmp(want) != 0 {
		c.Fail("Product([%s],[%s]) = [%s]: %s, want end %s", joinBig(a), joinBig(b), joinBig(pr), e, hexs(want))
		return
	}
	if !sa() || !sb() {
		c.Fail("Product([%s],[%s]) modified its arguments", joinBig(a), joinBig(b))
		return
	}
	c.Count("products", 1)
	keep := cloneBigs(pr)
	var pls []addchain.Chain
	for i, x := range xa {
		pl := addchain.Plus(addchain.Chain(xa), x)
		w := new(big.Int).Add(a[len(a)-1], a[i])
		if e := chainErr(pl); e != "" || pl[len(pl)-1].Cmp(w) != 0 {
			c.Fail("Plus([%s],%s) = [%s]: %s, want end %s", joinBig(a), hexs(a[i]), joinBig(pl), e, hexs(w))
			return
		}
		if !sa() {
			c.Fail("Plus([%s],%s) modified its arguments", joinBig(a), hexs(a[i]))
			return
		}
		c.Count("plus", 1)
		pls = append(pls, pl)
	}
	// Earlier results must be unaffected by later operations on the same operands.
	pr2 := addchain.Product(addchain.Chain(xa), addchain.Chain(xb))
	if !equalBigs(pr, keep) || !equalBigs(pr2, keep) {
		c.Fail("Product([%s],[%s]) changed after further operations", joinBig(a), joinBig(b))
	}
	for i, pl := range pls {
		w := new(big.Int).Add(a[len(a)-1], a[i])
		if pl[len(pl)-1].Cmp(w) != 0 || !equalBigs(pl[:len(pl)-1], a) && chainErr(pl) != "" {
			c.Fail("Plus([%s],%s) result changed after further operations: [%s]", joinBig(a), hexs(a[i]), joinBig(pl))
		}
	}
	if len(a)+len(b) > 2 {
		c.NontrivialHash(hashBigs(a)*31 + hashBigs(b))
		c.Sample("product", func() string { return fmt.Sprintf("[%s] o [%s] = [%s]", joinBig(a), joinBig(b), joinBig(pr)) })
	}
}

func c18pairs(c *Ctx, a []string) {
	x := splitBig(a[0])
	for _, s := range ascPrograms(3) {
		y := splitBig(s)
		c.At(func() Case { return Case{"pair", []string{joinBig(x), joinBig(y)}} })
		c18pair(c, x, y)
		c.At(func() Case { return Case{"pair", []string{joinBig(y), joinBig(x)}} })
		c18pair(c, y, x)
	}
}

func c18randpairs(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		x, y := msort(randChain(r, 1+r.Intn(30))), msort(randChain(r, 1+r.Intn(20)))
		if r.Intn(10) == 0 {
			x = []*big.Int{bi(1)}
		}
		if r.Intn(10) == 0 {
			y = []*big.Int{bi(1)}
		}
		c.At(func() Case { return Case{"pair", []string{joinBig(x), joinBig(y)}} })
		c18pair(c, x, y)
	}
}
