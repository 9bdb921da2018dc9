//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
)

func init() {
	register(&Prop{
		ID: "C16",
		Rule: "Each evaluation builds the script of one valid duplicate-free program, finds the chain element every statement denotes by evaluating the tree, and checks every name: legal identifier, unique, final statement and only it unnamed, and _b / xN / iN meaning the value b / 2^N-1 / chain index N. The printed text is read by the reference grammar interpreter and judged the same way. " +
			"Exhaustive: all programs with up to 6 (thorough 8) operations. Generated: programs rich in all-ones values and values around 2^8, long programs, programs with index above 1000, search results. " +
			"Non-trivial: distinct programs whose script has at least two statements.",
		Gen: func(g *Gen) {
			g.Blocks("ones", g.N(200, 2400), g.N(100, 300))
			g.Blocks("random", g.N(200, 2400), g.N(100, 300), 60)
			g.Blocks("random", g.N(48, 600), g.N(16, 50), 300)
			g.Blocks("random", g.N(24, 100), g.N(2, 10), 1600)
			g.Blocks("search", g.N(64, 600), g.N(12, 40))
			g.Blocks("named", g.N(160, 1600), g.N(100, 300))
			g.Emit("long", 4097, 3, g.S())
			g.Emit("long", 65537, 3, g.S()) // indexes past 16 bits
			for v := 0; v < 6; v++ {
				g.Emit("hot", 257, v, g.S())
			}
			g.Emit("hot", 65537, 5, g.S())
			g.Emit("enum", 0, "")
			for n := 1; n <= g.N(6, 8); n++ {
				for _, p := range prefixes(min(n, 3)) {
					g.Emit("enum", n, p)
				}
			}
		},
		Run: map[string]func(*Ctx, []string){
			"one": func(c *Ctx, a []string) { c16one(c, parseOps(a[0]), "one") },
			"enum": func(c *Ctx, a []string) {
				enumPrograms(parseOps(a[1]), atoi(a[0]), func(p addchain.Program, _ []int64) {
					if !c.Stop() {
						c16one(c, p, "enum")
					}
				})
			},
			"long": func(c *Ctx, a []string) {
				c16one(c, longProgram(atoi(a[0]), atoi(a[1]), atoi64(a[2])), "long")
			},
			"hot": func(c *Ctx, a []string) {
				c16one(c, hotProgram(atoi(a[0]), atoi(a[1]), atoi64(a[2])), "hot")
			},
			"ones": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c16one(c, onesProgram(r), "ones")
				}
			},
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					n := 1 + r.Intn(atoi(a[2]))
					if r.Intn(2) == 0 {
						c16one(c, randProgram(r, n), "random")
					} else {
						c16one(c, runsProgram(r, n), "runs")
					}
				}
			},
			"named": c16namedrandom,
			"named1": func(c *Ctx, a []string) {
				user := map[int]string{}
				for _, f := range strings.Fields(a[1]) {
					k, v, _ := strings.Cut(f, "=")
					user[atoi(k)] = v
				}
				c16named(c, parseOps(a[0]), user)
			},
			"search": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if p := searchProgram(r, 400); p != nil {
						c16one(c, p, "search")
					}
				}
			},
		},
		Floor: map[string]int64{"named-builds": 2000, "names-binary": 1000, "names-x": 1000, "names-i": 1000, "names-printed": 1000},
	})
}

// onesProgram makes chains rich in all-ones values, ones plus or minus one, and
// values around the limits of the naming schemes.
func onesProgram(r *rand.Rand) addchain.Program {
	p := addchain.Program{}
	cs := []*big.Int{bi(1)}
	seen := map[string]int{"1": 0}
	add := func(i, j int) int {
		s := new(big.Int).Add(cs[i], cs[j])
		if k, dup := seen[s.String()]; dup {
			return k
		}
		if r.Intn(2) == 0 {
			i, j = j, i
		}
		p = append(p, addchain.Op{I: i, J: j})
		cs = append(cs, s)
		seen[s.String()] = len(cs) - 1
		return len(cs) - 1
	}
	shl := func(i, s int) int {
		for ; s > 0; s-- {
			i = add(i, i)
		}
		return i
	}
	run := map[int]int{1: 0}
	lens := []int{1}
	for k := 1 + r.Intn(10); k > 0; k-- {
		a, b := lens[r.Intn(len(lens))], lens[r.Intn(len(lens))]
		if a+b > 500 {
			break
		}
		i := add(shl(run[a], b), run[b])
		if _, dup := run[a+b]; !dup {
			run[a+b] = i
			lens = append(lens, a+b)
		}
		switch r.Intn(5) {
		case 0:
			add(i, 0) // 2^n
		case 1:
			add(i, r.Intn(len(cs)))
		case 2:
			shl(i, 1+r.Intn(4))
		}
	}
	for k := r.Intn(8); k > 0; k-- { // values around 2^8
		var small []int
		for i, x := range cs {
			if x.BitLen() <= 9 {
				small = append(small, i)
			}
		}
		add(small[r.Intn(len(small))], small[r.Intn(len(small))])
	}
	if r.Intn(2) == 0 {
		add(len(cs)-1, r.Intn(len(cs)))
	}
	return p
}

func c16one(c *Ctx, p addchain.Program, kind string) {
	c.At(func() Case { return Case{"one", []string{opsString(p)}} })
	c.Eval(1)
	d, err := acc.Decompile(append(addchain.Program{}, p...))
	if err != nil {
		c.Fail("Decompile(%s): %v", opsString(p), err)
		return
	}
	if len(p)%3 == 1 { // names must not depend on passes having been run before
		if err := pass.Exec(d, pass.Func(pass.Eval), pass.Func(pass.ReadCounts)); err != nil {
			c.Fail("passes on %s: %v", opsString(p), err)
			return
		}
	}
	t, err := acc.Build(d)
	if err != nil {
		c.Fail("Build for %s: %v", opsString(p), err)
		return
	}
	if len(t.Statements) >= 2 {
		c.NontrivialHash(hashOps(p))
	}
	text, err := printer.String(t)
	if err != nil {
		c.Fail("printing the script for %s: %v", opsString(p), err)
		return
	}
	if !c16names(c, p, t, text, "syntax tree") {
		return
	}
	q, ok := refParse(text)
	if !ok {
		c.Fail("script for %s is outside the grammar\n%s", opsString(p), text)
		return
	}
	c16names(c, p, q, text, "printed script")
	c.Count("names-printed", len(q.Statements)-1)
	if len(p) > 6 {
		c.Sample(kind, func() string { return text })
	}
}

// c16namedrandom gives some elements names of the kind the builder makes up, or
// others, before the script is built.
func c16namedrandom(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		var p addchain.Program
		switch r.Intn(3) {
		case 0:
			p = onesProgram(r)
		case 1:
			p = randProgram(r, 1+r.Intn(30))
		default:
			p = runsProgram(r, 1+r.Intn(30))
		}
		ch, _ := evalOps(p)
		user := map[int]string{}
		taken := map[string]bool{}
		for k := 1 + r.Intn(6); k > 0; k-- {
			j, x := r.Intn(len(ch)), ch[r.Intn(len(ch))]
			if r.Intn(4) == 0 {
				x = ch[j]
			}
			var name string
			switch r.Intn(6) {
			case 0, 1:
				name = fmt.Sprintf("i%d", r.Intn(len(ch)))
				if r.Intn(4) == 0 {
					name += "_"
				}
			case 2:
				name = fmt.Sprintf("x%d", x.BitLen())
			case 3:
				name = fmt.Sprintf("_%b", x)
			case 4:
				name = []string{"a", "b", "_", "x", "i", "t0", "z", "x0", "_1"}[r.Intn(9)]
			default:
				name = fmt.Sprintf("_%b", r.Intn(256))
			}
			if !taken[name] && len(name) < 200 {
				if old, ok := user[j]; ok {
					delete(taken, old)
				}
				user[j], taken[name] = name, true
			}
		}
		c16named(c, p, user)
	}
}

func c16named(c *Ctx, p addchain.Program, user map[int]string) {
	desc := func() string {
		var f []string
		for i := 0; i <= len(p); i++ {
			if user[i] != "" {
				f = append(f, fmt.Sprintf("%d=%s", i, user[i]))
			}
		}
		return strings.Join(f, " ")
	}
	c.At(func() Case { return Case{"named1", []string{opsString(p), desc()}} })
	c.Eval(1)
	d, err := acc.Decompile(append(addchain.Program{}, p...))
	if err != nil {
		c.Fail("Decompile(%s): %v", opsString(p), err)
		return
	}
	for _, inst := range d.Instructions {
		for _, o := range inst.Operands() {
			o.Identifier = user[o.Index]
		}
	}
	t, err := acc.Build(d)
	if err != nil {
		c.Fail("Build for %s with names %s: %v", opsString(p), desc(), err)
		return
	}
	c.Count("named-builds", 1)
	ch, _ := evalOps(p)
	text, err := printer.String(t)
	bad := func(format string, args ...interface{}) {
		c.Fail("script for %s with names %s: %s\n%s", opsString(p), desc(), fmt.Sprintf(format, args...), text)
	}
	if err != nil {
		bad("printing fails: %v", err)
		return
	}
	q, ok := refParse(text)
	if !ok || !sameTree(q, t) {
		bad("does not print as the tree %s", treeString(t))
		return
	}
	m := refEval(t)
	if m.Err != "" || !equalBigs(m.Chain, ch) || !sameOps(m.Ops, p) {
		bad("evaluates to [%s] (%s)", joinBig(m.Chain), m.Err)
		return
	}
	seen := map[string]bool{}
	for k, st := range t.Statements {
		name := string(st.Name)
		if (name == "") != (k == len(t.Statements)-1) {
			bad("statement %d has name %q", k, name)
			continue
		}
		if name == "" {
			continue
		}
		if seen[name] {
			bad("name %q defined twice", name)
		}
		seen[name] = true
		i := m.Elem[k]
		if user[i] == name {
			c.Count("names-kept", 1)
			continue
		}
		// A generated name must be right.
		v := ch[i]
		num, isnum := new(big.Int).SetString(name[1:], 10)
		switch {
		case name[0] == '_' && len(name) > 1 && strings.Trim(name[1:], "01") == "":
			if b, _ := new(big.Int).SetString(name[1:], 2); b.Cmp(v) != 0 {
				bad("%s denotes element %d with value %s", name, i, hexs(v))
			}
		case name[0] == 'x' && isnum && strings.Trim(name[1:], "0123456789") == "":
			if !allOnes(v) || num.Cmp(bi(int64(v.BitLen()))) != 0 {
				bad("%s denotes element %d with value %s", name, i, hexs(v))
			}
		case name[0] == 'i' && isnum && strings.Trim(name[1:], "0123456789") == "":
			if num.Cmp(bi(int64(i))) != 0 {
				bad("%s denotes element %d", name, i)
			}
		}
	}
	if len(user) > 1 {
		c.Nontrivial(opsString(p), desc())
	}
	c.Sample("named", func() string { return desc() + ": " + text })
}

func c16names(c *Ctx, p addchain.Program, t *ast.Chain, text, what string) bool {
	n0 := c.fails
	ch, _ := evalOps(p)
	names := map[string]bool{}
	last := len(t.Statements) - 1
	bad := func(format string, args ...interface{}) {
		c.Fail("%s of the script for %s: %s\n%s", what, opsString(p), fmt.Sprintf(format, args...), text)
	}
	if last < 0 {
		bad("no statements")
		return false
	}
	for k, st := range t.Statements {
		name := string(st.Name)
		if (name == "") != (k == last) {
			bad("statement %d of %d has name %q", k, last+1, name)
			continue
		}
		if name == "" {
			continue
		}
		if names[name] {
			bad("name %q defined twice", name)
		}
		names[name] = true
		legal := isLetter(name[0])
		for i := 1; i < len(name); i++ {
			legal = legal && (isLetter(name[i]) || isDigit(name[i]))
		}
		if !legal {
			bad("name %q is not an identifier", name)
		}
	}
	m := refEval(t)
	if m.Err != "" {
		bad("does not evaluate: %s", m.Err)
		return false
	}
	for k, st := range t.Statements {
		name := string(st.Name)
		if name == "" {
			continue
		}
		i := m.Elem[k]
		if i < 0 || i >= len(m.Chain) || i >= len(ch) {
			bad("%s denotes element %d", name, i)
			continue
		}
		// The value is taken from the chain the script was built for.
		v := ch[i]
		num := func(s string) *big.Int {
			for j := 0; j < len(s); j++ {
				if !isDigit(s[j]) {
					return nil
				}
			}
			x, ok := new(big.Int).SetString(s, 10)
			if !ok {
				return nil
			}
			return x
		}
		switch {
		case name[0] == '_' && len(name) > 1 && strings.Trim(name[1:], "01") == "":
			c.Count("names-binary", 1)
			if b, _ := new(big.Int).SetString(name[1:], 2); b.Cmp(v) != 0 {
				bad("%s denotes element %d with value %s", name, i, hexs(v))
			}
		case name[0] == 'x' && num(name[1:]) != nil:
			c.Count("names-x", 1)
			if !allOnes(v) || num(name[1:]).Cmp(bi(int64(v.BitLen()))) != 0 {
				bad("%s denotes element %d with value %s", name, i, hexs(v))
			}
		case name[0] == 'i' && num(name[1:]) != nil:
			c.Count("names-i", 1)
			if num(name[1:]).Cmp(bi(int64(i))) != 0 {
				bad("%s denotes element %d", name, i)
			}
		default:
			bad("name %q has none of the documented forms", name)
		}
	}
	c.Max("max_statements", len(t.Statements))
	c.Max("max_index", len(ch)-1)
	return c.fails == n0
}
