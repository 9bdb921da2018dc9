//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/printer"
)

func init() {
	register(&Prop{
		ID: "C07",
		Rule: "Each evaluation prints one syntax tree and parses the text with the tool and with the reference grammar interpreter: both must return the identical tree, and printing again must give the same text. " +
			"Exhaustive: every expression tree with up to 4 operators (thorough 5; all statement positions up to 3) over 1, an index, a name, +, 2* and two shift amounts; every identifier of up to 3 characters over 16 characters and every look-alike in every position. Generated: deep and large random trees with operands and shift amounts over the whole range, scripts of many statements, parsed texts (formatting must keep chain and operations), the fmt command on files and standard input. " +
			"Non-trivial: distinct trees with at least one operator.",
		Assumptions: []string{"operands are non-negative; the last statement of a tree is unnamed and the others are named, as in every parsed tree"},
		Gen: func(g *Gen) {
			g.Blocks("tree", g.N(240, 3000), g.N(60, 300), 12)
			g.Blocks("tree", g.N(64, 800), g.N(8, 40), 80)
			g.Blocks("chain", g.N(120, 1500), g.N(40, 150))
			g.Blocks("text", g.N(160, 2000), g.N(40, 150))
			g.Blocks("rebuilds", g.N(160, 2000), g.N(40, 150))
			g.Blocks("cli", g.N(24, 200), g.N(8, 20))
			g.Emit("deep")
			g.Emit("names")
			for i := range c07alpha {
				g.Emit("idents", i)
			}
			for n := 0; n <= 3; n++ {
				for root := 0; root < 4; root++ {
					g.Emit("enum", n, root, 0, 1, 1)
				}
			}
			for n := 4; n <= g.N(4, 5); n++ {
				for part := 0; part < 16; part++ {
					for root := 0; root < 4; root++ {
						g.Emit("enum", n, root, part, 16, 0)
					}
				}
			}
		},
		Run: map[string]func(*Ctx, []string){
			"one":      func(c *Ctx, a []string) { c07tree(c, parseTree(a[0]), "one") },
			"rebuild":  func(c *Ctx, a []string) { c07rebuild(c, a[0]) },
			"rebuilds": c07rebuilds,
			"fmt":      func(c *Ctx, a []string) { c07text(c, a[0], "fmt") },
			"enum":     c07enum,
			"names":    c07names,
			"idents": func(c *Ctx, a []string) {
				f := string(c07alpha[atoi(a[0])])
				if isDigit(f[0]) {
					return
				}
				c07ident(c, f)
				for _, x := range c07alpha {
					c07ident(c, f+string(x))
					for _, y := range c07alpha {
						c07ident(c, f+string(x)+string(y))
					}
				}
			},
			"deep": c07deep,
			"tree": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c07tree(c, wrap(randTree(r, 1+r.Intn(atoi(a[2])))), "tree")
				}
			},
			"chain": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					ch := &ast.Chain{}
					for k := r.Intn(1 + r.Intn(30)); k > 0; k-- {
						ch.Statements = append(ch.Statements, ast.Statement{Name: ast.Identifier(randName(r)), Expr: randTree(r, r.Intn(6))})
					}
					ch.Statements = append(ch.Statements, ast.Statement{Expr: randTree(r, r.Intn(6))})
					c07tree(c, ch, "chain")
				}
			},
			"text": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					if r.Intn(4) == 0 {
						g.bad = 8
					}
					src := writeScript(r, g.script(r.Intn(8), 6))
					if r.Intn(6) == 0 {
						src = mutate(r, src, 2)
					}
					c07text(c, src, "text")
				}
			},
			"cli": c07cli,
		},
		Floor: map[string]int64{"round-trips": 20000, "texts-formatted": 2000, "identifiers": 2000, "commands": 100},
	})
}

func wrap(e ast.Expr) *ast.Chain { return &ast.Chain{Statements: []ast.Statement{{Expr: e}}} }

const c07alpha = "abdlrshetxAZ_019"

// hasDbl reports whether a tree uses an identifier that starts with the doubling
// operator, and returns the tree with those renamed.
func hasDbl(ch *ast.Chain) (bool, *ast.Chain) {
	found := false
	name := func(n ast.Identifier) ast.Identifier {
		if strings.HasPrefix(string(n), "dbl") && len(n) > 3 {
			found = true
			return "q" + n
		}
		return n
	}
	var walk func(e ast.Expr) ast.Expr
	walk = func(e ast.Expr) ast.Expr {
		switch e := e.(type) {
		case ast.Identifier:
			return name(e)
		case ast.Add:
			return ast.Add{X: walk(e.X), Y: walk(e.Y)}
		case ast.Double:
			return ast.Double{X: walk(e.X)}
		case ast.Shift:
			return ast.Shift{X: walk(e.X), S: e.S}
		}
		return e
	}
	out := &ast.Chain{}
	for _, s := range ch.Statements {
		out.Statements = append(out.Statements, ast.Statement{Name: s.Name, Expr: walk(s.Expr)})
	}
	return found, out
}

// roundTrip prints a tree and reads it back; why is empty if it survives.
func roundTrip(t *ast.Chain) (text, why string) {
	text, err := printer.String(t)
	if err != nil {
		return "", fmt.Sprintf("printing fails: %v", err)
	}
	back, err := parse.String(text)
	if err != nil {
		return text, fmt.Sprintf("printed text is rejected: %v", err)
	}
	if !sameTree(back, t) {
		return text, "printed text parses to " + treeString(back)
	}
	ref, ok := refParse(text)
	if !ok || !sameTree(ref, t) {
		return text, "printed text is, by the grammar, " + treeString(ref)
	}
	again, err := printer.String(back)
	if err != nil || again != text {
		return text, fmt.Sprintf("printing is not idempotent: %q %v", again, err)
	}
	return text, ""
}

func c07tree(c *Ctx, t *ast.Chain, kind string) bool {
	c.At(func() Case { return Case{"one", []string{treeString(t)}} })
	c.Eval(1)
	if ops := countOps(t); ops > 0 {
		c.Nontrivial(treeString(t))
		c.Max("max_operators", ops)
	}
	before := treeString(t)
	text, why := roundTrip(t)
	if treeString(t) != before {
		c.Fail("printing changed the tree %s into %s", before, treeString(t))
		return false
	}
	if why == "" {
		c.Count("round-trips", 1)
		if kind != "enum" {
			c.Sample(kind, func() string { return text })
		}
		// A bare expression prints as it does in a statement.
		if c.evals%8 == 0 {
			e := t.Statements[len(t.Statements)-1].Expr
			s, err := printer.String(e)
			if err != nil {
				c.Fail("printing expression of %s: %v", before, err)
				return false
			}
			if back, err := parse.String("return " + s); err != nil || !sameTree(back, wrap(e)) {
				c.Fail("expression of %s prints as %q which parses to %s, %v", before, s, treeString(back), err)
				return false
			}
		}
		return true
	}
	if dbl, renamed := hasDbl(t); dbl {
		// The recorded finding: the parser reads exactly what the grammar says,
		// and nothing but the identifier is at fault.
		ref, ok := refParse(text)
		got, err := parse.String(text)
		if _, bad := roundTrip(renamed); bad == "" && text != "" && ok == (err == nil) && (!ok || sameTree(ref, got)) {
			c.Known("dbl-identifier", "an identifier starting with dbl does not survive printing and parsing: tree %s prints as %q, %s", before, text, why)
			c.Count("dbl-identifiers", 1)
			return false
		}
	}
	c.Fail("tree %s prints as %q: %s", before, text, why)
	return false
}

func countOps(t *ast.Chain) int {
	var n func(e ast.Expr) int
	n = func(e ast.Expr) int {
		switch e := e.(type) {
		case ast.Add:
			return 1 + n(e.X) + n(e.Y)
		case ast.Double:
			return 1 + n(e.X)
		case ast.Shift:
			return 1 + n(e.X)
		}
		return 0
	}
	s := 0
	for _, st := range t.Statements {
		s += n(st.Expr)
	}
	return s
}

// enumTrees calls f for every tree with exactly n operators.
func enumTrees(n int, f func(e ast.Expr)) {
	if n == 0 {
		f(ast.Operand(0))
		f(ast.Operand(2))
		f(ast.Identifier("a"))
		return
	}
	for root := 0; root < 4; root++ {
		enumRoot(n, root, f)
	}
}

func enumRoot(n, root int, f func(e ast.Expr)) {
	switch root {
	case 0:
		for k := 0; k < n; k++ {
			enumTrees(k, func(x ast.Expr) {
				enumTrees(n-1-k, func(y ast.Expr) { f(ast.Add{X: x, Y: y}) })
			})
		}
	case 1:
		enumTrees(n-1, func(x ast.Expr) { f(ast.Double{X: x}) })
	case 2:
		enumTrees(n-1, func(x ast.Expr) { f(ast.Shift{X: x, S: 1}) })
	case 3:
		enumTrees(n-1, func(x ast.Expr) { f(ast.Shift{X: x, S: 12}) })
	}
}

func c07enum(c *Ctx, a []string) {
	n, root, part, parts := atoi(a[0]), atoi(a[1]), atoi(a[2]), atoi(a[3])
	k := 0
	one := func(e ast.Expr) {
		k++
		if k%parts != part || c.Stop() {
			return
		}
		c07tree(c, wrap(e), "enum")
		c.Count("enumerated", 1)
		if a[4] == "1" || k%7 == 0 { // other statement positions
			c07tree(c, &ast.Chain{Statements: []ast.Statement{{Name: "a", Expr: e}, {Expr: ast.Add{X: ast.Identifier("a"), Y: ast.Operand(0)}}}}, "enum")
			c07tree(c, &ast.Chain{Statements: []ast.Statement{{Name: "a", Expr: ast.Double{X: ast.Operand(0)}}, {Name: "_10101", Expr: e}, {Expr: e}}}, "enum")
		}
	}
	if n == 0 {
		if root == 0 {
			enumTrees(0, one)
		}
		return
	}
	enumRoot(n, root, one)
}

// c07ident puts an identifier in every position.
func c07ident(c *Ctx, name string) {
	v := ast.Identifier(name)
	one := ast.Operand(0)
	c.Count("identifiers", 1)
	for _, e := range []ast.Expr{
		v, ast.Add{X: v, Y: one}, ast.Add{X: one, Y: v}, ast.Add{X: v, Y: v}, ast.Double{X: v}, ast.Shift{X: v, S: 3},
		ast.Add{X: one, Y: ast.Add{X: v, Y: one}}, ast.Double{X: ast.Add{X: v, Y: one}}, ast.Shift{X: ast.Double{X: v}, S: 2}, ast.Add{X: ast.Shift{X: v, S: 1}, Y: ast.Double{X: v}},
	} {
		if c.Stop() {
			return
		}
		c07tree(c, wrap(e), "ident")
		if c.evals%4 == 0 {
			c07tree(c, &ast.Chain{Statements: []ast.Statement{{Name: v, Expr: ast.Double{X: one}}, {Expr: e}}}, "ident")
			c07tree(c, &ast.Chain{Statements: []ast.Statement{{Name: "u", Expr: e}, {Name: v, Expr: e}, {Expr: ast.Add{X: ast.Identifier("u"), Y: v}}}}, "ident")
		}
	}
}

func c07names(c *Ctx, a []string) {
	for _, n := range lookalikes {
		c07ident(c, n)
		for _, s := range []string{"1", "x", "_", "0", "add", "shl", "return"} {
			c07ident(c, n+s)
			if !isDigit(s[0]) {
				c07ident(c, s+n)
			}
		}
	}
	for _, n := range dbllikes {
		c07ident(c, n)
	}
	for _, k := range []int{7, 8, 9, 63, 64, 65, 255, 256, 1000, 5000} {
		c07ident(c, strings.Repeat("v", k))
		c07ident(c, "_"+strings.Repeat("1", k))
	}
	for _, s := range []uint{0, 1, 2, 7, 8, 9, 10, 63, 64, 99, 100, 255, 256, 999, 1000, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64} {
		c07tree(c, wrap(ast.Shift{X: ast.Operand(0), S: s}), "names")
		if s <= math.MaxInt64 {
			c07tree(c, wrap(ast.Operand(s)), "names")
			c07tree(c, wrap(ast.Add{X: ast.Operand(s), Y: ast.Double{X: ast.Operand(s)}}), "names")
		}
	}
}

func c07deep(c *Ctx, a []string) {
	for _, d := range []int{1, 2, 4, 8, 16, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 400, 800} {
		mk := []func(e ast.Expr) ast.Expr{
			func(e ast.Expr) ast.Expr { return ast.Add{X: e, Y: ast.Operand(0)} },
			func(e ast.Expr) ast.Expr { return ast.Add{X: ast.Operand(0), Y: e} },
			func(e ast.Expr) ast.Expr { return ast.Double{X: e} },
			func(e ast.Expr) ast.Expr { return ast.Shift{X: e, S: 2} },
		}
		for i, f := range mk {
			for j, h := range mk {
				if d > 100 && (i+j)%2 == 1 {
					continue
				}
				var e ast.Expr = ast.Identifier("a")
				for k := 0; k < d; k++ {
					if k%2 == 0 {
						e = f(e)
					} else {
						e = h(e)
					}
				}
				if !c07tree(c, wrap(e), "deep") || c.Stop() {
					return
				}
			}
		}
	}
}

// c07text formats a text: the tree, and with it the chain, must be kept.
func c07text(c *Ctx, src, kind string) {
	want, ok := refParse(src)
	if !ok {
		return
	}
	t, err := parse.String(src)
	if err != nil || !sameTree(t, want) {
		c.Count("misparsed", 1) // another property
		if err != nil {
			return
		}
	}
	if !c07tree(c, t, kind) {
		return
	}
	c.At(func() Case { return Case{"fmt", []string{src}} })
	c.Eval(1)
	c.Count("texts-formatted", 1)
	if chainShift(t) > c03shift {
		return
	}
	text, _ := printer.String(t)
	p, err1 := acc.LoadString(src)
	q, err2 := acc.LoadString(text)
	if (err1 == nil) != (err2 == nil) {
		c.Fail("loading %q: %v; after formatting to %q: %v", src, err1, text, err2)
		return
	}
	if err1 == nil && (!equalBigs(p.Chain, q.Chain) || opsString(p.Program) != opsString(q.Program)) {
		c.Fail("formatting %q to %q changes the chain from %s to %s", src, text, joinBig(p.Chain), joinBig(q.Chain))
	}
}

// c07rebuild rebuilds a script from its intermediate form, as fmt -b does.
func c07rebuild(c *Ctx, src string) {
	t, ok := refParse(src)
	if !ok || chainShift(t) > c03shift {
		return
	}
	m := refEval(t)
	if m.Err != "" || m.Lenient {
		return
	}
	got, err := parse.String(src)
	if err != nil {
		return
	}
	c.At(func() Case { return Case{"rebuild", []string{src}} })
	c.Eval(1)
	p, err := acc.Translate(got)
	if err != nil {
		c.Fail("Translate of %q: %v", src, err)
		return
	}
	b, err := acc.Build(p)
	if err != nil { // two names for one element, for instance
		c.Count("rebuild-refused", 1)
		return
	}
	if dbl, _ := hasDbl(b); dbl {
		return
	}
	text, err := printer.String(b)
	if err != nil {
		c.Fail("printing the rebuilt %q: %v", src, err)
		return
	}
	c.Count("rebuilt", 1)
	q, err := acc.LoadString(text)
	if err != nil {
		c.Fail("rebuilding %q gives %q, which is rejected: %v", src, text, err)
		return
	}
	if !equalBigs(q.Chain, m.Chain) {
		c.Fail("rebuilding %q to %q changes the chain from %s to %s", src, text, joinBig(m.Chain), joinBig(q.Chain))
	}
}

func c07rebuilds(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		g := newGenScript(r)
		c03shape(g)
		src := writeScript(r, g.script(r.Intn(10), 8))
		c07rebuild(c, src)
	}
}

func c07cli(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	dir, err := os.MkdirTemp(c.run.tmp, "c07")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "s.acc")
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		g := newGenScript(r)
		c03shape(g)
		src := writeScript(r, g.script(r.Intn(8), 8))
		t, ok := refParse(src)
		if !ok {
			continue
		}
		if dbl, _ := hasDbl(t); dbl {
			continue
		}
		c.At(func() Case { return Case{"fmt", []string{src}} })
		c.Eval(1)
		must(os.WriteFile(fn, []byte(src), 0o644))
		f := c.addchainCmd("", "fmt", fn)
		if f.Code != 0 || f.Crashed() || f.Timeout {
			c.Fail("fmt of %q: %v", src, f)
			continue
		}
		if back, ok := refParse(f.Out); !ok || !sameTree(back, t) {
			c.Fail("fmt of %q prints %q, whose tree is %s, want %s", src, f.Out, treeString(back), treeString(t))
			continue
		}
		f2 := c.addchainCmd(f.Out, "fmt")
		if f2.Code != 0 || f2.Out != f.Out {
			c.Fail("fmt of %q is not idempotent: %q then %v", src, f.Out, f2)
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, t); err != nil || b.String() != f.Out {
			c.Fail("fmt of %q prints %q, the printer %q (%v)", src, f.Out, b.String(), err)
		}
		if i%2 == 0 && chainShift(t) <= c03shift {
			if m := refEval(t); m.Err == "" && !m.Lenient {
				e := c.addchainCmd(f.Out, "eval")
				if want := evalOutput(m.Ops, m.Chain); e.Code != 0 || normOps(e.Out) != normOps(want) {
					c.Fail("eval after fmt of %q: %v, want %s", src, e, want)
				}
			}
		}
	}
}
