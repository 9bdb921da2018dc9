//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/gen"
)

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "Each evaluation generates the builtin outputs for one script (library or gen command), reads them back as text and judges them against the reference evaluation of the script: the listing is executed literally on a register machine with poisoned registers, output distinct from and aliased to the input, only declared temporaries existing; the chain and ops outputs are compared element by element; the script output is evaluated again. Scripts that do not evaluate must be refused; scripts reading an intermediate of a shift must be refused or right. " +
			"Exhaustive: all scripts of one or two statements with up to 3 (thorough 4) operators over 1, a name and index operands. Generated: scripts with names, nesting, dead statements, index operands anywhere including inside shifts; programs found by searches; every builtin template. " +
			"Non-trivial: distinct accepted scripts with at least 2 operations.",
		Assumptions: []string{"the final chain value is the last element of the evaluated chain", "refusing a script is never wrong; the floors on accepted scripts keep the check from being empty"},
		Gen: func(g *Gen) {
			g.Blocks("random", g.N(200, 2400), g.N(60, 200), 6, 5, 0)
			g.Blocks("random", g.N(64, 800), g.N(6, 40), 40, 8, 0)
			g.Blocks("random", g.N(160, 2000), g.N(60, 200), 5, 5, 1)
			g.Blocks("random", g.N(32, 200), g.N(40, 100), 4, 4, 2)
			g.Blocks("bigshift", g.N(24, 200), g.N(3, 8), 5000)
			g.Blocks("bigshift", g.N(4, 20), 1, 70000)
			g.Blocks("search", g.N(40, 400), g.N(10, 30))
			g.Blocks("wide", g.N(32, 300), g.N(10, 40))
			g.Blocks("cli", g.N(32, 240), g.N(4, 10))
			for n := 0; n <= g.N(3, 4); n++ {
				for k := 0; k <= n; k++ {
					parts := 1
					if n >= 3 {
						parts = g.N(16, 256)
					}
					for p := 0; p < parts; p++ {
						g.Emit("enum", n, k, p, parts)
					}
				}
			}
		},
		Run: map[string]func(*Ctx, []string){
			"text":    func(c *Ctx, a []string) { c06text(c, a[0], true, "text") },
			"bigtext": func(c *Ctx, a []string) { c06text(c, a[0], false, "bigshift") },
			"enum":    c06enum,
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					g.outsOnly = true
					switch a[4] {
					case "1": // anywhere, mostly into shifts
						g.outsOnly = false
						g.index = 2 + r.Intn(4)
					case "2":
						g.outsOnly = false
						g.bad = 8
					}
					c06text(c, writeScript(r, g.script(r.Intn(atoi(a[2])+1), atoi(a[3]))), r.Intn(4) == 0, "random"+a[4])
				}
			},
			"bigshift": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c06text(c, irScript(r, irString(bigShiftIR(r, atoi(a[2])))), atoi(a[2]) < 10000, "bigshift")
				}
			},
			"search": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					if p := searchProgram(r, 500); p != nil {
						if s := scriptOf(p); s != "" {
							c06text(c, s, true, "search")
						}
					}
				}
			},
			"wide": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					p := wideIR(r, false)
					if r.Intn(2) == 0 {
						p = randIR(r, 1+r.Intn(150), r.Intn(2) == 0)
					}
					c06text(c, irScript(r, irString(p)), true, "wide")
				}
			},
			"cli": c06cli,
		},
		Floor: map[string]int64{"listings": 5000, "refused-mid-shift": 500, "chains": 1000, "ops": 1000, "scripts": 1000, "commands": 100},
	})
}

// scriptOf writes a program as a script with the repository's own builder.
func scriptOf(p addchain.Program) string {
	d, err := acc.Decompile(p)
	if err != nil {
		return ""
	}
	s, err := acc.String(d)
	if err != nil {
		return ""
	}
	return s
}

// irScript writes an instruction program as a script with one statement per
// instruction, values by name or by index.
func irScript(r *rand.Rand, s string) string {
	p := parseIR(s)
	var b strings.Builder
	byIndex := r.Intn(3)
	ref := func(i int) string {
		if i == 0 {
			return "1"
		}
		if byIndex == 1 || byIndex == 2 && r.Intn(2) == 0 {
			return fmt.Sprintf("[%d]", i)
		}
		return fmt.Sprintf("v%d", i)
	}
	for k, inst := range p.Instructions {
		if k < len(p.Instructions)-1 {
			fmt.Fprintf(&b, "v%d = ", inst.Output.Index)
		} else {
			b.WriteString("return ")
		}
		in := inst.Op.Inputs()
		switch f := strings.Fields(s)[k]; f[0] {
		case 'a':
			fmt.Fprintf(&b, "%s + %s\n", ref(in[0].Index), ref(in[1].Index))
		case 'd':
			fmt.Fprintf(&b, "2*%s\n", ref(in[0].Index))
		default:
			fmt.Fprintf(&b, "%s << %s\n", ref(in[0].Index), f[strings.Index(f, ",")+1:])
		}
	}
	return b.String()
}

// parseListing reads a listing as documented.
func parseListing(s string) (temps []string, is []rinst, bad string) {
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	for k, l := range lines {
		f := strings.Split(l, "\t")
		if k == 0 {
			if f[0] != "tmp" {
				return nil, nil, fmt.Sprintf("first line is %q", l)
			}
			for _, t := range f[1:] {
				if t != "" {
					temps = append(temps, t)
				}
			}
			continue
		}
		switch {
		case f[0] == "add" && len(f) == 4:
			is = append(is, rinst{Op: "add", Z: f[1], X: f[2], Y: f[3]})
		case f[0] == "double" && len(f) == 3:
			is = append(is, rinst{Op: "double", Z: f[1], X: f[2]})
		case f[0] == "shift" && len(f) == 4:
			n, err := strconv.ParseUint(f[3], 10, 32)
			if err != nil {
				return nil, nil, fmt.Sprintf("line %d is %q", k+1, l)
			}
			is = append(is, rinst{Op: "shift", Z: f[1], X: f[2], N: uint(n)})
		default:
			return nil, nil, fmt.Sprintf("line %d is %q", k+1, l)
		}
	}
	return temps, is, ""
}

// c06output judges one builtin output of a script against its meaning.
func c06output(typ, out, in, outname string, m *refResult) string {
	switch typ {
	case "listing":
		temps, is, bad := parseListing(out)
		if bad != "" {
			return bad
		}
		want := m.Chain[len(m.Chain)-1]
		for _, alias := range []bool{false, true} {
			v, bad := runRegs(is, in, outname, temps, alias)
			if bad != "" {
				return fmt.Sprintf("run with aliasing %v: %s", alias, bad)
			}
			if v.Cmp(want) != 0 {
				return fmt.Sprintf("run with aliasing %v gives %s, want %s", alias, hexs(v), hexs(want))
			}
		}
	case "chain":
		var got []*big.Int
		for k, l := range lines(out) {
			var n int
			var v string
			if c, _ := fmt.Sscanf(l, "%d: 0x%s", &n, &v); c != 2 || n != k+1 {
				return fmt.Sprintf("line %d is %q", k+1, l)
			}
			x, ok := new(big.Int).SetString(v, 16)
			if !ok {
				return fmt.Sprintf("line %d is %q", k+1, l)
			}
			got = append(got, x)
		}
		if !equalBigs(got, m.Chain) {
			return fmt.Sprintf("lists %s, want %s", joinBig(got), joinBig(m.Chain))
		}
	case "ops":
		ls := lines(out)
		if len(ls) != len(m.Ops) {
			return fmt.Sprintf("lists %d operations, want %d", len(ls), len(m.Ops))
		}
		for k, l := range ls {
			var n, i, j int
			var v string
			if c, _ := fmt.Sscanf(l, "[%d] %d+%d 0x%s", &n, &i, &j, &v); c != 4 || n != k {
				return fmt.Sprintf("line %d is %q", k+1, l)
			}
			op := m.Ops[k]
			if !(i == op.I && j == op.J || i == op.J && j == op.I) {
				return fmt.Sprintf("line %d is %q, want operation %v", k+1, l, op)
			}
			if x, ok := new(big.Int).SetString(v, 16); !ok || x.Cmp(m.Chain[k+1]) != 0 {
				return fmt.Sprintf("line %d is %q, want value %s", k+1, l, hexs(m.Chain[k+1]))
			}
		}
	case "script":
		t, ok := refParse(out)
		if !ok {
			return "is outside the grammar"
		}
		n := refEval(t)
		if n.Err != "" {
			return "does not evaluate: " + n.Err
		}
		if !equalBigs(n.Chain, m.Chain) || !sameOps(n.Ops, m.Ops) {
			return fmt.Sprintf("evaluates to %s, want %s", joinBig(n.Chain), joinBig(m.Chain))
		}
		p, err := acc.LoadString(out)
		if err != nil {
			return fmt.Sprintf("does not load: %v", err)
		}
		if !equalBigs(p.Chain, m.Chain) {
			return fmt.Sprintf("loads to %s, want %s", joinBig(p.Chain), joinBig(m.Chain))
		}
	}
	return ""
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

var c06types = []string{"listing", "chain", "ops", "script"}

func c06text(c *Ctx, src string, all bool, kind string) {
	replay, limit := "text", uint64(c03shift)
	if kind == "bigshift" {
		replay, limit = "bigtext", 100000
	}
	c.At(func() Case { return Case{replay, []string{src}} })
	t, err := parse.String(src)
	if err != nil || chainShift(t) > limit {
		return
	}
	if want, ok := refParse(src); !ok || !sameTree(t, want) {
		return // another property
	}
	m := refEval(t)
	c.Eval(1)
	cfg := c05names[int(hashStr(src)%4)]
	if int(hashStr(src)%4) == 3 || !all {
		cfg = c05names[0]
	}
	before := treeString(t)
	data, err := gen.PrepareData(gen.Config{Allocator: pass.Allocator{Input: cfg[0], Output: cfg[1], Format: cfg[2]}}, t)
	if treeString(t) != before {
		c.Fail("preparing data for %q changed the tree from %s to %s", src, before, treeString(t))
		return
	}
	if err != nil {
		switch {
		case m.Err != "":
			c.Count("refused-invalid", 1)
		case m.Mid:
			c.Count("refused-mid-shift", 1)
		default:
			c.Count("refused-other", 1)
		}
		return
	}
	if m.Err != "" {
		c.Fail("script %q is accepted, but does not evaluate: %s", src, m.Err)
		return
	}
	if m.Mid {
		c.Count("accepted-mid-shift", 1)
	}
	if len(m.Ops) >= 2 {
		c.Nontrivial(src)
	}
	c.Max("max_operations", len(m.Ops))
	if !equalBigs(data.Chain, m.Chain) || !sameOps(data.Ops, m.Ops) {
		c.Fail("script %q: generator data has chain %s, want %s", src, joinBig(data.Chain), joinBig(m.Chain))
	}
	types := c06types
	if !all {
		types = c06types[:1]
	}
	if len(types) == 4 && hashStr(src)%2 == 0 { // any order
		types = []string{"script", "ops", "chain", "listing"}
	}
	for _, typ := range types {
		tmpl, err := gen.BuiltinTemplate(typ)
		if err != nil {
			c.Fail("builtin template %s: %v", typ, err)
			return
		}
		var b bytes.Buffer
		if err := gen.Generate(&b, tmpl, data); err != nil {
			c.Fail("generating %s for %q: %v", typ, src, err)
			return
		}
		if bad := c06output(typ, b.String(), cfg[0], cfg[1], m); bad != "" {
			c.Fail("script %q: %s output %s\n%s", src, typ, bad, b.String())
			return
		}
		c.Count(map[string]string{"listing": "listings", "chain": "chains", "ops": "ops", "script": "scripts"}[typ], 1)
		if typ == "listing" && len(m.Ops) > 5 {
			c.Sample(kind, func() string { return fmt.Sprintf("%q -> %q", src, b.String()) })
		}
	}
}

// c06enum goes through the scripts "a = E; return F" with n operators, k of them
// in E, and "return E".
func c06enum(c *Ctx, a []string) {
	n, k, part, parts := atoi(a[0]), atoi(a[1]), atoi(a[2]), atoi(a[3])
	i := 0
	c06trees(k, false, func(x ast.Expr) {
		c06trees(n-k, true, func(y ast.Expr) {
			i++
			if i%parts != part || c.Stop() {
				return
			}
			src, err := printer.String(&ast.Chain{Statements: []ast.Statement{{Name: "a", Expr: x}, {Expr: y}}})
			if err != nil {
				return
			}
			c.Count("enumerated", 1)
			c06text(c, src, i%32 == 0, "enum")
		})
	})
	if k == 0 && part == 0 {
		c06trees(n, false, func(x ast.Expr) {
			if src, err := printer.String(wrap(x)); err == nil && !c.Stop() {
				c06text(c, src, true, "enum")
			}
		})
	}
}

func c06trees(n int, name bool, f func(e ast.Expr)) {
	if n == 0 {
		f(ast.Operand(0))
		f(ast.Operand(1))
		f(ast.Operand(2))
		if name {
			f(ast.Identifier("a"))
		}
		return
	}
	for k := 0; k < n; k++ {
		c06trees(k, name, func(x ast.Expr) {
			c06trees(n-1-k, name, func(y ast.Expr) { f(ast.Add{X: x, Y: y}) })
		})
	}
	c06trees(n-1, name, func(x ast.Expr) {
		f(ast.Double{X: x})
		f(ast.Shift{X: x, S: 1})
		f(ast.Shift{X: x, S: 3})
	})
}

func c06cli(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	dir, err := os.MkdirTemp(c.run.tmp, "c06")
	must(err)
	defer os.RemoveAll(dir)
	fn, out := filepath.Join(dir, "s.acc"), filepath.Join(dir, "out")
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		g := newGenScript(r)
		c03shape(g)
		g.outsOnly = r.Intn(3) != 0
		src := writeScript(r, g.script(r.Intn(8), 6))
		if r.Intn(4) == 0 {
			if p := searchProgram(r, 300); p != nil {
				if s := scriptOf(p); s != "" {
					src = s
				}
			}
		}
		t, ok := refParse(src)
		if !ok || chainShift(t) > c03shift {
			continue
		}
		m := refEval(t)
		c.At(func() Case { return Case{"text", []string{src}} })
		must(os.WriteFile(fn, []byte(src), 0o644))
		for k, typ := range append([]string{""}, c06types...) {
			args := []string{"gen"}
			if typ != "" {
				args = append(args, "-type", typ)
			} else {
				typ = "listing"
			}
			toFile := k == 2 || k == 3 && i%2 == 0
			if toFile {
				args = append(args, "-out", out)
			}
			stdin := ""
			if k%2 == 0 {
				args = append(args, fn)
			} else {
				stdin = src
			}
			e := c.addchainCmd(stdin, args...)
			c.Eval(1)
			if e.Crashed() || e.Timeout {
				c.Fail("gen of %q crashed: %v", src, e)
				break
			}
			if e.Code != 0 {
				c.Count("refused-by-command", 1)
				continue
			}
			if m.Err != "" {
				c.Fail("gen of %q succeeds, but the script does not evaluate (%s): %v", src, m.Err, e)
				break
			}
			text := e.Out
			if toFile {
				b, err := os.ReadFile(out)
				if err != nil || e.Out != "" {
					c.Fail("gen -out of %q: %v, printed %q", src, err, e.Out)
					break
				}
				text = string(b)
			}
			if bad := c06output(typ, text, "x", "z", m); bad != "" {
				c.Fail("gen -type %s of %q %s\n%s", typ, src, bad, text)
				break
			}
			c.Count("commands-accepted", 1)
		}
	}
}
