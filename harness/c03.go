//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
)

// c03toks is the token alphabet; the first c03small of them are used for the
// longer sequences.
var c03toks = []string{
	"1", "a", "+", "<<", "(", ")", "2*", "3", "[1]", "\n", "=", " ", "dbl", "add",
	"return", "shl", "2", "*", "[", "]", "b", "0", "0x2", "02", "\t", "08", "\r",
}

// Sizes of the alphabets (prefixes of c03toks) for the longer sequences.
const (
	c03small = 10
	c03mid   = 20
	c03large = 14
)

// c03ctx are texts put before and after the token sequences.
var c03ctx = [][2]string{{"", ""}, {"a=1+1\n", ""}, {"b = 1 << 2\n", "\n"}, {"a=2*1\nb=a", "\na+b"}, {"1+", "+1"}, {"(", ")<<1"}}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "Each evaluation gives one text to the parser and loader and compares with an independent interpreter of the published grammar (one function per rule, PEG semantics) and an evaluator of the semantics: accept/reject, the whole syntax tree, chain values and operations, or rejection for undefined names, redefinitions and elements not yet computed. " +
			"Exhaustive: every sequence of up to 3 tokens from an alphabet of 27 (20 in four of six surrounding contexts), of 4 from 14, of 5 from 10; thorough: 4 from 27 in every context, 5 from 20, 6 from 14. Generated: well-formed scripts in every operator spelling, literal base, whitespace and parenthesisation variant, long and deep scripts, invalid variants, character mutations; through String, Reader, File, LoadString, LoadReader, LoadFile and the eval command. " +
			"Non-trivial: distinct texts that are inside the grammar.",
		Assumptions: []string{
			"a shift by zero and naming an element that does not exist yet without using it may be refused",
			"a literal that does not fit in 64 bits, an index that does not fit in an int, and decimal digits after a leading zero are rejections",
			"parentheses nested more than 1000 deep may be refused",
		},
		Gen: func(g *Gen) {
			g.Blocks("random", g.N(240, 3000), g.N(80, 400), 8, 5)
			g.Blocks("random", g.N(64, 800), g.N(6, 60), 60, 20)
			g.Blocks("mutate", g.N(240, 3000), g.N(160, 600), 4, 4)
			g.Blocks("bad", g.N(120, 1500), g.N(150, 400), 4, 4)
			g.Blocks("big", g.N(24, 200), g.N(4, 10))
			g.Blocks("file", g.N(24, 200), g.N(8, 30))
			for _, n := range []int{4095, 4096, 8191, 16383, 16384, 16400, 32767, 32768} {
				g.Emit("text", fmt.Sprintf("a = 1 + 1\nb = a << %d\nb + [1]", n))
			}
			g.Emit("text", "2*(1 shl 0x5000)+1")
			g.Emit("text", "1 << 65537")
			g.Blocks("names", g.N(16, 160), g.N(40, 120))
			g.Blocks("padded", g.N(16, 80), g.N(4, 12))
			g.Emit("deep")
			g.Emit("literals")
			for ctx := range c03ctx {
				for k := 0; k <= 3; k++ {
					m := c03mid
					if ctx < 2 || k < 3 {
						m = len(c03toks)
					}
					c03emit(g, "toks", k, m, ctx)
				}
			}
			c03emit(g, "toks", 4, c03large, 0)
			c03emit(g, "toks", 5, c03small, 0)
			c03emit(g, "toks", 4, c03small, 1)
			c03emit(g, "toks", 4, c03small, 3)
			if g.Thorough() {
				c03emit(g, "toks", 5, c03mid, 0)
				c03emit(g, "toks", 6, c03large, 0)
				for ctx := range c03ctx {
					c03emit(g, "toks", 4, len(c03toks), ctx)
					c03emit(g, "toks", 5, c03large, ctx)
				}
			}
		},
		Run: map[string]func(*Ctx, []string){
			"text": func(c *Ctx, a []string) { c03text(c, a[0], "text") },
			"toks": func(c *Ctx, a []string) {
				c03sequences(c, a, func(s string) { c03text(c, s, "tokens") })
			},
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					c03text(c, writeScript(r, g.script(r.Intn(atoi(a[2])+1), atoi(a[3]))), "random")
				}
			},
			"bad": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					g.bad = 4 + r.Intn(16)
					c03text(c, writeScript(r, g.script(r.Intn(atoi(a[2])+1), atoi(a[3]))), "bad")
				}
			},
			"mutate": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					g := newGenScript(r)
					c03shape(g)
					s := writeScript(r, g.script(r.Intn(atoi(a[2])+1), atoi(a[3])))
					c03text(c, mutate(r, s, 4), "mutate")
				}
			},
			"big": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					c03text(c, bigScript(r), "big")
				}
			},
			"file":     c03file,
			"names":    c03names,
			"padded":   c03padded,
			"deep":     c03deep,
			"literals": c03literals,
		},
		Floor: map[string]int64{"accepted": 10000, "rejected": 10000, "loaded": 5000, "refused-undefined": 100, "refused-redefinition": 100, "refused-index": 100, "token-sequences": 100000, "files": 50},
	})
}

func c03emit(g *Gen, kind string, k, m, ctx int) {
	split := 0
	for n := m; k-split > 3 || n < 8 && split < k && k > 3; n *= m {
		split++
	}
	idx := make([]int, split)
	for {
		var f []string
		for _, i := range idx {
			f = append(f, fmt.Sprint(i))
		}
		g.Emit(kind, k, m, ctx, strings.Join(f, " "))
		p := 0
		for p < split {
			idx[p]++
			if idx[p] < m {
				break
			}
			idx[p] = 0
			p++
		}
		if p == split {
			return
		}
	}
}

// c03sequences calls f with the token sequences of a case.
func c03sequences(c *Ctx, a []string, f func(s string)) {
	k, m, ctx := atoi(a[0]), atoi(a[1]), c03ctx[atoi(a[2])]
	pre := []string{}
	for _, f := range strings.Fields(a[3]) {
		pre = append(pre, c03toks[atoi(f)])
	}
	idx := make([]int, k-len(pre))
	for !c.Stop() {
		var b strings.Builder
		b.WriteString(ctx[0])
		for _, t := range pre {
			b.WriteString(t)
		}
		for _, i := range idx {
			b.WriteString(c03toks[i])
		}
		b.WriteString(ctx[1])
		f(b.String())
		c.Count("token-sequences", 1)
		p := 0
		for p < len(idx) {
			idx[p]++
			if idx[p] < m {
				break
			}
			idx[p] = 0
			p++
		}
		if p == len(idx) {
			return
		}
	}
}

// c03shape varies the generator.
func c03shape(g *genScript) {
	g.index = []int{0, 2, 4, 8}[g.r.Intn(4)]
	g.zero = g.r.Intn(10) == 0
	g.maxShift = []int{2, 6, 20, 200}[g.r.Intn(4)]
}

// bigScript is a long script: many statements, a long sum, deep nesting, large
// shifts.
func bigScript(r *rand.Rand) string {
	g := newGenScript(r)
	switch r.Intn(4) {
	case 0: // many statements
		g.maxShift = 3
		return writeScript(r, g.script(100+r.Intn(400), 3))
	case 1: // a long sum
		n := 100 + r.Intn(500)
		var e ast.Expr = ast.Operand(0)
		for k := 1; k <= n; k++ {
			y := ast.Expr(ast.Operand(r.Intn(k)))
			if r.Intn(4) == 0 {
				e = ast.Add{X: y, Y: e}
				continue
			}
			e = ast.Add{X: e, Y: y}
		}
		return writeScript(r, &ast.Chain{Statements: []ast.Statement{{Expr: e}}})
	case 2: // nested
		g.maxShift = 2
		return writeScript(r, g.script(2, 120))
	default: // large shifts
		g.maxShift = 600
		return writeScript(r, g.script(3, 3))
	}
}

// c03load judges what a loader returned for a text.
func c03load(c *Ctx, src, how string, ref *refResult, p *ir.Program, err error) {
	if ref == nil {
		if err == nil {
			c.Fail("%s(%q) succeeded, but the text is outside the grammar", how, src)
		}
		return
	}
	if ref.Err != "" {
		if err == nil {
			c.Fail("%s(%q) succeeded with %v, but must be rejected: %s", how, src, joinBig(p.Chain), ref.Err)
		}
		switch {
		case strings.HasPrefix(ref.Err, "undefined"):
			c.Count("refused-undefined", 1)
		case strings.HasPrefix(ref.Err, "redefinition"):
			c.Count("refused-redefinition", 1)
		default:
			c.Count("refused-index", 1)
		}
		return
	}
	if err != nil {
		if !ref.Lenient {
			c.Fail("%s(%q) failed: %v; the chain is %s", how, src, err, joinBig(ref.Chain))
		}
		return
	}
	c.Count("loaded", 1)
	if c.evals%8 < 3 && len(p.Chain) <= 100 {
		c.Keep(func() string { return fmt.Sprintf("%s(%q)", how, src) }, func() string { return joinBig(p.Chain) + " " + opsString(p.Program) + " " + irString(p) })
	}
	if !equalBigs(p.Chain, ref.Chain) {
		c.Fail("%s(%q) gives chain %s, want %s", how, src, joinBig(p.Chain), joinBig(ref.Chain))
	}
	if !sameOps(p.Program, ref.Ops) {
		c.Fail("%s(%q) gives operations %s, want %s", how, src, opsString(p.Program), opsString(ref.Ops))
	}
	// The loaded instructions stand for the same operations.
	if !ref.Lenient && !ref.Mid {
		ops, bad := irExpand(p)
		if bad != "" {
			c.Fail("%s(%q): %s", how, src, bad)
		} else if !sameOps(ops, ref.Ops) {
			c.Fail("%s(%q) gives instructions for %s, want %s", how, src, opsString(ops), opsString(ref.Ops))
		}
	}
	c.Max("max_chain", len(ref.Chain))
}

const c03shift = 3000

func c03text(c *Ctx, src, kind string) {
	c.At(func() Case { return Case{"text", []string{src}} })
	c.Eval(1)
	want, ok := refParse(src)
	got, err := parse.String(src)
	if !ok {
		c.Count("rejected", 1)
		if err == nil {
			c.Fail("parse.String(%q) = %s, but the text is outside the grammar", src, treeString(got))
			return
		}
		if got != nil {
			c.Fail("parse.String(%q) returns both a tree and an error %v", src, err)
		}
		if c.evals%16 == 0 {
			p, err := acc.LoadString(src)
			c03load(c, src, "acc.LoadString", nil, p, err)
		}
		return
	}
	c.Nontrivial(src)
	c.Count("accepted", 1)
	c.Max("max_text", len(src))
	if err != nil {
		if parenDepth(src) > 1000 {
			c.Count("too-deep", 1)
			return
		}
		c.Fail("parse.String(%q) failed: %v; the grammar assigns %s", src, err, treeString(want))
		return
	}
	if !sameTree(got, want) {
		c.Fail("parse.String(%q) = %s, the grammar assigns %s", src, treeString(got), treeString(want))
		return
	}
	if c.evals%8 == 2 && len(src) < 2000 {
		c.Keep(func() string { return fmt.Sprintf("parse.String(%q)", src) }, func() string { return treeString(got) })
	}
	limit := uint64(c03shift)
	if kind == "text" { // chosen, not generated
		limit = 70000
	}
	if chainShift(want) > limit {
		c.Count("not-evaluated", 1)
		return
	}
	ref := refEval(want)
	if c.evals%4 == 0 {
		p, err := acc.LoadString(src)
		c03load(c, src, "acc.LoadString", ref, p, err)
	} else { // the same without parsing again
		p, err := acc.Translate(got)
		if err == nil {
			err = pass.Eval(p)
		}
		c03load(c, src, "acc.Translate and pass.Eval", ref, p, err)
		if c.evals%4 == 1 { // the tree is still the same and means the same
			if !sameTree(got, want) {
				c.Fail("acc.Translate changed the tree of %q to %s", src, treeString(got))
			}
			q, err := acc.Translate(got)
			if err == nil {
				err = pass.Eval(q)
			}
			c03load(c, src, "a second acc.Translate and pass.Eval", ref, q, err)
			c.Count("second-translations", 1)
		}
	}
	if kind != "tokens" {
		c.Sample(kind, func() string { return src })
	}
}

// c03file goes through readers, files and the eval command.
func c03file(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	dir, err := os.MkdirTemp(c.run.tmp, "c03")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "s.acc")
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		g := newGenScript(r)
		c03shape(g)
		if r.Intn(3) == 0 {
			g.bad = 6
		}
		src := writeScript(r, g.script(r.Intn(10), 5))
		if r.Intn(3) == 0 {
			src = mutate(r, src, 3)
		}
		if strings.IndexByte(src, 0) >= 0 {
			continue
		}
		c03text(c, src, "file")
		must(os.WriteFile(fn, []byte(src), 0o644))
		c.Count("files", 1)
		c.Eval(1)
		want, ok := refParse(src)
		var ref *refResult
		if ok {
			if chainShift(want) > c03shift {
				continue
			}
			ref = refEval(want)
		}
		if i == 0 {
			t, err1 := parse.File(fn + ".nosuch")
			p, err2 := acc.LoadFile(fn + ".nosuch")
			if err1 == nil || err2 == nil {
				c.Fail("loading a file that does not exist = %v, %v and %v, %v", t, err1, p, err2)
			}
		}
		t, err := parse.File(fn)
		if (err == nil) != ok || ok && !sameTree(t, want) {
			c.Fail("parse.File of %q = %s, %v; the grammar assigns %s", src, treeString(t), err, treeString(want))
		}
		t, err = parse.Reader("x", &slowReader{s: src, r: r})
		if (err == nil) != ok || ok && !sameTree(t, want) {
			c.Fail("parse.Reader of %q = %s, %v; the grammar assigns %s", src, treeString(t), err, treeString(want))
		}
		p, err := acc.LoadFile(fn)
		c03load(c, src, "acc.LoadFile", ref, p, err)
		p, err = acc.LoadReader("x", &slowReader{s: src, r: r})
		c03load(c, src, "acc.LoadReader", ref, p, err)
		var e CLI
		if i%2 == 0 {
			e = c.addchainCmd("", "eval", fn)
		} else {
			e = c.addchainCmd(src, "eval")
		}
		switch {
		case e.Crashed() || e.Timeout:
			c.Fail("eval of %q crashed: %v", src, e)
		case ref == nil || ref.Err != "":
			if e.Code == 0 {
				c.Fail("eval of %q succeeded, want an error: %v", src, e)
			}
		case e.Code != 0:
			if !ref.Lenient {
				c.Fail("eval of %q failed: %v", src, e)
			}
		default:
			if want := evalOutput(ref.Ops, ref.Chain); normOps(e.Out) != normOps(want) {
				c.Fail("eval of %q printed\n%s\nwant\n%s", src, e.Out, want)
			}
		}
	}
}

// c03names uses families of names that have a long part in common.
func c03names(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := []int{1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 5000}[r.Intn(17)]
		base := []byte{idletters[r.Intn(len(idletters))]}
		for len(base) < n {
			base = append(base, (idletters + "0123456789")[r.Intn(len(idletters)+10)])
		}
		// Relatives of the base: one character changed, case changed, extended,
		// cut short, characters exchanged.
		relative := func() string {
			b := append([]byte{}, base...)
			k := r.Intn(len(b))
			switch r.Intn(7) {
			case 0:
				b[k] = idletters[r.Intn(len(idletters))]
			case 1:
				if b[k] >= 'A' && b[k] != '_' && (b[k] < '0' || b[k] > '9') {
					b[k] ^= 0x20
				}
			case 2:
				b = append(b, "0a_1Z"[r.Intn(5)])
			case 3:
				b = b[:1+r.Intn(len(b))]
			case 4:
				j := r.Intn(len(b))
				if k > 0 && j > 0 {
					b[k], b[j] = b[j], b[k]
				}
			case 5:
				b = append(b, b...)
			}
			return string(b)
		}
		var src strings.Builder
		var defined []string
		last := "1"
		for k, m := 0, 1+r.Intn(12); k < m; k++ {
			name := relative()
			used := last
			if len(defined) > 0 && r.Intn(2) == 0 {
				used = defined[r.Intn(len(defined))]
			}
			if r.Intn(25) == 0 {
				used = relative()
			}
			fresh := true
			for _, d := range defined {
				fresh = fresh && d != name
			}
			if !fresh && r.Intn(8) != 0 {
				continue
			}
			defined = append(defined, name)
			fmt.Fprintf(&src, "%s = %s + %s\n", name, used, last)
			last = name
		}
		used := last
		if r.Intn(4) == 0 {
			used = relative()
		} else if len(defined) > 0 {
			used = defined[r.Intn(len(defined))]
		}
		fmt.Fprintf(&src, "%s + %s", last, used)
		c03text(c, src.String(), "names")
		c.Count("name-families", 1)
	}
}

// failingReader fails after the text.
type failingReader struct {
	slowReader
}

var errReader = errors.New("reader failed")

func (f *failingReader) Read(b []byte) (int, error) {
	n, err := f.slowReader.Read(b)
	if err == io.EOF {
		err = errReader
	}
	return n, err
}

// c03padded reads texts past the usual buffer sizes, and readers that fail.
func c03padded(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	fn := filepath.Join(c.run.tmp, fmt.Sprintf("padded%d.acc", c.id))
	defer os.Remove(fn)
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		g := newGenScript(r)
		c03shape(g)
		g.maxShift = 6
		src := writeScript(r, g.script(2+r.Intn(10), 4))
		if err := c03readerr(r, src); err == nil {
			c.At(func() Case { return Case{"padded", a} })
			c.Fail("loading %q from a reader that fails at the end succeeded", src)
		}
		c.Count("failing-readers", 1)
		// Blanks may stand around every plus and at the ends of lines.
		pad := func() string {
			n := []int{1, 100, 511, 512, 4000, 4095, 4096, 8192, 32767, 65535, 65536, 66000, 131072}[r.Intn(13)]
			return strings.Repeat([]string{" ", "\t", "\r", " \t"}[r.Intn(4)], n+r.Intn(3))
		}
		for k := r.Intn(3); k >= 0; k-- {
			k := r.Intn(len(src))
			if j := strings.IndexAny(src[k:], "+\n"); j >= 0 {
				src = src[:k+j] + pad() + src[k+j:]
			} else {
				src += pad()
			}
		}
		c03text(c, src, "padded")
		c.At(func() Case { return Case{"padded", a} })
		must(os.WriteFile(fn, []byte(src), 0o644))
		want, ok := refParse(src)
		var ref *refResult
		if ok {
			ref = refEval(want)
		}
		p, err := acc.LoadFile(fn)
		c03load(c, src, "acc.LoadFile", ref, p, err)
		p, err = acc.LoadReader("x", bytes.NewReader([]byte(src)))
		c03load(c, src, "acc.LoadReader", ref, p, err)
		e := c.addchainCmd(src, "eval")
		if wanted := ref != nil && ref.Err == ""; e.Crashed() || e.Timeout || (e.Code == 0) != wanted && (ref == nil || !ref.Lenient) {
			c.Fail("eval of %q: %v", clip(src, 2000), e)
		} else if wanted && e.Code == 0 {
			if want := evalOutput(ref.Ops, ref.Chain); normOps(e.Out) != normOps(want) {
				c.Fail("eval of %q printed\n%s\nwant\n%s", clip(src, 2000), e.Out, want)
			}
		}
		if ref != nil && ref.Err == "" {
			c.Count("padded-accepted", 1)
		}
		c.Count("padded", 1)
		c.Max("max_padded_text", len(src))
	}
}

func c03readerr(r *rand.Rand, src string) error {
	if _, err := acc.LoadReader("x", &failingReader{slowReader{s: src, r: r}}); err != nil {
		return err
	}
	return nil
}

// normOps brings the operand pairs of eval output into a fixed order.
func normOps(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		var n, x, y int
		var v string
		if k, _ := fmt.Sscanf(l, "[%d] %d+%d %s", &n, &x, &y, &v); k == 4 {
			if x > y {
				x, y = y, x
			}
			ls[i] = fmt.Sprintf("[%d] %d+%d %s", n, x, y, v)
		}
	}
	return strings.Join(ls, "\n")
}

// slowReader returns a text in small pieces.
type slowReader struct {
	s string
	r *rand.Rand
}

func (s *slowReader) Read(b []byte) (int, error) {
	if s.s == "" {
		return 0, io.EOF
	}
	n := min(1+s.r.Intn(9), len(b), len(s.s))
	copy(b, s.s[:n])
	s.s = s.s[n:]
	return n, nil
}

// c03deep runs through nested constructs of growing depth.
func c03deep(c *Ctx, a []string) {
	for _, d := range []int{1, 2, 3, 5, 10, 20, 50, 100, 200, 400} {
		rep := func(open, mid, close string) string {
			return strings.Repeat(open, d) + mid + strings.Repeat(close, d)
		}
		for _, s := range []string{
			rep("(", "1", ")"), rep("2*(", "1", ")"), rep("dbl (", "1 + 1", ")"), rep("(", "1", ") << 1"), rep("(", "1", " + 1)"),
			rep("(1 + ", "1", ")"), rep("1 + (", "1", ")"), rep("(", "1", ") shl 02"), rep("", "1", " + 1"), rep("", "1", " << 1"), rep("2*", "1", ""),
			rep("(", "1", ""), rep("", "1", ")"), rep("( ", "[0]", " )") + "\n", rep("(2*", "1", ")") + "<<1", rep("((1+", "1", ")<<1)"), rep("((", "1", ")+(1<<2))"),
			rep("(", "x=1", ")"), rep("dbl", "1", ""), rep("dbl ", "x", ""), rep("[", "1", "]"), rep("(", "", ")"), rep("(", "1", "+)"),
		} {
			c03text(c, s, "deep")
			c03text(c, "a = "+s+"\nreturn a + 1\n", "deep")
		}
	}
	for _, d := range []int{1000, 3000} { // must not be misread
		c03text(c, strings.Repeat("(", d)+"1+1"+strings.Repeat(")", d), "deep")
		c03text(c, strings.Repeat("(", d)+"1+1"+strings.Repeat(")", d-1), "deep")
	}
	c03text(c, "1"+strings.Repeat("+1", 3000), "deep")
	// Many statements, each using the one before.
	var b strings.Builder
	b.WriteString("v0 = 1\n")
	for i := 1; i < 1500; i++ {
		fmt.Fprintf(&b, "v%d = v%d + 1\n", i, i-1)
	}
	c03text(c, b.String()+"v1499 + v700\n", "deep")
	c03text(c, b.String()+"v1499 + [1000]\n", "deep")
	c03text(c, b.String()+"v1499 + v1500\n", "deep")
	c03text(c, b.String()+"[1499] + [1500]\n", "deep")
}

// c03literals goes through number literals.
func c03literals(c *Ctx, a []string) {
	var lits []string
	for i := 0; i <= 130; i++ {
		lits = append(lits, fmt.Sprint(i), fmt.Sprintf("%#o", i), fmt.Sprintf("00%o", i), fmt.Sprintf("0x%x", i), fmt.Sprintf("0x%X", i), fmt.Sprintf("0X%x", i), fmt.Sprintf("0x0%x", i), fmt.Sprintf("0%d", i), fmt.Sprintf("0b%b", i), fmt.Sprintf("0o%o", i))
	}
	for _, s := range []string{"", "0", "00", "000", "07", "08", "09", "018", "0x", "0xg", "0x1g", "1_0", "0x_1", "1e3", "-1", "+1", " 1", "1 ", "1.0", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "0x7fffffffffffffff", "0x8000000000000000", "01777777777777777777777", "02000000000000000000000", "0777777777777777777777", "0000000000000000000000000000001", "4294967296", "4294967297", "2147483648", "99999999999999999999999999999", "1a", "0xabcdef", "0xABCDEF", "０", "1\x00"} {
		lits = append(lits, s)
	}
	var b strings.Builder // 3 elements and more
	b.WriteString("a = 1 << 140\n")
	for _, l := range lits {
		for _, f := range []string{"1 << %s", "1 shl %s", "1<<%s\n", "1 << %s + 1", "(1 << %s)", "return 1 <<%s"} {
			c03text(c, fmt.Sprintf(f, l), "literals")
		}
		for _, f := range []string{"[%s]", "[%s] + 1", "[ %s ] << 1", "2*[%s]", "1 + [%s]"} {
			c03text(c, b.String()+fmt.Sprintf(f, l), "literals")
		}
	}
}
