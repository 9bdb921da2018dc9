//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"github.com/mmcloughlin/addchain/acc"
	"github.com/mmcloughlin/addchain/acc/ir"
	"github.com/mmcloughlin/addchain/acc/parse"
	"github.com/mmcloughlin/addchain/acc/pass"
	"github.com/mmcloughlin/addchain/acc/printer"
	"github.com/mmcloughlin/addchain/internal/calc"
	"github.com/mmcloughlin/addchain/internal/gen"
)

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "Each evaluation runs one command line (arguments, standard input or file) of the built binary, or one text through every library entry point, and watches how it ends: no runtime panic, fatal error, deadlock, death by signal or hang; commands exit with 0, 1 or 2, with something on standard error (or output) when not 0. " +
			"Commands: search with every small, zero, negative and dividing-by-zero expression, malformed expressions, -p and cost values over their whole range (including none, 0, negative, extreme, not numbers), eval/fmt/fmt -b/gen with hostile scripts, missing and odd files, odd flags. Library: every token sequence up to 3 in six contexts (4 from the smaller alphabet), generated, mutated and random texts, nested and long texts, programs with no operations, names and indexes of all kinds; through parse, print, translate, eval, build, write, validate, allocate, generate; expression texts through the calculator. " +
			"Non-trivial: distinct command lines and distinct texts that parse.",
		Assumptions: []string{
			"total shift amounts up to 3000, texts up to 40 kB, targets up to about 600 bits, exponents up to the calculator's own limit",
			"a command is taken to hang if it is still running after 80 s twice in a row, a library call after the watchdog's limit",
		},
		Gen: func(g *Gen) {
			g.Blocks("search", g.N(48, 600), g.N(10, 20))
			g.Emit("targets")
			for i := 0; i < 8; i++ {
				g.Emit("settings", i, 8)
				g.Emit("badexprs", i, 8)
				g.Emit("special", i, 8)
			}
			g.Emit("odd")
			g.Blocks("scripts", g.N(64, 800), g.N(8, 20))
			g.Blocks("texts", g.N(160, 2400), g.N(60, 300), 0)
			g.Blocks("texts", g.N(160, 2400), g.N(120, 400), 1)
			g.Blocks("texts", g.N(96, 2400), g.N(200, 1000), 2)
			g.Blocks("texts", g.N(32, 400), g.N(4, 20), 3)
			g.Blocks("exprs", g.N(96, 1200), g.N(2000, 6000))
			g.Emit("deep")
			for ctx := range c03ctx {
				for k := 0; k <= 3; k++ {
					m := c03mid
					if ctx < 2 || k < 3 || g.Thorough() {
						m = len(c03toks)
					}
					c03emit(g, "toks", k, m, ctx)
				}
			}
			c03emit(g, "toks", 4, c03small, 0)
			c03emit(g, "toks", 4, c03small, 1)
			if g.Thorough() {
				c03emit(g, "toks", 4, len(c03toks), 0)
				c03emit(g, "toks", 5, c03large, 0)
				c03emit(g, "toks", 4, c03large, 2)
			}
		},
		Run: map[string]func(*Ctx, []string){
			"text": func(c *Ctx, a []string) { c15text(c, a[0], "text") },
			"expr": func(c *Ctx, a []string) { c15expr(c, a[0]) },
			"cmd": func(c *Ctx, a []string) {
				var args []string
				must(json.Unmarshal([]byte(a[1]), &args))
				c15cmd(c, a[0], args...)
			},
			"toks": func(c *Ctx, a []string) {
				c03sequences(c, a, func(s string) { c15text(c, s, "tokens") })
			},
			"texts":    c15texts,
			"exprs":    c15exprs,
			"search":   c15search,
			"targets":  c15targets,
			"settings": c15settings,
			"badexprs": c15badexprs,
			"odd":      c15odd,
			"scripts":  c15scripts,
			"special":  c15special,
			"deep":     c15deep,
		},
		Floor: map[string]int64{"commands": 1500, "exit-0": 300, "exit-1": 300, "exit-2": 10, "texts": 50000, "expressions": 50000, "built": 5000, "generated": 1000, "build-refused": 10},
	})
}

// --- commands ------------------------------------------------------------------

// c15cmd runs one command line and judges how it ends. An argument starting with
// "file:" stands for a file with that content.
func c15cmd(c *Ctx, stdin string, args ...string) CLI {
	c.At(func() Case {
		b, _ := json.Marshal(args)
		return Case{"cmd", []string{stdin, string(b)}}
	})
	c.Eval(1)
	dir, err := os.MkdirTemp(c.run.tmp, "c15")
	must(err)
	defer os.RemoveAll(dir)
	real := make([]string, len(args))
	for i, a := range args {
		real[i] = a
		if strings.HasPrefix(a, "file:") {
			real[i] = filepath.Join(dir, fmt.Sprintf("f%d", i))
			must(os.WriteFile(real[i], []byte(a[5:]), 0o644))
		}
		real[i] = strings.ReplaceAll(real[i], "SCRATCH", dir)
		if strings.IndexByte(real[i], 0) >= 0 {
			return CLI{}
		}
	}
	e := c.addchainCmd(stdin, real...)
	c.Nontrivial(append([]string{"cmd", stdin}, args...)...)
	switch {
	case e.Crashed():
		c.Fail("command %q crashed: %v", args, e)
	case e.Timeout:
		c.Fail("command %q did not end: %v", args, e)
		// One hang decides; others would take minutes.
		atomic.StoreInt32(&c.run.stop, 1)
	case e.Code != 0 && e.Code != 1 && e.Code != 2:
		c.Fail("command %q ended with status %d: %v", args, e.Code, e)
	case e.Code != 0 && e.Err == "" && e.Out == "":
		c.Fail("command %q ended with status %d without any message", args, e.Code)
	}
	c.Count(fmt.Sprintf("exit-%d", e.Code), 1)
	return e
}

func c15targets(c *Ctx, a []string) {
	for n := -6; n <= 6 && !c.Stop(); n++ {
		for _, p := range []string{"", "-1", "0", "1", "2", "5"} {
			args := []string{"search"}
			if p != "" {
				args = append(args, "-p", p)
			}
			e := c15cmd(c, "", append(args, "--", fmt.Sprint(n))...)
			if e.Code == 0 {
				for _, cmd := range [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}, {"gen", "-type", "chain"}, {"gen", "-type", "ops"}, {"gen", "-type", "script"}} {
					c15cmd(c, e.Out, cmd...)
				}
			}
		}
	}
}

var c15ps = []string{"0", "-1", "-2", "1", "2", "3", "7", "64", "1000", "1000000", "2147483647", "2147483648", "4294967296", "1099511627776", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999", "0x10", "010", "1e3", "", "x", "1.5", " 1"}
var c15costs = []string{"0", "-0", "1", "-1", "0.5", "-1e300", "1e300", "1e308", "1.8e308", "1e309", "1e-320", "1e-400", "NaN", "nan", "Inf", "+Inf", "-Inf", "inf", "infinity", "0x1p10", "", "x", "1,5", "1e", "--", "1_0"}

func c15settings(c *Ctx, a []string) {
	part, parts := atoi(a[0]), atoi(a[1])
	for _, n := range []string{"1", "2", "23", "0", "2^64-59"} {
		for i, p := range c15ps {
			if i%parts != part {
				continue
			}
			c15cmd(c, "", "search", "-p", p, n)
			c15cmd(c, "", "search", "-p="+p, "-v", n)
			if c.Stop() {
				return
			}
		}
	}
	for _, n := range []string{"1", "3", "47", "0"} {
		for i, w := range c15costs {
			if i%parts != part {
				continue
			}
			c15cmd(c, "", "search", "-add", w, n)
			c15cmd(c, "", "search", "-double", w, n)
			c15cmd(c, "", "search", "-v", "-add="+w, "-double="+w, n)
			if c.Stop() {
				return
			}
		}
	}
	for i, x := range c15costs[:12] {
		if i%parts != part {
			continue
		}
		for _, y := range c15costs[:18] {
			c15cmd(c, "", "search", "-add", x, "-double", y, "13")
		}
	}
}

var c15bad = []string{
	"", " ", "0", "-0", "00", "-1", "1-1", "1-2", "0*5", "5*0", "0^0", "0^1", "1^0", "0-0", "1/1", "1/2", "2/3", "0/1", "0/0", "1/0", "5/(1-1)", "1/(0)", "2^3/0", "7/0^1", "1/0/0", "0x0", "0b0", "0o0", "-0x1", "1--1", "1++1", "+1", "--1", "-", "+", "*", "/", "^", "1+", "1*", "1/", "1^", "+1+", "1 1", "1_000", "0x", "0b", "0xg", "0b2", "08", "1.5", "1e5", "a", "x+1", "()", "(1)", "((1", "1)", "2^-1", "2^-0", "1^-1", "(-1)^2", "-1^2", "-2^63", "0^-1", "0^-2", "2^2^2", "2^2^2^2", "2^3^4", "3^4^3", "1^99999999999999999999", "0^99999999999999999999", "(-1)^99999999999999999999", "2^99999999999999999999", "2^2^99", "10^10^10^10", "2^9223372036854775807", "2^9223372036854775808", "-2^9223372036854775807", "2^18446744073709551616", "2^-9223372036854775808", "3^1000000000", "1/3^100000000000", "7-2^100000000", "2^67108865", "2^67108864-2^67108864", "(2^100-2^100)/5", "2^64/2^65", "2^64/-2^3", "-5/2", "-7/-2", "1+1)", "1\x01", "1\n", "\n1", "1\t", "１", "2^255-19é", "\xff", "0x ff", "1 +", "% 5", "5 % 2", "1,2", "1;2", "$1", "`", "'1'", "\"1\"", "2**3", "2//3", "1<<3", "1>>3", "1|2", "1&2", "~1", "!1", "1=1", "0X1F", "0B11", "0O17", "0x1p3", "1i", "Inf", "NaN", "nil", "-p", "--help", "-h", "--", "-1-1", "- 1",
}

func c15badexprs(c *Ctx, a []string) {
	for i, s := range c15bad {
		if i%atoi(a[1]) != atoi(a[0]) {
			continue
		}
		if c.Stop() {
			return
		}
		c15cmd(c, "", "search", "--", s)
		if i%3 == 0 {
			c15cmd(c, "", "search", s)
			c15cmd(c, "", "search", "-p", c15ps[i%len(c15ps)], "-v", s)
		}
		c15expr(c, s)
	}
}

func c15search(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); {
		e := randExpr(r, r.Intn(5), 1+r.Intn(40))
		switch r.Intn(5) {
		case 0:
			e = strings.TrimSpace(mutateExpr(r, e))
		case 1:
			e = fmt.Sprintf("%s - %s", e, e)
		case 2:
			e = fmt.Sprint(r.Intn(2000) - 500)
		}
		if n, err := calcRef(e); err == nil && n.BitLen() > 130 || !c15cheap(e) || strings.IndexByte(e, 0) >= 0 {
			continue
		}
		i++
		args := []string{"search"}
		if r.Intn(2) == 0 {
			args = append(args, "-p", c15ps[r.Intn(len(c15ps))])
		}
		if r.Intn(4) == 0 {
			args = append(args, "-add", c15costs[r.Intn(len(c15costs))])
		}
		if r.Intn(4) == 0 {
			args = append(args, "-double", c15costs[r.Intn(len(c15costs))])
		}
		if r.Intn(3) == 0 {
			args = append(args, "-v")
		}
		if r.Intn(8) != 0 {
			args = append(args, "--")
		}
		res := c15cmd(c, "", append(args, e)...)
		if res.Code == 0 && r.Intn(3) == 0 {
			cmd := [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}}[r.Intn(4)]
			c15cmd(c, res.Out, cmd...)
		}
	}
}

// c15cheap tells whether an expression is certain not to denote a number so large
// that searching for it is simply long work.
func c15cheap(e string) bool {
	n, err := calc.Eval(e)
	return err != nil || n.BitLen() <= 140
}

func mutateExpr(r *rand.Rand, s string) string {
	const alpha = "0123456789+-*/^xXbBaf() .\t_"
	for k := 1 + r.Intn(3); k > 0 && len(s) > 0; k-- {
		i := r.Intn(len(s))
		switch r.Intn(3) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + string(alpha[r.Intn(len(alpha))]) + s[i:]
		default:
			s = s[:i] + string(alpha[r.Intn(len(alpha))]) + s[i+1:]
		}
	}
	return s
}

// c15odd is everything about command lines other than the usual.
func c15odd(c *Ctx, a []string) {
	ok := "file:a = 1 + 1\nreturn a << 3\n"
	for _, args := range [][]string{
		{}, {""}, {"-h"}, {"--help"}, {"help"}, {"help", "search"}, {"help", "nosuch"}, {"flags"}, {"flags", "search"}, {"commands"}, {"nosuch"}, {"version"}, {"cite"}, {"cite", "x"}, {"-nosuch"}, {"-p", "1", "search", "5"},
		{"search"}, {"search", "-p"}, {"search", "-add"}, {"search", "-nosuch", "5"}, {"search", "5", "6"}, {"search", "5", "-p", "0"}, {"search", "-h"}, {"search", "-v"}, {"search", "-v=maybe", "5"},
		{"eval", "SCRATCH/nosuch"}, {"eval", "SCRATCH"}, {"eval", "/dev/null"}, {"eval", ""}, {"eval", "-"}, {"eval", "-x"}, {"eval", ok, ok}, {"eval", "-h"}, {"eval", "\xff"},
		{"fmt", "SCRATCH/nosuch"}, {"fmt", "SCRATCH"}, {"fmt", "/dev/null"}, {"fmt", "-b", "/dev/null"}, {"fmt", "-b", "SCRATCH/nosuch"}, {"fmt", "-b=2", ok}, {"fmt", "-w", ok}, {"fmt", ok, "SCRATCH/nosuch"},
		{"gen", "SCRATCH/nosuch"}, {"gen", "SCRATCH"}, {"gen", "/dev/null"}, {"gen", "-type", "nosuch", ok}, {"gen", "-type", "", ok}, {"gen", "-type"}, {"gen", "-tmpl", "SCRATCH/nosuch", ok}, {"gen", "-tmpl", "SCRATCH", ok}, {"gen", "-out", "SCRATCH/no/such/dir", ok}, {"gen", "-out", "SCRATCH", ok}, {"gen", "-out", "/dev/full", ok}, {"gen", "-out", "", ok}, {"gen", "-out", "SCRATCH/out", ok},
		{"gen", "-tmpl", "file:", ok}, {"gen", "-tmpl", "file:{{", ok}, {"gen", "-tmpl", "file:{{ .Nosuch }}", ok}, {"gen", "-tmpl", "file:{{ index .Chain 99 }}", ok}, {"gen", "-tmpl", "file:{{ index .Chain -1 }}", ok}, {"gen", "-tmpl", "file:{{ template \"x\" }}", ok}, {"gen", "-tmpl", "file:{{ add nil }}", ok}, {"gen", "-tmpl", "file:{{ .Program.Output }} {{ .Program }} {{ .Script }} {{ .Meta }} {{ .Ops }} {{ .Chain }}", ok}, {"gen", "-tmpl", "file:{{ format 1 }}", ok}, {"gen", "-tmpl", "file:{{ format .Chain }}", ok}, {"gen", "-tmpl", "file:{{ define \"a\" }}{{ end }}", ok}, {"gen", "-tmpl", "file:{{ range .Program.Instructions }}{{ with add .Op }}{{ .X }}{{ end }}{{ with double .Op }}{{ .S }}{{ end }}{{ end }}", ok}, {"gen", "-tmpl", "file:{{ lines (format .Script) }} {{ inc 9223372036854775807 }} {{ split \"a\" \"\" }} {{ join nil \"\" }}", ok}, {"gen", "-tmpl", "file:{{ .Meta.CitationFile }}", ok}, {"gen", "-tmpl", "file:{{ .Program.Clone }} {{ .Chain.Program }} {{ .Chain.End }} {{ .Ops.Evaluate }} {{ .Ops.Count }}", ok},
	} {
		if c.Stop() {
			return
		}
		c15cmd(c, "", args...)
	}
	for _, t := range []string{"", "\n", "listing", "LISTING", "chain ", "../listing", "listing.tmpl", "script", "ops"} {
		c15cmd(c, "1+1", "gen", "-type", t)
	}
}

// c15hostile are scripts at the edges of the language.
var c15hostile = []string{
	"", " ", "\n", "\n\n", "\r\n", "\t", "1", "1\n", "return 1", "return 1\n", "return", "return\n", "return ", "return 1\n\n", "return 1 \n \n", "[0]", "[1]", "[0]\n", "a", "a\n", "a=1", "a = 1\n", "a = 1\na", "a=1\nreturn a\n", "a=1\na=1\na", "a=b\na", "a=a\na", "a=1\nb=a\nb", "a=1\nb=1\na+b", "a=1+1\nb=a\nb", "a = [5]\n1", "a = [5]\na", "a=[5]\nreturn a + 1", "[5]+1", "1+[5]", "2*[1]", "2*[7]", "[1] << 1", "[9] << 2", "1 << 0", "1<<0\n", "a = 1 << 0\na", "a = 1 << 0\na+1", "(1 << 0) << 0", "2*(1<<0)", "(1<<0)+(1<<0)", "1 << 1", "[0] << 0", "[3] << 0", "a = [3] << 0\nb = a\n1+1", "1+1", "2*1", "1 + 1 + 1", "[1]+[1]", "[2]+1", "(1+1)+[1]", "(1<<3)+[1]", "(1<<3)+[2]", "(1<<3)+[4]", "a = 1 << 5\nreturn [3] + a", "a = 1 << 5\nreturn 2*[4]", "a = 1 << 5\nreturn [2] << 2", "a = 1+1\nb = 1 + a\nreturn a", "a = 1+1\nreturn 1", "a = 1 + 1\nreturn [1]", "a = 1+1\nb = a\nc = b\nreturn c", "x = 1+1\nz = x+x\nreturn z", "t0 = 1+1\nt1 = t0+1\nreturn t1 + t0", "z = 1\nx = z + z\nreturn x", "x=1\nx+x", "[9223372036854775807]", "[9223372036854775807]+1", "[9223372036854775808]", "[18446744073709551615]", "[18446744073709551616]", "a = [9223372036854775807]\n1+1", "a = [9223372036854775807]\n a", "2*[9223372036854775807]", "[9223372036854775807] << 1", "((((1))))", "(((1", "1)))", "()", "(", ")", "[", "]", "[]", "+", "<<", "2*", "2", "3", "0", "1 1", "12", "1 2 * 1", "a b", "=", "= 1", "a =", "a = \n", "a = 1 b", "return return", "return = 1\nreturn", "return = 1 + 1\nreturn return", "add", "dbl", "shl", "dbl dbl", "add add add", "shl shl 3", "dbl = 1\ndbl dbl", "dblx", "dblx = 1+1\ndblx + 1", "dbl1", "1add1", "1shl3", "1shl03", "1shl0x", "1 << 0x", "1 << 08", "1 << -1", "1 << 1 << 1", "1 << (1)", "1 << a", "\x00", "1\x00", "\xff\xfe", "é", "1 + é", "\ufeff1", "1;1", "1 // comment", "# comment\n1", "a = 1 +\n1", "a\n= 1\n1", "1 = 1\n1", "[0] = 1\n1", "a = 1\r\nreturn a\r\n", "a = 1\rreturn a", "_ = 1\n_ + _", "__ = 1\n__", "A=1\na=1\nA+a", "a = (b = 1)\na", "18446744073709551617", "2*2*1", "2*(2*1)", "2 * 1", "2\t*\t1", "2\n*1", "1 +1+ 1+1", "1++1", "1+-1", "-1", "1-1", "1*2", "1/1", "1^2",
}

func c15special(c *Ctx, a []string) {
	for i, s := range c15hostile {
		if i%atoi(a[1]) != atoi(a[0]) {
			continue
		}
		if c.Stop() {
			return
		}
		c15text(c, s, "special")
		cmds := [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}, {"gen", "-type", "script"}, {"gen", "-type", "chain"}, {"gen", "-type", "ops"}}
		for k, cmd := range cmds {
			if k < 4 || (i+k)%3 == 0 {
				c15cmd(c, s, cmd...)
			}
		}
		if i%4 == 0 {
			c15cmd(c, "", "gen", "-out", "SCRATCH/out", "file:"+s)
			c15cmd(c, "", "fmt", "-b", "file:"+s)
		}
	}
}

func c15scripts(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := c15gen(r, r.Intn(3))
		if len(s) > 40000 || !c15bounded(s) {
			continue
		}
		for _, cmd := range [][]string{{"eval"}, {"fmt"}, {"fmt", "-b"}, {"gen"}, {"gen", "-type", c06types[r.Intn(4)]}} {
			if r.Intn(2) == 0 {
				c15cmd(c, s, cmd...)
			} else {
				c15cmd(c, "", append(cmd, "file:"+s)...)
			}
		}
	}
}

// c15gen makes a text: 0 well-formed scripts, 1 mutated ones and invalid ones,
// 2 noise, 3 large.
func c15gen(r *rand.Rand, mode int) string {
	g := newGenScript(r)
	c03shape(g)
	g.zero = r.Intn(2) == 0
	switch mode {
	case 0:
		if r.Intn(3) == 0 {
			g.bad = 6
		}
		return writeScript(r, g.script(r.Intn(6), r.Intn(6)))
	case 1:
		if r.Intn(2) == 0 {
			g.bad = 3
		}
		return mutate(r, writeScript(r, g.script(r.Intn(4), r.Intn(5))), 5)
	case 2:
		n := r.Intn(40)
		var b strings.Builder
		switch r.Intn(3) {
		case 0: // bytes
			for ; n > 0; n-- {
				b.WriteByte(byte(r.Intn(256)))
			}
		case 1: // characters of the language
			for ; n > 0; n-- {
				b.WriteByte(mutAlphabet[r.Intn(len(mutAlphabet))])
			}
		default: // tokens
			for ; n > 0; n-- {
				b.WriteString(c03toks[r.Intn(len(c03toks))])
				if r.Intn(3) == 0 {
					b.WriteByte(' ')
				}
			}
		}
		return b.String()
	}
	return bigScript(r)
}

// c15bounded tells whether the shift amounts of a text are bounded.
func c15bounded(s string) bool {
	t, ok := refParse(s)
	return !ok || chainShift(t) <= c03shift
}

// --- library -------------------------------------------------------------------

func c15texts(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		c15text(c, c15gen(r, atoi(a[2])), "texts"+a[2])
	}
}

// c15text runs a text through the library.
func c15text(c *Ctx, s, kind string) {
	c.At(func() Case { return Case{"text", []string{s}} })
	c.Eval(1)
	c.Count("texts", 1)
	defer func() {
		if e := recover(); e != nil {
			c.Fail("library panicked on %q: %v\n%s", s, e, debug.Stack())
		}
	}()
	t, err := parse.String(s)
	if err != nil {
		if err.Error() == "" {
			c.Fail("parse.String(%q) fails without a message", s)
		}
		return
	}
	c.Nontrivial(s)
	c.Count("parsed", 1)
	if _, err := printer.String(t); err != nil {
		c.Fail("printer.String of %q fails: %v", s, err)
	}
	if chainShift(t) > c03shift {
		return
	}
	program := func() *ir.Program {
		p, err := acc.Translate(t)
		if err != nil {
			return nil
		}
		return p
	}
	p := program()
	if p == nil {
		return
	}
	_ = p.String()
	_ = p.Clone().String()
	if err := pass.Eval(p); err == nil {
		c.Count("evaluated", 1)
		_ = p.String()
	}
	if _, err := acc.Build(p); err == nil {
		c.Count("built", 1)
	}
	if p = program(); p != nil { // without evaluation first
		var b bytes.Buffer
		if err := acc.Write(&b, p); err != nil {
			c.Count("build-refused", 1)
		}
	}
	n := int(c.evals % 8)
	if kind != "tokens" || n == 0 {
		if p = program(); p != nil {
			acc.String(p)
			pass.Exec(p, pass.Validate, pass.Func(pass.ReadCounts), pass.Func(pass.Indexes))
			pass.Exec(p, pass.NameByteValues, pass.NameXRuns)
			acc.Build(p)
		}
		if p = program(); p != nil {
			al := pass.Allocator{Input: "x", Output: "z", Format: "t%d"}
			if al.Execute(p) == nil {
				c.Count("allocated", 1)
				acc.String(p)
			}
		}
		acc.LoadString(s)
	}
	data, err := gen.PrepareData(gen.Config{Allocator: pass.Allocator{Input: "x", Output: "z", Format: "t%d"}}, t)
	if err != nil {
		return
	}
	for k, typ := range c06types {
		if kind == "tokens" && k != n%4 {
			continue
		}
		tmpl, err := gen.BuiltinTemplate(typ)
		if err != nil {
			c.Fail("builtin template %s: %v", typ, err)
			return
		}
		var b bytes.Buffer
		if err := gen.Generate(&b, tmpl, data); err == nil {
			c.Count("generated", 1)
		}
	}
}

func c15expr(c *Ctx, s string) {
	c.At(func() Case { return Case{"expr", []string{s}} })
	c.Eval(1)
	c.Count("expressions", 1)
	defer func() {
		if e := recover(); e != nil {
			c.Fail("calc.Eval panicked on %q: %v\n%s", s, e, debug.Stack())
		}
	}()
	n, err := calc.Eval(s)
	if err == nil && n == nil {
		c.Fail("calc.Eval(%q) returns neither a value nor an error", s)
	}
	if err == nil {
		c.Nontrivial("expr", s)
	}
}

func c15exprs(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	const alpha = "0011223+-*/^ x"
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		switch r.Intn(4) {
		case 0:
			c15expr(c, mutateExpr(r, randExpr(r, r.Intn(5), 1+r.Intn(20))))
		case 1:
			b := make([]byte, r.Intn(12))
			for k := range b {
				b[k] = byte(r.Intn(256))
			}
			c15expr(c, string(b))
		default:
			b := make([]byte, r.Intn(9))
			pow := 0
			for k := range b {
				b[k] = alpha[r.Intn(len(alpha))]
				if b[k] == '^' {
					if pow++; pow > 1 {
						b[k] = '/'
					}
				}
			}
			c15expr(c, string(b))
		}
	}
}

// c15deep goes through long and nested texts, in the library and on the command
// line.
func c15deep(c *Ctx, a []string) {
	for _, d := range []int{10, 100, 300, 1000, 3000} {
		for k, s := range []string{
			strings.Repeat("(", d) + "1+1" + strings.Repeat(")", d),
			strings.Repeat("(", d), strings.Repeat(")", d), strings.Repeat("(", d) + "1", strings.Repeat("[", d), strings.Repeat("2*", d), strings.Repeat("dbl ", d),
			strings.Repeat("2*(", d) + "1" + strings.Repeat(")", d),
			strings.Repeat("(", d) + "1" + strings.Repeat("+1)", d),
			strings.Repeat("1+(", d) + "1" + strings.Repeat(")", d),
			strings.Repeat("(1+", d) + "1" + strings.Repeat(")<<1", min(d, 1000)) + strings.Repeat(")", d-min(d, 1000)),
			"1" + strings.Repeat("+1", d), "1" + strings.Repeat(" add 1", d), strings.Repeat("1 + ", d), strings.Repeat("a = 1\n", d) + "a", strings.Repeat("(1)", d), strings.Repeat("\n", d), strings.Repeat(" ", d) + "1", strings.Repeat("v", d) + " = 1\n1+" + strings.Repeat("v", d), strings.Repeat("0", d) + "1", "1 << " + strings.Repeat("0", d) + "1", "[" + strings.Repeat("0", d) + "]+1", "[" + strings.Repeat("9", d) + "]", "1 << " + strings.Repeat("9", d), "(" + strings.Repeat("\t", d) + "1)", strings.Repeat("\x00", d), strings.Repeat("é", d),
		} {
			if c.Stop() {
				return
			}
			c15text(c, s, "deep")
			if d == 100 || d == 1000 && k%3 == 0 {
				c15cmd(c, s, "fmt", "-b")
				c15cmd(c, s, "gen")
			}
		}
		for _, s := range []string{strings.Repeat("1+", d) + "1", strings.Repeat("-", d) + "1", strings.Repeat("9", d), "0x" + strings.Repeat("f", d), strings.Repeat("1^", d) + "1", strings.Repeat("1/", d) + "1", strings.Repeat("1/", d) + "0", strings.Repeat(" ", d), strings.Repeat("1*", d), strings.Repeat("2^0^", d) + "0"} {
			c15expr(c, s)
		}
	}
	for _, d := range []int{20000, 200000} { // refused in bounded stack and time
		c15cmd(c, strings.Repeat("(", d)+"1"+strings.Repeat(")", d), "eval")
		c15cmd(c, strings.Repeat("(", d), "fmt")
	}
}
