//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain/acc/ast"
)

// --- generators of syntax trees and texts ------------------------------------

// lookalikes are identifiers that resemble parts of the language.
var lookalikes = []string{
	"a", "b", "x", "y", "z", "t0", "t1", "tmp", "X", "_", "__", "_1", "_10", "_111", "x2", "x10", "i5", "i1000",
	"return", "return1", "returnx", "returns", "Return", "RETURN", "ret", "return_",
	"add", "add1", "addx", "adds", "Add", "ad", "addadd", "addshl",
	"shl", "shl1", "shlx", "shl3x", "Shl", "sh", "shladd",
	"dbl", "Dbl", "db", "d", "xdbl", "adbl", "_dbl", "xadd", "xshl", "aadd", "x0x", "x07", "e1", "O1", "l1",
}

// dbllikes are identifiers starting with the doubling operator.
var dbllikes = []string{"dblx", "dbl1", "dbl_", "dblx5", "dbldbl", "dbladd", "dblreturn", "dbl12", "dblshl"}

const idletters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"

func randName(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0, 1, 2:
		return lookalikes[r.Intn(len(lookalikes))]
	case 3:
		if r.Intn(12) == 0 {
			return dbllikes[r.Intn(len(dbllikes))]
		}
		return lookalikes[r.Intn(len(lookalikes))] + fmt.Sprint(r.Intn(30))
	}
	n := 1 + r.Intn(6)
	if r.Intn(40) == 0 {
		n = 1 + r.Intn(300)
	}
	b := []byte{idletters[r.Intn(len(idletters))]}
	for len(b) < n {
		b = append(b, (idletters + "0123456789")[r.Intn(len(idletters)+10)])
	}
	return string(b)
}

// genScript describes a random script. Elements are counted in evaluation
// order, so that index operands can be valid (or deliberately not).
type genScript struct {
	r        *rand.Rand
	n        int // elements computed so far
	names    []string
	used     map[string]bool
	maxShift int
	bad      int // one in bad of the operands is invalid (0: none)
	index    int // one in index of the leaves is an index (0: none)
	outs     []int
	outsOnly bool // indexes only to values instructions output
	zero     bool // shift by zero allowed
}

func newGenScript(r *rand.Rand) *genScript {
	return &genScript{r: r, n: 1, used: map[string]bool{}, maxShift: 6, index: 6, outs: []int{0}}
}

func (g *genScript) leaf() ast.Expr {
	r := g.r
	if g.bad > 0 && r.Intn(g.bad) == 0 {
		if r.Intn(2) == 0 {
			return ast.Operand(g.n + r.Intn(3))
		}
		return ast.Identifier(randName(r))
	}
	if g.index > 0 && r.Intn(g.index) == 0 {
		if g.outsOnly {
			return ast.Operand(g.outs[r.Intn(len(g.outs))])
		}
		if r.Intn(2) == 0 {
			return ast.Operand(g.n - 1)
		}
		return ast.Operand(r.Intn(g.n))
	}
	if len(g.names) > 0 && r.Intn(3) != 0 {
		if r.Intn(2) == 0 {
			return ast.Identifier(g.names[len(g.names)-1])
		}
		return ast.Identifier(g.names[r.Intn(len(g.names))])
	}
	return ast.Operand(0)
}

func (g *genScript) expr(size int) ast.Expr {
	r := g.r
	if size <= 0 {
		return g.leaf()
	}
	switch k := r.Intn(6); {
	case k < 3:
		a := r.Intn(size)
		x := g.expr(a)
		y := g.expr(size - 1 - a)
		g.n++
		g.outs = append(g.outs, g.n-1)
		return ast.Add{X: x, Y: y}
	case k == 3:
		x := g.expr(size - 1)
		g.n++
		g.outs = append(g.outs, g.n-1)
		return ast.Double{X: x}
	default:
		x := g.expr(size - 1)
		s := 1 + r.Intn(g.maxShift)
		if g.zero && r.Intn(8) == 0 {
			s = 0
		}
		g.n += s
		if s > 0 {
			g.outs = append(g.outs, g.n-1)
		}
		return ast.Shift{X: x, S: uint(s)}
	}
}

// script makes a chain with up to k named statements.
func (g *genScript) script(k, size int) *ast.Chain {
	r := g.r
	c := &ast.Chain{}
	for i := 0; i < k; i++ {
		e := g.expr(r.Intn(size + 1))
		name := randName(r)
		if g.bad > 0 && len(g.names) > 0 && r.Intn(g.bad) == 0 {
			name = g.names[r.Intn(len(g.names))]
		} else if g.used[name] {
			continue
		}
		g.used[name] = true
		g.names = append(g.names, name)
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(name), Expr: e})
	}
	c.Statements = append(c.Statements, ast.Statement{Expr: g.expr(1 + r.Intn(size+1))})
	return c
}

// randTree is any tree: operands and shift amounts from the whole range.
func randTree(r *rand.Rand, size int) ast.Expr {
	if size <= 0 {
		switch r.Intn(6) {
		case 0, 1:
			return ast.Operand(0)
		case 2:
			return ast.Operand(r.Intn(12))
		case 3:
			if r.Intn(8) == 0 {
				return ast.Operand(r.Int63())
			}
			return ast.Operand(r.Intn(2000))
		default:
			return ast.Identifier(randName(r))
		}
	}
	switch r.Intn(4) {
	case 0, 1:
		a := r.Intn(size)
		if r.Intn(3) == 0 {
			a = (size - 1) * r.Intn(2)
		}
		x := randTree(r, a)
		return ast.Add{X: x, Y: randTree(r, size-1-a)}
	case 2:
		return ast.Double{X: randTree(r, size-1)}
	default:
		s := uint(r.Intn(12))
		switch r.Intn(12) {
		case 0:
			s = uint(r.Intn(5000))
		case 1:
			s = uint(r.Uint64() >> uint(r.Intn(64)))
		}
		return ast.Shift{X: randTree(r, size-1), S: s}
	}
}

// writer writes trees as text in one of the many ways the grammar allows.
type textWriter struct {
	r      *rand.Rand
	b      strings.Builder
	style  int // 0: compact, 1: spaced, 2: random
	paren  int // one in paren expressions gets redundant parentheses (0: none)
	ops    int // 0: symbols, 1: words, 2: random
	sloppy bool
}

func (w *textWriter) sp() {
	switch w.style {
	case 0:
	case 1:
		w.b.WriteByte(' ')
	default:
		for w.r.Intn(3) == 0 {
			w.b.WriteByte(" \t\r"[w.r.Intn(3)])
		}
	}
}

func (w *textWriter) must() {
	if w.sloppy && w.r.Intn(6) == 0 {
		return
	}
	w.b.WriteByte(" \t"[w.r.Intn(2)])
}

func (w *textWriter) word() bool { return w.ops == 1 || w.ops == 2 && w.r.Intn(2) == 0 }

func (w *textWriter) uint(v uint64) {
	switch w.r.Intn(5) {
	case 0:
		fmt.Fprintf(&w.b, "0x%x", v)
	case 1:
		fmt.Fprintf(&w.b, "0x%s%X", strings.Repeat("0", w.r.Intn(3)), v)
	case 2:
		fmt.Fprintf(&w.b, "0%s%o", strings.Repeat("0", w.r.Intn(3)), v)
	default:
		fmt.Fprintf(&w.b, "%d", v)
	}
}

// expr writes e where an expression of at least the given level is expected:
// 0 sum, 1 shift expression, 2 base.
func (w *textWriter) expr(e ast.Expr, level int) {
	own := 2
	switch e.(type) {
	case ast.Add:
		own = 0
	case ast.Shift, ast.Double:
		own = 1
	}
	if own < level || w.paren > 0 && w.r.Intn(w.paren) == 0 {
		w.b.WriteByte('(')
		w.sp()
		w.expr(e, 0)
		w.sp()
		w.b.WriteByte(')')
		return
	}
	switch e := e.(type) {
	case ast.Operand:
		if e == 0 && w.r.Intn(8) != 0 {
			w.b.WriteByte('1')
			return
		}
		w.b.WriteByte('[')
		w.sp()
		w.uint(uint64(e))
		w.sp()
		w.b.WriteByte(']')
	case ast.Identifier:
		w.b.WriteString(string(e))
	case ast.Add:
		w.expr(e.X, 0)
		if w.word() {
			w.must()
			w.b.WriteString("add")
			w.must()
		} else {
			w.sp()
			w.b.WriteByte('+')
			w.sp()
		}
		w.expr(e.Y, 1)
	case ast.Double:
		if w.word() {
			w.b.WriteString("dbl")
			w.must()
		} else {
			w.b.WriteByte('2')
			w.sp()
			w.b.WriteByte('*')
			w.sp()
		}
		w.expr(e.X, 2)
	case ast.Shift:
		w.expr(e.X, 2)
		if w.word() {
			w.must()
			w.b.WriteString("shl")
			w.sp()
		} else {
			w.sp()
			w.b.WriteString("<<")
			w.sp()
		}
		w.uint(uint64(e.S))
	}
}

// writeScript writes a tree as a text in a random style.
func writeScript(r *rand.Rand, c *ast.Chain) string {
	w := &textWriter{r: r, style: r.Intn(3), ops: r.Intn(3), sloppy: r.Intn(20) == 0}
	if r.Intn(2) == 0 {
		w.paren = 2 + r.Intn(8)
	}
	crlf := r.Intn(4) == 0
	for i, st := range c.Statements {
		w.sp()
		if i < len(c.Statements)-1 {
			w.b.WriteString(string(st.Name))
			w.sp()
			w.b.WriteByte('=')
			w.sp()
		} else if r.Intn(2) == 0 {
			w.b.WriteString("return")
			w.must()
		}
		w.expr(st.Expr, 0)
		w.sp()
		if i < len(c.Statements)-1 || r.Intn(3) != 0 {
			if crlf {
				w.b.WriteByte('\r')
			}
			w.b.WriteByte('\n')
		}
	}
	w.sp()
	return w.b.String()
}

const mutAlphabet = "()[]+*<=12 \t\r\n0x9abdlshret_;#\"'-,.2*"

// mutate makes up to k small changes to a text.
func mutate(r *rand.Rand, s string, k int) string {
	toks := []string{"+", "add", "<<", "shl", "2*", "dbl", "(", ")", "[", "]", "=", "\n", " ", "1", "2", "0", "0x", "07", "08", "return", "[1]", "x", "<", "*", "\r\n", "\x00", "é", "\xff", "\u2028", ";", "//", "#", "18446744073709551616", "9223372036854775808", "0xffffffffffffffff"}
	for k = 1 + r.Intn(k); k > 0; k-- {
		if s == "" {
			return toks[r.Intn(len(toks))]
		}
		i := r.Intn(len(s))
		switch r.Intn(6) {
		case 0: // delete
			j := min(len(s), i+1+r.Intn(3))
			s = s[:i] + s[j:]
		case 1: // replace
			s = s[:i] + string(mutAlphabet[r.Intn(len(mutAlphabet))]) + s[i+1:]
		case 2: // insert
			s = s[:i] + string(mutAlphabet[r.Intn(len(mutAlphabet))]) + s[i:]
		case 3:
			s = s[:i] + toks[r.Intn(len(toks))] + s[i:]
		case 4: // duplicate a piece
			j := min(len(s), i+1+r.Intn(12))
			s = s[:j] + s[i:]
		default: // swap
			j := r.Intn(len(s))
			b := []byte(s)
			b[i], b[j] = b[j], b[i]
			s = string(b)
		}
	}
	return s
}

// parenDepth is the deepest nesting of parentheses in a text.
func parenDepth(s string) int {
	d, m := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
			if d > m {
				m = d
			}
		case ')':
			d--
		}
	}
	return m
}
