//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/acc/ast"
	"github.com/mmcloughlin/addchain/acc/ir"
)

// --- reference interpreter of the published grammar ---------------------------
//
// One method per rule of the grammar (acc.peg as published), with the meaning
// of a parsing expression grammar: ordered choice, greedy repetition without
// backtracking into it. Memoised on the two rules that are retried.

type peg struct {
	s    string
	base map[int]pegRes
	lit  bool // a literal that cannot be represented was met
}

type pegRes struct {
	e   ast.Expr
	end int
	ok  bool
}

// refParse returns the syntax tree the grammar assigns to src; ok is false if
// the text is outside the grammar.
func refParse(src string) (ch *ast.Chain, ok bool) {
	p := &peg{s: src, base: map[int]pegRes{}}
	ch, ok = p.chain()
	if p.lit {
		return nil, false
	}
	return ch, ok
}

func (p *peg) ws(i int) int {
	for i < len(p.s) && (p.s[i] == ' ' || p.s[i] == '\t' || p.s[i] == '\r') {
		i++
	}
	return i
}

func (p *peg) has(i int, t string) bool { return strings.HasPrefix(p.s[i:], t) }

func (p *peg) chain() (*ast.Chain, bool) {
	ch := &ast.Chain{}
	i := 0
	for {
		st, j, ok := p.assignment(i)
		if !ok {
			break
		}
		ch.Statements = append(ch.Statements, st)
		i = j
	}
	// Return
	i = p.ws(i)
	if p.has(i, "return") {
		if j := p.ws(i + 6); j > i+6 {
			i = j
		}
	}
	r := p.expr(i)
	if !r.ok {
		return nil, false
	}
	i = p.ws(r.end)
	if i < len(p.s) && p.s[i] == '\n' {
		i++
	}
	ch.Statements = append(ch.Statements, ast.Statement{Expr: r.e})
	i = p.ws(i)
	return ch, i == len(p.s)
}

func (p *peg) assignment(i int) (ast.Statement, int, bool) {
	var st ast.Statement
	i = p.ws(i)
	name, i, ok := p.ident(i)
	if !ok {
		return st, 0, false
	}
	i = p.ws(i)
	if !p.has(i, "=") {
		return st, 0, false
	}
	i = p.ws(i + 1)
	r := p.expr(i)
	if !r.ok {
		return st, 0, false
	}
	i = p.ws(r.end)
	if !p.has(i, "\n") {
		return st, 0, false
	}
	return ast.Statement{Name: ast.Identifier(name), Expr: r.e}, i + 1, true
}

func (p *peg) expr(i int) pegRes {
	i = p.ws(i)
	r := p.shiftexpr(i)
	if !r.ok {
		return r
	}
	for {
		j := p.ws(r.end)
		switch {
		case p.has(j, "+"):
			j++
		case p.has(j, "add"):
			j += 3
		default:
			r.end = j
			return r
		}
		y := p.shiftexpr(p.ws(j))
		if !y.ok {
			r.end = p.ws(r.end)
			return r
		}
		r = pegRes{ast.Add{X: r.e, Y: y.e}, y.end, true}
	}
}

func (p *peg) shiftexpr(i int) pegRes {
	// _ BaseExpr _ ShiftOperator _ UintLiteral _
	if b := p.baseexpr(p.ws(i)); b.ok {
		j := p.ws(b.end)
		if p.has(j, "<<") || p.has(j, "shl") {
			k := j + 2
			if p.s[j] == 's' {
				k = j + 3
			}
			if s, end, ok := p.uintlit(p.ws(k)); ok {
				return pegRes{ast.Shift{X: b.e, S: uint(s)}, p.ws(end), true}
			}
		}
	}
	// _ DoubleOperator _ BaseExpr
	j := p.ws(i)
	k := -1
	if p.has(j, "2") {
		if l := p.ws(j + 1); p.has(l, "*") {
			k = l + 1
		}
	} else if p.has(j, "dbl") {
		k = j + 3
	}
	if k >= 0 {
		if b := p.baseexpr(p.ws(k)); b.ok {
			return pegRes{ast.Double{X: b.e}, b.end, true}
		}
	}
	return p.baseexpr(i)
}

func (p *peg) baseexpr(i int) pegRes {
	if r, ok := p.base[i]; ok {
		return r
	}
	r := p.baseexpr1(i)
	p.base[i] = r
	return r
}

func (p *peg) baseexpr1(i int) pegRes {
	if p.has(i, "(") {
		if r := p.expr(p.ws(i + 1)); r.ok {
			if j := p.ws(r.end); p.has(j, ")") {
				return pegRes{r.e, j + 1, true}
			}
		}
		return pegRes{}
	}
	if p.has(i, "1") {
		return pegRes{ast.Operand(0), i + 1, true}
	}
	if p.has(i, "[") {
		if v, j, ok := p.uintlit(p.ws(i + 1)); ok {
			if j = p.ws(j); p.has(j, "]") {
				if v > 1<<63-1 {
					p.lit = true
				}
				return pegRes{ast.Operand(v), j + 1, true}
			}
		}
		return pegRes{}
	}
	if n, j, ok := p.ident(i); ok {
		return pegRes{ast.Identifier(n), j, true}
	}
	return pegRes{}
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

func (p *peg) ident(i int) (string, int, bool) {
	if i >= len(p.s) || !isLetter(p.s[i]) {
		return "", i, false
	}
	j := i + 1
	for j < len(p.s) && (isLetter(p.s[j]) || isDigit(p.s[j])) {
		j++
	}
	return p.s[i:j], j, true
}

func (p *peg) uintlit(i int) (uint64, int, bool) {
	span := func(i int, f func(c byte) bool) int {
		for i < len(p.s) && f(p.s[i]) {
			i++
		}
		return i
	}
	hex := func(c byte) bool { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	oct := func(c byte) bool { return c >= '0' && c <= '7' }
	base, from, end := 10, i, i
	if p.has(i, "0x") && span(i+2, hex) > i+2 {
		base, from, end = 16, i+2, span(i+2, hex)
	} else if p.has(i, "0") && span(i+1, oct) > i+1 {
		base, from, end = 8, i+1, span(i+1, oct)
	} else {
		end = span(i, isDigit)
		if end == i {
			return 0, i, false
		}
		if end > i+1 && p.s[i] == '0' { // such as 08: not a literal of any base
			p.lit = true
		}
	}
	v, err := strconv.ParseUint(p.s[from:end], base, 64)
	if err != nil {
		p.lit = true
	}
	return v, end, true
}

// --- reference evaluation ------------------------------------------------------

// refResult is the meaning of a syntax tree.
type refResult struct {
	Chain []*big.Int
	Ops   addchain.Program
	Elem  []int  // element denoted by each statement
	Err   string // non-empty: must be rejected
	// Lenient: the text does something the property does not settle (shift by
	// zero, naming an element without using it before it exists): rejection is
	// acceptable too.
	Lenient bool
	Mid     bool // some operation reads an intermediate value of a shift
	mid     map[int]bool
	vars    map[string]int
}

// maxElems bounds the evaluation of shifts.
const maxElems = 20000

// astShift returns the total shift amount of a tree (saturating).
func astShift(e ast.Expr) uint64 {
	switch e := e.(type) {
	case ast.Add:
		return sat(astShift(e.X), astShift(e.Y))
	case ast.Double:
		return sat(astShift(e.X), 1)
	case ast.Shift:
		return sat(astShift(e.X), uint64(e.S))
	}
	return 0
}

func sat(a, b uint64) uint64 {
	if a > maxElems || b > maxElems || a+b > maxElems {
		return maxElems + 1
	}
	return a + b
}

func chainShift(c *ast.Chain) uint64 {
	t := uint64(0)
	for _, s := range c.Statements {
		t = sat(t, astShift(s.Expr))
	}
	return t
}

// refEval evaluates a tree by the definition.
func refEval(c *ast.Chain) *refResult {
	r := &refResult{Chain: []*big.Int{bi(1)}, mid: map[int]bool{}, vars: map[string]int{}}
	for _, st := range c.Statements {
		i := r.expr(st.Expr)
		if r.Err != "" {
			return r
		}
		r.Elem = append(r.Elem, i)
		if i < 0 || i >= len(r.Chain) {
			r.Lenient = true
		}
		if st.Name != "" {
			if _, dup := r.vars[string(st.Name)]; dup {
				r.Err = fmt.Sprintf("redefinition of %q", st.Name)
				return r
			}
			r.vars[string(st.Name)] = i
		}
	}
	return r
}

func (r *refResult) expr(e ast.Expr) int {
	if r.Err != "" {
		return 0
	}
	switch e := e.(type) {
	case ast.Operand:
		return int(e)
	case ast.Identifier:
		i, ok := r.vars[string(e)]
		if !ok {
			r.Err = fmt.Sprintf("undefined name %q", e)
		}
		return i
	case ast.Add:
		x := r.expr(e.X)
		y := r.expr(e.Y)
		r.read(x)
		r.read(y)
		return r.op(x, y)
	case ast.Double:
		x := r.expr(e.X)
		r.read(x)
		return r.op(x, x)
	case ast.Shift:
		x := r.expr(e.X)
		if e.S == 0 {
			r.Lenient = true
			return x
		}
		r.read(x)
		for k := uint(0); k < e.S && r.Err == ""; k++ {
			x = r.op(x, x)
			if k+1 < e.S {
				r.mid[x] = true
			}
		}
		return x
	}
	panic(fmt.Sprintf("unexpected node %T", e))
}

// read notes an operation reading an element.
func (r *refResult) read(x int) {
	if r.mid[x] {
		r.Mid = true
	}
}

func (r *refResult) op(x, y int) int {
	if r.Err != "" {
		return 0
	}
	n := len(r.Chain)
	if x < 0 || y < 0 || x >= n || y >= n {
		r.Err = fmt.Sprintf("operation on an element that does not exist yet: %d + %d with %d elements", x, y, n)
		return 0
	}
	r.Chain = append(r.Chain, new(big.Int).Add(r.Chain[x], r.Chain[y]))
	r.Ops = append(r.Ops, addchain.Op{I: x, J: y})
	return n
}

// --- trees -----------------------------------------------------------------------

func sameExpr(a, b ast.Expr) bool {
	switch a := a.(type) {
	case ast.Operand:
		y, ok := b.(ast.Operand)
		return ok && a == y
	case ast.Identifier:
		y, ok := b.(ast.Identifier)
		return ok && a == y
	case ast.Add:
		y, ok := b.(ast.Add)
		return ok && sameExpr(a.X, y.X) && sameExpr(a.Y, y.Y)
	case ast.Double:
		y, ok := b.(ast.Double)
		return ok && sameExpr(a.X, y.X)
	case ast.Shift:
		y, ok := b.(ast.Shift)
		return ok && a.S == y.S && sameExpr(a.X, y.X)
	}
	return false
}

func sameTree(a, b *ast.Chain) bool {
	if a == nil || b == nil || len(a.Statements) != len(b.Statements) {
		return false
	}
	for i := range a.Statements {
		if a.Statements[i].Name != b.Statements[i].Name || !sameExpr(a.Statements[i].Expr, b.Statements[i].Expr) {
			return false
		}
	}
	return true
}

// treeString writes a tree unambiguously.
func treeString(c *ast.Chain) string {
	if c == nil {
		return "<nil>"
	}
	var b strings.Builder
	for i, s := range c.Statements {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%q=", string(s.Name))
		exprString(&b, s.Expr)
	}
	return b.String()
}

func exprString(b *strings.Builder, e ast.Expr) {
	switch e := e.(type) {
	case ast.Operand:
		fmt.Fprintf(b, "#%d", int(e))
	case ast.Identifier:
		fmt.Fprintf(b, "$%s", string(e))
	case ast.Add:
		b.WriteString("A(")
		exprString(b, e.X)
		b.WriteString(",")
		exprString(b, e.Y)
		b.WriteString(")")
	case ast.Double:
		b.WriteString("D(")
		exprString(b, e.X)
		b.WriteString(")")
	case ast.Shift:
		b.WriteString("S(")
		exprString(b, e.X)
		fmt.Fprintf(b, ",%d)", e.S)
	default:
		fmt.Fprintf(b, "?%T", e)
	}
}

// parseTree reads what treeString writes (for replays).
func parseTree(s string) *ast.Chain {
	c := &ast.Chain{}
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			panic(err)
		}
		name, _ := strconv.Unquote(q)
		s = s[len(q)+1:]
		var e ast.Expr
		e, s = parseExprTree(s)
		c.Statements = append(c.Statements, ast.Statement{Name: ast.Identifier(name), Expr: e})
		s = strings.TrimPrefix(s, "; ")
	}
	return c
}

func parseExprTree(s string) (ast.Expr, string) {
	word := func(s string) (string, string) {
		i := 0
		for i < len(s) && (isLetter(s[i]) || isDigit(s[i]) || s[i] == '-') {
			i++
		}
		return s[:i], s[i:]
	}
	switch s[0] {
	case '#':
		w, t := word(s[1:])
		return ast.Operand(atoi(w)), t
	case '$':
		w, t := word(s[1:])
		return ast.Identifier(w), t
	case 'A':
		x, t := parseExprTree(s[2:])
		y, t := parseExprTree(t[1:])
		return ast.Add{X: x, Y: y}, t[1:]
	case 'D':
		x, t := parseExprTree(s[2:])
		return ast.Double{X: x}, t[1:]
	case 'S':
		x, t := parseExprTree(s[2:])
		w, t := word(t[1:])
		v, err := strconv.ParseUint(w, 10, 64)
		if err != nil {
			panic(err)
		}
		return ast.Shift{X: x, S: uint(v)}, t[1:]
	}
	panic("bad tree " + s)
}

// --- instruction programs ---------------------------------------------------------

// irExpand expands instructions into operations by the definition. Empty error
// string means well-formed: outputs numbered consecutively, inputs element 0 or
// the output of an earlier instruction.
func irExpand(p *ir.Program) (ops addchain.Program, bad string) {
	outs := map[int]bool{0: true}
	n := 0
	for k, inst := range p.Instructions {
		for _, in := range inst.Op.Inputs() {
			if !outs[in.Index] {
				return ops, fmt.Sprintf("instruction %d (%s) reads element %d, which no earlier instruction outputs", k, inst, in.Index)
			}
		}
		switch op := inst.Op.(type) {
		case ir.Add:
			ops = append(ops, addchain.Op{I: op.X.Index, J: op.Y.Index})
			n++
		case ir.Double:
			ops = append(ops, addchain.Op{I: op.X.Index, J: op.X.Index})
			n++
		case ir.Shift:
			if op.S == 0 {
				return ops, fmt.Sprintf("instruction %d shifts by zero", k)
			}
			x := op.X.Index
			for s := uint(0); s < op.S; s++ {
				ops = append(ops, addchain.Op{I: x, J: x})
				n++
				x = n
			}
		default:
			return ops, fmt.Sprintf("instruction %d has operation %T", k, op)
		}
		if inst.Output.Index != n {
			return ops, fmt.Sprintf("instruction %d outputs element %d, want %d", k, inst.Output.Index, n)
		}
		outs[n] = true
	}
	return ops, ""
}

// irString writes instructions as "d:i a:i,j s:i,n" items.
func irString(p *ir.Program) string {
	var f []string
	for _, inst := range p.Instructions {
		switch op := inst.Op.(type) {
		case ir.Add:
			f = append(f, fmt.Sprintf("a%d,%d", op.X.Index, op.Y.Index))
		case ir.Double:
			f = append(f, fmt.Sprintf("d%d", op.X.Index))
		case ir.Shift:
			f = append(f, fmt.Sprintf("s%d,%d", op.X.Index, op.S))
		}
	}
	return strings.Join(f, " ")
}

func parseIR(s string) *ir.Program {
	p := &ir.Program{}
	n := 0
	for _, f := range strings.Fields(s) {
		var i, j int
		var op ir.Op
		switch f[0] {
		case 'a':
			fmt.Sscanf(f[1:], "%d,%d", &i, &j)
			op = ir.Add{X: ir.Index(i), Y: ir.Index(j)}
			n++
		case 'd':
			fmt.Sscanf(f[1:], "%d", &i)
			op = ir.Double{X: ir.Index(i)}
			n++
		case 's':
			fmt.Sscanf(f[1:], "%d,%d", &i, &j)
			op = ir.Shift{X: ir.Index(i), S: uint(j)}
			n += j
		}
		p.AddInstruction(&ir.Instruction{Output: ir.Index(n), Op: op})
	}
	return p
}

// randIR returns a random well-formed instruction program with n instructions.
// With alluse every output but the last is read.
func randIR(r *rand.Rand, n int, alluse bool) *ir.Program {
	p := &ir.Program{}
	outs := []int{0}
	used := map[int]bool{0: true}
	next := 0
	mode := r.Intn(5)
	window := 1 + r.Intn(12)
	pick := func() int {
		switch mode {
		case 0:
			return outs[r.Intn(len(outs))]
		case 1:
			return outs[len(outs)-1]
		case 2:
			w := min(window, len(outs))
			return outs[len(outs)-1-r.Intn(w)]
		case 3:
			if r.Intn(3) == 0 {
				return outs[r.Intn(min(len(outs), window))]
			}
			return outs[len(outs)-1]
		}
		if r.Intn(8) == 0 {
			return 0
		}
		return outs[r.Intn(len(outs))]
	}
	for len(p.Instructions) < n {
		var unread []int
		if alluse {
			for _, o := range outs {
				if !used[o] {
					unread = append(unread, o)
				}
			}
		}
		x, y := pick(), pick()
		left := n - len(p.Instructions)
		if len(unread) > 0 && (len(unread) >= left || r.Intn(3) == 0) {
			x = unread[r.Intn(len(unread))]
			if len(unread) > 1 && len(unread) >= left-1 {
				y = unread[r.Intn(len(unread))]
			}
		}
		if alluse && len(unread) >= left && len(unread) > 1 {
			x, y = unread[0], unread[len(unread)-1]
		}
		var op ir.Op
		switch r.Intn(5) {
		case 0:
			if alluse && len(unread) > 1 {
				op = ir.Add{X: ir.Index(x), Y: ir.Index(y)}
			} else {
				op = ir.Double{X: ir.Index(x)}
			}
		case 1:
			if alluse && len(unread) > 1 {
				op = ir.Add{X: ir.Index(x), Y: ir.Index(y)}
				break
			}
			s := 1 + r.Intn(4)
			if r.Intn(10) == 0 {
				s = 1 + r.Intn(70)
			}
			op = ir.Shift{X: ir.Index(x), S: uint(s)}
		default:
			op = ir.Add{X: ir.Index(x), Y: ir.Index(y)}
		}
		for _, in := range op.Inputs() {
			used[in.Index] = true
		}
		if s, ok := op.(ir.Shift); ok {
			next += int(s.S)
		} else {
			next++
		}
		outs = append(outs, next)
		p.AddInstruction(&ir.Instruction{Output: ir.Index(next), Op: op})
	}
	return p
}

// enumIR calls f for every well-formed instruction program with exactly n
// instructions extending prefix; shift amounts 2 and 3.
func enumIR(prefix *ir.Program, n int, f func(p *ir.Program)) {
	p := &ir.Program{}
	outs := []int{0}
	for _, inst := range prefix.Instructions {
		p.AddInstruction(inst)
		outs = append(outs, inst.Output.Index)
	}
	var rec func()
	push := func(op ir.Op, k int) {
		o := outs[len(outs)-1] + k
		outs = append(outs, o)
		p.Instructions = append(p.Instructions, &ir.Instruction{Output: ir.Index(o), Op: op})
		rec()
		p.Instructions = p.Instructions[:len(p.Instructions)-1]
		outs = outs[:len(outs)-1]
	}
	rec = func() {
		if len(p.Instructions) == n {
			f(p)
			return
		}
		m := len(outs)
		for i := 0; i < m; i++ {
			for j := i; j < m; j++ {
				push(ir.Add{X: ir.Index(outs[i]), Y: ir.Index(outs[j])}, 1)
			}
			push(ir.Double{X: ir.Index(outs[i])}, 1)
			push(ir.Shift{X: ir.Index(outs[i]), S: 2}, 2)
		}
	}
	rec()
}

// --- register machine -------------------------------------------------------------

// rinst is one instruction over named registers.
type rinst struct {
	Op   string // add, double, shift
	Z    string
	X, Y string
	N    uint
}

// runRegs executes instructions on a register machine. If alias, the output
// register is the input register. Only the listed temporaries, the input and the
// output exist. It returns the final output value and what went wrong.
func runRegs(is []rinst, in, out string, temps []string, alias bool) (*big.Int, string) {
	reg := map[string]**big.Int{}
	mk := func(v *big.Int) **big.Int { return &v }
	reg[in] = mk(bi(1))
	if alias {
		reg[out] = reg[in]
	} else {
		reg[out] = mk(nil)
	}
	for _, t := range temps {
		if reg[t] != nil {
			return nil, fmt.Sprintf("temporary %q declared twice or named like the input or output", t)
		}
		reg[t] = mk(nil)
	}
	read := func(n string) (*big.Int, string) {
		p := reg[n]
		if p == nil {
			return nil, fmt.Sprintf("reads undeclared %q", n)
		}
		if *p == nil {
			return nil, fmt.Sprintf("reads %q before it is written", n)
		}
		return *p, ""
	}
	for k, i := range is {
		x, bad := read(i.X)
		if bad != "" {
			return nil, fmt.Sprintf("instruction %d %v %s", k, i, bad)
		}
		var v *big.Int
		switch i.Op {
		case "add":
			y, bad := read(i.Y)
			if bad != "" {
				return nil, fmt.Sprintf("instruction %d %v %s", k, i, bad)
			}
			v = new(big.Int).Add(x, y)
		case "double":
			v = new(big.Int).Add(x, x)
		case "shift":
			v = new(big.Int).Lsh(x, i.N)
		default:
			return nil, "unknown instruction " + i.Op
		}
		z := reg[i.Z]
		if z == nil {
			return nil, fmt.Sprintf("instruction %d %v writes undeclared %q", k, i, i.Z)
		}
		*z = v
	}
	if *reg[out] == nil {
		return nil, "output never written"
	}
	return *reg[out], ""
}

// evalOutput is the output of the eval command.
func evalOutput(p addchain.Program, ch []*big.Int) string {
	var b strings.Builder
	d := 0
	for n, op := range p {
		if op.I == op.J {
			d++
		}
		fmt.Fprintf(&b, "[%3d] %3d+%3d\t%x\n", n+1, op.I, op.J, ch[n+1])
	}
	fmt.Fprintf(&b, "total: %d\tdoubles: \t%d adds: %d\n", len(p), d, len(p)-d)
	return b.String()
}
