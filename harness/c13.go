//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain/internal/calc"
)

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "Each evaluation gives one expression text to calc.Eval and compares value/error with a separate tokenizer and precedence-climbing evaluator. " +
			"Exhaustive: all literal/operator sequences with up to 4 operands over {-3,-1,0,2,5} (thorough 5 operands), all character strings up to length 5 (thorough 6) over a 14-character alphabet including stray ones; every byte (and byte pair) in 14 (1) places of an expression; random long expressions (up to 400 operators, mixed radix, spaces, negative literals, multi-precision values), random corruptions; plus `addchain search` runs whose dec:/hex: lines must be that value. " +
			"Non-trivial: distinct well-formed expressions with at least two operators, and distinct malformed texts.",
		Assumptions: []string{"not judged: division by zero, powers beyond 2^20 bits, decimal literals with superfluous leading zeros, upper-case hexadecimal digits, a minus sign separated from its literal"},
		Gen: func(g *Gen) {
			for _, a := range c13lits {
				for _, b := range c13lits {
					g.Emit("exhaustive", g.N(4, 5), a, b)
				}
			}
			for i := range c13alpha {
				for j := range c13alpha {
					g.Emit("strings", g.N(5, 6), i, j)
				}
			}
			for b := 0; b < 256; b += 16 {
				g.Emit("bytes", b, g.N(1, 4))
			}
			g.Blocks("random", g.N(96, 1600), g.N(1500, 2000))
			g.Blocks("long", g.N(32, 200), g.N(40, 100))
			g.Blocks("stack", g.N(24, 200), g.N(20, 60))
			g.Blocks("wide", g.N(16, 100), g.N(8, 30))
			g.Blocks("corrupt", g.N(64, 800), g.N(2000, 4000))
			g.Blocks("cli", g.N(16, 64), g.N(8, 24))
		},
		Run: map[string]func(*Ctx, []string){
			"exhaustive": c13exhaustive, "expr": func(c *Ctx, a []string) { c13check(c, a[0]) }, "strings": c13strings,
			"bytes": c13bytes, "random": c13random, "long": c13long, "stack": c13stack, "wide": c13wide, "corrupt": c13corrupt, "cli": c13cli,
		},
		Floor: map[string]int64{"value": 10000, "malformed": 10000, "cli-values": 50},
	})
}

var (
	errMalformed   = errors.New("malformed")
	errUnspecified = errors.New("unspecified")
)

type calcTok struct {
	lit *big.Int
	op  byte
}

// calcTokens tokenizes by alternation: literal, operator, literal, ...
func calcTokens(s string) ([]calcTok, error) {
	var out []calcTok
	i := 0
	ws := func() {
		for i < len(s) && s[i] == ' ' {
			i++
		}
	}
	unspec := false
	ws()
	for {
		// literal
		if i >= len(s) {
			return nil, errMalformed
		}
		neg := false
		if s[i] == '-' {
			neg = true
			i++
			if i < len(s) && s[i] == ' ' {
				unspec = true
				ws()
			}
		}
		base, digits := int64(10), "0123456789"
		if strings.HasPrefix(s[i:], "0x") {
			base, digits = 16, "0123456789abcdef"
			i += 2
		} else if strings.HasPrefix(s[i:], "0b") {
			base, digits = 2, "01"
			i += 2
		}
		st := i
		v := new(big.Int)
		for i < len(s) {
			d := strings.IndexByte(digits, s[i])
			if d < 0 {
				break
			}
			v.Mul(v, bi(base))
			v.Add(v, bi(int64(d)))
			i++
		}
		if base == 16 && i < len(s) && s[i] >= 'A' && s[i] <= 'F' {
			return nil, errUnspecified
		}
		if i == st {
			return nil, errMalformed
		}
		if base == 10 && i-st > 1 && s[st] == '0' {
			unspec = true
		}
		if neg {
			v.Neg(v)
		}
		out = append(out, calcTok{lit: v})
		ws()
		if i >= len(s) {
			break
		}
		if strings.IndexByte("+-*/^", s[i]) < 0 {
			if unspec {
				return nil, errUnspecified
			}
			return nil, errMalformed
		}
		out = append(out, calcTok{op: s[i]})
		i++
		ws()
	}
	if unspec {
		return nil, errUnspecified
	}
	return out, nil
}

// calcRef evaluates by recursive descent, one function per precedence level.
func calcRef(s string) (*big.Int, error) {
	toks, err := calcTokens(s)
	if err != nil {
		return nil, err
	}
	p := 0
	var unspec error
	peek := func() byte {
		if p < len(toks) {
			return toks[p].op
		}
		return 0
	}
	limit := func(x *big.Int) *big.Int {
		if x.BitLen() > 1<<20 {
			unspec = errUnspecified
			return bi(1)
		}
		return x
	}
	var power func() *big.Int
	power = func() *big.Int {
		x := toks[p].lit
		p++
		if peek() != '^' {
			return x
		}
		p++
		y := power()
		if y.Sign() < 0 {
			return bi(1)
		}
		z := bi(1)
		if x.BitLen() <= 1 { // 0, 1, -1
			switch {
			case y.Sign() == 0 || x.Cmp(bi(1)) == 0:
				return z
			case x.Sign() == 0:
				return bi(0)
			case y.Bit(0) == 1:
				return bi(-1)
			}
			return z
		}
		if !y.IsInt64() || y.Int64() > 1<<20 || y.Int64()*int64(x.BitLen()) > 1<<20 {
			unspec = errUnspecified
			return z
		}
		// square and multiply, left to right
		for i := y.BitLen() - 1; i >= 0; i-- {
			z = new(big.Int).Mul(z, z)
			if y.Bit(i) == 1 {
				z.Mul(z, x)
			}
		}
		return limit(z)
	}
	term := func() *big.Int {
		x := power()
		for peek() == '*' || peek() == '/' {
			op := peek()
			p++
			y := power()
			if op == '*' {
				x = limit(new(big.Int).Mul(x, y))
				continue
			}
			if y.Sign() == 0 {
				unspec = errUnspecified
				x = bi(0)
				continue
			}
			// Euclidean: x = y*q + r with 0 <= r < |y|.
			ax, ay := new(big.Int).Abs(x), new(big.Int).Abs(y)
			q, r := new(big.Int).QuoRem(ax, ay, new(big.Int))
			if x.Sign() < 0 && r.Sign() != 0 {
				q.Add(q, bi(1))
			}
			if x.Sign()*y.Sign() < 0 {
				q.Neg(q)
			}
			x = q
		}
		return x
	}
	x := term()
	for peek() == '+' || peek() == '-' {
		op := peek()
		p++
		y := term()
		if op == '+' {
			x = new(big.Int).Add(x, y)
		} else {
			x = new(big.Int).Sub(x, y)
		}
	}
	if unspec != nil {
		return nil, unspec
	}
	return x, nil
}

func c13check(c *Ctx, s string) {
	c.Eval(1)
	want, werr := calcRef(s)
	got, err := calc.Eval(s)
	switch {
	case werr == errUnspecified:
		c.Count("unspecified", 1)
	case werr != nil:
		c.Count("malformed", 1)
		c.Nontrivial(s)
		if err == nil {
			c.Fail("Eval(%q) = %v, but the text is malformed", s, got)
		}
		if len(s) > 3 {
			c.Sample("malformed", func() string { return fmt.Sprintf("%q: %v", s, err) })
		}
	default:
		c.Count("value", 1)
		if err != nil || got == nil || got.Cmp(want) != 0 {
			c.Fail("Eval(%q) = %v, %v; want %s", s, got, err, want)
			return
		}
		if strings.ContainsAny(s, "+-*/^") {
			c.Nontrivial(s)
		}
		// The evaluator keeps no state: the same text again gives a fresh value.
		if len(s) < 64 {
			got.Add(got, bi(1))
			again, err := calc.Eval(s)
			if err != nil || again.Cmp(want) != 0 {
				c.Fail("second Eval(%q) = %v, %v; want %s", s, again, err, want)
			} else if c.evals%32 == 0 {
				c.Keep(func() string { return fmt.Sprintf("Eval(%q)", s) }, func() string { return again.String() })
			}
		}
		c.Sample("value", func() string { return fmt.Sprintf("%q = %s", clip(s, 200), clip(want.String(), 100)) })
	}
}

var c13lits = []string{"-3", "-1", "0", "2", "5"}

func c13exhaustive(c *Ctx, a []string) {
	n := atoi(a[0])
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if c.Stop() {
			return
		}
		if k >= 2 {
			c.At(func() Case { return Case{"expr", []string{s}} })
			c13check(c, s)
		}
		if k == n {
			return
		}
		for _, op := range "+-*/^" {
			for _, l := range c13lits {
				if k == 1 && l != a[2] {
					continue
				}
				rec(s+string(op)+l, k+1)
			}
		}
	}
	rec(a[1], 1)
}

const c13alpha = "012xb9a+-*/^ ("

func c13strings(c *Ctx, a []string) {
	n := atoi(a[0])
	var rec func(s string)
	rec = func(s string) {
		if c.Stop() {
			return
		}
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
		if len(s) == n {
			return
		}
		for _, ch := range c13alpha {
			rec(s + string(ch))
		}
	}
	if a[2] == "0" {
		s := string(c13alpha[atoi(a[1])])
		if a[1] == "0" {
			c13check(c, "")
		}
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
	}
	rec(string(c13alpha[atoi(a[1])]) + string(c13alpha[atoi(a[2])]))
}

// c13bytes puts every byte and every pair of bytes into every place of an
// expression: prefixes, suffixes, separators, signs, exponents and so on that
// number parsers commonly take are part of the language or malformed.
func c13bytes(c *Ctx, a []string) {
	ctx := [][2]string{{"0", "1"}, {"1", "2"}, {"", "1"}, {"7", ""}, {"-", "3"}, {"0x", "1"}, {"0b", "1"}, {"0x1", "2"}, {"0b1", "0"}, {"5+", "1"}, {"5 ", " 3"}, {"2^", "1"}, {"-0", "1"}, {"9/", "2"}}
	full := atoi(a[1])
	for b := atoi(a[0]); b < atoi(a[0])+16 && !c.Stop(); b++ {
		one := string([]byte{byte(b)})
		for i, x := range ctx {
			s := x[0] + one + x[1]
			c.At(func() Case { return Case{"expr", []string{s}} })
			c13check(c, s)
			c13check(c, x[0]+one+one+x[1])
			if i >= 2*full+1 {
				continue
			}
			for b2 := 0; b2 < 256; b2++ {
				s := x[0] + one + string([]byte{byte(b2)}) + x[1]
				c.At(func() Case { return Case{"expr", []string{s}} })
				c13check(c, s)
			}
		}
	}
	c.Count("bytes placed", 16*len(ctx))
}

// randLit writes a random literal in a random radix.
func randLit(r *rand.Rand, maxbits int, neg bool) string {
	x := randSmallish(r, maxbits)
	if r.Intn(3) == 0 {
		x = bi(int64(r.Intn(20)))
	}
	var s string
	switch r.Intn(4) {
	case 0:
		s = "0x" + strings.Repeat("0", r.Intn(2)*r.Intn(4)) + x.Text(16)
	case 1:
		s = "0b" + strings.Repeat("0", r.Intn(2)*r.Intn(4)) + x.Text(2)
	default:
		s = x.String()
	}
	if neg && r.Intn(4) == 0 {
		s = "-" + s
	}
	return s
}

func randExpr(r *rand.Rand, ops int, maxbits int) string {
	var b strings.Builder
	sp := func() {
		if r.Intn(3) == 0 {
			b.WriteString(strings.Repeat(" ", 1+r.Intn(2)))
		}
	}
	mix := "+-*/^"
	switch r.Intn(6) {
	case 0:
		mix = "+-"
	case 1:
		mix = "*/"
	case 2:
		mix = "-/^"
	}
	sp()
	b.WriteString(randLit(r, maxbits, true))
	for i := 0; i < ops; i++ {
		sp()
		op := mix[r.Intn(len(mix))]
		b.WriteByte(op)
		sp()
		if op == '^' {
			b.WriteString([]string{"0", "1", "2", "3", "-1", "0x3", "0b10", "7", "-2"}[r.Intn(9)])
		} else {
			b.WriteString(randLit(r, maxbits, true))
		}
	}
	sp()
	return b.String()
}

func c13random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := randExpr(r, r.Intn(9), 1+r.Intn(80))
		if r.Intn(5) == 0 {
			s = fmt.Sprintf("2^%d - 2^%d %s", 1+r.Intn(700), r.Intn(300), []string{"- 1", "+ 17", "- 2^96 + 2^32 * 3", "/ 3", "* 0x1f - 5"}[r.Intn(5)])
		}
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
	}
}

func c13long(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := randExpr(r, 20+r.Intn(380), 1+r.Intn(20))
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
	}
}

// c13stack writes towers of powers, which keep all their operands pending until
// the last one is read, of 1, 0 and -1 with other operators around and between.
func c13stack(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		var b strings.Builder
		for k := r.Intn(3); k > 0; k-- {
			fmt.Fprintf(&b, "%d%c", r.Intn(100), "+-*"[r.Intn(3)])
		}
		n := 10 + r.Intn(300)
		if r.Intn(4) == 0 {
			n = 1000 + r.Intn(4000)
		}
		for t := 1 + r.Intn(3); t > 0; t-- {
			if r.Intn(2) == 0 {
				fmt.Fprintf(&b, "%d^", 2+r.Intn(6))
			}
			m := r.Intn(4)
			for k := 0; k < n; k++ {
				switch {
				case m == 0:
					b.WriteString("0^")
				case m == 1:
					b.WriteString([]string{"0^", "1^", "-1^"}[r.Intn(3)])
				case m == 2 && k+12 < n:
					b.WriteString("1^")
				case m == 2:
					b.WriteString("0^")
				default:
					b.WriteString([]string{"0^", "0^", "0^", "0 ^ ", "1^", "0x0^", "0b1^"}[r.Intn(7)])
				}
			}
			fmt.Fprintf(&b, "%d", r.Intn(4))
			if t > 1 {
				b.WriteByte("+-*"[r.Intn(3)])
			}
			n = r.Intn(80)
		}
		s := b.String()
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
		c.Count("towers", 1)
	}
}

// c13wide combines literals of thousands of digits.
func c13wide(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := randLit(r, 1+r.Intn(40000), true)
		for k := 1 + r.Intn(3); k > 0; k-- {
			s += string("+-*/"[r.Intn(4)]) + randLit(r, 1+r.Intn(40000), true)
		}
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
	}
}

func c13corrupt(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	chars := "0123456789abcdefx+-*/^ ()._,;!%&|<>=~`'\"\\\t\n\r\x00\x7f\x80\xffghijklmnopqrstuvwyzXYBOEDPé"
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		b := []byte(randExpr(r, r.Intn(6), 1+r.Intn(20)))
		for k := 0; k < 1+r.Intn(3); k++ {
			p := r.Intn(len(b) + 1)
			ch := chars[r.Intn(len(chars))]
			switch r.Intn(4) {
			case 0:
				b = append(b[:p], append([]byte{ch}, b[p:]...)...)
			case 1:
				if p < len(b) {
					b = append(b[:p], b[p+1:]...)
				}
			case 2:
				if p < len(b) {
					b[p] = ch
				}
			case 3:
				b = b[:p]
			}
		}
		s := string(b)
		c.At(func() Case { return Case{"expr", []string{s}} })
		c13check(c, s)
	}
}

// c13cli observes the value through the search command's report.
func c13cli(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := randExpr(r, r.Intn(5), 1+r.Intn(16))
		want, werr := calcRef(s)
		if werr != nil || want.BitLen() > 80 {
			continue
		}
		c.At(func() Case { return Case{"expr", []string{s}} })
		res := c.addchainCmd("", "search", "-p", "2", "--", s)
		c.Eval(1)
		c.Count("cli-values", 1)
		dec, hex := "", ""
		for _, l := range strings.Split(res.Err, "\n") {
			if k := strings.Index(l, "dec: "); k >= 0 {
				dec = strings.TrimSpace(l[k+5:])
			}
			if k := strings.Index(l, "hex: "); k >= 0 {
				hex = strings.TrimSpace(l[k+5:])
			}
		}
		if dec != want.String() || hex != want.Text(16) {
			c.Fail("search %q reports dec %q hex %q, want %s: %s", s, dec, hex, want, res)
		}
	}
}
