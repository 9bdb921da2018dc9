//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain"
)

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic("bad case argument " + s)
	}
	return n
}

func atoi64(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("bad case argument " + s)
	}
	return n
}

func bi(x int64) *big.Int { return big.NewInt(x) }

// parseBig parses a decimal or 0x literal.
func parseBig(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad integer " + s)
	}
	return x
}

func hexs(x *big.Int) string {
	if x.IsInt64() && x.Sign() >= 0 && x.Int64() < 1<<20 {
		return x.String()
	}
	if x.Sign() < 0 {
		return "-0x" + new(big.Int).Neg(x).Text(16)
	}
	return "0x" + x.Text(16)
}

// joinBig writes a list of integers, comma separated.
func joinBig(xs []*big.Int) string {
	ss := make([]string, len(xs))
	for i, x := range xs {
		if x == nil {
			ss[i] = "nil"
			continue
		}
		ss[i] = hexs(x)
	}
	return strings.Join(ss, ",")
}

func splitBig(s string) []*big.Int {
	if s == "" {
		return []*big.Int{}
	}
	xs := []*big.Int{}
	for _, f := range strings.Split(s, ",") {
		xs = append(xs, parseBig(f))
	}
	return xs
}

func cloneBigs(xs []*big.Int) []*big.Int {
	ys := make([]*big.Int, len(xs))
	for i, x := range xs {
		ys[i] = new(big.Int).Set(x)
	}
	return ys
}

func equalBigs(xs, ys []*big.Int) bool {
	if len(xs) != len(ys) {
		return false
	}
	for i := range xs {
		if xs[i] == nil || ys[i] == nil || xs[i].Cmp(ys[i]) != 0 {
			return false
		}
	}
	return true
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

func ones(n int) *big.Int { return new(big.Int).Sub(pow2(n), bi(1)) }

// randBits returns a random integer with exactly n bits (n >= 1) drawn from one
// of several shapes.
func randBits(r *rand.Rand, n int) *big.Int {
	if n <= 0 {
		return bi(0)
	}
	top := pow2(n - 1)
	if n < 8 {
		x := new(big.Int).Rand(r, top)
		return x.Or(x, top)
	}
	switch r.Intn(8) {
	case 0: // sparse
		x := new(big.Int).Set(top)
		for i := 0; i < 1+r.Intn(4); i++ {
			x.SetBit(x, r.Intn(n), 1)
		}
		return x
	case 1: // dense
		x := ones(n)
		for i := 0; i < r.Intn(4) && n > 1; i++ {
			x.SetBit(x, r.Intn(n-1), 0)
		}
		return x
	case 2, 3: // runs
		x := new(big.Int)
		bit := uint(1)
		for i := n - 1; i >= 0; {
			l := 1 + r.Intn(1+r.Intn(20))
			if r.Intn(6) == 0 {
				l = 1 + r.Intn(n)
			}
			for ; l > 0 && i >= 0; l-- {
				x.SetBit(x, i, bit)
				i--
			}
			bit ^= 1
		}
		return x
	case 4: // power of two plus or minus a little
		x := pow2(n)
		x.Sub(x, bi(int64(1+r.Intn(64))))
		if x.BitLen() != n || r.Intn(2) == 0 {
			x = new(big.Int).Add(top, bi(int64(r.Intn(64))))
			if x.BitLen() != n {
				x.Set(top)
			}
		}
		return x
	case 5: // periodic pattern
		p := 1 + r.Intn(12)
		pat := r.Intn(1 << uint(p))
		x := new(big.Int).Set(top)
		for i := 0; i < n-1; i++ {
			if pat>>uint(i%p)&1 == 1 {
				x.SetBit(x, i, 1)
			}
		}
		return x
	default:
		x := new(big.Int).Rand(r, top)
		return x.Or(x, top)
	}
}

// twin returns a number of the size of x that an incomplete comparison takes for
// x: one bit below the top one differs, in the middle of its words when it has
// several, or two words are exchanged, or the same bit of two words differs.
func twin(r *rand.Rand, x *big.Int) *big.Int {
	n := x.BitLen()
	if n < 2 {
		return new(big.Int).Add(x, bi(1))
	}
	lo, hi := 0, n-1
	if top := (n - 1) / 64 * 64; top > 128 && r.Intn(3) > 0 {
		lo, hi = 64, top
		if top > 256 && r.Intn(2) == 0 {
			lo, hi = 128, top-64
		}
	} else if n > 66 && r.Intn(2) == 0 {
		lo = 64
	}
	i := lo + r.Intn(hi-lo)
	y := new(big.Int).Abs(x)
	if words := (n - 1) / 64; words >= 2 && r.Intn(4) == 0 {
		// The words below the top one: a and b.
		a := r.Intn(words)
		b := (a + 1 + r.Intn(words-1)) % words
		if r.Intn(2) == 0 {
			for k := 0; k < 64; k++ {
				u, v := y.Bit(64*a+k), y.Bit(64*b+k)
				y.SetBit(y, 64*a+k, v)
				y.SetBit(y, 64*b+k, u)
			}
		} else {
			k := r.Intn(64)
			y.SetBit(y, 64*a+k, 1-y.Bit(64*a+k))
			y.SetBit(y, 64*b+k, 1-y.Bit(64*b+k))
		}
		if y.CmpAbs(x) != 0 {
			i = -1
		}
	}
	if i >= 0 {
		y.SetBit(y, i, 1-y.Bit(i))
	}
	if x.Sign() < 0 {
		y.Neg(y)
	}
	return y
}

// twinChain returns a valid duplicate-free chain of large numbers with many
// elements of equal size that differ in one bit, in a random valid order, or
// ascending.
func twinChain(r *rand.Rand) []*big.Int {
	l := 66 + r.Intn(70)
	asc := r.Intn(3) == 0
	if r.Intn(4) == 0 {
		// Operations out of order cost cubic time: mostly ascending.
		l = 130 + r.Intn(230)
		asc = r.Intn(4) > 0
	}
	s := []*big.Int{bi(1)}
	seen := map[string]bool{"1": true}
	add := func(x *big.Int) {
		if k := x.Text(62); !seen[k] {
			seen[k] = true
			s = append(s, x)
		}
	}
	for i := 0; i < l; i++ {
		e := s[len(s)-1]
		add(new(big.Int).Lsh(e, 1))
	}
	m := len(s)
	for n := 2 + r.Intn(24); n > 0; n-- {
		if last := s[len(s)-1]; r.Intn(6) == 0 && last.BitLen() > 130 {
			// The same bit in two different words.
			j := r.Intn(64)
			k := 64 * (1 + r.Intn((last.BitLen()-2)/64-1))
			add(new(big.Int).Add(last, s[min(m-1, j)]))
			add(new(big.Int).Add(last, s[min(m-1, j+k)]))
			continue
		}
		e := s[len(s)-1]
		switch r.Intn(4) {
		case 0:
			e = s[m-1]
		case 1:
			e = s[m-1+r.Intn(len(s)-m+1)]
		}
		j := e.BitLen()
		lo := 0
		if r.Intn(3) > 0 {
			lo = 64
			if j > 330 {
				lo = 128
			}
		}
		if j-1 <= lo {
			lo = 0
		}
		add(new(big.Int).Add(e, s[min(m-1, lo+r.Intn(j-1-lo))]))
		if r.Intn(12) == 0 {
			add(new(big.Int).Lsh(s[len(s)-1], 1))
		}
	}
	if asc {
		s = msort(s)
	}
	return s
}

// randSmallish returns a random positive integer of up to n bits.
func randSmallish(r *rand.Rand, n int) *big.Int { return randBits(r, 1+r.Intn(n)) }

// wordSizes are bit lengths around machine boundaries.
var wordSizes = []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 383, 384, 385, 511, 512, 513, 521, 1023, 1024, 1025}

// --- addition chain oracles -------------------------------------------------

// hash of an integer modulo a prime, additive.
const p61 = 1<<61 - 45 // prime; 2 generates, so that runs of ones do not collide

var bigp61 = new(big.Int).SetUint64(p61)

func mod61(x *big.Int) uint64 {
	if x.IsUint64() {
		return x.Uint64() % p61
	}
	return new(big.Int).Mod(x, bigp61).Uint64()
}

// chainErr is the definition of an addition chain, decided independently of
// the code under test. Empty result means valid.
func chainErr(c []*big.Int) string {
	if len(c) == 0 {
		return "empty"
	}
	for i, x := range c {
		if x == nil {
			return fmt.Sprintf("nil element at %d", i)
		}
	}
	if !(c[0].IsInt64() && c[0].Int64() == 1) {
		return "does not start with 1"
	}
	h := make([]uint64, len(c))
	pos := make(map[uint64][]int, len(c))
	for i, x := range c {
		h[i] = mod61(x)
		for _, j := range pos[h[i]] {
			if c[j].Cmp(x) == 0 {
				return fmt.Sprintf("value %s repeated at %d and %d", hexs(x), j, i)
			}
		}
		pos[h[i]] = append(pos[h[i]], i)
	}
	d := new(big.Int)
	for k := 1; k < len(c); k++ {
		found := false
	search:
		for i := k - 1; i >= 0; i-- {
			t := h[k] + p61 - h[i]
			t %= p61
			for _, j := range pos[t] {
				if j < k && d.Add(c[i], c[j]).Cmp(c[k]) == 0 {
					found = true
					break search
				}
			}
		}
		if !found {
			return fmt.Sprintf("element %d (%s) is not the sum of two earlier elements", k, hexs(c[k]))
		}
	}
	return ""
}

// certErr checks that the operation list certifies the chain.
func certErr(c addchain.Chain, p addchain.Program) string {
	if len(c) == 0 {
		return "empty chain"
	}
	if len(p) != len(c)-1 {
		return fmt.Sprintf("%d operations for %d elements", len(p), len(c))
	}
	if c[0] == nil || c[0].Cmp(bi(1)) != 0 {
		return "does not start with 1"
	}
	seen := map[string]int{}
	s := new(big.Int)
	for k := 0; k < len(c); k++ {
		if c[k] == nil {
			return "nil element"
		}
		t := string(c[k].Bytes())
		if c[k].Sign() < 0 {
			return "negative element"
		}
		if j, dup := seen[t]; dup {
			return fmt.Sprintf("value %s repeated at %d and %d", hexs(c[k]), j, k)
		}
		seen[t] = k
		if k == 0 {
			continue
		}
		op := p[k-1]
		if op.I < 0 || op.J < 0 || op.I >= k || op.J >= k {
			return fmt.Sprintf("operation %d = %v refers to an element not yet computed", k-1, op)
		}
		if s.Add(c[op.I], c[op.J]).Cmp(c[k]) != 0 {
			return fmt.Sprintf("operation %d = %v does not give element %s", k-1, op, hexs(c[k]))
		}
	}
	return ""
}

// evalOps evaluates an operation list literally; ok is false if an operand is
// not available.
func evalOps(p addchain.Program) (c []*big.Int, ok bool) {
	c = []*big.Int{bi(1)}
	for _, op := range p {
		if op.I < 0 || op.J < 0 || op.I >= len(c) || op.J >= len(c) {
			return c, false
		}
		c = append(c, new(big.Int).Add(c[op.I], c[op.J]))
	}
	return c, true
}

// sameOps compares operation lists up to operand order.
func sameOps(p, q addchain.Program) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if !(p[i] == q[i] || p[i].I == q[i].J && p[i].J == q[i].I) {
			return false
		}
	}
	return true
}

func opsString(p addchain.Program) string {
	var b strings.Builder
	for i, op := range p {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%d+%d", op.I, op.J)
	}
	return b.String()
}

func parseOps(s string) addchain.Program {
	p := addchain.Program{}
	for _, f := range strings.Fields(s) {
		var op addchain.Op
		if _, err := fmt.Sscanf(f, "%d+%d", &op.I, &op.J); err != nil {
			panic("bad ops " + s)
		}
		p = append(p, op)
	}
	return p
}

// fnvInts hashes a list of small ints.
func fnvInts(xs ...int) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range xs {
		v := uint64(x)
		for k := 0; k < 3; k++ {
			h ^= v & 0xff
			h *= 1099511628211
			v >>= 8
		}
		h ^= v
		h *= 1099511628211
	}
	return h
}

func hashOps(p addchain.Program) uint64 {
	h := uint64(1469598103934665603)
	for _, op := range p {
		h ^= uint64(op.I) + 0x9e3779b9
		h *= 1099511628211
		h ^= uint64(op.J) + 0x7f4a7c15
		h *= 1099511628211
	}
	return h
}

func hashBigs(xs []*big.Int) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range xs {
		if x != nil {
			h ^= mod61(x)
			if x.Sign() < 0 {
				h ^= 1 << 63
			}
		}
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

// --- program generators -----------------------------------------------------

// randProgram generates a random valid (duplicate-free chain) program with n
// operations. Shapes vary: doubling runs, reuse of recent elements, wide reads.
func randProgram(r *rand.Rand, n int) addchain.Program {
	p := addchain.Program{}
	c := []*big.Int{bi(1)}
	seen := map[string]bool{"1": true}
	mode := r.Intn(5)
	for len(p) < n {
		k := len(c)
		var i, j int
		m := mode
		if m == 4 {
			m = r.Intn(4)
		}
		switch m {
		case 0: // uniform
			i, j = r.Intn(k), r.Intn(k)
		case 1: // star-ish
			i, j = k-1, r.Intn(k)
		case 2: // doubling runs
			i = k - 1
			j = i
			if r.Intn(4) == 0 {
				j = r.Intn(k)
			}
			if r.Intn(8) == 0 {
				i = r.Intn(k)
			}
		default: // local
			w := 4
			if w > k {
				w = k
			}
			i, j = k-1-r.Intn(w), k-1-r.Intn(w)
		}
		s := new(big.Int).Add(c[i], c[j])
		key := s.String()
		if seen[key] {
			i, j = k-1, k-1
			// Doubling the maximum is always fresh.
			for x := range c {
				if c[x].Cmp(c[i]) > 0 {
					i, j = x, x
				}
			}
			if r.Intn(2) == 0 {
				j = r.Intn(k)
			}
			s = new(big.Int).Add(c[i], c[j])
			key = s.String()
			if seen[key] {
				continue
			}
		}
		seen[key] = true
		if r.Intn(2) == 0 {
			i, j = j, i
		}
		p = append(p, addchain.Op{I: i, J: j})
		c = append(c, s)
	}
	return p
}

// enumPrograms calls f for every valid duplicate-free program with exactly n
// operations, operands i<=j, whose first operations are prefix.
func enumPrograms(prefix addchain.Program, n int, f func(p addchain.Program, c []int64)) {
	c := []int64{1}
	for _, op := range prefix {
		c = append(c, c[op.I]+c[op.J])
	}
	p := append(addchain.Program{}, prefix...)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p, c)
			return
		}
		k := len(c)
		for i := 0; i < k; i++ {
		next:
			for j := i; j < k; j++ {
				s := c[i] + c[j]
				for _, x := range c {
					if x == s {
						continue next
					}
				}
				p = append(p, addchain.Op{I: i, J: j})
				c = append(c, s)
				rec()
				p = p[:len(p)-1]
				c = c[:k]
			}
		}
	}
	rec()
}

// prefixes lists all valid programs with exactly n operations (for splitting).
func prefixes(n int) []string {
	var out []string
	enumPrograms(nil, n, func(p addchain.Program, _ []int64) { out = append(out, opsString(p)) })
	return out
}
