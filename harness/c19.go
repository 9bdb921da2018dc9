//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/mmcloughlin/addchain/internal/bigint"
	"github.com/mmcloughlin/addchain/internal/bigints"
	"github.com/mmcloughlin/addchain/internal/bigvector"
)

func init() {
	register(&Prop{
		ID: "C19",
		Rule: "Each evaluation calls one helper on one argument tuple and compares the result with an independent bitwise/list model, then checks that every argument is unchanged. " +
			"Exhaustive: integers 0..4095 with all bit ranges in [0,14], all lists over a small alphabet up to length 6 (also sorted-unique subsets), all small vectors; beyond that shaped random integers at word-size boundaries up to 4100 bits and lists up to 300 elements. " +
			"Non-trivial: distinct (function, argument) tuples with a nonempty/nonzero argument.",
		Assumptions: []string{"extract/limb/byte/set-bit helpers are specified for non-negative integers only; l<=h for ranges; InsertSortedUnique/MergeUnique/ContainsSorted are specified for sorted duplicate-free lists"},
		Gen: func(g *Gen) {
			g.Emit("wide", 65536, g.S(), g.N(2, 12))
			for lo := 0; lo < 4096; lo += 256 {
				g.Emit("ints", lo, lo+256)
			}
			g.Emit("masks", 0, g.N(70, 140))
			for _, w := range wordSizes {
				g.Emit("wide", w, g.S(), g.N(200, 3000))
			}
			g.Emit("wide", 2049, g.S(), g.N(10, 100))
			g.Emit("wide", 4100, g.S(), g.N(10, 100))
			for l := 0; l <= g.N(5, 6); l++ {
				for first := 0; first < 4; first++ {
					g.Emit("lists", l, first)
				}
			}
			g.Emit("subsets", g.N(6, 8))
			g.Blocks("randlists", g.N(64, 600), g.N(300, 1000))
			g.Blocks("parse", g.N(16, 200), g.N(1000, 3000))
			g.Blocks("vectors", g.N(16, 200), g.N(400, 1000))
		},
		Run: map[string]func(*Ctx, []string){
			"ints": c19ints, "masks": c19masks, "wide": c19wide, "int": c19int, "lists": c19lists, "list": c19listcase,
			"subsets": c19subsets, "randlists": c19randlists, "merge": c19mergecase, "parse": c19parse, "parsecase": c19parsecase, "vectors": c19vectors,
		},
		Floor: map[string]int64{"extract": 1000, "merge": 1000, "parse": 1000, "vector": 1000},
	})
}

// bitsOf is the model: bit i of x (x >= 0), by repeated halving of bytes.
func bitsOf(x *big.Int) []byte {
	b := x.Bytes()
	out := make([]byte, 0, 8*len(b))
	for i := len(b) - 1; i >= 0; i-- {
		for j := 0; j < 8; j++ {
			out = append(out, b[i]>>uint(j)&1)
		}
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

func fromBits(bs []byte) *big.Int {
	n := len(bs)
	b := make([]byte, (n+7)/8)
	for i, v := range bs {
		if v != 0 {
			b[len(b)-1-i/8] |= 1 << uint(i%8)
		}
	}
	return new(big.Int).SetBytes(b)
}

func c19ints(c *Ctx, a []string) {
	for x := atoi(a[0]); x < atoi(a[1]); x++ {
		v := fmt.Sprint(x)
		c.At(func() Case { return Case{"int", []string{v}} })
		c19one(c, bi(int64(x)))
	}
}

func c19int(c *Ctx, a []string) { c19one(c, parseBig(a[0])) }

// c19one checks all unary integer helpers on x and Extract for all (or many) ranges.
func c19one(c *Ctx, x *big.Int) {
	x0 := new(big.Int).Set(x)
	bs := bitsOf(x)
	n := len(bs)
	chk := func(what string, ok bool) {
		c.Eval(1)
		if x.Cmp(x0) != 0 {
			c.Fail("%s modified its argument %s -> %s", what, hexs(x0), hexs(x))
			x.Set(x0)
		}
		if !ok {
			c.Fail("%s wrong for x=%s", what, hexs(x))
		}
	}
	if x.Sign() > 0 {
		c.Nontrivial("x", x.Text(16))
	}
	// IsPow2
	pop := 0
	set := []int{}
	for i, b := range bs {
		if b == 1 {
			pop++
			set = append(set, i)
		}
	}
	chk("IsPow2", bigint.IsPow2(x) == (pop == 1))
	neg := new(big.Int).Neg(x)
	chk("IsPow2(negated)", !bigint.IsPow2(neg))
	got := bigint.BitsSet(x)
	chk("BitsSet", fmt.Sprint(got) == fmt.Sprint(set))
	// Pow2UpTo
	ps := bigint.Pow2UpTo(x)
	want := []*big.Int{}
	for i := 0; i < n; i++ {
		bb := make([]byte, i+1)
		bb[i] = 1
		want = append(want, fromBits(bb))
	}
	chk("Pow2UpTo", equalBigs(ps, want))
	if x.Sign() > 0 {
		chk("Pow2UpTo(negative)", len(bigint.Pow2UpTo(neg)) == 0)
	}
	// limbs
	limbs := bigint.Uint64s(x)
	ok := len(limbs) == (n+63)/64
	for i := range limbs {
		var w uint64
		for j := 0; j < 64 && 64*i+j < n; j++ {
			w |= uint64(bs[64*i+j]) << uint(j)
		}
		ok = ok && limbs[i] == w
	}
	chk("Uint64s", ok)
	by := bigint.BytesLittleEndian(x)
	ok = len(by) == (n+7)/8
	for i := range by {
		var w byte
		for j := 0; j < 8 && 8*i+j < n; j++ {
			w |= bs[8*i+j] << uint(j)
		}
		ok = ok && by[i] == w
	}
	chk("BytesLittleEndian", ok)
	chk("Clone", bigint.Clone(x).Cmp(x) == 0)
	cl := bigint.Clone(x)
	cl.Add(cl, bi(1))
	chk("Clone independence", true)
	chk("IsZero", bigint.IsZero(x) == (n == 0) && bigint.IsNonZero(x) == (n != 0) && bigint.IsZero(neg) == (n == 0))
	chk("Equal", bigint.Equal(x, new(big.Int).Set(x)) && !bigint.Equal(x, new(big.Int).Add(x, bi(1))) && (n == 0 || !bigint.Equal(x, neg)))
	if x.IsInt64() {
		v := x.Int64()
		chk("EqualInt64", bigint.EqualInt64(x, v) && !bigint.EqualInt64(x, v+1) && (v == 0 || !bigint.EqualInt64(x, -v)))
	}
	big1 := new(big.Int).Add(x, pow2(64))
	chk("EqualInt64 (65 bit)", !bigint.EqualInt64(big1, x.Int64()))
	// ones
	if n < 5000 {
		on := make([]byte, n)
		for i := range on {
			on[i] = 1
		}
		chk("Ones", bigint.Ones(uint(n)).Cmp(fromBits(on)) == 0)
	}
	if n > 1 {
		r := rand.New(rand.NewSource(int64(mod61(x))))
		for i := 0; i < 2; i++ {
			y := twin(r, x)
			chk("Equal (one bit differs)", !bigint.Equal(x, y) && !bigint.Equal(y, x))
			mn, mx := bigint.MinMax(x, y)
			if x.Cmp(y) > 0 {
				mn, mx = mx, mn
				mn2, mx2 := bigint.MinMax(y, x)
				chk("MinMax (swapped)", mn2.Cmp(y) == 0 && mx2.Cmp(x) == 0)
			}
			chk("MinMax (one bit differs)", mn.Cmp(x) == 0 && mx.Cmp(y) == 0)
		}
	}
	// MinMax
	for _, d := range []int64{-1, 0, 1} {
		y := new(big.Int).Add(x, bi(d))
		y0 := new(big.Int).Set(y)
		mn, mx := bigint.MinMax(x, y)
		lo, hi := x0, y0
		if d < 0 {
			lo, hi = y0, x0
		}
		chk("MinMax", mn.Cmp(lo) == 0 && mx.Cmp(hi) == 0 && y.Cmp(y0) == 0)
		mn, mx = bigint.MinMax(neg, y)
		if neg.Cmp(y) <= 0 {
			lo, hi = neg, y0
		} else {
			lo, hi = y0, neg
		}
		chk("MinMax(neg)", mn.Cmp(lo) == 0 && mx.Cmp(hi) == 0 && y.Cmp(y0) == 0)
	}
	// Extract
	ext := func(l, h int) {
		var w []byte
		for i := l; i < h && i < n; i++ {
			w = append(w, bs[i])
		}
		z := bigint.Extract(x, uint(l), uint(h))
		c.Count("extract", 1)
		if z.Cmp(fromBits(w)) != 0 {
			c.Fail("Extract(%s,%d,%d) = %s, want %s", hexs(x), l, h, hexs(z), hexs(fromBits(w)))
		}
		chk(fmt.Sprintf("Extract[%d,%d)", l, h), true)
	}
	if n <= 14 {
		for h := 0; h <= 14; h++ {
			for l := 0; l <= h; l++ {
				ext(l, h)
			}
		}
	} else {
		pts := []int{0, 1, n / 2, n - 1, n, n + 1, n + 64}
		for _, b := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 512} {
			pts = append(pts, b)
		}
		r := rand.New(rand.NewSource(int64(n)))
		for i := 0; i < 6; i++ {
			pts = append(pts, r.Intn(n+1))
		}
		sort.Ints(pts)
		for i := range pts {
			for j := i; j < len(pts); j++ {
				ext(pts[i], pts[j])
			}
		}
	}
	c.Sample("integer", func() string {
		return fmt.Sprintf("x=%s BitsSet=%v Uint64s=%v Bytes=%v IsPow2=%v", hexs(x), got, limbs, by, pop == 1)
	})
}

func c19masks(c *Ctx, a []string) {
	m := atoi(a[1])
	pts := []int{}
	for i := 0; i <= m; i++ {
		pts = append(pts, i)
	}
	pts = append(pts, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097)
	for _, h := range pts {
		for _, l := range pts {
			if l > h {
				continue
			}
			bs := make([]byte, h)
			for i := l; i < h; i++ {
				bs[i] = 1
			}
			c.Eval(1)
			c.Count("mask", 1)
			c.NontrivialHash(fnvInts(99, l, h))
			got := bigint.Mask(uint(l), uint(h))
			if got.Cmp(fromBits(bs)) != 0 {
				c.Fail("Mask(%d,%d) = %s", l, h, hexs(got))
			}
		}
		bs := make([]byte, h+1)
		bs[h] = 1
		if bigint.Pow2(uint(h)).Cmp(fromBits(bs)) != 0 {
			c.Fail("Pow2(%d) = %s", h, hexs(bigint.Pow2(uint(h))))
		}
		for i := 0; i < h; i++ {
			bs[i] = 1
		}
		if bigint.Ones(uint(h)).Cmp(fromBits(bs[:h])) != 0 {
			c.Fail("Ones(%d) = %s", h, hexs(bigint.Ones(uint(h))))
		}
		c.Eval(2)
	}
	// Constants must be fresh and right, even after mutation of an earlier one.
	for i := 0; i < 3; i++ {
		if bigint.One().Cmp(bi(1)) != 0 || bigint.Zero().Sign() != 0 {
			c.Fail("One/Zero wrong: %s %s", bigint.One(), bigint.Zero())
		}
		bigint.One().Add(bi(5), bi(6))
		bigint.Zero().Add(bi(5), bi(6))
		bigint.Ones(5).SetInt64(1)
		bigint.Mask(2, 5).SetInt64(1)
		bigint.Pow2(3).SetInt64(1)
	}
	if bigint.Ones(5).Int64() != 31 || bigint.Mask(2, 5).Int64() != 28 || bigint.Pow2(3).Int64() != 8 {
		c.Fail("results of mask helpers are shared")
	}
}

func c19wide(c *Ctx, a []string) {
	w, n := atoi(a[0]), atoi(a[2])
	r := rand.New(rand.NewSource(atoi64(a[1])))
	fixed := []*big.Int{pow2(w - 1), ones(w), pow2(w), new(big.Int).Add(pow2(w), bi(1))}
	for i := 0; i < n; i++ {
		var x *big.Int
		if i < len(fixed) {
			x = fixed[i]
		} else {
			x = randBits(r, w)
		}
		c.At(func() Case { return Case{"int", []string{hexs(x)}} })
		c19one(c, x)
		c.Max("max_bits", x.BitLen())
	}
}

// --- lists ---

type listModel []*big.Int

func less(x, y *big.Int) bool { return x.Cmp(y) < 0 }

// msort is an insertion sort model.
func msort(xs []*big.Int) []*big.Int {
	out := []*big.Int{}
	for _, x := range xs {
		i := len(out)
		out = append(out, nil)
		for i > 0 && less(x, out[i-1]) {
			out[i] = out[i-1]
			i--
		}
		out[i] = x
	}
	return out
}

func sortedUnique(xs []*big.Int) []*big.Int {
	out := []*big.Int{}
	for _, x := range msort(xs) {
		if len(out) == 0 || out[len(out)-1].Cmp(x) != 0 {
			out = append(out, x)
		}
	}
	return out
}

// withSlack returns a copy of xs whose backing array has spare capacity filled
// with sentinels, to observe writes beyond the slice, and a checker.
func withSlack(xs []*big.Int) ([]*big.Int, func() bool) {
	sent := bi(-7777)
	buf := make([]*big.Int, len(xs)+4)
	copy(buf, xs)
	for i := len(xs); i < len(buf); i++ {
		buf[i] = sent
	}
	ptrs := append([]*big.Int{}, buf...)
	vals := cloneBigs(buf)
	return buf[:len(xs)], func() bool {
		for i := range buf {
			if buf[i] != ptrs[i] || buf[i].Cmp(vals[i]) != 0 {
				return false
			}
		}
		return true
	}
}

func c19list(c *Ctx, vals []*big.Int) {
	if len(vals) > 0 {
		c.Nontrivial("list", joinBig(vals))
	}
	xs, same := withSlack(vals)
	chk := func(what string, ok bool) {
		c.Eval(1)
		if !same() {
			c.Fail("%s modified its arguments, list [%s]", what, joinBig(vals))
		}
		if !ok {
			c.Fail("%s wrong for list [%s]", what, joinBig(vals))
		}
	}
	// Sort works in place on a copy.
	ys, _ := withSlack(vals)
	bigints.Sort(ys)
	chk("Sort", equalBigs(ys, msort(vals)))
	// Unique
	want := []*big.Int{}
	for i, x := range vals {
		if i == 0 || vals[i-1].Cmp(x) != 0 {
			want = append(want, x)
		}
	}
	u := bigints.Unique(xs)
	chk("Unique", equalBigs(u, want))
	// Membership
	probes := append(cloneBigs(vals), bi(0), bi(1), bi(2), bi(3), bi(4), bi(5), bi(-1), pow2(64), new(big.Int).Add(pow2(64), bi(1)))
	if len(vals) > 40 {
		probes = append(cloneBigs(vals[:10]), probes[len(vals)-10:]...)
	}
	su := sortedUnique(vals)
	srt := msort(vals)
	if len(vals) > 0 {
		// Numbers that differ from an element in one bit.
		r := rand.New(rand.NewSource(int64(hashBigs(vals))))
		for i := 0; i < 3; i++ {
			probes = append(probes, twin(r, vals[r.Intn(len(vals))]))
		}
	}
	for _, q := range probes {
		idx := -1
		for i, x := range vals {
			if x.Cmp(q) == 0 {
				idx = i
				break
			}
		}
		got := bigints.Index(q, xs)
		ok := got == idx
		if idx >= 0 && got >= 0 && got < len(vals) && vals[got].Cmp(q) == 0 {
			ok = true // the position of any occurrence
		}
		chk("Index("+hexs(q)+")", ok)
		chk("Contains("+hexs(q)+")", bigints.Contains(q, xs) == (idx >= 0))
		c.Eval(2)
		if bigints.ContainsSorted(q, su) != (idx >= 0) {
			c.Fail("ContainsSorted(%s,[%s]) wrong", hexs(q), joinBig(su))
		}
		if bigints.ContainsSorted(q, srt) != (idx >= 0) {
			c.Fail("ContainsSorted(%s,[%s]) wrong", hexs(q), joinBig(srt))
		}
		// Sorted insertion.
		zs, zsame := withSlack(su)
		q0 := new(big.Int).Set(q)
		ins := bigints.InsertSortedUnique(zs, q)
		c.Eval(1)
		c.Count("insert", 1)
		if !equalBigs(ins, sortedUnique(append(append([]*big.Int{}, su...), q))) {
			c.Fail("InsertSortedUnique([%s],%s) = [%s]", joinBig(su), hexs(q), joinBig(ins))
		}
		if !zsame() || q.Cmp(q0) != 0 {
			c.Fail("InsertSortedUnique([%s],%s) modified its arguments", joinBig(su), hexs(q))
		}
	}
	// Clone, Concat
	cl := bigints.Clone(xs)
	chk("Clone", equalBigs(cl, vals))
	cl = append(cl, bi(-5))
	cl[0] = bi(-6)
	_ = cl
	chk("Clone (result written)", true)
	other, osame := withSlack(su)
	cc := bigints.Concat(xs, other)
	chk("Concat", equalBigs(cc, append(append([]*big.Int{}, vals...), su...)))
	chk("Concat (second argument)", osame())
	// Int64s
	if len(vals) > 0 && len(vals) < 10 {
		is := []int64{}
		ok := true
		for _, v := range vals {
			if !v.IsInt64() {
				ok = false
				break
			}
			is = append(is, v.Int64())
		}
		if ok {
			chk("Int64s", equalBigs(bigints.Int64s(is...), vals))
		}
	}
}

func c19listcase(c *Ctx, a []string) { c19list(c, splitBig(a[0])) }

func c19lists(c *Ctx, a []string) {
	l, first := atoi(a[0]), atoi(a[1])
	alpha := []*big.Int{bi(1), bi(2), bi(3), pow2(64)}
	if l == 0 {
		if first == 0 {
			c19list(c, []*big.Int{})
		}
		return
	}
	cur := make([]*big.Int, l)
	cur[0] = alpha[first]
	var rec func(i int)
	rec = func(i int) {
		if c.Stop() {
			return
		}
		if i == l {
			v := append([]*big.Int{}, cur...)
			c.At(func() Case { return Case{"list", []string{joinBig(v)}} })
			c19list(c, v)
			return
		}
		for _, x := range alpha {
			cur[i] = x
			rec(i + 1)
		}
	}
	rec(1)
}

func c19merge(c *Ctx, a, b []*big.Int) {
	xs, s1 := withSlack(a)
	ys, s2 := withSlack(b)
	got := bigints.MergeUnique(xs, ys)
	c.Eval(1)
	c.Count("merge", 1)
	if len(a)+len(b) > 0 {
		c.Nontrivial("merge", joinBig(a), joinBig(b))
	}
	if !equalBigs(got, sortedUnique(append(append([]*big.Int{}, a...), b...))) {
		c.Fail("MergeUnique([%s],[%s]) = [%s]", joinBig(a), joinBig(b), joinBig(got))
	}
	if !s1() || !s2() {
		c.Fail("MergeUnique([%s],[%s]) modified its arguments", joinBig(a), joinBig(b))
	}
	c.Sample("merge", func() string { return fmt.Sprintf("[%s] [%s]", joinBig(a), joinBig(b)) })
}

func c19mergecase(c *Ctx, a []string) { c19merge(c, splitBig(a[0]), splitBig(a[1])) }

func c19subsets(c *Ctx, a []string) {
	n := uint(atoi(a[0]))
	univ := []*big.Int{bi(1), bi(2), bi(3), bi(5), pow2(63), pow2(64), new(big.Int).Add(pow2(64), bi(1)), pow2(128)}[:n]
	sub := func(m int) []*big.Int {
		out := []*big.Int{}
		for i := uint(0); i < n; i++ {
			if m>>i&1 == 1 {
				out = append(out, new(big.Int).Set(univ[i]))
			}
		}
		return out
	}
	for i := 0; i < 1<<n; i++ {
		for j := 0; j < 1<<n; j++ {
			x, y := sub(i), sub(j)
			c.At(func() Case { return Case{"merge", []string{joinBig(x), joinBig(y)}} })
			c19merge(c, x, y)
		}
	}
}

func c19randlists(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := r.Intn(12)
		switch r.Intn(20) {
		case 0:
			n = 60 + r.Intn(240)
		case 1, 2, 3:
			n = 12 + r.Intn(40)
		}
		bits := 1 + r.Intn(1+r.Intn(200))
		if r.Intn(8) == 0 {
			bits = 200 + r.Intn(500)
		}
		mk := func(n int) []*big.Int {
			xs := []*big.Int{}
			for len(xs) < n {
				if len(xs) > 0 && r.Intn(4) == 0 {
					y := xs[r.Intn(len(xs))]
					if r.Intn(2) == 0 {
						y = xs[len(xs)-1]
					}
					y = new(big.Int).Set(y)
					switch r.Intn(4) {
					case 0:
						y.Add(y, bi(1))
					case 1:
						y = twin(r, y)
					}
					xs = append(xs, y)
					continue
				}
				xs = append(xs, randSmallish(r, bits))
			}
			return xs
		}
		v := mk(n)
		if n <= 60 {
			c.At(func() Case { return Case{"list", []string{joinBig(v)}} })
			c19list(c, v)
		} else {
			ys := append([]*big.Int{}, v...)
			bigints.Sort(ys)
			c.Eval(1)
			if !equalBigs(ys, msort(v)) {
				c.Fail("Sort wrong on a list of %d elements [%s]", n, joinBig(v))
			}
		}
		x, y := sortedUnique(v), sortedUnique(mk(r.Intn(n+3)))
		if r.Intn(3) == 0 && len(x) > 0 {
			// overlapping
			k := r.Intn(len(x))
			y = sortedUnique(append(y, x[k:]...))
		}
		c.At(func() Case { return Case{"merge", []string{joinBig(x), joinBig(y)}} })
		c19merge(c, x, y)
		c.Max("max_list", n)
	}
}

func c19parse(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]); i++ {
		base := 16
		if r.Intn(2) == 0 {
			base = 2
		}
		digits := "0123456789abcdef"
		if base == 2 {
			digits = "01"
		} else if r.Intn(4) == 0 {
			digits = "0123456789ABCDEFabcdef"
		}
		n := 1 + r.Intn(1+r.Intn(150))
		var b strings.Builder
		for j := 0; j < n; j++ {
			if j > 0 && r.Intn(5) == 0 {
				b.WriteString(strings.Repeat("_", 1+r.Intn(2)))
			}
			b.WriteByte(digits[r.Intn(len(digits))])
		}
		s := b.String()
		if r.Intn(8) == 0 {
			bad := "gxz .-+/:@GZ"
			if base == 2 {
				bad += "23456789af"
			}
			p := 1 + r.Intn(len(s))
			s = s[:p] + string(bad[r.Intn(len(bad))]) + s[p:]
		}
		c.At(func() Case { return Case{"parsecase", []string{fmt.Sprint(base), s}} })
		c19parseone(c, base, s)
	}
}

func c19parsecase(c *Ctx, a []string) { c19parseone(c, atoi(a[0]), a[1]) }

func c19parseone(c *Ctx, base int, s string) {
	want := new(big.Int)
	valid := true
	for _, ch := range []byte(s) {
		var d int
		switch {
		case ch == '_':
			continue
		case ch >= '0' && ch <= '9':
			d = int(ch - '0')
		case ch >= 'a' && ch <= 'f':
			d = int(ch-'a') + 10
		case ch >= 'A' && ch <= 'F':
			d = int(ch-'A') + 10
		default:
			d = 99
		}
		if d >= base {
			valid = false
			break
		}
		want.Mul(want, bi(int64(base)))
		want.Add(want, bi(int64(d)))
	}
	f, name := bigint.Hex, "Hex"
	mf := bigint.MustHex
	if base == 2 {
		f, name, mf = bigint.Binary, "Binary", bigint.MustBinary
	}
	x, ok := f(s)
	c.Eval(1)
	c.Count("parse", 1)
	c.Nontrivial("parse", name, s)
	if ok != valid || ok && x.Cmp(want) != 0 {
		c.Fail("%s(%q) = %v,%v want %v,%v", name, s, x, ok, want, valid)
	}
	if valid {
		if y := mf(s); y.Cmp(want) != 0 {
			c.Fail("Must%s(%q) = %v want %v", name, s, y, want)
		}
	} else {
		c.Count("parse-invalid", 1)
	}
	c.Sample("parse", func() string { return fmt.Sprintf("%s(%q)=%v", name, s, want) })
}

func c19vectors(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]); i++ {
		n := 1 + r.Intn(9)
		if r.Intn(20) == 0 {
			n = 10 + r.Intn(100)
		}
		type pair struct {
			v bigvector.Vector
			m []*big.Int
		}
		check := func(p pair, what string) bool {
			c.Eval(1)
			c.Count("vector", 1)
			if p.v.Len() != n {
				c.Fail("%s: length %d want %d", what, p.v.Len(), n)
				return false
			}
			for k := 0; k < n; k++ {
				if p.v.Idx(k).Cmp(p.m[k]) != 0 {
					c.Fail("%s: component %d = %s want %s (n=%d)", what, k, hexs(p.v.Idx(k)), hexs(p.m[k]), n)
					return false
				}
			}
			return true
		}
		zero := func() []*big.Int {
			m := make([]*big.Int, n)
			for k := range m {
				m[k] = bi(0)
			}
			return m
		}
		pool := []pair{{bigvector.New(n), zero()}}
		for k := 0; k < n && k < 6; k++ {
			j := k
			if n > 6 {
				j = r.Intn(n)
			}
			m := zero()
			m[j] = bi(1)
			pool = append(pool, pair{bigvector.NewBasis(n, j), m})
		}
		var trace strings.Builder
		for k := 0; k < 12; k++ {
			u, v := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			m := make([]*big.Int, n)
			if r.Intn(2) == 0 {
				for q := range m {
					m[q] = new(big.Int).Add(u.m[q], v.m[q])
				}
				pool = append(pool, pair{bigvector.Add(u.v, v.v), m})
				trace.WriteString("A")
			} else {
				s := r.Intn(5)
				if r.Intn(4) == 0 {
					s = r.Intn(130)
				}
				for q := range m {
					m[q] = new(big.Int).Mul(u.m[q], pow2(s))
				}
				pool = append(pool, pair{bigvector.Lsh(u.v, uint(s)), m})
				fmt.Fprintf(&trace, "L%d", s)
			}
			// All earlier vectors must be as they were (immutability).
			for _, p := range pool {
				if !check(p, "after "+trace.String()) {
					return
				}
			}
		}
		last := pool[len(pool)-1]
		c.NontrivialHash(hashBigs(last.m) ^ uint64(n))
		// Mismatched lengths must not silently give a result.
		func() {
			defer func() { recover() }()
			w := bigvector.Add(bigvector.New(n), bigvector.New(n+1))
			c.Fail("Add of vectors of lengths %d and %d returned length %d", n, n+1, w.Len())
		}()
	}
}
