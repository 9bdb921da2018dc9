//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain/alg/dict"
)

func init() {
	register(&Prop{
		ID: "C09",
		Rule: "Each evaluation decomposes one integer with one (method, K, T) and checks the resulting terms bit by bit: positive digits, strictly increasing exponents, disjoint bit ranges, exact sum, per-method shape, sorted distinct dictionary, target unmodified. " +
			"Exhaustive: x < 2^13 (thorough 2^17) for K in 1..9, T in 0..10; structured and random integers up to 2100 bits with K,T chosen around the run lengths and word sizes, and unbounded K/T (up to 2^64-1). " +
			"Non-trivial: distinct (x, method, K, T) with at least two terms.",
		Gen: func(g *Gen) {
			n := g.N(1<<13, 1<<17)
			for lo := 1; lo < n; lo += 256 {
				g.Emit("small", lo, lo+256)
			}
			g.Blocks("random", g.N(320, 3200), g.N(250, 400))
			for _, n := range []int{4096, 8191, 32768, 65535, 65536, 65537, 65600} {
				g.Emit("wide", n, g.S())
			}
			g.Blocks("runs", g.N(256, 2400), g.N(200, 400))
		},
		Run: map[string]func(*Ctx, []string){
			"small": c09small, "one": c09case, "random": c09random, "wide": c09wide, "runs": c09runs,
		},
		Floor: map[string]int64{"terms": 10000, "long-run-terms": 1000, "multi": 1000},
	})
}

func c09case(c *Ctx, a []string) {
	var k, t uint64
	fmt.Sscan(a[2], &k)
	fmt.Sscan(a[3], &t)
	c09check(c, parseBig(a[0]), a[1], uint(k), uint(t))
}

func decomposer(m string, K, T uint) dict.Decomposer {
	switch m {
	case "fixed":
		return dict.FixedWindow{K: K}
	case "sliding":
		return dict.SlidingWindow{K: K}
	case "run":
		return dict.RunLength{T: T}
	}
	return dict.Hybrid{K: K, T: T}
}

func allOnes(d *big.Int) bool {
	n := d.BitLen()
	for i := 0; i < n; i++ {
		if d.Bit(i) == 0 {
			return false
		}
	}
	return n > 0
}

func c09check(c *Ctx, x *big.Int, m string, K, T uint) {
	c.At(func() Case { return Case{"one", []string{hexs(x), m, fmt.Sprint(K), fmt.Sprint(T)}} })
	c.Eval(1)
	x0 := new(big.Int).Set(x)
	s := decomposer(m, K, T).Decompose(x)
	desc := func() string {
		str := ""
		for i, t := range s {
			if i > 0 {
				str += " + "
			}
			str += fmt.Sprintf("%s<<%d", hexs(t.D), t.E)
		}
		return fmt.Sprintf("%s(K=%d,T=%d).Decompose(%s) = %s", m, K, T, hexs(x0), str)
	}
	if x.Cmp(x0) != 0 {
		c.Fail("%s: target modified to %s", desc(), hexs(x))
		return
	}
	sum := new(big.Int)
	top := uint(0)
	for i, t := range s {
		c.Count("terms", 1)
		if t.D == nil || t.D.Sign() <= 0 {
			c.Fail("%s: digit %d not positive", desc(), i)
			return
		}
		if i > 0 && t.E <= s[i-1].E {
			c.Fail("%s: exponents not strictly increasing at %d", desc(), i)
			return
		}
		if i > 0 && t.E < top {
			c.Fail("%s: bit ranges overlap at term %d", desc(), i)
			return
		}
		n := uint(t.D.BitLen())
		top = t.E + n
		if top > uint(x0.BitLen()) {
			c.Fail("%s: term %d exceeds the target", desc(), i)
			return
		}
		sum.Add(sum, new(big.Int).Lsh(t.D, t.E))
		ti := t.Int()
		if ti.Cmp(new(big.Int).Mul(t.D, pow2(int(t.E)))) != 0 {
			c.Fail("%s: Term.Int of term %d is %s", desc(), i, hexs(ti))
		}
		odd := t.D.Bit(0) == 1
		ok := true
		switch m {
		case "fixed":
			ok = n <= K
		case "sliding":
			ok = odd && n <= K
		case "run":
			ok = allOnes(t.D) && (T == 0 || n <= T)
		case "hybrid":
			run := allOnes(t.D) && n > K && (T == 0 || n <= T)
			if run {
				c.Count("long-run-terms", 1)
			}
			ok = odd && (n <= K || run)
		}
		if !ok {
			c.Fail("%s: term %d has the wrong shape", desc(), i)
			return
		}
	}
	if sum.Cmp(x0) != 0 {
		c.Fail("%s: terms sum to %s", desc(), hexs(sum))
	}
	if si := s.Int(); si.Cmp(x0) != 0 {
		c.Fail("%s: Sum.Int() = %s", desc(), hexs(si))
	}
	ds := []*big.Int{}
	for _, t := range s {
		ds = append(ds, t.D)
	}
	keep := cloneBigs(ds)
	d := s.Dictionary()
	if c.evals%16 == 0 && len(s) < 100 {
		c.KeepBigs(func() string { return desc() + " and Dictionary" }, d)
		c.Keep(desc, func() string { return sumString(s) })
	}
	if !equalBigs(d, sortedUnique(keep)) {
		c.Fail("%s: Dictionary() = [%s]", desc(), joinBig(d))
	}
	if len(s) != len(keep) {
		c.Fail("%s: Dictionary changed the sum", desc())
	}
	for i, t := range s {
		if t.D.Cmp(keep[i]) != 0 {
			c.Fail("%s: Dictionary changed term %d", desc(), i)
		}
	}
	if len(s) > 1 {
		c.Count("multi", 1)
		h := hashBigs([]*big.Int{x0}) ^ fnvInts(len(m), int(K), int(T))
		c.NontrivialHash(h)
	}
	c.Max("max_bits", x0.BitLen())
	c.Max("max_terms", len(s))
	if len(s) > 2 {
		c.Sample(m, desc)
	}
	// Shuffled sums sort back.
	if len(s) > 2 && x0.Bit(3) == 1 {
		q := append(dict.Sum{}, s...)
		r := rand.New(rand.NewSource(int64(len(s))))
		r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		if q.Int().Cmp(x0) != 0 {
			c.Fail("%s: Sum.Int depends on term order", desc())
		}
		dd := q.Dictionary()
		if !equalBigs(dd, sortedUnique(keep)) {
			c.Fail("%s: Dictionary of reordered sum = [%s]", desc(), joinBig(dd))
		}
		q.SortByExponent()
		for i := range q {
			if q[i].E != s[i].E || q[i].D.Cmp(s[i].D) != 0 {
				c.Fail("%s: SortByExponent wrong at %d", desc(), i)
				break
			}
		}
	}
}

func c09all(c *Ctx, x *big.Int, ks, ts []uint) {
	for _, k := range ks {
		c09check(c, x, "fixed", k, 0)
		c09check(c, x, "sliding", k, 0)
		for _, t := range ts {
			c09check(c, x, "hybrid", k, t)
		}
	}
	for _, t := range ts {
		c09check(c, x, "run", 0, t)
	}
}

func c09small(c *Ctx, a []string) {
	ks, ts := []uint{}, []uint{0}
	for k := uint(1); k <= 9; k++ {
		ks = append(ks, k)
	}
	for t := uint(1); t <= 10; t++ {
		ts = append(ts, t)
	}
	for v := atoi(a[0]); v < atoi(a[1]) && !c.Stop(); v++ {
		c09all(c, bi(int64(v)), ks, ts)
	}
}

func pickSize(r *rand.Rand) uint {
	switch r.Intn(6) {
	case 0:
		return uint(1 + r.Intn(4))
	case 1:
		return uint(wordSizes[r.Intn(len(wordSizes))])
	case 2:
		return []uint{1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2}[r.Intn(7)]
	default:
		return uint(1 + r.Intn(1+r.Intn(130)))
	}
}

func c09random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 1 + r.Intn(1+r.Intn(600))
		if r.Intn(3) == 0 {
			n = wordSizes[r.Intn(len(wordSizes))]
		}
		if r.Intn(100) == 0 {
			n = 2000 + r.Intn(100)
		}
		x := randBits(r, n)
		ks := []uint{pickSize(r), pickSize(r)}
		ts := []uint{0, pickSize(r), pickSize(r)}
		c09all(c, x, ks, ts)
	}
}

// c09wide decomposes integers whose exponents and run lengths pass 16 bits.
func c09wide(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[1])))
	n := atoi(a[0])
	for _, x := range []*big.Int{randBits(r, n), ones(n), new(big.Int).Add(pow2(n-1), bi(1)), new(big.Int).Sub(pow2(n), pow2(n/2))} {
		if c.Stop() {
			return
		}
		c09all(c, x, []uint{uint(2 + r.Intn(30)), uint(n - 2 + r.Intn(4))}, []uint{0, uint(1 + r.Intn(40)), uint(n - 3 + r.Intn(4))})
	}
}

// c09runs builds integers out of runs with lengths around K and T.
func c09runs(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		K := 1 + r.Intn(1+r.Intn(40))
		T := 0
		if r.Intn(4) != 0 {
			T = 1 + r.Intn(1+r.Intn(80))
		}
		x := new(big.Int)
		for j := 0; j < 1+r.Intn(8); j++ {
			base := []int{K, T, K + T, 2 * T, 2 * K, 1, 3 * T}[r.Intn(7)]
			l := base + r.Intn(3) - 1
			if l < 1 {
				l = 1
			}
			if l > 250 {
				l = 250
			}
			gap := r.Intn(4)
			if r.Intn(3) == 0 {
				gap = K + r.Intn(3) - 1
			}
			if x.Sign() > 0 && gap == 0 && r.Intn(2) == 0 {
				gap = 1
			}
			x.Lsh(x, uint(gap))
			x.Lsh(x, uint(l))
			x.Or(x, ones(l))
		}
		x.Lsh(x, uint(r.Intn(3)))
		c09all(c, x, []uint{uint(K)}, []uint{uint(T), 0})
	}
}

func sumString(s dict.Sum) string {
	var b strings.Builder
	for _, t := range s {
		fmt.Fprintf(&b, "%x<<%d ", t.D, t.E)
	}
	return b.String()
}
