//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/dict"
)

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "Each evaluation derives the runs chain of one valid chain of lengths and checks with the exact definition that it is a valid addition chain containing 2^l-1 for every l. " +
			"Exhaustive: every duplicate-free valid length chain with up to 8 (thorough 9) additions in every order; random dense/sparse/reordered length chains with lengths up to ~2500 and, structured, to 65545; chains with a length >= 2^64 (at the end, in the middle, in any order) must give an error. " +
			"Non-trivial: distinct length chains with at least 3 elements.",
		Assumptions: []string{"lengths that fit a machine word but whose runs do not fit in memory are not driven"},
		Gen: func(g *Gen) {
			for n := 0; n <= g.N(8, 9); n++ {
				for _, p := range prefixes(min(n, 3)) {
					g.Emit("valid", n, p)
				}
			}
			g.Blocks("random", g.N(320, 4000), g.N(25, 60))
			g.Blocks("big", g.N(32, 300), g.N(2, 4))
			g.Blocks("huge", g.N(16, 100), g.N(40, 60))
			g.Emit("seq", "1,2,4,8,16,32,64,128,256,512,1024,2048,4096")
			g.Emit("seq", "1,2,3,6,12,24,48,96,192,384,768,1536,3072,6144,3075,9219")
			g.Emit("seq", "1,2,4,5,9,18,36,72,144,288,576,1152,2304,4608,4609")
			// Past 16 bits: half a gigabyte each.
			g.Emit("seq", "1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,65537,65545")
			if g.Thorough() {
				g.Emit("seq", "1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,8193")
				g.Emit("seq", "1,2,3,6,12,24,48,96,192,384,768,1536,3072,6144,12288,24576,24577,49154,98308,98309")
			}
		},
		Run: map[string]func(*Ctx, []string){
			"valid": c11valid, "seq": func(c *Ctx, a []string) { c11check(c, splitBig(a[0])) },
			"random": c11random, "big": c11big, "huge": c11huge,
		},
		Floor: map[string]int64{"refused": 100, "nonascending": 1000, "shifts": 1000},
	})
}

func c11check(c *Ctx, lc []*big.Int) {
	c.At(seqCase(lc))
	c.Eval(1)
	keep := cloneBigs(lc)
	huge := false
	for _, l := range lc {
		if !l.IsUint64() {
			huge = true
		}
	}
	out, err := dict.RunsChain(addchain.Chain(append([]*big.Int{}, lc...)))
	if !equalBigs(keep, lc) {
		c.Fail("RunsChain([%s]) modified its input", joinBig(keep))
		return
	}
	if huge {
		c.Count("refused", 1)
		c.NontrivialHash(hashBigs(lc))
		if err == nil {
			c.Fail("RunsChain([%s]) accepted lengths that do not fit a machine word (result of %d elements)", joinBig(lc), len(out))
		}
		return
	}
	if err != nil {
		c.Fail("RunsChain([%s]): %v", joinBig(lc), err)
		return
	}
	if e := chainErr(out); e != "" {
		c.Fail("RunsChain([%s]) = [%s]: %s", joinBig(lc), joinBig(out), e)
		return
	}
	have := map[uint64][]*big.Int{}
	for _, x := range out {
		h := mod61(x)
		have[h] = append(have[h], x)
	}
	for _, l := range lc {
		run, found := ones(int(l.Int64())), false
		for _, x := range have[mod61(run)] {
			found = found || x.Cmp(run) == 0
		}
		if !found {
			c.Fail("RunsChain([%s]) = [%s]: run of length %s missing", joinBig(lc), joinBig(out), l)
			return
		}
	}
	if c.evals%32 == 0 && len(out) <= 100 {
		c.KeepBigs(func() string { return "RunsChain([" + joinBig(keep) + "])" }, out)
	}
	c.Count("shifts", len(out)-len(lc))
	c.Count("elements", len(out))
	for i := 1; i < len(lc); i++ {
		if lc[i].Cmp(lc[i-1]) < 0 {
			c.Count("nonascending", 1)
			break
		}
	}
	if len(lc) >= 3 {
		c.NontrivialHash(hashBigs(lc))
	}
	if len(lc) >= 3 && len(out) < 100 {
		c.Sample("runs", func() string { return fmt.Sprintf("[%s] -> [%s]", joinBig(lc), joinBig(out)) })
	}
	c.Max("max_length_value", int(msort(lc)[len(lc)-1].Int64()))
	c.Max("max_output", len(out))
}

func c11valid(c *Ctx, a []string) {
	enumPrograms(parseOps(a[1]), atoi(a[0]), func(p addchain.Program, v []int64) {
		if c.Stop() {
			return
		}
		s := make([]*big.Int, len(v))
		for i := range v {
			s[i] = bi(v[i])
		}
		c11check(c, s)
	})
}

// boundedChain returns a random valid chain with elements up to m, in one of
// several orders.
func boundedChain(r *rand.Rand, m int64, n int) []*big.Int {
	s := []int64{1}
	seen := map[int64]bool{1: true}
	mode := r.Intn(3)
	for tries := 0; len(s) < n && tries < 20*n; tries++ {
		i, j := r.Intn(len(s)), r.Intn(len(s))
		if mode == 1 {
			i = len(s) - 1
		}
		if mode == 2 && r.Intn(2) == 0 {
			i = len(s) - 1
			j = i
		}
		v := s[i] + s[j]
		if v > m || seen[v] {
			continue
		}
		seen[v] = true
		s = append(s, v)
	}
	out := []*big.Int{}
	for _, v := range s {
		out = append(out, bi(v))
	}
	switch r.Intn(3) {
	case 0:
		return msort(out)
	case 1:
		if len(out) < 30 {
			return reorder(r, out)
		}
	}
	return out
}

func c11random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		if r.Intn(4) == 0 {
			c11check(c, denseSmall(r, 2+r.Intn(40)))
			continue
		}
		c11check(c, boundedChain(r, int64(2+r.Intn(150)), 2+r.Intn(30)))
	}
}

// denseSmall is denseChain without the doubling tail.
func denseSmall(r *rand.Rand, m int) []*big.Int {
	for {
		s := denseChain(r, m)
		if msort(s)[len(s)-1].Cmp(bi(200)) < 0 {
			return s
		}
	}
}

func c11big(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		c11check(c, boundedChain(r, int64(300+r.Intn(2200)), 4+r.Intn(14)))
	}
}

func c11huge(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		// Reach beyond 64 bits quickly; reject only after is fine for the code, but
		// it must be an error.
		s := []*big.Int{bi(1)}
		for s[len(s)-1].BitLen() <= 64+r.Intn(30) || s[len(s)-1].BitLen() <= 64 {
			x := s[len(s)-1]
			y := x
			if r.Intn(8) == 0 {
				y = s[r.Intn(len(s))]
			}
			z := new(big.Int).Add(x, y)
			s = append(s, z)
		}
		switch r.Intn(4) {
		case 0: // some small elements after the huge one
			s = append(s, bi(3))
			s = sortedTailUnique(s)
		case 1:
			if len(s) < 80 {
				s = reorder(r, s)
			}
		case 2: // exactly at the boundary
			s = s[:0]
			for k := 0; k <= 64; k++ {
				s = append(s, pow2(k))
			}
		}
		if chainErr(s) != "" {
			continue
		}
		c11check(c, s)
	}
}

// sortedTailUnique drops a repeated final element.
func sortedTailUnique(s []*big.Int) []*big.Int {
	last := s[len(s)-1]
	for _, x := range s[:len(s)-1] {
		if x.Cmp(last) == 0 {
			return s[:len(s)-1]
		}
	}
	return s
}
