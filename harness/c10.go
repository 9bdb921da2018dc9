//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/opt"
)

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "Each evaluation optimises one valid chain and checks with the exact definition that the result is a valid chain, a subsequence of the input with the same first and last element, and that the input (length, pointers, values) is untouched. " +
			"Exhaustive: every duplicate-free valid chain with up to 8 (thorough 9) additions in every element order; plus dense redundant chains in ascending and random valid orders, doubling-run chains, random chains up to 300 elements, unions of chains for different targets, chains of numbers of equal size that differ in one middle bit (70 to 430 bits), raw algorithm outputs and opt.Algorithm wrappers. " +
			"Non-trivial: distinct input chains from which at least one element was removed.",
		Gen: func(g *Gen) {
			for n := 0; n <= g.N(8, 9); n++ {
				for _, p := range prefixes(min(n, 3)) {
					g.Emit("valid", n, p)
				}
			}
			g.Blocks("dense", g.N(240, 4000), g.N(120, 300))
			g.Blocks("long", g.N(24, 120), 1)
			g.Blocks("random", g.N(128, 1600), g.N(40, 100))
			g.Blocks("union", g.N(160, 2400), g.N(25, 60))
			g.Blocks("twins", g.N(64, 600), g.N(10, 30))
			g.Blocks("wrapped", g.N(48, 400), g.N(10, 40))
		},
		Run: map[string]func(*Ctx, []string){
			"valid": c10valid, "seq": func(c *Ctx, a []string) { c10check(c, splitBig(a[0])) },
			"dense": c10dense, "random": c10random, "union": c10union, "long": c10long, "wrapped": c10wrapped, "twins": c10twins,
		},
		Floor: map[string]int64{"removed": 1000, "nonascending": 1000, "wrapped": 100},
	})
}

func c10check(c *Ctx, s []*big.Int) {
	c.At(seqCase(s))
	c.Eval(1)
	in, same := withSlack(s)
	out, err := opt.Optimize(addchain.Chain(in))
	if !same() {
		c.Fail("Optimize modified its input [%s]", joinBig(s))
		return
	}
	if err != nil {
		c.Fail("Optimize([%s]) failed: %v", joinBig(s), err)
		return
	}
	c10verify(c, s, out, "Optimize")
	if c.evals%32 == 0 && len(s) <= 100 {
		c.KeepBigs(func() string { return "Optimize([" + joinBig(s) + "])" }, out)
	}
}

func c10verify(c *Ctx, s, out []*big.Int, what string) {
	if e := chainErr(out); e != "" {
		c.Fail("%s([%s]) = [%s]: not a valid chain: %s", what, joinBig(s), joinBig(out), e)
		return
	}
	i := 0
	for _, x := range out {
		for i < len(s) && s[i].Cmp(x) != 0 {
			i++
		}
		if i == len(s) {
			c.Fail("%s([%s]) = [%s]: not a subsequence", what, joinBig(s), joinBig(out))
			return
		}
		i++
	}
	if out[len(out)-1].Cmp(s[len(s)-1]) != 0 || out[0].Cmp(s[0]) != 0 || len(out) > len(s) {
		c.Fail("%s([%s]) = [%s]: ends differ", what, joinBig(s), joinBig(out))
		return
	}
	for i := 1; i < len(s); i++ {
		if s[i].Cmp(s[i-1]) < 0 {
			c.Count("nonascending", 1)
			break
		}
	}
	if len(out) < len(s) {
		c.Count("removed", len(s)-len(out))
		c.NontrivialHash(hashBigs(s))
		c.Sample("optimised", func() string { return fmt.Sprintf("[%s] -> [%s]", joinBig(s), joinBig(out)) })
	} else {
		c.Count("unchanged", 1)
	}
	c.Max("max_length", len(s))
}

func c10valid(c *Ctx, a []string) {
	enumPrograms(parseOps(a[1]), atoi(a[0]), func(p addchain.Program, v []int64) {
		if c.Stop() {
			return
		}
		s := make([]*big.Int, len(v))
		for i := range v {
			s[i] = bi(v[i])
		}
		c10check(c, s)
	})
}

func c10dense(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := denseChain(r, 2+r.Intn(60))
		c10check(c, s)
		// Cut at a random place: other last elements.
		c10check(c, s[:1+r.Intn(len(s))])
		if len(s) <= 26 {
			c10check(c, reorder(r, s))
		}
	}
}

func c10random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 1 + r.Intn(60)
		if r.Intn(15) == 0 {
			n = 100 + r.Intn(200)
		}
		c10check(c, randChain(r, n))
	}
}

// c10long optimises long chains in which one element is needed by hundreds of
// others, or has hundreds of decompositions.
func c10long(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	switch r.Intn(3) {
	case 0:
		s := denseChain(r, 200+r.Intn(400))
		c10check(c, s)
		c10check(c, s[:len(s)-1-r.Intn(len(s)/2)])
	case 1:
		c10check(c, msort(randChain(r, 500+r.Intn(700))))
	default: // multiples of a few values added one after another
		s := []*big.Int{bi(1), bi(2), bi(3)}
		for len(s) < 300+r.Intn(400) {
			x := new(big.Int).Add(s[len(s)-1], s[r.Intn(3)])
			if r.Intn(80) == 0 {
				x.Add(s[len(s)-1], s[len(s)-1])
			}
			s = append(s, x)
		}
		c10check(c, s)
	}
}

// c10twins optimises chains of large numbers that differ in one middle bit.
func c10twins(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := twinChain(r)
		c10check(c, s)
		c10check(c, s[:len(s)-1-r.Intn(3)])
	}
}

// c10union merges chains of related targets, giving large redundant chains of
// big integers; the union of ascending chains is an ascending chain.
func c10union(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		bits := 4 + r.Intn(90)
		x := randBits(r, bits)
		all := []*big.Int{bi(1), bi(2)}
		for k := 0; k < 1+r.Intn(3); k++ {
			y := new(big.Int).Set(x)
			if k > 0 {
				y.Rsh(y, uint(r.Intn(bits)))
				if y.Sign() == 0 {
					continue
				}
			}
			var ch addchain.Chain
			var err error
			switch r.Intn(4) {
			case 0:
				ch, err = binary.RightToLeft{}.FindChain(y)
			case 1:
				ch, err = contfrac.NewAlgorithm(contfrac.DichotomicStrategy{}).FindSequence([]*big.Int{new(big.Int).Set(y)})
			case 2:
				ch, err = contfrac.NewAlgorithm(contfrac.BinaryStrategy{}).FindSequence([]*big.Int{new(big.Int).Set(y)})
			default:
				ch, err = dict.NewAlgorithm(dict.SlidingWindow{K: uint(1 + r.Intn(6))}, contfrac.NewAlgorithm(contfrac.DichotomicStrategy{})).FindChain(y)
			}
			if err != nil {
				c.Count("generator-errors", 1)
				continue
			}
			all = append(all, ch...)
		}
		s := sortedUnique(all)
		if chainErr(s) != "" {
			c.Count("generator-invalid", 1)
			continue
		}
		c10check(c, s)
		if len(s) > 4 {
			c10check(c, s[:len(s)-1-r.Intn(3)])
		}
	}
}

// fixedAlg returns a fixed chain, to observe the wrapper.
type fixedAlg struct {
	c   addchain.Chain
	err error
}

func (f fixedAlg) FindChain(*big.Int) (addchain.Chain, error) { return f.c, f.err }
func (f fixedAlg) String() string                             { return "fixed" }

func c10wrapped(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := randChain(r, 1+r.Intn(50))
		end := new(big.Int).Set(s[len(s)-1])
		e0 := new(big.Int).Set(end)
		in, same := withSlack(s)
		c.Eval(1)
		c.At(func() Case { return Case{"seq", []string{joinBig(s)}} })
		var alg alg.ChainAlgorithm = opt.Algorithm{Algorithm: fixedAlg{c: in}}
		out, err := alg.FindChain(end)
		if err != nil || !same() || end.Cmp(e0) != 0 {
			c.Fail("opt.Algorithm on chain [%s]: err=%v or modified its input", joinBig(s), err)
			continue
		}
		c10verify(c, s, out, "opt.Algorithm")
		c.Count("wrapped", 1)
		// Real algorithm.
		x := randSmallish(r, 200)
		inner := dict.NewAlgorithm(dict.RunLength{T: uint(r.Intn(9))}, contfrac.NewAlgorithm(contfrac.CoBinaryStrategy{}))
		raw, err := inner.FindChain(new(big.Int).Set(x))
		if err != nil {
			continue
		}
		out, err = opt.Algorithm{Algorithm: inner}.FindChain(new(big.Int).Set(x))
		if err != nil {
			c.Fail("opt.Algorithm(%s).FindChain(%s): %v", inner, hexs(x), err)
			continue
		}
		c10verify(c, raw, out, "opt.Algorithm("+inner.String()+")")
		c.Count("wrapped", 1)
	}
}
