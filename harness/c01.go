//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "Each evaluation executes one algorithm configuration on one target through exec.Execute and decides the result from the operation list alone (start 1, no repeats, one operation per element, sums exact, end n), then repeats it (large targets: one in four) on a fresh instance and through FindChain directly and compares; the target must be unmodified. " +
			"Exhaustive: every n up to 1536 (thorough 20000) for all ensemble algorithms, n up to 300 for a list of other configurations (within documented sizes). Generated: targets to 1100 bits (runs and gaps at the K/T boundaries, repeated windows, sparse, dense, word boundaries) with random dictionary/run/sequence configurations, cryptographic exponents with the whole ensemble. " +
			"Non-trivial: distinct (target, algorithm) whose chain has at least 4 elements.",
		Assumptions: []string{"strategies documented as not for large inputs are run only on small ones (total 36, dyadic 6000, fermat 300000)", "window sizes K >= 1"},
		Gen: func(g *Gen) {
			// Long ones first, for load balance.
			ne := len(ensemble.Ensemble())
			targets := append([]*big.Int{}, cryptoTargets...)
			if g.Thorough() {
				for _, n := range wordSizes {
					targets = append(targets, ones(n), pow2(n), new(big.Int).Add(pow2(n), bi(1)))
				}
			}
			for _, n := range targets {
				step := 25
				for lo := 0; lo < ne; lo += step {
					g.Emit("ensemble", hexs(n), lo, lo+step)
				}
			}
			for _, bits := range []int{1500, 2047, 2048, 2049, 2500, 3072, g.N(3500, 6000), g.N(4096, 8192)} {
				for v := 0; v < 6; v++ {
					g.Emit("large", bits, v, bits*10+v)
				}
			}
			g.Blocks("random", g.N(16, 400), g.N(6, 30), 600, 1100)
			g.Blocks("random", g.N(64, 1600), g.N(20, 80), 130, 600)
			g.Blocks("random", g.N(256, 6400), g.N(150, 400), 1, 130)
			g.Blocks("random", g.N(96, 2400), g.N(500, 1000), 1, 40)
			g.Blocks("history", g.N(96, 1600), g.N(10, 40))
			g.Blocks("ensemblerandom", g.N(96, 1600), 1, 100)
			for n := 1; n <= g.N(1536, 20000); n += 16 {
				g.Emit("small", n, n+16)
			}
			for n := 1; n <= g.N(300, 2000); n += 20 {
				g.Emit("others", n, n+20)
			}
		},
		Run: map[string]func(*Ctx, []string){
			"one":      func(c *Ctx, a []string) { c01one(c, parseBig(a[0]), a[1]) },
			"small":    c01small,
			"others":   c01others,
			"ensemble": c01ensemble,
			"ensemblerandom": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				n := randTarget(r, 12+r.Intn(atoi(a[2])), 1+r.Intn(8), 16<<uint(r.Intn(4)))
				c01ensemble(c, []string{hexs(n), "0", "100000"})
			},
			"random":  c01random,
			"history": c01history,
			"hist1": func(c *Ctx, a []string) {
				c01instance(c, a[0], splitBig(a[1]))
			},
			"large": c01large,
		},
		Floor: map[string]int64{"history-runs": 500, "ensemble-runs": 1000, "dict-runs": 1000, "runs-runs": 500, "seq-runs": 200, "binary-runs": 200},
	})
}

func c01one(c *Ctx, n *big.Int, spec string) {
	c.At(func() Case { return Case{"one", []string{hexs(n), spec}} })
	c.Eval(1)
	kind := strings.TrimPrefix(spec, "opt:")
	if i := strings.IndexByte(kind, ':'); i >= 0 {
		kind = kind[:i]
	}
	if kind == "e" {
		kind = "ensemble"
	}
	c.Count(kind+"-runs", 1)
	n0 := new(big.Int).Set(n)
	a := mkAlg(spec)
	res := exec.Execute(n, a)
	if n.Cmp(n0) != 0 {
		c.Fail("%s on %s modified the target to %s", spec, hexs(n0), hexs(n))
		n.Set(n0)
	}
	if res.Err != nil {
		c.Fail("%s (%s) on %s: error %v", spec, a, hexs(n), res.Err)
		return
	}
	if e := certErr(res.Chain, res.Program); e != "" {
		c.Fail("%s (%s) on %s: %s; chain [%s] ops %s", spec, a, hexs(n), e, joinBig(res.Chain), opsString(res.Program))
		return
	}
	if res.Chain.End().Cmp(n) != 0 || res.Chain[len(res.Chain)-1].Cmp(n) != 0 {
		c.Fail("%s (%s) on %s: chain ends at %s", spec, a, hexs(n), hexs(res.Chain.End()))
	}
	c.Count("elements", len(res.Chain))
	c.Max("max_length", len(res.Chain))
	c.Max("max_bits", n.BitLen())
	if len(res.Chain) >= 4 {
		c.Nontrivial(string(n.Bytes()), spec)
	}
	keep := cloneBigs(res.Chain)
	if c.evals%8 == 0 && n.BitLen() <= 300 {
		what := func() string { return spec + " on " + hexs(n0) }
		c.KeepBigs(what, res.Chain)
		c.Keep(what, func() string { return opsString(res.Program) })
	}
	// Again: fresh instance through Execute, and the same instance directly.
	if c.Tier != "thorough" && n.BitLen() > 200 && (c.evals%4) != 0 {
		return
	}
	c.Count("repeated-runs", 1)
	again := exec.Execute(n, mkAlg(spec))
	if again.Err != nil || !equalBigs(again.Chain, keep) {
		c.Fail("%s on %s is not reproducible: [%s] then [%s] (%v)", spec, hexs(n), joinBig(keep), joinBig(again.Chain), again.Err)
		return
	}
	if !sameOps(again.Program, res.Program) && len(certErr(again.Chain, again.Program)) > 0 {
		c.Fail("%s on %s: second run's operations %s do not reproduce [%s]", spec, hexs(n), opsString(again.Program), joinBig(keep))
	}
	if n.BitLen() <= 200 {
		direct, err := a.FindChain(n)
		if err != nil || !equalBigs(direct, keep) {
			c.Fail("%s on %s is not reproducible on the same instance: [%s] then [%s] (%v)", spec, hexs(n), joinBig(keep), joinBig(direct), err)
		}
	}
	if n.Cmp(n0) != 0 {
		c.Fail("%s on %s modified the target to %s", spec, hexs(n0), hexs(n))
		n.Set(n0)
	}
	if len(keep) > 6 {
		c.Sample(kind, func() string {
			return fmt.Sprintf("%s on %s: chain [%s] ops %s", spec, hexs(n), joinBig(keep), opsString(res.Program))
		})
	}
}

func c01ensemble(c *Ctx, a []string) {
	n := parseBig(a[0])
	ne := len(ensemble.Ensemble())
	for i := atoi(a[1]); i < atoi(a[2]) && i < ne && !c.Stop(); i++ {
		c01one(c, n, fmt.Sprintf("e:%d", i))
	}
}

func c01small(c *Ctx, a []string) {
	for n := atoi(a[0]); n < atoi(a[1]); n++ {
		c01ensemble(c, []string{fmt.Sprint(n), "0", "100000"})
	}
}

func c01others(c *Ctx, a []string) {
	var specs []string
	for _, s := range allSeqs {
		specs = append(specs, "seq:"+s, "runs:"+s, "opt:seq:"+s)
		for k := 1; k <= 4; k++ {
			specs = append(specs, fmt.Sprintf("dict:fixed:%d:0:%s", k, s), fmt.Sprintf("dict:sliding:%d:0:%s", k, s))
		}
		if seqLimit(s) == 0 {
			for t := 0; t <= 3; t++ {
				specs = append(specs, fmt.Sprintf("dict:run:0:%d:%s", t, s))
				for k := 1; k <= 3; k++ {
					specs = append(specs, fmt.Sprintf("dict:hybrid:%d:%d:%s", k, t, s))
				}
			}
		}
	}
	specs = append(specs, "binary", "opt:binary", "opt:opt:binary")
	for n := atoi(a[0]); n < atoi(a[1]); n++ {
		for _, s := range specs {
			if c.Stop() {
				return
			}
			if strings.Contains(s, "seq:cf.total") && n > 36 {
				continue
			}
			c01one(c, bi(int64(n)), s)
		}
	}
}

// c01large drives targets of thousands of bits with the algorithms that stay
// feasible there.
func c01large(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[2])))
	bits := atoi(a[0])
	spec := []string{"binary", "dict:sliding:5:0:h.hd", "dict:fixed:6:0:h.hd", "dict:run:0:0:cf.dichotomic", "dict:hybrid:5:32:h.hd", "runs:h.hd"}[atoi(a[1])]
	n := randTarget(r, bits, 5, 32)
	if r.Intn(2) == 0 { // few, long runs: dictionary entries at high positions
		n = new(big.Int)
		for n.BitLen() < bits {
			l := 1 + r.Intn(bits/3)
			n.Lsh(n, uint(l+1+r.Intn(bits/4)))
			n.Or(n, ones(l))
		}
	}
	if n.Sign() == 0 {
		n = bi(1)
	}
	c01one(c, n, spec)
	c.Count("large-runs", 1)
}

// related returns numbers that a cache might confuse with each other.
func related(r *rand.Rand, n *big.Int, k int, ok func(*big.Int) bool) []*big.Int {
	xs := []*big.Int{n}
	for tries := 0; len(xs) < k && tries < 10*k; tries++ {
		x := new(big.Int).Set(xs[r.Intn(len(xs))])
		switch r.Intn(9) {
		case 0: // again
		case 1:
			x.Add(x, bi(int64(1+r.Intn(3))))
		case 2:
			x = twin(r, x)
		case 3:
			x.Rsh(x, uint(1+r.Intn(x.BitLen())))
		case 4:
			x.Lsh(x, uint(1+r.Intn(4)))
			x.Add(x, bi(int64(r.Intn(2))))
		case 5:
			x = randBits(r, x.BitLen())
		case 6: // same low word
			if x.BitLen() > 64 {
				x.And(x, ones(64))
			} else {
				x.Sub(x, bi(1))
			}
		case 7:
			x.SetBit(x, r.Intn(x.BitLen()), 1)
		default:
			x = randBits(r, 1+r.Intn(n.BitLen()))
		}
		if x.Sign() > 0 && x.BitLen() <= n.BitLen()+8 && ok(x) {
			xs = append(xs, x)
		}
	}
	return xs
}

// c01history runs one instance on a history of targets.
func c01history(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	ne := len(ensemble.Ensemble())
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		bits := 2 + r.Intn(1+r.Intn(200))
		spec, K, T := randAlg(r, bits)
		if r.Intn(3) == 0 {
			spec, K, T = fmt.Sprintf("e:%d", r.Intn(ne)), 1+r.Intn(8), 16<<uint(r.Intn(4))
		}
		n := randTarget(r, bits, K, T)
		limit := int64(0)
		if f := strings.Split(spec, ":"); strings.Contains(spec, "seq:") {
			limit = seqLimit(f[len(f)-1])
		}
		ok := func(x *big.Int) bool { return limit == 0 || x.Cmp(bi(limit)) <= 0 }
		if n.Sign() <= 0 || !ok(n) {
			n = bi(int64(2 + r.Intn(30)))
		}
		c01instance(c, spec, related(r, n, 3+r.Intn(6), ok))
	}
}

// c01instance gives the targets to one instance: through one integer object
// that the caller changes in between (chains may refer to it), or through an
// object each (then chains must stay as they are).
func c01instance(c *Ctx, spec string, targets []*big.Int) {
	c.At(func() Case { return Case{"hist1", []string{spec, joinBig(targets)}} })
	a := mkAlg(spec)
	n := new(big.Int)
	shared := len(targets)%2 == 0
	type run struct {
		got  addchain.Chain
		want []*big.Int
	}
	var runs []run
	for k, t := range targets {
		c.Eval(1)
		c.Count("history-runs", 1)
		fresh, err := mkAlg(spec).FindChain(new(big.Int).Set(t))
		if err != nil {
			c.Fail("%s on %s: error %v", spec, hexs(t), err)
			return
		}
		if !shared {
			n = new(big.Int)
		}
		got, err := a.FindChain(n.Set(t))
		if err != nil || !equalBigs(got, fresh) || n.Cmp(t) != 0 {
			c.Fail("%s on %s after %d other targets [%s]: [%s] (%v), a fresh instance gives [%s]", spec, hexs(t), k, joinBig(targets[:k]), joinBig(got), err, joinBig(fresh))
			return
		}
		if e := chainErr(got); e != "" || got.End().Cmp(t) != 0 {
			c.Fail("%s on %s: %s; chain [%s]", spec, hexs(t), e, joinBig(got))
			return
		}
		if !shared {
			runs = append(runs, run{got, cloneBigs(fresh)})
		}
		for j, q := range runs {
			if !equalBigs(q.got, q.want) {
				c.Fail("%s: the chain for %s became [%s] after the target %s", spec, hexs(targets[j]), joinBig(q.got), hexs(t))
				return
			}
		}
	}
}

func c01random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	lo, hi := atoi(a[2]), atoi(a[3])
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		bits := lo + r.Intn(hi-lo)
		if r.Intn(6) == 0 {
			w := wordSizes[r.Intn(len(wordSizes))]
			if w >= lo && w <= hi {
				bits = w
			}
		}
		spec, K, T := randAlg(r, bits)
		n := randTarget(r, bits, K, T)
		if n.Sign() == 0 {
			n = bi(1)
		}
		if strings.Contains(spec, "seq:") { // small-input algorithms
			f := strings.Split(spec, ":")
			if l := seqLimit(f[len(f)-1]); l > 0 && n.Cmp(bi(l)) > 0 {
				continue
			}
		}
		c01one(c, n, spec)
	}
}
