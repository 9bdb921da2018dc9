//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/mmcloughlin/addchain/alg"
)

func init() {
	register(&Prop{
		ID: "C08",
		Rule: "Each evaluation runs one continued-fraction strategy or heuristic composition on one list of positive integers and decides from the returned sequence alone: valid addition chain by definition, every requested value present, caller's integers unchanged; a composition without total heuristic may report an error instead. " +
			"Exhaustive: every list of length <= 3 over 1..12, length 4 over 1..7, every subset of 1..13 in a random order, for 12 total compositions, 7 strategies, 4 partial compositions. Generated: lists up to 300 elements and 600 bits (dictionaries of odd windows, consecutive, doubled, Fibonacci, runs, close pairs, repeats, unsorted). " +
			"Non-trivial: distinct (list, algorithm) with at least two distinct values.",
		Assumptions: []string{"strategies documented as not for large inputs are run only on small values (total 36, dyadic 6000, fermat 300000); heuristics that never halve take time proportional to the largest gap and are run on values up to 5000", "reordering the caller's slice is not a change of its integer values"},
		Gen: func(g *Gen) {
			g.Blocks("random", g.N(96, 800), g.N(16, 40), 200, 600, 12)
			g.Blocks("random", g.N(400, 3200), g.N(120, 300), 20, 200, 20)
			g.Blocks("random", g.N(640, 6400), g.N(300, 500), 1, 20, 24)
			g.Blocks("random", g.N(48, 400), g.N(5, 10), 8, 64, 300)
			g.Blocks("history", g.N(64, 640), g.N(30, 100))
			for a := 1; a <= 12; a++ {
				g.Emit("enum", a, 3, 12)
			}
			for a := 1; a <= g.N(7, 9); a++ {
				g.Emit("enum", a, 4, g.N(7, 9))
			}
			if g.Thorough() {
				for a := 1; a <= 7; a++ {
					g.Emit("enum", a, 5, 7)
				}
			}
			n := g.N(13, 16)
			for lo := 1; lo < 1<<uint(n); lo += 256 {
				g.Emit("subsets", g.S(), lo, lo+256, n)
			}
		},
		Run: map[string]func(*Ctx, []string){
			"one":     func(c *Ctx, a []string) { c08one(c, splitBig(a[0]), a[1]) },
			"enum":    c08enum,
			"random":  c08random,
			"history": c08history,
			"hist1": func(c *Ctx, a []string) {
				var lists [][]*big.Int
				for _, l := range a[1:] {
					lists = append(lists, splitBig(l))
				}
				c08instance(c, a[0], lists)
			},
			"subsets": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for m := atoi(a[1]); m < atoi(a[2]) && !c.Stop(); m++ {
					var ts []*big.Int
					for i := 0; i < atoi(a[3]); i++ {
						if m>>uint(i)&1 == 1 {
							ts = append(ts, bi(int64(i+1)))
						}
					}
					r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
					if len(ts) > 0 {
						c08all(c, ts)
					}
				}
			},
		},
		Floor: map[string]int64{"history-runs": 1000, "heuristic": 10000, "contfrac": 10000, "partial-error": 100, "partial-success": 100, "unsorted": 1000, "repeats": 1000},
	})
}

func c08all(c *Ctx, ts []*big.Int) {
	max := bi(0)
	for _, t := range ts {
		if t.Cmp(max) > 0 {
			max = t
		}
	}
	for _, s := range allSeqs {
		if l := seqLimit(s); l > 0 && max.Cmp(bi(l)) > 0 {
			continue
		}
		if s == "cf.total" && len(ts) > 4 && max.Cmp(bi(20)) > 0 {
			continue
		}
		c08one(c, ts, s)
	}
	for _, h := range partialHeuristics {
		c08one(c, ts, "h."+h)
	}
}

func c08one(c *Ctx, in []*big.Int, spec string) {
	orig := cloneBigs(in)
	c.At(func() Case { return Case{"one", []string{joinBig(orig), spec}} })
	c.Eval(1)
	partial := false
	for _, h := range partialHeuristics {
		partial = partial || spec == "h."+h
	}
	if strings.HasPrefix(spec, "h.") {
		c.Count("heuristic", 1)
	} else {
		c.Count("contfrac", 1)
	}
	distinct := map[string]bool{}
	for i, t := range in {
		k := string(t.Bytes())
		if distinct[k] {
			c.Count("repeats", 1)
		}
		distinct[k] = true
		if i > 0 && in[i-1].Cmp(t) > 0 {
			c.Count("unsorted", 1)
		}
	}
	if len(distinct) > 1 {
		c.NontrivialHash(hashBigs(in) ^ fnvInts(len(spec), int(spec[len(spec)-1]), int(spec[2]), int(spec[3%len(spec)])))
	}
	var a alg.SequenceAlgorithm = mkSeq(spec)
	// Hand over a private slice of private integers, with spare capacity that
	// must not matter.
	ts := make([]*big.Int, 0, len(in)+3)
	ts = append(ts, cloneBigs(in)...)
	ptrs := append([]*big.Int{}, ts...)
	ch, err := a.FindSequence(ts)
	desc := func() string { return fmt.Sprintf("%s (%s) on [%s]", spec, a, joinBig(orig)) }
	if !equalBigs(ptrs, orig) {
		c.Fail("%s changed the caller's integers to [%s]", desc(), joinBig(ptrs))
	}
	if !equalBigs(msort(ts), msort(orig)) {
		c.Fail("%s changed the caller's list to [%s]", desc(), joinBig(ts))
	}
	if err != nil {
		if partial {
			c.Count("partial-error", 1)
			return
		}
		c.Fail("%s: error %v", desc(), err)
		return
	}
	if partial {
		c.Count("partial-success", 1)
	}
	if c.evals%16 == 0 && len(ch) <= 200 {
		c.KeepBigs(desc, ch)
	}
	if e := chainErr(ch); e != "" {
		c.Fail("%s gave [%s]: %s", desc(), joinBig(ch), e)
		return
	}
	for _, t := range orig {
		found := false
		for _, x := range ch {
			if x.Cmp(t) == 0 {
				found = true
				break
			}
		}
		if !found {
			c.Fail("%s gave [%s] without %s", desc(), joinBig(ch), hexs(t))
			return
		}
	}
	c.Max("max_chain", len(ch))
	c.Max("max_targets", len(in))
	if len(in) > 2 {
		c.Sample(spec[:2], func() string { return desc() + " gave [" + joinBig(ch) + "]" })
	}
}

// c08history gives one instance several related lists.
func c08history(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		spec := allSeqs[r.Intn(len(allSeqs))]
		limit := seqLimit(spec)
		bits := 2 + r.Intn(1+r.Intn(150))
		if limit > 0 {
			bits = min(bits, bi(limit).BitLen())
		}
		ok := func(x *big.Int) bool { return limit == 0 || x.Cmp(bi(limit)) <= 0 }
		n := randBits(r, bits)
		if n.Sign() <= 0 || !ok(n) {
			n = bi(int64(2 + r.Intn(30)))
		}
		m := 1 + r.Intn(6)
		if spec == "cf.total" {
			m = min(m, 3)
		}
		base := related(r, n, m, ok)
		lists := [][]*big.Int{base}
		for k := 1 + r.Intn(5); k > 0; k-- {
			l := cloneBigs(lists[r.Intn(len(lists))])
			j := r.Intn(len(l))
			switch r.Intn(4) {
			case 0: // the same set in another order
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			case 1: // one value changed
				xs := related(r, l[j], 2, ok)
				l[j] = xs[len(xs)-1]
			case 2: // shorter
				l = l[:1+j]
			default: // longer
				if len(l) < m+2 {
					l = append(l, related(r, l[j], 2, ok)...)
				}
			}
			lists = append(lists, l)
		}
		c08instance(c, spec, lists)
	}
}

func c08instance(c *Ctx, spec string, lists [][]*big.Int) {
	c.At(func() Case {
		a := []string{spec}
		for _, l := range lists {
			a = append(a, joinBig(l))
		}
		return Case{"hist1", a}
	})
	inst := mkSeq(spec)
	var got [][]*big.Int
	var want [][]*big.Int
	// The caller's integers, used again or not.
	shared := len(lists)%2 == 0
	buf := make([]*big.Int, 64)
	for k, l := range lists {
		c.Eval(1)
		c.Count("history-runs", 1)
		for i := range buf {
			if k == 0 || !shared {
				buf[i] = new(big.Int)
			}
		}
		ts := append([]*big.Int{}, buf[:len(l)]...)
		for i := range l {
			ts[i].Set(l[i])
		}
		ch, err := inst.FindSequence(ts)
		if err != nil {
			c.Fail("%s on [%s]: error %v", spec, joinBig(l), err)
			return
		}
		if e := chainErr(ch); e != "" {
			c.Fail("%s on [%s] gave [%s]: %s", spec, joinBig(l), joinBig(ch), e)
			return
		}
		for i, t := range l {
			found := false
			for _, x := range ch {
				found = found || x.Cmp(t) == 0
			}
			if !found || buf[i].Cmp(t) != 0 {
				c.Fail("%s on [%s] gave [%s] without %s, or changed it", spec, joinBig(l), joinBig(ch), hexs(t))
				return
			}
		}
		fresh, err := mkSeq(spec).FindSequence(cloneBigs(l))
		if err != nil || chainErr(fresh) != "" {
			c.Fail("%s on [%s] gave [%s], %v", spec, joinBig(l), joinBig(fresh), err)
			return
		}
		got, want = append(got, ch), append(want, cloneBigs(ch))
		if shared {
			continue // chains may refer to the caller's integers
		}
		for j := range got {
			if !equalBigs(got[j], want[j]) {
				c.Fail("%s on [%s]: the result changed to [%s] after the list [%s]", spec, joinBig(lists[j]), joinBig(got[j]), joinBig(l))
				return
			}
		}
	}
}

func c08enum(c *Ctx, a []string) {
	L, m := atoi(a[1]), atoi(a[2])
	ts := []*big.Int{bi(atoi64(a[0]))}
	var rec func()
	rec = func() {
		if c.Stop() {
			return
		}
		c08all(c, ts)
		if len(ts) == L {
			return
		}
		for v := 1; v <= m; v++ {
			ts = append(ts, bi(int64(v)))
			rec()
			ts = ts[:len(ts)-1]
		}
	}
	rec()
}

func c08random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	lo, hi, size := atoi(a[2]), atoi(a[3]), atoi(a[4])
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 1 + r.Intn(1+r.Intn(size))
		if size > 100 {
			n = size/2 + r.Intn(size/2)
		}
		bits := lo + r.Intn(hi-lo+1)
		spec := allSeqs[r.Intn(len(allSeqs))]
		if r.Intn(10) == 0 {
			spec = "h." + partialHeuristics[r.Intn(len(partialHeuristics))]
		}
		max := seqLimit(spec)
		if max > 0 {
			if b := bi(max).BitLen(); bits > b {
				bits = b
			}
		}
		if size > 100 && bits > 24 {
			bits = 24 + r.Intn(8)
		}
		var ts []*big.Int
		add := func(x *big.Int) {
			if x.Sign() > 0 && (max == 0 || x.Cmp(bi(max)) <= 0) {
				ts = append(ts, new(big.Int).Set(x))
			}
		}
		mode := r.Intn(8)
		base := randBits(r, bits)
		f0, f1 := bi(1), bi(int64(1+r.Intn(3)))
		for len(ts) < n {
			k := len(ts)
			switch mode {
			case 0: // odd windows
				add(new(big.Int).Or(randBits(r, 1+r.Intn(min(bits, 12))), bi(1)))
			case 1: // consecutive
				base.Add(base, bi(int64(r.Intn(3))))
				add(base)
			case 2: // doubled, plus or minus a little
				base.Lsh(base, uint(r.Intn(3)))
				base.Add(base, bi(int64(r.Intn(5)-2)))
				if base.Sign() <= 0 || base.BitLen() > bits+8 {
					base = randBits(r, 1+r.Intn(bits))
				}
				add(base)
			case 3: // Fibonacci like
				f0.Add(f0, f1)
				f0, f1 = f1, f0
				if f1.BitLen() > bits {
					f0, f1 = bi(1), bi(int64(1+r.Intn(50)))
				}
				add(f1)
			case 4: // runs
				add(ones(1 + r.Intn(bits)))
			case 5: // relations with earlier ones
				if k == 0 || r.Intn(3) == 0 {
					add(randBits(r, 1+r.Intn(bits)))
					break
				}
				x, y := ts[r.Intn(k)], ts[r.Intn(k)]
				switch r.Intn(4) {
				case 0:
					add(x)
				case 1:
					add(new(big.Int).Add(x, y))
				case 2:
					add(new(big.Int).Sub(x, y))
				default:
					add(new(big.Int).Rsh(x, 1))
				}
				if r.Intn(3) == 0 {
					add(bi(int64(1 + r.Intn(4))))
				}
			default:
				add(randBits(r, 1+r.Intn(bits)))
			}
			if len(ts) == k { // rejected: make progress
				add(bi(int64(1 + r.Intn(30))))
			}
		}
		if r.Intn(4) == 0 {
			ts = append(ts, bi(1))
		}
		if r.Intn(4) == 0 {
			ts = append(ts, bi(2))
		}
		if r.Intn(3) != 0 {
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		}
		if spec == "cf.total" && len(ts) > 6 {
			ts = ts[:6]
		}
		c08one(c, ts, spec)
	}
}
