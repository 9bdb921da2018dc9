//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/mmcloughlin/addchain"
)

func init() {
	register(&Prop{
		ID: "C02",
		Rule: "Each evaluation feeds one integer sequence to Validate/Program/Produces/Superset/IsAscending and Ops/Op at every position and compares with the definition (quadratic pair enumeration over exact integers). " +
			"Exhaustive: all sequences up to length 6 (thorough 7) over {-1,0,1,..,6} starting anywhere, all duplicate-free valid chains with up to 6 (8) additions in every order; plus mutants (swap, off-by-one, duplicate, zero, negative, deletion, big offset) of random chains up to 400 (some ascending ones 2200) elements and values of thousands of bits, and chains of 70- to 430-bit numbers of equal size that differ in one middle bit, intact and with one element replaced by such a twin. " +
			"Non-trivial: distinct sequences of length >= 2.",
		Assumptions: []string{"sequences contain no nil pointers", "the order in which Ops lists the pairs is unspecified"},
		Gen: func(g *Gen) {
			L := g.N(6, 7)
			for l := 0; l <= L; l++ {
				if l < 3 {
					g.Emit("enum", l, "")
					continue
				}
				for a := -1; a <= 6; a++ {
					for b := -1; b <= 6; b++ {
						if l > 6 && a != 1 {
							continue
						}
						g.Emit("enum", l, fmt.Sprintf("%d,%d", a, b))
					}
				}
			}
			for n := 0; n <= g.N(6, 8); n++ {
				for _, p := range prefixes(min(n, 3)) {
					g.Emit("valid", n, p)
				}
			}
			g.Blocks("mutants", g.N(160, 1600), g.N(60, 200))
			g.Blocks("long", g.N(24, 200), g.N(4, 10))
			g.Blocks("twins", g.N(64, 400), g.N(4, 20))
			g.Blocks("longer", g.N(8, 60), g.N(1, 2))
		},
		Run: map[string]func(*Ctx, []string){
			"enum": c02enum, "valid": c02valid, "seq": func(c *Ctx, a []string) { c02check(c, splitBig(a[0])) }, "mutants": c02mutants, "long": c02long, "longer": c02longer, "twins": c02twins,
		},
		Floor: map[string]int64{"valid": 1000, "invalid": 1000, "ops-multiple": 1000, "ops-nonascending-prefix": 1000, "twin-chains": 100},
	})
}

func seqCase(s []*big.Int) func() Case {
	return func() Case { return Case{"seq", []string{joinBig(s)}} }
}

func c02check(c *Ctx, s []*big.Int) {
	c.Eval(1)
	n := len(s)
	ch := addchain.Chain(append([]*big.Int{}, s...))
	orig := cloneBigs(s)
	bad := chainErr(s)
	valid := bad == ""
	if n >= 2 {
		c.NontrivialHash(hashBigs(s))
	}
	same := func(what string) {
		if !equalBigs(s, orig) || !equalBigs(ch, orig) {
			c.Fail("%s modified the sequence [%s]", what, joinBig(orig))
		}
	}
	if err := ch.Validate(); (err == nil) != valid {
		c.Fail("Validate([%s]) = %v, definition says %q", joinBig(s), err, bad)
	}
	same("Validate")
	p, err := ch.Program()
	same("Program")
	if (err == nil) != valid {
		c.Fail("Program([%s]) error %v, definition says %q", joinBig(s), err, bad)
	}
	if err == nil && valid {
		c.Count("valid", 1)
		if e := certErr(ch, p); e != "" {
			c.Fail("Program([%s]) = %s: %s", joinBig(s), opsString(p), e)
		} else {
			ev := p.Evaluate()
			if c.evals%32 == 0 && n <= 60 {
				c.Keep(func() string { return "Program([" + joinBig(orig) + "])" }, func() string { return opsString(p) })
				c.KeepBigs(func() string { return "Program([" + joinBig(orig) + "]).Evaluate()" }, ev)
			}
			if !equalBigs(ev, s) {
				c.Fail("Program([%s]).Evaluate() = [%s]", joinBig(s), joinBig(ev))
			}
		}
	} else {
		c.Count("invalid", 1)
	}

	// Ascending.
	asc := n > 0 && s[0].Cmp(bi(1)) == 0
	for i := 1; i < n; i++ {
		asc = asc && s[i].Cmp(s[i-1]) > 0
	}
	if ch.IsAscending() != asc {
		c.Fail("IsAscending([%s]) = %v", joinBig(s), !asc)
	}
	same("IsAscending")

	// Produces.
	probes := []*big.Int{bi(1), bi(0), bi(2)}
	if n > 100 {
		// Validation is cubic for chains out of order: fewer probes.
		probes = []*big.Int{s[n-1], s[n-2]}
		if s[n-1].Sign() > 0 {
			probes = append(probes, twin(rand.New(rand.NewSource(int64(mod61(s[n-1])))), s[n-1]))
		}
	} else if n > 0 {
		probes = append(probes, new(big.Int).Set(s[n-1]), new(big.Int).Add(s[n-1], bi(1)), s[0], s[n/2])
		if n > 1 {
			probes = append(probes, s[n-2])
		}
		probes = append(probes, new(big.Int).Add(s[n-1], pow2(64)), new(big.Int).Neg(s[n-1]))
	}
	for _, t := range probes {
		want := valid && n > 0 && s[n-1].Cmp(t) == 0
		if err := ch.Produces(t); (err == nil) != want {
			c.Fail("Produces([%s], %s) = %v, want success=%v", joinBig(s), hexs(t), err, want)
		}
	}
	same("Produces")
	// Superset.
	has := func(t *big.Int) bool {
		for _, x := range s {
			if x.Cmp(t) == 0 {
				return true
			}
		}
		return false
	}
	sets := [][]*big.Int{{}, nil}
	if n > 100 {
		sets = [][]*big.Int{{s[n-1], s[n/2], s[1]}, {bi(-5)}}
		for _, t := range probes[2:] {
			sets = append(sets, []*big.Int{s[0], t})
		}
	}
	for i, t := range probes {
		if n > 100 {
			break
		}
		sets = append(sets, []*big.Int{t}, []*big.Int{probes[(i+3)%len(probes)], t}, []*big.Int{t, t, probes[(i+1)%len(probes)], bi(1)})
	}
	if n > 0 && n <= 100 {
		rev := []*big.Int{}
		for i := n - 1; i >= 0; i-- {
			rev = append(rev, new(big.Int).Set(s[i]))
		}
		sets = append(sets, rev, append(append([]*big.Int{}, rev...), bi(-5)), append([]*big.Int{pow2(3000)}, rev...))
	}
	for _, ts := range sets {
		want := valid
		for _, t := range ts {
			want = want && has(t)
		}
		keep := cloneBigs(ts)
		if err := ch.Superset(ts); (err == nil) != want {
			c.Fail("Superset([%s], [%s]) = %v, want success=%v", joinBig(s), joinBig(ts), err, want)
		}
		if !equalBigs(keep, ts) {
			c.Fail("Superset modified its targets")
		}
	}
	same("Superset")

	// Ops at every position (or many, for long sequences).
	h := make([]uint64, n)
	for i, x := range s {
		h[i] = mod61(x)
	}
	t := new(big.Int)
	pre := n > 0 && s[0].Cmp(bi(1)) == 0
	step := 1
	if n > 130 {
		step = 1 + n/60
	}
	for k := 0; k < n; k++ {
		if k >= 2 && s[k-1].Cmp(s[k-2]) <= 0 {
			pre = false
		}
		if step > 1 && k%step != 0 && k < n-4 && k > 6 {
			continue
		}
		want := map[[2]int]bool{}
		for i := 0; i < k; i++ {
			for j := i; j < k; j++ {
				if (h[i]+h[j])%p61 == h[k] && t.Add(s[i], s[j]).Cmp(s[k]) == 0 {
					want[[2]int{i, j}] = true
				}
			}
		}
		ops := ch.Ops(k)
		if (c.evals+int64(k))%64 == 0 && n <= 100 {
			k := k
			c.Keep(func() string { return fmt.Sprintf("Ops([%s], %d)", joinBig(orig), k) }, func() string { return fmt.Sprint(ops) })
		}
		c.Count("ops-positions", 1)
		if len(want) > 1 {
			c.Count("ops-multiple", 1)
		}
		if !pre && k > 1 {
			c.Count("ops-nonascending-prefix", 1)
		}
		ok := len(ops) == len(want)
		seen := map[[2]int]bool{}
		for _, op := range ops {
			q := [2]int{op.I, op.J}
			if !want[q] || seen[q] {
				ok = false
			}
			seen[q] = true
		}
		if !ok {
			c.Fail("Ops([%s], %d) = %v, want exactly %v", joinBig(s), k, ops, want)
		}
		op, err := ch.Op(k)
		if (err == nil) != (len(want) > 0) || err == nil && !want[[2]int{op.I, op.J}] {
			c.Fail("Op([%s], %d) = %v, %v; pairs are %v", joinBig(s), k, op, err, want)
		}
	}
	same("Ops")
	if n > 2 {
		kind := "invalid"
		if valid {
			kind = "valid"
		}
		c.Sample(kind, func() string { return fmt.Sprintf("[%s] %s", joinBig(s), bad) })
	}
	c.Max("max_length", n)
}

func c02enum(c *Ctx, a []string) {
	l := atoi(a[0])
	s := splitBig(a[1])
	alpha := []*big.Int{}
	for v := int64(-1); v <= 6; v++ {
		alpha = append(alpha, bi(v))
	}
	for len(s) > 0 && len(s) > l {
		s = s[:l]
	}
	s = append(make([]*big.Int, 0, l), s...)
	var rec func()
	rec = func() {
		if c.Stop() {
			return
		}
		if len(s) == l {
			c.At(seqCase(s))
			c02check(c, s)
			return
		}
		for _, x := range alpha {
			s = append(s, x)
			rec()
			s = s[:len(s)-1]
		}
	}
	rec()
}

func c02valid(c *Ctx, a []string) {
	enumPrograms(parseOps(a[1]), atoi(a[0]), func(p addchain.Program, v []int64) {
		if c.Stop() {
			return
		}
		s := make([]*big.Int, len(v))
		for i := range v {
			s[i] = bi(v[i])
		}
		c.At(seqCase(s))
		c02check(c, s)
	})
}

// mutate changes a sequence in one of several ways.
func mutateSeq(r *rand.Rand, s []*big.Int) []*big.Int {
	s = cloneBigs(s)
	n := len(s)
	i := r.Intn(n)
	switch r.Intn(10) {
	case 0:
		j := r.Intn(n)
		s[i], s[j] = s[j], s[i]
	case 1:
		s[i].Add(s[i], bi(int64(1-2*r.Intn(2))))
	case 2:
		s[i].Set(s[r.Intn(n)])
	case 3:
		s[i].SetInt64(0)
	case 4:
		s[i].Neg(s[i])
	case 5:
		s = append(s[:i], s[i+1:]...)
	case 6:
		s[i].Add(s[i], pow2(64*(1+r.Intn(3))))
	case 7: // insert a difference or sum out of order
		j := r.Intn(n)
		x := new(big.Int).Sub(s[i], s[j])
		if r.Intn(2) == 0 {
			x.Add(s[i], s[j])
		}
		k := r.Intn(n + 1)
		s = append(s[:k], append([]*big.Int{x}, s[k:]...)...)
	case 8: // move an element
		x := s[i]
		s = append(s[:i], s[i+1:]...)
		k := r.Intn(len(s) + 1)
		s = append(s[:k], append([]*big.Int{x}, s[k:]...)...)
	default:
		s[n-1].Add(s[n-1], bi(1))
	}
	return s
}

// reorder gives a random valid order of a chain's elements, keeping validity.
func reorder(r *rand.Rand, s []*big.Int) []*big.Int {
	n := len(s)
	out := []*big.Int{s[0]}
	rest := append([]*big.Int{}, s[1:]...)
	t := new(big.Int)
	for len(out) < n {
		// candidates: sum of two in out
		perm := r.Perm(len(rest))
		done := false
	search:
		for _, k := range perm {
			for i := range out {
				for j := i; j < len(out); j++ {
					if t.Add(out[i], out[j]).Cmp(rest[k]) == 0 {
						out = append(out, rest[k])
						rest = append(rest[:k], rest[k+1:]...)
						done = true
						break search
					}
				}
			}
		}
		if !done {
			return s
		}
	}
	return out
}

// denseChain returns a chain with many alternative operations per element: most
// integers up to m (possibly scaled), in ascending or some valid order.
func denseChain(r *rand.Rand, m int) []*big.Int {
	s := []*big.Int{bi(1)}
	have := map[int64]bool{1: true}
	for v := int64(2); v <= int64(m); v++ {
		if r.Intn(4) == 0 && v > 3 {
			continue
		}
		ok := false
		for x := range have {
			if have[v-x] {
				ok = true
			}
		}
		if ok {
			have[v] = true
			s = append(s, bi(v))
		}
	}
	if r.Intn(3) == 0 { // continue with doublings and additions of members
		for k := r.Intn(70); k > 0; k-- {
			x := s[len(s)-1]
			y := s[r.Intn(len(s))]
			if r.Intn(2) == 0 {
				y = x
			}
			s = append(s, new(big.Int).Add(x, y))
		}
	}
	if r.Intn(2) == 0 && len(s) < 40 {
		s = reorder(r, s)
	}
	return s
}

// randChain returns a random valid chain as integers.
func randChain(r *rand.Rand, n int) []*big.Int {
	if r.Intn(3) == 0 {
		return denseChain(r, 2+r.Intn(2*n+2))
	}
	cs, _ := evalOps(randProgram(r, n))
	switch r.Intn(3) {
	case 0:
		return msort(cs)
	case 1:
		if n <= 24 {
			return reorder(r, cs)
		}
	}
	return cs
}

func c02mutants(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 1 + r.Intn(1+r.Intn(40))
		s := randChain(r, n)
		c.At(seqCase(s))
		c02check(c, s)
		for k := 0; k < 6; k++ {
			m := mutateSeq(r, s)
			if r.Intn(3) == 0 && len(m) > 0 {
				m = mutateSeq(r, m)
			}
			c.At(seqCase(m))
			c02check(c, m)
		}
	}
}

func c02long(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		n := 60 + r.Intn(120)
		if r.Intn(3) == 0 {
			n = 180 + r.Intn(220)
		}
		s := randChain(r, n)
		if n > 180 {
			s = msort(s)
		}
		c.At(seqCase(s))
		c02check(c, s)
		m := mutateSeq(r, s)
		c.At(seqCase(m))
		c02check(c, m)
		// Break just one late position.
		m = cloneBigs(s)
		k := len(m) - 1 - r.Intn(4)
		if k > 0 {
			m[k].Add(m[k], pow2(r.Intn(300)))
			c.At(seqCase(m))
			c02check(c, m)
		}
		m = append(cloneBigs(s), new(big.Int).Set(s[r.Intn(len(s))]))
		c.At(seqCase(m))
		c02check(c, m)
	}
}

// c02longer checks ascending chains of up to two thousand elements, intact and
// with something wrong near the end.
func c02longer(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		cs, _ := evalOps(randProgram(r, 700+r.Intn(1500)))
		s := msort(cs)
		n := len(s)
		c.At(seqCase(s))
		c02check(c, s)
		for k := 0; k < 4; k++ {
			m := cloneBigs(s)
			p := n - 1 - r.Intn(4)
			switch k {
			case 0:
				m[p].Add(m[p], pow2(r.Intn(1+m[p].BitLen())))
			case 1:
				m[p] = twin(r, m[p])
			case 2:
				m = append(m, new(big.Int).Set(s[r.Intn(n)]))
			case 3:
				p = 2 + r.Intn(n-3)
				m = append(m[:p], m[p+1:]...)
			}
			c.At(seqCase(m))
			c02check(c, m)
		}
	}
}

// c02twins checks chains of large numbers of equal size that differ in one bit
// in the middle, and the same chains with one element replaced by such a twin.
func c02twins(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		s := twinChain(r)
		c.At(seqCase(s))
		c02check(c, s)
		c.Count("twin-chains", 1)
		for k := 0; k < 3; k++ {
			m := cloneBigs(s)
			switch r.Intn(5) {
			case 0, 1: // the last element, or one near it, is not the sum it was
				p := len(m) - 1 - r.Intn(min(3, len(m)-1))
				m[p] = twin(r, m[p])
			case 2: // swap two late elements
				p := len(m) - 2
				m[p], m[p+1] = m[p+1], m[p]
			case 3: // repeat one
				m = append(m, new(big.Int).Set(m[len(m)-1-r.Intn(10)]))
			default: // append a twin, which need not be a sum
				m = append(m, twin(r, m[len(m)-1-r.Intn(10)]))
			}
			c.At(seqCase(m))
			c02check(c, m)
		}
	}
}
