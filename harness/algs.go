//go:build go1.22

package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/alg"
	"github.com/mmcloughlin/addchain/alg/binary"
	"github.com/mmcloughlin/addchain/alg/contfrac"
	"github.com/mmcloughlin/addchain/alg/dict"
	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/heuristic"
	"github.com/mmcloughlin/addchain/alg/opt"
)

// Heuristic specs: d = delta largest, a = approximation, h = halving; a list
// is UseFirst of its items, parentheses nest: "hd", "h(ad)", "d".
func mkHeuristic(s string) heuristic.Heuristic {
	hs, rest := parseHeuristics(s)
	if rest != "" {
		panic("bad heuristic " + s)
	}
	if len(hs) == 1 {
		return hs[0]
	}
	return heuristic.UseFirst(hs...)
}

func parseHeuristics(s string) (hs []heuristic.Heuristic, rest string) {
	for s != "" && s[0] != ')' {
		switch s[0] {
		case 'd':
			hs = append(hs, heuristic.DeltaLargest{})
		case 'a':
			hs = append(hs, heuristic.Approximation{})
		case 'h':
			hs = append(hs, heuristic.Halving{})
		case '(':
			sub, r := parseHeuristics(s[1:])
			hs = append(hs, heuristic.UseFirst(sub...))
			s = r
		default:
			panic("bad heuristic")
		}
		s = s[1:]
	}
	return hs, s
}

// totalHeuristics end in a total heuristic, partialHeuristics do not.
var totalHeuristics = []string{"d", "a", "hd", "ha", "(h)d", "hhd", "h(ha)", "(hd)", "hda", "ad", "(h(d))", "()ha"}
var partialHeuristics = []string{"h", "(h)", "hh", "()"}

// Continued fraction strategies by name and the largest value for which they
// are run (the documentation says which are not meant for large inputs).
//
// A heuristic that never halves takes a number of steps proportional to the
// largest gap, so those are run on small values too.
var gapHeuristics = map[string]bool{"d": true, "a": true, "ad": true}

const gapLimit = 5000

var cfLimits = map[string]int64{"total": 36, "dyadic": 6000, "fermat": 300000}
var cfNames = []string{"binary", "co_binary", "dichotomic", "sqrt", "total", "dyadic", "fermat"}
var cfLarge = []string{"binary", "co_binary", "dichotomic", "sqrt"}

func mkStrategy(s string) contfrac.Strategy {
	switch s {
	case "binary":
		return contfrac.BinaryStrategy{}
	case "co_binary":
		return contfrac.CoBinaryStrategy{}
	case "dichotomic":
		return contfrac.DichotomicStrategy{}
	case "sqrt":
		return contfrac.SqrtStrategy{}
	case "total":
		return contfrac.TotalStrategy{}
	case "dyadic":
		return contfrac.DyadicStrategy{}
	case "fermat":
		return contfrac.FermatStrategy{}
	}
	for _, x := range contfrac.Strategies {
		if x.String() == s {
			return x
		}
	}
	panic("bad strategy " + s)
}

// mkSeq builds a sequence algorithm from "h.<heuristic>" or "cf.<strategy>".
func mkSeq(s string) alg.SequenceAlgorithm {
	if strings.HasPrefix(s, "h.") {
		return heuristic.NewAlgorithm(mkHeuristic(s[2:]))
	}
	if strings.HasPrefix(s, "cf.") {
		return contfrac.NewAlgorithm(mkStrategy(s[3:]))
	}
	panic("bad sequence algorithm " + s)
}

// seqLimit is the largest element a sequence algorithm is given (0: any).
func seqLimit(s string) int64 {
	if strings.HasPrefix(s, "cf.") {
		return cfLimits[s[3:]]
	}
	if strings.HasPrefix(s, "h.") && gapHeuristics[s[2:]] {
		return gapLimit
	}
	return 0
}

// mkAlg builds a chain algorithm from a spec: e:<i> (ensemble), binary,
// seq:<seq>, runs:<seq>, dict:<method>:<K>:<T>:<seq>, each optionally preceded
// by opt:.
func mkAlg(s string) alg.ChainAlgorithm {
	if strings.HasPrefix(s, "opt:") {
		return opt.Algorithm{Algorithm: mkAlg(s[4:])}
	}
	f := strings.Split(s, ":")
	switch f[0] {
	case "e":
		return ensemble.Ensemble()[atoi(f[1])]
	case "binary":
		return binary.RightToLeft{}
	case "seq":
		return alg.AsChainAlgorithm(mkSeq(f[1]))
	case "runs":
		return dict.NewRunsAlgorithm(mkSeq(f[1]))
	case "dict":
		K, err1 := strconv.ParseUint(f[2], 10, 64)
		T, err2 := strconv.ParseUint(f[3], 10, 64)
		if err1 != nil || err2 != nil {
			panic("bad algorithm " + s)
		}
		return dict.NewAlgorithm(decomposer(f[1], uint(K), uint(T)), mkSeq(f[4]))
	}
	panic("bad algorithm " + s)
}

var largeSeqs = func() []string {
	var out []string
	for _, h := range totalHeuristics {
		if !gapHeuristics[h] {
			out = append(out, "h."+h)
		}
	}
	for _, s := range cfLarge {
		out = append(out, "cf."+s)
	}
	return out
}()

var allSeqs = func() []string {
	out := append([]string{}, largeSeqs...)
	return append(out, "cf.total", "cf.dyadic", "cf.fermat", "h.d", "h.a", "h.ad")
}()

// randAlg picks a random chain algorithm configuration suitable for a target of
// the given bit length. K and T are the window and run parameters chosen (0 if
// there are none), which workloads use to build critical bit patterns.
func randAlg(r *rand.Rand, bits int) (spec string, K, T int) {
	pre := ""
	if r.Intn(2) == 0 {
		pre = "opt:"
	}
	seq := largeSeqs[r.Intn(len(largeSeqs))]
	switch r.Intn(14) {
	case 0:
		if bits <= 11 && r.Intn(3) == 0 {
			seq = []string{"cf.dyadic", "cf.fermat", "h.d", "h.a"}[r.Intn(4)]
		}
		return pre + "seq:" + seq, 0, 0
	case 1:
		return pre + "binary", 0, 0
	case 2, 3, 4:
		// Run lengths are small numbers, so any algorithm will do.
		if r.Intn(2) == 0 {
			small := []string{"cf.dyadic", "cf.fermat", "h.d", "h.a", "h.ad"}
			if bits <= 32 {
				small = append(small, "cf.total")
			}
			seq = small[r.Intn(len(small))]
		}
		return pre + "runs:" + seq, 0, 0
	}
	m := []string{"fixed", "sliding", "run", "hybrid", "hybrid"}[r.Intn(5)]
	K = 1 + r.Intn(12)
	switch r.Intn(5) {
	case 0:
		K = 1 + r.Intn(3)
	case 1:
		K = []int{15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129}[r.Intn(14)]
	case 2:
		K = 1 + r.Intn(bits+2)
	}
	if r.Intn(3) != 0 {
		T = 1 + r.Intn(20)
		if r.Intn(3) == 0 {
			T = []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}[r.Intn(12)]
		}
		if r.Intn(4) == 0 {
			T = 1 + r.Intn(bits+2)
		}
	}
	if m == "fixed" || m == "sliding" {
		T = 0
		if K <= 5 && r.Intn(4) == 0 {
			seq = "cf.total"
		} else if K <= 10 && r.Intn(4) == 0 {
			seq = []string{"cf.dyadic", "cf.fermat", "h.d", "h.a"}[r.Intn(4)]
		}
	}
	if m == "run" {
		K = 0
	}
	return fmt.Sprintf("%sdict:%s:%d:%d:%s", pre, m, K, T, seq), K, T
}

// randTarget returns a target of about the given bit length with structure:
// generic shapes, repeated windows, runs with lengths near K and T.
func randTarget(r *rand.Rand, bits, K, T int) *big.Int {
	switch r.Intn(4) {
	case 0, 1: // runs and gaps near the critical sizes
		lens := []int{1, 2}
		for _, v := range []int{K, T, K + T, 2 * K, 2 * T, 64} {
			if v > 0 {
				lens = append(lens, v-1, v, v+1)
			}
		}
		x := new(big.Int)
		n := 0
		for n < bits {
			l := lens[r.Intn(len(lens))]
			if r.Intn(4) == 0 {
				l = 1 + r.Intn(9)
			}
			if l > bits {
				l = 1 + r.Intn(bits)
			}
			if l > 0 {
				x.Lsh(x, uint(l))
				x.Or(x, ones(l))
				n += l
			}
			z := []int{1, 1, 1, 2, 3, K, K + 1, 0, 63, 64, 65, r.Intn(9)}[r.Intn(12)]
			if n+z > bits+64 {
				z = 1
			}
			if r.Intn(12) == 0 || n < bits {
				x.Lsh(x, uint(z))
				n += z
			}
		}
		return x
	case 2: // a few windows, repeated
		w := 1 + r.Intn(10)
		if K > 0 && r.Intn(2) == 0 {
			w = K
		}
		if w > 200 {
			w = 200
		}
		pool := []*big.Int{}
		for i := 0; i < 1+r.Intn(4); i++ {
			pool = append(pool, randBits(r, 1+r.Intn(w)))
		}
		x := bi(0)
		for x.BitLen() < bits {
			p := pool[r.Intn(len(pool))]
			x.Lsh(x, uint(p.BitLen()+r.Intn(1+r.Intn(8))))
			x.Or(x, p)
		}
		if r.Intn(6) == 0 {
			x.Lsh(x, uint(r.Intn(10)))
		}
		return x
	}
	return randBits(r, bits)
}

// cryptoTargets are exponents of the kind the tool exists for.
var cryptoTargets = func() []*big.Int {
	e := func(terms ...int) *big.Int { // sum of signed powers, last is a constant
		x := new(big.Int)
		for i, t := range terms {
			if i == len(terms)-1 {
				return x.Add(x, bi(int64(t)))
			}
			if t < 0 {
				x.Sub(x, pow2(-t))
			} else {
				x.Add(x, pow2(t))
			}
		}
		return x
	}
	return []*big.Int{
		e(255, -21),
		e(252, -3),
		e(256, -224, 192, 96, -3),
		e(256, -32, -979),
		e(192, -64, -3),
		e(224, -96, -1),
		e(384, -128, -96, 32, -3),
		e(448, -224, -3),
		e(414, -19),
		e(521, -3),
		e(130, -7),
		parseBig("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
		parseBig("0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc63254f"),
	}
}()
