//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/alg/ensemble"
	"github.com/mmcloughlin/addchain/alg/exec"
)

func init() {
	register(&Prop{
		ID: "C14",
		Rule: "Each evaluation runs the search command built from the working tree for one expression under several (add cost, double cost, -p, GOMAXPROCS) settings and judges what it prints: the script is evaluated by the reference interpreter and by the eval command (chain must end in n as computed by the harness's own expression evaluator); the reported cost must equal the weighted additions and doublings of that script and the minimum over the whole ensemble, which the harness executes itself, one algorithm at a time; in verbose mode every per-algorithm cost line is compared too; output must be byte-identical across repeats, -p values and GOMAXPROCS; fmt, fmt -b and (for n >= 2) gen must accept the script. " +
			"Targets: every n up to 48 (thorough 600); random expressions with every operator; structured targets of up to 128 bits, cryptographic ones to 521 (thorough 600) bits; cost weights over 12 orders of magnitude. " +
			"Non-trivial: distinct (n, weights) with n >= 3.",
		Assumptions: []string{"costs are finite; they are compared within a relative error of 1e-12, as the order of the floating point operations is not specified"},
		Gen: func(g *Gen) {
			for _, e := range []string{"2^521 - 1 - 2", "2^255 - 19 - 2", "2^256 - 2^224 + 2^192 + 2^96 - 3"}[:g.N(2, 3)] {
				g.Emit("expr", e, 1, g.N(2, 5), g.S())
			}
			if g.Thorough() {
				for i, n := range cryptoTargets {
					if n.BitLen() <= 600 {
						g.Emit("expr", "0x"+n.Text(16), 1, 1+i%2, g.S())
					}
				}
				g.Blocks("random", 100, 2, 600, 1, 2)
			}
			g.Blocks("random", g.N(10, 200), 1, 256, 1, 2)
			g.Blocks("random", g.N(24, 400), 2, 128, 1, 3)
			g.Blocks("random", g.N(24, 400), 4, 48, 2, 3)
			g.Blocks("exprs", g.N(24, 400), 5)
			for n := 1; n <= g.N(48, 600); n++ {
				g.Emit("expr", n, 3, 3, g.S())
			}
		},
		Run: map[string]func(*Ctx, []string){
			"expr": func(c *Ctx, a []string) {
				n, err := calcRef(a[0])
				if err != nil || n.Sign() <= 0 {
					panic("bad expression " + a[0])
				}
				c14expr(c, a[0], n, atoi(a[1]), atoi(a[2]), atoi64(a[3]))
			},
			"random": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
					bits := 1 + r.Intn(atoi(a[2]))
					n := randTarget(r, bits, 4, 0)
					if n.Sign() <= 0 || n.BitLen() > 600 {
						n = randBits(r, bits)
					}
					c14expr(c, n.String(), n, atoi(a[3]), atoi(a[4]), r.Int63())
				}
			},
			"exprs": func(c *Ctx, a []string) {
				r := rand.New(rand.NewSource(atoi64(a[0])))
				for i := 0; i < atoi(a[1]) && !c.Stop(); {
					e := randExpr(r, 1+r.Intn(5), 40)
					n, err := calcRef(e)
					if err != nil || n.Sign() <= 0 || n.BitLen() > 160 || strings.HasPrefix(e, "-") {
						continue
					}
					i++
					c14expr(c, e, n, 1, 2, r.Int63())
				}
			},
		},
		Floor: map[string]int64{"searches": 300, "verbose-searches": 50, "ensemble-results": 5000, "repeats": 100, "generated": 50},
	})
}

// c14weights are pairs of add and double cost.
var c14weights = [][2]string{{"1", "1"}, {"1.1", "0.9"}, {"0.25", "1"}, {"1", "0.25"}, {"3", "1"}, {"1000000", "1"}, {"1", "1000000"}, {"1e-6", "1e6"}, {"0.1", "0.3"}, {"7", "5"}, {"1.0000001", "1"}, {"1", "1.0000001"}, {"12.5", "0.5"}, {"0x1p-3", "2"}, {"1e-300", "1e-300"}}

func closeTo(a, b float64) bool {
	return a == b || !math.IsInf(a, 0) && !math.IsInf(b, 0) && math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

// c14expr judges nw weightings of one target, each with np concurrency settings.
func c14expr(c *Ctx, expr string, n *big.Int, nw, np int, seed int64) {
	c.At(func() Case { return Case{"expr", []string{expr, fmt.Sprint(nw), fmt.Sprint(np), fmt.Sprint(seed)}} })
	r := rand.New(rand.NewSource(seed))
	// The results of the ensemble, one algorithm at a time.
	type cnt struct {
		name    string
		d, a    float64
		ops     string
		lastops int
	}
	var results []cnt
	for _, alg := range ensemble.Ensemble() {
		res := exec.Execute(new(big.Int).Set(n), alg)
		if res.Err != nil {
			c.Count("algorithm-errors", 1)
			return // another property
		}
		k := cnt{name: alg.String()}
		for _, op := range res.Program {
			if op.I == op.J {
				k.d++
			} else {
				k.a++
			}
		}
		results = append(results, k)
	}
	c.Count("ensemble-results", len(results))
	c.Max("max_bits", n.BitLen())
	dir, err := os.MkdirTemp(c.run.tmp, "c14")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "s.acc")
	ps := []int{1, 2, 3, 16, 64, 0}
	for w := 0; w < nw && !c.Stop(); w++ {
		wt := c14weights[r.Intn(len(c14weights))]
		if w == 0 && r.Intn(2) == 0 {
			wt = c14weights[0]
		}
		add, _ := strconv.ParseFloat(wt[0], 64)
		dbl, _ := strconv.ParseFloat(wt[1], 64)
		min := math.Inf(1)
		for _, k := range results {
			min = math.Min(min, dbl*k.d+add*k.a)
		}
		if n.Cmp(bi(2)) > 0 {
			c.Nontrivial(n.String(), wt[0], wt[1])
		}
		first := CLI{}
		script := ""
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		for k := 0; k < np && !c.Stop(); k++ {
			verbose := k == np-1 && np > 1
			args := []string{"search"}
			if ps[k] != 0 {
				args = append(args, "-p", fmt.Sprint(ps[k]))
			}
			if verbose {
				args = append(args, "-v")
			}
			if wt[0] != "1" || r.Intn(2) == 0 {
				args = append(args, "-add", wt[0])
			}
			if wt[1] != "1" || r.Intn(2) == 0 {
				args = append(args, "-double="+wt[1])
			}
			args = append(args, expr)
			env := append([]string{fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 4, 8}[r.Intn(4)]), c.run.bin}, args...)
			s := runCmd("/usr/bin/env", "", env...)
			c.Count("searches", 1)
			c.Eval(1)
			if s.Code != 0 || s.Crashed() || s.Timeout {
				c.Fail("search failed: %v", s)
				return
			}
			cost, why := reportedCost(s.Err)
			if why != "" {
				c.Fail("search reports no cost (%s): %v", why, s)
				return
			}
			if !closeTo(cost, min) {
				c.Fail("search reports cost %v, but the minimum over the ensemble is %v: %v", cost, min, s)
				return
			}
			if verbose {
				c.Count("verbose-searches", 1)
				var got []float64
				for _, l := range strings.Split(s.Err, "\n") {
					var v float64
					var d, a float64
					if i := strings.Index(l, "cost: "); i >= 0 {
						if m, _ := fmt.Sscanf(l[i:], "cost: %g doubles: %g adds: %g", &v, &d, &a); m == 3 {
							if !closeTo(v, dbl*d+add*a) {
								c.Fail("search -v prints %q, but %v doublings and %v additions cost %v: args %q", l, d, a, dbl*d+add*a, s.Args)
								return
							}
							got = append(got, v)
						}
					}
				}
				for i, v := range got {
					if v < cost && !closeTo(v, cost) {
						c.Fail("search reports cost %v, but algorithm %d has cost %v: args %q", cost, i, v, s.Args)
						return
					}
				}
				c.Count("verbose-costs", len(got))
			}
			if k == 0 {
				first, script = s, s.Out
				if !c14script(c, expr, n, script, fn, cost, add, dbl, s) {
					return
				}
				if n.BitLen() > 8 {
					c.Sample("search", func() string { return fmt.Sprintf("%q: cost %v: %s", s.Args, cost, script) })
				}
				continue
			}
			c.Count("repeats", 1)
			if s.Out != script {
				c.Fail("output differs between runs: %q printed\n%s\n%q printed\n%s", first.Args, script, s.Args, s.Out)
				return
			}
			if !verbose && s.Err != first.Err {
				c.Fail("report differs between runs: %q printed\n%s\n%q printed\n%s", first.Args, first.Err, s.Args, s.Err)
				return
			}
		}
	}
}

// reportedCost finds the cost of the best chain in the report.
func reportedCost(report string) (float64, string) {
	found := false
	cost := 0.0
	for _, l := range strings.Split(report, "\n") {
		i := strings.Index(l, "cost: ")
		if i < 0 || strings.Contains(l, "doubles:") {
			continue
		}
		v, err := strconv.ParseFloat(strings.TrimSpace(l[i+6:]), 64)
		if err != nil {
			return 0, fmt.Sprintf("line %q", l)
		}
		if found {
			return 0, "two cost lines"
		}
		found, cost = true, v
	}
	if !found {
		return 0, "no cost line"
	}
	return cost, ""
}

func c14script(c *Ctx, expr string, n *big.Int, script, fn string, cost, add, dbl float64, s CLI) bool {
	t, ok := refParse(script)
	if !ok {
		c.Fail("search prints a script outside the grammar: %v", s)
		return false
	}
	m := refEval(t)
	if m.Err != "" {
		c.Fail("search prints a script that does not evaluate (%s): %v", m.Err, s)
		return false
	}
	if m.Chain[len(m.Chain)-1].Cmp(n) != 0 {
		c.Fail("search for %q = %s prints a script whose chain ends in %s: %v", expr, n, m.Chain[len(m.Chain)-1], s)
		return false
	}
	d, a := 0, 0
	for _, op := range m.Ops {
		if op.I == op.J {
			d++
		} else {
			a++
		}
	}
	if v := dbl*float64(d) + add*float64(a); !closeTo(v, cost) {
		c.Fail("search reports cost %v, but the script has %d doublings and %d additions, cost %v: %v", cost, d, a, v, s)
		return false
	}
	must(os.WriteFile(fn, []byte(script), 0o644))
	e := c.addchainCmd(script, "eval")
	if want := evalOutput(m.Ops, m.Chain); e.Code != 0 || normOps(e.Out) != normOps(want) {
		c.Fail("eval of the script printed by %q: %v, want\n%s", s.Args, e, want)
		return false
	}
	for _, args := range [][]string{{"fmt", fn}, {"fmt", "-b", fn}, {"gen", fn}, {"gen", "-type", "script", fn}} {
		if args[0] == "gen" && n.Cmp(bi(2)) < 0 {
			continue
		}
		g := c.addchainCmd("", args...)
		if g.Code != 0 || g.Crashed() || g.Timeout {
			c.Fail("%v does not accept the script printed by %q: %v\n%s", args, s.Args, g, script)
			return false
		}
		if args[0] == "gen" {
			c.Count("generated", 1)
		}
	}
	return true
}
