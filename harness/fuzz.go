//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/addchain"
)

// A FuzzTarget maps arbitrary bytes to a case of a property's monitors. In the
// thorough tier the Go fuzzing engine drives the same monitors with inputs it
// evolves by code coverage of the repository.
type FuzzTarget struct {
	Name  string
	Seeds []string
	Case  func(b string) (Case, bool)
}

var scriptSeeds = []string{
	"return 1", "1 + 1\n", "a = 2*1\nb = a + 1\nreturn b << 3\n", "_10 = 2*1\n_11 = 1 + _10\nx4 = _11 << 2 + _11\nreturn (x4 << 4 + x4) << 3 + _11",
	"a = 1 add 1\nb = dbl a\nb shl 4 + [1]", "(1 + (1 + 1)) << 2", "x = 2*(2*(1 + 1) << 2)\n[3] + x", "a = 1\na + [0]", "a=1<<2\n[1]+a",
}

var exprSeeds = []string{"2^255 - 19", "1", "0x10 + 0b101*3", "-3 / 2 - -1", "2^2^3", "7^0", "5/0", "2^-1", "1 +", "0x", "  12 ", "3*-4^2"}

func textTarget(name, kind string, seeds []string, ok func(string) bool) FuzzTarget {
	return FuzzTarget{name, seeds, func(b string) (Case, bool) { return Case{kind, []string{b}}, len(b) <= 2000 && (ok == nil || ok(b)) }}
}

func exprOK(s string) bool { return len(s) <= 80 && strings.Count(s, "^") <= 1 }

// opsBytes reads a duplicate-free program from b, two bytes per operation.
func opsBytes(b string, maxval *big.Int) addchain.Program {
	p := addchain.Program{}
	c := []*big.Int{bi(1)}
	seen := map[string]bool{"1": true}
	for i := 0; i+1 < len(b) && len(p) < 400; i += 2 {
		x, y := int(b[i]), int(b[i+1])
		// Low values count back from the end, high ones from the start.
		pick := func(v int) int {
			if v < 128 {
				return len(c) - 1 - v%len(c)
			}
			return (v - 128) % len(c)
		}
		op := addchain.Op{I: pick(x), J: pick(y)}
		s := bi(0).Add(c[op.I], c[op.J])
		if seen[s.String()] || maxval != nil && s.Cmp(maxval) > 0 {
			continue
		}
		seen[s.String()] = true
		c = append(c, s)
		p = append(p, op)
	}
	return p
}

func opsTarget(kind string) FuzzTarget {
	return FuzzTarget{"ops", []string{"\x00\x00", "\x00\x00\x00\x01\x00\x00\x00\x00\x00\x80", "\x00\x00\x00\x00\x00\x00\x00\x02\x01\x00\x00\x00"}, func(b string) (Case, bool) {
		return Case{kind, []string{opsString(opsBytes(b, nil))}}, true
	}}
}

func chainTarget(kind string, maxval *big.Int) FuzzTarget {
	return FuzzTarget{"chain", []string{"\x00\x00", "\x00\x00\x00\x01\x00\x00\x00\x00\x00\x80", "\x00\x00\x00\x00\x81\x80\x00\x02\x01\x00\x00\x00"}, func(b string) (Case, bool) {
		c, _ := evalOps(opsBytes(b, maxval))
		return Case{kind, []string{joinBig(c)}}, true
	}}
}

// intsBytes reads integers: a low byte stands for itself, others for a number
// of further bytes.
func intsBytes(b string, lo int) []*big.Int {
	xs := []*big.Int{}
	for i := 0; i < len(b) && len(xs) < 60; {
		v := int(b[i])
		i++
		if v < 200 {
			xs = append(xs, bi(int64(v+lo)))
			continue
		}
		n := min(v-199, len(b)-i)
		xs = append(xs, new(big.Int).SetBytes([]byte(b[i:i+n])))
		i += n
	}
	return xs
}

func irBytes(b string) string {
	var f []string
	outs := []int{0}
	next := 0
	for i := 0; i+2 < len(b) && len(f) < 300; i += 3 {
		pick := func(v byte) int {
			if v < 128 {
				return outs[len(outs)-1-int(v)%len(outs)]
			}
			return outs[int(v-128)%len(outs)]
		}
		switch x, y := pick(b[i+1]), pick(b[i+2]); {
		case b[i] < 128:
			next++
			f = append(f, fmt.Sprintf("a%d,%d", x, y))
		case b[i] < 192:
			next++
			f = append(f, fmt.Sprintf("d%d", x))
		default:
			s := 1 + int(b[i]-192)
			next += s
			f = append(f, fmt.Sprintf("s%d,%d", x, s))
		}
		outs = append(outs, next)
	}
	return strings.Join(f, " ")
}

var irSeeds = []string{"\x00\x00\x00", "\x80\x00\x00\x00\x00\x80\xc3\x00\x00\x00\x00\x80", "\x80\x00\x00\xc0\x00\x00\x00\x00\x01\xff\x80\x00\x00\x00\x01"}

func posInt(b string) (*big.Int, bool) {
	x := new(big.Int).SetBytes([]byte(b))
	return x, x.Sign() > 0
}

var intSeeds = []string{"\x01", "\xff", "\x01\x00\x00\x00\x00\x00\x00\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\xff", "\x12\x34\x56\x78\x9a\xbc\xde\xf0\x12\x34"}

var fuzzTargets = map[string][]FuzzTarget{
	"C01": {{"target", prefix("\x03", intSeeds), func(b string) (Case, bool) {
		if len(b) < 2 || len(b) > 30 {
			return Case{}, false
		}
		n, ok := posInt(b[1:])
		if !ok {
			return Case{}, false
		}
		spec, _, _ := randAlg(rand.New(rand.NewSource(int64(b[0]))), n.BitLen())
		if max := seqLimit(strings.TrimPrefix(strings.TrimPrefix(spec, "opt:"), "seq:")); strings.Contains(spec, "seq:") && max > 0 && n.Cmp(bi(max)) > 0 {
			return Case{}, false
		}
		return Case{"one", []string{n.String(), spec}}, true
	}}},
	"C02": {{"ints", []string{"\x04\x05\x06\x08", "\x04\x05\x07\x06\x0a", "\x04\x03", "\x04\x04"}, func(b string) (Case, bool) {
		return Case{"seq", []string{joinBig(intsBytes(b, -3))}}, len(b) > 0
	}}, chainTarget("seq", nil)},
	"C03": {textTarget("text", "text", scriptSeeds, nil)},
	"C04": {opsTarget("one")},
	"C05": {{"ir", irSeeds, func(b string) (Case, bool) {
		s := irBytes(b)
		return Case{"one", []string{s, "0", "0"}}, s != ""
	}}},
	"C06": {textTarget("text", "text", scriptSeeds, nil)},
	"C07": {textTarget("text", "fmt", scriptSeeds, nil)},
	"C08": {{"targets", []string{"\x00\x0f\x20\x7f", "\x04\x0f\x0f\x02", "\x21\xca\x01\x02\x03\x09"}, func(b string) (Case, bool) {
		if len(b) < 2 || len(b) > 120 {
			return Case{}, false
		}
		spec := allSeqs[int(b[0])%len(allSeqs)]
		max := seqLimit(spec)
		ts := []*big.Int{}
		for _, x := range intsBytes(b[1:], 1) {
			if x.Sign() > 0 && x.BitLen() <= 160 && (max == 0 || x.Cmp(bi(max)) <= 0) {
				ts = append(ts, x)
			}
		}
		return Case{"one", []string{joinBig(ts), spec}}, len(ts) > 0 && len(ts) <= 16
	}}},
	"C09": {{"int", prefix("\x04\x05", intSeeds), func(b string) (Case, bool) {
		if len(b) < 3 || len(b) > 200 {
			return Case{}, false
		}
		x, ok := posInt(b[2:])
		K, T := 1+uint64(b[0]&63), uint64(b[1])
		return Case{"one", []string{x.String(), []string{"fixed", "sliding", "run", "hybrid"}[b[0]>>6], strconv.FormatUint(K, 10), strconv.FormatUint(T, 10)}}, ok
	}}},
	"C10": {chainTarget("seq", nil)},
	"C11": {chainTarget("seq", bi(3000))},
	"C13": {textTarget("expr", "expr", exprSeeds, exprOK)},
	"C15": {textTarget("text", "text", scriptSeeds, nil), textTarget("expr", "expr", exprSeeds, exprOK)},
	"C16": {opsTarget("one")},
	"C17": {{"ir", irSeeds, func(b string) (Case, bool) {
		s := irBytes(b)
		return Case{"one", []string{s}}, s != ""
	}}},
	"C18": {{"hist", []string{"\x00\x00\x00", "\x41\x00\x00\x81\x00\x03\x00\x01\x02"}, func(b string) (Case, bool) {
		var f []string
		for i := 0; i+2 < len(b) && len(f) < 60; i += 3 {
			x, y := int(int8(b[i+1]))%24, int(int8(b[i+2]))%24
			switch b[i] >> 6 {
			case 0, 3:
				f = append(f, fmt.Sprintf("a:%d:%d", x, y))
			case 1:
				f = append(f, fmt.Sprintf("d:%d", x))
			case 2:
				f = append(f, fmt.Sprintf("s:%d:%d", x, 1+(y+24)%9))
			}
		}
		return Case{"hist", []string{strings.Join(f, " ")}}, len(f) > 0
	}}},
	"C19": {
		{"int", intSeeds, func(b string) (Case, bool) {
			x, ok := posInt(b)
			return Case{"int", []string{x.String()}}, ok && len(b) <= 40
		}},
		{"list", []string{"\x01\x02\x03", "\x03\x01\x01\xca\x01\x02\x03"}, func(b string) (Case, bool) {
			return Case{"list", []string{joinBig(intsBytes(b, 0))}}, true
		}},
		{"hex", []string{"0", "ff_00", "12_", "_"}, func(b string) (Case, bool) {
			return Case{"parsecase", []string{"16", b}}, len(b) <= 200 && strings.Trim(b, "_+-") == b && b != ""
		}},
		{"bin", []string{"0", "11_00", "10_", "_"}, func(b string) (Case, bool) {
			return Case{"parsecase", []string{"2", b}}, len(b) <= 400 && strings.Trim(b, "_+-") == b && b != ""
		}},
	},
	"C20": {{"value", []string{"", "v0.4.0", "a\"b", "`x`\n\ty", "\xff\x00\r", "\u2028//"}, func(b string) (Case, bool) {
		return Case{"file", []string{`"meta"`, `"A"`, `""`, strconv.Quote(b), `"B"`, `"B is the other one."`, strconv.Quote(b)}}, len(b) <= 2000
	}}},
}

func prefix(p string, ss []string) []string {
	out := []string{}
	for _, s := range ss {
		out = append(out, p+s)
	}
	return out
}

// fuzzOne runs the monitors on one input and returns the violations.
func fuzzOne(p *Prop, cs Case, dir string) []Violation {
	dir = filepath.Join(dir, fmt.Sprint("p", os.Getpid())) // one directory per fuzzing process
	must(os.MkdirAll(dir, 0o755))
	r := &Run{prop: p, total: map[string]int64{}, tmp: dir, bin: os.Getenv("VERIF_FUZZ_CLI")}
	for i := range r.shards {
		r.shards[i].m = map[uint64]struct{}{}
	}
	newctx(r, 0, 1, "thorough").exec(cs)
	return r.viol
}

// fuzzStage runs the coverage-guided stage of the thorough tier.
func fuzzStage(p *Prop, bin, cli, dir string, total time.Duration) (map[string]interface{}, []Violation) {
	ts := fuzzTargets[p.ID]
	if len(ts) == 0 || bin == "" {
		return nil, nil
	}
	if s := os.Getenv("VERIF_FUZZTIME"); s != "" {
		total, _ = time.ParseDuration(s)
	}
	obs := map[string]interface{}{}
	var viol []Violation
	re := regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+) \(total: (\d+)\)`)
	for i, t := range ts {
		wd := filepath.Join(dir, "fuzz", t.Name)
		must(os.MkdirAll(wd, 0o755))
		vf := filepath.Join(wd, "violations")
		d := total / time.Duration(len(ts))
		cmd := exec.Command(bin, "-test.run=^$", "-test.fuzz=^FuzzCase$", "-test.fuzztime="+d.String(), "-test.fuzzminimizetime=20s", "-test.fuzzcachedir="+filepath.Join(wd, "cache"))
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_FUZZ=%s/%d", p.ID, i), "VERIF_FUZZ_OUT="+vf, "VERIF_FUZZ_CLI="+cli)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		must(cmd.Start())
		tm := time.AfterFunc(d+5*time.Minute, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
		err := cmd.Wait()
		tm.Stop()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		for _, m := range re.FindAllStringSubmatch(out.String(), -1) {
			obs[t.Name] = map[string]string{"inputs": m[1], "coverage_increasing_inputs": m[3]}
		}
		n := 0
		if f, e := os.Open(vf); e == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 16<<20)
			for sc.Scan() {
				var v Violation
				if json.Unmarshal(sc.Bytes(), &v) == nil {
					viol = append(viol, v)
					n++
				}
			}
			f.Close()
		}
		if err != nil && n == 0 {
			// A crash of the fuzzing process itself: judge the input it kept.
			files, _ := filepath.Glob(filepath.Join(wd, "testdata", "fuzz", "FuzzCase", "*"))
			for _, fn := range files {
				b, _ := os.ReadFile(fn)
				l := strings.Split(string(b), "\n")
				if len(l) < 2 {
					continue
				}
				s, e := strconv.Unquote(strings.TrimSuffix(strings.TrimPrefix(l[1], "string("), ")"))
				if e != nil {
					continue
				}
				if cs, ok := t.Case(s); ok {
					viol = append(viol, Violation{Case: cs, Detail: "crashed the fuzzing process:\n" + tail(out.String(), 4000)})
					n++
				}
			}
			if n == 0 {
				fmt.Fprintf(os.Stderr, "fuzzing %s ended early: %v\n%s\n", t.Name, err, printable(tail(out.String(), 2000)))
			}
		}
	}
	return obs, viol
}
