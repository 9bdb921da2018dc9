//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"go/format"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mmcloughlin/addchain/internal/metavars"
)

func init() {
	register(&Prop{
		ID: "C20",
		Rule: "Each evaluation writes one metadata description and reads it back (buffer and file), compares package, names, values, docs and order, checks the bytes are a gofmt fixed point, or replays one Get/Add/Set history against an ordered-map model with full comparison after every call (including histories across write/read); plus the release tool's bump command on scratch files. " +
			"Values cover every single byte, every byte pair over a hostile set, invalid UTF-8, all Unicode planes' edges, quotes, backslashes, backticks, percent verbs and long strings; names cover Unicode identifiers. " +
			"Non-trivial: distinct descriptions with at least one property.",
		Assumptions: []string{"package name is not the blank identifier; property names are distinct; documentation is a plain prose sentence (no leading list/heading/indent markers, no `` or '' quotes, no directives)"},
		Gen: func(g *Gen) {
			for b := 0; b < 256; b += 16 {
				g.Emit("bytes", b)
			}
			g.Emit("runes")
			g.Blocks("random", g.N(96, 1000), g.N(120, 300))
			g.Blocks("ops", g.N(64, 600), g.N(150, 400))
			g.Blocks("large", g.N(4, 40), g.N(4, 10))
			g.Blocks("bump", g.N(12, 40), g.N(6, 20))
		},
		Run: map[string]func(*Ctx, []string){
			"bytes": c20bytes, "runes": c20runes, "random": c20random, "large": c20large, "ops": c20ops, "bump": c20bump, "file": c20filecase,
		},
		Floor: map[string]int64{"roundtrips": 5000, "add-rejected": 100, "set-rejected": 100, "set": 100, "bump": 20},
	})
}

func fileString(f *metavars.File) string {
	s := strconv.Quote(f.Package)
	for _, p := range f.Properties {
		s += fmt.Sprintf(" {%q %q %q}", p.Name, p.Doc, p.Value)
	}
	return s
}

func encFile(f *metavars.File) []string {
	a := []string{strconv.QuoteToASCII(f.Package)}
	for _, p := range f.Properties {
		a = append(a, strconv.QuoteToASCII(p.Name), strconv.QuoteToASCII(p.Doc), strconv.QuoteToASCII(p.Value))
	}
	return a
}

func c20filecase(c *Ctx, a []string) {
	u := func(s string) string {
		t, err := strconv.Unquote(s)
		if err != nil {
			panic(err)
		}
		return t
	}
	f := &metavars.File{Package: u(a[0])}
	for i := 1; i+2 < len(a); i += 3 {
		f.Properties = append(f.Properties, metavars.Property{Name: u(a[i]), Doc: u(a[i+1]), Value: u(a[i+2])})
	}
	c20roundtrip(c, f, true)
}

func c20roundtrip(c *Ctx, f *metavars.File, file bool) {
	c.At(func() Case { return Case{"file", encFile(f)} })
	c.Eval(1)
	c.Count("roundtrips", 1)
	want := fileString(f)
	var buf bytes.Buffer
	if err := metavars.Write(&buf, f); err != nil {
		c.Fail("Write(%s): %v", want, err)
		return
	}
	if fileString(f) != want {
		c.Fail("Write changed the description %s to %s", want, fileString(f))
	}
	src := buf.Bytes()
	canon, err := format.Source(src)
	if err != nil || !bytes.Equal(canon, src) {
		c.Fail("Write(%s) is not in gofmt form (%v):\n%s", want, err, src)
	}
	g, err := metavars.Read(bytes.NewReader(src))
	if err != nil {
		c.Fail("Read of Write(%s): %v\n%s", want, err, src)
		return
	}
	if got := fileString(g); got != want {
		c.Fail("round trip of %s gave %s\n%s", want, got, src)
		return
	}
	if c.evals%4 == 0 {
		c.Keep(func() string { return "Read of Write(" + want + ")" }, func() string { return fileString(g) })
	}
	// Again from the description that was read.
	var buf2 bytes.Buffer
	if err := metavars.Write(&buf2, g); err != nil || !bytes.Equal(buf2.Bytes(), src) {
		c.Fail("writing the description read back differs (%v):\n%s\nfirst:\n%s", err, buf2.Bytes(), src)
	}
	if file {
		c.Count("file-roundtrips", 1)
		name := filepath.Join(c.run.tmp, fmt.Sprintf("vars%d.go", c.id))
		// A longer previous content must not survive.
		if err := os.WriteFile(name, bytes.Repeat([]byte("// stale\n"), 2000), 0o644); err != nil {
			panic(err)
		}
		if err := metavars.WriteFile(name, f); err != nil {
			c.Fail("WriteFile(%s): %v", want, err)
			return
		}
		b, _ := os.ReadFile(name)
		if !bytes.Equal(b, src) {
			c.Fail("WriteFile(%s) wrote\n%s\nWrite wrote\n%s", want, clip(string(b), 1500), src)
		}
		h, err := metavars.ReadFile(name)
		if err != nil || fileString(h) != want {
			c.Fail("ReadFile(WriteFile(%s)) = %v, %v", want, h, err)
		}
		os.Remove(name)
	}
	if len(f.Properties) > 0 {
		c.Nontrivial(want)
	}
	if len(f.Properties) > 1 {
		c.Sample("description", func() string { return want })
	}
}

func one(v string) *metavars.File {
	return &metavars.File{Package: "p", Properties: []metavars.Property{{Name: "x", Value: v}}}
}

func c20bytes(c *Ctx, a []string) {
	lo := atoi(a[0])
	hostile := []byte{0, 1, 7, '\t', '\n', '\r', ' ', '"', '%', '\'', '*', '/', '0', '\\', '`', 'd', 'n', 's', 'u', 'x', '{', '}', 0x7f, 0x80, 0xa0, 0xbf, 0xc2, 0xc3, 0xe2, 0xed, 0xef, 0xf4, 0xfe, 0xff}
	for b := lo; b < lo+16; b++ {
		c20roundtrip(c, one(string([]byte{byte(b)})), b%8 == 0)
		c20roundtrip(c, one("a"+string([]byte{byte(b)})+"b"), false)
		for _, h := range hostile {
			c20roundtrip(c, one(string([]byte{byte(b), h})), false)
			c20roundtrip(c, one(string([]byte{h, byte(b)})), false)
			if c.Stop() {
				return
			}
		}
	}
}

func c20runes(c *Ctx, a []string) {
	for _, r := range []rune{0x80, 0x85, 0xa0, 0xad, 0x2ff, 0x300, 0x600, 0x200b, 0x200e, 0x2028, 0x2029, 0x202e, 0x2060, 0xd7ff, 0xe000, 0xf8ff, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff, 'é', '世', 'π'} {
		for _, s := range []string{string(r), "a" + string(r) + "b", string(r) + string(r), "\"" + string(r) + "\\", string(r) + "\xff", string(r) + "%d"} {
			c20roundtrip(c, one(s), false)
		}
	}
	for _, n := range []int{100, 1000, 4096, 65536} {
		c20roundtrip(c, one(strings.Repeat("long ", n)), true)
		c20roundtrip(c, one(strings.Repeat("\n", n)), true)
	}
}

func randValue(r *rand.Rand) string {
	n := r.Intn(1 + r.Intn(30))
	var b strings.Builder
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			b.WriteByte(byte(r.Intn(256)))
		case 1:
			const odd = "\"\\`'%\n\t\r \x00/*{}$0aZx"
			b.WriteByte(odd[r.Intn(len(odd))])
		case 2:
			b.WriteRune(rune(r.Intn(0x11000)))
		default:
			b.WriteByte(byte(32 + r.Intn(95)))
		}
	}
	return b.String()
}

func randIdent(r *rand.Rand) string {
	for {
		first := []rune("abcxyzABCXYZ_éπΩ世ñ")
		rest := []rune("abcxyzABCXYZ_0189éπΩ世ñ٣")
		s := string(first[r.Intn(len(first))])
		for n := r.Intn(1 + r.Intn(12)); n > 0; n-- {
			s += string(rest[r.Intn(len(rest))])
		}
		switch r.Intn(12) {
		case 0:
			s = []string{"init", "main", "string", "nil", "true", "iota", "x", "var1", "type_", "If", "_1", "len", "any", "doi", "releaseversion"}[r.Intn(15)]
		}
		if !token.IsKeyword(s) && s != "_" {
			return s
		}
	}
}

func randDoc(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return ""
	}
	words := []string{"Version", "is", "the", "release", "date", "of", "100%", "a", "x", "(see", "below)", "value,", "it's", "%d", "%s", "%", "\"quoted\"", "naïve", "世界", "foo/bar", "v1.2.3", "e.g.", "C:\\dir", "<b>", "a*b", "=", "x:", "{}", "identifier", "10.5281/zenodo", "//", "*/", "/*", "&"}
	s := []string{"Name", "The", "A", "releasedate", "Identifier", "Contains", "é"}[r.Intn(7)]
	for n := r.Intn(10); n > 0; n-- {
		s += " " + words[r.Intn(len(words))]
	}
	if r.Intn(2) == 0 {
		s += "."
	}
	return s
}

func randFile(r *rand.Rand) *metavars.File {
	f := &metavars.File{}
	for {
		f.Package = randIdent(r)
		if f.Package != "_" {
			break
		}
	}
	n := r.Intn(7)
	if r.Intn(30) == 0 {
		n = 40 + r.Intn(60)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		p := metavars.Property{Name: randIdent(r), Doc: randDoc(r), Value: randValue(r)}
		if seen[p.Name] {
			p.Name += fmt.Sprint("_", i)
		}
		seen[p.Name] = true
		f.Properties = append(f.Properties, p)
	}
	return f
}

func c20random(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		c20roundtrip(c, randFile(r), r.Intn(10) == 0)
	}
}

// c20large writes descriptions with hundreds of properties, with long
// documentation, long names and long values.
func c20large(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		f := &metavars.File{Package: randIdent(r)}
		for f.Package == "_" {
			f.Package = randIdent(r)
		}
		for k, n := 0, 100+r.Intn(1200); k < n; k++ {
			p := metavars.Property{Name: fmt.Sprint(randIdent(r), "_", k), Doc: randDoc(r), Value: randValue(r)}
			for r.Intn(40) == 0 && p.Doc != "" && len(p.Doc) < 100000 {
				p.Doc += strings.Repeat(" "+randDoc(r)+"x", 1+r.Intn(1+r.Intn(200)))
			}
			if r.Intn(30) == 0 {
				p.Name += strings.Repeat(randIdent(r), r.Intn(1+r.Intn(300)))
			}
			if r.Intn(30) == 0 {
				p.Value = strings.Repeat(p.Value+"\"", r.Intn(1+r.Intn(3000)))
			}
			f.Properties = append(f.Properties, p)
		}
		c20roundtrip(c, f, true)
		g := &metavars.File{Package: f.Package}
		for _, p := range f.Properties {
			if err := g.Add(p); err != nil {
				c.Fail("Add of property %q to %d others: %v", p.Name, len(g.Properties), err)
				return
			}
		}
		for k := 0; k < 60; k++ {
			j := r.Intn(len(f.Properties))
			p := &f.Properties[j]
			if v, ok := g.Get(p.Name); !ok || v != p.Value {
				c.Fail("Get(%q) = %q, %v in a description of %d properties, want %q", p.Name, clip(v, 200), ok, len(f.Properties), clip(p.Value, 200))
			}
			if err := g.Add(*p); err == nil {
				c.Fail("Add of the existing property %q to a description of %d properties was accepted", p.Name, len(f.Properties))
			}
			p.Value = randValue(r)
			if err := g.Set(p.Name, p.Value); err != nil {
				c.Fail("Set(%q): %v in a description of %d properties", p.Name, err, len(f.Properties))
			}
			c.Eval(3)
		}
		if fileString(f) != fileString(g) {
			c.Fail("a description of %d properties differs after additions and settings", len(f.Properties))
		}
		c.Max("max_properties", len(f.Properties))
	}
}

// c20ops replays histories of lookups, additions and settings.
func c20ops(c *Ctx, a []string) {
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		f := randFile(r)
		if r.Intn(3) == 0 {
			f.Properties = nil
		}
		model := &metavars.File{Package: f.Package, Properties: append([]metavars.Property{}, f.Properties...)}
		start := fileString(f)
		pool := []string{"a", "b", "A", "aa", "x", "doi", "", "é"}
		for _, p := range f.Properties {
			pool = append(pool, p.Name)
		}
		hist := ""
		find := func(n string) int {
			for i := range model.Properties {
				if model.Properties[i].Name == n {
					return i
				}
			}
			return -1
		}
		same := func() bool {
			if fileString(f) != fileString(model) {
				c.Fail("start %s history%s: have %s want %s", start, hist, fileString(f), fileString(model))
				return false
			}
			return true
		}
		for k := 0; k < 2+r.Intn(20); k++ {
			n := pool[r.Intn(len(pool))]
			v := randValue(r)
			j := find(n)
			c.Eval(1)
			ok := true
			switch r.Intn(7) {
			case 0, 1:
				hist += fmt.Sprintf(" Get(%q)", n)
				got, has := f.Get(n)
				if has != (j >= 0) || has && got != model.Properties[j].Value || !has && got != "" {
					c.Fail("start %s history%s: Get = %q,%v want present=%v", start, hist, got, has, j >= 0)
					ok = false
				}
				c.Count("get", 1)
			case 2, 3:
				if n == "" {
					continue
				}
				p := metavars.Property{Name: n, Doc: randDoc(r), Value: v}
				hist += fmt.Sprintf(" Add(%q)", p)
				err := f.Add(p)
				if (err == nil) != (j < 0) {
					c.Fail("start %s history%s: error %v, already present=%v", start, hist, err, j >= 0)
					ok = false
				}
				if j < 0 {
					model.Properties = append(model.Properties, p)
					c.Count("add", 1)
				} else {
					c.Count("add-rejected", 1)
				}
			case 4, 5:
				hist += fmt.Sprintf(" Set(%q,%q)", n, v)
				err := f.Set(n, v)
				if (err == nil) != (j >= 0) {
					c.Fail("start %s history%s: error %v, present=%v", start, hist, err, j >= 0)
					ok = false
				}
				if j >= 0 {
					model.Properties[j].Value = v
					c.Count("set", 1)
				} else {
					c.Count("set-rejected", 1)
				}
			case 6:
				hist += " write/read"
				var buf bytes.Buffer
				if err := metavars.Write(&buf, f); err != nil {
					c.Fail("start %s history%s: %v", start, hist, err)
					ok = false
					break
				}
				g, err := metavars.Read(&buf)
				if err != nil {
					c.Fail("start %s history%s: %v", start, hist, err)
					ok = false
					break
				}
				f = g
			}
			if !ok || !same() {
				break
			}
		}
		c.Nontrivial(start, hist)
		c.Sample("history", func() string { return hist })
	}
}

// c20bump drives the release tool on a scratch file.
func c20bump(c *Ctx, a []string) {
	bin := os.Getenv("VERIF_RELEASE")
	r := rand.New(rand.NewSource(atoi64(a[0])))
	for i := 0; i < atoi(a[1]) && !c.Stop(); i++ {
		f := randFile(r)
		keep := f.Properties[:0]
		for _, p := range f.Properties {
			if p.Name != "releaseversion" && p.Name != "releasedate" {
				keep = append(keep, p)
			}
		}
		f.Properties = keep
		miss := r.Intn(4) == 0
		at := r.Intn(len(f.Properties) + 1)
		ins := []metavars.Property{{Name: "releaseversion", Value: "0.0.1", Doc: randDoc(r)}, {Name: "releasedate", Value: "x"}}
		if miss {
			ins = ins[1:]
		}
		f.Properties = append(f.Properties[:at:at], append(ins, f.Properties[at:]...)...)
		name := filepath.Join(c.run.tmp, fmt.Sprintf("bump%d.go", c.id))
		if err := metavars.WriteFile(name, f); err != nil {
			c.Fail("WriteFile(%s): %v", fileString(f), err)
			continue
		}
		before, _ := os.ReadFile(name)
		ver := fmt.Sprintf("%d.%d.%d", r.Intn(20), r.Intn(20), r.Intn(300))
		date := strings.ReplaceAll(randValue(r), "\x00", "")
		bad := r.Intn(5) == 0
		if bad {
			ver = []string{"v1.2.3", "1.2", "x", "1.2.3-rc1"}[r.Intn(4)]
		}
		res := runCmd(bin, "", "bump", "-vars", name, "-date", date, ver)
		c.Eval(1)
		c.Count("bump", 1)
		if bad || miss {
			after, _ := os.ReadFile(name)
			if res.Code == 0 || !bytes.Equal(before, after) {
				c.Fail("bump %q on %s (must be refused): %s; file changed=%v", ver, fileString(f), res, !bytes.Equal(before, after))
			}
			continue
		}
		for k := range f.Properties {
			switch f.Properties[k].Name {
			case "releaseversion":
				f.Properties[k].Value = ver
			case "releasedate":
				f.Properties[k].Value = date
			}
		}
		g, err := metavars.ReadFile(name)
		if err != nil || res.Code != 0 || fileString(g) != fileString(f) {
			c.Fail("bump %q %q: %s, read back %v, %v want %s", ver, date, res, g, err, fileString(f))
		}
		os.Remove(name)
	}
}
