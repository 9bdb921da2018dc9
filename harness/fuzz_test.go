//go:build go1.22

package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
)

// FuzzCase drives the monitors of the property named in VERIF_FUZZ.
func FuzzCase(f *testing.F) {
	sel := strings.SplitN(os.Getenv("VERIF_FUZZ"), "/", 2)
	if len(sel) != 2 {
		f.Skip("no target")
	}
	i, _ := strconv.Atoi(sel[1])
	p, t := props[sel[0]], fuzzTargets[sel[0]][i]
	out := os.Getenv("VERIF_FUZZ_OUT")
	for _, s := range t.Seeds {
		f.Add(s)
	}
	f.Fuzz(func(tt *testing.T, b string) {
		cs, ok := t.Case(b)
		if !ok {
			return
		}
		for _, v := range fuzzOne(p, cs, filepath.Dir(out)) {
			if v.Known != "" {
				continue
			}
			if h, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				j, _ := json.Marshal(v)
				h.Write(append(j, '\n'))
				h.Close()
			}
			tt.Fatal(v.Detail)
		}
	})
}
