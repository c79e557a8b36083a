package main

// The results of phase 0 on the committed tree, used as a starting point: a run
// of phase 0 that starts from them and refutes nothing has shown that they hold
// on the tree at hand. A violation found with their help is only reported when
// the analysis finds it without them too.

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed hints.txt
var hintText string

var noHints = os.Getenv("NOHINTS") != ""

func (p *Program) loadHints() bool {
	if strings.TrimSpace(hintText) == "" {
		return false
	}
	field := func(s string) *types.Var { return fieldsByName[s] }
	for _, l := range strings.Split(hintText, "\n") {
		w := strings.Split(l, "\t")
		if len(w) < 2 {
			continue
		}
		switch w[0] {
		case "null":
			p.nullable[w[1]] = true
		case "unst":
			if f := field(w[1]); f != nil {
				p.unstable[f] = true
			}
		case "wr":
			if f := field(w[1]); f != nil {
				if p.writers[f] == nil {
					p.writers[f] = map[string]bool{}
				}
				p.writers[f][w[2]] = true
			}
		case "map":
			if p.mapWr[w[1]] == nil {
				p.mapWr[w[1]] = map[string]bool{}
			}
			p.mapWr[w[1]][w[2]] = true
		case "pair":
			a, b := field(w[1]), field(w[2])
			if a != nil && b != nil {
				p.pairBad[[2]*types.Var{a, b}] = true
			}
		case "range":
			if f := field(w[1]); f != nil {
				var r iv
				fmt.Sscan(w[2], &r.lo)
				fmt.Sscan(w[3], &r.hi)
				p.ranges[f] = r
			}
		case "list":
			if t := p.typeByName(w[1]); t != nil || w[1] == "?" {
				p.listTypes[w[1]] = t
			}
		}
	}
	return true
}

func (p *Program) typeByName(s string) types.Type {
	if strings.HasPrefix(s, "*") {
		if t := p.typeByName(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	i := strings.LastIndex(s, ".")
	if i < 0 {
		return nil
	}
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == s[:i] {
			if t := pk.Type(s[i+1:]); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

func (p *Program) dumpHints() {
	var out []string
	add := func(w ...string) {
		for _, x := range w {
			if strings.Contains(x, "@") {
				return
			}
		}
		out = append(out, strings.Join(w, "\t"))
	}
	for k := range p.nullable {
		add("null", k)
	}
	for f := range p.unstable {
		add("unst", fieldNames[f])
	}
	for f, m := range p.writers {
		for c := range m {
			add("wr", fieldNames[f], c)
		}
	}
	for k, m := range p.mapWr {
		for c := range m {
			add("map", k, c)
		}
	}
	for k := range p.pairBad {
		add("pair", fieldNames[k[0]], fieldNames[k[1]])
	}
	for f, r := range p.ranges {
		add("range", fieldNames[f], fmt.Sprint(r.lo), fmt.Sprint(r.hi))
	}
	for k := range p.listTypes {
		add("list", k)
	}
	sort.Strings(out)
	os.WriteFile(filepath.Join(verifDir, "trucheck", "hints.txt"), []byte(strings.Join(out, "\n")+"\n"), 0644)
}
