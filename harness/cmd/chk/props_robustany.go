package main

import (
	"sort"
	"strings"

	"candverif/gen"
)

// Texts of all the other generators, several files included, with names,
// types, literals and operators exchanged: almost right programs that use
// features together which no generator of correct programs combines.

var robustFrom = [][2]string{
	{"C04", "control"}, {"C06", ""}, {"C07", ""}, {"C08", ""}, {"C10", ""}, {"C11", ""}, {"C12", ""}, {"C14", ""}, {"C15", ""},
	{"C16", "modules"}, {"C16", "modules"}, {"C16", "methods"}, {"C11", "uses"}, {"C11", "uses"}, {"C22", ""}, {"C23", ""}, {"C25", ""}, {"C26", ""}, {"C05", ""}, {"C13", ""}, {"C24", ""},
}

func genRobustAny(s *gen.Src) *Case {
	f := robustFrom[s.N(len(robustFrom))]
	var fams []Fam
	for _, x := range props[f[0]].Fams {
		if x.Name == f[1] || f[1] == "" && x.Name != "long" {
			fams = append(fams, x)
		}
	}
	if len(fams) == 0 {
		panic("no family " + f[0] + " " + f[1])
	}
	fam := fams[s.N(len(fams))]
	base := fam.Gen(s)
	if base == nil || base.Src == "" || len(base.Src) > 15000 {
		return nil
	}
	s.Labels = map[string]int{}
	s.Label("from " + f[0] + " " + fam.Name)
	var names []string
	for n := range base.Files {
		if strings.HasSuffix(n, ".cd") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	// one list of the tokens of all files, so that names cross them
	var all []string
	for _, text := range append([]string{base.Src}, rbTexts(base.Files, names)...) {
		for _, t := range gTokens(text) {
			all = append(all, t.t)
		}
		all = append(all, "\x01")
	}
	all = mutNames(s, all)
	parts := make([][]string, 1)
	for _, t := range all {
		if t == "\x01" {
			parts = append(parts, nil)
			continue
		}
		parts[len(parts)-1] = append(parts[len(parts)-1], t)
	}
	if s.P(1, 4) {
		k := s.N(len(parts) - 1)
		parts[k] = mutTokens(s, parts[k])
	}
	files := map[string]string{}
	for i, n := range names {
		files[n] = strings.Join(parts[i+1], " ")
	}
	c := &Case{Judge: "robust", Src: strings.Join(parts[0], " "), Files: files, NonTr: true, X: map[string]string{"ops": "ir"}}
	if s.P(1, 3) {
		c.X["verify"] = "1"
	}
	return c
}

func rbTexts(files map[string]string, names []string) (out []string) {
	for _, n := range names {
		out = append(out, files[n])
	}
	return
}
