package main

import (
	"candverif/gen"
	"candverif/lang"
)

// C26: names given to types are transparent.

func genAlias(mod func(o *lang.Opt)) func(s *gen.Src) *Case {
	return func(s *gen.Src) *Case {
		o := lang.DefaultOpt()
		o.Stmts, o.Depth, o.Structs = 9, 2, 3
		mod(&o)
		p := lang.NewG(s, o).GenProg()
		c := runCase(s, p, 4)
		if c == nil {
			return nil
		}
		n := 0
		c.Src, n = lang.WithAliases(p, s.N)
		s.LabelN("type names", n)
		c.NonTr = c.NonTr && n > 1
		c.X["opt"] = optMix(s)
		return c
	}
}

func init() {
	register(&Prop{ID: "C26", Rule: "at least two type names are defined and the model predicts at least 4 bytes of output; distinct by program text", Fams: []Fam{
		{Name: "names", Quick: 1500, Thorough: 30000, Gen: genAlias(func(o *lang.Opt) {})},
		{Name: "aggregates", Quick: 700, Thorough: 15000, Gen: genAlias(func(o *lang.Opt) { o.Agg, o.WAssign, o.WDecl = 5, 9, 9 })},
		{Name: "functions", Quick: 700, Thorough: 15000, Gen: genAlias(func(o *lang.Opt) { o.Funcs, o.WCall, o.WCallE, o.WLambda, o.WHeap = 5, 7, 7, 4, 3 })},
	}})
}
