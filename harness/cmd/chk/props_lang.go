package main

import (
	"candverif/gen"
	"candverif/lang"
)

// runCase interprets g with the reference model and builds a "run" case; nil
// when the program is not defined by the language.
func runCase(s *gen.Src, p *lang.Prog, minOut int) *Case {
	in := lang.NewInterp()
	out, err := in.Run(p)
	if err != nil {
		return nil
	}
	for k, n := range in.Stats {
		if n > 0 {
			s.Label("dyn:" + k)
		}
	}
	src := lang.Source(p)
	if len(src) > 40000 {
		return nil // LLVM's JIT is slow on huge functions
	}
	return &Case{Judge: "run", Src: src, Want: out, NonTr: len(out) >= minOut, X: map[string]string{}}
}

func progFam(name string, quick, thorough int, mod func(o *lang.Opt), opt func(s *gen.Src) string) Fam {
	return Fam{Name: name, Quick: quick, Thorough: thorough, Gen: func(s *gen.Src) *Case {
		o := lang.DefaultOpt()
		if mod != nil {
			mod(&o)
		}
		g := lang.NewG(s, o)
		p := g.GenProg()
		c := runCase(s, p, 4)
		if c != nil && opt != nil {
			c.X["opt"] = opt(s)
		}
		return c
	}}
}

// optMix picks how the emitted code is executed.
func optMix(s *gen.Src) string {
	return []string{"jit", "verify,jit", "-O0", "-O2"}[s.W(12, 4, 1, 2)]
}

func optAll(s *gen.Src) string { return "verify,jit,-O0,-O2" }

func optAsan(s *gen.Src) string { return []string{"jit", "asan"}[s.W(3, 2)] }

const ruleProg = "the program was compiled and executed and the model predicts at least 4 bytes of output for it; distinct by program text"

func init() {
	register(&Prop{ID: "C04", Title: "control flow", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		progFam("control", 2200, 40000, func(o *lang.Opt) {
			o.WIf, o.WFor, o.WSwitch, o.WJump, o.WBlock, o.WDecl, o.Nest, o.Stmts, o.FnStmts = 9, 7, 5, 6, 2, 5, 4, 9, 6
			o.Heap, o.Lambdas, o.Unions, o.Structs, o.Depth = false, false, false, 1, 2
		}, optMix),
		progFam("loops", 1000, 20000, func(o *lang.Opt) {
			o.WFor, o.WJump, o.WIf, o.Nest, o.Stmts, o.Depth, o.Structs = 14, 10, 6, 4, 6, 2, 0
			o.Floats, o.Strs = false, false
		}, optMix),
		progFam("blocks", 700, 15000, func(o *lang.Opt) {
			o.WBlockE = 9
			o.WSwitch = 5
			o.WIf = 7
			o.Nest = 4
			o.Depth = 3
			o.Stmts = 8
		}, optMix),
	}})
	register(&Prop{ID: "C05", Title: "order", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		{Name: "interference", Quick: 1500, Thorough: 40000, Gen: genInterference},
		progFam("traced", 2200, 40000, func(o *lang.Opt) {
			o.Trace = 9
			o.Depth = 3
			o.WLogic = 5
			o.WIncE = 4
			o.Stmts = 9
			o.WMulti = 5
			o.Funcs = 2
		}, optMix),
		progFam("logic", 1500, 30000, func(o *lang.Opt) {
			o.Trace, o.WLogic, o.Depth, o.Stmts, o.Structs, o.WIf, o.WIncE = 7, 20, 4, 6, 0, 8, 5
		}, optMix),
	}})
	register(&Prop{ID: "C06", Title: "scopes", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		progFam("shadow", 2600, 50000, func(o *lang.Opt) {
			o.Names, o.WDecl, o.WBlock, o.WLambda, o.Nest, o.Globals, o.Depth, o.Stmts, o.WMulti = 3, 12, 7, 3, 4, 4, 2, 14, 4
		}, optMix),
		progFam("one-name", 1000, 20000, func(o *lang.Opt) {
			o.Names, o.WDecl, o.WBlock, o.WLambda, o.Nest, o.Globals, o.Depth, o.Stmts, o.WFor = 1, 10, 9, 3, 5, 2, 2, 10, 5
		}, optMix),
	}})
	register(&Prop{ID: "C07", Title: "aggregates", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		progFam("copies", 2600, 50000, func(o *lang.Opt) {
			o.Agg, o.Structs, o.WAssign, o.WDecl, o.WMulti, o.Depth, o.Funcs = 6, 4, 12, 8, 5, 2, 4
		}, optMix),
		progFam("unions", 700, 15000, func(o *lang.Opt) { o.Agg, o.Structs, o.WAssign, o.Depth, o.UnionBias = 5, 4, 12, 2, true }, optMix),
	}})
	register(&Prop{ID: "C10", Title: "functions", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		progFam("calls", 1300, 30000, func(o *lang.Opt) {
			o.Funcs, o.WCall, o.WCallE, o.FnStmts, o.Depth, o.Stmts, o.WMulti = 6, 8, 9, 4, 2, 9, 4
		}, optMix),
		progFam("lambdas", 1300, 30000, func(o *lang.Opt) {
			o.WLambda, o.WCall, o.WCallE, o.Funcs, o.Stmts, o.Depth, o.Structs = 7, 6, 9, 3, 12, 2, 1
		}, optMix),
		{Name: "closures", Quick: 1200, Thorough: 25000, Gen: genClosures},
	}})
	register(&Prop{ID: "C14", Title: "accept", Rule: ruleProg, Assum: assumBase, Fams: []Fam{
		progFam("mix", 900, 15000, nil, optAll),
		progFam("wide", 500, 10000, func(o *lang.Opt) {
			o.Stmts, o.Funcs, o.Structs, o.Globals, o.Depth, o.FnStmts = 25, 6, 4, 6, 4, 8
		}, optAll),
	}})
}
