package main

import (
	"candverif/gen"
	"candverif/lang"
)

// C11: a constant expression has the value that the same expression has at run
// time. Each expression is computed three times: by the model, by the compiler
// (globals, constants, cases) and by the program (same tree over variables).

type constG struct {
	p      *pb
	consts []*lang.Decl
	slots  []constSlot
	nested int
}

// constSlot is a leaf of the expression and the variable that holds its value
// in the run-time twin.
type constSlot struct {
	leaf *lang.Expr
	d    *lang.Decl
}

var constTypes = append([]*lang.Type{}, lang.Nums...)

func (g *constG) leaf(t *lang.Type) *lang.Expr {
	s := g.p.s
	var cs []*lang.Decl
	for _, d := range g.consts {
		if d.T.Eq(t) {
			cs = append(cs, d)
		}
	}
	if len(cs) > 0 && s.P(2, 5) {
		return lang.V(cs[s.N(len(cs))])
	}
	if t.IsBool() {
		k := constTypes[s.N(len(constTypes))]
		return lang.Bin(cmpOps[s.N(6)], g.lit(k), g.lit(k))
	}
	return g.lit(t)
}

func (g *constG) lit(t *lang.Type) *lang.Expr {
	s := g.p.s
	switch {
	case t.IsFloat():
		e := lang.FLit(floatEdges[s.N(len(floatEdges))])
		if s.P(1, 4) {
			return lang.CastIf(lang.Un("-", e), t)
		}
		return lang.CastIf(e, t)
	case t.Eq(lang.I32) && s.P(1, 10):
		return &lang.Expr{K: lang.ESizeof, T: lang.I32, Ty: []*lang.Type{lang.I8, lang.U16, lang.F32, lang.I64, lang.Str, lang.ArrOf(3, lang.I16)}[s.N(6)]}
	case t.Eq(lang.I8) && s.P(1, 6):
		return &lang.Expr{K: lang.EChar, T: lang.I8, U: uint64('a' + s.N(26))}
	}
	return lang.IntLit(t, edge(s, t))
}

func (g *constG) expr(t *lang.Type, depth int) *lang.Expr {
	s := g.p.s
	if depth <= 0 {
		return g.leaf(t)
	}
	if t.IsBool() {
		switch s.W(5, 2, 1, 1) {
		case 0:
			k := constTypes[s.N(len(constTypes))]
			return lang.Bin(cmpOps[s.N(6)], g.expr(k, depth-1), g.expr(k, depth-1))
		case 1:
			return lang.Bin(s.Pick("&&", "||"), g.expr(t, depth-1), g.expr(t, depth-1))
		case 2:
			return lang.Un("!", g.expr(t, depth-1))
		case 3:
			return lang.Un("!", g.expr(constTypes[s.N(len(constTypes))], depth-1))
		}
	}
	switch s.W(5, 2, 2, 1, 1) {
	case 1:
		return lang.Un("-", g.expr(t, depth-1))
	case 2:
		k := constTypes[s.N(len(constTypes))]
		if s.P(1, 8) && t.IsInt() {
			k = lang.I1
		}
		return lang.Cast(g.expr(k, depth-1), t)
	case 3:
		return lang.Un("+", g.expr(t, depth-1))
	case 4:
		return g.leaf(t)
	}
	a := g.expr(t, depth-1)
	if t.IsFloat() {
		return lang.Bin(s.Pick("+", "-", "*", "/"), a, g.expr(t, depth-1))
	}
	op := s.Pick("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>")
	if op == "<<" || op == ">>" {
		return lang.Bin(op, a, lang.Lit(uint64(s.N(t.Bits))))
	}
	return lang.Bin(op, a, g.expr(t, depth-1))
}

// twin is the same tree with its leaves in variables.
func (g *constG) twin(e *lang.Expr) *lang.Expr {
	switch e.K {
	case lang.EUn:
		if !(e.Op == "-" && e.A.K == lang.EInt) {
			return lang.Un(e.Op, g.twin(e.A))
		}
	case lang.EBin:
		return lang.Bin(e.Op, g.twin(e.A), g.twin(e.B))
	case lang.ECast:
		if e.A.K != lang.EInt && e.A.K != lang.EFloat {
			return lang.Cast(g.twin(e.A), e.T)
		}
	}
	if g.p.s.P(1, 4) {
		return e
	}
	return lang.V(g.p.local(e.T, e))
}

func constStep(g *constG) {
	p, s := g.p, g.p.s
	t := constTypes[s.N(len(constTypes))]
	if s.P(1, 4) {
		t = lang.I1
	}
	depth := s.Range(1, 4)
	e := g.expr(t, depth)
	switch s.W(4, 3, 3, 2) {
	case 0: // global constant
		d := p.global(t, e, true)
		g.consts = append(g.consts, d)
		p.show(lang.V(d))
	case 1: // global variable
		p.show(lang.V(p.global(t, e, false)))
	case 2: // local constant
		d := p.constant(t, e)
		p.show(lang.V(d))
	case 3: // cases of a switch
		if t.IsFloat() || t.IsBool() {
			t = lang.Ints[s.N(len(lang.Ints))]
			e = g.expr(t, depth)
		}
		k := s.Range(1, 3)
		hit := s.N(k + 1)
		sw := &lang.Stmt{K: lang.SSwitch}
		for i := 0; i < k; i++ {
			ce := e
			if i > 0 {
				ce = lang.Bin("+", e, lang.IntLit(t, uint64(i)))
			}
			sw.Cases = append(sw.Cases, lang.Case{E: ce, Body: []*lang.Stmt{lang.PrintS(lang.Lit(uint64(i))), lang.NL()}})
		}
		sw.Cond = lang.Bin("+", lang.V(p.local(t, e)), lang.V(p.local(t, lang.IntLit(t, uint64(hit)))))
		sw.HasEl, sw.Else = true, []*lang.Stmt{lang.PrintS(lang.Lit(99)), lang.NL()}
		p.add(sw)
	}
	p.show(g.twin(e))
	// The compiler folds both operands of && and ||: the second one is also defined.
	g.operands(e)
}

func (g *constG) operands(e *lang.Expr) {
	if e == nil {
		return
	}
	if e.K == lang.EBin && (e.Op == "&&" || e.Op == "||") {
		g.p.add(lang.PrintS(e.B), lang.NL())
	}
	g.operands(e.A)
	g.operands(e.B)
}

func genConst(s *gen.Src) *Case {
	p := newPB(s)
	g := &constG{p: p}
	s.Rep(1, 10, func(int) {
		n := len(g.consts)
		p.step(func() { constStep(g) })
		if len(g.consts) > n && !g.has(g.consts[n]) {
			g.consts = g.consts[:n]
		}
	})
	c := runCase(s, p.prog(), 1)
	if c != nil {
		c.X["opt"] = optMix(s)
	}
	return c
}

// has tells whether the constant is still in the program.
func (g *constG) has(d *lang.Decl) bool {
	for _, it := range g.p.globals {
		if it.Global != nil && it.Global.D == d {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C11", Title: "constants", Rule: ruleOut, Assum: assumBase, Fams: []Fam{
		{Name: "constants", Quick: 3000, Thorough: 60000, Gen: genConst},
		{Name: "uses", Quick: 1500, Thorough: 30000, Gen: genConstUse},
	}})
}
