package main

import (
	"candverif/gen"
	"candverif/lang"
)

var cmpOps = []string{"==", "!=", "<", "<=", ">", ">="}

// bitsOf shows the exact value of a float through a union.
func (p *pb) show(e *lang.Expr) {
	if e.T.IsFloat() {
		it := lang.I64
		if e.T.Bits == 32 {
			it = lang.I32
		}
		k := "bits " + e.T.String()
		u := p.wrap[k]
		if u == nil {
			u = lang.NewStruct(p.fresh("Bits"), true, []lang.Field{{Name: "f", T: e.T}, {Name: "i", T: it}})
			p.wrap[k] = u
			p.structs = append(p.structs, lang.Item{Struct: u})
		}
		d := &lang.Decl{Name: p.fresh("u"), T: u.T, Owner: p.main}
		p.add(lang.DefStmt(d, e, true))
		p.add(lang.PrintS(lang.FieldOf(lang.V(d), 1)), lang.NL())
		return
	}
	p.add(lang.PrintS(e), lang.NL())
}

// tryProg judges each check on its own so that one undefined operation does
// not discard the whole program.
func (p *pb) defined() bool {
	in := lang.NewInterp()
	_, err := in.Run(p.prog())
	return err == nil
}

// step runs f and undoes its effect when the program became undefined.
func (p *pb) step(f func()) {
	nb, ng, nf, ns := len(p.body), len(p.globals), len(p.funcs), len(p.structs)
	ids, wr := map[string]*lang.Func{}, map[string]*lang.StructDef{}
	for k, v := range p.ids {
		ids[k] = v
	}
	for k, v := range p.wrap {
		wr[k] = v
	}
	p.s.Span(f)
	if !p.defined() {
		p.body, p.globals, p.funcs, p.structs = p.body[:nb], p.globals[:ng], p.funcs[:nf], p.structs[:ns]
		p.ids, p.wrap = ids, wr
	}
}

func opPair(p *pb) {
	s := p.s
	t := lang.Nums[s.N(len(lang.Nums))]
	if t.IsFloat() {
		operand := func() *lang.Expr {
			if s.P(1, 6) {
				// an infinity or a nan
				s.Label("not finite")
				return p.form(t, lang.Bin("/", num(s, t), zeroOf(t)))
			}
			return p.form(t, num(s, t))
		}
		a := operand()
		switch s.W(6, 4, 1, 1, 1) {
		case 4:
			d := p.local(t, a)
			var l *lang.Expr = lang.V(d)
			if s.P(1, 3) {
				l = lang.Un("*", lang.V(p.local(lang.PtrTo(t), lang.Un("&", l))))
			}
			p.show(lang.Un(s.Pick("++", "--"), l))
			p.show(l)
			return
		case 1:
			p.show(lang.Bin(cmpOps[s.N(6)], a, operand()))
			return
		case 2:
			p.show(lang.Un("-", a))
			return
		case 3:
			p.show(lang.Un("!", a))
			return
		}
		p.show(lang.Bin(s.Pick("+", "-", "*", "/", "%"), a, operand()))
		return
	}
	a := p.form(t, num(s, t))
	switch s.W(8, 4, 3, 1, 1, 2) {
	case 0:
		op := s.Pick("+", "-", "*", "/", "%", "&", "|", "^", "/", "%")
		p.show(lang.Bin(op, a, p.form(t, num(s, t))))
	case 1:
		p.show(lang.Bin(cmpOps[s.N(6)], a, p.form(t, num(s, t))))
	case 2:
		n := p.form(lang.I32, lang.Lit(uint64(s.N(t.Bits))))
		p.show(lang.Bin(s.Pick("<<", ">>"), a, n))
	case 3:
		p.show(lang.Un("-", a))
	case 4:
		p.show(lang.Un("!", a))
	case 5:
		d := p.local(t, a)
		var l *lang.Expr = lang.V(d)
		switch s.N(3) {
		case 1:
			q := p.local(lang.PtrTo(t), lang.Un("&", lang.V(d)))
			l = lang.Un("*", lang.V(q))
		case 2:
			at := lang.ArrOf(3, t)
			arr := p.local(at, &lang.Expr{K: lang.EArr, T: at, Args: []*lang.Expr{lang.V(d), lang.V(d), lang.V(d)}})
			l = lang.Index(lang.V(arr), lang.Lit(uint64(s.N(3))))
		}
		p.show(lang.Un(s.Pick("++", "--"), l))
		p.show(l)
	}
}

func pairsFam(name string, quick, thorough, n int, f func(p *pb)) Fam {
	return Fam{Name: name, Quick: quick, Thorough: thorough, Gen: func(s *gen.Src) *Case {
		p := newPB(s)
		s.Rep(1, n, func(int) { p.step(func() { f(p) }) })
		c := runCase(s, p.prog(), 1)
		if c != nil {
			c.X["opt"] = optMix(s)
		}
		return c
	}}
}

// exprs evaluates deep expressions over a handful of variables.
func deepExpr(t func(s *gen.Src) *lang.Type, mod func(o *lang.Opt)) func(s *gen.Src) *Case {
	return func(s *gen.Src) *Case {
		o := lang.DefaultOpt()
		o.Funcs, o.Structs, o.Globals, o.Stmts = 1, 0, 2, 0
		o.Blocks, o.Lambdas, o.Heap = false, false, false
		if mod != nil {
			mod(&o)
		}
		g := lang.NewG(s, o)
		p := g.GenProg()
		m := g.Prog.Main
		body := m.Body
		m.Body = nil
		// variables, then expressions
		k := s.Range(1, 5)
		var st []*lang.Stmt
		g.Enter(m, func() {
			for i := 0; i < k; i++ {
				ty := t(s)
				d := g.NewVar(ty)
				st = append(st, lang.DefStmt(d, g.Literal(ty), false))
				g.Add(d)
			}
			s.Rep(1, 6, func(int) {
				e := g.Expr(t(s), s.Range(2, 5))
				st = append(st, lang.PrintS(e), lang.NL())
			})
		})
		m.Body = append(body, st...)
		c := runCase(s, p, 1)
		if c != nil {
			c.X["opt"] = optMix(s)
		}
		return c
	}
}

func castPair(p *pb) {
	s := p.s
	all := append([]*lang.Type{lang.I1}, lang.Nums...)
	t := all[s.N(len(all))]
	var e *lang.Expr
	if t.IsBool() {
		e = lang.ConstLit(t, uint64(s.N(2)))
		if s.P(1, 2) {
			a, b := uint64(s.N(3)), uint64(s.N(3))
			e = lang.V(p.local(t, lang.Bin(cmpOps[s.N(6)], lang.V(p.local(lang.I32, lang.Lit(a))), lang.Lit(b))))
		}
	} else if t.IsFloat() && s.P(2, 3) {
		f := []float64{0, 0.5, 0.999, 1, 1.5, 2.5, 3.75, 100, 126.9, 127, 128, 254.5, 255, 1000.75, 32767, 65535, 70000, 2147483520, 4294967040, 1e15}[s.N(20)]
		e = lang.FLit(f)
		if s.P(1, 3) {
			e = lang.Bin("-", lang.FLit(0), e)
		}
		e = lang.CastIf(e, t)
	} else {
		e = num(s, t)
	}
	if constSafe(e) && noRuntime(e) {
		e = p.form(t, e)
	} else {
		e = lang.V(p.local(t, e))
	}
	n := s.Range(1, 4)
	for i := 0; i < n; i++ {
		k := all[s.N(len(all))]
		e = lang.Cast(e, k)
		if constSafe(e) && noRuntime(e) && s.P(1, 3) || s.P(1, 6) {
			if noRuntime(e) {
				e = p.form(k, e)
			} else {
				e = lang.V(p.local(k, e))
			}
		}
	}
	p.show(e)
	if s.P(1, 3) && !e.T.IsBool() {
		p.show(lang.Bin("+", e, num(s, e.T)))
	}
}

// noRuntime tells whether e only contains literals.
func noRuntime(e *lang.Expr) bool {
	switch e.K {
	case lang.EVar, lang.ECall, lang.EField, lang.EIndex, lang.EUn:
		return false
	case lang.ECast:
		return noRuntime(e.A)
	case lang.EBin:
		return !lang.IsCmp(e.Op) && noRuntime(e.A) && noRuntime(e.B)
	}
	return true
}

func anyInt(s *gen.Src) *lang.Type { return lang.Ints[s.N(len(lang.Ints))] }
func anyNum(s *gen.Src) *lang.Type { return lang.Nums[s.N(len(lang.Nums))] }

const ruleOut = "the program was compiled and executed and the model predicts at least 1 byte of output for it; distinct by program text"

var assumBase = []string{
	"the model in harness/lang describes the language; programs whose behaviour it leaves open (division by zero, shifts by the width or more, out of bounds, undefined values) are discarded",
	"lli-18 and clang-17 execute the emitted LLVM module faithfully",
}

func init() {
	register(&Prop{ID: "C01", Title: "ops", Rule: ruleOut, Assum: assumBase, Fams: []Fam{
		pairsFam("pairs", 2600, 40000, 16, opPair),
		{Name: "deep-int", Quick: 1200, Thorough: 20000, Gen: deepExpr(anyInt, nil)},
		{Name: "deep-num", Quick: 800, Thorough: 15000, Gen: deepExpr(anyNum, func(o *lang.Opt) { o.Strs = false })},
	}})
	register(&Prop{ID: "C02", Title: "casts", Rule: ruleOut, Assum: assumBase, Fams: []Fam{
		pairsFam("chains", 3500, 50000, 14, castPair),
		{Name: "deep", Quick: 800, Thorough: 15000, Gen: deepExpr(anyNum, func(o *lang.Opt) { o.WCastE = 20; o.Strs = false })},
	}})
}
