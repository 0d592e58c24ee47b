package main

import (
	"candverif/gen"
	"candverif/lang"
)

// Interference: the parts of an expression change what its other parts read.
type inter struct {
	*pb
	i32f, st     *lang.Type
	paths        map[string][]func() *lang.Expr
	fa, fb, idx  *lang.Decl
	muts         []*lang.Decl
	s, i, x, str *lang.Decl
	b            *lang.Decl
}

func (p *inter) index() *lang.Expr {
	switch p.pb.s.W(4, 3, 3) {
	case 0:
		return lang.Lit(uint64(p.pb.s.N(2)))
	case 1:
		return lang.V(p.i)
	}
	return p.block(lang.I32, 1, func() *lang.Expr { return lang.V(p.i) })
}

func (p *inter) types() []*lang.Type {
	return []*lang.Type{lang.I32, p.i32f, lang.PtrTo(lang.I32), lang.PtrTo(p.st), lang.Str, lang.I1, p.st}
}

func (p *inter) lval(t *lang.Type) *lang.Expr {
	l := p.paths[t.String()]
	return l[p.pb.s.N(len(l))]()
}

func (p *inter) lit(t *lang.Type) *lang.Expr {
	s := p.pb.s
	switch {
	case t.IsBool():
		return lang.Bin(cmpOps[s.N(6)], lang.V(p.x), lang.Lit(uint64(s.N(9))))
	case t.IsInt():
		return lang.Lit(uint64(s.N(90)))
	case t.IsStr():
		return lang.StrLit(s.Pick("", "a", "bc", "d"))
	case t.K == lang.KFunc:
		if s.P(1, 2) {
			return lang.V(p.fa)
		}
		return lang.V(p.fb)
	case t.K == lang.KPtr:
		return lang.Un("&", p.lval(t.Elem))
	}
	return lang.V(p.s)
}

// change is a statement that changes something.
func (p *inter) change(d int) *lang.Stmt {
	if p.pb.s.P(1, 6) {
		return lang.Assign(lang.V(p.i), lang.Lit(uint64(p.pb.s.N(2))))
	}
	ts := p.types()
	t := ts[p.pb.s.W(5, 3, 2, 2, 1, 1, 1)]
	return lang.Assign(p.lval(t), p.expr(t, d-1))
}

func (p *inter) block(t *lang.Type, d int, e func() *lang.Expr) *lang.Expr {
	var b []*lang.Stmt
	n := p.pb.s.Range(1, 2)
	for k := 0; k < n; k++ {
		if p.pb.s.P(1, 6) {
			b = append(b, &lang.Stmt{K: lang.SIf, Cond: p.expr(lang.I1, 0), Body: []*lang.Stmt{p.change(d)}})
			continue
		}
		b = append(b, p.change(d))
	}
	b = append(b, &lang.Stmt{K: lang.SReturn, E: e()})
	return &lang.Expr{K: lang.EBlock, T: t, Body: b, Paren: true}
}

func (p *inter) expr(t *lang.Type, d int) *lang.Expr {
	s := p.pb.s
	if d <= 0 {
		if s.P(1, 3) {
			return p.lit(t)
		}
		return p.lval(t)
	}
	switch s.W(3, 4, 3) {
	case 0:
		return p.lval(t)
	case 1:
		return p.block(t, d, func() *lang.Expr { return p.expr(t, d-1) })
	}
	switch {
	case t.IsBool():
		if s.P(1, 3) {
			return lang.Bin(s.Pick("&&", "||"), p.expr(t, d-1), p.expr(t, d-1))
		}
		if s.P(1, 3) {
			return lang.Bin(s.Pick("==", "!=", "<", ">"), p.expr(lang.Str, d-1), p.expr(lang.Str, d-1))
		}
		return lang.Bin(cmpOps[s.N(6)], p.expr(lang.I32, d-1), p.expr(lang.I32, d-1))
	case t.IsInt():
		switch s.W(3, 4, 2, 2, 1) {
		case 0:
			return lang.Bin(s.Pick("+", "-", "*", "^", "&", "|"), p.expr(t, d-1), p.expr(t, d-1))
		case 1:
			return lang.Call(p.expr(p.i32f, d-1), p.expr(t, d-1))
		case 2:
			m := p.muts[s.N(len(p.muts))]
			c := lang.Call(lang.V(m), p.expr(lang.PtrTo(p.st), d-1), p.expr(t, d-1))
			return c
		case 3:
			return lang.Un(s.Pick("++", "--"), p.lval(t))
		}
		c := lang.Call(lang.V(p.idx), p.lval(p.st), p.expr(t, d-1))
		c.Method = true
		return c
	case t.IsStr():
		return lang.Bin("+", p.expr(t, d-1), p.expr(t, d-1))
	case t.Eq(lang.PtrTo(lang.I32)):
		return lang.Un("&", p.lval(lang.I32))
	case t.K == lang.KStruct:
		ar := lang.ArrOf(3, lang.I32)
		return &lang.Expr{K: lang.EStruct, T: t, Names: []string{"f", "n", "arr"}, Args: []*lang.Expr{p.expr(p.i32f, d-1), p.expr(lang.I32, d-1),
			{K: lang.EArr, T: ar, Args: []*lang.Expr{p.expr(lang.I32, d-1), p.expr(lang.I32, 1), p.expr(lang.I32, 1)}}}}
	}
	return p.lval(t)
}

func genInterference(s *gen.Src) *Case {
	p := &inter{pb: newPB(s)}
	i32 := lang.I32
	p.i32f = lang.FuncOf([]*lang.Type{i32}, i32)
	ar := lang.ArrOf(3, i32)
	sd := lang.NewStruct("S", false, []lang.Field{{Name: "n", T: i32}, {Name: "arr", T: ar}, {Name: "f", T: p.i32f}})
	p.structs = append(p.structs, lang.Item{Struct: sd})
	p.st = sd.T
	mk := func(name string, ps []*lang.Decl, body ...*lang.Stmt) *lang.Decl {
		f := &lang.Func{Name: name, Params: ps, R: []*lang.Type{i32}, Body: body}
		for _, d := range ps {
			d.Owner = f
		}
		return p.fn(f)
	}
	gx := p.global(i32, lang.Lit(5), false)
	gstr := p.global(lang.Str, lang.StrLit("g"), false)
	ret := func(e *lang.Expr) *lang.Stmt { return &lang.Stmt{K: lang.SReturn, E: e} }
	fx := func() *lang.Decl { return &lang.Decl{Name: "k", T: i32} }
	k := fx()
	p.fa = mk("fa", []*lang.Decl{k}, lang.PrintS(lang.StrLit("A"), lang.V(k)), ret(lang.Bin("+", lang.V(k), lang.Lit(1))))
	k = fx()
	p.fb = mk("fb", []*lang.Decl{k}, lang.PrintS(lang.StrLit("B"), lang.V(k)), lang.ExprS(lang.Un("++", lang.V(gx))), ret(lang.Bin("*", lang.V(k), lang.Lit(3))))
	gf := p.global(p.i32f, lang.V(p.fa), false)
	for m := 0; m < 3; m++ {
		q := &lang.Decl{Name: "q", T: lang.PtrTo(p.st)}
		k = fx()
		var b []*lang.Stmt
		n := lang.FieldOf(lang.V(q), 0)
		switch m {
		case 0:
			b = append(b, lang.Assign(n, lang.V(k)))
		case 1:
			b = append(b, lang.Assign(lang.FieldOf(lang.V(q), 2), lang.V(p.fb)), lang.Assign(lang.V(gf), lang.V(p.fb)))
		case 2:
			b = append(b, lang.Assign(lang.Index(lang.FieldOf(lang.V(q), 1), lang.Lit(uint64(s.N(3)))), lang.V(k)), lang.Assign(lang.V(gx), lang.V(k)))
		}
		b = append(b, ret(lang.Bin("+", lang.FieldOf(lang.V(q), 0), lang.V(gx))))
		p.muts = append(p.muts, mk(p.fresh("mut"), []*lang.Decl{q, k}, b...))
	}
	r := &lang.Decl{Name: "r", T: p.st}
	k = fx()
	p.idx = mk("zm", []*lang.Decl{r, k}, ret(lang.Bin("-", lang.FieldOf(lang.V(r), 0), lang.V(k))))
	// the state
	lit := func(n uint64, f *lang.Decl) *lang.Expr {
		return &lang.Expr{K: lang.EStruct, T: p.st, Names: []string{"n", "arr", "f"}, Args: []*lang.Expr{lang.Lit(n), {K: lang.EArr, T: ar, Args: []*lang.Expr{lang.Lit(n + 1), lang.Lit(n + 2), lang.Lit(n + 3)}}, lang.V(f)}}
	}
	p.s = p.local(p.st, lit(10, p.fa))
	tst := lang.ArrOf(2, p.st)
	ts := p.local(tst, &lang.Expr{K: lang.EArr, T: tst, Args: []*lang.Expr{lit(20, p.fa), lit(30, p.fb)}})
	p.x = p.local(i32, lang.Lit(7))
	p.i = p.local(i32, lang.Lit(1))
	p.b = p.local(lang.I1, lang.Bin("<", lang.V(p.x), lang.Lit(3)))
	p.str = p.local(lang.Str, lang.StrLit("s"))
	fst := lang.ArrOf(2, p.i32f)
	fs := p.local(fst, &lang.Expr{K: lang.EArr, T: fst, Args: []*lang.Expr{lang.V(p.fa), lang.V(p.fb)}})
	pp := p.local(lang.PtrTo(i32), lang.Un("&", lang.V(p.x)))
	q := p.local(lang.PtrTo(p.st), lang.Un("&", lang.V(p.s)))
	sts := []func() *lang.Expr{
		func() *lang.Expr { return lang.V(p.s) },
		func() *lang.Expr { return lang.Index(lang.V(ts), p.index()) },
	}
	of := func() *lang.Expr {
		if s.P(1, 3) {
			return lang.V(q)
		}
		return sts[s.N(2)]()
	}
	p.paths = map[string][]func() *lang.Expr{
		p.st.String(): append(sts, func() *lang.Expr { return lang.Un("*", lang.V(q)) }),
		i32.String(): {
			func() *lang.Expr { return lang.V(p.x) },
			func() *lang.Expr { return lang.V(gx) },
			func() *lang.Expr { return lang.Un("*", lang.V(pp)) },
			func() *lang.Expr { return lang.FieldOf(of(), 0) },
			func() *lang.Expr { return lang.Index(lang.FieldOf(of(), 1), p.index()) },
		},
		p.i32f.String(): {
			func() *lang.Expr { return lang.V(gf) },
			func() *lang.Expr { return lang.Index(lang.V(fs), p.index()) },
			func() *lang.Expr { return lang.FieldOf(of(), 2) },
			func() *lang.Expr { return lang.FieldOf(of(), 2) },
		},
		lang.PtrTo(i32).String():  {func() *lang.Expr { return lang.V(pp) }},
		lang.PtrTo(p.st).String(): {func() *lang.Expr { return lang.V(q) }},
		lang.Str.String():         {func() *lang.Expr { return lang.V(p.str) }, func() *lang.Expr { return lang.V(gstr) }},
		lang.I1.String():          {func() *lang.Expr { return lang.V(p.b) }},
	}
	shown := func() {
		p.add(lang.PrintS(lang.V(p.x), lang.V(gx), lang.V(p.i), lang.V(p.b), lang.V(p.str), lang.V(gstr), lang.Un("*", lang.V(pp)), lang.FieldOf(lang.V(q), 0)))
		for _, e := range []*lang.Expr{lang.V(p.s), lang.Index(lang.V(ts), lang.Lit(0)), lang.Index(lang.V(ts), lang.Lit(1))} {
			p.add(lang.PrintS(lang.FieldOf(e, 0), lang.Index(lang.FieldOf(e, 1), lang.Lit(0)), lang.Index(lang.FieldOf(e, 1), lang.Lit(1)), lang.Index(lang.FieldOf(e, 1), lang.Lit(2)),
				lang.Bin("==", lang.FieldOf(e, 0), lang.Lit(10))))
		}
		p.add(lang.NL())
	}
	s.Rep(1, 5, func(int) {
		p.step(func() {
			all := p.types()
			t := all[s.W(5, 3, 1, 1, 1, 2, 1)]
			switch s.W(4, 4, 3, 3) {
			case 0:
				p.add(lang.Assign(p.lval(t), p.expr(t, 2)))
			case 1:
				var as []*lang.Expr
				s.Rep(1, 3, func(int) { as = append(as, p.expr([]*lang.Type{i32, i32, i32, lang.Str, lang.I1}[s.N(5)], 2)) })
				p.add(lang.PrintS(as...), lang.NL())
			case 2:
				l, r := &lang.Expr{K: lang.EList}, &lang.Expr{K: lang.EList}
				s.Rep(2, 3, func(int) {
					t := all[s.W(5, 3, 1, 1, 1)]
					l.Args, r.Args = append(l.Args, p.lval(t)), append(r.Args, p.expr(t, 2))
				})
				if len(l.Args) < 2 {
					return
				}
				p.add(&lang.Stmt{K: lang.SAssign, L: l, E: r})
			case 3:
				st := &lang.Stmt{K: lang.SMulti, E: &lang.Expr{K: lang.EList}}
				s.Rep(2, 3, func(int) {
					st.Ds = append(st.Ds, &lang.Decl{Name: p.fresh("m"), T: i32, Owner: p.main})
					st.E.Args = append(st.E.Args, p.expr(i32, 2))
				})
				if len(st.Ds) < 2 {
					return
				}
				p.add(st)
				var as []*lang.Expr
				for _, d := range st.Ds {
					as = append(as, lang.V(d))
				}
				p.add(lang.PrintS(as...))
			}
			shown()
		})
	})
	for _, f := range []*lang.Expr{lang.V(gf), lang.FieldOf(lang.V(p.s), 2), lang.Index(lang.V(fs), lang.Lit(0)), lang.Index(lang.V(fs), lang.Lit(1)), lang.FieldOf(lang.Index(lang.V(ts), lang.Lit(0)), 2), lang.FieldOf(lang.Index(lang.V(ts), lang.Lit(1)), 2)} {
		p.add(lang.PrintS(lang.Call(f, lang.Lit(1))))
	}
	c := runCase(s, p.prog(), 12)
	if c != nil {
		c.X["opt"] = optMix(s)
	}
	return c
}
