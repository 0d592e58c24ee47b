package main

import (
	"fmt"

	"candverif/gen"
	"candverif/lang"
)

// pb assembles a program around a list of main statements.
type pb struct {
	s       *gen.Src
	structs []lang.Item
	globals []lang.Item
	funcs   []lang.Item
	body    []*lang.Stmt
	n       int
	ids     map[string]*lang.Func
	main    *lang.Func
	wrap    map[string]*lang.StructDef
	used    map[string]bool
}

func newPB(s *gen.Src) *pb {
	return &pb{s: s, ids: map[string]*lang.Func{}, wrap: map[string]*lang.StructDef{}, main: &lang.Func{Name: "main"}, used: map[string]bool{}}
}

func (p *pb) fresh(pre string) string { p.n++; return fmt.Sprintf("%s%d", pre, p.n) }

func (p *pb) add(st ...*lang.Stmt) { p.body = append(p.body, st...) }

func (p *pb) prog() *lang.Prog {
	g := &lang.Prog{Main: p.main}
	p.main.Body = p.body
	p.main.D = &lang.Decl{Name: "main", T: p.main.Type(), Fn: p.main, Global: true}
	g.Items = append(g.Items, p.structs...)
	g.Items = append(g.Items, p.globals...)
	g.Items = append(g.Items, p.funcs...)
	g.Items = append(g.Items, lang.Item{Fn: p.main})
	return g
}

func (p *pb) local(t *lang.Type, e *lang.Expr) *lang.Decl {
	d := &lang.Decl{Name: p.fresh("v"), T: t, Owner: p.main}
	p.add(lang.DefStmt(d, e, p.s.P(1, 4)))
	return d
}

func (p *pb) constant(t *lang.Type, e *lang.Expr) *lang.Decl {
	d := &lang.Decl{Name: p.fresh("c"), T: t, Owner: p.main, Const: true}
	p.add(lang.DefStmt(d, e, p.s.P(1, 4)))
	return d
}

func (p *pb) global(t *lang.Type, e *lang.Expr, konst bool) *lang.Decl {
	d := &lang.Decl{Name: p.fresh("g"), T: t, Global: true, Const: konst}
	p.globals = append(p.globals, lang.Item{Global: lang.DefStmt(d, e, p.s.P(1, 4))})
	return d
}

func (p *pb) fn(f *lang.Func) *lang.Decl {
	f.D = &lang.Decl{Name: f.Name, T: f.Type(), Fn: f, Global: true, Const: true}
	p.funcs = append(p.funcs, lang.Item{Fn: f})
	return f.D
}

// id is a function that returns its argument.
func (p *pb) id(t *lang.Type) *lang.Decl {
	k := t.String()
	if f := p.ids[k]; f != nil {
		return f.D
	}
	f := &lang.Func{Name: p.fresh("id"), R: []*lang.Type{t}}
	x := &lang.Decl{Name: "x", T: t, Owner: f}
	f.Params = []*lang.Decl{x}
	f.Body = []*lang.Stmt{{K: lang.SReturn, E: lang.V(x)}}
	p.ids[k] = f
	return p.fn(f)
}

// box is a struct with a field of type t between two others.
func (p *pb) box(t *lang.Type) *lang.StructDef {
	k := t.String()
	if d := p.wrap[k]; d != nil {
		return d
	}
	d := lang.NewStruct(p.fresh("Box"), false, []lang.Field{{Name: "pre", T: lang.I8}, {Name: "val", T: t}, {Name: "post", T: lang.I16}})
	p.wrap[k] = d
	p.structs = append(p.structs, lang.Item{Struct: d})
	return d
}

// form spells the constant expression e as an operand of one of several kinds.
func (p *pb) form(t *lang.Type, e *lang.Expr) *lang.Expr {
	switch p.s.W(4, 4, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		return lang.V(p.local(t, e))
	case 2:
		return lang.V(p.constant(t, e))
	case 3:
		return lang.V(p.global(t, e, false))
	case 4:
		return lang.V(p.global(t, e, true))
	case 5:
		return lang.Call(lang.V(p.id(t)), e)
	case 6:
		b := p.box(t)
		l := p.local(b.T, &lang.Expr{K: lang.EStruct, T: b.T, Names: []string{"pre", "val", "post"},
			Args: []*lang.Expr{lang.IntLit(lang.I8, 0xff), e, lang.IntLit(lang.I16, 0xffff)}})
		return lang.FieldOf(lang.V(l), 1)
	case 7:
		at := lang.ArrOf(2, t)
		i := p.s.N(2)
		as := []*lang.Expr{e, e}
		as[1-i] = lang.V(p.local(t, zeroOf(t)))
		l := p.local(at, &lang.Expr{K: lang.EArr, T: at, Args: as})
		return lang.Index(lang.V(l), lang.Lit(uint64(i)))
	case 8:
		l := p.local(t, e)
		q := p.local(lang.PtrTo(t), lang.Un("&", lang.V(l)))
		return lang.Un("*", lang.V(q))
	}
	return e
}

func zeroOf(t *lang.Type) *lang.Expr {
	switch {
	case t.IsFloat():
		return lang.CastIf(lang.FLit(0), t)
	case t.IsStr():
		return lang.StrLit("")
	}
	return lang.IntLit(t, 0)
}

// edge is a boundary-biased integer.
func edge(s *gen.Src, t *lang.Type) uint64 {
	b := uint(t.Bits)
	if b == 1 {
		return uint64(s.N(2))
	}
	m := uint64(1)<<(b-1) - 1
	xs := []uint64{0, 1, 2, 3, 5, 7, 10, m, m - 1, m + 1, m + 2, ^uint64(0), ^uint64(0) - 1, 1 << (b / 2), 1<<(b/2) - 1,
		100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}
	switch s.W(4, 2, 1) {
	case 1:
		return uint64(s.N(300)) - 150
	case 2:
		return s.U64()
	}
	return xs[s.N(len(xs))]
}

var floatEdges = []float64{0, 1, 0.5, 2, 3, 0.1, 0.3, 1.5, 2.75, 7, 10, 100.25, 1234.5678, 16777216, 16777217, 0.0001, 65536.5, 3.14159265358979, 1e10, 123456789.125, 4294967296}

// floatLit is a float constant of type t, possibly negative.
func floatLit(s *gen.Src, t *lang.Type) *lang.Expr {
	f := floatEdges[s.N(len(floatEdges))]
	if s.P(1, 4) {
		f = float64(s.N(100000)) / 64
	}
	e := lang.FLit(f)
	if s.P(1, 4) {
		e = lang.Un("-", e)
	}
	return lang.CastIf(e, t)
}

// constSafe tells whether e may initialise a global: no prefix operators.
func constSafe(e *lang.Expr) bool {
	switch e.K {
	case lang.EUn:
		return false
	case lang.ECast:
		return constSafe(e.A)
	case lang.EBin:
		return constSafe(e.A) && constSafe(e.B)
	}
	return true
}

// num is a numeric constant of type t that may initialise anything.
func num(s *gen.Src, t *lang.Type) *lang.Expr {
	if t.IsFloat() {
		f := floatEdges[s.N(len(floatEdges))]
		if s.P(1, 4) {
			f = float64(s.N(100000)) / 64
		}
		e := lang.FLit(f)
		if s.P(1, 4) {
			e = lang.Bin("-", lang.FLit(0), e)
		}
		return lang.CastIf(e, t)
	}
	return lang.ConstLit(t, edge(s, t))
}
