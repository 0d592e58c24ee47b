package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C24, family "declared": one function of C is declared in several files, several times, before or after its uses,
// with different types that C passes in the same way, and the compiler uses some of those functions itself
// (@alloc, @free, @realloc, @print, strings).

type declFn struct {
	name string
	g    ffiSig
}

// sameAbi is a type that is passed as t.
func sameAbi(s *gen.Src, t *lang.Type) *lang.Type {
	switch {
	case t.K == lang.KPtr:
		return lang.PtrTo([]*lang.Type{lang.I8, lang.I64, lang.I32, lang.U8, lang.F64, lang.I1, lang.PtrTo(lang.I32)}[s.N(7)])
	case t.IsInt() && t.Bits >= 32:
		if t.Un {
			return &lang.Type{K: t.K, Bits: t.Bits}
		}
		return &lang.Type{K: t.K, Bits: t.Bits, Un: true}
	}
	return t
}

func (p *ffiProg) vary(g ffiSig) ffiSig {
	r := ffiSig{r: g.r}
	if p.s.P(1, 2) {
		r.r = sameAbi(p.s, g.r)
	}
	for _, t := range g.ps {
		if p.s.P(1, 2) {
			t = sameAbi(p.s, t)
		}
		r.ps = append(r.ps, t)
	}
	return r
}

func as(t, want *lang.Type, e string) string {
	if t.Eq(want) {
		return e
	}
	return fmt.Sprintf("@cast(%s, %s)", want, e)
}

// byValue may keep the function in a variable.
func (p *ffiProg) byValue(f, typ string) string {
	switch p.s.W(4, 2, 1, 1) {
	case 1:
		h := p.fresh("h")
		p.line("%s := %s;", h, f)
		return h
	case 2:
		h := p.fresh("h")
		p.line("%s : %s = %s;", h, typ, f)
		return h
	case 3:
		h := p.fresh("h")
		p.line("%s := [1]%s{%s};", h, typ, f)
		return h + "[0]"
	}
	return f
}

// declare writes the declaration, maybe more than once: all of a file are the same one.
func (p *ffiProg) declare(f string, g ffiSig) {
	d := fmt.Sprintf("extern func %s(%s) %s;\n", f, typesText(g.ps), g.r)
	p.decl(d)
	for p.s.P(1, 6) {
		p.decl(d)
	}
}

func (p *ffiProg) decl(d string) {
	if p.s.P(1, 3) {
		p.post.WriteString(d)
		return
	}
	p.pre.WriteString(d)
}

// useFn calls fn with the declared types.
func (p *ffiProg) useFn(fn declFn, g ffiSig, ret ffiVal) {
	var args []string
	for i, t := range fn.g.ps {
		v := p.val(t)
		args = append(args, as(t, g.ps[i], p.cand(v)))
		p.out.WriteString(v.text() + "\n")
	}
	e := p.byValue(fn.name, "func("+typesText(g.ps)+") "+g.r.String()) + "(" + strings.Join(args, ", ") + ")"
	switch {
	case g.r.K == lang.KVoid:
		p.line("%s;", e)
	case g.r.K == lang.KPtr && !fn.g.r.IsStr():
		p.print("*("+as(g.r, fn.g.r, e)+")", ret.text())
	case g.r.K == lang.KPtr:
		p.print(as(g.r, fn.g.r, e), ret.text())
	default:
		v := ffiVal{t: g.r, u: ret.u, f: ret.f}
		if g.r.IsInt() {
			v.u = norm(g.r, ret.u)
		}
		p.print(e, v.text())
	}
}

// runtime uses a function of the C library that the compiler may also use.
func (p *ffiProg) runtime(declared map[string]ffiSig) {
	s := p.s
	sig := func(name string, ps []*lang.Type, r *lang.Type) ffiSig {
		g, ok := declared[name]
		if !ok {
			g = p.vary(ffiSig{ps: ps, r: r})
			declared[name] = g
			p.declare(name, g)
		}
		return g
	}
	v := func(g ffiSig) string { return "func(" + typesText(g.ps) + ") " + g.r.String() }
	str := func() string {
		r := ""
		for n := s.N(6); n > 0; n-- {
			r += s.Pick("a", "b", "Q", " ", "0")
		}
		return r
	}
	switch s.N(6) {
	case 0:
		g := sig("malloc", []*lang.Type{lang.I64}, lang.PtrTo(lang.I8))
		x := p.fresh("m")
		p.line("%s := %s;", x, as(g.r, lang.PtrTo(lang.I32), p.byValue("malloc", v(g))+"("+as(lang.I64, g.ps[0], "16 as i64")+")"))
		k := s.N(1000)
		p.line("%s[3] = %d;", x, k)
		p.print(x+"[3]", fmt.Sprint(k))
		if s.P(1, 2) {
			f := sig("free", []*lang.Type{lang.PtrTo(lang.I8)}, lang.Void)
			p.line("free(%s);", as(lang.PtrTo(lang.I32), f.ps[0], x))
		} else {
			p.line("@free(%s);", x)
		}
	case 1:
		a := str()
		g := sig("strlen", []*lang.Type{lang.Str}, lang.I64)
		p.print(p.byValue("strlen", v(g))+"("+as(lang.Str, g.ps[0], lang.QuoteStr(a))+")", fmt.Sprint(len(a)))
	case 2:
		a, b := str(), str()
		if s.P(1, 3) {
			b = a
		}
		g := sig("strcmp", []*lang.Type{lang.Str, lang.Str}, lang.I32)
		r := "0"
		if a == b {
			r = "1"
		}
		p.print(fmt.Sprintf("%s(%s, %s) == %s", p.byValue("strcmp", v(g)), as(lang.Str, g.ps[0], lang.QuoteStr(a)), as(lang.Str, g.ps[1], lang.QuoteStr(b)), as(lang.I32, g.r, "0")), r)
	case 3:
		a := str()
		g := sig("memcpy", []*lang.Type{lang.Str, lang.Str, lang.I64}, lang.Str)
		x := p.fresh("m")
		p.line("%s := @alloc(i8, %d);", x, len(a)+1)
		p.print(as(g.r, lang.Str, fmt.Sprintf("memcpy(%s, %s, %s)", as(lang.Str, g.ps[0], x), as(lang.Str, g.ps[1], lang.QuoteStr(a)), as(lang.I64, g.ps[2], fmt.Sprintf("%d as i64", len(a)+1)))), a)
	case 4:
		g := sig("realloc", []*lang.Type{lang.Str, lang.I64}, lang.Str)
		x := p.fresh("m")
		k := s.N(1000)
		p.line("%s := @alloc(i64, 1);", x)
		p.line("%s[0] = %d as i64;", x, k)
		p.line("%s = %s;", x, as(g.r, lang.PtrTo(lang.I64), fmt.Sprintf("realloc(%s, %s)", as(lang.PtrTo(lang.I64), g.ps[0], x), as(lang.I64, g.ps[1], "64 as i64"))))
		p.print(x+"[0]", fmt.Sprint(k))
	case 5:
		g, ok := declared["printf"]
		if !ok {
			g = p.vary(ffiSig{ps: []*lang.Type{lang.Str}, r: lang.I32})
			declared["printf"] = g
			p.decl(fmt.Sprintf("extern func printf(%s, ..) %s;\n", g.ps[0], g.r))
		}
		k := s.N(1000)
		p.line("%s(%s, %d, 2.5 as f64);", p.byValue("printf", "func("+g.ps[0].String()+", ..) "+g.r.String()), as(lang.Str, g.ps[0], lang.QuoteStr("<%d %.2f>\n")), k)
		fmt.Fprintf(&p.out, "<%d 2.50>\n", k)
	}
	if s.P(1, 2) { // what the compiler itself uses
		switch s.N(3) {
		case 0:
			a, b := str(), str()
			p.print(lang.QuoteStr(a)+" + "+lang.QuoteStr(b), a+b)
		case 1:
			a, b := str(), str()
			p.print(lang.QuoteStr(a)+" == "+lang.QuoteStr(b), map[bool]string{true: "1", false: "0"}[a == b])
		case 2:
			x := p.fresh("m")
			p.line("%s := @alloc(i16, 2);", x)
			p.line("%s[1] = 77 as i16;", x)
			p.line("%s = @realloc(%s, 40);", x, x)
			p.print(x+"[1]", "77")
			p.line("@free(%s);", x)
		}
	}
}

func genExternDecl(s *gen.Src) *Case {
	p := &ffiProg{s: s}
	var fns []declFn
	rets := map[string]ffiVal{}
	files := map[string]string{}
	nf := 1 + s.N(3)
	src := ""
	for i := nf - 1; i >= 0; i-- { // the last one is the program
		p.pre.Reset()
		p.post.Reset()
		p.body.Reset()
		declared := map[string]ffiSig{}
		for j := i + 1; i == 0 && j < nf; j++ {
			p.line("m%d.run();", j)
		}
		if i == 0 {
			for j := 1; j < nf; j++ {
				fmt.Fprintf(&p.pre, "import m%d, \"./m%d.cd\"\n", j, j)
			}
		}
		for n := 1 + s.N(5); n > 0; n-- {
			s.Span(func() {
				if s.P(1, 2) {
					p.runtime(declared)
					return
				}
				var fn declFn
				if len(fns) > 0 && s.P(2, 3) {
					fn = fns[s.N(len(fns))]
				} else {
					fn = declFn{name: p.fresh("cfun"), g: p.sig()}
					body := ""
					for k, t := range fn.g.ps {
						body += cShow(t, fmt.Sprintf("p%d", k))
					}
					ret, v := "", ffiVal{t: fn.g.r}
					if fn.g.r.K != lang.KVoid {
						v = p.val(fn.g.r)
						ret = "\treturn " + p.cVal(v) + ";\n"
					}
					rets[fn.name] = v
					fmt.Fprintf(&p.c, "%s %s(%s) {\n%s%s}\n", cType(fn.g.r), fn.name, cParams(fn.g.ps), body, ret)
					fns = append(fns, fn)
				}
				g, ok := declared[fn.name]
				if !ok {
					g = p.vary(fn.g)
					declared[fn.name] = g
					p.declare(fn.name, g)
				}
				p.useFn(fn, g, rets[fn.name])
			})
		}
		if i == 0 {
			src = p.pre.String() + "func main() void {\n" + p.body.String() + "}\n" + p.post.String()
		} else {
			files[fmt.Sprintf("m%d.cd", i)] = p.pre.String() + "func run() void {\n" + p.body.String() + "}\n" + p.post.String()
		}
		if i > 0 {
			p.outs = append(p.outs, p.out.String())
			p.out.Reset()
		}
	}
	want := ""
	for i := len(p.outs) - 1; i >= 0; i-- { // m1 was written last
		want += p.outs[i]
	}
	want += p.out.String()
	files["other.c"] = cHead + p.cproto.String() + p.c.String()
	return &Case{Judge: "run", Src: src, Want: want, NonTr: len(want) > 8, Files: files, X: map[string]string{"opt": s.Pick("-O0", "-O2")}}
}
