package main

import (
	"fmt"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C24: calls between Candice and C, in both directions.

type ffiProg struct {
	s         *gen.Src
	pre, body strings.Builder // Candice: declarations, statements of main (or of the caller)
	c         strings.Builder
	cproto    strings.Builder
	post      strings.Builder // Candice: declarations that follow the function
	outs      []string        // the output of the finished files
	out       strings.Builder
	n         int
}

// ffiVal is a value passed over the border.
type ffiVal struct {
	t *lang.Type
	u uint64
	f float64
	s string // strings; function values: its name
	b int    // string: its offset
}

var ffiTypes = []*lang.Type{lang.I32, lang.I8, lang.I64, lang.I16, lang.U8, lang.U16, lang.U32, lang.U64, lang.F64, lang.F32, lang.I1, lang.Str, lang.PtrTo(lang.I64), lang.PtrTo(lang.I8)}

func (p *ffiProg) typ() *lang.Type { return ffiTypes[p.s.W(6, 4, 3, 3, 3, 2, 2, 2, 4, 3, 2, 4, 2)] }

func (p *ffiProg) fresh(pre string) string { p.n++; return fmt.Sprintf("%s%d", pre, p.n) }

func (p *ffiProg) line(f string, a ...interface{}) { fmt.Fprintf(&p.body, "\t"+f+"\n", a...) }

func (p *ffiProg) val(t *lang.Type) ffiVal {
	s := p.s
	v := ffiVal{t: t}
	switch {
	case t.IsFloat():
		v.f = float64(s.N(4000)-2000) / 4
	case t.IsStr():
		n := s.N(6)
		for i := 0; i < n; i++ {
			v.s += s.Pick("a", "b", "%", " ", "Z", "é", "\"", "0", "\\")
		}
	case t.K == lang.KPtr:
		v.u = edge(s, lang.I64)
	default:
		v.u = norm(t, edge(s, t))
	}
	return v
}

// cand spells the value in Candice; small integers may come from a wider value
// computed at run time, whose other bits are arbitrary.
func (p *ffiProg) cand(v ffiVal) string {
	s := p.s
	switch {
	case v.t.IsFloat():
		e := "@cast(" + v.t.String() + ", " + strconv.FormatFloat(v.f, 'f', 2, 64) + ")"
		if s.P(1, 2) {
			n := p.fresh("v")
			p.line("%s := %s;", n, e)
			return n
		}
		return e
	case v.t.IsStr():
		e := lang.QuoteStr(v.s)
		if s.P(1, 3) {
			k := s.N(len(v.s) + 1)
			for k > 0 && k < len(v.s) && v.s[k]&0xC0 == 0x80 {
				k--
			}
			e = lang.QuoteStr(v.s[:k]) + " + " + lang.QuoteStr(v.s[k:])
		}
		return e
	case v.t.K == lang.KPtr:
		n := p.fresh("v")
		p.line("%s := %s;", n, intText(lang.I64, v.u))
		return "&" + n
	case v.t.IsBool():
		n := p.fresh("v")
		p.line("%s := %d;", n, s.N(9))
		return fmt.Sprintf("%s %s 100", n, []string{">", "<"}[v.u])
	}
	if s.P(1, 3) {
		return intText(v.t, v.u)
	}
	w := lang.I64
	if v.t.Bits < 32 && s.P(1, 2) {
		w = lang.I32
	}
	x := v.u
	if v.t.Bits < w.Bits {
		x = x&(1<<uint(v.t.Bits)-1) | s.U64()<<uint(v.t.Bits)
	}
	n := p.fresh("w")
	p.line("%s := %s;", n, intText(w, norm(w, x)))
	if s.P(1, 2) {
		return n + " as " + v.t.String()
	}
	return "@cast(" + v.t.String() + ", " + n + ")"
}

func (v ffiVal) text() string {
	switch {
	case v.t.IsFloat():
		return strconv.FormatFloat(v.f, 'f', 3, 64)
	case v.t.IsStr():
		return v.s
	case v.t.K == lang.KPtr:
		return strconv.FormatInt(int64(v.u), 10)
	}
	return intStr(v.t, v.u)
}

func cType(t *lang.Type) string {
	if t.IsStr() {
		return "const char *"
	}
	if t.K == lang.KVoid {
		return "void"
	}
	return cDecl(t, "")
}

func cArg(t *lang.Type, n string) string {
	if t.IsStr() {
		return "const char *" + n
	}
	return cDecl(t, n)
}

func cShow(t *lang.Type, e string) string {
	switch {
	case t.IsStr():
		return fmt.Sprintf("\tprintf(\"%%s\\n\", %s);\n", e)
	case t.K == lang.KPtr:
		return fmt.Sprintf("\tprintf(\"%%ld\\n\", (long)*%s);\n", e)
	case t.IsFloat():
		return fmt.Sprintf("\tprintf(\"%%.3f\\n\", (double)%s);\n", e)
	case t.Un:
		return fmt.Sprintf("\tprintf(\"%%lu\\n\", (unsigned long)%s);\n", e)
	}
	return fmt.Sprintf("\tprintf(\"%%ld\\n\", (long)%s);\n", e)
}

// cVal spells the value in C, with a run-time computed wider value when integer.
func (p *ffiProg) cVal(v ffiVal) string {
	switch {
	case v.t.IsFloat():
		return fmt.Sprintf("(%s)%s", cType(v.t), strconv.FormatFloat(v.f, 'f', 2, 64))
	case v.t.IsStr():
		r := "\""
		for i := 0; i < len(v.s); i++ {
			r += fmt.Sprintf("\\%03o", v.s[i])
		}
		return r + "\""
	case v.t.K == lang.KPtr:
		n := p.fresh("cell")
		fmt.Fprintf(&p.cproto, "static int64_t %s = (int64_t)%dull;\n", n, v.u)
		return "&" + n
	case v.t.IsBool():
		return fmt.Sprintf("(_Bool)(noise(%dull) != 0)", v.u*77)
	}
	x := v.u
	if v.t.Bits < 64 {
		x = x&(1<<uint(v.t.Bits)-1) | p.s.U64()<<uint(v.t.Bits)
	}
	return fmt.Sprintf("(%s)noise(%dull)", cType(v.t), x)
}

type ffiSig struct {
	ps []*lang.Type
	r  *lang.Type
}

func (p *ffiProg) sig() ffiSig {
	s := p.s
	n := s.N(7)
	if s.P(1, 5) {
		n = 7 + s.N(8)
	}
	var g ffiSig
	for i := 0; i < n; i++ {
		g.ps = append(g.ps, p.typ())
	}
	g.r = lang.Void
	if s.P(4, 5) {
		g.r = p.typ()
	}
	return g
}

func typesText(ts []*lang.Type) string {
	var r []string
	for _, t := range ts {
		r = append(r, t.String())
	}
	return strings.Join(r, ", ")
}

// candBody: what a Candice function does with its parameters.
func (p *ffiProg) showBody(g ffiSig, ind string) string {
	r := ""
	for i, t := range g.ps {
		e := fmt.Sprintf("p%d", i)
		if t.K == lang.KPtr && !t.IsStr() {
			e = "*" + e
		}
		r += fmt.Sprintf("%s@print(%s); @print(\"\\n\");\n", ind, e)
	}
	return r
}

func candParams(ts []*lang.Type) string {
	var r []string
	for i, t := range ts {
		r = append(r, fmt.Sprintf("p%d %s", i, t))
	}
	return strings.Join(r, ", ")
}

func cParams(ts []*lang.Type) string {
	if len(ts) == 0 {
		return "void"
	}
	var r []string
	for i, t := range ts {
		r = append(r, cArg(t, fmt.Sprintf("p%d", i)))
	}
	return strings.Join(r, ", ")
}

func (p *ffiProg) print(e, v string) {
	p.line("@print(%s); @print(\"\\n\");", e)
	p.out.WriteString(v + "\n")
}

func (p *ffiProg) showResult(g ffiSig, e string, v ffiVal) {
	switch {
	case g.r.K == lang.KVoid:
		p.line("%s;", e)
		return
	case g.r.IsStr() || g.r.IsNum():
		switch p.s.N(3) {
		case 0:
			p.print(e, v.text())
		case 1:
			n := p.fresh("r")
			p.line("%s := %s;", n, e)
			p.print(n, v.text())
		case 2:
			n := p.fresh("r")
			p.line("%s : %s = %s;", n, g.r, e)
			if g.r.IsInt() && g.r.Bits > 1 && g.r.Bits < 64 {
				p.print(n+" as i64", strconv.FormatInt(int64(v.u), 10))
			} else {
				p.print(n, v.text())
			}
		}
	default:
		p.print("*"+e, v.text())
	}
}

// result spells what a C function returns.
func (p *ffiProg) cReturn(g ffiSig, vals []ffiVal) (string, ffiVal) {
	if g.r.K == lang.KVoid {
		return "", ffiVal{t: g.r}
	}
	for i, t := range g.ps {
		if t.Eq(g.r) && p.s.P(1, 3) {
			return fmt.Sprintf("\treturn p%d;\n", i), vals[i]
		}
	}
	v := p.val(g.r)
	return "\treturn " + p.cVal(v) + ";\n", v
}

// callC: one C function called from Candice.
func (p *ffiProg) callC() {
	g := p.sig()
	f := p.fresh("cfun")
	var vals []ffiVal
	var args []string
	for _, t := range g.ps {
		v := p.val(t)
		vals = append(vals, v)
	}
	for _, v := range vals {
		args = append(args, p.cand(v))
	}
	p.decl(fmt.Sprintf("extern func %s(%s) %s;\n", f, typesText(g.ps), g.r))
	body := ""
	for i, t := range g.ps {
		body += cShow(t, fmt.Sprintf("p%d", i))
		p.out.WriteString(vals[i].text() + "\n")
	}
	ret, v := p.cReturn(g, vals)
	fmt.Fprintf(&p.c, "%s %s(%s) {\n%s%s}\n", cType(g.r), f, cParams(g.ps), body, ret)
	e := f
	if p.s.P(1, 5) && g.r.K != lang.KVoid && len(g.ps) > 0 {
		e = p.fresh("h")
		p.line("%s := %s;", e, f)
	}
	p.showResult(g, e+"("+strings.Join(args, ", ")+")", v)
}

// candFun writes a Candice function that shows its parameters and returns v.
func (p *ffiProg) candFun(head string, g ffiSig, vals []ffiVal, v ffiVal) string {
	old := p.body
	p.body = strings.Builder{}
	ret := ""
	if g.r.K != lang.KVoid {
		done := false
		for i, t := range g.ps {
			if t.Eq(g.r) && p.s.P(1, 3) && vals[i] == v {
				ret = fmt.Sprintf("\treturn p%d;\n", i)
				done = true
				break
			}
		}
		if !done {
			var e string
			if g.r.K == lang.KPtr && !g.r.IsStr() {
				n := p.fresh("store")
				fmt.Fprintf(&p.pre, "%s : i64 = %s;\n", n, globalInt(v.u))
				e = "&" + n
			} else {
				e = p.cand(v)
			}
			ret = "\treturn " + e + ";\n"
		}
	}
	local := p.body.String()
	p.body = old
	return fmt.Sprintf("%s(%s) %s {\n%s%s%s}\n", head, candParams(g.ps), g.r, p.showBody(g, "\t"), local, ret)
}

func globalInt(u uint64) string { return intText(lang.I64, u) }

// callCand: C calls a Candice function given by f with fresh values.
func (p *ffiProg) cCalls(f string, g ffiSig) (string, []ffiVal, ffiVal) {
	var vals []ffiVal
	var args []string
	for _, t := range g.ps {
		v := p.val(t)
		vals = append(vals, v)
		args = append(args, p.cVal(v))
		p.out.WriteString(v.text() + "\n")
	}
	r := ffiVal{t: g.r}
	if g.r.K == lang.KVoid {
		return "\t" + f + "(" + strings.Join(args, ", ") + ");\n", vals, r
	}
	r = p.val(g.r)
	p.out.WriteString(r.text() + "\n")
	n := p.fresh("res")
	return "\t" + cArg(g.r, n) + " = " + f + "(" + strings.Join(args, ", ") + ");\n" + cShow(g.r, n), vals, r
}

func (p *ffiProg) callback() {
	s := p.s
	g := p.sig()
	f, cb := p.fresh("cfun"), p.fresh("cb")
	call, vals, r := p.cCalls("cb", g)
	fn := p.candFun("func "+cb, g, vals, r)
	cbT := "func(" + typesText(g.ps) + ") " + g.r.String()
	var tl []string
	for _, t := range g.ps {
		tl = append(tl, cType(t))
	}
	if len(tl) == 0 {
		tl = []string{"void"}
	}
	fmt.Fprintf(&p.c, "int32_t %s(int32_t k, %s (*cb)(%s)) {\n%s\treturn k + 1;\n}\n", f, cType(g.r), strings.Join(tl, ", "), call)
	p.decl(fmt.Sprintf("extern func %s(i32, %s) i32;\n", f, cbT))
	arg := cb
	switch s.N(3) {
	case 0:
		p.pre.WriteString(fn)
	case 1:
		p.pre.WriteString(fn)
		arg = p.fresh("h")
		p.line("%s := %s;", arg, cb)
	case 2: // anonymous
		arg = p.fresh("h")
		fn = strings.Replace(strings.TrimSpace(strings.TrimPrefix(fn, "func "+cb)), "\n", "\n\t", -1)
		p.line("%s := func%s;", arg, fn)
	}
	k := s.N(100)
	p.print(fmt.Sprintf("%s(%d, %s)", f, k, arg), fmt.Sprint(k+1))
}

// variadic calls printf or snprintf.
func (p *ffiProg) variadic() {
	s := p.s
	n := s.N(9)
	fm, want := "", ""
	var args []string
	for i := 0; i < n; i++ {
		t := []*lang.Type{lang.I32, lang.I64, lang.F64, lang.Str, lang.U32, lang.U64, lang.F32, lang.I8, lang.U8, lang.I16, lang.U16, lang.I1}[s.N(12)]
		v := p.val(t)
		args = append(args, p.cand(v))
		fm += s.Pick("", " ", "x") + map[string]string{"i32": "%d", "i64": "%ld", "f64": "%.3f", "*i8": "%s", "u32": "%u", "u64": "%lu",
			"f32": "%.3f", "i8": "%d", "u8": "%d", "i16": "%d", "u16": "%d", "i1": "%d"}[t.String()]
		sp := fm[:strings.LastIndex(fm, "%")]
		_ = sp
		want += strings.TrimSuffix(lastGap(fm), "") + v.text()
	}
	a := ""
	if len(args) > 0 {
		a = ", " + strings.Join(args, ", ")
	}
	if s.P(1, 2) {
		p.line("%s(%s%s);", p.byValue("printf", "func(*i8, ..) i32"), lang.QuoteStr(fm+"\n"), a)
		p.out.WriteString(want + "\n")
		return
	}
	b := p.fresh("buf")
	p.line("%s := @alloc(i8, 2000);", b)
	p.print(fmt.Sprintf("snprintf(%s, 2000 as i64, %s%s)", b, lang.QuoteStr(fm), a), fmt.Sprint(len(want)))
	p.print(b, want)
}

// lastGap is the text between the last two conversions of a format.
func lastGap(fm string) string {
	i := strings.LastIndex(fm, "%")
	head := fm[:i]
	if j := strings.LastIndex(head, "%"); j >= 0 {
		head = head[j:]
		for _, c := range []string{"%ld", "%lu", "%.3f", "%d", "%s", "%u"} {
			if strings.HasPrefix(head, c) {
				return head[len(c):]
			}
		}
	}
	return head
}

// outParams: C writes through pointers into Candice variables.
func (p *ffiProg) outParams() {
	s := p.s
	n := 1 + s.N(4)
	f := p.fresh("cfun")
	var ts []*lang.Type
	var names []string
	var args, cps []string
	body := ""
	var vals []ffiVal
	for i := 0; i < n; i++ {
		t := ffiTypes[s.N(10)]
		v := p.val(t)
		vals = append(vals, v)
		ts = append(ts, lang.PtrTo(t))
		w := p.val(t)
		x := p.fresh("o")
		p.line("%s := %s;", x, p.cand(w))
		names = append(names, x)
		args = append(args, "&"+x)
		cps = append(cps, cDecl(lang.PtrTo(t), fmt.Sprintf("p%d", i)))
		body += cShow(t, fmt.Sprintf("*p%d", i)) + fmt.Sprintf("\t*p%d = %s;\n", i, p.cVal(v))
		p.out.WriteString(w.text() + "\n")
	}
	p.decl(fmt.Sprintf("extern func %s(%s) void;\n", f, typesText(ts)))
	fmt.Fprintf(&p.c, "void %s(%s) {\n%s}\n", f, strings.Join(cps, ", "), body)
	p.line("%s(%s);", f, strings.Join(args, ", "))
	for i, x := range names {
		p.print(x, vals[i].text())
	}
}

const cHead = "#include <stdint.h>\n#include <stdio.h>\nuint64_t noise(uint64_t x) { static volatile uint64_t z; return x + z; }\n"

func genExtern(s *gen.Src) *Case {
	p := &ffiProg{s: s}
	p.pre.WriteString("extern func printf(*i8, ..) i32;\nextern func snprintf(*i8, i64, *i8, ..) i32;\n")
	n := 1 + s.N(6)
	for i := 0; i < n; i++ {
		s.Span(func() {
			switch s.W(5, 4, 2, 2) {
			case 0:
				p.callC()
			case 1:
				p.callback()
			case 2:
				p.variadic()
			case 3:
				p.outParams()
			}
		})
	}
	src := p.pre.String() + "func main() void {\n" + p.body.String() + "}\n" + p.post.String()
	return &Case{Judge: "run", Src: src, Want: p.out.String(), NonTr: p.out.Len() > 8,
		Files: map[string]string{"other.c": cHead + p.cproto.String() + p.c.String()}, X: map[string]string{"opt": s.Pick("-O0", "-O2")}}
}

// genPub: a Candice library with public functions, called by a C program.
func genPub(s *gen.Src) *Case {
	p := &ffiProg{s: s}
	n := 1 + s.N(5)
	var main, lib strings.Builder
	for i := 0; i < n; i++ {
		s.Span(func() {
			g := p.sig()
			f := p.fresh("lib_fun")
			call, vals, r := p.cCalls(f, g)
			lib.WriteString(p.candFun("pub func "+f, g, vals, r))
			fmt.Fprintf(&p.cproto, "%s %s(%s);\n", cType(g.r), f, cParams(g.ps))
			main.WriteString(call)
		})
	}
	src := p.pre.String() + lib.String()
	return &Case{Judge: "run", Src: src, Want: p.out.String(), NonTr: p.out.Len() > 8,
		Files: map[string]string{"other.c": cHead + p.cproto.String() + p.c.String() + "int main(void) {\n" + main.String() + "\treturn 0;\n}\n"},
		X:     map[string]string{"opt": s.Pick("-O0", "-O2")}}
}

func init() {
	register(&Prop{ID: "C24", Rule: "at least 8 bytes of predicted output; distinct by program and C text", Fams: []Fam{
		{Name: "extern", Quick: 900, Thorough: 20000, Gen: genExtern},
		{Name: "declared", Quick: 900, Thorough: 20000, Gen: genExternDecl},
		{Name: "pub", Quick: 500, Thorough: 10000, Gen: genPub},
	}})
}
