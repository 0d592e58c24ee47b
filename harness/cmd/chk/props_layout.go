package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C09: sizes, offsets and bytes of every type follow the C ABI of the target.

type layProg struct {
	s     *gen.Src
	defs  []*lang.StructDef
	alias []struct {
		name string
		t    *lang.Type
	}
	body, out strings.Builder
	n         int
}

var layScalars = []*lang.Type{lang.I8, lang.I32, lang.I64, lang.I16, lang.F32, lang.F64, lang.U8, lang.U16, lang.U32, lang.U64, lang.I1}

func (p *layProg) line(f string, a ...interface{}) { fmt.Fprintf(&p.body, "\t"+f+"\n", a...) }

func (p *layProg) typ(d int, funcs bool) *lang.Type {
	s := p.s
	switch s.W(10, 2, 4, 5, 1) {
	case 1:
		if len(p.defs) > 0 && s.P(1, 2) {
			return lang.PtrTo(p.defs[s.N(len(p.defs))].T)
		}
		return lang.PtrTo(layScalars[s.N(len(layScalars)-1)])
	case 2:
		if d > 0 {
			return lang.ArrOf(1+s.N(4), p.typ(d-1, funcs))
		}
	case 3:
		if len(p.defs) > 0 {
			return p.defs[s.N(len(p.defs))].T
		}
	case 4:
		if funcs {
			return lang.FuncOf([]*lang.Type{lang.I32}, lang.I32)
		}
	}
	return layScalars[s.N(len(layScalars))]
}

func (p *layProg) genDefs(n int, unions, funcs bool) {
	s := p.s
	for i := 0; i < n; i++ {
		d := lang.NewStruct(fmt.Sprintf("T%d", i), unions && s.P(1, 3), nil)
		k := 1 + s.N(6)
		if s.P(1, 8) {
			k = 7 + s.N(18)
		}
		for j := 0; j < k; j++ {
			d.Fields = append(d.Fields, lang.Field{Name: fmt.Sprintf("%c%d", 'a'+j, i), T: p.typ(2, funcs)})
		}
		if d.T.Size() > 600 {
			d.Fields = d.Fields[:1]
			if d.T.Size() > 600 {
				d.Fields[0].T = lang.I16
			}
		}
		p.defs = append(p.defs, d)
	}
}

func defText(d *lang.StructDef) string {
	k := "struct "
	if d.Union {
		k = "union "
	}
	r := k + d.Name + " {"
	for _, f := range d.Fields {
		r += " " + f.Name + " " + f.T.String()
	}
	return r + " }\n"
}

func (p *layProg) source(pre string) string {
	var sb strings.Builder
	for _, i := range p.s.Perm(len(p.defs)) {
		sb.WriteString(defText(p.defs[i]))
	}
	for _, a := range p.alias {
		sb.WriteString("type " + a.name + " = " + a.t.String() + ";\n")
	}
	return sb.String() + pre + "func main() void {\n" + p.body.String() + "}\n"
}

func (p *layProg) print(e, v string) {
	p.line("@print(%s, \"\\n\");", e)
	p.out.WriteString(v + " \n")
}

// member is one sub-object of a type.
type member struct {
	path string
	off  int
	t    *lang.Type
}

func members(t *lang.Type, path string, off int, out *[]member, max int) {
	if len(*out) >= max {
		return
	}
	switch t.K {
	case lang.KStruct, lang.KUnion:
		for i, f := range t.S.Fields {
			*out = append(*out, member{path + "." + f.Name, off + t.S.Offset(i), f.T})
			members(f.T, path+"."+f.Name, off+t.S.Offset(i), out, max)
		}
	case lang.KArr:
		for i := 0; i < t.N; i++ {
			q := fmt.Sprintf("%s[%d]", path, i)
			*out = append(*out, member{q, off + i*t.Elem.Size(), t.Elem})
			members(t.Elem, q, off+i*t.Elem.Size(), out, max)
		}
	}
}

func genLayoutTable(s *gen.Src) *Case {
	p := &layProg{s: s}
	p.genDefs(1+s.N(4), true, true)
	for i := 0; i < s.N(3); i++ {
		p.alias = append(p.alias, struct {
			name string
			t    *lang.Type
		}{fmt.Sprintf("A%d", i), p.typ(2, true)})
	}
	for _, d := range p.defs {
		p.print("@sizeof("+d.Name+")", fmt.Sprint(d.T.Size()))
	}
	for _, a := range p.alias {
		p.print("@sizeof("+a.name+")", fmt.Sprint(a.t.Size()))
		if s.P(1, 2) {
			k := 1 + s.N(3)
			p.print(fmt.Sprintf("@sizeof([%d]%s)", k, a.name), fmt.Sprint(k*a.t.Size()))
		}
	}
	k := s.N(5)
	for i := 0; i < k; i++ {
		t := p.typ(2, true)
		p.print("@sizeof("+t.String()+")", fmt.Sprint(t.Size()))
	}
	for i, d := range p.defs {
		if s.P(1, 4) {
			continue
		}
		var ms []member
		members(d.T, fmt.Sprintf("p%d", i), 0, &ms, 60)
		p.line("p%d := @alloc(%s, 3);", i, d.Name)
		for _, m := range ms {
			if len(ms) < 12 || s.P(1, 3) {
				p.print(fmt.Sprintf("@cast(i64, &%s) - @cast(i64, p%d)", m.path, i), fmt.Sprint(m.off))
			}
		}
		j := s.N(3)
		p.print(fmt.Sprintf("@cast(i64, &p%d[%d]) - @cast(i64, p%d)", i, j, i), fmt.Sprint(j*d.T.Size()))
		p.print(fmt.Sprintf("@cast(i64, p%d + %d) - @cast(i64, p%d)", i, j, i), fmt.Sprint(j*d.T.Size()))
	}
	return &Case{Judge: "run", Src: p.source(""), Want: p.out.String(), NonTr: len(p.defs) > 0 && p.out.Len() > 4, X: map[string]string{"opt": optMix(s)}}
}

// leaf of an object with its chosen value.
type layLeaf struct {
	path string
	off  int
	t    *lang.Type
	u    uint64
	f    float64
	fn   int // function value: index
}

// leaves picks the scalar parts of t; of a union only one member is used.
func layLeaves(s *gen.Src, t *lang.Type, path string, off int, out *[]*layLeaf) {
	switch t.K {
	case lang.KStruct:
		for i, f := range t.S.Fields {
			layLeaves(s, f.T, path+"."+f.Name, off+t.S.Offset(i), out)
		}
	case lang.KUnion:
		i := s.N(len(t.S.Fields))
		layLeaves(s, t.S.Fields[i].T, path+"."+t.S.Fields[i].Name, off, out)
	case lang.KArr:
		for i := 0; i < t.N; i++ {
			layLeaves(s, t.Elem, fmt.Sprintf("%s[%d]", path, i), off+i*t.Elem.Size(), out)
		}
	default:
		*out = append(*out, &layLeaf{path: path, off: off, t: t})
	}
}

// norm keeps an integer within its type.
func norm(t *lang.Type, u uint64) uint64 {
	if t.Bits == 64 {
		return u
	}
	if t.Un || t.Bits == 1 {
		return u & (1<<uint(t.Bits) - 1)
	}
	sh := uint(64 - t.Bits)
	return uint64(int64(u<<sh) >> sh)
}

func intStr(t *lang.Type, u uint64) string {
	if t.Un || t.Bits == 1 {
		return strconv.FormatUint(u, 10)
	}
	return strconv.FormatInt(int64(u), 10)
}

// choose spells a value for the leaf.
func (l *layLeaf) choose(s *gen.Src) string {
	switch {
	case l.t.IsFloat():
		l.f = float64(s.N(2000)-1000) / 4
		return "@cast(" + l.t.String() + ", " + strconv.FormatFloat(l.f, 'f', 2, 64) + ")"
	case l.t.K == lang.KFunc:
		l.fn = s.N(2)
		return []string{"twice", "less"}[l.fn]
	case l.t.K == lang.KPtr:
		l.u = uint64(s.N(100000))
		return "@cast(" + l.t.String() + ", " + fmt.Sprint(l.u) + " as i64)"
	}
	l.u = norm(l.t, edge(s, l.t))
	if l.t.IsBool() {
		return []string{"1 == 2", "2 == 2"}[l.u]
	}
	return intText(l.t, l.u)
}

func (l *layLeaf) text() string {
	switch {
	case l.t.IsFloat():
		return strconv.FormatFloat(l.f, 'f', 3, 64)
	}
	return intStr(l.t, l.u)
}

func (l *layLeaf) bytes() []byte {
	u := l.u
	if l.t.IsFloat() {
		if l.t.Bits == 32 {
			u = uint64(math.Float32bits(float32(l.f)))
		} else {
			u = math.Float64bits(l.f)
		}
	}
	var b []byte
	for i := 0; i < l.t.Size(); i++ {
		b = append(b, byte(u>>(8*uint(i))))
	}
	return b
}

func genLayoutBytes(s *gen.Src) *Case {
	p := &layProg{s: s}
	p.genDefs(1+s.N(3), true, false)
	t := p.defs[len(p.defs)-1].T
	k := 1 + s.N(2)
	var ls []*layLeaf
	for i := 0; i < k; i++ {
		layLeaves(s, t, fmt.Sprintf("p[%d]", i), i*t.Size(), &ls)
	}
	if len(ls) > 80 {
		return nil
	}
	p.line("p := @alloc(%s, %d);", t, k)
	p.line("b := @cast(*u8, p);")
	from := 0
	if s.P(1, 2) { // from the bytes to the fields
		for _, l := range ls {
			l.choose(s)
			for j, x := range l.bytes() {
				p.line("b[%d] = %d as u8;", l.off+j, x)
			}
		}
		for _, l := range ls {
			if l.t.K == lang.KPtr {
				p.print("@cast(i64, "+l.path+")", l.text())
			} else {
				p.print(l.path, l.text())
			}
		}
		from = len(ls)
	}
	_ = from
	for _, i := range s.Perm(len(ls)) {
		l := ls[i]
		v := l.choose(s)
		p.line("%s = %s;", l.path, v)
	}
	for _, l := range ls {
		for j, x := range l.bytes() {
			if len(ls) < 10 || s.P(1, 3) {
				p.print(fmt.Sprintf("b[%d]", l.off+j), fmt.Sprint(x))
			}
		}
	}
	return &Case{Judge: "run", Src: p.source(""), Want: p.out.String(), NonTr: len(ls) > 1, X: map[string]string{"opt": []string{"jit", "asan", "-O2"}[s.W(8, 1, 1)]}}
}

func cDecl(t *lang.Type, name string) string {
	switch t.K {
	case lang.KInt:
		if t.Bits == 1 {
			return "_Bool " + name
		}
		u := ""
		if t.Un {
			u = "u"
		}
		return fmt.Sprintf("%sint%d_t %s", u, t.Bits, name)
	case lang.KFloat:
		if t.Bits == 32 {
			return "float " + name
		}
		return "double " + name
	case lang.KPtr:
		return cDecl(t.Elem, "*"+name)
	case lang.KArr:
		return cDecl(t.Elem, fmt.Sprintf("%s[%d]", name, t.N))
	case lang.KStruct:
		return "struct " + t.S.Name + " " + name
	case lang.KUnion:
		return "union " + t.S.Name + " " + name
	case lang.KFunc:
		return "int32_t (*" + name + ")(int32_t)"
	}
	return "void " + name
}

func cDef(d *lang.StructDef) string {
	k := "struct "
	if d.Union {
		k = "union "
	}
	r := k + d.Name + " {"
	for _, f := range d.Fields {
		r += " " + cDecl(f.T, f.Name) + ";"
	}
	return r + " };\n"
}

func cPrint(l *layLeaf) string {
	switch {
	case l.t.IsFloat():
		return fmt.Sprintf("\tprintf(\"%%.3f\\n\", (double)%s);\n", l.path)
	case l.t.K == lang.KFunc:
		return fmt.Sprintf("\tprintf(\"%%d\\n\", %s(10));\n", l.path)
	case l.t.K == lang.KPtr:
		return fmt.Sprintf("\tprintf(\"%%ld\\n\", (long)%s);\n", l.path)
	case l.t.Un:
		return fmt.Sprintf("\tprintf(\"%%lu\\n\", (unsigned long)%s);\n", l.path)
	}
	return fmt.Sprintf("\tprintf(\"%%ld\\n\", (long)%s);\n", l.path)
}

func (l *layLeaf) cText() string {
	if l.t.K == lang.KFunc {
		return []string{"20", "9"}[l.fn]
	}
	return l.text()
}

// genForeign: objects filled by one language are read and changed by the other.
func genForeign(s *gen.Src) *Case {
	p := &layProg{s: s}
	p.genDefs(1+s.N(3), true, true)
	t := p.defs[len(p.defs)-1].T
	k := 1 + s.N(2)
	var ls []*layLeaf
	for i := 0; i < k; i++ {
		layLeaves(s, t, fmt.Sprintf("p[%d]", i), 0, &ls)
	}
	if len(ls) > 60 {
		return nil
	}
	var c strings.Builder
	c.WriteString("#include <stdint.h>\n#include <stdio.h>\n#include <stddef.h>\n")
	for _, d := range p.defs {
		c.WriteString(cDef(d))
	}
	c.WriteString("int32_t size_of_it(void) { return (int32_t)sizeof(" + cDecl(t, "") + "); }\n")
	arg := cDecl(lang.PtrTo(t), "p")
	p.print("size_of_it() - @sizeof("+t.String()+")", "0")
	p.line("p := @alloc(%s, %d);", t, k)
	for _, i := range s.Perm(len(ls)) {
		v := ls[i].choose(s)
		p.line("%s = %s;", ls[i].path, v)
	}
	c.WriteString("void show(" + arg + ") {\n")
	p.line("show(p);")
	for _, l := range ls {
		c.WriteString(cPrint(l))
		p.out.WriteString(l.cText() + "\n")
	}
	c.WriteString("}\nvoid change(" + arg + ") {\n")
	p.line("change(p);")
	for i, l := range ls {
		switch {
		case l.t.IsFloat():
			l.f += float64(i) + 0.5
			fmt.Fprintf(&c, "\t%s += %d.5;\n", l.path, i)
		case l.t.K == lang.KFunc:
		case l.t.K == lang.KPtr:
			l.u += 17
			fmt.Fprintf(&c, "\t%s = (void *)((char *)%s + 17);\n", l.path, l.path)
		case l.t.IsBool():
			l.u ^= 1
			fmt.Fprintf(&c, "\t%s = !%s;\n", l.path, l.path)
		default:
			l.u = norm(l.t, l.u^uint64(0xA5C3+i))
			fmt.Fprintf(&c, "\t%s ^= %d;\n", l.path, 0xA5C3+i)
		}
	}
	c.WriteString("}\n")
	for _, l := range ls {
		switch l.t.K {
		case lang.KPtr:
			p.print("@cast(i64, "+l.path+")", l.text())
		case lang.KFunc:
			p.line("f%s := %s;", "x", l.path)
			p.print("fx(10)", l.cText())
		default:
			p.print(l.path, l.text())
		}
	}
	pre := "func twice(x i32) i32 { return x * 2; }\nfunc less(x i32) i32 { return x - 1; }\nextern func size_of_it() i32;\n" +
		"extern func show(*" + t.String() + ") void;\nextern func change(*" + t.String() + ") void;\n"
	return &Case{Judge: "run", Src: p.source(pre), Want: p.out.String(), NonTr: len(ls) > 1, Files: map[string]string{"other.c": c.String()}, X: map[string]string{"opt": "-O0"}}
}

func init() {
	register(&Prop{ID: "C09", Rule: "at least one user-defined type and 5 bytes of predicted output (table), or at least two scalar parts (bytes, foreign); distinct by text", Fams: []Fam{
		{Name: "table", Quick: 1500, Thorough: 40000, Gen: genLayoutTable},
		{Name: "bytes", Quick: 1200, Thorough: 30000, Gen: genLayoutBytes},
		{Name: "foreign", Quick: 500, Thorough: 12000, Gen: genForeign},
		{Name: "unions", Quick: 500, Thorough: 15000, Gen: genUnionInit},
	}})
}
