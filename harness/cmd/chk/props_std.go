package main

import (
	"fmt"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C25: histories of operations over std/array.cd and std/map.cd, simulated on
// Go slices. The std files are those of the tree under test.

type stdElem struct {
	alias string // import alias of the array module for this type
	typ   string
	kind  int // 0 integer, 1 float, 2 string, 3 struct P, 4 struct Q, 5 [3]i16, 6 array of i32
	bits  int
	un    bool
}

var stdElems = []stdElem{
	{"xi", "i32", 0, 32, false}, {"xb", "i8", 0, 8, false}, {"xub", "u8", 0, 8, true}, {"xs", "i16", 0, 16, false}, {"xus", "u16", 0, 16, true},
	{"xl", "i64", 0, 64, false}, {"xul", "u64", 0, 64, true}, {"xu", "u32", 0, 32, true}, {"xd", "f64", 1, 0, false}, {"xstr", "*i8", 2, 0, false},
	{"xp", "PP", 3, 0, false}, {"xq", "QQ", 4, 0, false}, {"xa", "[3]i16", 5, 0, false}, {"xx", "xi.Array", 6, 0, false},
}

// stdVal is a value of an element: its leaves as printed, or the array it is.
type stdVal struct {
	leaf []string
	arr  *stdArr
}

// stdArr is the model of one variable of an Array type.
type stdArr struct {
	name string // expression that denotes it
	e    *stdElem
	v    []stdVal
	room int // elements that certainly fit without growing
	dead bool
	temp bool
}

type stdProg struct {
	s    *gen.Src
	body strings.Builder
	want strings.Builder
	arrs []*stdArr
	used map[string]bool
	fns  strings.Builder
	maps map[string]string
	imps []string
	n    int
	ops  int
}

func (p *stdProg) line(f string, a ...interface{}) { fmt.Fprintf(&p.body, "\t"+f+"\n", a...) }
func (p *stdProg) fresh(x string) string           { p.n++; return x + strconv.Itoa(p.n) }
func wrapInt(v int64, e *stdElem) string {
	u := uint64(v)
	if e.bits < 64 {
		u &= 1<<uint(e.bits) - 1
	}
	if e.un {
		return strconv.FormatUint(u, 10)
	}
	sh := uint(64 - e.bits)
	return strconv.FormatInt(int64(u<<sh)>>sh, 10)
}

func (p *stdProg) num(e *stdElem) (string, int64) {
	s := p.s
	v := int64(s.N(200)) - 60
	if s.P(1, 4) {
		v = int64(int32(s.U64()))
		if v == -1<<31 {
			v = 7
		}
	}
	return fmt.Sprintf("(%d as %s)", v, e.typ), v
}

func (p *stdProg) str() (string, string) {
	t := p.s.Pick("", "a", "bc", "hello", "x y", "%d", "zz\nq", "9")
	return lang.QuoteStr(t), t
}

// value makes an expression of type e and its model.
func (p *stdProg) value(e *stdElem) (string, stdVal) {
	s := p.s
	switch e.kind {
	case 0:
		t, v := p.num(e)
		return t, stdVal{leaf: []string{wrapInt(v, e)}}
	case 1:
		v := float64(s.N(4000)-2000) / 8
		t := lang.FloatText(v)
		if v < 0 {
			t = "-" + lang.FloatText(-v)
		}
		return "(" + t + " as f64)", stdVal{leaf: []string{strconv.FormatFloat(v, 'f', 3, 64)}}
	case 2:
		q, t := p.str()
		return q, stdVal{leaf: []string{t}}
	case 3:
		n, v := p.num(&stdElem{typ: "i64", bits: 64})
		q, t := p.str()
		if s.Bool() {
			return fmt.Sprintf("@PP{a: %s, b: %s}", n, q), stdVal{leaf: []string{strconv.FormatInt(v, 10), t}}
		}
		return fmt.Sprintf("@PP{b: %s, a: %s}", q, n), stdVal{leaf: []string{strconv.FormatInt(v, 10), t}}
	case 4:
		ub, i16 := &stdElem{typ: "u8", bits: 8, un: true}, &stdElem{typ: "i16", bits: 16}
		x, xv := p.num(ub)
		y0, y0v := p.num(i16)
		y1, y1v := p.num(i16)
		z := float64(s.N(400)) / 4
		return fmt.Sprintf("@QQ{x: %s, y: [2]i16{%s, %s}, z: %s as f64}", x, y0, y1, lang.FloatText(z)),
			stdVal{leaf: []string{wrapInt(xv, ub), wrapInt(y0v, i16), wrapInt(y1v, i16), strconv.FormatFloat(z, 'f', 3, 64)}}
	case 5:
		i16 := &stdElem{typ: "i16", bits: 16}
		var ts, ls []string
		for i := 0; i < 3; i++ {
			t, v := p.num(i16)
			ts = append(ts, t)
			ls = append(ls, wrapInt(v, i16))
		}
		return "[3]i16{" + strings.Join(ts, ", ") + "}", stdVal{leaf: ls}
	}
	panic("value")
}

func leafExprs(e *stdElem, x string) []string {
	switch e.kind {
	case 3:
		return []string{x + ".a", x + ".b"}
	case 4:
		return []string{x + ".x", x + ".y[0]", x + ".y[1]", x + ".z"}
	case 5:
		return []string{x + "[0]", x + "[1]", x + "[2]"}
	}
	return []string{x}
}

// show prints the value that expression x denotes.
func (p *stdProg) show(e *stdElem, x string, v stdVal) {
	if v.arr != nil {
		p.line("@print(%s.length, \"\\n\");", x)
		fmt.Fprintf(&p.want, "%d \n", len(v.arr.v))
		for i, w := range v.arr.v {
			p.show(v.arr.e, fmt.Sprintf("%s.ptr[%d]", x, i), w)
		}
		return
	}
	p.line("@print(%s, \"\\n\");", strings.Join(leafExprs(e, x), ", "))
	p.want.WriteString(strings.Join(v.leaf, " ") + " \n")
}

func (p *stdProg) elem(i int) *stdElem {
	e := &stdElems[i]
	if e.kind == 6 {
		p.use(&stdElems[0])
	}
	p.use(e)
	return e
}

func (p *stdProg) use(e *stdElem) {
	if !p.used[e.alias] {
		p.used[e.alias] = true
		p.imps = append(p.imps, fmt.Sprintf("import %s, %s, \"./std/array.cd\";\n", e.alias, e.typ))
	}
}

func (p *stdProg) live(f func(a *stdArr) bool) *stdArr {
	var c []*stdArr
	for _, a := range p.arrs {
		if !a.dead && (f == nil || f(a)) {
			c = append(c, a)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[p.s.N(len(c))]
}

func (p *stdProg) create() *stdArr {
	s := p.s
	e := p.elem(s.W(5, 2, 1, 2, 1, 2, 1, 1, 2, 3, 4, 3, 3, 2))
	n := s.W(3, 3, 2, 1, 1)
	a := &stdArr{e: e, name: p.fresh("v"), room: n}
	switch s.N(3) {
	case 0:
		p.line("%s : %s.Array = %s.with_capacity(%d);", a.name, e.alias, e.alias, n)
	case 1:
		k := p.fresh("n")
		p.line("%s := %d; %s := %s.with_capacity(%s);", k, n, a.name, e.alias, k)
	default:
		p.line("%s := %s.with_capacity(%d);", a.name, e.alias, n)
	}
	p.arrs = append(p.arrs, a)
	return a
}

// by mentions the operation on a with receiver or as a function of the module.
func (p *stdProg) byRef(a *stdArr, op, args string) string {
	if args != "" {
		args = ", " + args
	}
	switch p.s.N(3) {
	case 0:
		return fmt.Sprintf("%s.%s(&%s%s)", a.e.alias, op, a.name, args)
	case 1:
		q := p.fresh("p")
		p.line("%s := &%s;", q, a.name)
		if args != "" {
			args = args[2:]
		}
		return fmt.Sprintf("%s.%s(%s)", q, op, args)
	default:
		q := p.fresh("p")
		p.line("%s : *%s.Array = &%s;", q, a.e.alias, a.name)
		return fmt.Sprintf("%s.%s(%s%s)", a.e.alias, op, q, args)
	}
}

func (p *stdProg) byVal(a *stdArr, op, args string) string {
	if p.s.Bool() {
		return fmt.Sprintf("%s.%s(%s)", a.name, op, args)
	}
	return fmt.Sprintf("%s.%s(%s, %s)", a.e.alias, op, a.name, args)
}

func (p *stdProg) push(a *stdArr) {
	s := p.s
	if a.e.kind == 6 {
		// an array of i32 moves into a
		w := p.live(func(b *stdArr) bool { return b.e == &stdElems[0] && b != a && !b.temp })
		if w == nil {
			return
		}
		p.line("%s;", p.byRef(a, "push", w.name))
		w.dead = true
		a.v = append(a.v, stdVal{arr: &stdArr{e: w.e, v: w.v}})
		return
	}
	t, v := p.value(a.e)
	switch s.W(5, 2, 2) {
	case 1:
		x := p.fresh("x")
		p.line("%s := %s;", x, t)
		t = x
	case 2:
		if b := p.live(func(b *stdArr) bool { return b.e == a.e && len(b.v) > 0 }); b != nil {
			k := s.N(len(b.v))
			t = p.byVal(b, "get", strconv.Itoa(k))
			v = b.v[k]
		}
	}
	p.line("%s;", p.byRef(a, "push", t))
	a.v = append(a.v, v)
}

func (p *stdProg) step() {
	s := p.s
	p.ops++
	switch s.W(2, 9, 4, 3, 3, 3, 3, 2, 2, 2, 2) {
	case 0:
		p.create()
	case 1:
		if a := p.live(nil); a != nil {
			p.push(a)
		}
	case 2: // many pushes
		a := p.live(func(a *stdArr) bool { return a.e.kind == 0 })
		if a == nil {
			return
		}
		n := s.Range(1, 12)
		if s.P(1, 12) {
			n = s.Range(50, 300)
		}
		i := p.fresh("i")
		m := s.Range(1, 9)
		p.line("for %s : i32 = 0; %s < %d; %s = %s + 1 { %s; }", i, i, n, i, i, fmt.Sprintf("%s.push(&%s, (%s * %d) as %s)", a.e.alias, a.name, i, m, a.e.typ))
		for k := 0; k < n; k++ {
			a.v = append(a.v, stdVal{leaf: []string{wrapInt(int64(k*m), a.e)}})
		}
		s.Label("push loop")
	case 3: // pop
		a := p.live(func(a *stdArr) bool { return len(a.v) > 0 })
		if a == nil {
			return
		}
		x := p.fresh("x")
		p.line("%s := %s;", x, p.byRef(a, "pop", ""))
		v := a.v[len(a.v)-1]
		a.v = append([]stdVal(nil), a.v[:len(a.v)-1]...)
		p.show(a.e, x, v)
		if v.arr != nil {
			p.arrs = append(p.arrs, &stdArr{name: x, e: v.arr.e, v: v.arr.v})
		}
		s.Label("pop")
	case 4: // get
		a := p.live(func(a *stdArr) bool { return len(a.v) > 0 })
		if a == nil {
			return
		}
		k := s.N(len(a.v))
		x := p.byVal(a, "get", strconv.Itoa(k))
		if a.e.kind >= 4 || s.Bool() {
			y := p.fresh("x")
			p.line("%s := %s;", y, x)
			x = y
		}
		p.show(a.e, x, a.v[k])
	case 5: // write through a reference
		a := p.live(func(a *stdArr) bool { return len(a.v) > 0 && a.e.kind != 6 })
		if a == nil {
			return
		}
		k := s.N(len(a.v))
		t, v := p.value(a.e)
		ref := p.byVal(a, "get_ref", strconv.Itoa(k))
		switch s.N(3) {
		case 0:
			p.line("*%s = %s;", ref, t)
		case 1:
			r := p.fresh("r")
			p.line("%s := %s;", r, ref)
			p.line("*%s = %s;", r, t)
		default:
			p.line("%s.ptr[%d] = %s;", a.name, k, t)
		}
		a.v = append([]stdVal(nil), a.v...)
		a.v[k] = v
		s.Label("write")
	case 6: // a field through a reference, and an element of an element
		if a := p.live(func(a *stdArr) bool { return len(a.v) > 0 && a.e.kind == 6 }); a != nil && s.Bool() {
			k := s.N(len(a.v))
			in := a.v[k].arr
			t, v := p.value(in.e)
			p.line("%s.push(%s, %s);", in.e.alias, p.byVal(a, "get_ref", strconv.Itoa(k)), t)
			in.v = append(append([]stdVal(nil), in.v...), v)
			p.show(a.e, fmt.Sprintf("%s.ptr[%d]", a.name, k), a.v[k])
			s.Label("nested push")
			return
		}
		a := p.live(func(a *stdArr) bool { return len(a.v) > 0 && a.e.kind == 3 })
		if a == nil {
			return
		}
		k := s.N(len(a.v))
		q, t := p.str()
		r := p.fresh("r")
		p.line("%s := %s;", r, p.byVal(a, "get_ref", strconv.Itoa(k)))
		p.line("%s.b = %s;", r, q)
		a.v = append([]stdVal(nil), a.v...)
		a.v[k] = stdVal{leaf: []string{a.v[k].leaf[0], t}}
	case 7: // for_each
		a := p.live(nil)
		if a == nil {
			return
		}
		f := p.fresh("f")
		var body string
		nv := append([]stdVal(nil), a.v...)
		switch {
		case a.e.kind == 0:
			m := s.Range(2, 5)
			body = fmt.Sprintf("*x = *x * (%d as %s);", m, a.e.typ)
			for i := range nv {
				u, err := strconv.ParseInt(nv[i].leaf[0], 10, 64)
				if err != nil {
					w, _ := strconv.ParseUint(nv[i].leaf[0], 10, 64)
					u = int64(w)
				}
				nv[i] = stdVal{leaf: []string{wrapInt(u*int64(m), a.e)}}
			}
			if s.Bool() && len(nv) < 30 {
				body += " @print(*x, \"\");"
				for _, v := range nv {
					p.want.WriteString(v.leaf[0] + " ")
				}
			}
		case a.e.kind == 6:
			body = "@print(x.length, \"\");"
			for _, v := range nv {
				fmt.Fprintf(&p.want, "%d ", len(v.arr.v))
			}
		default:
			x := "x"
			if a.e.kind != 3 && a.e.kind != 4 {
				x = "(*x)"
			}
			l := leafExprs(a.e, x)
			j := s.N(len(l))
			body = fmt.Sprintf("@print(%s, \"\");", l[j])
			for _, v := range nv {
				p.want.WriteString(v.leaf[j] + " ")
			}
		}
		lam := fmt.Sprintf("(x *%s) void { %s }", a.e.typ, body)
		if s.Bool() {
			fmt.Fprintf(&p.fns, "func %s%s\n", f, lam)
			p.line("%s;", p.byVal(a, "for_each", f))
		} else {
			p.line("%s;", p.byVal(a, "for_each", "func "+lam))
		}
		p.line("@print(\"\\n\");")
		p.want.WriteString("\n")
		a.v = nv
		s.Label("for_each")
	case 8: // map
		a := p.live(func(a *stdArr) bool { return a.e.kind != 6 && len(a.v) < 40 })
		if a == nil {
			return
		}
		r := p.elem(s.W(3, 1, 1, 1, 1, 1, 1, 1, 0, 2, 3))
		key := a.e.typ + "," + r.typ
		m := p.maps[key]
		if m == "" {
			m = p.fresh("m")
			p.maps[key] = m
			p.imps = append(p.imps, fmt.Sprintf("import %s, %s, %s, \"./std/map.cd\";\n", m, a.e.typ, r.typ))
		}
		b := &stdArr{e: r, name: p.fresh("v")}
		x := "x"
		if a.e.kind != 3 && a.e.kind != 4 {
			x = "(*x)"
		}
		l := leafExprs(a.e, x)
		cnt := p.fresh("g")
		fmt.Fprintf(&p.fns, "%s : i32 = 0;\n", cnt)
		var body string
		switch {
		case a.e == r:
			body = "return *x;"
			b.v = append([]stdVal(nil), a.v...)
		case r.kind == 2 || (r.kind == 3 && s.Bool()):
			q, t := p.str()
			w := stdVal{leaf: []string{t}}
			if r.kind == 3 {
				body = fmt.Sprintf("%s = %s + 1; return @PP{a: %s as i64, b: %s};", cnt, cnt, cnt, q)
				for i := range a.v {
					b.v = append(b.v, stdVal{leaf: []string{strconv.Itoa(i + 1), t}})
				}
			} else {
				body = fmt.Sprintf("return %s;", q)
				for range a.v {
					b.v = append(b.v, w)
				}
			}
		case r.kind == 0 && a.e.kind == 0:
			body = fmt.Sprintf("return %s as %s;", l[0], r.typ)
			for _, v := range a.v {
				u, err := strconv.ParseInt(v.leaf[0], 10, 64)
				if err != nil {
					w, _ := strconv.ParseUint(v.leaf[0], 10, 64)
					u = int64(w)
				}
				b.v = append(b.v, stdVal{leaf: []string{wrapInt(u, r)}})
			}
		default:
			body = fmt.Sprintf("%s = %s + 3; ", cnt, cnt)
			for i := range a.v {
				k := strconv.Itoa(3*i + 3)
				w := []string{k}
				if r.kind == 3 {
					w = append(w, "q"+"")
				}
				if r.kind == 0 {
					w = []string{wrapInt(int64(3*i+3), r)}
				}
				b.v = append(b.v, stdVal{leaf: w})
			}
			if r.kind == 3 {
				body += fmt.Sprintf("return @PP{a: %s as i64, b: \"q\"};", cnt)
			} else {
				body += fmt.Sprintf("return %s as %s;", cnt, r.typ)
			}
		}
		lam := fmt.Sprintf("(x *%s) %s { %s }", a.e.typ, r.typ, body)
		if s.Bool() {
			f := p.fresh("f")
			fmt.Fprintf(&p.fns, "func %s%s\n", f, lam)
			p.line("%s := %s.map(%s, %s);", b.name, m, a.name, f)
		} else {
			p.line("%s := %s.map(%s, func %s);", b.name, m, a.name, lam)
		}
		p.arrs = append(p.arrs, b)
		s.Label("map")
	case 9: // through a function: the array by pointer, or moved by value
		a := p.live(func(a *stdArr) bool { return a.e.kind != 6 })
		if a == nil {
			return
		}
		f := p.fresh("f")
		t, v := p.value(a.e)
		if s.Bool() {
			fmt.Fprintf(&p.fns, "func %s(a *%s.Array, x %s) i32 { a.push(x); %s.push(a, x); return a.length; }\n", f, a.e.alias, a.e.typ, a.e.alias)
			p.line("@print(%s(&%s, %s), \"\\n\");", f, a.name, t)
			a.v = append(append([]stdVal(nil), a.v...), v, v)
			fmt.Fprintf(&p.want, "%d \n", len(a.v))
			return
		}
		fmt.Fprintf(&p.fns, "func %s(a %s.Array, x %s) %s.Array { %s.push(&a, x); return a; }\n", f, a.e.alias, a.e.typ, a.e.alias, a.e.alias)
		w := p.fresh("v")
		p.line("%s := %s(%s, %s);", w, f, a.name, t)
		a.dead = true
		p.arrs = append(p.arrs, &stdArr{name: w, e: a.e, v: append(append([]stdVal(nil), a.v...), v)})
		s.Label("moved")
	case 10: // a copy shares its elements until one of them grows
		a := p.live(func(a *stdArr) bool { return len(a.v) > 0 && a.e.kind != 6 })
		if a == nil {
			return
		}
		w := p.fresh("v")
		p.line("%s := %s;", w, a.name)
		k := s.N(len(a.v))
		t, v := p.value(a.e)
		p.line("*%s.get_ref(%s, %d) = %s;", a.e.alias, w, k, t)
		a.v = append([]stdVal(nil), a.v...)
		a.v[k] = v
		p.show(a.e, fmt.Sprintf("%s.ptr[%d]", a.name, k), v)
		s.Label("shared copy")
	}
}

func genStd(s *gen.Src) *Case {
	p := &stdProg{s: s, used: map[string]bool{}, maps: map[string]string{}}
	p.create()
	s.Rep(6, 30, func(i int) { p.step() })
	total := 0
	for _, a := range p.arrs {
		if a.dead {
			continue
		}
		p.line("@print(%s.length, %s.capacity >= %s.length, \"\\n\");", a.name, a.name, a.name)
		fmt.Fprintf(&p.want, "%d 1 \n", len(a.v))
		for i, v := range a.v {
			if i > 40 && i+3 < len(a.v) {
				continue
			}
			total++
			p.show(a.e, fmt.Sprintf("%s.ptr[%d]", a.name, i), v)
		}
	}
	var src strings.Builder
	src.WriteString("struct PP { a i64 b *i8 }\nstruct QQ { x u8 y [2]i16 z f64 }\n")
	for _, i := range p.imps {
		src.WriteString(i)
	}
	src.WriteString(p.fns.String() + "func main() {\n" + p.body.String() + "}\n")
	return &Case{Judge: "run", Src: src.String(), Want: p.want.String(), NonTr: total > 0,
		X: map[string]string{"std": "1", "opt": s.Pick("jit", "jit", "asan", "-O2")}}
}

func init() {
	register(&Prop{ID: "C25", Title: "std", Rule: "the history leaves at least one element in some array and everything the program printed was compared; distinct by program text", Assum: assumBase, Fams: []Fam{
		{Name: "array-map", Quick: 900, Thorough: 25000, Gen: genStd},
	}})
}
