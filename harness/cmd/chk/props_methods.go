package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// C16 methods: which function of which file x.f(…) calls. Every file defines
// some of the names f, g and h with a first parameter of some type; a call is
// only written where exactly one of the functions the place knows fits.

type methFn struct {
	id  int
	t   string // type of the first parameter, "" when there is none
	val bool   // a variable that holds a function
}

type methFile struct {
	i     int
	alias string
	imps  []*methFile
	fns   map[string]*methFn
	st    bool // defines the struct S
	order int
}

var methTypes = []string{"i32", "i64", "u8", "f32", "*i8", "*i32", "[2]i32", "[2]i64", "func(i32) i32", "**i32", "i1"}
var methNames = []string{"f", "g", "h", "k"}

// methRecv writes a receiver of a type; ok is false when pre must be a
// statement and none is possible.
func methRecv(s *gen.Src, t string, n int, self *methFile, m *methFile) (pre, e string, v int) {
	v = s.Range(1, 9)
	lit := ""
	q := ""
	if m != nil && m != self {
		q = m.alias + "."
	}
	switch t {
	case "i32":
		lit = fmt.Sprint(v)
	case "i64", "u8":
		lit = fmt.Sprintf("%d as %s", v, t)
	case "f32":
		lit = fmt.Sprintf("%d.0", v)
	case "*i8":
		lit = fmt.Sprintf("\"%d\"", v)
	case "[2]i32":
		lit = fmt.Sprintf("[2]i32{%d, 7}", v)
	case "[2]i64":
		lit = fmt.Sprintf("[2]i64{%d as i64, 7 as i64}", v)
	case "func(i32) i32":
		lit = fmt.Sprintf("func(q i32) i32 { return q + %d; }", v)
	case "i1":
		v = s.N(2)
		lit = fmt.Sprintf("%d == 1", v)
	case "S", "*S":
		lit = fmt.Sprintf("@%sS{a: %d}", q, v)
	case "*i32":
		return fmt.Sprintf("\tw%d := %d;\n\tr%d := &w%d;\n", n, v, n, n), fmt.Sprintf("r%d", n), v
	case "**i32":
		return fmt.Sprintf("\tw%d := %d;\n\tx%d := &w%d;\n\tr%d := &x%d;\n", n, v, n, n, n, n), fmt.Sprintf("r%d", n), v
	}
	if t == "*S" {
		return fmt.Sprintf("\tw%d := %s;\n\tr%d := &w%d;\n", n, lit, n, n), fmt.Sprintf("r%d", n), v
	}
	switch s.N(4) {
	case 0:
		return "", "(" + lit + ")", v
	case 1:
		return fmt.Sprintf("\tr%d := [2]%s{%s, %s};\n", n, qual(t, q), lit, lit), fmt.Sprintf("r%d[1]", n), v
	case 2:
		return fmt.Sprintf("\tr%d := func() %s { return %s; };\n", n, qual(t, q), lit), fmt.Sprintf("r%d()", n), v
	}
	return fmt.Sprintf("\tr%d := %s;\n", n, lit), fmt.Sprintf("r%d", n), v
}

func qual(t, q string) string { return strings.Replace(t, "S", q+"S", 1) }

// value of the receiver as an i32
func methVal(t string) string {
	switch t {
	case "i64", "u8", "f32":
		return "p as i32"
	case "i1":
		return "p as i32"
	case "*i8":
		return "(p[0] as i32 - 48)"
	case "*i32":
		return "*p"
	case "**i32":
		return "**p"
	case "[2]i32":
		return "p[0]"
	case "[2]i64":
		return "p[0] as i32"
	case "func(i32) i32":
		return "p(0)"
	case "S", "*S":
		return "p.a"
	}
	return "p"
}

func genMethods(s *gen.Src) *Case { return genMeth(s, false) }

func genMeth(s *gen.Src, bad bool) *Case {
	files := []*methFile{}
	nf := s.Range(1, 3)
	id := 0
	// the types of the first parameters come from a small set, so that they meet
	types := []string{methTypes[s.N(len(methTypes))], methTypes[s.N(len(methTypes))], methTypes[s.N(len(methTypes))]}
	for i := 0; i <= nf; i++ {
		m := &methFile{i: i, alias: fmt.Sprintf("m%d", i), fns: map[string]*methFn{}, st: s.P(2, 3)}
		for _, n := range methNames {
			id++
			switch s.W(6, 2, 1, 2) {
			case 0:
				m.fns[n] = &methFn{id: id, t: types[s.N(len(types))]}
			case 1:
				if m.st {
					m.fns[n] = &methFn{id: id, t: s.Pick("S", "*S")}
				}
			case 2:
				m.fns[n] = &methFn{id: id}
			}
		}
		for j := 0; j < i; j++ {
			if i == nf || s.Bool() {
				m.imps = append(m.imps, files[j])
			}
		}
		for a := len(m.imps) - 1; a > 0; a-- {
			b := s.N(a + 1)
			m.imps[a], m.imps[b] = m.imps[b], m.imps[a]
		}
		files = append(files, m)
	}
	texts := map[string]string{}
	root := ""
	calls, n := 0, 0
	why := ""
	var want strings.Builder
	badFile := -1
	if bad {
		badFile = s.N(nf + 1)
	}
	for _, m := range files {
		var b strings.Builder
		for _, d := range m.imps {
			fmt.Fprintf(&b, "import %s, \"%s.cd\"\n", d.alias, d.alias)
		}
		if m.st {
			b.WriteString("struct S { a i32 }\n")
		}
		for _, nm := range methNames {
			if f := m.fns[nm]; f != nil && f.t == "" {
				fmt.Fprintf(&b, "func %s() i32 { return %d; }\n", nm, f.id*1000)
			} else if f != nil {
				fmt.Fprintf(&b, "func %s(p %s, a i32) i32 { return %d + a * 10 + %s; }\n", nm, f.t, f.id*1000, methVal(f.t))
			}
		}
		// the function that calls
		var body strings.Builder
		fns := map[string]*methFn{}
		for k, v := range m.fns {
			fns[k] = v
		}
		locals := s.P(1, 2)
		if locals {
			nm := methNames[s.N(len(methNames))]
			id++
			f := &methFn{id: id, t: types[s.N(len(types))], val: true}
			fns[nm] = f
			fmt.Fprintf(&body, "\t%s := func(p %s, a i32) i32 { return %d + a * 10 + %s; };\n", nm, f.t, f.id*1000, methVal(f.t))
			if s.Bool() { // another function, the same type
				id++
				f.id = id
				fmt.Fprintf(&body, "\t%s = func(p %s, a i32) i32 { return %d + a * 10 + %s; };\n", nm, f.t, f.id*1000, methVal(f.t))
			}
		}
		var shadow *methFile
		if len(m.imps) > 0 && s.P(1, 3) {
			shadow = m.imps[s.N(len(m.imps))]
		}
		emitted := false
		s.Rep(3, 16, func(int) {
			s.Span(func() {
				n++
				nm := methNames[s.N(len(methNames))]
				t := types[s.N(len(types))]
				var owner *methFile
				var fit []*methFn
				if s.P(1, 3) { // a struct: its file decides
					c := append([]*methFile{m}, m.imps...)
					owner = c[s.N(len(c))]
					if !owner.st {
						return
					}
					t = s.Pick("S", "*S")
					of := owner.fns
					if owner == m {
						of = fns
					}
					if f := of[nm]; f != nil && f.t == t {
						fit = append(fit, f)
					}
					if len(fit) == 0 {
						return
					}
				} else {
					for _, d := range m.imps {
						if f := d.fns[nm]; f != nil && f.t == t {
							fit = append(fit, f)
						}
					}
					if f := fns[nm]; f != nil && f.t == t {
						fit = append(fit, f)
					}
				}
				if len(fit) != 1 && !(len(fit) == 0 && m.i == badFile && !emitted) {
					return
				}
				pre, e, v := methRecv(s, t, n, m, owner)
				a := s.Range(0, 9)
				call := fmt.Sprintf("%s.%s(%d)", e, nm, a)
				if len(fit) == 0 {
					emitted = true
					why = fmt.Sprintf("%s has no method %s in m%d", t, nm, m.i)
					fmt.Fprintf(&body, "%s\t@print(%s, \"\\n\");\n", pre, call)
					return
				}
				calls++
				w := fit[0].id*1000 + a*10 + v
				if fit[0].val {
					s.Label("method: a variable")
				} else {
					s.Label("method of " + strings.TrimLeft(t, "*"))
				}
				switch s.N(6) {
				case 0: // in a lambda
					fmt.Fprintf(&body, "%s\tl%d := func() i32 { return %s; };\n\t@print(l%d(), \"\\n\");\n", pre, n, call, n)
				case 1:
					fmt.Fprintf(&body, "%s\tl%d := func() i32 { z := func() i32 { return %s; }; return z(); };\n\t@print(l%d(), \"\\n\");\n", pre, n, call, n)
				case 2: // as an argument of a method
					if len(m.imps) > 0 || fns["k"] == nil || fns["k"].t != "i32" {
						fmt.Fprintf(&body, "%s\t@print(%s + 1, \"\\n\");\n", pre, call)
						w++
					} else {
						fmt.Fprintf(&body, "%s\t@print((1).k(%s), \"\\n\");\n", pre, call)
						w = fns["k"].id*1000 + w*10 + 1
					}
				default:
					fmt.Fprintf(&body, "%s\t@print(%s, \"\\n\");\n", pre, call)
				}
				fmt.Fprintf(&want, "%d \n", w)
			})
		})
		if shadow != nil { // a variable called like an import
			fmt.Fprintf(&body, "\t{\n\t\t"+s.Pick("", "const ")+"%s := %d;\n\t\tz := func() i32 { return %s + 1; };\n\t\ty := func() i32 { x := func() i32 { return %s; }; return x() + %s; };\n\t\t@print(z(), y(), %s, \"\\n\");\n\t}\n", shadow.alias, n, shadow.alias, shadow.alias, shadow.alias, shadow.alias)
			fmt.Fprintf(&want, "%d %d %d \n", n+1, 2*n, n)
			if f := shadow.fns["f"]; f != nil && f.t == "" {
				fmt.Fprintf(&body, "\t@print(%s.f(), \"\\n\");\n", shadow.alias)
				fmt.Fprintf(&want, "%d \n", f.id*1000)
			}
		}
		if m.i == nf {
			// the other files run first
			var pre strings.Builder
			for _, d := range files[:nf] {
				fmt.Fprintf(&pre, "\t%s.run();\n", d.alias)
			}
			root = b.String() + "func main() {\n" + pre.String() + body.String() + "}\n"
		} else {
			texts[m.alias+".cd"] = b.String() + "func run() {\n" + body.String() + "}\n"
		}
	}
	c := &Case{Judge: "run", Src: root, Files: texts, Want: want.String(), NonTr: calls > 1, X: map[string]string{"opt": []string{"jit", "-O0"}[s.W(7, 1)]}}
	if bad {
		if why == "" {
			return nil
		}
		c.Judge, c.NonTr, c.Want = "reject", true, ""
		c.X = map[string]string{"why": why}
	}
	return c
}
