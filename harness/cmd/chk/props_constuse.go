package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// Constants that are built from other constants, of any scope and file, and
// used everywhere: in initialisers, in cases, in anonymous functions, at run
// time. The values are computed while the program is written.

type cuVal struct {
	t string // type
	k int    // 0 integer, 1 float, 2 string, 3 function, 4 pointer
	n int64
	f float64
	s string
}

func (v cuVal) out() string {
	switch v.k {
	case 0:
		if v.t == "u64" {
			return fmt.Sprint(uint64(v.n))
		}
		return fmt.Sprint(v.n)
	case 1:
		return fmt.Sprintf("%.3f", v.f)
	case 2:
		return v.s
	case 4:
		return fmt.Sprintf("0x%x", v.n)
	}
	return ""
}

func cuWrap(t string, n int64) int64 {
	switch t {
	case "i8":
		return int64(int8(n))
	case "i16":
		return int64(int16(n))
	case "i32":
		return int64(int32(n))
	case "u8":
		return int64(uint8(n))
	case "u16":
		return int64(uint16(n))
	case "u32":
		return int64(uint32(n))
	}
	return n
}

type cuName struct {
	spell    string
	v        cuVal
	constant bool
}

type cuG struct {
	s      *gen.Src
	scopes [][]cuName
	want   *strings.Builder
	strs   int
}

// visible returns the names that the innermost scopes declare, not the hidden ones.
func (g *cuG) visible() []cuName {
	seen := map[string]bool{}
	var out []cuName
	for i := len(g.scopes) - 1; i >= 0; i-- {
		for j := len(g.scopes[i]) - 1; j >= 0; j-- {
			if n := g.scopes[i][j]; !seen[n.spell] {
				seen[n.spell] = true
				out = append(out, n)
			}
		}
	}
	return out
}

func (g *cuG) pick(constant bool, ok func(cuVal) bool) *cuName {
	var c []cuName
	for _, n := range g.visible() {
		if (n.constant || !constant) && ok(n.v) {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return &c[g.s.N(len(c))]
}

var cuInts = []string{"i32", "i32", "i8", "i16", "i64", "u8", "u16", "u32", "u64"}

func (g *cuG) lit(t string) (string, cuVal) {
	s := g.s
	n := int64(s.N(200))
	if s.P(1, 5) {
		n = int64(s.N(100000))
	}
	v := cuVal{t: t, n: cuWrap(t, n)}
	if t == "i32" {
		return fmt.Sprint(n), v
	}
	return fmt.Sprintf("(%d as %s)", n, t), v
}

// integer writes a constant expression of the type.
func (g *cuG) integer(t string, depth int) (string, cuVal) {
	s := g.s
	if depth > 0 {
		switch s.W(2, 3, 2) {
		case 1:
			a, x := g.integer(t, depth-1)
			b, y := g.integer(t, depth-1)
			switch s.N(4) {
			case 0:
				return "(" + a + " + " + b + ")", cuVal{t: t, n: cuWrap(t, x.n+y.n)}
			case 1:
				return "(" + a + " - " + b + ")", cuVal{t: t, n: cuWrap(t, x.n-y.n)}
			case 2:
				return "(" + a + " * " + b + ")", cuVal{t: t, n: cuWrap(t, x.n*y.n)}
			default:
				return "(" + a + " ^ " + b + ")", cuVal{t: t, n: cuWrap(t, x.n^y.n)}
			}
		case 2:
			u := cuInts[s.N(len(cuInts))]
			a, x := g.integer(u, depth-1)
			return "(" + a + " as " + t + ")", cuVal{t: t, n: cuWrap(t, x.n)}
		}
	}
	if n := g.pick(true, func(v cuVal) bool { return v.k == 0 && v.t == t }); n != nil && s.P(5, 6) {
		s.Label("constant used in a constant")
		if strings.Contains(n.spell, ".") {
			s.Label("constant of another file")
		}
		return n.spell, n.v
	}
	return g.lit(t)
}

// value writes a constant expression; functions only at the root.
func (g *cuG) value(root string) (string, cuVal) {
	s := g.s
	switch s.W(8, 2, 4, 2, 2, 2) {
	case 1:
		if n := g.pick(true, func(v cuVal) bool { return v.k == 1 }); n != nil && s.P(2, 3) {
			if s.Bool() {
				return "(" + n.spell + " + 0.5)", cuVal{t: "f32", k: 1, f: n.v.f + 0.5}
			}
			return n.spell, n.v
		}
		q := s.N(40)
		return fmt.Sprintf("%d.%02d", q/4, q%4*25), cuVal{t: "f32", k: 1, f: float64(q) / 4}
	case 2:
		if n := g.pick(true, func(v cuVal) bool { return v.k == 2 }); n != nil && s.P(2, 3) {
			s.Label("string from a constant")
			return n.spell, n.v
		}
		g.strs++
		text := fmt.Sprintf("%s%d", strings.Repeat(s.Pick("a", "b", "xy", ""), s.N(5)), g.strs)
		return "\"" + text + "\"", cuVal{t: "*i8", k: 2, s: text}
	case 3:
		if n := g.pick(true, func(v cuVal) bool { return v.k == 3 }); n != nil && (root == "" || s.P(2, 3)) {
			s.Label("function from a constant")
			return n.spell, n.v
		}
		if root != "" {
			k := s.N(3)
			return fmt.Sprintf("%sfn%d", s.Pick("", root), k), cuVal{t: "func(i32) i32", k: 3, n: int64(k)}
		}
	case 4:
		if n := g.pick(true, func(v cuVal) bool { return v.k == 4 }); n != nil && s.P(2, 3) {
			s.Label("pointer from a constant")
			return n.spell, n.v
		}
		k := int64(16 + s.N(4000))
		return fmt.Sprintf("(%d as *%s)", k, "i32"), cuVal{t: "*i32", k: 4, n: k}
	case 5:
		if n := g.pick(true, func(v cuVal) bool { return v.t == "i1" }); n != nil && s.P(1, 2) {
			if s.Bool() {
				return "!" + n.spell, cuVal{t: "i1", n: 1 - n.v.n}
			}
			return n.spell, n.v
		}
		t := cuInts[s.N(len(cuInts))]
		a, x := g.integer(t, 1)
		b, y := g.integer(t, 1)
		is := x.n == y.n
		op := s.Pick("==", "!=", "<", ">=")
		switch op {
		case "!=":
			is = !is
		case "<", ">=":
			is = x.n < y.n
			if t == "u64" {
				is = uint64(x.n) < uint64(y.n)
			}
			is = is == (op == "<")
		}
		v := cuVal{t: "i1"}
		if is {
			v.n = 1
		}
		return "(" + a + " " + op + " " + b + ")", v
	}
	t := cuInts[s.N(len(cuInts))]
	return g.integer(t, s.N(3))
}

func (g *cuG) show(n cuName) string {
	if n.v.k == 3 {
		a := int64(g.s.N(50))
		fmt.Fprintf(g.want, "%d \n", a*10+n.v.n)
		return fmt.Sprintf("@print(%s(%d), \"\\n\");\n", n.spell, a)
	}
	if n.v.t == "i1" && g.s.P(1, 2) {
		g.want.WriteString([]string{"no", "yes"}[n.v.n] + " \n")
		return "if " + n.spell + " { @print(\"yes\", \"\\n\"); } else { @print(\"no\", \"\\n\"); }\n"
	}
	g.want.WriteString(n.v.out() + " \n")
	return "@print(" + n.spell + ", \"\\n\");\n"
}

func (g *cuG) decl(name string, constant bool, root string) string {
	e, v := g.value(root)
	n := cuName{name, v, constant}
	g.scopes[len(g.scopes)-1] = append(g.scopes[len(g.scopes)-1], n)
	kw := ""
	if constant {
		kw = "const "
	}
	return fmt.Sprintf("%s%s : %s = %s;\n", kw, name, v.t, e)
}

func (g *cuG) push() { g.scopes = append(g.scopes, nil) }
func (g *cuG) pop()  { g.scopes = g.scopes[:len(g.scopes)-1] }

func (g *cuG) sw(ind string) string {
	s := g.s
	t := cuInts[s.N(len(cuInts))]
	k := s.Range(1, 4)
	var es []string
	var vs []int64
	for i := 0; i < k; i++ {
		e, v := g.integer(t, s.N(2))
		dup := false
		for _, o := range vs {
			dup = dup || o == v.n
		}
		if !dup {
			es, vs = append(es, e), append(vs, v.n)
		}
	}
	hit := s.N(len(es) + 1)
	cond, cv := g.lit(t)
	if hit < len(es) {
		cv = cuVal{t: t, n: vs[hit]}
		cond = "(" + es[hit] + ")"
	}
	s.Label("cases of constants")
	out := "switch " + cond + " {\n"
	taken := false
	for i, e := range es {
		out += fmt.Sprintf("case %s { @print(\"case\", %d, \"\\n\"); }\n", e, i)
		if vs[i] == cv.n {
			taken = true
			fmt.Fprintf(g.want, "case %d \n", i)
		}
	}
	if !taken {
		g.want.WriteString("default \n")
	}
	return out + "default { @print(\"default\", \"\\n\"); }\n}\n"
}

func (g *cuG) body(depth int) string {
	s := g.s
	var out strings.Builder
	s.Rep(1, 5, func(int) {
		switch s.W(6, 3, 4, 3, 2, 2, 2) {
		case 0:
			out.WriteString(g.decl(s.Pick("a", "b", "k1", "k2", "v1", "z"), true, ""))
		case 1:
			out.WriteString(g.decl(s.Pick("a", "b", "k1", "k2", "v1", "z"), false, ""))
		case 2:
			vis := g.visible()
			if len(vis) > 0 {
				out.WriteString(g.show(vis[s.N(len(vis))]))
			}
		case 3:
			out.WriteString(g.sw(""))
		case 4:
			if depth > 0 {
				g.push()
				out.WriteString("if 1 == 1 {\n" + g.body(depth-1) + "}\n")
				g.pop()
			}
		case 5:
			if depth > 0 {
				s.Label("constants in an anonymous function")
				g.push()
				n := fmt.Sprintf("l%d", s.N(1000))
				out.WriteString(n + " : func() void = func() void {\n" + g.body(depth-1) + "};\n" + n + "();\n")
				g.pop()
			}
		case 6:
			// a variable that is changed leaves the constant as it was
			if n := g.pick(true, func(v cuVal) bool { return v.k == 0 && v.t != "i1" || v.k == 2 }); n != nil {
				w := fmt.Sprintf("w%d", s.N(1000))
				e, v := "\"new\"", cuVal{t: "*i8", k: 2, s: "new"}
				if n.v.k == 0 {
					e, v = g.lit(n.v.t)
				}
				out.WriteString(fmt.Sprintf("%s : %s = %s;\n%s = %s;\n", w, n.v.t, n.spell, w, e))
				out.WriteString(g.show(cuName{w, v, false}))
				out.WriteString(g.show(*n))
			}
		}
	})
	for _, n := range g.scopes[len(g.scopes)-1] {
		if s.P(1, 3) {
			for _, v := range g.visible() {
				if v.spell == n.spell {
					out.WriteString(g.show(v))
				}
			}
		}
	}
	return out.String()
}

const cuFns = `func fn0(x i32) i32 { return x * 10; }
func fn1(x i32) i32 { return x * 10 + 1; }
func fn2(x i32) i32 { return x * 10 + 2; }
`

func genConstUse(s *gen.Src) *Case {
	g := &cuG{s: s, want: &strings.Builder{}}
	g.push()
	files := map[string]string{}
	var top strings.Builder
	root := ""
	// another file and its constants
	if s.P(2, 3) {
		var m strings.Builder
		m.WriteString(cuFns)
		s.Rep(1, 5, func(i int) { m.WriteString(g.decl(fmt.Sprintf("k%d", i), s.P(3, 4), "m.")) })
		text := m.String()
		for i, n := range g.scopes[0] {
			g.scopes[0][i].spell = "m." + n.spell
		}
		files["m.cd"] = strings.ReplaceAll(text, "m.", "")
		top.WriteString("import m, \"m.cd\";\n")
		root = "m."
	}
	top.WriteString(cuFns)
	if root == "" {
		root = "\x00"
	}
	var consts strings.Builder
	s.Rep(1, 6, func(i int) { consts.WriteString(g.decl(fmt.Sprintf("k%d", i), s.P(3, 4), root)) })
	top.WriteString(strings.ReplaceAll(consts.String(), "\x00", ""))
	calls := ""
	s.Rep(1, 3, func(i int) {
		g.push()
		fmt.Fprintf(&top, "func f%d() void {\n%s}\n", i, g.body(2))
		g.pop()
		calls += fmt.Sprintf("f%d();\n", i)
	})
	g.push()
	last := g.body(1)
	if g.want.Len() == 0 {
		return nil
	}
	return &Case{Judge: "run", Src: top.String() + "func main() void {\n" + calls + last + "}\n", Files: files, Want: g.want.String(), NonTr: g.want.Len() >= 4,
		X: map[string]string{"opt": optMix(s)}}
}
