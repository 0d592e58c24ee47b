package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// C15: bodies made of the statements that matter for return paths, written as
// text; the model tells whether every path leaves through a return.

type skel struct {
	s     *gen.Src
	sb    strings.Builder
	ind   int
	n     int
	ret   string // the return statement of the function in effect, with %d
	unr   bool   // @unreachable() was used
	loops int
	size  int
}

func (k *skel) line(f string, a ...interface{}) {
	k.sb.WriteString(strings.Repeat("\t", k.ind))
	fmt.Fprintf(&k.sb, f, a...)
	k.sb.WriteByte('\n')
}

func (k *skel) cond() string {
	return k.s.Pick("x > 3", "x == 2", "x < 1 && x != 4", "!(x == 1)", "x", "1 == 1", "x > 0 || x < 9", "(x & 1) == 1")
}

// dead statements are not analysed, so nothing follows a returning one unless it is plain.
func (k *skel) stmts(depth, max int) (returns bool) {
	n := k.s.N(max + 1)
	for i := 0; i < n && !returns; i++ {
		k.s.Span(func() { returns = k.stmt(depth) })
	}
	if returns && k.s.P(1, 8) {
		k.line("@print(9);")
	}
	return
}

func (k *skel) block(head string, depth int, must bool) (returns bool) {
	k.line("%s{", head)
	k.ind++
	returns = k.stmts(depth-1, 3)
	if must && !returns {
		k.leave()
		returns = true
	}
	k.ind--
	k.line("}")
	return
}

func (k *skel) leave() {
	k.n++
	if k.s.P(1, 10) {
		k.unr = true
		k.line("@unreachable();")
		return
	}
	if strings.Contains(k.ret, "%d") {
		k.line(k.ret, k.n)
	} else {
		k.line("%s", k.ret)
	}
}

// stmt writes one statement; bias makes blocks return often, so that the
// decision hangs on one branch.
func (k *skel) stmt(depth int) bool {
	s := k.s
	k.size++
	if depth <= 0 {
		switch s.W(3, 4, 1) {
		case 0:
			k.leave()
			return true
		case 1:
			k.line("@print(x);")
			return false
		}
		if k.loops > 0 {
			k.line("%s;", s.Pick("break", "continue"))
			return false
		}
		k.line("x = x + 1;")
		return false
	}
	must := func() bool { return s.P(3, 4) }
	switch s.W(7, 4, 2, 2, 2, 1, 1, 1, 1) {
	case 0: // if
		all := k.block("if "+k.cond()+" ", depth, must())
		n := s.W(3, 3, 2)
		for i := 0; i < n; i++ {
			r := k.block("else if "+k.cond()+" ", depth, must())
			all = all && r
		}
		if s.P(3, 4) {
			r := k.block("else ", depth, must())
			return r && all
		}
		return false
	case 1: // switch
		k.line("switch x {")
		k.ind++
		n := s.N(4)
		all := true
		for i := 0; i < n; i++ {
			r := k.block(fmt.Sprintf("case %d ", i*3), depth, must())
			all = all && r
		}
		def := s.P(3, 4)
		if def {
			r := k.block("default ", depth, must())
			all = all && r
		}
		k.ind--
		k.line("}")
		return def && all
	case 2: // loop: never counts as returning
		h := s.Pick("for x < 3 ", "for i := 0; i < 3; i = i + 1 ", "for ", "for 1 == 1 ")
		k.loops++
		k.block(h, depth, must())
		k.loops--
		return false
	case 3:
		return k.block("", depth, must())
	case 4:
		k.leave()
		return true
	case 5: // an expression block has its own return paths and does not affect the function's
		t := s.Pick("i32", "i64")
		old, ol := k.ret, k.loops
		k.ret = "return %d as " + t + ";"
		k.loops = 0
		k.n++
		k.line("e%d := :%s ", k.n, t)
		r := k.block("", depth, true)
		_ = r
		k.line(";")
		k.ret, k.loops = old, ol
		return false
	case 6: // so has an anonymous function
		old, ol := k.ret, k.loops
		k.loops = 0
		k.n++
		k.ret = "return %d;"
		must := true
		k.line("f%d := func(x i32) %s", k.n, s.Pick("i32 ", "i32 "))
		k.block("", depth, must)
		k.line(";")
		k.ret, k.loops = old, ol
		return false
	case 7:
		k.line("x = x * 2;")
		return false
	}
	k.line("@print(x);")
	return false
}

func genReturns(s *gen.Src) *Case {
	k := &skel{s: s}
	kinds := []struct{ t, ret string }{
		{"i32", "return %d;"}, {"i64", "return %d as i64;"}, {"*i8", `return "r%d";`}, {"R", "return @R{a: %d};"},
		{"i32, i64", "return %d, 2 as i64;"}, {"func() void", "return g;"}, {"f32", "return %d as f32;"}, {"void", "return;"},
	}
	w := kinds[s.W(6, 1, 1, 1, 1, 1, 1, 1)]
	k.ret = w.ret
	form := s.W(4, 2, 2)
	tail := ""
	var head string
	switch form {
	case 0:
		head = "func f(x i32) " + w.t + " {"
	case 1:
		head = "func main() void {\n\tf := func(x i32) " + w.t + " {"
		tail = ";\n}"
	case 2:
		if strings.Contains(w.t, ",") || w.t == "void" || strings.HasPrefix(w.t, "func") {
			w = kinds[0]
			k.ret = w.ret
		}
		head = "func main() void {\n\tx := 4;\n\te := :" + w.t + " {"
		tail = ";\n}"
	}
	k.ind = 1
	returns := k.stmts(2+s.N(3), 4)
	src := "struct R { a i32 }\nfunc g() void { }\n" + head + "\n" + k.sb.String() + "}" + tail + "\n"
	if form == 0 {
		src += "func main() void { }\n"
	}
	c := &Case{Judge: "accept", Src: src, NonTr: k.size > 2, X: map[string]string{"note": w.t}}
	if !returns && w.t != "void" {
		c.Judge = "reject"
		c.X["why"] = "some path leaves the body without returning a value"
	}
	s.Label("form " + []string{"function", "anonymous function", "expression block"}[form])
	s.Label(c.Judge)
	return c
}

func init() {
	register(&Prop{ID: "C15", Rule: "body with at least three statements; distinct by text; the model decides by structural recursion whether every path returns", Fams: []Fam{
		{Name: "paths", Quick: 8000, Thorough: 300000, Gen: genReturns},
	}})
}
