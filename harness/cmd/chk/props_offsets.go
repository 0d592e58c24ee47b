package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C08 offsets: the distance between an address and the one that is k elements
// away, for every type of the elements and of k.
func genOffsets(s *gen.Src) *Case {
	var src, body, want strings.Builder
	src.WriteString("struct S { a i8 b i64 c i16 }\nstruct T { a i8 b [3]i8 }\nunion U { a i8 b i32 }\n")
	elems := []struct {
		t string
		n int64
	}{{"i8", 1}, {"i16", 2}, {"i32", 4}, {"i64", 8}, {"u8", 1}, {"u16", 2}, {"u32", 4}, {"u64", 8}, {"f32", 4}, {"f64", 8}, {"S", 24}, {"T", 4}, {"U", 4}, {"*i8", 8}, {"*S", 8}, {"func(i32) i32", 8}, {"[3]i16", 6}, {"[2]S", 48}}
	n := 0
	s.Rep(1, 14, func(int) {
		s.Span(func() {
			n++
			el := elems[s.N(len(elems))]
			t := lang.Ints[s.N(len(lang.Ints))]
			v := edge(s, t)
			if t.Bits < 64 {
				v &= 1<<uint(t.Bits) - 1
			}
			k := int64(v)
			if !t.Un && t.Bits < 64 {
				k = int64(v<<(64-uint(t.Bits))) >> (64 - uint(t.Bits))
			}
			lit := fmt.Sprint(v)
			if v > 1<<63-1 {
				lit = fmt.Sprintf("(%d as u64 * 2 as u64 + %d as u64)", v/2, v%2)
			}
			lit = fmt.Sprintf("(%s as %s)", lit, t)
			op := lit
			switch s.N(5) {
			case 0:
				fmt.Fprintf(&body, "\tk%d := %s;\n", n, lit)
				op = fmt.Sprintf("k%d", n)
			case 1:
				fmt.Fprintf(&src, "func k%d() %s { return %s; }\n", n, t, lit)
				op = fmt.Sprintf("k%d()", n)
			case 2:
				fmt.Fprintf(&src, "k%d : %s = %s;\n", n, t, lit)
				op = fmt.Sprintf("k%d", n)
			case 3:
				fmt.Fprintf(&body, "\tk%d := %s;\n\tq%d := &k%d;\n", n, lit, n, n)
				op = fmt.Sprintf("(*q%d)", n)
			}
			p := fmt.Sprintf("p%d", n)
			fmt.Fprintf(&body, "\t%s := 4096 as i64 as *%s;\n", p, el.t)
			sign := int64(1)
			var e string
			switch s.N(4) {
			case 0:
				e = fmt.Sprintf("%s + %s", p, op)
			case 1:
				e, sign = fmt.Sprintf("%s - %s", p, op), -1
			case 2:
				e = fmt.Sprintf("&%s[%s]", p, op)
			case 3:
				fmt.Fprintf(&body, "\tx%d := %s + %s;\n", n, p, op)
				e = fmt.Sprintf("x%d", n)
			}
			s.Label("offset " + t.String())
			fmt.Fprintf(&body, "\t@print((%s) as i64 - 4096 as i64, \"\\n\");\n", e)
			fmt.Fprintf(&want, "%d \n", sign*k*el.n)
		})
	})
	return &Case{Judge: "run", Src: src.String() + "func main() void {\n" + body.String() + "}\n", Want: want.String(), NonTr: n > 0,
		X: map[string]string{"opt": []string{"jit", "-O0"}[s.W(5, 1)]}}
}
