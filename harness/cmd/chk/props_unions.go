package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

type uMember struct {
	t, lit string
	size   int
	align  int
	bytes  map[int]byte
}

func uScalar(s *gen.Src) uMember {
	w := []int{1, 2, 4, 8}[s.N(4)]
	t := fmt.Sprintf("%s%d", s.Pick("i", "u"), w*8)
	v := uint64(s.N(120))
	m := uMember{t: t, size: w, align: w, lit: fmt.Sprintf("(%d as %s)", v, t), bytes: map[int]byte{}}
	for i := 0; i < w; i++ {
		m.bytes[i] = byte(v >> (8 * uint(i)))
	}
	return m
}

// genUnionInit: variables of a union type that get their value from a member,
// then have every one of their bytes written and copied.
func genUnionInit(s *gen.Src) *Case {
	var defs, body, want strings.Builder
	nt := 0
	var member func(d int) uMember
	member = func(d int) uMember {
		switch {
		case d > 0 && s.P(1, 3):
			e := member(0)
			n := 1 + s.N(4)
			m := uMember{t: fmt.Sprintf("[%d]%s", n, e.t), size: n * e.size, align: e.align, bytes: map[int]byte{}}
			var ls []string
			for i := 0; i < n; i++ {
				ls = append(ls, e.lit)
				for k, b := range e.bytes {
					m.bytes[i*e.size+k] = b
				}
			}
			m.lit = fmt.Sprintf("%s{%s}", m.t, strings.Join(ls, ", "))
			return m
		case d > 0 && s.P(1, 2):
			nt++
			m := uMember{t: fmt.Sprintf("S%d", nt), align: 1, bytes: map[int]byte{}}
			var fs, ls []string
			n := 1 + s.N(3)
			for i := 0; i < n; i++ {
				e := member(d - 1)
				m.size = (m.size + e.align - 1) / e.align * e.align
				for k, b := range e.bytes {
					m.bytes[m.size+k] = b
				}
				m.size += e.size
				m.align = max(m.align, e.align)
				fs = append(fs, fmt.Sprintf("f%d %s", i, e.t))
				ls = append(ls, fmt.Sprintf("f%d: %s", i, e.lit))
			}
			m.size = (m.size + m.align - 1) / m.align * m.align
			fmt.Fprintf(&defs, "struct %s { %s }\n", m.t, strings.Join(fs, " "))
			m.lit = fmt.Sprintf("@%s{%s}", m.t, strings.Join(ls, ", "))
			return m
		}
		return uScalar(s)
	}
	n := 2 + s.N(3)
	var ms []uMember
	size, align := 0, 1
	var fs []string
	for i := 0; i < n; i++ {
		m := member(2)
		ms = append(ms, m)
		size, align = max(size, m.size), max(align, m.align)
		fs = append(fs, fmt.Sprintf("m%d %s", i, m.t))
	}
	size = (size + align - 1) / align * align
	if size > 96 {
		return nil
	}
	fmt.Fprintf(&defs, "union U { %s }\nstruct H { pre i8 u U post i8 }\n", strings.Join(fs, " "))
	fmt.Fprintf(&defs, "func sum(v U) i32 { p := @cast(*u8, &v); n := 0; for i := 0; i < %d; i = i + 1 { n = n * 7 + p[i] as i32; } return n; }\nfunc same(v U) U { return v; }\n", size)
	p := func(f string, a ...any) { fmt.Fprintf(&body, "\t"+f+"\n", a...) }
	k := 0
	s.Rep(1, 3, func(int) {
		s.Span(func() {
			k++
			m := ms[s.N(n)]
			p("ga%d := 77; gb%d := 78 as i8;", k, k)
			v := m.lit
			if s.P(1, 3) {
				p("x%d := %s;", k, v)
				v = fmt.Sprintf("x%d", k)
			}
			u := fmt.Sprintf("u%d", k)
			switch s.N(4) {
			case 0, 1:
				p("%s : U = %s;", u, v)
			case 2:
				p("h%d := @H{pre: 5 as i8, u: %s, post: 6 as i8};", k, v)
				u = fmt.Sprintf("h%d.u", k)
			case 3:
				p("w%d : U = %s;\n\ta%d := [2]U{w%d, w%d};", k, v, k, k, k)
				u = fmt.Sprintf("a%d[%d]", k, s.N(2))
			}
			p("gc%d := 79 as i16;", k)
			p("p%d := @cast(*u8, &%s);", k, u)
			for i := 0; i < m.size; i++ {
				if b, ok := m.bytes[i]; ok {
					p("@print(p%d[%d], \"\");", k, i)
					fmt.Fprintf(&want, "%d ", b)
				}
			}
			if s.P(1, 2) {
				m2 := ms[s.N(n)]
				p("%s = %s;", u, m2.lit)
				for i := 0; i < m2.size; i++ {
					if b, ok := m2.bytes[i]; ok {
						p("@print(p%d[%d], \"\");", k, i)
						fmt.Fprintf(&want, "%d ", b)
					}
				}
				s.Label("assigned")
			}
			mul := 1 + 2*s.N(20)
			p("for i := 0; i < %d; i = i + 1 { p%d[i] = (i * %d + 3) as u8; }", size, k, mul)
			sum := int32(0)
			for i := 0; i < size; i++ {
				sum = sum*7 + int32(byte(i*mul+3))
			}
			p("c%d : U = %s;", k, u)
			p("d%d := same(c%d);", k, k)
			p("@print(sum(%s), sum(c%d), sum(d%d), sum(same(%s)), ga%d, gb%d, gc%d, @sizeof(U), \"\\n\");", u, k, k, u, k, k, k)
			fmt.Fprintf(&want, "%d %d %d %d 77 78 79 %d \n", sum, sum, sum, sum, size)
			if strings.HasPrefix(u, "h") {
				p("@print(h%d.pre, h%d.post, \"\");", k, k)
				want.WriteString("5 6 ")
			}
		})
	})
	return &Case{Judge: "run", Src: defs.String() + "func main() void {\n" + body.String() + "}\n", Want: want.String(), NonTr: k > 0,
		X: map[string]string{"opt": []string{"jit", "asan", "-O2"}[s.W(6, 2, 1)]}}
}
