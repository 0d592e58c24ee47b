package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// C10, histories: anonymous functions created, copied, passed and called between
// changes of the few variables they all capture.

type cloVal struct {
	t string // i32, i64, str, P, arr
	n []int64
	s string
}

func (v cloVal) clone() cloVal { return cloVal{v.t, append([]int64(nil), v.n...), v.s} }

type cloLam struct {
	caps  map[string]*cloVal // what it captured
	shows []string           // captured names it prints, in order
	bump  string             // a captured name it changes
	inner *cloLam            // created and called by each call
	k     int64
}

type cloProg struct {
	s    *gen.Src
	body strings.Builder
	out  strings.Builder
	n    int
}

var cloTypes = []string{"i32", "i64", "str", "P", "arr", "i8"}

func (p *cloProg) val(t string) cloVal {
	s := p.s
	v := cloVal{t: t}
	switch t {
	case "str":
		v.s = s.Pick("", "one", "two", "%d", "three")
	case "P", "arr":
		v.n = []int64{int64(s.Range(-9, 99)), int64(s.Range(-9, 99))}
	default:
		v.n = []int64{int64(s.Range(-9, 99))}
	}
	return v
}

func cloLit(v cloVal) string {
	switch v.t {
	case "str":
		return fmt.Sprintf("%q", v.s)
	case "P":
		return fmt.Sprintf("@P{x: %s, y: %s as i64}", intLit(v.n[0]), intLit(v.n[1]))
	case "arr":
		return fmt.Sprintf("[2]i32{%s, %s}", intLit(v.n[0]), intLit(v.n[1]))
	case "i32":
		return intLit(v.n[0])
	}
	return intLit(v.n[0]) + " as " + v.t
}

func intLit(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(0 - %d)", -n)
	}
	return fmt.Sprint(n)
}

func cloShow(n string, v cloVal) (string, string) {
	switch v.t {
	case "str":
		return fmt.Sprintf("@print(%q, %s, \"\\n\");", n, n), n + " " + v.s + " \n"
	case "P":
		return fmt.Sprintf("@print(%q, %s.x, %s.y, \"\\n\");", n, n, n), fmt.Sprintf("%s %d %d \n", n, v.n[0], v.n[1])
	case "arr":
		return fmt.Sprintf("@print(%q, %s[0], %s[1], \"\\n\");", n, n, n), fmt.Sprintf("%s %d %d \n", n, v.n[0], v.n[1])
	}
	return fmt.Sprintf("@print(%q, %s, \"\\n\");", n, n), fmt.Sprintf("%s %d \n", n, v.n[0])
}

// bump changes a value in place: the statement and its effect.
func cloBump(n string, v *cloVal, k int64) string {
	switch v.t {
	case "str":
		v.s += "!"
		return fmt.Sprintf("%s = %s + \"!\";", n, n)
	case "P":
		v.n[1] += k
		return fmt.Sprintf("%s.y = %s.y + (%d as i64);", n, n, k)
	case "arr":
		v.n[0] += k
		return fmt.Sprintf("%s[0] = %s[0] + %d;", n, n, k)
	case "i8":
		v.n[0] = int64(int8(v.n[0] + k))
	default:
		v.n[0] += k
	}
	return fmt.Sprintf("%s = %s + (%d as %s);", n, n, k, v.t)
}

// lam writes an anonymous function over the names it sees; text has no indent.
func (p *cloProg) lam(sees []string, vals map[string]*cloVal, d int) (*cloLam, string) {
	s := p.s
	l := &cloLam{caps: map[string]*cloVal{}, k: int64(s.N(50))}
	n := 1 + s.N(len(sees))
	perm := append([]string(nil), sees...)
	for i := range perm {
		j := i + s.N(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "func(a i32) i32 {\n")
	for _, x := range perm[:n] {
		v := vals[x].clone()
		l.caps[x] = &v
		l.shows = append(l.shows, x)
		t, _ := cloShow(x, v)
		sb.WriteString(t + "\n")
	}
	if s.P(1, 3) {
		l.bump = l.shows[s.N(len(l.shows))]
		tmp := l.caps[l.bump].clone()
		sb.WriteString(cloBump(l.bump, &tmp, l.k) + "\n")
	}
	if d > 0 && s.P(1, 4) {
		// vals of the inner one are taken at each call: text only
		p.n++
		in, t := p.lam(l.shows, l.caps, d-1)
		l.inner = in
		f := fmt.Sprintf("in%d", p.n)
		fmt.Fprintf(&sb, "%s := %s;\nreturn %s(a) + %d;\n}", f, t, f, l.k)
		return l, sb.String()
	}
	fmt.Fprintf(&sb, "return a + %d;\n}", l.k)
	return l, sb.String()
}

func (p *cloProg) call(l *cloLam, a int64) int64 {
	for _, x := range l.shows {
		_, o := cloShow(x, *l.caps[x])
		p.out.WriteString(o)
	}
	if l.bump != "" {
		cloBump(l.bump, l.caps[l.bump], l.k)
	}
	if l.inner != nil {
		for x := range l.inner.caps {
			v := l.caps[x].clone()
			l.inner.caps[x] = &v
		}
		return p.call(l.inner, a) + l.k
	}
	return a + l.k
}

func genClosures(s *gen.Src) *Case {
	p := &cloProg{s: s}
	line := func(f string, a ...interface{}) { fmt.Fprintf(&p.body, f+"\n", a...) }
	globals, helper := "", ""
	calls, lams := 0, 0
	// one run of a function body: variables and anonymous functions of its own
	scope := func(tag string, ops int) {
		vals := map[string]*cloVal{}
		var names []string
		for i, n := 0, 1+s.N(3); i < n; i++ {
			v := p.val(cloTypes[s.W(6, 3, 3, 3, 3, 2)])
			x := string(rune('x' + i))
			vals[x] = &v
			names = append(names, x)
			line("%s := %s;", x, cloLit(v))
		}
		type slot struct {
			e string
			l *cloLam
		}
		var slots []*slot
		change := func() {
			x := names[s.N(len(names))]
			v := vals[x]
			if s.Bool() {
				line("%s", cloBump(x, v, int64(1+s.N(20))))
			} else {
				*v = p.val(v.t)
				line("%s = %s;", x, cloLit(*v))
			}
		}
		for i := 0; i < ops; i++ {
			s.Span(func() {
				switch s.W(4, 4, 6, 2, 1) {
				case 0:
					change()
				case 1:
					l, t := p.lam(names, vals, 2)
					p.n++
					lams++
					f := fmt.Sprintf("%s%d", tag, p.n)
					line("%s := %s;", f, t)
					slots = append(slots, &slot{f, l})
					if s.P(2, 3) {
						change()
					}
				case 2, 3:
					if len(slots) == 0 {
						return
					}
					sl := slots[s.N(len(slots))]
					a := int64(s.N(100))
					calls++
					if s.P(1, 4) {
						helper = "func apply(f func(i32) i32, a i32) i32 { return f(a); }\n"
						line("@print(apply(%s, %d), \"\\n\");", sl.e, a)
					} else {
						line("@print(%s(%d), \"\\n\");", sl.e, a)
					}
					r := p.call(sl.l, a)
					fmt.Fprintf(&p.out, "%d \n", r)
				case 4: // copies share the captured values of their site
					if len(slots) == 0 {
						return
					}
					sl := slots[s.N(len(slots))]
					p.n++
					switch s.N(3) {
					case 0:
						f := fmt.Sprintf("c%d", p.n)
						line("%s := %s;", f, sl.e)
						slots = append(slots, &slot{f, sl.l})
					case 1:
						o := slots[s.N(len(slots))]
						f := fmt.Sprintf("t%d", p.n)
						line("%s := [2]func(i32) i32{%s, %s};", f, sl.e, o.e)
						slots = append(slots, &slot{f + "[0]", sl.l}, &slot{f + "[1]", o.l})
					case 2:
						f := fmt.Sprintf("h%d", p.n)
						line("%s := @H{f: %s, z: 1};", f, sl.e)
						slots = append(slots, &slot{f + ".f", sl.l})
					}
				}
			})
		}
		for _, x := range names {
			t, o := cloShow(x, *vals[x])
			line("%s", t)
			p.out.WriteString(o)
		}
	}
	fns := ""
	for i, n := 0, s.N(3); i < n; i++ {
		// other functions run first, in order
		scope("q", 2+s.N(5))
		fns += fmt.Sprintf("func other%d() void {\n%s}\n", i, p.body.String())
		globals += fmt.Sprintf("other%d();\n", i)
		p.body.Reset()
	}
	scope("f", 5+s.N(12))
	src := "struct P { x i32 y i64 }\nstruct H { f func(i32) i32 z i32 }\n" + helper + fns + "func main() void {\n" + globals + p.body.String() + "}\n"
	return &Case{Judge: "run", Src: src, Want: p.out.String(), NonTr: lams > 1 && calls > 1, X: map[string]string{"opt": optMix(s)}}
}
