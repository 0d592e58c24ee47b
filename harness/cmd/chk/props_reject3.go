package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// A ty is the structure of a type: a name, or a constructor applied to types.
type ty struct {
	k  byte // n name, p pointer, a array, f function
	n  string
	ln int
	in []*ty
	r  *ty // result of a function, nil for none
}

func (t *ty) String() string {
	switch t.k {
	case 'p':
		return "*" + t.in[0].String()
	case 'a':
		return fmt.Sprintf("[%d]%s", t.ln, t.in[0])
	case 'f':
		var ps []string
		for _, p := range t.in {
			ps = append(ps, p.String())
		}
		r := ""
		if t.r != nil {
			r = " " + t.r.String()
		}
		return "func(" + strings.Join(ps, ", ") + ")" + r
	}
	return t.n
}

var leafNames = []string{"i1", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "ZS", "ZT", "ZU", "zm.ZMS", "zgi.ZGS", "zgl.ZGS"}

// genTy makes a type of at most the depth d. Functions of arrays and pointers
// to functions are all possible; a result never ends a function type inside of
// a list, where the grammar would be ambiguous.
func genTy(s *gen.Src, d int) *ty {
	if d > 0 {
		switch s.N(5) {
		case 0, 1:
			return &ty{k: 'p', in: []*ty{genTy(s, d-1)}}
		case 2:
			return &ty{k: 'a', ln: s.Range(1, 4), in: []*ty{genTy(s, d-1)}}
		case 3:
			f := &ty{k: 'f'}
			for i := s.N(4); i > 0; i-- {
				f.in = append(f.in, genTy(s, d-1))
			}
			if s.P(2, 3) {
				f.r = genTy(s, d-1)
			}
			return f
		}
	}
	return &ty{k: 'n', n: leafNames[s.N(len(leafNames))]}
}

// all lists the places of t.
func (t *ty) all(out []*ty) []*ty {
	out = append(out, t)
	for _, x := range t.in {
		out = x.all(out)
	}
	if t.r != nil {
		out = t.r.all(out)
	}
	return out
}

func (t *ty) clone() *ty {
	c := *t
	c.in = nil
	for _, x := range t.in {
		c.in = append(c.in, x.clone())
	}
	if t.r != nil {
		c.r = t.r.clone()
	}
	return &c
}

// differ changes one place of a copy of t, which makes it another type.
func differ(s *gen.Src, t *ty) *ty {
	for {
		c := t.clone()
		l := c.all(nil)
		x := l[s.N(len(l))]
		switch x.k {
		case 'n':
			if s.P(1, 4) {
				*x = ty{k: 'p', in: []*ty{x.clone()}}
			} else if s.P(1, 8) {
				*x = ty{k: 'a', ln: 1, in: []*ty{x.clone()}}
			} else {
				x.n = leafNames[s.N(len(leafNames))]
			}
		case 'p':
			if s.Bool() {
				*x = *x.in[0]
			} else {
				x.k, x.ln = 'a', 1
			}
		case 'a':
			switch s.N(4) {
			case 0:
				*x = *x.in[0]
			case 1:
				x.k = 'p'
			default:
				x.ln = x.ln + s.Range(1, 3)
			}
		case 'f':
			switch s.N(4) {
			case 0:
				x.in = append(x.in, &ty{k: 'n', n: leafNames[s.N(len(leafNames))]})
			case 1:
				if len(x.in) > 0 {
					i := s.N(len(x.in))
					x.in = append(x.in[:i], x.in[i+1:]...)
				}
			case 2:
				if x.r == nil {
					x.r = &ty{k: 'n', n: leafNames[s.N(len(leafNames))]}
				} else {
					x.r = nil
				}
			case 3:
				if len(x.in) > 1 {
					i := s.N(len(x.in) - 1)
					x.in[i], x.in[i+1] = x.in[i+1], x.in[i]
				}
			}
		}
		// two different types may be written alike only where a function is
		// the result of another one, and then they are one type
		if c.String() != t.String() {
			return c
		}
	}
}

// coerced tells whether a variable of the type u may be given a t because a
// union expects the values of its fields, and a pointer to it their pointers.
func coerced(t, u *ty) bool {
	for t.k == 'p' && u.k == 'p' {
		t, u = t.in[0], u.in[0]
	}
	return u.k == 'n' && u.n == "ZU" && t.k == 'n' && (t.n == "i32" || t.n == "f32")
}

func init() {
	general = append(general, rule{"types that differ in one place", func(s *gen.Src, bad bool) (string, []string) {
		t := genTy(s, s.Range(1, 4))
		u := t
		if bad {
			u = differ(s, t)
		}
		if bad && (coerced(t, u) || coerced(u, t)) {
			return "", nil
		}
		if s.Bool() {
			t, u = u, t
		}
		f := s.Pick(
			"func zq(a %[1]s) %[2]s { return a; }",
			"func zq(a %[1]s, b %[2]s) { a = b; }",
			"func zq(a %[1]s) { b : %[2]s = a; }",
			"func zqa(a %[1]s) { }\nfunc zq(b %[2]s) { zqa(b); }",
			"func zq(b *%[2]s, a %[1]s) { *b = a; }",
			"func zq(b *%[2]s, a %[1]s) { b[1] = a; }",
			"func zq(a %[1]s, b [3]%[2]s) { b[1] = a; }",
			"struct ZQ { x %[2]s }\nfunc zq(a %[1]s, b ZQ) { b.x = a; }",
			"struct ZQ { x %[2]s }\nfunc zq(a %[1]s) { b := @ZQ{x: a}; }",
			"struct ZQ { x %[2]s }\nfunc zq(a ZQ) %[1]s { return a.x; }",
			"func zq(a %[1]s) { b := [2]%[2]s{a, a}; }",
			"func zq(a %[1]s, b func(%[2]s)) { b(a); }",
			"func zq(a %[1]s) { b := func(x %[2]s) { }; b(a); }",
			"func zqa(a %[1]s, k i32) { }\nfunc zq(b %[2]s) i32, %[1]s { return 1, b; }",
			"func zq(a %[1]s, b %[2]s, c i32) { c, a = 3, b; }",
			"func zqa() %[1]s { return zqa(); }\nfunc zq() { b : %[2]s = zqa(); }",
			"func zqa() %[1]s { return zqa(); }\nfunc zq() %[2]s { return zqa(); }",
			"func zqa(x %[1]s) %[1]s, i32 { return x, 1; }\nfunc zq(a %[1]s, b %[2]s, c i32) { b, c = zqa(a); }",
			"func zq(a %[1]s) { b := :%[2]s { return a; }; }",
			"func zq(a %[1]s) { b := func() %[2]s { return a; }; }",
			"func zq(a %[1]s) { b : *%[2]s = &a; }",
			"type ZQ = %[1]s;\nfunc zq(a ZQ) %[2]s { return a; }",
			"type ZQ = %[2]s;\nfunc zqa(a ZQ) { }\nfunc zq(b %[1]s) { zqa(b); }",
			"func zqa(a %[1]s) { }\nfunc zq() { b : func(%[2]s) = zqa; }",
			"func zq() { b := @alloc(%[1]s, 2); c : *%[2]s = b; @free(b); }",
		)
		return "", []string{fmt.Sprintf(f, t, u) + "\n"}
	}})
}
