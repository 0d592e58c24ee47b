package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C12: programs over strings, simulated on byte buffers.

type sbuf struct {
	b    []byte // without the final zero
	heap bool
	lit  bool // a literal evaluated once: it can be written
	dead bool
}

type sref struct {
	buf *sbuf
	off int
}

func (r sref) str() string { return string(r.buf.b[r.off:]) }

type strProg struct {
	s     *gen.Src
	body  strings.Builder
	glob  strings.Builder
	out   strings.Builder
	vars  []string
	val   map[string]sref
	n     int
	used  map[string]bool
	total int
	texts []string
}

var strAlphabet = []string{"a", "b", "c", "Z", " ", "%", "\\", "\"", "\n", "0", "é", "日", "s", "d", "\x7f", "{", "//"}

func (p *strProg) randStr() string {
	s := p.s
	if len(p.texts) > 0 && s.P(1, 4) {
		return p.texts[s.N(len(p.texts))] // equal literals are different strings
	}
	r := p.randText()
	p.texts = append(p.texts, r)
	return r
}

func (p *strProg) randText() string {
	s := p.s
	if s.P(1, 3) {
		return s.Pick("", "a", "ab", "abc", "abd", "b", "%s", "%d%%", "aa", "\n")
	}
	n := s.N(9)
	if s.P(1, 20) {
		n = 60 + s.N(80)
	}
	r := ""
	for i := 0; i < n; i++ {
		r += strAlphabet[s.N(len(strAlphabet))]
	}
	return r
}

func (p *strProg) line(f string, a ...interface{}) { fmt.Fprintf(&p.body, "\t"+f+"\n", a...) }

func (p *strProg) lit(x string) string { return lang.QuoteStr(x) }

func (p *strProg) live() []string {
	var r []string
	for _, v := range p.vars {
		if !p.val[v].buf.dead {
			r = append(r, v)
		}
	}
	return r
}

func (p *strProg) varName() (string, bool) {
	l := p.live()
	if len(l) == 0 {
		return "", false
	}
	return l[p.s.N(len(l))], true
}

// expr yields an expression and its value.
func (p *strProg) expr(d int) (string, sref) {
	s := p.s
	heap := func(x string) sref { p.total += len(x); return sref{&sbuf{b: []byte(x), heap: true}, 0} }
	if d > 0 {
		switch s.W(5, 6, 2, 2, 1, 1, 1) {
		case 1:
			a, x := p.expr(d - 1)
			b, y := p.expr(d - 1)
			if s.P(1, 2) || strings.Contains(b, " + ") {
				b = "(" + b + ")"
			}
			return a + " + " + b, heap(x.str() + y.str())
		case 2:
			a, x := p.expr(d - 1)
			p.used["dup"] = true
			return "dup(" + a + ")", heap(x.str())
		case 3:
			a, x := p.expr(d - 1)
			p.used["rev"] = true
			b := []byte(x.str())
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			return "rev(" + a + ")", heap(string(b))
		case 4:
			a, x := p.expr(d - 1)
			b, y := p.expr(d - 1)
			p.used["longer"] = true
			if len(y.str()) > len(x.str()) {
				x = y
			}
			return "longer(" + a + ", " + b + ")", x
		case 5:
			a, x := p.expr(d - 1)
			n := s.N(4)
			p.used["times"] = true
			return fmt.Sprintf("times(%s, %d)", a, n), heap(strings.Repeat(x.str(), n))
		case 6: // a suffix shares its bytes
			if v, ok := p.varName(); ok {
				x := p.val[v]
				k := s.N(len(x.str()) + 1)
				return fmt.Sprintf("(%s + %d)", v, k), sref{x.buf, x.off + k}
			}
		}
	}
	if v, ok := p.varName(); ok && s.P(3, 5) {
		return v, p.val[v]
	}
	x := p.randStr()
	return p.lit(x), sref{&sbuf{b: []byte(x), lit: true}, 0}
}

func (p *strProg) print(e, v string) {
	p.line("@print(%s, \"\\n\");", e)
	p.out.WriteString(v + " \n")
}

var strHelpers = map[string][]string{
	"length": {"func length(s *i8) i32 {\n\tn := 0;\n\tfor s[n] != (0 as i8) { n = n + 1; }\n\treturn n;\n}\n",
		"func length(s *i8) i32 {\n\tn := 0;\n\tp := s;\n\tfor *p != @cast(i8, 0) { p = p + 1; ++n; }\n\treturn n;\n}\n",
		"func length(s *i8) i32 {\n\tif s == \"\" return 0;\n\treturn 1 + length(s + 1);\n}\n"},
	"dup": {"func dup(s *i8) *i8 {\n\tn := length(s);\n\tr := @alloc(i8, n + 1);\n\tfor i := 0; i <= n; i = i + 1 { r[i] = s[i]; }\n\treturn r;\n}\n",
		"func dup(s *i8) *i8 { return s + \"\"; }\n",
		"func dup(s *i8) *i8 { return \"\" + s; }\n"},
	"rev":    {"func rev(s *i8) *i8 {\n\tn := length(s);\n\tr := @alloc(i8, n + 1);\n\tfor i := 0; i < n; i = i + 1 { r[n - 1 - i] = s[i]; }\n\tr[n] = 0 as i8;\n\treturn r;\n}\n"},
	"longer": {"func longer(a *i8, b *i8) *i8 {\n\tif length(b) > length(a) { return b; }\n\treturn a;\n}\n"},
	"times":  {"func times(s *i8, n i32) *i8 {\n\tr := \"\" + \"\";\n\tfor i := 0; i < n; i = i + 1 { r = r + s; }\n\treturn r;\n}\n"},
}

func genStrings(s *gen.Src) *Case {
	p := &strProg{s: s, val: map[string]sref{}, used: map[string]bool{}}
	// global strings, constant or not
	ng := s.N(3)
	for i := 0; i < ng; i++ {
		x := p.randStr()
		n := fmt.Sprintf("g%d", i)
		k := s.Pick("const %s := %s;\n", "%s : *i8 = %s;\n", "%s := %s;\n", "const %s : *i8 = %s;\n")
		fmt.Fprintf(&p.glob, k, n, p.lit(x))
		p.val[n] = sref{&sbuf{b: []byte(x)}, 0}
		p.vars = append(p.vars, n)
	}
	assignable := map[string]bool{}
	hold := map[string]bool{}
	ops := 4 + s.N(16)
	for i := 0; i < ops; i++ {
		s.Span(func() {
			switch s.W(6, 5, 5, 3, 3, 2, 2, 2, 2, 2) {
			case 0: // declare
				e, v := p.expr(2)
				p.n++
				n := fmt.Sprintf("v%d", p.n)
				p.line("%s := %s;", n, e)
				p.vars = append(p.vars, n)
				p.val[n] = v
				assignable[n] = true
			case 1:
				e, v := p.expr(2)
				p.print(e, v.str())
			case 2: // compare
				a, x := p.expr(1)
				b, y := p.expr(1)
				if s.P(1, 3) {
					// equal contents in different buffers
					y = sref{&sbuf{b: []byte(x.str())}, 0}
					b = p.lit(x.str())
				}
				if strings.Contains(a, " + ") {
					a = "(" + a + ")"
				}
				if strings.Contains(b, " + ") {
					b = "(" + b + ")"
				}
				op := cmpOps[s.N(6)]
				r := "0"
				xs, ys := x.str(), y.str()
				if map[string]bool{"==": xs == ys, "!=": xs != ys, "<": xs < ys, "<=": xs <= ys, ">": xs > ys, ">=": xs >= ys}[op] {
					r = "1"
				}
				switch s.N(3) {
				case 0:
					p.print(a+" "+op+" "+b, r)
				case 1:
					p.line("if %s %s %s { @print(\"yes\\n\"); } else { @print(\"no\\n\"); }", a, op, b)
					p.out.WriteString(map[string]string{"1": "yes\n", "0": "no\n"}[r])
				case 2:
					p.line("if !(%s %s %s) { @print(\"not\\n\"); }", a, op, b)
					if r == "0" {
						p.out.WriteString("not\n")
					}
				}
			case 3: // read a byte
				if v, ok := p.varName(); ok {
					x := p.val[v]
					k := s.N(len(x.str()) + 1)
					c := int8(0)
					if k < len(x.str()) {
						c = int8(x.str()[k])
					}
					p.print(fmt.Sprintf(s.Pick("%s[%d]", "*(%s + %d)"), v, k), fmt.Sprint(c))
				}
			case 4: // write a byte of a string; every alias sees it
				if v, ok := p.varName(); ok && (p.val[v].buf.heap || p.val[v].buf.lit) && len(p.val[v].str()) > 0 {
					x := p.val[v]
					k := s.N(len(x.str()))
					c := s.Pick("x", "Q", " ", "%")
					if s.P(1, 4) {
						// cut the string
						p.line("%s[%d] = 0 as i8;", v, k)
						x.buf.b = x.buf.b[:x.off+k]
						// aliases beyond the cut are not used again
						for _, o := range p.vars {
							if p.val[o].buf == x.buf && p.val[o].off > len(x.buf.b) {
								p.val[o] = sref{&sbuf{dead: true}, 0}
							}
						}
					} else {
						p.line("%s[%d] = %s;", v, k, lang.QuoteChar(c[0]))
						x.buf.b[x.off+k] = c[0]
					}
					p.print(v, x.str())
				}
			case 5: // assign
				if v, ok := p.varName(); ok && assignable[v] {
					e, x := p.expr(2)
					p.line("%s = %s;", v, e)
					p.val[v] = x
				}
			case 6: // grow in a loop
				if v, ok := p.varName(); ok && assignable[v] {
					e, x := p.expr(0)
					if e == v || x.buf == p.val[v].buf {
						return
					}
					k := s.N(5)
					if len(x.str())*k+len(p.val[v].str()) > 400 {
						return
					}
					p.n++
					p.line("for i%d := 0; i%d < %d; i%d = i%d + 1 { %s = %s + %s; }", p.n, p.n, k, p.n, p.n, v, v, e)
					if k > 0 {
						p.val[v] = sref{&sbuf{b: []byte(p.val[v].str() + strings.Repeat(x.str(), k)), heap: true}, 0}
					}
					p.print(v, p.val[v].str())
				}
			case 7: // through a struct or an array
				e, x := p.expr(1)
				p.n++
				n := fmt.Sprintf("h%d", p.n)
				other := p.randStr()
				switch s.N(3) {
				case 0:
					hold["H"] = true
					p.line("%s := @H{a: 7, name: %s, b: 9 as i64};", n, e)
					p.line("@print(%s.a, %s.b);", n, n)
					p.out.WriteString("7 9")
					n += ".name"
				case 1:
					p.line("%s := [2]*i8{%s, %s};", n, p.lit(other), e)
					n += "[1]"
				case 2:
					hold["H"] = true
					p.line("%s := @H{a: 7, name: %s, b: 9 as i64};", n, p.lit(other))
					p.line("%s.name = %s;", n, e)
					n += ".name"
				}
				p.print(n, x.str())
				p.vars = append(p.vars, n)
				p.val[n] = x
				assignable[n] = true
			case 8: // length
				a, x := p.expr(1)
				p.used["length"] = true
				p.print("length("+a+")", fmt.Sprint(len(x.str())))
			case 9: // free
				if v, ok := p.varName(); ok && p.val[v].buf.heap && p.val[v].off == 0 {
					p.line("@free(%s);", v)
					p.val[v].buf.dead = true
				}
			}
		})
		if p.total > 6000 {
			return nil
		}
	}
	for _, v := range p.live() {
		p.print(v, p.val[v].str())
	}
	var src strings.Builder
	if hold["H"] {
		src.WriteString("struct H { a i32 name *i8 b i64 }\n")
	}
	src.WriteString(p.glob.String())
	for _, h := range []string{"dup", "rev", "longer", "times"} {
		if p.used[h] {
			p.used["length"] = true
			v := strHelpers[h]
			src.WriteString(v[s.N(len(v))])
		}
	}
	if p.used["length"] {
		v := strHelpers["length"]
		src.WriteString(v[s.N(len(v))])
	}
	src.WriteString("func main() void {\n" + p.body.String() + "}\n")
	return &Case{Judge: "run", Src: src.String(), Want: p.out.String(), NonTr: ops > 3 && p.out.Len() > 8, X: map[string]string{"opt": []string{"jit", "asan", "-O0"}[s.W(5, 3, 1)]}}
}

func init() {
	register(&Prop{ID: "C12", Rule: "at least four string operations and 8 bytes of predicted output; distinct by text", Fams: []Fam{
		{Name: "histories", Quick: 2200, Thorough: 40000, Gen: genStrings},
		progFam("programs", 500, 10000, func(o *lang.Opt) { o.Depth, o.Structs = 3, 1 }, optMix),
	}})
}
