package main

import (
	"fmt"
	"strings"

	"candverif/gen"
)

// nested puts text into n blocks of several kinds; the text sees what the
// blocks around it declare.
func nested(s *gen.Src, n int, text string) string {
	for i := 0; i < n; i++ {
		w := []string{
			"{ T }", "if ZG == 5 { T }", "if ZG == 4 { } else { T }", "if ZG == 4 { } else if ZG == 3 { } else if ZG == 5 { T }",
			"for ziI := 0; ziI < 1; ziI = ziI + 1 { T }", "for ZG == 4 { T break; }", "switch ZG { case 3 { } case 5 { T } default { } }", "switch ZG { case 5 { } default { T } }",
		}[s.N(8)]
		text = strings.NewReplacer("T", text, "I", fmt.Sprint(i)).Replace(w)
	}
	return text
}

func init() {
	general = append(general, rule{"one name twice in a list", func(s *gen.Src, bad bool) (string, []string) {
		n := s.Range(2, 9)
		names := make([]string, n)
		for i := range names {
			names[i] = "zn" + string(rune('a'+i))
		}
		if bad {
			i := s.N(n)
			j := s.N(n - 1)
			if j >= i {
				j++
			}
			names[j] = names[i]
		}
		var decl, vals, types []string
		for i, x := range names {
			decl = append(decl, x+" i32")
			vals = append(vals, fmt.Sprintf("%s: %d", x, i))
			types = append(types, fmt.Sprintf("zn%c i32", 'a'+i))
		}
		switch s.N(6) {
		case 0:
			return "", []string{"struct ZQ { " + strings.Join(decl, " ") + " }\n"}
		case 1:
			return "", []string{"union ZQ { " + strings.Join(decl, " ") + " }\n"}
		case 2:
			return "", []string{"func zq(" + strings.Join(decl, ", ") + ") { }\n"}
		case 3:
			return "{ zq := func(" + strings.Join(decl, ", ") + ") { }; }", nil
		case 4:
			var c []string
			for _, x := range names {
				c = append(c, fmt.Sprintf("case %d { }", int(x[2])*3))
			}
			return "{ switch ZG { " + strings.Join(c, " ") + " } }", nil
		}
		return "", []string{"struct ZQ { " + strings.Join(types, " ") + " }\n", "func zq() { zx := @ZQ{" + strings.Join(vals, ", ") + "}; }\n"}
	}}, rule{"a name of blocks around", func(s *gen.Src, bad bool) (string, []string) {
		use := s.Pick("@print(zdeep);", "zdeep = 4;", "zo := zdeep + 1;", "zo := &zdeep;", "zo := [2]i32{1, zdeep};", "if zdeep == 3 { }", "zl := func() i32 { return zdeep; };", "for zdeep < 0 { }", "switch zdeep { case 1 { } }", "zdeep, ZG = 1, 2;", "zo, zt := 1, zdeep;")
		in, out := s.N(5), s.Range(1, 4)
		if !bad {
			return "{ " + nested(s, out, "zdeep := 3; "+nested(s, in, use)) + " }", nil
		}
		// The use stands after the end of one of the blocks that hold the name.
		k := s.N(out)
		inner := nested(s, out-k, "zdeep := 3; "+nested(s, in, s.Pick("", "ZG = zdeep;")))
		return "{ " + nested(s, k, inner+" "+nested(s, s.N(3), use)) + " }", nil
	}}, rule{"one operand of a deep expression", func(s *gen.Src, bad bool) (string, []string) {
		t := numTV[s.N(len(numTV))]
		leaf := func(t tv) string {
			switch s.N(6) {
			case 0:
				return "(" + t.v + ")"
			case 1:
				return "zv"
			case 2:
				return "za[1]"
			case 3:
				return "*zp"
			case 4:
				return "zh.zq"
			}
			return "(" + t.v + ")"
		}
		n := s.Range(2, 10)
		at := -1
		if bad {
			at = s.N(n)
		}
		k := 0
		var expr func(n int) string
		expr = func(n int) string {
			if n == 1 {
				k++
				if k-1 == at {
					_, o := two(s, numTV)
					for o.t == t.t {
						_, o = two(s, numTV)
					}
					return s.Pick("("+o.v+")", "(@ZS{zf: 1, zg: \"a\"})", "zvoid", "[1]"+t.t+"{"+t.v+"}", "[1]*"+t.t+"{&zv}", "("+o.v+")", "(zv as "+o.t+")")
				}
				return leaf(t)
			}
			l := s.Range(1, n-1)
			x, y := expr(l), expr(n-l)
			e := x + s.Pick(" + ", " - ", " * ") + y
			if s.P(2, 3) {
				e = "(" + e + ")"
			}
			return e
		}
		e := expr(n)
		pre := fmt.Sprintf("zv := %[1]s; za := [2]%[2]s{%[1]s, %[1]s}; zp := &zv; zh := @ZQ{zq: %[1]s}; ", t.v, t.t)
		use := fmt.Sprintf(s.Pick("zr := %[1]s;", "zr : %[2]s = %[1]s;", "zv = %[1]s;", "zh.zq = %[1]s;", "za[0] = %[1]s;", "*zp = %[1]s;", "if zv == %[1]s { }", "zr := [1]%[2]s{%[1]s};", "zqf(%[1]s);", "@print(%[1]s);", "zr := @ZQ{zq: %[1]s};", "zr, zs := 1, %[1]s;", "zr := (%[1]s) as i64;", "zl := func(zv %[2]s, zh ZQ, za [2]%[2]s, zp *%[2]s) %[2]s { return %[1]s; };"), e, t.t)
		return "", []string{"struct ZQ { zq " + t.t + " }\n", "func zqf(a " + t.t + ") { }\n", "func zqg() { " + pre + use + " }\n"}
	}})
}
