package main

import (
	"fmt"
	"os"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// A rule is one typing or scoping rule: it writes a statement (or root items)
// that respects it, or that breaks it when bad is set.
type rule struct {
	name string
	f    func(s *gen.Src, bad bool) (stmt string, items []string)
}

const rulePrelude = `struct ZS { zf i32 zg *i8 }
struct ZT { zf i32 zg *i8 }
union ZU { zi i32 zh f32 }
const ZC := 3;
ZG := 5;
func zfun(za i32, zb *i8) i64 { return 4 as i64; }
func zvoid() { }
func zpair() i32, *i8 { return 1, "a"; }
func zrecv(za ZS, zb i32) i32 { return za.zf + zb; }
func zcall(zf1 func(i32) i64) i64 { return zf1(3); }
`

type tv struct{ t, v string }

var numTV = []tv{
	{"i32", "3"}, {"i64", "3 as i64"}, {"i8", "3 as i8"}, {"i16", "3 as i16"}, {"u8", "3 as u8"}, {"u16", "3 as u16"}, {"u32", "3 as u32"}, {"u64", "3 as u64"},
	{"f32", "1.5"}, {"f64", "1.5 as f64"},
}

var allTV = append(append([]tv{}, numTV...),
	tv{"i1", "(1 == 2)"}, tv{"*i8", `"s"`}, tv{"ZS", `@ZS{zf: 1, zg: "a"}`}, tv{"ZT", `@ZT{zf: 1, zg: "a"}`}, tv{"[2]i32", "[2]i32{1, 2}"}, tv{"[3]i32", "[3]i32{1, 2, 3}"},
	tv{"[2]i64", "[2]i64{1 as i64, 2 as i64}"}, tv{"*i32", "&ZG"}, tv{"*ZS", `&(@ZS{zf: 1, zg: "a"})`}, tv{"func(i32, *i8) i64", "zfun"}, tv{"func() void", "zvoid"},
	tv{"func(i32) i64", "(func(q i32) i64 { return 3 as i64; })"},
)

func two(s *gen.Src, xs []tv) (a, b tv) {
	i := s.N(len(xs))
	j := s.N(len(xs) - 1)
	if j >= i {
		j++
	}
	return xs[i], xs[j]
}

// pickTV returns a and, when the rule is to be broken, something of another type.
func pickTV(s *gen.Src, bad bool, xs []tv) (a, b tv) {
	a, b = two(s, xs)
	if !bad {
		b = a
	}
	return
}

func ntv(s *gen.Src) tv { return numTV[s.N(len(numTV))] }

func isInt(t string) bool { return t[0] == 'i' && t != "i1" || t[0] == 'u' }

func intTV(s *gen.Src) tv { return numTV[s.N(8)] }

func choose(bad bool, no, yes string) string {
	if bad {
		return no
	}
	return yes
}

// nonNum are values no arithmetic applies to.
var aggTV = []tv{{"ZS", `@ZS{zf: 1, zg: "a"}`}, {"[2]i32", "[2]i32{1, 2}"}, {"func() void", "zvoid"}}

// general are rules whose texts are made up.
var general []rule

var rules = []rule{
	{"function defined twice", func(s *gen.Src, bad bool) (string, []string) {
		n := choose(bad, "zdup", "zdop")
		a, b := two(s, numTV)
		return "", []string{fmt.Sprintf("func zdup() %s { return %s; }\n", a.t, a.v), fmt.Sprintf("func %s() %s { return %s; }\n", n, b.t, b.v)}
	}},
	{"type defined twice", func(s *gen.Src, bad bool) (string, []string) {
		n := choose(bad, "ZDup", "ZDop")
		a, b := two(s, numTV)
		k, l := s.Pick("struct", "union"), s.Pick("struct", "union")
		return "", []string{fmt.Sprintf("%s ZDup { za %s }\n", k, a.t), fmt.Sprintf("%s %s { zb %s }\n", l, n, b.t)}
	}},
	{"parameter named twice", func(s *gen.Src, bad bool) (string, []string) {
		n := choose(bad, "za", "zb")
		a, b := two(s, numTV)
		if s.P(1, 2) {
			return fmt.Sprintf("{ zq := func(za %s, %s %s) i32 { return 1; }; zq(%s, %s); }", a.t, n, b.t, a.v, b.v), nil
		}
		return "", []string{fmt.Sprintf("func zparams(za %s, zc i32, %s %s) i32 { return 1; }\n", a.t, n, b.t)}
	}},
	{"field named twice", func(s *gen.Src, bad bool) (string, []string) {
		a, b := two(s, numTV)
		return "", []string{fmt.Sprintf("%s ZDup { za %s zc *i8 %s %s }\n", s.Pick("struct", "union"), a.t, choose(bad, "za", "zb"), b.t)}
	}},
	{"typed declaration", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV)
		return fmt.Sprintf("{ zx : %s = %s; }", a.t, b.v), nil
	}},
	{"typed declaration from a variable", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV)
		return fmt.Sprintf("{ zx := %s; zy : %s = zx; }", b.v, a.t), nil
	}},
	{"assignment", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV)
		return fmt.Sprintf("{ zx := %s; zx = %s; }", a.v, b.v), nil
	}},
	{"assignment through a path", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, `"q"`, "4")
		w := choose(bad, "4", `"q"`)
		return []string{
			fmt.Sprintf(`{ zx := @ZS{zf: 1, zg: "a"}; zx.zf = %s; }`, v),
			fmt.Sprintf(`{ zx := @ZS{zf: 1, zg: "a"}; zp := &zx; zp.zg = %s; }`, w),
			fmt.Sprintf(`{ zx := [2]i32{1, 2}; zx[1] = %s; }`, v),
			fmt.Sprintf(`{ zx := 3; zp := &zx; *zp = %s; }`, v),
			fmt.Sprintf(`{ zx := [1]ZS{@ZS{zf: 1, zg: "a"}}; zx[0].zf = %s; }`, v),
			fmt.Sprintf(`{ ZG = %s; }`, v),
			fmt.Sprintf(`{ zp := @alloc(i32, 2); zp[1] = %s; @free(zp); }`, v),
		}[s.N(7)], nil
	}},
	{"operand types", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, numTV)
		op := s.Pick("+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "+", "-")
		if isInt(a.t) && (isInt(b.t) || bad) && s.P(1, 3) {
			op = s.Pick("%", "&", "|", "^")
		}
		return fmt.Sprintf("{ zx := %s; zy := %s; @print(zx %s zy); }", a.v, b.v, op), nil
	}},
	{"literal operand types", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, numTV)
		op := s.Pick("+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=")
		return fmt.Sprintf("{ @print(%s %s %s); }", a.v, op, b.v), nil
	}},
	{"logical operand types", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, numTV)
		return fmt.Sprintf("{ zx := %s; zy := %s; if zx %s zy { } }", a.v, b.v, s.Pick("&&", "||")), nil
	}},
	{"arithmetic on aggregates", func(s *gen.Src, bad bool) (string, []string) {
		a := aggTV[s.N(len(aggTV))]
		if !bad {
			a = ntv(s)
		}
		op := s.Pick("+", "-", "*", "/", "<", ">", "<=", ">=")
		return fmt.Sprintf("{ zx := %s; zy := %s; @print(zx %s zy); }", a.v, a.v, op), nil
	}},
	{"comparison of aggregates", func(s *gen.Src, bad bool) (string, []string) {
		a := aggTV[s.N(2)]
		if !bad {
			a = ntv(s)
		}
		return fmt.Sprintf("{ zx := %s; zy := %s; @print(zx %s zy); }", a.v, a.v, s.Pick("==", "!=")), nil
	}},
	{"bitwise operator on floats", func(s *gen.Src, bad bool) (string, []string) {
		a := intTV(s)
		if bad {
			a = numTV[8+s.N(2)]
		}
		return fmt.Sprintf("{ zx := %s; zy := %s; @print(zx %s zy); }", a.v, a.v, s.Pick("&", "|", "^")), nil
	}},
	{"operator on strings", func(s *gen.Src, bad bool) (string, []string) {
		op := choose(bad, s.Pick("*", "/", "%", "&", "|", "^"), s.Pick("+", "==", "!=", "<"))
		return fmt.Sprintf(`{ zx := "a"; zy := "b"; @print(zx %s zy); }`, op), nil
	}},
	{"shift amount type", func(s *gen.Src, bad bool) (string, []string) {
		b := tv{"i32", "1"}
		if bad {
			b = []tv{{"f32", "1.0"}, {"*i8", `"a"`}, {"ZS", `@ZS{zf: 1, zg: "a"}`}, {"f64", "1.0 as f64"}}[s.N(4)]
		}
		return fmt.Sprintf("{ zx := %s; zy := %s; @print(zx %s zy); }", intTV(s).v, b.v, s.Pick("<<", ">>")), nil
	}},
	{"unary operator", func(s *gen.Src, bad bool) (string, []string) {
		a := ntv(s)
		op := s.Pick("-", "!", "++", "--")
		if bad {
			a = aggTV[s.N(2)]
			if op == "-" && s.Bool() {
				a = tv{"*i8", `"a"`}
			}
		}
		return fmt.Sprintf("{ zx := %s; zy := %szx; }", a.v, op), nil
	}},
	{"increment of a constant or value", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ zy := " + s.Pick("++ZC", "--ZC", "++3", "--(3)", "++zfun", "++(1 + 2)", "++(!ZG)", "--(-ZG)", "++(&ZG)", "++(ZG as i64)", "--(ZG * 2)", "++zvoid", "++(:i32 { return ZG; })", "++'a'", "--1.5", "++(ZG == 3)", "++@sizeof(i32)", "--zfun(1, \"a\")") + "; }", nil
		}
		return "{ zx := 3; zy := ++zx; }", nil
	}},
	{"undefined variable", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, "znope", "zx")
		return "{ zx := 3; " + []string{"@print(%s);", "zy := %s + 1;", "%s = 4;", "zy := &%s;", "zfun(%s, \"a\");", "if %s == 3 { }", "zy := [2]i32{1, %s};", "++%s;", "zq := func() i32 { return %s; };", "zs := @ZS{zf: %s, zg: \"a\"};"}[s.N(10)] + "}", []string{"\x00" + v}
	}},
	{"undefined function", func(s *gen.Src, bad bool) (string, []string) {
		return fmt.Sprintf(`{ %s(1, "a"); }`, choose(bad, "znope", "zfun")), nil
	}},
	{"undefined type", func(s *gen.Src, bad bool) (string, []string) {
		t := choose(bad, "Znope", "ZS")
		switch s.N(6) {
		case 0:
			return "{ zx := @sizeof(" + t + "); }", nil
		case 1:
			return "{ zx := @alloc(" + t + ", 2); @free(zx); }", nil
		case 2:
			return "", []string{"func zq(a " + t + ") { }"}
		case 3:
			return "", []string{"func zq(a *" + t + ") { }"}
		case 4:
			return "", []string{"struct ZQ { a *" + t + " }"}
		}
		return "{ zx := [2]*" + t + "{}; }", nil
	}},
	{"unknown field", func(s *gen.Src, bad bool) (string, []string) {
		f := choose(bad, "znope", "zf")
		return []string{
			`{ zx := @ZS{zf: 1, zg: "a"}; @print(zx.` + f + `); }`,
			`{ zx := @ZS{zf: 1, zg: "a"}; zx.` + f + ` = 3; }`,
			`{ zx := @ZS{zf: 1, zg: "a"}; zp := &zx; @print(zp.` + f + `); }`,
			`{ zx := @ZS{` + f + `: 1}; }`,
			`{ zu : ZU = 3; @print(zu.` + choose(bad, "znope", "zi") + `); }`,
		}[s.N(5)], nil
	}},
	{"field of a non struct", func(s *gen.Src, bad bool) (string, []string) {
		return "{ zx := " + choose(bad, s.Pick("3", `"a"`, "[2]i32{1, 2}", "1.5", "zfun"), `@ZS{zf: 1, zg: "a"}`) + "; @print(zx.zf); }", nil
	}},
	{"argument types", func(s *gen.Src, bad bool) (string, []string) {
		if !bad {
			return `{ zx := zfun(1, "a"); }`, nil
		}
		return "{ zx := " + s.Pick(`zfun("a", 1)`, `zfun(1 as i64, "a")`, `zfun(1.0, "a")`, `zfun(1, 2)`, `zfun(1, &ZG)`, `zfun(@ZS{zf: 1, zg: "a"}, "a")`, `zfun(zfun, "a")`, `zfun(1 as u32, "a")`, `zfun((1 == 1), "a")`) + "; }", nil
	}},
	{"argument count", func(s *gen.Src, bad bool) (string, []string) {
		if !bad {
			return `{ zx := zfun(1, "a"); zvoid(); }`, nil
		}
		return "{ " + s.Pick("zfun(1)", "zfun()", `zfun(1, "a", 2)`, "zvoid(1)", "zrecv(1)", "zcall()") + "; }", nil
	}},
	{"arguments of a function value", func(s *gen.Src, bad bool) (string, []string) {
		if !bad {
			return `{ zq := zfun; zx := zq(1, "a"); }`, nil
		}
		return "{ zq := zfun; " + s.Pick("zq(1)", "zq()", `zq(1, "a", 2)`, `zq("a", 1)`, `zq(1 as i64, "a")`) + "; }", nil
	}},
	{"signature of a function value", func(s *gen.Src, bad bool) (string, []string) {
		if !bad {
			return `{ zx := zcall(func(q i32) i64 { return 3 as i64; }); }`, nil
		}
		return "{ zx := zcall(" + s.Pick("zfun", "zvoid", "func(q i64) i64 { return q; }", "func(q i32) i32 { return q; }", "func() i64 { return 3 as i64; }", "func(q i32) { }", "func(q i32, r i32) i64 { return 3 as i64; }", "3") + "); }", nil
	}},
	{"call of a non function", func(s *gen.Src, bad bool) (string, []string) {
		return "{ zx := " + choose(bad, s.Pick("3", `"a"`, "1.5", `@ZS{zf: 1, zg: "a"}`, "[2]i32{1, 2}", "&ZG"), "zvoid") + "; zx(); }", nil
	}},
	{"dereference", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, s.Pick("3", "1.5", `@ZS{zf: 1, zg: "a"}`, "[2]i32{1, 2}", "zfun"), "&ZG")
		if s.Bool() {
			return "{ zx := " + v + "; @print(*zx); }", nil
		}
		return "{ zx := " + v + "; zy := *zx; }", nil
	}},
	{"index of a non sequence", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, s.Pick("3", "1.5", `@ZS{zf: 1, zg: "a"}`, "zfun", "(1 == 1)"), s.Pick("[2]i32{1, 2}", "&ZG", `"abc"`))
		return "{ zx := " + v + "; @print(zx[0]); }", nil
	}},
	{"index type", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, s.Pick("1.5", `"a"`, `@ZS{zf: 1, zg: "a"}`, "1.0 as f64", "&ZG"), intTV(s).v)
		return "{ zx := [4]i32{1, 2, 3, 4}; zi := " + v + "; " + s.Pick("@print(zx[zi]);", "zx[zi] = 4;", "zp := &zx[zi];") + " }", nil
	}},
	{"assignment to a constant", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return s.Pick("{ ZC = 4; }", "{ const zk := 3; zk = 4; }", "{ const zk : i64 = 3 as i64; { zk = 4 as i64; } }", "{ ++ZC; }", "{ zq := func() { ZC = 4; }; }", "{ za := 1; za, ZC = 1, 2; }"), nil
		}
		return s.Pick("{ ZG = 4; }", "{ zk := 3; zk = 4; }"), nil
	}},
	{"assignment to something that is not storage", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			if s.P(1, 3) {
				return "{ " + s.Pick("zfun = zfun;", "zvoid() = 3;", `zfun(1, "a") = 3 as i64;`) + " }", nil
			}
			what := s.Pick("3", "-za", "!zb", "&za", "za + zd", "za - 1", "za * zd", "za / zd", "za % zd", "za & zd", "za | 1", "za ^ zd", "za << 1", "za >> 1", "za == zd", "za != zd", "za < 3", "za > 3", "zb && zb", "zb || zb",
				"za as i32", "za as i64", "++za", "zl()", "[2]i32{1, 2}", `"a"`, "'a'", `@ZS{zf: 1, zg: "a"}`, "@cast(i32, za)", "1.5", ":i32 { return 3; }", "zp + 1", "-zs.zf", "zs.zf + 1", "zx[0] * 2", "(za + zd)")
			pre := `za := 1; zd := 2; zb := true; zp := &za; zx := [2]i32{1, 2}; zs := @ZS{zf: 1, zg: "a"}; zl := func() i32 { return 3; }; `
			val := s.Pick("3", "za", "zd")
			switch s.N(5) {
			case 0:
				return "{ " + pre + "za, " + what + " = 1, " + val + "; }", nil
			case 1:
				return "{ " + pre + what + ", za = " + val + ", 1; }", nil
			}
			return "{ " + pre + what + " = " + val + "; }", nil
		}
		return s.Pick("{ ZG = 3; }", "{ za := 1; (za) = 3; }", "{ za := 1; zp := &za; *zp = 3; }", "{ zx := [2]i32{1, 2}; zx[0], zx[1] = 3, 4; }", `{ zs := @ZS{zf: 1, zg: "a"}; zs.zf, ZG = 3, 4; }`), nil
	}},
	{"returned type", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV)
		return "", []string{fmt.Sprintf("func zq() %s { return %s; }", a.t, b.v)}
	}},
	{"returned type in one branch", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV)
		return "", []string{fmt.Sprintf(s.Pick("func zq(q i32) %[1]s { if q == 1 { return %[3]s; } return %[2]s; }", "func zq(q i32) %[1]s { for q < 3 { return %[3]s; } return %[2]s; }",
			"func zq(q i32) %[1]s { if q == 1 { return %[2]s; } else if q == 2 { return %[3]s; } else { return %[2]s; } }", "func zq(q i32) %[1]s { switch q { case 1 { return %[2]s; } default { return %[3]s; } } }",
			"func zq(q i32) %[1]s { { { return %[3]s; } } }"), a.t, a.v, b.v)}
	}},
	{"returned type of an anonymous function", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV[:18])
		return fmt.Sprintf("{ zq := func() %s { return %s; }; }", a.t, b.v), nil
	}},
	{"returned value of a block", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV[:18])
		return fmt.Sprintf(s.Pick("{ zx := :%[1]s { return %[3]s; }; }", "{ zx := :%[1]s if ZG == 5 { return %[2]s; } else { return %[3]s; }; }", "{ zx := :%[1]s { if ZG == 5 { return %[3]s; } return %[2]s; }; }"), a.t, a.v, b.v), nil
	}},
	{"number of returned values", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "", []string{"func zq() " + s.Pick("{ return 3; }", "i32 { return; }", "i32 { return 1, 2; }", "i32, i32 { return 1; }", "i32, i32 { return 1, 2, 3; }", "i32, *i8 { return \"a\", 1; }", "i32, i32 { return zpair(); }")}
		}
		return "", []string{"func zq() " + s.Pick("{ return; }", "i32 { return 1; }", "i32, i32 { return 1, 2; }", "i32, *i8 { return 1, \"a\"; }")}
	}},
	{"break and continue outside of loops", func(s *gen.Src, bad bool) (string, []string) {
		j := s.Pick("break;", "continue;")
		if bad {
			return "", []string{"func zq(q i32) { " + fmt.Sprintf(s.Pick("%s", "if q == 1 { %s }", "{ %s }", "switch q { case 1 { %s } default { } }", "for q < 3 { q = q + 1; } %s", "for q < 3 { q = q + 1; zl := func() { %s }; }", "zl := func() { %s };"), j) + " }"}
		}
		return "", []string{"func zq(q i32) { " + fmt.Sprintf(s.Pick("for q < 3 { q = q + 1; %s }", "for q < 3 { q = q + 1; if q == 2 { %s } }", "for q < 3 { q = q + 1; switch q { case 1 { %s } default { } } }", "zl := func(q i32) { for q < 3 { q = q + 1; %s } };"), j) + " }"}
	}},
	{"condition", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, aggTV[s.N(2)].v, s.Pick("3", "1 == 1", "2.5", "ZG > 2"))
		return fmt.Sprintf(s.Pick("{ zx := %s; if zx { } }", "{ zx := %s; if 1 == 2 { } else if zx { } }", "{ zx := %s; for zx { break; } }", "{ zx := %s; for zi := 0; zx; zi = zi + 1 { break; } }"), v), nil
	}},
	{"field type in a literal", func(s *gen.Src, bad bool) (string, []string) {
		return "{ zx := @ZS{zf: " + choose(bad, s.Pick(`"a"`, "1.5", "3 as i64", "3 as u32", "&ZG", "(1 == 1)"), "3") + ", zg: \"a\"}; }", nil
	}},
	{"element type in a literal", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV[:12])
		return fmt.Sprintf(s.Pick("{ zx := [2]%[1]s{%[2]s, %[3]s}; }", "{ zx := [2]%[1]s{%[3]s, %[2]s}; }", "{ zx := [3]%[1]s{%[2]s, %[2]s, %[3]s}; }"), a.t, a.v, b.v), nil
	}},
	{"element count of a literal", func(s *gen.Src, bad bool) (string, []string) {
		n := s.Range(1, 4)
		k := n
		if bad {
			k = n + s.Range(1, 2)
		}
		return fmt.Sprintf("{ zx := [%d]i32{%s}; }", n, strings.TrimSuffix(strings.Repeat("7, ", k), ", ")), nil
	}},
	{"number of declared names", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ " + s.Pick("za, zb := 1;", "za, zb := 1, 2, 3;", "za, zb, zc := 1, 2;", "za, zb, zc := zpair();", "za := zpair();", "za, zb := zvoid();") + " }", nil
		}
		return "{ " + s.Pick("za, zb := 1, 2;", "za, zb := zpair();", "za, zb, zc := 1, \"a\", 3 as i64;") + " }", nil
	}},
	{"multiple assignment", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ za, zb := 1, \"a\"; " + s.Pick("za, zb = zb, za;", "za, zb = 1;", "za, zb = 1, \"b\", 2;", "za, zb = \"a\", \"b\";", "za, zb = 1, 2;", "zb, za = zpair();") + " }", nil
		}
		return "{ za, zb := 1, \"a\"; " + s.Pick("za, zb = 2, \"b\";", "za, zb = zpair();") + " }", nil
	}},
	{"use of a void value", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, "zvoid()", "ZG")
		return "{ " + fmt.Sprintf(s.Pick("@print(%s);", "zx := %s;", "zx := 1; zx = %s;", "if %s { }", "zfun(%s, \"a\");", "zx := %s + 1;", "zx := [1]i32{%s};", "zx := @ZS{zf: %s, zg: \"a\"};"), v) + " }", nil
	}},
	{"pointed to type", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV[:17])
		if !bad || a.t != b.t {
			return fmt.Sprintf("{ zx := %s; zp : *%s = &zx; }", b.v, a.t), nil
		}
		return "", nil
	}},
	{"type of a case", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, numTV[:8])
		return fmt.Sprintf("{ zx := %s; switch zx { case %s { } default { } } }", a.v, b.v), nil
	}},
	{"switch on something that is no integer", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return s.Pick(`{ zx := @ZS{zf: 1, zg: "a"}; switch zx { case 1 { } default { } } }`, `{ zx := [2]i32{1, 2}; switch zx { case 1 { } default { } } }`), nil
		}
		return "{ zx := 2; switch zx { case 1 { } default { } } }", nil
	}},
	{"scope", func(s *gen.Src, bad bool) (string, []string) {
		body := s.Pick("{ zin := 3; %s }", "if ZG == 5 { zin := 3; %s }", "for zin := 0; zin < 2; zin = zin + 1 { %s }", "switch ZG { case 5 { zin := 3; %s } default { } }", "for ZG < 3 { zin := 3; %s break; }",
			"if ZG == 4 { } else { zin := 3; %s }", "if ZG == 4 { } else if ZG == 5 { zin := 3; %s }", "zfq := func(zin i32) { %s };", "zbk := :i32 { zin := 3; %s return 1; };", "zfq := func() { zin := 3; %s };")
		use := s.Pick("@print(zin);", "zin = 4;", "zo := zin + 1;", "zo := &zin;")
		if bad {
			return "{ " + fmt.Sprintf(body, "") + " " + use + " }", nil
		}
		return "{ " + fmt.Sprintf(body, use) + " }", nil
	}},
	{"locals of another function", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "", []string{"func zq() { zin := 3; }", "func zr() { " + s.Pick("@print(zin);", "zin = 3;") + " }"}
		}
		return "", []string{"func zq() { zin := 3; }", "func zr() { zin := 2; @print(zin); }"}
	}},
	{"use before the declaration", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ " + s.Pick("@print(zlate); zlate := 3;", "zlate = 3; zlate := 4;", "zx := zlate; zlate := 3;", "zlate := zlate + 1;") + " }", nil
		}
		return "{ zlate := 3; @print(zlate); zlate = 4; }", nil
	}},
	{"cast", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			a := aggTV[s.N(2)]
			return fmt.Sprintf(s.Pick("{ zx := %[1]s; zy := zx as %[2]s; }", "{ zx := %[3]s; zy := zx as "+a.t+"; }"), a.v, ntv(s).t, ntv(s).v), nil
		}
		return fmt.Sprintf("{ zx := %s; zy := zx as %s; }", ntv(s).v, ntv(s).t), nil
	}},
	{"receiver of a method call", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ " + s.Pick(`zx := "a"; zx.zrecv(1);`, `zx := 3; zx.zrecv(1);`, `zx := @ZT{zf: 1, zg: "a"}; zx.zrecv(1);`, `zx := @ZS{zf: 1, zg: "a"}; zx.znope(1);`, `zx := @ZS{zf: 1, zg: "a"}; zx.zrecv("a");`, `zx := @ZS{zf: 1, zg: "a"}; zx.zrecv();`, `zx := @ZS{zf: 1, zg: "a"}; zx.zrecv(1, 2);`) + " }", nil
		}
		return `{ zx := @ZS{zf: 1, zg: "a"}; zx.zrecv(1); }`, nil
	}},
	{"builtin arguments", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ " + s.Pick("@free(3);", "zx := @alloc(i32, 1.5);", `zx := @alloc(i32, "a");`, "zx := @realloc(3, 4);", `zx := @alloc(i32, 2); zx = @realloc(zx, "a");`, `zx := @alloc(i32, @ZS{zf: 1, zg: "a"});`, "zx := @alloc(i32, 2); zx = @realloc(zx, 1.5);", "@free(1.5);", `@free(@ZS{zf: 1, zg: "a"});`) + " }", nil
		}
		return "{ zx := @alloc(i32, 2); zx = @realloc(zx, 4); @free(zx); }", nil
	}},
	{"allocated type", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, allTV[:17])
		return fmt.Sprintf("{ zx : *%s = @alloc(%s, 2); @free(zx); }", a.t, b.t), nil
	}},
	{"initialiser of a global", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "", []string{"ZQ := " + s.Pick("ZG;", "ZG + 1;", `zfun(1, "a");`, "@alloc(i32, 2);", "znope;") + ""}
		}
		return "", []string{"ZQ := " + s.Pick("3;", "3 as i64;", `"abc";`, "1.5;", "2 * 3 + 1;")}
	}},
	{"type of a global", func(s *gen.Src, bad bool) (string, []string) {
		a, b := pickTV(s, bad, append(append([]tv{}, numTV...), tv{"*i8", `"s"`}))
		return "", []string{fmt.Sprintf("ZQ : %s = %s;", a.t, b.v)}
	}},
	{"value of a constant", func(s *gen.Src, bad bool) (string, []string) {
		if bad {
			return "{ " + s.Pick(`const zk := zfun(1, "a");`, "const zk := @alloc(i32, 1);", "zv := 3; const zk : i64 = 3;", "const zk : i32 = \"a\";") + " }", nil
		}
		return "{ " + s.Pick("const zk := 3;", "const zk := 3 as i64 + 4 as i64;", "const zk : i32 = 4;", "const zk := ZC + 1;") + " }", nil
	}},
	{"named function capturing a variable", func(s *gen.Src, bad bool) (string, []string) {
		return "", []string{"func zq() i32 { zv := 3; zl := func() i32 { return " + choose(bad, "znope2", "zv") + "; }; return zl(); }"}
	}},
	{"union member type", func(s *gen.Src, bad bool) (string, []string) {
		return "{ zu : ZU = " + choose(bad, s.Pick(`"a"`, "3 as i64", `@ZS{zf: 1, zg: "a"}`, "[2]i32{1, 2}", "1.5 as f64"), s.Pick("3", "1.5")) + "; }", nil
	}},
	{"nested argument", func(s *gen.Src, bad bool) (string, []string) {
		v := choose(bad, s.Pick(`"a"`, "1.5", "3 as i64"), "3")
		return "{ " + fmt.Sprintf(s.Pick(`zx := zfun(zrecv(@ZS{zf: %s, zg: "b"}, 1), "a");`, `zx := zfun(1 + zrecv(@ZS{zf: 1, zg: "b"}, %s), "a");`, `zx := [2]i64{zfun(%s, "a"), 3 as i64};`, `if zfun(%s, "a") > 3 as i64 { }`, `for zi := 0; zfun(%s, "a") < 2 as i64; zi = zi + 1 { }`, `zx := func() i64 { return zfun(%s, "a"); };`), v) + " }", nil
	}},
}

// terminates tells whether control cannot come out of st.
func terminates(st *lang.Stmt) bool {
	any := func(b []*lang.Stmt) bool {
		for _, x := range b {
			if terminates(x) {
				return true
			}
		}
		return false
	}
	switch st.K {
	case lang.SReturn, lang.SBreak, lang.SContinue, lang.SUnreachable:
		return true
	case lang.SBlock:
		return any(st.Body)
	case lang.SIf, lang.SSwitch:
		if !st.HasEl || !any(st.Else) || st.K == lang.SIf && !any(st.Body) {
			return false
		}
		for _, e := range st.Elifs {
			if !any(e.Body) {
				return false
			}
		}
		for _, c := range st.Cases {
			if !any(c.Body) {
				return false
			}
		}
		return true
	}
	return false
}

// bodies lists every statement list of the program.
func bodies(p *lang.Prog) []*[]*lang.Stmt {
	var lists []*[]*lang.Stmt
	var walkE func(e *lang.Expr)
	var walk func(b *[]*lang.Stmt)
	walkE = func(e *lang.Expr) {
		if e == nil {
			return
		}
		walkE(e.A)
		walkE(e.B)
		for _, a := range e.Args {
			walkE(a)
		}
		if e.K == lang.EFunc {
			walk(&e.Fn.Body)
		}
		if e.K == lang.EBlock {
			walk(&e.Body)
		}
	}
	walk = func(b *[]*lang.Stmt) {
		lists = append(lists, b)
		for _, st := range *b {
			walkE(st.E)
			walkE(st.L)
			walkE(st.Cond)
			for _, a := range st.Args {
				walkE(a)
			}
			if st.Bare {
				continue
			}
			switch st.K {
			case lang.SIf, lang.SFor, lang.SBlock:
				walk(&st.Body)
			case lang.SSwitch:
			}
			for i := range st.Elifs {
				walkE(st.Elifs[i].Cond)
				walk(&st.Elifs[i].Body)
			}
			for i := range st.Cases {
				walk(&st.Cases[i].Body)
			}
			if st.HasEl {
				walk(&st.Else)
			}
		}
	}
	for _, it := range p.Items {
		if it.Fn != nil {
			walk(&it.Fn.Body)
		}
	}
	return lists
}

// insertAt puts a raw statement somewhere into the bodies of the program.
func insertAt(s *gen.Src, p *lang.Prog, text string) {
	lists := bodies(p)
	l := lists[s.N(len(lists))]
	// code that cannot be reached is not analysed
	live := 0
	for live < len(*l) && !terminates((*l)[live]) {
		live++
	}
	i := s.N(live + 1)
	nb := append([]*lang.Stmt(nil), (*l)[:i]...)
	nb = append(nb, &lang.Stmt{K: lang.SRaw, Raw: []string{text}})
	*l = append(nb, (*l)[i:]...)
}

func genRule(bad bool) func(s *gen.Src) *Case {
	return func(s *gen.Src) *Case {
		r := rules[s.N(len(rules))]
		if s.P(1, 5) { // the general rules
			r = general[s.N(len(general))]
		}
		if f := os.Getenv("RULE"); f != "" {
			for _, x := range append(rules[:len(rules):len(rules)], general...) {
				if x.name == f {
					r = x
				}
			}
		}
		o := lang.DefaultOpt()
		o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(7), s.N(3), 3, 1, 1, true
		g := lang.NewG(s, o)
		p := g.GenProg()
		st, items := r.f(s, bad)
		if len(items) == 1 && strings.HasPrefix(items[0], "\x00") {
			st = fmt.Sprintf(st, items[0][1:])
			items = nil
		}
		if st == "" && items == nil {
			return nil
		}
		if st != "" {
			insertAt(s, p, st)
		}
		for _, it := range items {
			k := s.N(len(p.Items) + 1)
			ni := append([]lang.Item(nil), p.Items[:k]...)
			ni = append(ni, lang.Item{Raw: []string{it}})
			p.Items = append(ni, p.Items[k:]...)
		}
		s.Label("rule:" + r.name)
		c := &Case{Judge: "accept", Src: ruleImports + rulePrelude + lang.Source(p), Files: ruleFiles, NonTr: true, X: map[string]string{"note": st + strings.Join(items, " ")}}
		if bad {
			c.Judge = "reject"
			c.X["why"] = r.name
		}
		return c
	}
}

func init() {
	register(&Prop{ID: "C13", Title: "reject", Rule: "a program with exactly one violation of one of the listed rules, planted at a random place of a random valid program; distinct by text", Fams: []Fam{
		{Name: "broken", Quick: 20000, Thorough: 400000, Gen: genRule(true)},
		{Name: "respected", Quick: 2500, Thorough: 40000, Gen: genRule(false)},
	}})
}
