package main

import (
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C23: @print writes each argument in the format of its type, separated by one
// space. Every statement mixes arguments of many types and spellings.

// Names of structs are printed: some are names that mean something to C, to
// LLVM or to the compiler.
var printStructNames = []string{"P", "Point", "A_very_long_name_of_a_structure_0123456789", "s", "d", "malloc", "free", "printf", "exit", "memcpy", "strcmp", "lf", "Foo", "x_", "Ñu"}

func printArg(p *pb) *lang.Expr {
	s := p.s
	switch s.W(10, 4, 3, 2, 2) {
	case 1: // strings
		t := s.Pick("", "a", "%d", "%s %s", "100%", "%%", "%n"[:1], "\n", "a b", " ", "\\n", "tab\t.", "é", strings.Repeat("long ", s.N(60)))
		e := lang.StrLit(t)
		switch s.N(5) {
		case 0:
			return lang.V(p.local(lang.Str, e))
		case 1:
			return lang.Bin("+", e, lang.StrLit(s.Pick("", "%", "x")))
		case 2:
			return lang.Call(lang.V(p.id(lang.Str)), e)
		case 3:
			return lang.V(p.global(lang.Str, e, s.Bool()))
		}
		return e
	case 2: // comparisons and conditions
		t := lang.Nums[s.N(len(lang.Nums))]
		return lang.Bin(cmpOps[s.N(6)], p.form(t, num(s, t)), p.form(t, num(s, t)))
	case 3: // struct values
		d := p.wrap["$print"]
		if d == nil || s.P(1, 3) {
			n := printStructNames[s.N(len(printStructNames))]
			if p.used[n] || n == "Ñu" {
				n = p.fresh("St")
			}
			p.used[n] = true
			d = lang.NewStruct(n, false, []lang.Field{{Name: "a", T: lang.I32}})
			p.wrap["$print"] = d
			p.structs = append(p.structs, lang.Item{Struct: d})
		}
		e := &lang.Expr{K: lang.EStruct, T: d.T, Names: []string{"a"}, Args: []*lang.Expr{lang.Lit(uint64(s.N(9)))}}
		if s.Bool() {
			return lang.V(p.local(d.T, e))
		}
		return e
	case 4: // computed
		t := lang.Nums[s.N(len(lang.Nums))]
		if t.IsFloat() {
			return lang.Bin(s.Pick("+", "-", "*"), p.form(t, num(s, t)), p.form(t, num(s, t)))
		}
		return lang.Bin(s.Pick("+", "-", "&", "^", "|"), p.form(t, num(s, t)), p.form(t, num(s, t)))
	}
	t := lang.Nums[s.N(len(lang.Nums))]
	if s.P(1, 6) {
		t = lang.I1
	}
	return p.form(t, num(s, t))
}

func init() {
	register(&Prop{ID: "C23", Title: "print", Rule: ruleOut, Assum: assumBase, Fams: []Fam{
		{Name: "print", Quick: 1800, Thorough: 60000, Gen: func(s *gen.Src) *Case {
			p := newPB(s)
			s.Rep(2, 8, func(int) {
				p.step(func() {
					n := s.W(2, 6, 6, 4, 3, 2, 1)
					if s.P(1, 12) {
						n = s.Range(8, 40)
					}
					if n == 0 {
						n = 1
					}
					var as []*lang.Expr
					for i := 0; i < n; i++ {
						as = append(as, printArg(p))
					}
					if s.P(2, 3) {
						as = append(as, lang.StrLit("\n"))
					}
					p.add(lang.PrintS(as...))
				})
			})
			if len(p.body) == 0 {
				return nil
			}
			c := runCase(s, p.prog(), 2)
			if c != nil {
				c.X["opt"] = optMix(s)
			}
			return c
		}},
	}})
}
