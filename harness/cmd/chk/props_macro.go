package main

import (
	"candverif/gen"
	"candverif/lang"
)

// C22: conditional compilation. True regions are transparent, false ones are
// as if they were not there, whatever they contain.

var macroTrue = []string{"LINUX", "X64", "1", "7", "0x10", "256", "65536", "4294967296", "9223372036854775807", "0x4000000000000000"}
var macroFalse = []string{"WINDOWS", "MACOS", "ARM64", "ARM", "0", "ARMBE", "ARM64BE"}

var junkStmts = []string{
	"zundefined = 3;", "zq : i32 = \"text\";", "return 1.5;", "break;", "@print(znope(3));", "zz := 1; zz = \"a\";", "x : Znope = 4;",
	"if \"a\" == 3 { zf(); }", "for zi := 0; zi < zn; zi = zi + 1 { @print(zi); }", "@print(\"}\");", "zs := @Znope{a: 1};", "// comment }\n", "@print(1);",
}

var junkItems = []string{
	"func zjunk() i32 { return \"a\"; }", "struct ZJ { a Znope b i32 }", "zglobal : i32 = \"x\";", "func main() void { @print(\"wrong\"); }", "func zother(a Znope) i64 { }",
	"type ZA = Znope;", "import zm, \"missing.cd\";", "extern func zext(i32) i32;", "const ZK := zundefined;", "union ZUU { a i32 b ZNope }", "",
}

func junk(s *gen.Src, xs []string) string {
	r := ""
	n := s.N(3)
	for i := 0; i < n; i++ {
		r += xs[s.N(len(xs))] + " "
	}
	if s.P(1, 4) {
		r += "#if " + s.Pick("LINUX", "WINDOWS", "1", "0") + " { " + xs[s.N(len(xs))] + " }"
	}
	return r
}

func falseMacro(s *gen.Src) *lang.Stmt {
	return &lang.Stmt{K: lang.SMacro, Raw: []string{macroFalse[s.N(len(macroFalse))]}, Body: []*lang.Stmt{{K: lang.SRaw, Raw: []string{junk(s, junkStmts)}}}}
}

func genMacro(s *gen.Src) *Case {
	o := lang.DefaultOpt()
	o.Stmts, o.FnStmts, o.Depth = 10, 5, 2
	p := lang.NewG(s, o).GenProg()
	k := 0
	for _, l := range bodies(p) {
		n := s.W(2, 4, 2)
		for i := 0; i < n; i++ {
			b := *l
			if s.P(1, 2) && len(b) > 0 {
				i := s.N(len(b))
				j := i + 1 + s.N(len(b)-i)
				m := &lang.Stmt{K: lang.SMacro, Raw: []string{macroTrue[s.N(len(macroTrue))]}, HasEl: true, Body: append([]*lang.Stmt(nil), b[i:j]...)}
				nb := append([]*lang.Stmt(nil), b[:i]...)
				nb = append(nb, m)
				*l = append(nb, b[j:]...)
			} else {
				i := s.N(len(b) + 1)
				nb := append([]*lang.Stmt(nil), b[:i]...)
				nb = append(nb, falseMacro(s))
				*l = append(nb, b[i:]...)
			}
			k++
		}
	}
	var items []lang.Item
	for _, it := range p.Items {
		if s.P(1, 4) {
			items = append(items, lang.Item{Raw: []string{"#if", macroFalse[s.N(len(macroFalse))], "{", junk(s, junkItems), "}"}})
			k++
		}
		if it.If == "" && s.P(1, 2) {
			it.If = macroTrue[s.N(len(macroTrue))]
			k++
		}
		items = append(items, it)
	}
	p.Items = items
	s.LabelN("macro blocks", k)
	c := runCase(s, p, 4)
	if c != nil {
		c.NonTr = c.NonTr && k > 2
	}
	return c
}

func init() {
	register(&Prop{ID: "C22", Rule: "at least three conditional regions in a program with at least 4 bytes of predicted output; distinct by text", Fams: []Fam{
		{Name: "regions", Quick: 1500, Thorough: 30000, Gen: genMacro},
	}})
}
