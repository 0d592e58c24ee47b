package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
	"candverif/run"
)

// C31: the tree that is drawn is the tree of the program.

func judgeDrawn(e *Env, c *Case) string {
	r := e.W.Do(run.Req{Op: "tree", Src: c.Src})
	if w := r.Why(); w != "" {
		return w
	}
	if r.Err != "" {
		return "a valid program isn't drawn: " + clip(r.Err, 300)
	}
	if got := lang.TrimLines(r.Text); got != c.Want {
		return "the tree differs: " + diffOut(c.Want, got)
	}
	return ""
}

// treeDecl is a declaration of the kinds that programs of the model don't have, and its tree.
func treeDecl(s *gen.Src, i int) (string, *lang.Node) {
	typ := func() *lang.Type {
		t := []*lang.Type{lang.I32, lang.U8, lang.F64, lang.I1, lang.Str}[s.N(5)]
		for s.P(1, 3) {
			switch s.N(3) {
			case 0:
				t = lang.PtrTo(t)
			case 1:
				t = lang.ArrOf(s.Range(1, 9), t)
			default:
				t = lang.FuncOf([]*lang.Type{t, lang.I64}[:s.N(3)], t)
			}
		}
		return t
	}
	text := func(t *lang.Type) string { return strings.Join(lang.TypeToks(t), " ") }
	n := fmt.Sprintf("%s%d", s.Pick("A", "name", "_z"), i)
	switch s.N(5) {
	case 0:
		t := typ()
		return fmt.Sprintf("type %s = %s;\n", n, text(t)), lang.TreeNode("ast.TypeDefinition", lang.TreeLeaf(n), lang.TreeLeaf(lang.TreeType(t)))
	case 1:
		var ts []string
		var kids []*lang.Node
		for k := s.N(3); k > 0; k-- {
			t := typ()
			ts = append(ts, ", "+text(t))
			kids = append(kids, lang.TreeLeaf(lang.TreeType(t)))
		}
		p := s.Pick("./a.cd", "std/x.cd", "../b")
		kids = append(kids, lang.TreeLeaf(`""`+p+`""`))
		return fmt.Sprintf("import %s%s, \"%s\"\n", n, strings.Join(ts, ""), p), lang.TreeNode("ast.ImportStatement", kids...)
	case 2:
		var ps, pt []string
		for k := s.N(4); k > 0; k-- {
			t := typ()
			ps = append(ps, text(t))
			pt = append(pt, lang.TreeType(t))
		}
		r := typ()
		return fmt.Sprintf("extern func %s(%s) %s;\n", n, strings.Join(ps, ", "), text(r)),
			lang.TreeNode("ast.ExternStatement", lang.TreeLeaf(fmt.Sprintf("func %s(%s) %s", n, strings.Join(pt, ", "), lang.TreeType(r))))
	case 3:
		kind := s.Pick("struct", "union")
		var kids []*lang.Node
		fs := ""
		for k := s.Range(1, 4); k > 0; k-- {
			t := typ()
			f := fmt.Sprintf("f%d", k)
			fs += " " + f + " " + text(t)
			kids = append(kids, lang.TreeNode("ast.Field", lang.TreeLeaf(f), lang.TreeLeaf(lang.TreeType(t))))
		}
		tag := map[string]string{"struct": "ast.StructStatement", "union": "ast.UnionStatement"}[kind]
		return fmt.Sprintf("%s %s {%s }\n", kind, n, fs), lang.TreeNode(tag, kids...)
	}
	t := typ()
	yes := s.Bool()
	cond := map[bool]string{true: s.Pick("1", "LINUX", "X64"), false: s.Pick("0", "WINDOWS", "ARM64")}[yes]
	var kids []*lang.Node
	if yes {
		kids = append(kids, lang.TreeNode("ast.TypeDefinition", lang.TreeLeaf(n), lang.TreeLeaf(lang.TreeType(t))))
	}
	return fmt.Sprintf("#if %s { type %s = %s; }\n", cond, n, text(t)), lang.TreeNode("ast.MacroBlock", kids...)
}

// longFunc is a function of constructs with many parts, that programs of the model rarely have.
func longFunc(s *gen.Src) *lang.Func {
	f := &lang.Func{Name: "long"}
	v := &lang.Decl{Name: "p", T: lang.I32, Owner: f}
	f.Params = []*lang.Decl{v}
	k := 0
	num := func() *lang.Expr {
		k++
		if s.P(1, 4) {
			return lang.Bin("+", lang.V(v), lang.Lit(uint64(k)))
		}
		return lang.Lit(uint64(k))
	}
	many := func(n int) (out []*lang.Expr) {
		for i := 0; i < n; i++ {
			out = append(out, num())
		}
		return
	}
	body := func() []*lang.Stmt {
		return []*lang.Stmt{{K: lang.SPrint, Args: many(s.N(3))}, {K: lang.SAssign, L: lang.V(v), E: num()}}[:s.N(3)]
	}
	for i := s.Range(1, 4); i > 0; i-- {
		n := s.Range(1, 14)
		if s.P(1, 12) {
			n = s.Range(15, 60)
		}
		st := &lang.Stmt{}
		switch s.N(8) {
		case 0:
			st = &lang.Stmt{K: lang.SIf, Cond: num(), Body: body(), HasEl: s.Bool(), Else: body()}
			for j := 0; j < n; j++ {
				st.Elifs = append(st.Elifs, lang.Elif{Cond: num(), Body: body()})
			}
		case 1:
			st = &lang.Stmt{K: lang.SSwitch, Cond: num(), HasEl: s.Bool(), Else: body()}
			for j := 0; j < n; j++ {
				st.Cases = append(st.Cases, lang.Case{E: num(), Body: body()})
			}
		case 2:
			st = &lang.Stmt{K: lang.SPrint, Args: many(n)}
		case 3:
			st = &lang.Stmt{K: lang.SAssign, L: lang.V(v), E: &lang.Expr{K: lang.EArr, T: lang.ArrOf(n, lang.I32), Args: many(n)}}
		case 4:
			st = &lang.Stmt{K: lang.SMulti}
			for j := 0; j <= n; j++ {
				st.Ds = append(st.Ds, &lang.Decl{Name: fmt.Sprintf("q%d", j), T: lang.I32, Owner: f})
			}
			st.E = &lang.Expr{K: lang.EList, Args: many(n + 1)}
		case 5: // blocks in blocks
			b := body()
			for j := 0; j < n; j++ {
				b = append(body(), &lang.Stmt{K: lang.SBlock, Body: b})
			}
			st = &lang.Stmt{K: lang.SBlock, Body: b}
		case 6: // expressions in expressions
			e := num()
			for j := 0; j < n; j++ {
				switch s.N(5) {
				case 0:
					e = lang.Un("-", e)
				case 1:
					e = lang.Bin(s.Pick("+", "-", "*", "|", "<<", "==", "&&"), num(), e)
				case 2:
					e = lang.Bin(s.Pick("/", "%", "^", "&", ">>", "<", "||"), e, num())
				case 3:
					e = lang.Cast(e, lang.I32)
				case 4:
					e = lang.Call(lang.V(&lang.Decl{Name: "fn", T: lang.FuncOf(nil, lang.I32)}), append(many(s.N(3)), e)...)
				}
			}
			st = &lang.Stmt{K: lang.SReturn, E: e}
		default:
			w := &lang.Decl{Name: "w", T: lang.I32, Owner: f}
			st = &lang.Stmt{K: lang.SFor, Init: lang.DefStmt(w, num(), s.Bool()), Cond: num(), Body: body(), Post: &lang.Stmt{K: lang.SAssign, L: lang.V(w), E: num()}}
			for j := 0; j < n/3; j++ {
				st = &lang.Stmt{K: lang.SFor, Cond: num(), Body: append(body(), st)}
			}
		}
		f.Body = append(f.Body, st)
	}
	return f
}

func genDrawn(mod func(s *gen.Src, o *lang.Opt)) func(s *gen.Src) *Case {
	return func(s *gen.Src) *Case {
		o := lang.DefaultOpt()
		mod(s, &o)
		p := lang.NewG(s, o).GenProg()
		var before []*lang.Node
		pre := ""
		s.Rep(0, 4, func(i int) {
			t, n := treeDecl(s, i)
			pre += t
			before = append(before, n)
		})
		if s.P(1, 3) {
			p.Items = append(p.Items, lang.Item{Fn: longFunc(s)})
		}
		tk, semi := lang.Tokens(p, s.P(1, 6))
		src := ""
		if s.P(1, 3) {
			src = lang.Layout(tk, semi, s.N)
		} else {
			src = lang.Render(tk)
		}
		want := lang.TreeProg(p, before...).Draw()
		if len(want) > 250000 {
			return nil // deep trees are wide
		}
		return &Case{Judge: "drawn", Src: pre + "\n" + src, Want: want, NonTr: len(src) > 60}
	}
}

func init() {
	judges["drawn"] = judgeDrawn
	register(&Prop{ID: "C31", Rule: "a program of at least 60 bytes whose whole drawing is compared with the one of the model; distinct by text", Fams: []Fam{
		{Name: "programs", Quick: 3000, Thorough: 40000, Gen: genDrawn(func(s *gen.Src, o *lang.Opt) {
			o.Stmts = 1 + s.N(14)
		})},
		{Name: "deep", Quick: 1200, Thorough: 15000, Gen: genDrawn(func(s *gen.Src, o *lang.Opt) {
			o.Stmts, o.Depth, o.Nest, o.Funcs = 4, 6, 6, 1
		})},
		{Name: "blocks", Quick: 1200, Thorough: 15000, Gen: genDrawn(func(s *gen.Src, o *lang.Opt) {
			o.WBlockE, o.WLambda, o.WSwitch, o.WFor, o.WIf, o.Nest, o.Depth = 8, 5, 6, 6, 6, 4, 2
		})},
	}})
}
