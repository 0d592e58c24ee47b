package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// anyTree is an untyped expression tree for grammar checks.
func anyTree(s *gen.Src, depth int) *lang.Expr {
	v := func() *lang.Expr {
		return lang.V(&lang.Decl{Name: s.Pick("a", "b", "cc", "d1", "e_e", "forx", "iff", "ast"), T: lang.I32})
	}
	sub := func() (e *lang.Expr) {
		s.Span(func() { e = anyTree(s, depth-1) })
		return
	}
	if depth <= 0 {
		switch s.W(6, 3, 1, 1, 1) {
		case 1:
			return &lang.Expr{K: lang.EInt, U: uint64(s.N(1000)), Form: s.N(4), T: lang.I32}
		case 2:
			return lang.FLit(floatEdges[s.N(10)])
		case 3:
			return lang.StrLit(s.Pick("", "x", "a b", "(", "+ 1"))
		case 4:
			return &lang.Expr{K: lang.EChar, U: uint64(s.Pick("a", "(", "+", "0")[0]), T: lang.I8}
		}
		return v()
	}
	types := []*lang.Type{lang.I32, lang.I64, lang.U8, lang.F64, lang.PtrTo(lang.I32), lang.ArrOf(3, lang.I8), lang.I1}
	switch s.W(12, 3, 3, 2, 2, 2, 1, 1) {
	case 1:
		return &lang.Expr{K: lang.EUn, Op: s.Pick("-", "!", "&", "*", "++", "--", "+"), A: sub()}
	case 2:
		return &lang.Expr{K: lang.ECast, A: sub(), T: types[s.N(len(types))]}
	case 3:
		e := &lang.Expr{K: lang.ECall, A: sub()}
		s.Rep(0, 3, func(int) { e.Args = append(e.Args, anyTree(s, depth-1)) })
		return e
	case 4:
		return &lang.Expr{K: lang.EIndex, A: sub(), B: sub()}
	case 5:
		return &lang.Expr{K: lang.EField, A: sub(), S: s.Pick("x", "val", "next")}
	case 6:
		return &lang.Expr{K: lang.EArr, T: lang.ArrOf(2, lang.I32), Args: []*lang.Expr{sub(), sub()}}
	case 7:
		return v()
	}
	ops := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}
	return &lang.Expr{K: lang.EBin, Op: ops[s.N(len(ops))], A: sub(), B: sub()}
}

// context puts an expression into a statement.
func context(s *gen.Src, e []string) []string {
	w := func(pre string, post string) []string {
		out := append(strings.Fields("func main ( ) { "+pre), e...)
		return append(out, strings.Fields(post+" }")...)
	}
	switch s.N(7) {
	case 1:
		return w("@ print ( 1 ,", ") ;")
	case 2:
		return w("return", ";")
	case 3:
		return w("if", "{ }")
	case 4:
		return w("for", "{ a = 1 ; }")
	case 5:
		return w("arr [", "] = 3 ;")
	case 6:
		return w("x : i64 =", ";")
	}
	return w("x =", ";")
}

func genTreePair(s *gen.Src) *Case {
	e := anyTree(s, s.Range(1, 5))
	a := lang.ExprToks(e, false)
	b := lang.ExprToks(e, true)
	rec := func(t []string, s *gen.Src) []string { return context(s, t) }
	// the same context for both
	n := s.N(7)
	pick := gen.Replay([]uint32{uint32(n)})
	x := rec(a, pick)
	pick = gen.Replay([]uint32{uint32(n)})
	y := rec(b, pick)
	return &Case{Judge: "sameprint", Src: lang.Render(x), X: map[string]string{"other": lang.Render(y)}, NonTr: len(a) > 3}
}

// genPrecRun evaluates one tree spelled with and without parentheses.
func genPrecRun(s *gen.Src) *Case {
	p := newPB(s)
	ts := []*lang.Type{lang.I32, lang.I32, lang.I64, lang.U8, lang.F64}
	vars := map[*lang.Type][]*lang.Decl{}
	for _, t := range []*lang.Type{lang.I32, lang.I64, lang.U8, lang.F64} {
		for i := 0; i < 2; i++ {
			vars[t] = append(vars[t], p.local(t, num(s, t)))
		}
	}
	// arr gives index expressions a place
	at := lang.ArrOf(4, lang.I32)
	arr := p.local(at, &lang.Expr{K: lang.EArr, T: at, Args: []*lang.Expr{lang.Lit(3), lang.Lit(11), lang.Lit(5), lang.Lit(7)}})
	var ex func(t *lang.Type, depth int) *lang.Expr
	ex = func(t *lang.Type, depth int) (e *lang.Expr) {
		s.Span(func() {
			if depth <= 0 {
				if s.P(1, 4) {
					e = num(s, t)
					return
				}
				if t.IsBool() {
					e = lang.Bin(cmpOps[s.N(6)], lang.V(vars[lang.I32][0]), lang.V(vars[lang.I32][1]))
					return
				}
				e = lang.V(vars[t][s.N(2)])
				return
			}
			switch {
			case t.IsBool():
				if s.P(1, 2) {
					e = lang.Bin(s.Pick("&&", "||"), ex(lang.I1, depth-1), ex(lang.I1, depth-1))
				} else if s.P(1, 5) {
					e = lang.Un("!", ex(lang.I1, depth-1))
				} else {
					k := ts[s.N(len(ts))]
					e = lang.Bin(cmpOps[s.N(6)], ex(k, depth-1), ex(k, depth-1))
				}
			case t.IsFloat():
				switch s.W(8, 1, 2) {
				case 1:
					e = lang.Un("-", ex(t, depth-1))
				case 2:
					e = lang.Cast(ex(ts[s.N(4)], depth-1), t)
				default:
					e = lang.Bin(s.Pick("+", "-", "*"), ex(t, depth-1), ex(t, depth-1))
				}
			default:
				switch s.W(12, 2, 2, 1) {
				case 1:
					e = lang.Un("-", ex(t, depth-1))
				case 2:
					k := append(ts, lang.I1)[s.N(len(ts)+1)]
					if k.IsFloat() {
						k = lang.U8
					}
					e = lang.CastIf(ex(k, depth-1), t)
				case 3:
					if t == lang.I32 {
						e = lang.Index(lang.V(arr), lang.Bin("&", ex(lang.I32, depth-1), lang.Lit(3)))
						return
					}
					fallthrough
				default:
					switch op := s.Pick("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"); op {
					case "<<", ">>":
						e = lang.Bin(op, ex(t, depth-1), lang.Bin("&", ex(lang.I32, depth-2), lang.Lit(7)))
					case "/", "%":
						if s.P(1, 2) {
							e = lang.Bin(op, ex(t, depth-1), lang.IntLit(t, uint64(s.Range(2, 9))))
							return
						}
						e = lang.Bin(op, ex(t, depth-1), ex(t, depth-1))
					default:
						e = lang.Bin(op, ex(t, depth-1), ex(t, depth-1))
					}
				}
			}
		})
		return
	}
	var min, full []*lang.Stmt
	base := p.body
	s.Rep(1, 10, func(int) {
		t := append(ts, lang.I1)[s.N(len(ts)+1)]
		e := ex(t, s.Range(2, 5))
		p.body = append(append([]*lang.Stmt(nil), base...), lang.PrintS(e))
		if !p.defined() {
			return
		}
		min = append(min, lang.PrintS(e), lang.NL())
		full = append(full, &lang.Stmt{K: lang.SPrint, Args: []*lang.Expr{e}}, lang.NL())
	})
	p.body = append(append([]*lang.Stmt(nil), base...), min...)
	if len(min) == 0 {
		return nil
	}
	pr := p.prog()
	c := runCase(s, pr, 1)
	if c != nil && s.P(1, 4) {
		tk, _ := lang.Tokens(pr, true)
		c.Src = lang.Render(tk)
	}
	return c
}

// genLayout prints a random program in a random layout.
func genLayout(s *gen.Src) *Case {
	o := lang.DefaultOpt()
	o.Stmts = 8
	g := lang.NewG(s, o)
	p := g.GenProg()
	c := runCase(s, p, 1)
	if c == nil {
		return nil
	}
	tk, semi := lang.Tokens(p, s.P(1, 8))
	c.Src = lang.Layout(tk, semi, s.N)
	return c
}

// genLayoutTree compares the trees of two layouts of the same tokens.
func genLayoutTree(s *gen.Src) *Case {
	o := lang.DefaultOpt()
	o.Stmts = 10
	if s.P(1, 2) {
		// Small programs often have no quotes, and then their numbers are compared
		o.Stmts, o.Funcs, o.NoDump = 3, 1, true
	}
	g := lang.NewG(s, o)
	p := g.GenProg()
	tk, semi := lang.Tokens(p, false)
	return &Case{Judge: "sameprint", Src: lang.Source(p), X: map[string]string{"other": lang.Layout(tk, semi, s.N), "numbers": "kept"}, NonTr: true}
}

// genLayoutNumbers lists numbers of any length.
func genLayoutNumbers(s *gen.Src) *Case {
	var a, b strings.Builder
	for i, n := 0, s.Range(1, 8); i < n; i++ {
		l := fmt.Sprint(s.U64() >> uint(1+s.N(63)))
		if s.P(2, 3) {
			l = fmt.Sprintf("%d.%d", s.U64()>>uint(20+s.N(43)), s.U64()>>uint(20+s.N(43)))
		}
		fmt.Fprintf(&a, "v%d := %s;\n", i, l)
		fmt.Fprintf(&b, "v%d\t:=\n %s", i, l+s.Pick(";", "\n;", " ; ", "\n"))
	}
	return &Case{Judge: "sameprint", Src: a.String(), X: map[string]string{"other": b.String(), "numbers": "kept"}, NonTr: true}
}

// ---- lexer

type ltok struct{ typ, lit, src string }

var fixedToks = []ltok{
	{"PLUS", "+", "+"}, {"MINUS", "-", "-"}, {"INC", "++", "++"}, {"DEC", "--", "--"}, {"STAR", "*", "*"}, {"SLASH", "/", "/"}, {"PERCENT", "%", "%"},
	{"LT", "<", "<"}, {"LE", "<=", "<="}, {"GT", ">", ">"}, {"GE", ">=", ">="}, {"EQ", "==", "=="}, {"NE", "!=", "!="}, {"ASSIGN", "=", "="}, {"BANG", "!", "!"},
	{"SHL", "<<", "<<"}, {"SHR", ">>", ">>"}, {"ANDAND", "&&", "&&"}, {"OROR", "||", "||"}, {"AMP", "&", "&"}, {"BAR", "|", "|"}, {"CARET", "^", "^"},
	{"LPAREN", "(", "("}, {"RPAREN", ")", ")"}, {"LBRACE", "{", "{"}, {"RBRACE", "}", "}"}, {"LBRACKET", "[", "["}, {"RBRACKET", "]", "]"},
	{"COMMA", ",", ","}, {"SEMI", ";", ";"}, {"COLON", ":", ":"}, {"DOT", ".", "."}, {"DOTDOT", "..", ".."}, {"AT", "@", "@"},
}

var keywords = []string{"func", "if", "else", "for", "return", "struct", "union", "import", "extern", "as", "type", "break", "continue", "pub", "const", "switch", "case", "default", "true", "false"}

func randIdent(s *gen.Src) string {
	const first = "abcdefghijklmnopqrstuvwxyzABCXYZ_"
	const rest = first + "0123456789"
	w := string(first[s.N(len(first))])
	n := s.N(7)
	if s.P(1, 30) {
		n = s.N(400)
	}
	for ; n > 0; n-- {
		w += string(rest[s.N(len(rest))])
	}
	switch s.N(8) {
	case 1:
		w = keywords[s.N(len(keywords))] + w
	case 2:
		w = w + keywords[s.N(len(keywords))]
	case 3:
		k := keywords[s.N(len(keywords))]
		w = strings.ToUpper(k[:1]) + k[1:]
	case 4:
		k := keywords[s.N(len(keywords))]
		w = k[:len(k)-1] + "_"
	}
	for _, k := range keywords {
		if w == k {
			return w + "_"
		}
	}
	return w
}

func randTok(s *gen.Src) ltok {
	switch s.W(10, 5, 3, 4, 2, 2, 3, 2) {
	case 1:
		w := randIdent(s)
		return ltok{"IDENT", w, w}
	case 2:
		w := keywords[s.N(len(keywords))]
		return ltok{"kw:" + w, w, w}
	case 3:
		w := fmt.Sprint(s.U64() >> uint(s.N(64)))
		if s.P(1, 6) {
			w = strings.Repeat("0", 2+s.N(1+s.W(3, 1)*60)) + w
		}
		return ltok{"INT", w, w}
	case 4:
		w := fmt.Sprintf("0x%X", s.U64()>>uint(s.N(64)))
		if s.Bool() {
			w = strings.ToLower(w)
		}
		return ltok{"HEX", w, w}
	case 5:
		w := fmt.Sprintf("0b%b", s.U64()>>uint(s.Range(32, 63)))
		if s.P(1, 5) {
			w = fmt.Sprintf("%d.%d", s.N(1000), s.N(1000))
			return ltok{"FLOAT", w, w}
		}
		return ltok{"BINARY", w, w}
	case 6:
		var lit, src strings.Builder
		src.WriteByte('"')
		n := s.N(8)
		if s.P(1, 30) {
			n = s.N(700)
		}
		for ; n > 0; n-- {
			switch s.W(20, 2, 2, 2, 2, 2, 1) {
			case 6: // a line break, bare or escaped, is a character
				lit.WriteByte('\n')
				src.WriteString(s.Pick("\n", "\\\n"))
			case 1:
				lit.WriteByte('\n')
				src.WriteString("\\n")
			case 2:
				lit.WriteByte('"')
				src.WriteString("\\\"")
			case 3:
				lit.WriteByte('\\')
				src.WriteString("\\\\")
			case 4:
				x := s.Pick("é", "日", "\t", "//", "ñ", "'")
				lit.WriteString(x)
				src.WriteString(x)
			case 5:
				// any other escaped character stands for itself
				x := s.Pick("a", "t", "0", "{")
				lit.WriteString(x)
				src.WriteString("\\" + x)
			default:
				c := byte(s.Range(32, 126))
				if c == '"' || c == '\\' {
					c = '.'
				}
				lit.WriteByte(c)
				src.WriteByte(c)
			}
		}
		src.WriteByte('"')
		return ltok{"STRING", lit.String(), src.String()}
	case 7:
		switch s.N(3) {
		case 0:
			c := byte(s.Range(32, 126))
			if c != '\'' && c != '\\' {
				return ltok{"CHAR", string(c), "'" + string(c) + "'"}
			}
			return ltok{"CHAR", string(c), "'\\" + string(c) + "'"}
		case 1:
			x := s.N(3)
			return ltok{"CHAR", string("\n\t\r"[x]), "'\\" + string("ntr"[x]) + "'"}
		}
		x := s.Pick("\"", "\n", "\x80", "\xff")
		return ltok{"CHAR", x, "'" + x + "'"}
	}
	return fixedToks[s.N(len(fixedToks))]
}

func wordish(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// mustSplit tells whether two spellings would lex differently when adjacent.
func mustSplit(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if x == '"' && a[0] == '"' || x == '\'' && a[0] == '\'' {
		return false
	}
	if wordish(x) && wordish(y) {
		return true
	}
	switch string([]byte{x, y}) {
	case "==", "!=", "<=", ">=", "<<", ">>", "&&", "||", "++", "--", "..", "//":
		// two-character tokens are already complete on the left
		return len(a) == 1
	}
	if x >= '0' && x <= '9' && y == '.' {
		return true // a digit may follow
	}
	return false
}

func genLex(s *gen.Src) *Case {
	var sb strings.Builder
	line := 1
	c := &Case{Judge: "lex", NonTr: true}
	prev := ""
	gap := func(n int) {
		if n > 0 && s.P(1, 60) {
			n = 1 + s.N(700)
		}
		for ; n > 0; n-- {
			switch s.N(8) {
			case 0, 1, 2:
				sb.WriteByte(' ')
			case 3:
				sb.WriteByte('\t')
			case 4, 5:
				sb.WriteByte('\n')
				line++
			case 6:
				sb.WriteString("\r\n")
				line++
			case 7:
				if prev == "/" {
					sb.WriteByte(' ')
				}
				sb.WriteString(s.Pick("//", "// x", "//\"", "// // 'q", "//é\t;") + "\n")
				line++
			}
		}
	}
	s.Rep(0, 30, func(int) {
		t := randTok(s)
		n := s.W(3, 3, 2, 1)
		if n == 0 && prev != "" {
			if mustSplit(prev, t.src) {
				n = 1
			}
		}
		gap(n)
		sb.WriteString(t.src)
		c.L = append(c.L, fmt.Sprintf("%s %q line %d", t.typ, t.lit, line))
		line += strings.Count(t.src, "\n")
		prev = t.src
	})
	gap(s.N(4))
	c.L = append(c.L, fmt.Sprintf("%s %q line %d", "EOF", "", line))
	c.Src = sb.String()
	return c
}

func init() {
	register(&Prop{ID: "C03", Title: "prec", Rule: "an expression of at least 4 tokens; distinct by program text", Assum: assumBase, Fams: []Fam{
		{Name: "trees", Quick: 40000, Thorough: 600000, Gen: genTreePair},
		{Name: "values", Quick: 2500, Thorough: 30000, Gen: genPrecRun},
	}})
	register(&Prop{ID: "C20", Title: "layout", Rule: ruleOut, Assum: assumBase, Fams: []Fam{
		{Name: "trees", Quick: 8000, Thorough: 100000, Gen: genLayoutTree},
		{Name: "numbers", Quick: 3000, Thorough: 60000, Gen: genLayoutNumbers},
		{Name: "behaviour", Quick: 1500, Thorough: 20000, Gen: genLayout},
	}})
	register(&Prop{ID: "C17", Title: "lexer", Rule: "any token sequence; distinct by text", Fams: []Fam{
		{Name: "tokens", Quick: 60000, Thorough: 1500000, Gen: genLex},
	}})
}
