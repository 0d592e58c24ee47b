package lang

import (
	"fmt"
	"strconv"
	"strings"
)

// Printer turns the model AST into a list of source tokens.
type Printer struct {
	Toks []string
	// Full makes every binary, prefix and cast operand parenthesised.
	Full bool
	// Semi marks the token indexes of semicolons that end a statement and that
	// may be left out when the next token cannot continue it.
	Semi map[int]bool
	// Alias may give another name for a type; Seen is told about every type.
	Alias func(t *Type) string
	Seen  func(t *Type)
	// Name may give another spelling of a named function or global.
	Name func(d *Decl) string
}

func (p *Printer) t(ts ...string) { p.Toks = append(p.Toks, ts...) }

func (p *Printer) end() {
	if p.Semi == nil {
		p.Semi = map[int]bool{}
	}
	p.Semi[len(p.Toks)] = true
	p.t(";")
}

const (
	pLogic = 3
	pCmp   = 4
	pAdd   = 5
	pBit   = 6
	pMul   = 7
	pAs    = 8
	pPre   = 9
	pCall  = 10
	pPost  = 12
	pPrim  = 20
)

func binPrec(op string) int {
	switch op {
	case "&&", "||":
		return pLogic
	case "==", "!=", "<", "<=", ">", ">=":
		return pCmp
	case "+", "-":
		return pAdd
	case "&", "|", "^", "<<", ">>":
		return pBit
	case "*", "/", "%":
		return pMul
	}
	panic("binPrec " + op)
}

func prec(e *Expr) int {
	if e.Paren {
		return pPrim
	}
	switch e.K {
	case EBin:
		return binPrec(e.Op)
	case EUn:
		return pPre
	case ECast:
		return pAs
	case EInt, EFloat, EChar:
		return pPrim
	case EBlock, EIfExpr:
		return 0
	case EList:
		return 2
	case EFunc:
		return pPre
	}
	return pPrim
}

func (p *Printer) sub(e *Expr, min int) {
	if prec(e) < min || (p.Full && (e.K == EBin || e.K == EUn || e.K == ECast) && !e.Paren) {
		p.t("(")
		p.raw(e)
		p.t(")")
		return
	}
	p.Expr(e)
}

// Expr prints e at the lowest precedence.
func (p *Printer) Expr(e *Expr) {
	if e.Paren {
		p.t("(")
		p.raw(e)
		p.t(")")
		return
	}
	p.raw(e)
}

// postfix prints the base of a call, index or field access.
func (p *Printer) postfix(e *Expr) {
	switch e.K {
	case EVar, ECall, EIndex, EField, EStruct, ESizeof, EAlloc, EStr:
		if !e.Paren {
			p.raw(e)
			return
		}
	}
	p.t("(")
	p.raw(e)
	p.t(")")
}

func (p *Printer) Type(t *Type) { p.typ(t, true) }

// typ prints a type; alias tells whether t itself may be spelled by another name.
func (p *Printer) typ(t *Type, alias bool) {
	if p.Seen != nil {
		p.Seen(t)
	}
	if alias && p.Alias != nil {
		if n := p.Alias(t); n != "" {
			p.t(n)
			return
		}
	}
	list := func(ts []*Type) {
		p.t("(")
		for i, x := range ts {
			if i > 0 {
				p.t(",")
			}
			p.Type(x)
		}
		p.t(")")
	}
	switch t.K {
	case KPtr:
		p.t("*")
		p.Type(t.Elem)
	case KArr:
		p.t("[", strconv.Itoa(t.N), "]")
		p.Type(t.Elem)
	case KFunc:
		p.t("func")
		list(t.Ps)
		switch len(t.R) {
		case 0:
			p.t("void")
		case 1:
			p.Type(t.R[0])
		default:
			list(t.R)
		}
	case KStruct, KUnion:
		if t.S.Mod != "" {
			p.t(t.S.Mod, ".")
		}
		p.t(t.S.Name)
	default:
		p.t(t.String())
	}
}

// QuoteStr spells a string literal.
func QuoteStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			sb.WriteString("\\n")
		case '"':
			sb.WriteString("\\\"")
		case '\\':
			sb.WriteString("\\\\")
		default:
			sb.WriteByte(s[i])
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func QuoteChar(c byte) string {
	switch c {
	case '\n':
		return `'\n'`
	case '\t':
		return `'\t'`
	case '\r':
		return `'\r'`
	case '\'':
		return `'\''`
	case '\\':
		return `'\\'`
	}
	return "'" + string([]byte{c}) + "'"
}

func FloatText(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func intText(u uint64, form int) string {
	switch form {
	case 1:
		return fmt.Sprintf("0x%x", u)
	case 2:
		return fmt.Sprintf("0b%b", u)
	case 3:
		return fmt.Sprintf("0x%X", u)
	}
	return strconv.FormatUint(u, 10)
}

func (p *Printer) name(d *Decl) {
	if p.Name != nil {
		if n := p.Name(d); n != "" {
			p.t(n)
			return
		}
	}
	if d.Mod != "" {
		p.t(d.Mod, ".", d.Name)
		return
	}
	p.t(d.Name)
}

func (p *Printer) args(as []*Expr) {
	for i, a := range as {
		if i > 0 {
			p.t(",")
		}
		p.Expr(a)
	}
}

func (p *Printer) raw(e *Expr) {
	switch e.K {
	case EInt:
		p.t(intText(e.U, e.Form))
	case EChar:
		p.t(QuoteChar(byte(e.U)))
	case EFloat:
		p.t(FloatText(e.F))
	case EStr:
		p.t(QuoteStr(e.S))
	case EVar:
		p.name(e.D)
	case EUn:
		p.t(e.Op)
		p.sub(e.A, pPre)
	case EBin:
		pr := binPrec(e.Op)
		p.sub(e.A, pr)
		p.t(e.Op)
		p.sub(e.B, pr+1)
	case ECast:
		p.sub(e.A, pAs)
		p.t("as")
		p.Type(e.T)
	case ECall:
		if e.Method {
			p.postfix(e.Args[0])
			p.t(".", e.A.D.Name, "(")
			p.args(e.Args[1:])
			p.t(")")
			return
		}
		p.postfix(e.A)
		p.t("(")
		p.args(e.Args)
		p.t(")")
	case EIndex:
		p.postfix(e.A)
		p.t("[")
		p.Expr(e.B)
		p.t("]")
	case EField:
		p.postfix(e.A)
		p.t(".", e.S)
	case EStruct:
		p.t("@")
		p.Type(e.T)
		p.t("{")
		for i, a := range e.Args {
			if i > 0 {
				p.t(",")
			}
			p.t(e.Names[i], ":")
			p.Expr(a)
		}
		p.t("}")
	case EArr:
		p.typ(e.T, false)
		p.t("{")
		p.args(e.Args)
		p.t("}")
	case EFunc:
		p.t("func")
		p.sig(e.Fn)
		p.block(e.Fn.Body)
	case EBlock:
		p.t(":")
		p.Type(e.T)
		p.block(e.Body)
	case EIfExpr:
		p.t(":")
		p.Type(e.T)
		p.Stmt(e.Body[0])
	case ESizeof:
		p.t("@", "sizeof", "(")
		p.Type(e.Ty)
		p.t(")")
	case EAlloc:
		p.t("@", "alloc", "(")
		p.Type(e.Ty)
		p.t(",")
		p.Expr(e.A)
		p.t(")")
	case ERealloc:
		p.t("@", "realloc", "(")
		p.Expr(e.A)
		p.t(",")
		p.Expr(e.B)
		p.t(")")
	case EList:
		p.args(e.Args)
	default:
		panic("print expr")
	}
}

func (p *Printer) sig(f *Func) {
	p.t("(")
	for i, d := range f.Params {
		if i > 0 {
			p.t(",")
		}
		p.t(d.Name)
		p.Type(d.T)
	}
	p.t(")")
	for i, r := range f.R {
		if i > 0 {
			p.t(",")
		}
		p.Type(r)
	}
}

func (p *Printer) block(b []*Stmt) {
	p.t("{")
	for _, s := range b {
		p.Stmt(s)
	}
	p.t("}")
}

func (p *Printer) body(b []*Stmt, bare bool) {
	if bare && len(b) == 1 {
		switch b[0].K {
		case SPrint, SReturn, SBreak, SContinue:
			p.Stmt(b[0])
			return
		}
	}
	p.block(b)
}

func (p *Printer) simple(s *Stmt) {
	switch s.K {
	case SDecl:
		if s.D.Const {
			p.t("const")
		}
		p.t(s.D.Name, ":")
		if s.Typed {
			p.Type(s.D.T)
		}
		p.t("=")
		p.Expr(s.E)
	case SMulti:
		for i, d := range s.Ds {
			if i > 0 {
				p.t(",")
			}
			p.t(d.Name)
		}
		p.t(":")
		if s.Typed {
			p.Type(s.Ds[0].T)
		}
		p.t("=")
		p.Expr(s.E)
	case SAssign:
		p.Expr(s.L)
		p.t("=")
		p.Expr(s.E)
	case SExpr:
		p.Expr(s.E)
	default:
		panic("simple")
	}
}

func (p *Printer) Stmt(s *Stmt) {
	switch s.K {
	case SDecl, SMulti, SAssign, SExpr:
		p.simple(s)
		p.end()
	case SIf:
		p.t("if")
		p.Expr(s.Cond)
		p.body(s.Body, s.Bare)
		for _, e := range s.Elifs {
			p.t("else", "if")
			p.Expr(e.Cond)
			p.body(e.Body, s.Bare)
		}
		if s.HasEl {
			p.t("else")
			p.body(s.Else, s.Bare)
		}
	case SFor:
		p.t("for")
		if s.Init != nil {
			p.simple(s.Init)
			p.t(";")
			p.Expr(s.Cond)
			p.t(";")
			if s.Post != nil {
				p.simple(s.Post)
			}
		} else if s.Cond != nil {
			p.Expr(s.Cond)
		}
		p.block(s.Body)
	case SSwitch:
		p.t("switch")
		p.Expr(s.Cond)
		p.t("{")
		for _, c := range s.Cases {
			p.t("case")
			p.Expr(c.E)
			p.body(c.Body, s.Bare)
		}
		if s.HasEl {
			p.t("default")
			p.body(s.Else, s.Bare)
		}
		p.t("}")
	case SBlock:
		p.block(s.Body)
	case SReturn:
		p.t("return")
		if s.E != nil {
			p.Expr(s.E)
			p.end()
		} else {
			p.t(";")
		}
	case SBreak:
		p.t("break")
		p.end()
	case SContinue:
		p.t("continue")
		p.end()
	case SPrint:
		p.t("@", "print", "(")
		p.args(s.Args)
		p.t(")")
		p.end()
	case SFree:
		p.t("@", "free", "(")
		p.Expr(s.E)
		p.t(")")
		p.end()
	case SUnreachable:
		p.t("@", "unreachable", "(", ")")
		p.end()
	case SMacro:
		p.t("#if", s.Raw[0])
		p.block(s.Body)
	case SRaw:
		p.t(s.Raw...)
	}
}

func (p *Printer) Item(it Item) {
	if it.If != "" {
		p.t("#if", it.If, "{")
		defer p.t("}")
	}
	switch {
	case it.Struct != nil:
		k := "struct"
		if it.Struct.Union {
			k = "union"
		}
		p.t(k, it.Struct.Name, "{")
		for _, f := range it.Struct.Fields {
			p.t(f.Name)
			p.Type(f.T)
		}
		p.t("}")
	case it.Fn != nil:
		if it.Fn.Pub {
			p.t("pub")
		}
		p.t("func", it.Fn.Name)
		p.sig(it.Fn)
		p.block(it.Fn.Body)
	case it.Global != nil:
		p.Stmt(it.Global)
	case it.Alias != "":
		p.t("type", it.Alias, "=")
		p.Type(it.Ty)
		p.t(";")
	default:
		p.t(it.Raw...)
	}
}

func (p *Printer) Prog(g *Prog) {
	for _, it := range g.Items {
		p.Item(it)
	}
}

func isWord(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// needSpace tells whether two adjacent tokens must be separated.
func needSpace(a, b string) bool {
	x, y := a[len(a)-1], b[0]
	if isWord(x) && isWord(y) {
		return true
	}
	// number followed by '.' and digits, and every pair that would lex as one token
	switch string([]byte{x, y}) {
	case "==", "!=", "<=", ">=", "<<", ">>", "&&", "||", "++", "--", "..", "//":
		return true
	}
	if x == '.' && y >= '0' && y <= '9' {
		return true
	}
	return false
}

// Render joins tokens in the default layout.
func Render(toks []string) string {
	var sb strings.Builder
	ind := 0
	nl := true
	paren := 0
	for i, t := range toks {
		if t == "}" {
			ind--
			if !nl {
				sb.WriteByte('\n')
			}
			nl = true
		}
		if nl {
			for j := 0; j < ind; j++ {
				sb.WriteString("  ")
			}
		} else if i > 0 {
			a := toks[i-1]
			glue := false
			switch t {
			case ")", "]", ",", ";", ".", "(":
				glue = true
			}
			switch a {
			case "(", "[", "@", ".":
				glue = true
			}
			if t == "(" && !isWord(a[len(a)-1]) {
				glue = false
			}
			switch a {
			case "if", "for", "return", "case", "switch", "as", "else":
				glue = false
			}
			if !glue || needSpace(a, t) {
				sb.WriteByte(' ')
			}
		}
		nl = false
		sb.WriteString(t)
		switch t {
		case "(":
			paren++
		case ")":
			paren--
		case "{":
			ind++
			sb.WriteByte('\n')
			nl = true
		case "}":
			nx := ""
			if i+1 < len(toks) {
				nx = toks[i+1]
			}
			if nx != ";" && nx != ")" && nx != "," && nx != "." && nx != "[" && nx != "(" && nx != "else" {
				sb.WriteByte('\n')
				nl = true
			}
		case ";":
			sb.WriteByte('\n')
			nl = true
		}
	}
	if !nl {
		sb.WriteByte('\n')
	}
	return sb.String()
}

// Source prints a whole program in the default layout.
func Source(g *Prog) string {
	p := &Printer{}
	p.Prog(g)
	return Render(p.Toks)
}

// ExprToks prints an expression alone.
func ExprToks(e *Expr, full bool) []string {
	p := &Printer{Full: full}
	p.Expr(e)
	return p.Toks
}

// TypeToks spells a type.
func TypeToks(t *Type) []string {
	p := &Printer{}
	p.Type(t)
	return p.Toks
}

// Layout joins tokens with arbitrary white space and comments; choose(n) picks.
// Tokens whose index is in semi may be dropped or repeated.
func Layout(toks []string, semi map[int]bool, choose func(n int) int) string {
	var sb strings.Builder
	prev := ""
	gap := func(must bool) {
		n := choose(4)
		if n == 0 && must {
			n = 1
		}
		for ; n > 0; n-- {
			switch choose(9) {
			case 0, 1, 2:
				sb.WriteByte(' ')
			case 3, 4:
				sb.WriteByte('\t')
			case 5, 6:
				sb.WriteByte('\n')
			case 7:
				sb.WriteString("\r\n")
			case 8:
				if prev == "/" {
					sb.WriteByte(' ')
				}
				sb.WriteString([]string{"//\n", "// note\n", "//x:=\"1; } {\n", "////@print(1);\n", "// 'a é ' /* \n", "//\n//\n", "//func f( {\r\n"}[choose(7)])
			}
		}
	}
	for i, t := range toks {
		if semi[i] {
			next := "}"
			if i+1 < len(toks) {
				next = toks[i+1]
			}
			c := next[0]
			switch k := choose(3); {
			case k == 1 && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '@' || c == '}' || c == '#'):
				continue
			case k == 2:
				gap(false)
				sb.WriteString(";")
			}
		}
		gap(prev != "" && needSpace(prev, t))
		sb.WriteString(t)
		prev = t
	}
	if choose(2) == 1 {
		sb.WriteString("\n")
	}
	if choose(4) == 1 {
		sb.WriteString("// the end")
	}
	return sb.String()
}

// Tokens lists the tokens of a program and its optional semicolons.
func Tokens(g *Prog, full bool) ([]string, map[int]bool) {
	p := &Printer{Full: full}
	p.Prog(g)
	return p.Toks, p.Semi
}

// WithAliases gives names to some of the types of g, in dependency order, and
// prints the program with uses of them. choose(n) picks.
func WithAliases(g *Prog, choose func(n int) int) (src string, names int) {
	var depth func(t *Type) int
	depth = func(t *Type) int {
		d := 0
		up := func(x *Type) {
			if k := depth(x) + 1; k > d {
				d = k
			}
		}
		switch t.K {
		case KPtr, KArr:
			up(t.Elem)
		case KFunc:
			for _, x := range t.Ps {
				up(x)
			}
			for _, x := range t.R {
				up(x)
			}
		}
		return d
	}
	var types []*Type
	seen := map[string]bool{}
	var see func(t *Type)
	see = func(t *Type) {
		if t.K == KVoid || seen[t.String()] {
			return
		}
		seen[t.String()] = true
		types = append(types, t)
	}
	(&Printer{Seen: see}).Prog(g)
	alias := map[string][]string{}
	p := &Printer{}
	p.Alias = func(t *Type) string {
		ns := alias[t.String()]
		if len(ns) == 0 || choose(4) == 0 {
			return ""
		}
		return ns[choose(len(ns))]
	}
	for d := 0; d < 12; d++ {
		for _, t := range types {
			if depth(t) != d {
				continue
			}
			for k := choose(4); k > 1; k-- {
				n := "Al" + strconv.Itoa(names)
				names++
				p.Item(Item{Alias: n, Ty: t})
				alias[t.String()] = append(alias[t.String()], n)
			}
		}
	}
	p.Prog(g)
	return Render(p.Toks), names
}
