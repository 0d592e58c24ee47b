package main

import (
	"fmt"
	"strings"

	"candverif/gen"
	"candverif/lang"
	"candverif/run"
)

// C29: a text with one mistake that no reading of the grammar allows. The
// mistakes are chosen on the tokens of a valid program.

type mtok struct {
	a, b int  // bytes of the text
	k    byte // i name, k keyword, n number, s string or character, o operator, b bracket, or the punctuation itself
	t    string
}

var mKeywords = map[string]bool{"if": true, "else": true, "for": true, "return": true, "func": true, "struct": true, "union": true, "import": true, "extern": true, "break": true, "continue": true, "switch": true, "case": true, "default": true, "const": true, "type": true, "pub": true, "as": true, "true": true, "false": true}

func mTokens(src string) (out []mtok) {
	for i := 0; i < len(src); {
		c := src[i]
		j := i + 1
		k := byte('o')
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
			continue
		case c == '"' || c == '\'':
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			j++
			k = 's'
		case c >= '0' && c <= '9':
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'F' || src[j] == '.' && j+1 < len(src) && src[j+1] >= '0' && src[j+1] <= '9') {
				j++
			}
			k = 'n'
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			for j < len(src) && (src[j] == '_' || src[j] >= '0' && src[j] <= '9' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z') {
				j++
			}
			k = 'i'
			if mKeywords[src[i:j]] {
				k = 'k'
			}
		case strings.IndexByte("()[]{}", c) >= 0:
			k = 'b'
		case strings.IndexByte(",;:@#", c) >= 0:
			k = c
		default:
			for _, op := range []string{"==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "--", ".."} {
				if strings.HasPrefix(src[i:], op) {
					j = i + 2
				}
			}
		}
		out = append(out, mtok{i, j, k, src[i:j]})
		i = j
	}
	return
}

// malPrelude has what the programs of the generator do not have.
const malPrelude = `import zm, "zm.cd";
import zgi, i32, "zg.cd";
extern func zputs(*i8) i32;
extern func zprintf(*i8, ..) i32;
type ZT = func(i32, *i8) [2]i64;
struct ZS { zf i32 zg *i8 zh [3]func(i32) i32 }
union ZU { zi i32 zh f32 }
const ZC : i32 = 3;
ZG := 5;
pub func zpub(za i32, zb *ZS) i32, *i8 { return za + (*zb).zf, "a"; }
func zsw(za i32) i32 {
	#if LINUX { ZG = 4; }
	zk := @zm.ZMS{a: (za + 2) * 3};
	zl, zo : = zm.zmf(za), [2]i32{za, 4};
	switch za { case 1 { return 1; } case (2 + 3) { return zk.a; } default { za = zo[1]; } }
	for zi := 0; zi < 3; zi = zi + 1 { if zi == 2 { break; } else if !(zi == 1) { continue; } else { ++zl; } }
	zp := @alloc(i32, za as i64);
	zp = @realloc(zp, @sizeof(ZS));
	zq := func(zx i32, zy *i8) i32 { return -zx; };
	zr := :i32 { zs := "a]"; return zq(zo[0], zs); };
	@free(zp);
	return zgi.zgf(zr) + zk.zmm(2);
}
import zu, "zm.cd";
struct ZN {}
func zsx(za (*zu.ZMS), zb func(*i8, func() i32) *i32, zc func()) (i32, *func(i32)) {
	const zd, ze : = 1, 2.5;
	zi : i32 = +0x1F | 0b101 ^ 7 & 'a' as i32 << 2;
	if zi >= 3 || !(zi != 2) zi = zi % 2; else if zi <= 1 { zc(); } else --zi;
	for { break; }
	for zi > 3 && zi < 9 { zi = zi - 1; }
	for zi = 3; zi > 0; { --zi; }
	zo : [2][3]i32 = [2][3]i32{[3]i32{}, [3]i32{1, 2, 3}};
	zo[zi / 2][1], (*za).a, za.a = -zo[0][1], zd, zb("zz", func() i32 return 3;)[0];
	zp : *zu.ZMS = &@zu.ZMS{a: 2,};
	*(&zi) = (*zp).zmm(*(&zi)) - (zi * 2)
	{ zt : *func() *ZN = @cast(*func() *ZN, za) ; }
	if zi == 77 { @unreachable(); }
	switch zi { default { @print(); } }
	@asm(void, "nop", zi);
	return zi, 0 as i64 as *func(i32);
}
`

// synPrelude is only parsed.
const synPrelude = malPrelude + `
ZA : [3]i32 = [3]i32{1, (2), 3};
ZB : ZS = @ZS{zf: 1, zg: "a"};
ZD : *ZS = @zm.ZMS{};
ZE := :i32 { return 1; };
ZF := func(za i32) i32 { return za; } ;
ZH := zq(1, [1]i8{2}[0], :i8 { return 'a'; });
za, zb : i32 = 1, 2;
const za, zb : i32 = 1, 2;
za, zb, zc : [2]*zm.ZMS = zf(1), 2, @zm.ZMS{a: 1, b: (2 + 3), c: "a"};
zd : [16]func(i32, [2][3]i8) *func() void = zn;
const ze : = -2.25 as f64;
za[1].zb.zc(2)(3)[4].zd = *(&za) + *zb.zc & za ^ 2 | 1 << 3 >> 4;
return zf(1, 2), "a", 'b' as i8;
return;
struct ZQ { zf zm.ZMS zg (*func() i32) }
type ZL = zm.ZMS
if 1 { ZJ : i32 = 1; } else if 2 { } else { ZK : i32 = 2; }
switch 1 { case 1 { } }
`

// mBreak makes one mistake; why is empty when the chosen one is not possible.
func mBreak(s *gen.Src, src string) (out, why string) {
	toks := mTokens(src)
	cut := func(i int, by string) string { return src[:toks[i].a] + by + src[toks[i].b:] }
	pick := func(f func(i int) bool) int {
		var l []int
		for i := range toks {
			if f(i) {
				l = append(l, i)
			}
		}
		if len(l) == 0 {
			return -1
		}
		return l[s.N(len(l))]
	}
	at := func(i int) mtok {
		if i < 0 || i >= len(toks) {
			return mtok{k: 'E'}
		}
		return toks[i]
	}
	operand := func(k byte) bool { return k == 'i' || k == 'n' || k == 's' }
	switch s.N(9) {
	case 0: // a bracket is missing, or there twice
		i := pick(func(i int) bool { return toks[i].k == 'b' })
		if s.Bool() {
			return cut(i, " "), "a missing " + toks[i].t
		}
		return cut(i, toks[i].t+toks[i].t), "a repeated " + toks[i].t
	case 1: // another bracket
		i := pick(func(i int) bool { return toks[i].k == 'b' })
		by := s.Pick("(", ")", "[", "]", "{", "}")
		if by == toks[i].t {
			return "", ""
		}
		return cut(i, by), toks[i].t + " replaced by " + by
	case 2: // a bracket from nowhere
		i := s.N(len(toks))
		by := s.Pick("(", ")", "[", "]", "{", "}")
		return src[:toks[i].a] + by + " " + src[toks[i].a:], "a spare " + by
	case 3: // no comma inside of parentheses
		var stack []string
		inside := map[int]bool{}
		for i, t := range toks {
			switch {
			case t.k == 'b' && strings.Contains("([{", t.t):
				stack = append(stack, t.t)
			case t.k == 'b' && len(stack) > 0:
				stack = stack[:len(stack)-1]
			case t.k == ',' && len(stack) > 0 && stack[len(stack)-1] == "(":
				inside[i] = true
			}
		}
		i := pick(func(i int) bool {
			return (inside[i] || toks[i].k == ',' && at(i+1).k == 'i' && at(i+2).k == ':') && operand(at(i-1).k) && operand(at(i+1).k)
		})
		if i < 0 {
			return "", ""
		}
		return cut(i, " "), "no comma between the values of a list"
	case 4: // an operator without its right operand
		i := pick(func(i int) bool {
			p, n := at(i-1), at(i+1)
			return operand(toks[i].k) && p.k == 'o' && (n.k == ';' || n.k == ',' || n.t == ")" || n.t == "]" || n.t == "}")
		})
		if i < 0 {
			return "", ""
		}
		return cut(i, ""), "no operand after " + at(i-1).t
	case 5: // a character of no token
		i := s.N(len(toks))
		by := s.Pick("?", "$", "~", "`", "\\", "\x01", "\xff", "#x")
		return src[:toks[i].a] + by + " " + src[toks[i].a:], "a " + by
	case 6: // the last string does not end
		for i := len(toks) - 1; i >= 0; i-- {
			if toks[i].k == 's' && toks[i].t[0] == '"' {
				if i+1 < len(toks) {
					return src[:toks[i].b-1] + src[toks[i].b:], "a string without end"
				}
				break
			}
		}
		return "", ""
	case 7: // a keyword for a name that is declared
		i := pick(func(i int) bool {
			n := at(i + 1)
			return toks[i].k == 'i' && n.k == ':' && at(i-1).k == ';'
		})
		if i < 0 {
			return "", ""
		}
		by := s.Pick("if", "for", "return", "func", "struct", "union", "import", "extern", "break", "continue", "switch", "case", "default", "else", "type", "pub", "as")
		return cut(i, by), "the keyword " + by + " declared as a name"
	case 8: // a keyword or a name that has to be there
		i := pick(func(i int) bool {
			p, n := at(i-1), at(i+1)
			switch {
			case toks[i].k == 'i' && (p.t == "func" && n.t == "(" || p.t == "struct" || p.t == "union" || p.t == "@" && at(i-2).t != "@"):
				return at(i-1).t != "func" || at(i-2).t != "="
			case toks[i].k == 'i' && p.t == "as", toks[i].t == "case" && n.k != 'b', toks[i].k == ':' && p.k == 'i' && at(i-2).t == "{" && at(i-4).t == "@":
				return true
			}
			return false
		})
		if i < 0 || toks[i].k == 'i' && at(i-1).t == "func" && (at(i-2).t != "}" && at(i-2).t != "pub") {
			return "", ""
		}
		return cut(i, " "), fmt.Sprintf("%s is missing after %s", toks[i].t, at(i-1).t)
	}
	return "", ""
}

func genMalformed(s *gen.Src) *Case {
	o := lang.DefaultOpt()
	o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(9), s.N(4), 3, 1, 1, true
	p := lang.NewG(s, o).GenProg()
	src := lang.Source(p)
	if s.P(2, 3) {
		src = malPrelude + src
	}
	out, why := mBreak(s, src)
	if why == "" {
		return nil
	}
	if why != "a string without end" {
		// The rest may read as something else
		if w, _ := syntax(gTokens(out)); w == "" {
			return nil
		}
	}
	s.Label("mistake: " + strings.Fields(why)[0] + " " + strings.Fields(why)[1])
	return &Case{Judge: "syntax", Want: "no", Src: out, NonTr: true, X: map[string]string{"why": why}}
}

func init() {
	judges["syntax"] = judgeSyntax
	register(&Prop{ID: "C29", Title: "malformed", Rule: "a program with exactly one mistake of the listed kinds, or a few changed tokens; distinct by text", Fams: []Fam{
		{Name: "mistake", Quick: 20000, Thorough: 400000, Gen: genMalformed},
		{Name: "edited", Quick: 40000, Thorough: 1000000, Gen: genEdited},
		{Name: "none", Quick: 500, Thorough: 10000, Gen: func(s *gen.Src) *Case {
			o := lang.DefaultOpt()
			o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(9), s.N(4), 3, 1, 1, true
			return &Case{Judge: "accept", Src: malPrelude + lang.Source(lang.NewG(s, o).GenProg()), Files: ruleFiles, NonTr: true}
		}},
	}})
}

// mEdit changes one or two tokens of a program at random.
func mEdit(s *gen.Src, t []gtok) []gtok {
	t = append([]gtok(nil), t...)
	if s.P(1, 8) {
		// the text ends early
		t = t[:s.N(len(t))]
		if s.P(2, 3) {
			return t
		}
	}
	for n := 1 + s.N(5)/4; n > 0 && len(t) > 2; n-- {
		i := s.N(len(t))
		tok := func() gtok {
			if s.P(1, 3) {
				return t[s.N(len(t))]
			}
			w := s.Pick("(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "@", ".", "..", "+", "-", "*", "/", "%", "<", ">", "<<", ">>", "==", "!=", "<=", ">=", "&&", "||", "&", "|", "^", "!", "++", "--",
				"if", "else", "for", "return", "func", "struct", "union", "import", "extern", "break", "continue", "switch", "case", "default", "const", "type", "pub", "as", "true", "false", "#if",
				"zz", "i32", "1", "0x1f", "0b11", "2.5", `"zz"`, "'z'", "?", "18446744073709551616")
			return gTokens(w)[0]
		}
		switch s.N(7) {
		case 6: // a few tokens that belong together
			x := gTokens(s.Pick("zz(1) =", "zz, zy : = 1, 2 ;", "zz, zy(1) : i32 = 1, 2 ;", "zz : i32 = 1 ;", "zz : = 1 ;", "zz = 1 ;", "= 1", "(1)", "(1, zz)", "[0]", ".zz", "as i32", "as (*i32)", "+ 1", "* zz", "- - zz", ", zz", ": = 1", ": i32", "zz.", "zz : ",
				"@zm.zz {zz: 1}", "@zz {}", "@alloc (", "@zz (1)", "@cast (i32)", "@sizeof (", "[2]i32 {1}", "[zz]i32 {1}", "extern zz", "extern (func zz(i32) i32) ;", "extern func (i32) i32 ;", "extern func zz(i32, .., i32) i32 ;", "const zz", "{ zz : 1 }", "( )", "[ ]", "{ }", "; ;", "func (zz i32) i32 { return zz ; }", "func zz () { }", "func zz () i32, { }", "if zz { }", "else { }", "else if zz { }", "for zz ; zz { }", "for zz, zy : = 1, 2 ; zz < 3 ; ++ zz { }", "switch zz { }", "case zz { }", "default { }", ": i32 { return 1 ; }", "struct zz { zz i32 }", "type zz = i32", "import zz, \"zz\"", "import zz, i32, \"zz\"", "#if LINUX { }", "1 2", "2.5.5", "func (i32, .. ) i32", "= zz ="))
			t = append(t[:i], append(append([]gtok(nil), x...), t[i:]...)...)
		case 0, 1:
			t = append(t[:i], t[i+1:]...)
		case 2:
			t = append(t[:i+1], t[i:]...)
		case 3, 4:
			t[i] = tok()
		case 5:
			if s.Bool() && i+1 < len(t) {
				t[i], t[i+1] = t[i+1], t[i]
			} else {
				x := tok()
				t = append(t[:i+1], t[i:]...)
				t[i] = x
			}
		}
	}
	return t
}

func gText(t []gtok) string {
	var b strings.Builder
	for _, x := range t {
		b.WriteString(x.t)
		if x.t == ";" || x.t == "{" || x.t == "}" {
			b.WriteByte('\n')
		} else {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// genEdited: the parser agrees with the recogniser of the grammar about a
// program with a few tokens changed.
func genEdited(s *gen.Src) *Case {
	o := lang.DefaultOpt()
	o.Stmts, o.Funcs, o.FnStmts, o.Structs, o.Globals, o.NoDump = s.N(9), s.N(4), 3, 1, 1, true
	src := synPrelude
	if s.P(1, 2) {
		src = lang.Source(lang.NewG(s, o).GenProg())
		if s.P(1, 3) {
			src = malPrelude + src
		}
	}
	t := gTokens(src)
	if why, unsure := syntax(t); why != "" || unsure {
		return &Case{Judge: "syntax", Src: src, NonTr: true, Want: "the recogniser rejects a program of the generator: " + why}
	}
	if s.P(1, 2) {
		// Few statements, so that every token of them is changed often
		all := statements(t)
		var few []gtok
		for n := 1 + s.N(4); n > 0; n-- {
			if x := all[s.N(len(all))]; len(few)+len(x) < 60 || len(few) == 0 {
				few = append(few, x...)
			}
		}
		if why, unsure := syntax(few); why == "" && !unsure {
			t = few
			src = gText(t)
		}
	}
	t = mEdit(s, t)
	why, unsure := syntax(t)
	if unsure {
		return nil
	}
	out := gText(t)
	if why == "" {
		s.Label("still of the grammar")
		return &Case{Judge: "syntax", Src: out, Want: "yes", NonTr: true}
	}
	s.Label(why)
	return &Case{Judge: "syntax", Want: "no", Src: out, NonTr: true, X: map[string]string{"why": why}}
}

// judgeSyntax: the parser has nothing against a text of the grammar, and something against another one.
func judgeSyntax(e *Env, c *Case) string {
	if c.Want != "yes" && c.Want != "no" {
		return c.Want
	}
	r := e.W.Do(run.Req{Op: "parse", Src: c.Src})
	if c.Want == "no" {
		if r.Hang || r.Died || r.Panic != "" {
			return "a text that is not of the grammar (" + c.X["why"] + ") is not rejected cleanly: " + r.Why()
		}
		if len(r.ParseErrs) == 0 {
			return "a text that is not of the grammar is parsed: " + c.X["why"]
		}
		return ""
	}
	if w := r.Why(); w != "" {
		return "a text of the grammar is not parsed: " + w
	}
	if len(r.ParseErrs) > 0 {
		return "a text of the grammar is rejected: " + r.ParseErrs[0]
	}
	return ""
}
