package main

import (
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C18: whatever the text, the front end answers: a tree and no errors, or errors.

var robustToks = []string{
	"func", "struct", "union", "if", "else", "for", "return", "break", "continue", "switch", "case", "default", "import", "extern", "pub", "type", "const", "as", "true", "false", "#if", "@",
	"print", "alloc", "realloc", "free", "sizeof", "unreachable", "asm", "cast", "add_compiler_flag",
	"(", ")", "{", "}", "[", "]", ";", ":", ",", ".", "..", "=", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "&", "|", "^", "&&", "||", "!", "<<", ">>", "++", "--",
	"i32", "i8", "i64", "u8", "f32", "f64", "void", "i1", "i0", "i7", "i128", "u", "i", "f16",
	"0", "1", "2", "42", "4294967296", "99999999999999999999", "0x", "0xff", "0b", "0b101", "1.5", "1.", "0.0", "'a'", "'", "'ab'", "\"s\"", "\"", "\"\\", "\"\\n\"",
	"x", "y", "main", "P", "T", "m", "f", "m.P", "P.x", "x.y", "_", "a-b", "\x00", "é", "~", "`", "?", "$", "\\", "//", "// c\n", "\n", "\t",
}

func mutTokens(s *gen.Src, toks []string) []string {
	n := 1 + s.W(5, 4, 3, 2, 1, 1)
	for i := 0; i < n && len(toks) > 0; i++ {
		s.Span(func() {
			k := s.N(len(toks))
			switch s.W(4, 3, 4, 3, 2, 1) {
			case 0: // drop
				toks = append(append([]string{}, toks[:k]...), toks[k+1:]...)
			case 1: // repeat
				toks = append(append(append([]string{}, toks[:k]...), toks[k]), toks[k:]...)
			case 2: // replace
				toks = append([]string{}, toks...)
				toks[k] = robustToks[s.N(len(robustToks))]
			case 3: // insert
				toks = append(append(append([]string{}, toks[:k]...), robustToks[s.N(len(robustToks))]), toks[k:]...)
			case 4: // swap with another one
				j := s.N(len(toks))
				toks = append([]string{}, toks...)
				toks[k], toks[j] = toks[j], toks[k]
			case 5: // cut
				if s.Bool() {
					toks = append([]string{}, toks[:k]...)
				} else {
					toks = append([]string{}, toks[k:]...)
				}
			}
		})
	}
	return toks
}

func smallProg(s *gen.Src) *lang.Prog {
	o := lang.DefaultOpt()
	o.Stmts, o.Depth, o.Nest, o.Structs, o.Funcs, o.FnStmts, o.Globals = 5, 2, 2, 2, 2, 2, 2
	return lang.NewG(s, o).GenProg()
}

func genRobustTokens(s *gen.Src) *Case {
	p := smallProg(s)
	toks, _ := lang.Tokens(p, false)
	toks = mutTokens(s, toks)
	src := ""
	if s.P(1, 3) {
		src = strings.Join(toks, " ")
	} else {
		src = lang.Render(toks)
	}
	return &Case{Judge: "robust", Src: src, NonTr: true, X: map[string]string{"ops": "ir"}}
}

func genRobustSoup(s *gen.Src) *Case {
	var toks []string
	for i := 1 + s.N(30); i > 0; i-- {
		toks = append(toks, robustToks[s.N(len(robustToks))])
	}
	if s.Bool() {
		toks = append([]string{"func", "main", "(", ")", "void", "{"}, append(toks, "}")...)
	}
	return &Case{Judge: "robust", Src: strings.Join(toks, " "), NonTr: true, X: map[string]string{"ops": "ir"}}
}

func genRobustBytes(s *gen.Src) *Case {
	b := []byte(lang.Source(smallProg(s)))
	for i := 1 + s.N(6); i > 0 && len(b) > 0; i-- {
		k := s.N(len(b))
		switch s.N(4) {
		case 0:
			b[k] = byte(s.N(256))
		case 1:
			b = append(b[:k:k], b[k+1:]...)
		case 2:
			b = append(b[:k:k], append([]byte{byte(s.N(256))}, b[k:]...)...)
		case 3:
			b[k] ^= 1 << uint(s.N(8))
		}
	}
	return &Case{Judge: "robust", Src: string(b), NonTr: true, X: map[string]string{"ops": "ir"}}
}

// mutNames replaces names, types and literals by others of the same program:
// most results parse, and many are almost well typed.
func mutNames(s *gen.Src, toks []string) []string {
	toks = append([]string{}, toks...)
	isWord := func(t string) bool {
		c := t[0]
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	kw := map[string]bool{"func": true, "struct": true, "union": true, "if": true, "else": true, "for": true, "return": true, "break": true, "continue": true, "switch": true, "case": true, "default": true, "const": true, "as": true, "type": true, "print": true, "alloc": true, "free": true, "sizeof": true}
	ops := map[string]bool{"+": true, "-": true, "*": true, "/": true, "%": true, "&": true, "|": true, "^": true, "<<": true, ">>": true, "<": true, ">": true, "<=": true, ">=": true, "==": true, "!=": true, "&&": true, "||": true, "=": true, "!": true, ".": true, "++": true, "--": true}
	var at [2][]int
	for i, t := range toks {
		if t == "" {
			continue
		}
		switch {
		case ops[t]:
			at[1] = append(at[1], i)
		case isWord(t) && !kw[t], t[0] >= '0' && t[0] <= '9', t[0] == '"', t[0] == '\'':
			at[0] = append(at[0], i)
		}
	}
	types := []string{"i32", "i8", "i64", "u8", "u32", "f32", "f64", "i1", "void", "u64", "i16"}
	opl := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||", "=", "!", ".", "++", "--"}
	for n := 1 + s.W(4, 3, 2, 1, 1); n > 0; n-- {
		s.Span(func() {
			w := s.W(6, 2, 2, 1, 1)
			a := at[0]
			if w == 1 {
				a = at[1]
			}
			if len(a) == 0 {
				return
			}
			k := a[s.N(len(a))]
			switch w {
			case 0:
				toks[k] = toks[a[s.N(len(a))]]
			case 1:
				toks[k] = opl[s.N(len(opl))]
			case 2:
				toks[k] = types[s.N(len(types))]
			case 3:
				toks[k] = "* " + toks[k]
			case 4:
				toks[k] = "& " + toks[k]
			}
		})
	}
	return toks
}

func genRobustNames(s *gen.Src) *Case {
	toks, _ := lang.Tokens(smallProg(s), false)
	return &Case{Judge: "robust", Src: lang.Render(mutNames(s, toks)), NonTr: true, X: map[string]string{"ops": "ir", "verify": "1"}}
}

// Seed programs that use the parts of the language the program generator does
// not have, and the ones it has in unusual places. The files are separated by a
// line "--- name".
var robustSeeds = []string{
	`type T ; struct Array { values * T length i32 } func new ( n i32 ) Array { return @Array { values : @alloc ( T , n ) , length : n } ; }
func push ( a * Array , v T ) { a . values [ a . length ] = v ; a . length = a . length + 1 ; } func main ( ) { a := new ( 3 ) ; }`,
	`import arr , i32 , "a.cd" ; import arr2 , * i8 , "a.cd" ; struct P { a arr . Array } func main ( ) { a := arr . new ( 3 ) ; a . push ( 4 ) ; p := @P { a : a } ; @print ( p . a . length , a . values [ 0 ] ) ; b : arr2 . Array = arr2 . new ( 1 ) ; }
--- a.cd
type T ; struct Array { values * T length i32 } func new ( n i32 ) Array { return @Array { values : @alloc ( T , n ) , length : 0 } ; } func push ( a Array , v T ) { a . values [ a . length ] = v ; }`,
	`import m , "m.cd" ; import n , "n.cd" ; func main ( ) i32 { x := m . get ( n . K ) ; y : m . P = m . make ( ) ; return x + y . v + n . g ; }
--- m.cd
struct P { v i32 } func get ( x i32 ) i32 { return x * 2 ; } func make ( ) P { return @P { v : 3 } ; }
--- n.cd
import m , "m.cd" ; const K := 4 ; g : i32 = 3 ; type E = i32 ; func f ( ) E { return m . get ( 4 ) as E ; }`,
	`import m , "m.cd" ; func main ( ) { m . f ( ) ; }
--- m.cd
import n , i32 , "n.cd" ; func f ( ) { n . g ( 1 ) ; }
--- n.cd
type T ; import m , "k.cd" ; func g ( x T ) T { return x ; }
--- k.cd
import o , "o.cd" ;
--- o.cd
const Z := 1 ;`,
	`extern func puts ( * i8 ) i32 ; extern func printf ( * i8 , .. ) i32 ; pub func exported ( a i32 , b * i8 ) i32 { return a ; } func main ( ) { puts ( "s" ) ; printf ( "%d" , 3 , 4.5 ) ; }`,
	`#if LINUX { const A := 1 ; } #if WINDOWS { const A := 2 ; } #if MACOS { const A := 3 ; } #if 1 { struct S { x i32 } } func main ( ) { #if X64 { @print ( A ) ; } }`,
	`type Num = i32 ; type Fn = func ( Num ) Num ; struct S { f Fn n Num } func twice ( f Fn , n Num ) Num { return f ( f ( n ) ) ; } func main ( ) { s := @S { f : func ( n Num ) Num { return n + 1 ; } , n : 3 } ; @print ( twice ( s . f , s . n ) ) ; }`,
	`union U { a i64 b f64 c [ 2 ] i32 } struct S { u U t i32 } func main ( ) { s := @S { t : 3 , u : 4 as i64 } ; @print ( s . u . c [ 1 ] ) ; p := & s . u ; p . b = 3.5 as f64 ; @print ( ( * p ) . a ) ; u : U = 3.0 as f64 ; }`,
	`func pair ( a i32 ) i32 , * i8 { return a , "x" ; } func main ( ) { n , s := pair ( 3 ) ; n , s = pair ( n + 1 ) ; a , b := 1 , 2 ; a , b = b , a ; @print ( n , s , a , b ) ; }`,
	`func main ( ) { x := :i32 { if 1 == 2 { return 3 ; } y := 4 ; return y * 2 ; } ; z := :* i8 { return "a" ; } ; @print ( x , z ) ; }`,
	`func main ( ) { a := 1 ; f := func ( b i32 ) i32 { g := func ( ) i32 { return a + b ; } ; return g ( ) ; } ; @print ( f ( 2 ) ) ; ( func ( ) { @print ( a ) ; } ) ( ) ; }`,
	`func main ( ) { y := 3 ; z := @asm ( i32 , "mov $0, $1" , y ) ; @add_compiler_flag ( "-lm" ) ; @print ( @sizeof ( i32 ) , @sizeof ( * i8 ) ) ; p := @alloc ( i64 , 4 ) ; p = @realloc ( p , 8 ) ; @free ( p ) ; x := @cast ( i64 , 3 ) ; if 1 == 2 { @unreachable ( ) ; } }`,
	`struct List { v i32 next * List } func main ( ) { l := @List { v : 1 , next : 0 as * List } ; m := @List { v : 2 , next : & l } ; for p := & m ; p as i32 != 0 ; p = p . next { @print ( p . v ) ; } }`,
	`struct P { x i32 y i32 } func add ( p P , q P ) i32 { return p . x + q . y ; } func inc ( p * P ) { ++ p . x ; ++ p . y ; } func main ( ) { p := @P { x : 1 , y : 2 } ; p . add ( p ) ; q := & p ; q . inc ( ) ; @print ( q . x ) ; }`,
	`const N := 3 ; const S := "abc" ; const F := 1.5 as f32 ; g : i32 = N * 2 - 1 ; h : i64 = - 5 as i64 ; func main ( ) { switch g { case N { } case 1 + 1 { } default { g = 4 ; } } a := [ 3 ] i32 { 1 , 2 , N } ; for i := 0 ; i < 3 ; ++ i { if a [ i ] == 2 { continue ; } else if i > 1 { break ; } else { @print ( S , F ) ; } } }`,
	`func main ( ) { a := [ 2 ] [ 2 ] i32 { [ 2 ] i32 { 1 , 2 } , [ 2 ] i32 { 3 , 4 } } ; p := & a [ 1 ] [ 0 ] ; * p = 5 ; * ( p + 1 ) = 6 ; @print ( a [ 1 ] [ 1 ] , "x" + "y" , "a" == "a" ) ; c := 'a' ; s := "text" ; s [ 0 ] = 'T' ; @print ( s , c as i32 ) ; }`,
	`func fact ( n i64 ) i64 { if n <= 1 as i64 { return 1 as i64 ; } return n * fact ( n - 1 as i64 ) ; } func apply ( f func ( i64 ) i64 , x i64 ) i64 { return f ( x ) ; } func main ( ) i32 { @print ( apply ( fact , 5 as i64 ) ) ; return 3 ; }`,
	`func main ( ) { for { break ; } for 1 == 1 { break ; } x := 0 ; for x = 1 ; x < 3 ; x = x + 1 { { y := x ; x = y ; } } if x { } else { } x , y := 1 , 2.0 ; z : u8 = 3 as u8 ; z = - z ; w := ! ( x == 1 ) && y > 1.0 || z < 4 as u8 ; }`,
}

func seedFiles(s *gen.Src) (string, map[string]string) {
	parts := strings.Split(robustSeeds[s.N(len(robustSeeds))], "\n--- ")
	files := map[string]string{}
	for _, p := range parts[1:] {
		name, text, _ := strings.Cut(p, "\n")
		files[name] = text
	}
	return parts[0], files
}

func mutText(s *gen.Src, text string) string {
	toks := strings.Fields(text)
	for n := s.W(2, 4, 3, 1); n > 0; n-- {
		switch s.W(3, 3, 2) {
		case 0:
			toks = mutTokens(s, toks)
		case 1:
			toks = mutNames(s, toks)
		case 2: // a piece of another seed
			other, _ := seedFiles(s)
			o := strings.Fields(other)
			from := s.N(len(o))
			o = o[from:min(len(o), from+1+s.N(25))]
			k := s.N(len(toks) + 1)
			toks = append(append(append([]string{}, toks[:k]...), o...), toks[k:]...)
		}
	}
	return strings.Join(toks, " ")
}

func genRobustSeeds(s *gen.Src) *Case {
	src, files := seedFiles(s)
	c := &Case{Judge: "robust", Src: mutText(s, src), NonTr: true, X: map[string]string{"ops": "ir"}}
	if s.P(1, 4) {
		c.X["verify"] = "1"
	}
	for _, name := range []string{"a.cd", "m.cd", "n.cd", "k.cd", "o.cd"} {
		text, ok := files[name]
		if !ok {
			continue
		}
		if s.P(1, 3) {
			text = mutText(s, text)
		}
		if s.P(1, 12) { // imports of files that may already be in the program
			text += ` import z , "` + []string{"m.cd", "n.cd", "a.cd", "o.cd", "./m.cd"}[s.N(5)] + `" ;`
		}
		if c.Files == nil {
			c.Files = map[string]string{}
		}
		c.Files[name] = text
	}
	return c
}

// genRobustTree: the other modes read the same texts.
func genRobustTree(s *gen.Src) *Case {
	c := genRobustSeeds(s)
	if s.Bool() {
		c = genRobustTokens(s)
	}
	c.X["ops"] = "tree,print"
	return c
}

func init() {
	register(&Prop{ID: "C18", Title: "robust", Rule: "every text counts once", Assum: assumBase, Fams: []Fam{
		{Name: "tokens", Quick: 4000, Thorough: 100000, Gen: genRobustTokens},
		{Name: "soup", Quick: 4000, Thorough: 100000, Gen: genRobustSoup},
		{Name: "names", Quick: 4000, Thorough: 100000, Gen: genRobustNames},
		{Name: "seeds", Quick: 5000, Thorough: 150000, Gen: genRobustSeeds},
		{Name: "tree", Quick: 3000, Thorough: 60000, Gen: genRobustTree},
		{Name: "bytes", Quick: 2500, Thorough: 60000, Gen: genRobustBytes},
		{Name: "any", Quick: 4000, Thorough: 120000, Gen: genRobustAny},
	}})
}
