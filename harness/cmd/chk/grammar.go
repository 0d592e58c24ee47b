package main

import (
	"math/big"
	"strings"
)

// A recogniser of the grammar of the language, written from its description
// and not from the parser: statements end where the next one starts, semicolons
// are optional, operators bind by the table of C03.
//
// syntax says "" for a text of the grammar, the first mistake otherwise, and
// unsure for the few texts whose reading is nobody's business.

type gtok struct {
	k byte // i name, k keyword, n integer, f float, h other integers, s string, c character, o operator or punctuation, x none, E end
	t string
}

type gram struct {
	t      []gtok
	i      int
	why    string
	unsure bool
	stmts  [][2]int // the statements that ended, tokens from and to
}

type gstop struct{}

func (g *gram) at(n int) gtok {
	if g.i+n < len(g.t) {
		return g.t[g.i+n]
	}
	return gtok{'E', ""}
}

func (g *gram) is(t string) bool {
	c := g.at(0)
	return (c.k == 'o' || c.k == 'k') && c.t == t
}

func (g *gram) fail(s string) {
	g.why = s
	panic(gstop{})
}

func (g *gram) skip() {
	panic(gstop{})
}

func (g *gram) need(t, where string) {
	if !g.is(t) {
		g.fail("no " + t + " " + where)
	}
	g.i++
}

func (g *gram) name(where string) string {
	if c := g.at(0); c.k != 'i' {
		g.fail("no name " + where)
	}
	g.i++
	return g.t[g.i-1].t
}

var gprec = map[string]int{"=": 1, ",": 2, "&&": 3, "||": 3, "==": 4, "!=": 4, ">=": 4, ">": 4, "<": 4, "<=": 4, "+": 5, "-": 5,
	"^": 6, "&": 6, "<<": 6, ">>": 6, "|": 6, "/": 7, "*": 7, "%": 7, "as": 8, "(": 10, "[": 12, ".": 13}

// Shapes of expressions: the ones that can be assigned, a list, an assignment.
const (
	gOther = iota
	gName
	gPlace
	gList      // of anything
	gPlaces    // a list that can be assigned
	gNames     // a list of names
	gAssign    // place = value
	gBadAssign // something else = value
)

func (g *gram) types(where string) {
	g.typ(where)
	for g.is(",") {
		g.i++
		g.typ(where)
	}
}

func (g *gram) typ(where string) {
	c := g.at(0)
	switch {
	case g.is("("):
		g.i++
		g.types("in parentheses")
		g.need(")", "after a type")
	case g.is("*"):
		g.i++
		g.typ("after *")
	case c.k == 'i':
		g.i++
		for g.is(".") {
			g.i++
			g.name("after . in a type")
		}
	case g.is("func"):
		g.i++
		g.funcType()
	case g.is("["):
		g.i++
		if n := g.at(0); n.k != 'n' {
			g.fail("no number of elements in an array type")
		} else if v, ok := new(big.Int).SetString(n.t, 10); !ok || v.BitLen() > 31 {
			g.fail("too many elements in an array type")
		}
		g.i++
		g.need("]", "in an array type")
		g.typ("of the elements")
	default:
		g.fail("no type " + where)
	}
}

func (g *gram) funcType() {
	if g.at(0).k == 'i' {
		g.i++
	}
	g.need("(", "in a function type")
	for n := 0; !g.is(")"); n++ {
		if n > 0 {
			g.need(",", "between the types of parameters")
		}
		if g.is("..") {
			g.i++
			break
		}
		g.typ("of a parameter")
	}
	g.need(")", "in a function type")
	if g.at(0).k == 'i' || g.is("*") || g.is("[") || g.is("func") || g.is("(") {
		g.typ("of a result")
	}
}

func (g *gram) function() {
	g.need("(", "of the parameters")
	for n := 0; !g.is(")"); n++ {
		if n > 0 {
			g.need(",", "between parameters")
		}
		g.name("of a parameter")
		g.typ("of a parameter")
	}
	g.need(")", "after the parameters")
	if !g.is("{") {
		g.types("of the results")
	}
	g.block()
}

func (g *gram) list(end string) {
	for n := 0; !g.is(end); n++ {
		if n > 0 {
			g.need(",", "between values")
		}
		g.expr(2)
	}
	g.need(end, "after values")
}

func (g *gram) builtin() int {
	module := false
	g.name("after @")
	if g.is(".") {
		g.i++
		module = true
		g.name("after @ and a module")
	}
	if g.is("{") {
		g.i++
		for !g.is("}") {
			g.name("of a field")
			g.need(":", "after a field")
			g.expr(2)
			if !g.is("}") {
				g.need(",", "between fields")
			}
		}
		g.need("}", "after fields")
		return gOther
	}
	if module {
		// What is called in a module is not a builtin
		g.unsure = true
		g.skip()
	}
	name := g.t[g.i-1].t
	g.need("(", "after a builtin")
	switch name {
	case "alloc", "cast":
		g.typ("of " + name)
		g.need(",", "in "+name)
		g.expr(2)
	case "print", "add_compiler_flag":
		g.list(")")
		return gOther
	case "realloc":
		g.expr(2)
		g.need(",", "in realloc")
		g.expr(2)
	case "free":
		g.expr(2)
	case "sizeof":
		g.typ("of sizeof")
	case "asm":
		g.typ("of asm")
		g.need(",", "in asm")
		g.list(")")
		return gOther
	}
	g.need(")", "after a builtin")
	return gOther
}

func (g *gram) operand() int {
	c := g.at(0)
	g.i++
	switch c.k {
	case 'i':
		return gName
	case 'n', 'h':
		base, digits := 10, c.t
		if c.k == 'h' {
			base, digits = 16, c.t[2:]
			if c.t[1] == 'b' {
				base = 2
			}
		}
		if v, ok := new(big.Int).SetString(digits, base); !ok || v.BitLen() > 64 {
			g.fail("a number that is not one")
		}
		return gOther
	case 'f', 's', 'c':
		return gOther
	}
	if c.k == 'o' || c.k == 'k' {
		switch c.t {
		case "func":
			g.function()
			return gOther
		case "!", "&", "-", "+":
			g.expr(9)
			return gOther
		case "*":
			g.expr(9)
			return gPlace
		case "++", "--":
			g.expr(9)
			return gOther
		case "@":
			return g.builtin()
		case "(":
			k := g.expr(0)
			g.need(")", "after an expression")
			return k
		case "[":
			g.i--
			g.typ("of an array")
			g.need("{", "after the type of an array")
			g.list("}")
			return gOther
		case ":":
			g.typ("of a block")
			g.block()
			return gOther
		}
	}
	g.i--
	g.fail("no operand")
	return 0
}

func (g *gram) expr(prec int) int {
	k := g.operand()
	for {
		c := g.at(0)
		p := 0
		if c.k == 'o' || c.k == 'k' {
			p = gprec[c.t]
		}
		if p <= prec {
			return k
		}
		g.i++
		switch c.t {
		case ",":
			names, places := k == gName, k == gName || k == gPlace
			for n := 0; n == 0 || g.is(","); n++ {
				if n > 0 {
					g.i++
				}
				e := g.expr(2)
				names = names && e == gName
				places = places && (e == gName || e == gPlace)
			}
			k = gList
			if places {
				k = gPlaces
			}
			if names {
				k = gNames
			}
		case "=":
			g.expr(1)
			if k == gName || k == gPlace || k == gPlaces || k == gNames {
				k = gAssign
			} else {
				k = gBadAssign
			}
		case "(":
			g.list(")")
			k = gOther
		case "[":
			g.expr(0)
			g.need("]", "after an index")
			k = gPlace
		case "as":
			g.typ("after as")
			k = gOther
		case ".":
			g.expr(13)
			k = gPlace
		default:
			g.expr(p)
			k = gOther
		}
	}
}

func (g *gram) block() {
	if !g.is("{") {
		g.stmt()
		return
	}
	g.i++
	for !g.is("}") {
		if g.at(0).k == 'E' {
			g.fail("no } at the end")
		}
		g.stmt()
	}
	g.i++
}

func (g *gram) maybeType() {
	if !g.is("=") {
		g.typ("of a declaration")
	}
	g.need("=", "in a declaration")
	g.expr(0)
}

// stmt says what kind of statement it is: d declaration, m several, a assignment, e expression, s other.
func (g *gram) stmt() byte {
	start := g.i
	k := g.plain()
	for g.is(";") {
		g.i++
	}
	g.stmts = append(g.stmts, [2]int{start, g.i})
	return k
}

func (g *gram) possibleAssignment() byte {
	switch k := g.expr(0); k {
	case gAssign:
		return 'a'
	case gBadAssign:
		g.fail("what is assigned is not a place")
	case gList, gPlaces, gNames:
		if g.is(":") {
			g.i++
			if k != gNames {
				// where the mistake is depends on the type
				if !g.is("=") {
					g.typ("of a declaration")
				}
				g.fail("what is declared is not a name")
			}
			g.maybeType()
			return 'm'
		}
	}
	return 'e'
}

func (g *gram) plain() byte {
	c := g.at(0)
	if c.k == 'i' {
		if n := g.at(1); n.k == 'o' && n.t == ":" {
			g.i += 2
			g.maybeType()
			return 'd'
		}
		return g.possibleAssignment()
	}
	if c.k == 'o' && (c.t == "*" || c.t == "(") {
		return g.possibleAssignment()
	}
	if c.k == 'o' && c.t == "{" {
		g.block()
		return 's'
	}
	if c.k == 'o' && c.t == "#if" {
		g.i++
		from := g.i
		g.expr(0)
		// Conditions of the preprocessor have their own rules
		if v := g.t[from]; g.i != from+1 || v.k != 'n' && !(v.k == 'i' && (v.t == "LINUX" || v.t == "WINDOWS" || v.t == "MACOS")) {
			g.unsure = true
			g.skip()
		}
		g.block()
		return 's'
	}
	if c.k == 'k' {
		switch c.t {
		case "switch":
			g.i++
			g.expr(0)
			g.need("{", "in a switch")
			for g.is("case") {
				g.i++
				g.expr(0)
				g.block()
			}
			if g.is("default") {
				g.i++
				g.block()
			}
			g.need("}", "after a switch")
			return 's'
		case "extern":
			g.i++
			g.need("func", "after extern")
			if g.at(0).k != 'i' {
				g.fail("no name of an external function")
			}
			g.funcType()
			return 's'
		case "if":
			g.i++
			g.expr(0)
			g.block()
			for g.is("else") {
				g.i++
				if !g.is("if") {
					g.block()
					break
				}
				g.i++
				g.expr(0)
				g.block()
			}
			return 's'
		case "for":
			g.i++
			if g.is("{") {
				g.block()
				return 's'
			}
			switch g.stmt() {
			case 'e':
				if !g.is("{") {
					g.unsure = true
					g.skip()
				}
				g.block()
				return 's'
			case 'm':
				g.fail("several names in a loop")
			case 's':
				g.unsure = true
				g.skip()
			}
			g.expr(0)
			g.need(";", "after the condition of a loop")
			if !g.is("{") {
				g.possibleAssignment()
			}
			g.block()
			return 's'
		case "struct", "union":
			g.i++
			g.name("of a " + c.t)
			g.need("{", "of a "+c.t)
			for !g.is("}") {
				g.name("of a field")
				g.typ("of a field")
			}
			g.i++
			return 's'
		case "func":
			g.i++
			g.name("of a function")
			g.function()
			return 's'
		case "pub":
			g.i++
			g.need("func", "after pub")
			g.name("of a function")
			g.function()
			return 's'
		case "return":
			g.i++
			if !g.is(";") {
				g.expr(0)
			}
			return 's'
		case "import":
			g.i++
			g.name("of a module")
			g.need(",", "in an import")
			for g.at(0).k != 's' {
				g.typ("of an import")
				g.need(",", "in an import")
			}
			g.i++
			return 's'
		case "break", "continue":
			g.i++
			return 's'
		case "type":
			g.i++
			g.name("of a type")
			g.need("=", "in a type")
			g.typ("after type")
			return 's'
		case "const":
			g.i++
			g.name("after const")
			if g.is(",") {
				for g.is(",") {
					g.i++
					g.name("after const")
				}
				g.need(":", "in a declaration")
				g.maybeType()
				return 'm'
			}
			g.need(":", "in a declaration")
			g.maybeType()
			return 'd'
		}
	}
	if g.expr(0) == gBadAssign {
		g.unsure = true
		g.skip()
	}
	return 'e'
}

// statements are the tokens of every statement of a text, also of the ones inside of others.
func statements(t []gtok) (out [][]gtok) {
	g := &gram{t: t}
	for g.i < len(t) {
		g.stmt()
	}
	for _, b := range g.stmts {
		out = append(out, t[b[0]:b[1]])
	}
	return
}

func syntax(t []gtok) (why string, unsure bool) {
	g := &gram{t: t}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(gstop); !ok {
				panic(r)
			}
		}
		why, unsure = g.why, g.unsure
	}()
	for g.i < len(t) {
		g.stmt()
	}
	return
}

// gTokens splits a text of the generator, which has no comments and no strange characters.
func gTokens(src string) (out []gtok) {
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	letter := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	for i := 0; i < len(src); {
		c := src[i]
		j := i + 1
		k := byte('o')
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
			continue
		case c == '"' || c == '\'':
			for j < len(src) && src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			j++
			k = 's'
			if c == '\'' {
				k = 'c'
			}
		case digit(c):
			k = 'n'
			if c == '0' && j < len(src) && (src[j] == 'x' || src[j] == 'b') {
				k = 'h'
				for j++; j < len(src) && (digit(src[j]) || src[i+1] == 'x' && (src[j] >= 'a' && src[j] <= 'f' || src[j] >= 'A' && src[j] <= 'F')); j++ {
				}
				break
			}
			for j < len(src) && digit(src[j]) {
				j++
			}
			if j+1 < len(src) && src[j] == '.' && digit(src[j+1]) {
				k = 'f'
				for j++; j < len(src) && digit(src[j]); j++ {
				}
			}
		case letter(c):
			for j < len(src) && (letter(src[j]) || digit(src[j])) {
				j++
			}
			k = 'i'
			if mKeywords[src[i:j]] {
				k = 'k'
			}
		case strings.HasPrefix(src[i:], "#if"):
			j = i + 3
		default:
			for _, op := range []string{"==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "++", "--", ".."} {
				if strings.HasPrefix(src[i:], op) {
					j = i + 2
				}
			}
			if j == i+1 && strings.IndexByte("()[]{},;:@.+-*/%<>=!&|^", c) < 0 {
				k = 'x'
			}
		}
		out = append(out, gtok{k, src[i:j]})
		i = j
	}
	return
}
