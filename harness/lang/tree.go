package lang

import (
	"fmt"
	"strconv"
	"strings"
)

// Node is a node of the tree that `candice tree` draws. A text without children is a leaf; lists without
// elements are drawn as an empty leaf.
type Node struct {
	Label string // drawn before the text, like "condition: "
	Text  string
	Kids  []*Node
}

func leaf(s string) *Node { return &Node{Text: s} }

func node(tag string, kids ...*Node) *Node {
	if len(kids) == 0 {
		return leaf("")
	}
	return &Node{Text: tag, Kids: kids}
}

// lines draws the node: the first child stands next to the tag, the others below, at the same column.
func (n *Node) lines() []string {
	var out []string
	if len(n.Kids) == 0 {
		out = strings.Split(n.Text, "\n")
	}
	pad := strings.Repeat(" ", len(n.Text))
	for i, k := range n.Kids {
		first, rest := pad, pad+"║"
		switch {
		case len(n.Kids) == 1:
			first, rest = n.Text+"═", pad+" "
		case i == 0:
			first = n.Text + "╦"
		case i == len(n.Kids)-1:
			first, rest = pad+"╚", pad+" "
		default:
			first = pad + "╠"
		}
		for j, l := range k.lines() {
			if j == 0 {
				out = append(out, first+l)
			} else {
				out = append(out, rest+l)
			}
		}
	}
	if n.Label != "" {
		for j := range out {
			if j == 0 {
				out[j] = n.Label + out[j]
			} else {
				out[j] = strings.Repeat(" ", len(n.Label)) + out[j]
			}
		}
	}
	return out
}

// Draw draws the tree. Blanks at the end of lines are not part of the drawing.
func (n *Node) Draw() string {
	ls := n.lines()
	return TrimLines(strings.Join(ls, "\n"))
}

// TrimLines removes the blanks at the end of every line and the lines that end the text.
func TrimLines(s string) string {
	ls := strings.Split(s, "\n")
	for i := range ls {
		ls[i] = strings.TrimRight(ls[i], " \t\r")
	}
	return strings.TrimRight(strings.Join(ls, "\n"), "\n")
}

func treeTypes(ts []*Type) string {
	var out []string
	for _, t := range ts {
		out = append(out, TreeType(t))
	}
	return strings.Join(out, ", ")
}

// TreeType is how a type is written in the tree.
func TreeType(t *Type) string {
	switch t.K {
	case KPtr:
		return "*" + TreeType(t.Elem)
	case KArr:
		return "[" + strconv.Itoa(t.N) + "]" + TreeType(t.Elem)
	case KFunc:
		r := "void"
		if len(t.R) > 0 {
			r = treeTypes(t.R)
		}
		return "func(" + treeTypes(t.Ps) + ") " + r
	case KStruct, KUnion:
		if t.S.Mod != "" {
			return t.S.Mod + "." + t.S.Name
		}
		return t.S.Name
	}
	return t.String()
}

func treeSig(f *Func) (ps, r *Node) {
	var kids []*Node
	for _, p := range f.Params {
		kids = append(kids, leaf(p.Name+" "+TreeType(p.T)))
	}
	res := "void"
	if len(f.R) > 0 {
		res = treeTypes(f.R)
	}
	return node("types.Parameters", kids...), node("types.Return", leaf(res))
}

func treeBuiltin(name string, ts []*Type, es ...*Expr) *Node {
	kids := []*Node{leaf(name)}
	if len(ts) > 0 {
		kids = append(kids, node("ast.TypeParameters", leaf(treeTypes(ts))))
	}
	return node("ast.BuiltinCall", append(kids, node("ast.Parameters", treeExprs(es)...))...)
}

func treeExprs(es []*Expr) []*Node {
	var out []*Node
	for _, e := range es {
		out = append(out, TreeExpr(e))
	}
	return out
}

func treeName(d *Decl) *Node {
	if d.Mod != "" {
		return node("ast.BinaryOperation", leaf(d.Mod), leaf("'.'"), leaf(d.Name))
	}
	return leaf(d.Name)
}

// TreeExpr is the tree of an expression.
func TreeExpr(e *Expr) *Node {
	switch e.K {
	case EInt:
		return leaf(fmt.Sprintf("%d (%s)", int64(e.U), e.T))
	case EChar:
		return leaf(fmt.Sprintf("'%c' (i8)", rune(e.U)))
	case EFloat:
		return leaf(strconv.FormatFloat(e.F, 'f', -1, 64) + " (f32)")
	case EStr:
		return node("ast.StringLiteral", leaf(`"`+e.S+`"`))
	case EVar:
		return treeName(e.D)
	case EUn:
		return node("ast.PrefixOperation", leaf("'"+e.Op+"'"), TreeExpr(e.A))
	case EBin:
		return node("ast.BinaryOperation", TreeExpr(e.A), leaf("'"+e.Op+"'"), TreeExpr(e.B))
	case ECast:
		return treeBuiltin("cast", []*Type{e.T}, e.A)
	case ECall:
		if e.Method {
			return node("ast.Call", node("ast.BinaryOperation", TreeExpr(e.Args[0]), leaf("'.'"), leaf(e.A.D.Name)),
				node("ast.Parameters", treeExprs(e.Args[1:])...))
		}
		return node("ast.Call", TreeExpr(e.A), node("ast.Parameters", treeExprs(e.Args)...))
	case EIndex:
		return node("ast.IndexAccess", TreeExpr(e.A), TreeExpr(e.B))
	case EField:
		return node("ast.BinaryOperation", TreeExpr(e.A), leaf("'.'"), leaf(e.S))
	case EStruct:
		kids := []*Node{leaf(e.T.S.Name)}
		for i, a := range e.Args {
			kids = append(kids, node("ast.Field", leaf(e.Names[i]), TreeExpr(a)))
		}
		return node("ast.StructLiteral", kids...)
	case EArr:
		kids := []*Node{node("types.Array", leaf(TreeType(e.T)))}
		for _, a := range e.Args {
			kids = append(kids, node("ast.ArrayElement", TreeExpr(a)))
		}
		return node("ast.ArrayLiteral", kids...)
	case EFunc:
		ps, r := treeSig(e.Fn)
		return node("ast.AnonymousFunction", ps, r, treeBlock(e.Fn.Body))
	case EBlock, EIfExpr:
		return node("ast.ExpressionBlock", leaf(TreeType(e.T)), treeBlock(e.Body))
	case ESizeof:
		return treeBuiltin("sizeof", []*Type{e.Ty})
	case EAlloc:
		return treeBuiltin("alloc", []*Type{e.Ty}, e.A)
	case ERealloc:
		return treeBuiltin("realloc", nil, e.A, e.B)
	case EList:
		return node("ast.CommaExpressions", treeExprs(e.Args)...)
	}
	panic("tree of expression")
}

func treeBlock(b []*Stmt) *Node {
	var kids []*Node
	for _, s := range b {
		kids = append(kids, TreeStmt(s))
	}
	return node("ast.Block", kids...)
}

// TreeStmt is the tree of a statement.
func TreeStmt(s *Stmt) *Node {
	exprStmt := func(n *Node) *Node { return node("ast.ExpressionStatement", n) }
	switch s.K {
	case SDecl:
		return node("ast.DeclarationStatement", leaf(s.D.Name), TreeExpr(s.E))
	case SMulti:
		var kids []*Node
		for _, d := range s.Ds {
			kids = append(kids, leaf(d.Name))
		}
		return node("ast.MultipleDeclarationStatement", append(kids, TreeExpr(s.E))...)
	case SAssign:
		return node("ast.AssignmentStatement", TreeExpr(s.L), TreeExpr(s.E))
	case SExpr:
		return exprStmt(TreeExpr(s.E))
	case SIf:
		kids := []*Node{TreeExpr(s.Cond), treeBlock(s.Body)}
		for _, e := range s.Elifs {
			kids = append(kids, node("ast.ConditionPlusBlock", TreeExpr(e.Cond), treeBlock(e.Body)))
		}
		if s.HasEl {
			kids = append(kids, node("ast.Else", treeBlock(s.Else)))
		}
		return node("ast.IfStatement", kids...)
	case SFor:
		var kids []*Node
		add := func(label string, n *Node) {
			n.Label = label
			kids = append(kids, n)
		}
		if s.Init != nil {
			add("initializer: ", TreeStmt(s.Init))
		}
		if s.Cond != nil {
			add("condition: ", TreeExpr(s.Cond))
		}
		if s.Post != nil {
			add("operation: ", TreeStmt(s.Post))
		}
		return node("ast.ForStatement", append(kids, treeBlock(s.Body))...)
	case SSwitch:
		kids := []*Node{node("ast.Condition", TreeExpr(s.Cond))}
		for _, c := range s.Cases {
			kids = append(kids, node("ast.Case", TreeExpr(c.E), treeBlock(c.Body)))
		}
		if s.HasEl {
			kids = append(kids, node("ast.Default", treeBlock(s.Else)))
		}
		return node("ast.SwitchStatement", kids...)
	case SBlock:
		return treeBlock(s.Body)
	case SReturn:
		if s.E == nil {
			return node("ast.ReturnStatement", leaf(""))
		}
		return node("ast.ReturnStatement", TreeExpr(s.E))
	case SBreak:
		return leaf("ast.BreakStatement")
	case SContinue:
		return leaf("ast.ContinueStatement")
	case SPrint:
		return exprStmt(treeBuiltin("print", nil, s.Args...))
	case SFree:
		return exprStmt(treeBuiltin("free", nil, s.E))
	case SUnreachable:
		return exprStmt(treeBuiltin("unreachable", nil))
	case SMacro:
		var kids []*Node
		if s.HasEl {
			for _, b := range s.Body {
				kids = append(kids, TreeStmt(b))
			}
		}
		return node("ast.MacroBlock", kids...)
	}
	panic("tree of statement")
}

// TreeItem is the tree of a root declaration.
func TreeItem(it Item) *Node {
	switch {
	case it.Struct != nil:
		tag := "ast.StructStatement"
		if it.Struct.Union {
			tag = "ast.UnionStatement"
		}
		var kids []*Node
		for _, f := range it.Struct.Fields {
			kids = append(kids, node("ast.Field", leaf(f.Name), leaf(TreeType(f.T))))
		}
		return node(tag, kids...)
	case it.Fn != nil:
		ps, r := treeSig(it.Fn)
		kids := []*Node{leaf(it.Fn.Name)}
		if len(it.Fn.Params) > 0 {
			kids = append(kids, ps)
		}
		return node("ast.FunctionDeclarationStatement", append(kids, r, treeBlock(it.Fn.Body))...)
	case it.Global != nil:
		return TreeStmt(it.Global)
	case it.Alias != "":
		return node("ast.TypeDefinition", leaf(it.Alias), leaf(TreeType(it.Ty)))
	}
	panic("tree of declaration")
}

// TreeProg is the tree of a program, with the trees of other declarations that precede it.
func TreeProg(p *Prog, before ...*Node) *Node {
	kids := before
	for _, it := range p.Items {
		kids = append(kids, TreeItem(it))
	}
	return node("ast.Program", kids...)
}

// TreeNode and TreeLeaf build trees by hand.
func TreeNode(tag string, kids ...*Node) *Node { return node(tag, kids...) }
func TreeLeaf(s string) *Node                  { return leaf(s) }
