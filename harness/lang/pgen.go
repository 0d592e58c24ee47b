package lang

import (
	"fmt"
	"sort"
	"strings"

	"candverif/gen"
)

// Opt steers the program generator; weights are relative (0 disables).
type Opt struct {
	Stmts   int // statements of main
	FnStmts int // statements of helper functions
	Depth   int // expression depth
	Funcs   int // number of helper functions
	Structs int // number of struct types
	Globals int
	Names   int // size of the pool of variable names; a small one shadows a lot
	Nest    int // statement nesting

	Floats, Bools, Strs, Unions, Arrays, Ptrs, Heap, Lambdas, Blocks, Multi bool
	Switch, Loops, Consts, Recur, Method, Wide, Bare, MultiRet, FnVals      bool

	Agg       int  // extra weight of aggregate types
	Trace     int  // weight of operands wrapped in calls that print a number
	UnionBias bool // many unions
	NoDump    bool // do not print the variables at the end

	// statement weights
	WDecl, WAssign, WPrint, WIf, WFor, WSwitch, WBlock, WCall, WMulti, WJump, WInc, WLambda, WHeap int
	// expression weights
	WCallE, WIncE, WLogic, WCastE, WBlockE int
}

// DefaultOpt turns everything on.
func DefaultOpt() Opt {
	return Opt{Stmts: 14, FnStmts: 5, Depth: 3, Funcs: 3, Structs: 2, Globals: 3, Names: 8, Nest: 3,
		Floats: true, Bools: true, Strs: true, Unions: true, Arrays: true, Ptrs: true, Heap: true, Lambdas: true,
		Blocks: true, Multi: true, Switch: true, Loops: true, Consts: true, Recur: true, Method: true, Wide: true, Bare: true,
		MultiRet: true, FnVals: true,
		WDecl: 8, WAssign: 6, WPrint: 5, WIf: 4, WFor: 3, WSwitch: 2, WBlock: 2, WCall: 2, WMulti: 2, WJump: 1, WInc: 2, WLambda: 1, WHeap: 1,
		WCallE: 3, WIncE: 1, WLogic: 2, WCastE: 3, WBlockE: 1}
}

type scope struct {
	up    *scope
	decls []*Decl
	fn    *Func
}

type G struct {
	S       *gen.Src
	O       Opt
	Prog    *Prog
	Structs []*StructDef
	Funcs   []*Func
	sc      *scope
	fn      *Func
	lam     []*Func // enclosing lambdas, innermost last
	loops   int     // enclosing loops of the current function
	inBlk   *Type   // result type of the innermost expression block, if any
	nid     int
	nfn     int
	loopMul int // estimate of how often the current statement runs
	noSide  bool
	noCall  bool
	spots   map[*Decl]bool // functions that return a pointer to a global variable
	noLam   bool
	lens    map[*Decl]int
	recFn   *Func
	recN    *Decl
	tracers map[string]*Func
	tid     int
	nodes   int
}

func NewG(s *gen.Src, o Opt) *G {
	return &G{S: s, O: o, Prog: &Prog{}, lens: map[*Decl]int{}, loopMul: 1}
}

func (g *G) push() { g.sc = &scope{up: g.sc, fn: g.fn} }
func (g *G) pop()  { g.sc = g.sc.up }

var namePool = []string{"a", "b", "c", "d", "x", "y", "z", "w", "k", "m", "val", "acc", "tmp", "foo", "bar", "q_1", "Total", "n2"}

func (g *G) freshName() string {
	g.nid++
	return fmt.Sprintf("%s%d", g.S.Pick("v", "t", "u", "r"), g.nid)
}

func (g *G) varName() string {
	if g.O.Names > 0 && g.S.P(2, 3) {
		n := namePool[g.S.N(min(g.O.Names, len(namePool)))]
		if g.S.P(1, 12) {
			return strings.ToUpper(n[:1]) + n[1:]
		}
		return n
	}
	return g.freshName()
}

func (g *G) NewVar(t *Type) *Decl {
	g.nid++
	return &Decl{Name: g.varName(), T: t, Owner: g.fn, ID: g.nid}
}

// Add makes d visible.
func (g *G) Add(d *Decl) { g.sc.decls = append(g.sc.decls, d) }

// visible lists the variables that can be named here, innermost first.
func (g *G) visible() []*Decl {
	var out []*Decl
	seen := map[string]bool{}
	for s := g.sc; s != nil; s = s.up {
		for i := len(s.decls) - 1; i >= 0; i-- {
			d := s.decls[i]
			if seen[d.Name] {
				continue
			}
			seen[d.Name] = true
			if d.NoRead {
				continue
			}
			out = append(out, d)
		}
	}
	return out
}

func (g *G) shadowed(name string) bool {
	for s := g.sc; s != nil; s = s.up {
		for _, d := range s.decls {
			if d.Name == name {
				return true
			}
		}
	}
	return false
}

// outer tells whether d would have to be captured.
func (g *G) outer(d *Decl) bool { return !d.Global && d.Owner != g.fn }

func (g *G) capturable(t *Type) bool {
	switch t.K {
	case KPtr:
		return t.IsStr()
	case KFunc:
		return true
	case KArr:
		return g.capturable(t.Elem)
	case KStruct:
		for _, f := range t.S.Fields {
			if !g.capturable(f.T) {
				return false
			}
		}
	case KUnion:
		return false
	}
	return true
}

// use records captures and returns a reference to d.
func (g *G) use(d *Decl) *Expr {
	if g.outer(d) {
		// every lambda between here and the owner captures it
		for i := len(g.lam) - 1; i >= 0; i-- {
			l := g.lam[i]
			if l == d.Owner {
				break
			}
			has := false
			for _, c := range l.Caps {
				has = has || c == d
			}
			if !has {
				l.Caps = append(l.Caps, d)
			}
		}
	}
	return V(d)
}

// ---- types

func (g *G) IntType() *Type {
	return Ints[g.S.W(8, 2, 2, 4, 2, 2, 2, 2)]
}

func (g *G) Scalar() *Type {
	k := g.S.W(10, b2i(g.O.Floats)*3, b2i(g.O.Bools)*2, b2i(g.O.Strs)*2)
	switch k {
	case 1:
		return Floats[g.S.N(2)]
	case 2:
		return I1
	case 3:
		return Str
	}
	return g.IntType()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ValType is a type without pointers (except strings).
func (g *G) ValType(depth int) *Type {
	if depth > 0 {
		switch g.S.W(8, b2i(g.O.Arrays)*(2+g.O.Agg), b2i(len(g.Structs) > 0)*(3+g.O.Agg)) {
		case 1:
			return ArrOf(g.S.Range(1, 4), g.ValType(depth-1))
		case 2:
			d := g.Structs[g.S.N(len(g.Structs))]
			if d.Union {
				if g.lam != nil {
					return g.Scalar()
				}
			}
			return d.T
		}
	}
	return g.Scalar()
}

func (g *G) GenStructs() {
	g.S.Rep(0, g.O.Structs, func(i int) {
		nf := g.S.Range(1, 4)
		var fs []Field
		union := g.O.Unions && (g.S.P(1, 5) || g.O.UnionBias && g.S.P(1, 2))
		names := []string{"a", "b", "c", "d", "x", "len", "next", "fld"}
		if g.S.P(1, 3) { // names that are alike
			names = []string{"a", "A", "aa", "a_", "_a", "a1", "aA", "Aa"}
		}
		p := g.S.Perm(len(names))
		for j := 0; j < nf; j++ {
			var t *Type
			if union {
				t = g.unionField()
			} else if g.O.FnVals && g.S.P(1, 10) {
				t = g.fnType()
			} else {
				t = g.ValType(1)
			}
			fs = append(fs, Field{names[p[j]], t})
		}
		g.Structs = append(g.Structs, NewStruct(fmt.Sprintf("%s%d", g.S.Pick("S", "Pt", "Node", "T"), i), union, fs))
	})
}

func (g *G) unionField() *Type {
	switch g.S.W(6, 2, 2) {
	case 1:
		return Floats[g.S.N(2)]
	case 2:
		return ArrOf(g.S.Range(1, 4), g.IntType())
	}
	return g.IntType()
}

// ---- literals

func (g *G) intBits(t *Type) uint64 {
	s := g.S
	switch s.W(6, 3, 2, 2) {
	case 0:
		return uint64(s.N(12))
	case 1:
		return uint64(s.N(200)) - 100
	case 2:
		b := uint(t.Bits)
		x := []uint64{1<<(b-1) - 1, 1 << (b - 1), 1<<(b-1) + 1, ^uint64(0), 1<<(b/2) - 1, 1 << (b / 2), 0x5555555555555555, 127, 128, 255, 256}
		return x[s.N(len(x))]
	}
	return s.U64()
}

func (g *G) IntLitE(t *Type) *Expr {
	if t.Bits == 1 {
		a, b := uint64(g.S.N(3)), uint64(g.S.N(3))
		return Bin(g.S.Pick("==", "!=", "<"), Lit(a), Lit(b))
	}
	if t.Eq(I8) && g.S.P(1, 4) {
		cs := "azAZ09 !\n\t\\'\""
		return &Expr{K: EChar, T: I8, U: uint64(cs[g.S.N(len(cs))])}
	}
	u := g.intBits(t)
	e := IntLit(t, u)
	if g.S.P(1, 6) {
		for x := e; x != nil; x = x.A {
			if x.K == EInt {
				x.Form = g.S.N(4)
			}
		}
	}
	return e
}

func (g *G) FloatLit(t *Type) *Expr {
	fs := []float64{0, 1, 0.5, 2.25, 3, 10.125, 100, 0.1, 1234.5, 7.75, 65536, 0.001}
	f := fs[g.S.N(len(fs))]
	return CastIf(FLit(f), t)
}

var strPool = []string{"", "a", "b", "ab", "abc", "hello", "x y", "zz", "A", "tab\tq", "q\"t", "100%", "é", "%d", "back\\slash", "line\nbreak"}

func (g *G) StrLitE() *Expr { return StrLit(strPool[g.S.N(len(strPool))]) }

// Literal builds a constant of any value type.
func (g *G) Literal(t *Type) *Expr {
	switch t.K {
	case KInt:
		return g.IntLitE(t)
	case KFloat:
		return g.FloatLit(t)
	case KPtr:
		if t.IsStr() {
			return g.StrLitE()
		}
	}
	return g.Compose(t, 0)
}

// Compose builds an aggregate literal with generated parts.
func (g *G) Compose(t *Type, depth int) *Expr {
	switch t.K {
	case KArr:
		e := &Expr{K: EArr, T: t}
		for i := 0; i < t.N; i++ {
			e.Args = append(e.Args, g.Expr(t.Elem, depth))
		}
		return e
	case KStruct:
		e := &Expr{K: EStruct, T: t}
		p := make([]int, len(t.S.Fields))
		for i := range p {
			p[i] = i
		}
		if g.S.P(1, 2) {
			p = g.S.Perm(len(p))
		}
		for _, i := range p {
			f := t.S.Fields[i]
			var v *Expr
			if f.T.K == KUnion {
				v = g.unionValue(f.T, depth)
			} else {
				v = g.Expr(f.T, depth)
			}
			e.Args = append(e.Args, v)
			e.Names = append(e.Names, f.Name)
		}
		return e
	case KUnion:
		return g.unionValue(t, depth)
	}
	return g.Expr(t, depth)
}

// unionValue is an existing union value, or a block expression that builds one.
func (g *G) unionValue(t *Type, depth int) *Expr {
	if d := g.pickVar(t, false); d != nil && g.S.P(1, 2) {
		return g.use(d)
	}
	f := t.S.Fields[g.S.N(len(t.S.Fields))].T
	save, sn := g.inBlk, g.noSide
	g.inBlk = t
	g.push()
	d := &Decl{Name: g.freshName(), T: t, Owner: g.fn}
	v := g.Expr(f, min(depth, 1))
	b := []*Stmt{DefStmt(d, v, true), {K: SReturn, E: V(d)}}
	g.pop()
	g.inBlk, g.noSide = save, sn
	return &Expr{K: EBlock, T: t, Body: b, Paren: true}
}

// ---- access paths

type path struct {
	d     *Decl
	steps []step
	t     *Type
}

type step struct {
	kind int // 0 field, 1 index of array, 2 deref, 3 index of pointer
	i    int
}

// paths lists the ways to reach a value of type t.
func (g *G) paths(t *Type, write bool) []path {
	return g.pathsTo(func(x *Type) bool { return x.Eq(t) }, write)
}

// pathsTo lists the ways to reach a value of a type that is wanted.
func (g *G) pathsTo(want func(*Type) bool, write bool) []path {
	var out []path
	var walk func(p path, depth int)
	walk = func(p path, depth int) {
		if want(p.t) {
			out = append(out, p)
		}
		if depth == 0 {
			return
		}
		ext := func(s step, nt *Type) {
			np := path{p.d, append(append([]step(nil), p.steps...), s), nt}
			walk(np, depth-1)
		}
		switch p.t.K {
		case KStruct, KUnion:
			for i, f := range p.t.S.Fields {
				if p.t.K == KUnion && !write {
					// reading a member that was not stored last is left to C07/C09
					if i > 0 {
						continue
					}
				}
				ext(step{0, i}, f.T)
			}
		case KArr:
			ext(step{1, 0}, p.t.Elem)
		case KPtr:
			if p.t.IsStr() {
				return
			}
			ext(step{2, 0}, p.t.Elem)
			if p.t.Elem.K == KStruct {
				for i, f := range p.t.Elem.S.Fields {
					ext(step{4, i}, f.T)
				}
			}
			if g.lens[p.d] > 1 && len(p.steps) == 0 {
				ext(step{3, g.lens[p.d]}, p.t.Elem)
			}
		}
	}
	for _, d := range g.visible() {
		if d.Fn != nil {
			if g.spots[d] && !g.noCall {
				// *at(...), what the function points to
				walk(path{d, []step{{2, 0}}, d.T.R[0].Elem}, 0)
			}
			continue
		}
		if g.outer(d) && !g.capturable(d.T) {
			continue
		}
		if g.outer(d) && g.noLam {
			continue
		}
		if write && (d.Const || d.Prot) {
			continue
		}
		walk(path{d, nil, d.T}, 3)
	}
	return out
}

func (g *G) indexE(n, depth int) *Expr {
	if n == 1 || g.S.P(1, 2) || depth <= 0 {
		return IntLit(Ints[g.S.W(8, 1, 1, 2, 1, 1, 1, 1)], uint64(g.S.N(n)))
	}
	t := g.IntType()
	e := g.Expr(t, depth-1)
	switch n {
	case 2, 4:
		return Bin("&", e, IntLit(t, uint64(n-1)))
	}
	e = Bin("&", e, IntLit(t, 15))
	return Bin("%", e, IntLit(t, uint64(n)))
}

func (g *G) access(p path, depth int) *Expr {
	e := g.use(p.d)
	if p.d.Fn != nil {
		e = g.callOf(p.d, depth)
		if g.S.P(1, 2) {
			return Un("*", e)
		}
		return Index(e, Lit(0))
	}
	for _, s := range p.steps {
		switch s.kind {
		case 0, 4:
			e = FieldOf(e, s.i)
		case 1:
			if e.K == EUn && e.Op == "*" {
				// (*p)[i] cannot start a statement
				e = Index(e.A, Lit(0))
			}
			e = Index(e, g.indexE(e.T.N, depth))
		case 2:
			if e.K == EUn && e.Op == "*" || e.K == EVar {
				e = Un("*", e)
			} else {
				e = Index(e, Lit(0))
			}
		case 3:
			e = Index(e, g.indexE(s.i, depth))
		}
	}
	return e
}

// fixPath rewrites *p.f (spelled (*p).f) into p.f so that it can start a statement.
func startsOK(e *Expr) bool {
	for {
		switch e.K {
		case EVar, ECall:
			return true
		case EUn:
			return e.Op == "*"
		case EIndex, EField:
			if e.A.K == EUn {
				return false
			}
			e = e.A
			if e.K == EUn {
				return false
			}
		default:
			return false
		}
	}
}

func (g *G) LvalOf(t *Type, write bool, depth int) *Expr {
	ps := g.paths(t, write)
	if len(ps) == 0 {
		return nil
	}
	e := g.access(ps[g.S.N(len(ps))], depth)
	if write && !startsOK(e) {
		return nil
	}
	return e
}

func (g *G) pickVar(t *Type, write bool) *Decl {
	var c []*Decl
	for _, d := range g.visible() {
		if d.Fn == nil && d.T.Eq(t) && !(write && (d.Const || d.Prot)) && !(g.outer(d) && (!g.capturable(d.T) || g.noLam)) {
			c = append(c, d)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[g.S.N(len(c))]
}

// ---- expressions

func (g *G) callable(t *Type) []*Decl {
	var c []*Decl
	for _, d := range g.visible() {
		if d.T.K != KFunc || len(d.T.R) != 1 || !d.T.R[0].Eq(t) {
			continue
		}
		if g.outer(d) && g.noLam {
			continue
		}
		c = append(c, d)
	}
	return c
}

func (g *G) args(ft *Type, depth int) []*Expr {
	var as []*Expr
	for _, p := range ft.Ps {
		as = append(as, g.Expr(p, depth))
	}
	return as
}

func (g *G) callOf(d *Decl, depth int) *Expr {
	if d.Fn != nil && d.Fn == g.recFn {
		// recursive call with a decreasing first argument
		e := Call(g.use(d), append([]*Expr{Bin("-", V(g.recN), Lit(1))}, g.args(FuncOf(d.T.Ps[1:]), depth-1)...)...)
		return e
	}
	if d.Fn != nil && len(d.Fn.Params) > 0 && d.Fn.Params[0].Prot {
		first := Lit(uint64(g.S.N(4)))
		return Call(g.use(d), append([]*Expr{first}, g.args(FuncOf(d.T.Ps[1:]), depth-1)...)...)
	}
	e := Call(g.use(d), g.args(d.T, depth-1)...)
	if d.Fn != nil && g.O.Method && len(e.Args) > 0 && g.S.P(1, 4) && g.methodOK(e.Args[0]) {
		e.Method = true
	}
	return e
}

func (g *G) methodOK(r *Expr) bool {
	switch r.K {
	case EVar:
		return r.T.K == KInt || r.T.K == KStruct || r.T.K == KFloat || r.T.K == KPtr
	}
	return false
}

// maxNodes bounds the size of a program: beyond it only leaves are generated.
const maxNodes = 1500

// Expr generates an expression of type t.
func (g *G) Expr(t *Type, depth int) (e *Expr) {
	g.nodes++
	if g.nodes > maxNodes {
		depth = 0
	}
	g.S.Span(func() { e = g.expr(t, depth) })
	if g.O.Trace > 0 && !g.noCall && g.fn != nil && (t.IsNum() || t.IsStr()) && g.loopMul <= 20 && g.S.P(g.O.Trace, 20) {
		e = g.trace(e)
	}
	if !e.Paren && g.S.P(1, 25) {
		switch e.K {
		case EVar, EBin, ECall, EIndex, EInt:
			e.Paren = true
		}
	}
	return e
}

// trace wraps e in a call that prints a unique number and returns e.
func (g *G) trace(e *Expr) *Expr {
	if g.tracers == nil {
		g.tracers = map[string]*Func{}
	}
	k := e.T.String()
	f := g.tracers[k]
	if f == nil {
		n := "tr_" + k
		if e.T.IsStr() {
			n = "tr_s"
		}
		f = &Func{Name: n, R: []*Type{e.T}}
		id := &Decl{Name: "id", T: I32, Owner: f}
		v := &Decl{Name: "v", T: e.T, Owner: f}
		f.Params = []*Decl{id, v}
		f.Body = []*Stmt{PrintS(V(id), StrLit("")), {K: SReturn, E: V(v)}}
		f.D = &Decl{Name: n, T: f.Type(), Fn: f, Global: true, Const: true}
		g.tracers[k] = f
	}
	g.tid++
	return Call(V(f.D), Lit(uint64(g.tid)), e)
}

func (g *G) leaf(t *Type) *Expr {
	if g.S.P(3, 4) {
		if e := g.LvalOf(t, false, 0); e != nil {
			return e
		}
	}
	return g.Literal(t)
}

func (g *G) expr(t *Type, depth int) *Expr {
	s := g.S
	switch t.K {
	case KFunc:
		return g.funcValue(t, depth)
	case KPtr:
		if !t.IsStr() {
			return g.ptrValue(t, depth)
		}
	case KUnion:
		return g.unionValue(t, depth)
	}
	if depth <= 0 {
		if t.IsAgg() {
			if d := g.pickVar(t, false); d != nil {
				return g.use(d)
			}
			return g.Compose(t, 0)
		}
		return g.leaf(t)
	}
	// calls, blocks and assignments are common to all types
	if !g.noCall && s.P(g.O.WCallE, 24) {
		if c := g.callable(t); len(c) > 0 {
			if e := g.tryCall(c[s.N(len(c))], depth); e != nil {
				return e
			}
		}
		if g.O.FnVals && g.loopMul <= 60 && s.P(1, 2) {
			ps := g.pathsTo(func(x *Type) bool { return x.K == KFunc && len(x.R) == 1 && x.R[0].Eq(t) }, false)
			k := 0
			for _, p := range ps {
				if len(p.steps) > 0 {
					ps[k] = p
					k++
				}
			}
			if k > 0 {
				p := ps[s.N(k)]
				f := g.access(p, 1)
				return Call(f, g.args(p.t, min(depth, 2)-1)...)
			}
		}
	}
	if g.O.Blocks && !g.noSide && s.P(g.O.WBlockE, 30) && g.O.Nest > 0 {
		return g.blockExpr(t)
	}
	switch t.K {
	case KInt:
		if t.Bits == 1 {
			return g.boolExpr(depth)
		}
		return g.intExpr(t, depth)
	case KFloat:
		return g.floatExpr(t, depth)
	case KPtr:
		return g.strExpr(depth)
	}
	// aggregates
	if s.P(1, 2) {
		if e := g.LvalOf(t, false, depth-1); e != nil {
			return e
		}
	}
	return g.Compose(t, depth-1)
}

func (g *G) tryCall(d *Decl, depth int) *Expr {
	if g.loopMul > 60 {
		return nil
	}
	if d.Fn != nil && d.Fn == g.recFn {
		if g.loops > 0 || !s1(g) {
			return nil
		}
	}
	return g.callOf(d, min(depth, 2))
}

func s1(g *G) bool { return g.S.P(1, 2) }

func (g *G) intExpr(t *Type, depth int) *Expr {
	s := g.S
	sub := func() *Expr { return g.Expr(t, depth-1) }
	switch s.W(6, 10, 2, g.O.WCastE, g.O.WIncE, 1, 1) {
	case 0:
		return g.leaf(t)
	case 1:
		op := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}[s.W(5, 4, 4, 2, 2, 2, 2, 2, 2, 2)]
		a := sub()
		var b *Expr
		switch op {
		case "/", "%":
			b = g.divisor(t, depth)
		case "<<", ">>":
			b = g.shiftAmount(t, depth)
		default:
			b = sub()
		}
		return Bin(op, a, b)
	case 2:
		op := s.Pick("-", "-", "-", "+")
		if op == "+" {
			op = "-"
		}
		return Un(op, sub())
	case 3:
		o := g.castSource(t)
		if o.K == KFloat {
			return Cast(g.boundedFloat(o), t)
		}
		return CastIf(g.Expr(o, depth-1), t)
	case 4:
		if g.noSide {
			return g.leaf(t)
		}
		if l := g.LvalOf(t, true, 0); l != nil {
			return Un(s.Pick("++", "--"), l)
		}
		return g.leaf(t)
	case 5:
		if t.Eq(I32) {
			return &Expr{K: ESizeof, T: I32, Ty: g.ValType(1)}
		}
		return g.leaf(t)
	case 6:
		if e := g.LvalOf(t, false, depth-1); e != nil {
			return e
		}
	}
	return g.leaf(t)
}

func (g *G) divisor(t *Type, depth int) *Expr {
	s := g.S
	if depth > 1 && s.P(1, 3) {
		return Bin("+", Bin("&", g.Expr(t, depth-2), IntLit(t, 7)), IntLit(t, 1))
	}
	u := uint64(s.Range(1, 11))
	if !t.Un && s.P(1, 4) {
		u = -(u + 1)
	}
	return IntLit(t, u)
}

func (g *G) shiftAmount(t *Type, depth int) *Expr {
	if depth > 1 && g.S.P(1, 3) {
		return Bin("&", g.Expr(I32, depth-2), IntLit(I32, uint64(t.Bits-1)))
	}
	return IntLit(I32, uint64(g.S.N(t.Bits)))
}

func (g *G) castSource(t *Type) *Type {
	k := g.S.W(10, b2i(g.O.Floats)*2, b2i(g.O.Bools)*2)
	switch k {
	case 1:
		return Floats[g.S.N(2)]
	case 2:
		return I1
	}
	return g.IntType()
}

// boundedFloat converts to every integer type.
func (g *G) boundedFloat(t *Type) *Expr {
	a := CastIf(FLit([]float64{0, 1.5, 2.75, 3, 12.25, 0.9}[g.S.N(6)]), t)
	if g.S.P(1, 2) {
		return a
	}
	return Bin("+", a, Cast(Bin("&", g.Expr(I32, 0), IntLit(I32, 63)), t))
}

func (g *G) floatExpr(t *Type, depth int) *Expr {
	s := g.S
	switch s.W(6, 6, 1, 3, g.O.WIncE) {
	case 4:
		if !g.noSide {
			if l := g.LvalOf(t, true, 0); l != nil {
				return Un(s.Pick("++", "--"), l)
			}
		}
	case 1:
		op := []string{"+", "-", "*", "/", "%"}[s.W(4, 3, 3, 2, 1)]
		a := g.Expr(t, depth-1)
		if op == "/" || op == "%" {
			f := []float64{2, 4, 0.5, 3, -8, 10}[s.N(6)]
			var l *Expr
			if f < 0 {
				l = Un("-", FLit(-f))
			} else {
				l = FLit(f)
			}
			return Bin(op, a, CastIf(l, t))
		}
		return Bin(op, a, g.Expr(t, depth-1))
	case 2:
		return Un("-", g.Expr(t, depth-1))
	case 3:
		o := g.IntType()
		if s.P(1, 4) {
			o = Floats[s.N(2)]
		}
		return CastIf(g.Expr(o, depth-1), t)
	}
	return g.leaf(t)
}

func (g *G) boolExpr(depth int) *Expr {
	s := g.S
	switch s.W(8, g.O.WLogic*2, g.O.WLogic, 2, b2i(g.O.Strs), b2i(g.O.Floats)) {
	case 0:
		t := g.IntType()
		return Bin(s.Pick("==", "!=", "<", "<=", ">", ">="), g.Expr(t, depth-1), g.Expr(t, depth-1))
	case 1:
		t := g.condType()
		return Bin(s.Pick("&&", "||"), g.Expr(t, depth-1), g.Expr(t, depth-1))
	case 2:
		return Un("!", g.cond(depth-1))
	case 3:
		return g.leaf(I1)
	case 4:
		return Bin(s.Pick("==", "!=", "<", "<=", ">", ">="), g.Expr(Str, depth-1), g.Expr(Str, depth-1))
	case 5:
		t := Floats[s.N(2)]
		return Bin(s.Pick("==", "!=", "<", "<=", ">", ">="), g.Expr(t, depth-1), g.Expr(t, depth-1))
	}
	return g.leaf(I1)
}

// cond is anything usable as a truth value.
func (g *G) cond(depth int) *Expr { return g.Expr(g.condType(), depth) }

func (g *G) condType() *Type {
	switch g.S.W(8, 2, b2i(g.O.Floats)) {
	case 1:
		return g.IntType()
	case 2:
		return Floats[g.S.N(2)]
	}
	return I1
}

func (g *G) strExpr(depth int) *Expr {
	if g.S.P(1, 3) && g.loopMul <= 12 {
		return Bin("+", g.Expr(Str, depth-1), g.Expr(Str, 0))
	}
	return g.leaf(Str)
}

// ptrValue points to storage that outlives the current function's variables.
func (g *G) ptrValue(t *Type, depth int) *Expr {
	if g.S.P(1, 3) {
		if d := g.pickVar(t, false); d != nil && !g.outer(d) {
			return g.use(d)
		}
	}
	ps := g.paths(t.Elem, true)
	var ok []path
	for _, p := range ps {
		if (!g.outer(p.d) || p.d.Global) && p.d.Fn == nil {
			ok = append(ok, p)
		}
	}
	if len(ok) > 0 {
		return Un("&", g.access(ok[g.S.N(len(ok))], 0))
	}
	return Un("&", g.Literal(t.Elem))
}

func (g *G) funcValue(t *Type, depth int) *Expr {
	var c []*Decl
	for _, d := range g.visible() {
		if d.T.Eq(t) && (!g.outer(d) || !g.noLam) {
			if d.Fn != nil && (d.Fn == g.recFn || len(d.Fn.Params) > 0 && d.Fn.Params[0].Prot) {
				continue
			}
			c = append(c, d)
		}
	}
	if len(c) > 0 && g.S.P(2, 3) {
		return g.use(c[g.S.N(len(c))])
	}
	if depth > 0 && g.S.P(1, 2) {
		if e := g.LvalOf(t, false, 1); e != nil {
			return e
		}
	}
	return g.Lambda(t)
}

// Lambda builds an anonymous function of type t.
func (g *G) Lambda(t *Type) *Expr {
	f := &Func{R: t.R}
	svFn, svLoops, svBlk, svRec, svO, svMul := g.fn, g.loops, g.inBlk, g.recFn, g.O, g.loopMul
	g.fn, g.loops, g.inBlk, g.recFn = f, 0, nil, nil
	g.loopMul *= 3
	g.lam = append(g.lam, f)
	g.push()
	for _, p := range t.Ps {
		d := &Decl{Name: g.varName(), T: p, Owner: f}
		for i := range f.Params {
			if f.Params[i].Name == d.Name {
				d.Name = g.freshName()
			}
		}
		f.Params = append(f.Params, d)
	}
	for _, d := range f.Params {
		g.Add(d)
	}
	g.O.Nest = min(g.O.Nest, 1)
	if len(g.lam) > 1 {
		g.O.Lambdas = false
	}
	f.Body = g.stmts(0, 2, 1)
	f.Body = append(f.Body, g.ret(f, 2)...)
	g.pop()
	g.lam = g.lam[:len(g.lam)-1]
	g.fn, g.loops, g.inBlk, g.recFn, g.O, g.loopMul = svFn, svLoops, svBlk, svRec, svO, svMul
	f.T = t
	return &Expr{K: EFunc, T: t, Fn: f}
}

func (g *G) blockExpr(t *Type) *Expr {
	sv, svO, svL := g.inBlk, g.O, g.loops
	g.inBlk = t
	g.loops = 0
	g.O.Nest--
	g.push()
	var b []*Stmt
	b = append(b, g.stmts(0, 2, 1)...)
	if g.S.P(1, 4) {
		b = append(b, &Stmt{K: SIf, Cond: g.cond(1), Body: []*Stmt{{K: SReturn, E: g.Expr(t, 1)}}})
	}
	b = append(b, &Stmt{K: SReturn, E: g.Expr(t, 1)})
	g.pop()
	g.inBlk, g.O, g.loops = sv, svO, svL
	return &Expr{K: EBlock, T: t, Body: b, Paren: true}
}

// ---- statements

func (g *G) declStmt(t *Type, e *Expr) *Stmt {
	if t.K == KUnion && g.S.P(1, 2) {
		// the value of a member, often a literal
		f := t.S.Fields[g.S.N(len(t.S.Fields))].T
		if f.K == KStruct || f.K == KArr {
			e = g.Compose(f, 1)
		} else {
			e = g.Expr(f, 1)
		}
	}
	d := g.NewVar(t)
	typed := g.S.P(1, 3) || t.K == KUnion
	st := DefStmt(d, e, typed)
	g.Add(d)
	return st
}

func (g *G) bodyOf(lo, hi, nest int) []*Stmt {
	g.push()
	b := g.stmts(lo, hi, nest)
	g.pop()
	return b
}

func (g *G) stmts(lo, hi, nest int) []*Stmt {
	var b []*Stmt
	g.S.Rep(lo, hi, func(int) { b = append(b, g.Stmt(nest)...) })
	return b
}

// ret ends a function.
func (g *G) ret(f *Func, depth int) []*Stmt {
	switch len(f.R) {
	case 0:
		if g.S.P(1, 3) {
			return []*Stmt{{K: SReturn}}
		}
		return nil
	}
	mk := func() *Stmt {
		if len(f.R) == 1 {
			return &Stmt{K: SReturn, E: g.Expr(f.R[0], depth)}
		}
		l := &Expr{K: EList, Ts: f.R}
		for _, r := range f.R {
			l.Args = append(l.Args, g.Expr(r, depth-1))
		}
		return &Stmt{K: SReturn, E: l}
	}
	switch g.S.W(6, 2, b2i(g.O.Switch)) {
	case 1:
		return []*Stmt{{K: SIf, Cond: g.cond(1), Body: []*Stmt{mk()}, HasEl: true, Else: []*Stmt{mk()}, Bare: g.bare()}}
	case 2:
		t := g.IntType()
		return []*Stmt{{K: SSwitch, Cond: Bin("&", g.Expr(t, 1), IntLit(t, 1)), Cases: []Case{{CastIf(Lit(0), t), []*Stmt{mk()}}}, HasEl: true, Else: []*Stmt{mk()}}}
	}
	return []*Stmt{mk()}
}

func (g *G) bare() bool { return g.O.Bare && g.S.P(1, 4) }

func (g *G) printable(t *Type) bool { return t.IsNum() || t.IsStr() }

// Stmt generates one statement (sometimes with a helper declaration before it).
func (g *G) Stmt(nest int) []*Stmt {
	s, o := g.S, &g.O
	if g.nodes > maxNodes {
		return g.genPrint()
	}
	canNest := b2i(nest > 0)
	jump := b2i(g.inBlk == nil)
	k := s.W(o.WDecl, o.WAssign, o.WPrint, o.WIf*canNest, o.WFor*canNest*b2i(o.Loops && g.loopMul < 40), o.WSwitch*canNest*b2i(o.Switch),
		o.WBlock*canNest, o.WCall, o.WMulti*b2i(o.Multi), o.WJump*jump*canNest, o.WInc, o.WLambda*b2i(o.Lambdas && len(g.lam) < 2), o.WHeap*b2i(o.Heap && g.loopMul < 10))
	switch k {
	case 0:
		return g.genDecl()
	case 1:
		return g.genAssign()
	case 3:
		st := &Stmt{K: SIf, Cond: g.cond(o.Depth - 1), Bare: g.bare()}
		st.Body = g.bodyOf(1, 3, nest-1)
		ne := s.W(6, 2, 1)
		for i := 0; i < ne; i++ {
			st.Elifs = append(st.Elifs, Elif{g.cond(o.Depth - 1), g.bodyOf(1, 2, nest-1)})
		}
		if s.P(1, 2) {
			st.HasEl = true
			st.Else = g.bodyOf(1, 2, nest-1)
		}
		return []*Stmt{st}
	case 4:
		return g.genFor(nest)
	case 5:
		return g.genSwitch(nest)
	case 6:
		return []*Stmt{{K: SBlock, Body: g.bodyOf(1, 3, nest-1)}}
	case 7:
		return g.genCall()
	case 8:
		return g.genMulti()
	case 9:
		return g.genJump()
	case 10:
		t := g.IntType()
		if g.O.Floats && s.P(1, 4) {
			t = Floats[s.N(2)]
		}
		if l := g.LvalOf(t, true, 0); l != nil {
			return []*Stmt{ExprS(Un(s.Pick("++", "--"), l))}
		}
		return g.genPrint()
	case 11:
		t := g.fnType()
		e := g.Lambda(t)
		st := g.declStmt(t, e)
		return []*Stmt{st}
	case 12:
		return g.genHeap()
	}
	return g.genPrint()
}

func (g *G) fnType() *Type {
	n := g.S.N(3)
	var ps []*Type
	for i := 0; i < n; i++ {
		ps = append(ps, g.ValType(0))
	}
	return FuncOf(ps, g.ValType(0))
}

func (g *G) genDecl() []*Stmt {
	s, o := g.S, g.O
	if o.Ptrs && s.P(1, 5) {
		t := PtrTo(g.ValType(1))
		if t.Elem.K == KUnion || t.IsStr() {
			t = PtrTo(I32)
		}
		e := g.ptrValue(t, 1)
		d := g.NewVar(t)
		g.lens[d] = 1
		st := DefStmt(d, e, s.P(1, 3))
		g.Add(d)
		return []*Stmt{st}
	}
	if o.Consts && s.P(1, 8) {
		t := g.IntType()
		d := g.NewVar(t)
		d.Const = true
		st := DefStmt(d, g.ConstE(t, 2), s.P(1, 3))
		g.Add(d)
		return []*Stmt{st}
	}
	t := g.ValType(2)
	if o.FnVals && o.Lambdas && o.Arrays && s.P(1, 25) {
		t = ArrOf(s.Range(1, 3), g.fnType())
	}
	e := g.Expr(t, o.Depth)
	return []*Stmt{g.declStmt(t, e)}
}

// ConstE builds a constant expression of literals and arithmetic.
func (g *G) ConstE(t *Type, depth int) *Expr {
	if depth == 0 || g.S.P(1, 3) {
		if t.K == KInt {
			return ConstLit(t, g.intBits(t))
		}
		return g.Literal(t)
	}
	if t.K == KFloat {
		return Bin(g.S.Pick("+", "-", "*"), g.ConstE(t, depth-1), g.ConstE(t, depth-1))
	}
	op := []string{"+", "-", "*", "/", "%", "&", "|", "^"}[g.S.W(3, 3, 3, 2, 2, 2, 2, 2)]
	a := g.ConstE(t, depth-1)
	if op == "/" || op == "%" {
		return Bin(op, a, IntLit(t, uint64(g.S.Range(1, 9))))
	}
	return Bin(op, a, g.ConstE(t, depth-1))
}

// ConstLit spells an integer constant without a prefix operator.
func ConstLit(t *Type, u uint64) *Expr {
	u = trunc(u, t)
	if t.Bits == 1 {
		return Cast(Lit(u), I1)
	}
	if t.Un || sext(u, t) >= 0 {
		return CastIf(Lit(u), t)
	}
	m := -uint64(sext(u, t))
	if m > 1<<31-1 {
		return CastIf(Bin("-", CastIf(Lit(0), Lit(m).T), Lit(m)), t)
	}
	return CastIf(Bin("-", Lit(0), Lit(m)), t)
}

func (g *G) genAssign() []*Stmt {
	for i := 0; i < 4; i++ {
		t := g.ValType(g.S.N(2))
		if i == 0 {
			// prefer the type of something visible
			var c []*Decl
			for _, d := range g.visible() {
				if d.Fn == nil && !d.Const && !d.Prot && !(g.outer(d) && !g.capturable(d.T)) {
					c = append(c, d)
				}
			}
			if len(c) > 0 {
				t = c[g.S.N(len(c))].T
				for t.IsAgg() && g.S.P(2, 3) {
					if t.K == KArr {
						t = t.Elem
					} else {
						t = t.S.Fields[g.S.N(len(t.S.Fields))].T
					}
				}
			}
		}
		if t.K == KFunc || t.K == KUnion {
			continue
		}
		if t.K == KPtr && !t.IsStr() {
			d := g.pickVar(t, true)
			if d == nil || g.outer(d) || g.lens[d] > 1 {
				continue
			}
			return []*Stmt{Assign(V(d), g.ptrValue(t, 1))}
		}
		if l := g.LvalOf(t, true, 1); l != nil {
			return []*Stmt{Assign(l, g.Expr(t, g.O.Depth))}
		}
	}
	return g.genPrint()
}

func (g *G) genPrint() []*Stmt {
	n := g.S.Range(1, 3)
	st := &Stmt{K: SPrint}
	for i := 0; i < n; i++ {
		st.Args = append(st.Args, g.Expr(g.Scalar(), g.O.Depth))
	}
	return []*Stmt{st, NL()}
}

// NL prints a line break.
func NL() *Stmt { return PrintS(StrLit("\n")) }

func (g *G) genFor(nest int) []*Stmt {
	s := g.S
	n := s.Range(1, 5)
	if s.P(1, 12) {
		n = 0
	}
	ct := Ints[s.W(10, 1, 1, 3, 1, 1, 1, 1)]
	c := &Decl{Name: g.varName(), T: ct, Owner: g.fn, Prot: true}
	mul := g.loopMul
	defer func() { g.loopMul = mul }()
	lit := func(k int) *Expr { return IntLit(ct, uint64(k)) }
	svBlk := g.inBlk
	svRec := g.recFn
	g.recFn = nil
	defer func() { g.inBlk, g.recFn = svBlk, svRec }()
	switch s.W(6, 2, 2) {
	case 0:
		g.push()
		st := &Stmt{K: SFor}
		up := s.P(3, 4)
		if up {
			st.Init = DefStmt(c, lit(0), s.P(1, 3))
			g.Add(c)
			st.Cond = Bin(s.Pick("<", "!="), V(c), lit(n))
			switch s.N(3) {
			case 0:
				st.Post = Assign(V(c), Bin("+", V(c), lit(1)))
			case 1:
				st.Post = ExprS(Un("++", V(c)))
			case 2:
				st.Post = Assign(V(c), Bin("-", V(c), IntLit(ct, ^uint64(0))))
				if ct.Un {
					st.Post = ExprS(Un("++", V(c)))
				}
			}
		} else {
			st.Init = DefStmt(c, lit(n), s.P(1, 3))
			g.Add(c)
			st.Cond = Bin(s.Pick(">", "!="), V(c), lit(0))
			if s.Bool() {
				st.Post = ExprS(Un("--", V(c)))
			} else {
				st.Post = Assign(V(c), Bin("-", V(c), lit(1)))
			}
		}
		if s.P(1, 4) {
			st.Cond = Bin("&&", st.Cond, g.pure(func() *Expr { return g.Expr(I1, 1) }))
		}
		g.loops++
		g.loopMul *= max(n, 1)
		st.Body = g.bodyOf(1, 3, nest-1)
		g.loops--
		g.pop()
		return []*Stmt{st}
	case 1:
		// for cond { i = i + 1; … }
		decl := DefStmt(c, lit(0), false)
		g.Add(c)
		st := &Stmt{K: SFor, Cond: Bin("<", V(c), lit(n))}
		g.loops++
		g.loopMul *= max(n, 1)
		g.push()
		st.Body = append(st.Body, Assign(V(c), Bin("+", V(c), lit(1))))
		st.Body = append(st.Body, g.stmts(1, 3, nest-1)...)
		g.pop()
		g.loops--
		return []*Stmt{decl, st}
	}
	decl := DefStmt(c, lit(0), false)
	g.Add(c)
	st := &Stmt{K: SFor}
	g.loops++
	g.loopMul *= max(n, 1)
	g.push()
	st.Body = append(st.Body, &Stmt{K: SIf, Cond: Bin(">=", V(c), lit(n)), Body: []*Stmt{{K: SBreak}}, Bare: g.bare()}, ExprS(Un("++", V(c))))
	st.Body = append(st.Body, g.stmts(1, 3, nest-1)...)
	g.pop()
	g.loops--
	return []*Stmt{decl, st}
}

// pure generates without side effects.
func (g *G) pure(f func() *Expr) *Expr {
	a, b := g.noSide, g.noCall
	g.noSide, g.noCall = true, true
	e := f()
	g.noSide, g.noCall = a, b
	return e
}

func (g *G) genSwitch(nest int) []*Stmt {
	s := g.S
	t := g.IntType()
	var c *Expr
	m := 8
	if s.P(2, 3) {
		m = []int{2, 4, 8}[s.N(3)]
		c = Bin("&", g.Expr(t, g.O.Depth-1), IntLit(t, uint64(m-1)))
	} else {
		c = g.Expr(t, g.O.Depth-1)
	}
	st := &Stmt{K: SSwitch, Cond: c, Bare: g.bare()}
	n := s.N(4)
	p := s.Perm(8)
	for i := 0; i < n; i++ {
		v := uint64(p[i])
		l := CastIf(Lit(v), t)
		if t.Eq(I32) && s.P(1, 6) {
			l.Form = 1
		}
		st.Cases = append(st.Cases, Case{l, g.bodyOf(1, 2, nest-1)})
	}
	if s.P(2, 3) || n == 0 {
		st.HasEl = true
		st.Else = g.bodyOf(1, 2, nest-1)
	}
	return []*Stmt{st}
}

func (g *G) genCall() []*Stmt {
	var c []*Decl
	for _, d := range g.visible() {
		if d.T.K == KFunc && !(g.outer(d) && g.noLam) {
			c = append(c, d)
		}
	}
	if len(c) == 0 || g.loopMul > 60 {
		return g.genPrint()
	}
	d := c[g.S.N(len(c))]
	if d.Fn != nil && d.Fn == g.recFn && (g.loops > 0 || g.S.P(1, 2)) {
		return g.genPrint()
	}
	if len(d.T.R) > 1 {
		// multiple results
		e := g.callOf(d, 2)
		st := &Stmt{K: SMulti, E: e}
		seen := map[string]bool{}
		for _, r := range d.T.R {
			v := g.NewVar(r)
			for seen[v.Name] {
				v.Name = g.freshName()
			}
			seen[v.Name] = true
			st.Ds = append(st.Ds, v)
		}
		for _, v := range st.Ds {
			g.Add(v)
		}
		return []*Stmt{st}
	}
	e := g.callOf(d, 2)
	if e.Method && !startsOK(e.Args[0]) {
		e.Method = false
	}
	return []*Stmt{ExprS(e)}
}

func (g *G) genMulti() []*Stmt {
	n := g.S.Range(2, 3)
	if g.S.P(1, 2) {
		// swap-like assignment
		t := g.Scalar()
		var ls []*Expr
		for i := 0; i < n; i++ {
			l := g.LvalOf(t, true, 0)
			if l == nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == n {
			r := &Expr{K: EList}
			for i := 0; i < n; i++ {
				r.Args = append(r.Args, g.Expr(t, 2))
			}
			return []*Stmt{{K: SAssign, L: &Expr{K: EList, Args: ls}, E: r}}
		}
	}
	st := &Stmt{K: SMulti, E: &Expr{K: EList}}
	seen := map[string]bool{}
	st.Typed = g.S.P(1, 4) // then all have the same type
	for i := 0; i < n; i++ {
		v := g.NewVar(g.ValType(1))
		if v.T.K == KUnion {
			v.T = I32
		}
		if st.Typed && i > 0 {
			v.T = st.Ds[0].T
		}
		for seen[v.Name] {
			v.Name = g.freshName()
		}
		seen[v.Name] = true
		st.Ds = append(st.Ds, v)
		st.E.Args = append(st.E.Args, g.Expr(v.T, 2))
	}
	for _, v := range st.Ds {
		g.Add(v)
	}
	return []*Stmt{st}
}

func (g *G) genJump() []*Stmt {
	var j *Stmt
	switch {
	case g.loops > 0 && g.S.P(2, 3):
		if g.S.Bool() {
			j = &Stmt{K: SBreak}
		} else {
			j = &Stmt{K: SContinue}
		}
	default:
		if g.fn == nil || g.inBlk != nil {
			return g.genPrint()
		}
		if g.fn.Name == "main" {
			if g.loopMul > 1 && g.S.P(2, 3) {
				return g.genPrint()
			}
			j = &Stmt{K: SReturn}
			break
		}
		switch len(g.fn.R) {
		case 0:
			j = &Stmt{K: SReturn}
		case 1:
			j = &Stmt{K: SReturn, E: g.Expr(g.fn.R[0], 1)}
		default:
			l := &Expr{K: EList, Ts: g.fn.R}
			for _, r := range g.fn.R {
				l.Args = append(l.Args, g.Expr(r, 1))
			}
			j = &Stmt{K: SReturn, E: l}
		}
	}
	return []*Stmt{{K: SIf, Cond: g.cond(2), Body: []*Stmt{j}, Bare: g.bare()}}
}

// genHeap allocates an array, fills it, and may resize or free it later in the same scope.
func (g *G) genHeap() []*Stmt {
	s := g.S
	t := g.ValType(1)
	if t.K == KUnion || t.Eq(I8) {
		t = I64
	}
	n := s.Range(1, 4)
	d := g.NewVar(PtrTo(t))
	d.Prot = true
	nt := I32
	if s.P(1, 3) {
		nt = g.IntType()
	}
	out := []*Stmt{DefStmt(d, &Expr{K: EAlloc, T: d.T, Ty: t, A: IntLit(nt, uint64(n))}, s.P(1, 4))}
	g.Add(d)
	for i := 0; i < n; i++ {
		out = append(out, Assign(Index(V(d), IntLit(I32, uint64(i))), g.Expr(t, 1)))
	}
	g.lens[d] = n
	if s.P(1, 2) {
		m := s.Range(1, 5)
		out = append(out, Assign(V(d), &Expr{K: ERealloc, T: d.T, A: V(d), B: IntLit(I32, uint64(m))}))
		g.lens[d] = min(n, m)
		for i := n; i < m; i++ {
			out = append(out, Assign(Index(V(d), IntLit(I32, uint64(i))), g.Expr(t, 1)))
		}
		g.lens[d] = m
	}
	out = append(out, g.stmts(0, 2, 0)...)
	if s.P(1, 2) {
		vis := false
		for _, v := range g.visible() {
			vis = vis || v == d
		}
		if vis {
			out = append(out, &Stmt{K: SFree, E: V(d)})
			d.NoRead = true
		}
	}
	return out
}

// ---- functions and programs

func (g *G) GenFunc(name string) *Func {
	s := g.S
	f := &Func{Name: name}
	n := s.N(4)
	rec := g.O.Recur && s.P(1, 4)
	if rec {
		f.Params = append(f.Params, &Decl{Name: "n", T: I32, Owner: f, Prot: true})
	}
	seen := map[string]bool{"n": true}
	for i := 0; i < n; i++ {
		t := g.ValType(1)
		if g.O.Ptrs && s.P(1, 5) {
			t = PtrTo(g.ValType(1))
			if t.IsStr() || t.Elem.K == KUnion {
				t = PtrTo(I64)
			}
		} else if g.O.FnVals && s.P(1, 8) {
			t = g.fnType()
		}
		d := &Decl{Name: g.varName(), T: t, Owner: f}
		for seen[d.Name] {
			d.Name = g.freshName()
		}
		seen[d.Name] = true
		f.Params = append(f.Params, d)
	}
	switch s.W(2, 8, b2i(g.O.MultiRet)*2) {
	case 1:
		f.R = []*Type{g.ValType(1)}
	case 2:
		f.R = []*Type{g.ValType(0), g.ValType(0)}
		if s.P(1, 3) {
			f.R = append(f.R, g.Scalar())
		}
	}
	for i, r := range f.R {
		if r.K == KUnion {
			f.R[i] = I32
		}
	}
	f.D = &Decl{Name: name, T: f.Type(), Fn: f, Global: true, Const: true}
	sv := g.sc
	svFn := g.fn
	g.fn = f
	svMul := g.loopMul
	g.loopMul = 4
	g.push()
	for _, p := range f.Params {
		g.Add(p)
	}
	if rec {
		g.recFn, g.recN = f, f.Params[0]
		stop := append([]*Stmt{}, g.retSimple(f)...)
		f.Body = append(f.Body, &Stmt{K: SIf, Cond: Bin("<=", V(f.Params[0]), Lit(0)), Body: stop, Bare: false})
		// visible to its own body
		g.Add(f.D)
	}
	f.Body = append(f.Body, g.stmts(0, g.O.FnStmts, min(2, g.O.Nest))...)
	// the redeclaration of n would hide the protected counter
	f.Body = append(f.Body, g.ret(f, 2)...)
	g.recFn, g.recN = nil, nil
	g.sc = sv
	g.fn = svFn
	g.loopMul = svMul
	return f
}

func (g *G) retSimple(f *Func) []*Stmt {
	switch len(f.R) {
	case 0:
		return []*Stmt{{K: SReturn}}
	case 1:
		return []*Stmt{{K: SReturn, E: g.Expr(f.R[0], 0)}}
	}
	l := &Expr{K: EList, Ts: f.R}
	for _, r := range f.R {
		l.Args = append(l.Args, g.Expr(r, 0))
	}
	return []*Stmt{{K: SReturn, E: l}}
}

// GenProg generates a whole program. Every global is printed at the end of main.
func (g *G) GenProg() *Prog {
	s := g.S
	g.push()
	g.GenStructs()
	var sitems, gitems, fitems []Item
	for _, d := range g.Structs {
		sitems = append(sitems, Item{Struct: d})
	}
	var globals []*Decl
	s.Rep(0, g.O.Globals, func(int) {
		t := g.Scalar()
		d := &Decl{Name: g.varName(), T: t, Global: true}
		for g.shadowed(d.Name) {
			d.Name = g.freshName()
		}
		var e *Expr
		if g.O.Consts && t.IsNum() && t.Bits > 1 && s.P(1, 3) {
			d.Const = s.P(1, 2)
			e = g.ConstE(t, 2)
		} else {
			e = g.GlobalInit(t)
		}
		st := DefStmt(d, e, s.P(1, 3))
		gitems = append(gitems, Item{Global: st})
		g.Add(d)
		globals = append(globals, d)
	})
	if g.O.FnVals && g.O.Globals > 0 && s.P(1, 4) {
		// a global variable that holds a function
		f := &Func{R: []*Type{g.ValType(0)}, Name: "gf"}
		f.Params = []*Decl{{Name: "p", T: g.ValType(0), Owner: f}}
		g.Enter(f, func() {
			g.Add(f.Params[0])
			f.Body = []*Stmt{{K: SReturn, E: g.Literal(f.R[0])}}
		})
		f.D = &Decl{Name: f.Name, T: f.Type(), Fn: f, Global: true, Const: true}
		d := &Decl{Name: g.freshName(), T: f.Type(), Global: true}
		gitems = append(gitems, Item{Global: DefStmt(d, V(f.D), s.P(1, 2))})
		g.Add(d)
		g.Add(f.D)
		g.Funcs = append(g.Funcs, f)
		fitems = append(fitems, Item{Fn: f})
	}
	if at := g.genSpot(globals); at != nil {
		fitems = append(fitems, Item{Fn: at})
	}
	s.Rep(0, g.O.Funcs, func(i int) {
		f := g.GenFunc(fmt.Sprintf("%s%d", s.Pick("f", "fun", "compute"), i))
		g.Funcs = append(g.Funcs, f)
		g.Add(f.D)
		fitems = append(fitems, Item{Fn: f})
	})
	m := &Func{Name: "main"}
	g.fn = m
	g.push()
	m.Body = append(m.Body, g.stmts(min(2, g.O.Stmts), g.O.Stmts, g.O.Nest)...)
	// final state
	if !g.O.NoDump {
		n := 0
		for _, v := range g.visible() {
			if v.Fn != nil || v.T.K == KPtr && !v.T.IsStr() {
				continue
			}
			ds := g.dump(V(v))
			n += len(ds)
			m.Body = append(m.Body, ds...)
			if n > 60 {
				break
			}
		}
	}
	_ = globals
	g.pop()
	m.D = &Decl{Name: "main", T: m.Type(), Fn: m, Global: true}
	fitems = append(fitems, Item{Fn: m})
	var tk []string
	for k := range g.tracers {
		tk = append(tk, k)
	}
	sort.Strings(tk)
	for _, k := range tk {
		fitems = append(fitems, Item{Fn: g.tracers[k]})
	}
	p := s.Perm(len(fitems))
	for _, it := range sitems {
		g.Prog.Items = append(g.Prog.Items, it)
	}
	g.Prog.Items = append(g.Prog.Items, gitems...)
	for _, i := range p {
		g.Prog.Items = append(g.Prog.Items, fitems[i])
	}
	g.Prog.Main = m
	return g.Prog
}

// genSpot makes a function that returns a pointer to a global variable.
func (g *G) genSpot(globals []*Decl) *Func {
	if !g.O.Ptrs || !g.S.P(1, 2) {
		return nil
	}
	var c []*Decl
	for _, d := range globals {
		if !d.Const {
			c = append(c, d)
		}
	}
	if len(c) == 0 {
		return nil
	}
	to := c[g.S.N(len(c))]
	f := &Func{Name: "spot", R: []*Type{PtrTo(to.T)}}
	f.Params = []*Decl{{Name: "i", T: g.IntType(), Owner: f}}
	if to.Name == "i" {
		f.Params[0].Name = "at"
	}
	f.Body = []*Stmt{PrintS(StrLit("spot"), V(f.Params[0])), {K: SReturn, E: Un("&", V(to))}}
	f.D = &Decl{Name: f.Name, T: f.Type(), Fn: f, Global: true, Const: true}
	if g.spots == nil {
		g.spots = map[*Decl]bool{}
	}
	g.spots[f.D] = true
	g.Funcs = append(g.Funcs, f)
	g.Add(f.D)
	return f
}

// GlobalInit is a constant initialiser.
func (g *G) GlobalInit(t *Type) *Expr {
	if t.K == KInt {
		return ConstLit(t, g.intBits(t))
	}
	return g.Literal(t)
}

// Enter generates inside function f, in a scope below the globals.
func (g *G) Enter(f *Func, gen func()) {
	sv := g.fn
	g.fn = f
	g.push()
	gen()
	g.pop()
	g.fn = sv
}

// dump prints every scalar part of e, one line per variable.
func (g *G) dump(e *Expr) []*Stmt {
	var out []*Stmt
	st := &Stmt{K: SPrint}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		switch e.T.K {
		case KArr:
			for i := 0; i < e.T.N; i++ {
				walk(Index(e, Lit(uint64(i))))
			}
			return
		case KStruct:
			for i := range e.T.S.Fields {
				walk(FieldOf(e, i))
			}
			return
		}
		if g.printable(e.T) && len(st.Args) < 24 {
			st.Args = append(st.Args, e)
		}
	}
	walk(e)
	if len(st.Args) > 0 {
		out = append(out, st, NL())
	}
	return out
}
