package main

import (
	"fmt"
	"path"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C16: programs of several files. Every file is generated once over abstract
// types (its type parameters are opaque); the model runs the flattened program
// in which each distinct instance of a file has its own functions and globals.

type modT = lang.Type

type module struct {
	path    string
	params  []*modT
	imports []*modImport
	structs []*lang.StructDef
	globals []*lang.Stmt
	funcs   []*lang.Func
	self    *modInst
	used    bool
}

type modImport struct {
	alias string
	spell string
	targs []*modT
	inst  *modInst
}

// modInst is a module applied to types (concrete, or abstract in the importer).
type modInst struct {
	m       *module
	targs   []*modT
	structs []*lang.StructDef
	funcs   []*lang.Decl
	globals []*lang.Decl
	done    bool // bodies were emitted
}

type modRef struct {
	inst *modInst
	idx  int
}

type modWorld struct {
	s       *gen.Src
	mods    []*module
	insts   map[string]*modInst
	structs map[*lang.StructDef]modRef
	decls   map[*lang.Decl]modRef
	ids     map[*lang.StructDef]int
	names   int
	shared  int
	generic int
}

// key names a type uniquely, whatever its spelling.
func (w *modWorld) key(t *modT) string {
	switch t.K {
	case lang.KPtr:
		return "*" + w.key(t.Elem)
	case lang.KArr:
		return fmt.Sprintf("[%d]%s", t.N, w.key(t.Elem))
	case lang.KFunc:
		r := "f("
		for _, p := range t.Ps {
			r += w.key(p) + ","
		}
		r += ")"
		for _, p := range t.R {
			r += w.key(p)
		}
		return r
	case lang.KStruct, lang.KUnion:
		if w.ids[t.S] == 0 {
			w.ids[t.S] = len(w.ids) + 1
		}
		return fmt.Sprintf("S%d", w.ids[t.S])
	}
	return t.String()
}

type modEnv map[*lang.StructDef]*modT // type parameters

func envOf(m *module, targs []*modT) modEnv {
	e := modEnv{}
	for i, p := range m.params {
		e[p.S] = targs[i]
	}
	return e
}

// subst replaces type parameters, and the structs that depend on them.
func (w *modWorld) subst(t *modT, e modEnv) *modT {
	switch t.K {
	case lang.KPtr:
		if x := w.subst(t.Elem, e); x != t.Elem {
			return lang.PtrTo(x)
		}
	case lang.KArr:
		if x := w.subst(t.Elem, e); x != t.Elem {
			return lang.ArrOf(t.N, x)
		}
	case lang.KFunc:
		return lang.FuncOf(w.substs(t.Ps, e), w.substs(t.R, e)...)
	case lang.KStruct, lang.KUnion:
		if x, ok := e[t.S]; ok {
			return x
		}
		if r, ok := w.structs[t.S]; ok {
			return w.inst(r.inst.m, w.substs(r.inst.targs, e)).structs[r.idx].T
		}
	}
	return t
}

func (w *modWorld) substs(ts []*modT, e modEnv) []*modT {
	var r []*modT
	for _, t := range ts {
		r = append(r, w.subst(t, e))
	}
	return r
}

func (w *modWorld) inst(m *module, targs []*modT) *modInst {
	k := m.path
	for _, t := range targs {
		k += "|" + w.key(t)
	}
	if i := w.insts[k]; i != nil {
		return i
	}
	i := &modInst{m: m, targs: targs}
	w.insts[k] = i
	if m.self == nil { // the module itself, being generated
		m.self = i
		return i
	}
	e := envOf(m, targs)
	for n, sd := range m.structs {
		d := lang.NewStruct(sd.Name, sd.Union, nil)
		i.structs = append(i.structs, d)
		w.structs[d] = modRef{i, n}
	}
	for n, sd := range m.structs {
		for _, f := range sd.Fields {
			i.structs[n].Fields = append(i.structs[n].Fields, lang.Field{Name: f.Name, T: w.subst(f.T, e)})
		}
	}
	for n, g := range m.globals {
		d := &lang.Decl{Name: g.D.Name, T: w.subst(g.D.T, e), Const: g.D.Const, Global: true}
		i.globals = append(i.globals, d)
		w.decls[d] = modRef{i, n}
	}
	for n, f := range m.funcs {
		d := &lang.Decl{Name: f.Name, T: w.subst(f.Type(), e), Global: true, Const: true}
		i.funcs = append(i.funcs, d)
		w.decls[d] = modRef{i, n}
	}
	return i
}

// ---- flattening

type flat struct {
	w    *modWorld
	e    modEnv
	vars map[*lang.Decl]*lang.Decl
	prog *lang.Prog
}

func (w *modWorld) emit(i *modInst, p *lang.Prog) {
	if i.done {
		return
	}
	i.done = true
	f := &flat{w: w, e: envOf(i.m, i.targs), vars: map[*lang.Decl]*lang.Decl{}, prog: p}
	for _, im := range i.m.imports {
		w.emit(w.inst(im.inst.m, w.substs(im.inst.targs, f.e)), p)
	}
	for n, g := range i.m.globals {
		p.Items = append(p.Items, lang.Item{Global: &lang.Stmt{K: lang.SDecl, D: i.globals[n], E: f.expr(g.E)}})
	}
	for n, fn := range i.m.funcs {
		d := i.funcs[n]
		d.Fn = f.fn(fn)
		p.Items = append(p.Items, lang.Item{Fn: d.Fn})
	}
}

func (f *flat) fn(x *lang.Func) *lang.Func {
	r := &lang.Func{Name: x.Name, R: f.w.substs(x.R, f.e)}
	for _, p := range x.Params {
		r.Params = append(r.Params, f.local(p))
	}
	r.Body = f.stmts(x.Body)
	return r
}

func (f *flat) local(d *lang.Decl) *lang.Decl {
	if d == nil {
		return nil
	}
	if r, ok := f.w.decls[d]; ok {
		i := f.w.inst(r.inst.m, f.w.substs(r.inst.targs, f.e))
		if d.T.K == lang.KFunc && d.Const {
			return i.funcs[r.idx]
		}
		return i.globals[r.idx]
	}
	if n := f.vars[d]; n != nil {
		return n
	}
	n := &lang.Decl{Name: d.Name, T: f.w.subst(d.T, f.e), Const: d.Const}
	f.vars[d] = n
	return n
}

func (f *flat) exprs(es []*lang.Expr) []*lang.Expr {
	var r []*lang.Expr
	for _, e := range es {
		r = append(r, f.expr(e))
	}
	return r
}

func (f *flat) expr(e *lang.Expr) *lang.Expr {
	if e == nil {
		return nil
	}
	n := *e
	if e.T != nil {
		n.T = f.w.subst(e.T, f.e)
	}
	n.Ts = f.w.substs(e.Ts, f.e)
	n.A, n.B, n.Args, n.D = f.expr(e.A), f.expr(e.B), f.exprs(e.Args), f.local(e.D)
	if e.Ty != nil {
		n.Ty = f.w.subst(e.Ty, f.e)
	}
	if e.Fn != nil {
		n.Fn = f.fn(e.Fn)
	}
	n.Body = f.stmts(e.Body)
	return &n
}

func (f *flat) stmts(ss []*lang.Stmt) []*lang.Stmt {
	var r []*lang.Stmt
	for _, s := range ss {
		n := *s
		n.E, n.L, n.Cond, n.Args, n.D = f.expr(s.E), f.expr(s.L), f.expr(s.Cond), f.exprs(s.Args), f.local(s.D)
		n.Body, n.Else = f.stmts(s.Body), f.stmts(s.Else)
		r = append(r, &n)
	}
	return r
}

// ---- generation

type modGen struct {
	w     *modWorld
	s     *gen.Src
	m     *module
	vars  []*lang.Decl
	main  bool
	limit int // number of own functions that may be called
	depth int
}

// nameable tells whether the file can spell t.
func (g *modGen) nameable(t *modT) bool {
	switch t.K {
	case lang.KPtr, lang.KArr:
		return g.nameable(t.Elem)
	case lang.KFunc:
		for _, p := range t.Ps {
			if !g.nameable(p) {
				return false
			}
		}
		for _, p := range t.R {
			if !g.nameable(p) {
				return false
			}
		}
	case lang.KStruct, lang.KUnion:
		for _, p := range g.m.params {
			if p.S == t.S {
				return true
			}
		}
		r, ok := g.w.structs[t.S]
		if !ok {
			return false
		}
		if r.inst == g.m.self {
			return true
		}
		for _, im := range g.m.imports {
			if im.inst == r.inst {
				return true
			}
		}
		return false
	}
	return true
}

func (g *modGen) pick(ts []*modT) *modT { return ts[g.s.N(len(ts))] }

// types the file can spell; d bounds the nesting.
func (g *modGen) typ(d int) *modT {
	s := g.s
	switch s.W(6, 4, 4, 4, 2, 2, 2) {
	case 0:
		return []*modT{lang.I32, lang.I32, lang.I64, lang.I8, lang.U16, lang.Str, lang.F64}[s.N(7)]
	case 1:
		if len(g.m.params) > 0 {
			return g.pick(g.m.params)
		}
	case 2:
		if n := len(g.m.structs); n > 0 {
			return g.m.structs[s.N(n)].T
		}
	case 3:
		if n := len(g.m.imports); n > 0 {
			ss := g.m.imports[s.N(n)].inst.structs
			if len(ss) > 0 {
				return ss[s.N(len(ss))].T
			}
		}
	case 4:
		if d > 0 {
			return lang.ArrOf(1+s.N(3), g.typ(d-1))
		}
	case 5:
		if d > 0 {
			return lang.PtrTo(g.typ(d - 1))
		}
	case 6:
		if d > 0 {
			return lang.FuncOf([]*modT{g.typ(d - 1)}, g.typ(d-1))
		}
	}
	return lang.I32
}

func (g *modGen) opaque(t *modT) bool {
	for _, p := range g.m.params {
		if p == t || p.Eq(t) {
			return true
		}
	}
	return false
}

// hasPtr tells whether values of t may hold addresses of variables.
func hasPtr(w *modWorld, t *modT) bool {
	switch t.K {
	case lang.KPtr:
		return !t.IsStr()
	case lang.KFunc:
		return false
	case lang.KArr:
		return hasPtr(w, t.Elem)
	case lang.KStruct:
		if _, ok := w.structs[t.S]; !ok {
			return true // type parameter
		}
		for _, f := range t.S.Fields {
			if hasPtr(w, f.T) {
				return true
			}
		}
	}
	return false
}

// places collects the readable places of type t below the variables.
func (g *modGen) places(t *modT, write bool) []*lang.Expr {
	var r []*lang.Expr
	var walk func(e *lang.Expr, d int)
	walk = func(e *lang.Expr, d int) {
		if e.T.Eq(t) {
			r = append(r, e)
		}
		if d <= 0 {
			return
		}
		switch e.T.K {
		case lang.KStruct:
			if g.opaque(e.T) {
				return
			}
			for i := range e.T.S.Fields {
				walk(lang.FieldOf(e, i), d-1)
			}
		case lang.KArr:
			walk(lang.Index(e, lang.Lit(uint64(g.s.N(e.T.N)))), d-1)
		case lang.KPtr:
			if e.T.IsStr() {
				return
			}
			walk(lang.Un("*", e), d-1)
			if el := e.T.Elem; el.K == lang.KStruct && !g.opaque(el) {
				for i := range el.S.Fields {
					walk(lang.FieldOf(e, i), d-2)
				}
			}
		}
	}
	for _, d := range g.vars {
		walk(lang.V(d), 3)
	}
	for _, gs := range g.m.globals {
		if write && gs.D.Const {
			continue
		}
		walk(lang.V(g.own(gs.D)), 2)
	}
	for _, im := range g.m.imports {
		for i, gd := range im.inst.globals {
			if write && im.inst.m.globals[i].D.Const {
				continue
			}
			walk(lang.V(gd), 2)
		}
	}
	return r
}

func (g *modGen) own(d *lang.Decl) *lang.Decl { return d }

// fns lists the callable functions: own and imported.
func (g *modGen) fns() []*lang.Decl {
	var r []*lang.Decl
	for i := 0; i < g.limit && i < len(g.m.self.funcs); i++ {
		r = append(r, g.m.self.funcs[i])
	}
	for _, im := range g.m.imports {
		r = append(r, im.inst.funcs...)
	}
	return r
}

func (g *modGen) call(d *lang.Decl, depth int) *lang.Expr {
	var as []*lang.Expr
	for _, p := range d.T.Ps {
		a := g.expr(p, depth-1)
		if a == nil {
			return nil
		}
		as = append(as, a)
	}
	e := lang.Call(lang.V(d), as...)
	if len(as) > 0 && g.s.P(1, 2) {
		// methods are found in the file of the struct, or anywhere by type
		t := as[0].T
		if t.K == lang.KPtr && !t.IsStr() {
			t = t.Elem
		}
		if t.K == lang.KStruct && !g.opaque(t) {
			if r, ok := g.w.structs[t.S]; ok && r.inst == g.w.decls[d].inst && fieldIdx(t.S, d.Name) < 0 && recv(as[0]) {
				e.Method = true
			}
		}
	}
	return e
}

func recv(e *lang.Expr) bool {
	switch e.K {
	case lang.EVar, lang.EField, lang.EIndex, lang.ECall:
		return true
	case lang.EUn:
		return e.Op == "&" || e.Op == "*"
	}
	return false
}

func fieldIdx(d *lang.StructDef, n string) int {
	for i, f := range d.Fields {
		if f.Name == n {
			return i
		}
	}
	return -1
}

// expr builds a value of type t, or nil when there is none in reach.
func (g *modGen) expr(t *modT, depth int) *lang.Expr {
	s := g.s
	var r *lang.Expr
	for try := 0; try < 3 && r == nil; try++ {
		switch s.W(5, 3, 4, 2) {
		case 0:
			if ps := g.places(t, false); len(ps) > 0 {
				r = ps[s.N(len(ps))]
			}
		case 1:
			if depth <= 0 {
				continue
			}
			var fs []*lang.Decl
			for _, d := range g.fns() {
				if len(d.T.R) == 1 && d.T.R[0].Eq(t) {
					fs = append(fs, d)
				}
			}
			if len(fs) > 0 {
				r = g.call(fs[s.N(len(fs))], depth)
			}
		case 2:
			r = g.compose(t, depth)
		case 3:
			if depth <= 0 {
				continue
			}
			// a function value that returns t
			for _, d := range g.vars {
				if d.T.K == lang.KFunc && len(d.T.R) == 1 && d.T.R[0].Eq(t) {
					r = g.call(d, depth)
					break
				}
			}
		}
	}
	if r == nil {
		r = g.compose(t, depth)
	}
	if r == nil {
		if ps := g.places(t, false); len(ps) > 0 {
			r = ps[s.N(len(ps))]
		}
	}
	return r
}

func (g *modGen) compose(t *modT, depth int) *lang.Expr {
	s := g.s
	if g.opaque(t) {
		return nil
	}
	switch t.K {
	case lang.KInt:
		if depth > 0 && s.P(1, 3) && t.Bits > 1 {
			a, b := g.expr(t, depth-1), g.expr(t, depth-1)
			return lang.Bin(s.Pick("+", "-", "*", "^"), a, b)
		}
		return lang.IntLit(t, uint64(s.N(100)))
	case lang.KFloat:
		return lang.CastIf(lang.FLit(float64(s.N(64))/4), t)
	case lang.KPtr:
		if t.IsStr() {
			return lang.StrLit(s.Pick("a", "bc", "", "%d", "xyz"))
		}
		var ps []*lang.Expr
		for _, e := range g.places(t.Elem, true) {
			if (g.main || g.globalPlace(e)) && lang.IsLval(e) {
				ps = append(ps, e)
			}
		}
		if len(ps) > 0 {
			e := ps[s.N(len(ps))]
			if e.K == lang.EUn && e.Op == "*" {
				return e.A
			}
			return lang.Un("&", e)
		}
		return nil
	case lang.KArr:
		if !g.nameable(t) {
			return nil
		}
		e := &lang.Expr{K: lang.EArr, T: t}
		for i := 0; i < t.N; i++ {
			a := g.expr(t.Elem, depth-1)
			if a == nil {
				return nil
			}
			e.Args = append(e.Args, a)
		}
		return e
	case lang.KStruct:
		if !g.nameable(t) {
			return nil
		}
		e := &lang.Expr{K: lang.EStruct, T: t}
		for _, f := range t.S.Fields {
			a := g.expr(f.T, depth-1)
			if a == nil {
				return nil
			}
			e.Args = append(e.Args, a)
			e.Names = append(e.Names, f.Name)
		}
		return e
	case lang.KFunc:
		var fs []*lang.Decl
		for _, d := range g.fns() {
			if d.T.Eq(t) {
				fs = append(fs, d)
			}
		}
		if len(fs) > 0 && s.Bool() {
			return lang.V(fs[s.N(len(fs))])
		}
		if !g.nameable(t) || g.depth > 2 {
			return nil
		}
		f := &lang.Func{R: t.R}
		for _, p := range t.Ps {
			g.w.names++
			f.Params = append(f.Params, &lang.Decl{Name: fmt.Sprintf("l%d", g.w.names), T: p})
		}
		saved, sm := g.vars, g.main
		g.vars, g.main = append([]*lang.Decl(nil), f.Params...), false
		g.depth++
		f.Body = g.body(f, 1)
		g.depth--
		g.vars, g.main = saved, sm
		if f.Body == nil {
			return nil
		}
		return &lang.Expr{K: lang.EFunc, T: t, Fn: f}
	}
	return nil
}

func (g *modGen) globalPlace(e *lang.Expr) bool {
	for {
		switch e.K {
		case lang.EVar:
			return e.D.Global
		case lang.EField, lang.EIndex:
			if e.A.T.K == lang.KPtr {
				return true // inside of what a pointer refers to
			}
			e = e.A
		case lang.EUn:
			return e.Op == "*"
		default:
			return false
		}
	}
}

// show prints what can be printed of a place.
func (g *modGen) show(e *lang.Expr, d int) []*lang.Expr {
	switch e.T.K {
	case lang.KInt, lang.KFloat:
		return []*lang.Expr{e}
	case lang.KPtr:
		if e.T.IsStr() {
			return []*lang.Expr{e}
		}
		if d > 0 {
			if el := e.T.Elem; el.K == lang.KStruct && !g.opaque(el) && g.s.Bool() {
				var r []*lang.Expr
				for i := range el.S.Fields {
					r = append(r, g.show(lang.FieldOf(e, i), d-1)...)
				}
				return r
			}
			return g.show(lang.Un("*", e), d-1)
		}
	case lang.KArr:
		var r []*lang.Expr
		for i := 0; i < e.T.N; i++ {
			r = append(r, g.show(lang.Index(e, lang.Lit(uint64(i))), d)...)
		}
		return r
	case lang.KStruct:
		if g.opaque(e.T) {
			return nil
		}
		var r []*lang.Expr
		for i := range e.T.S.Fields {
			r = append(r, g.show(lang.FieldOf(e, i), d)...)
		}
		return r
	}
	return nil
}

func (g *modGen) print(tag string, e *lang.Expr) *lang.Stmt {
	as := g.show(e, 2)
	if len(as) == 0 {
		return nil
	}
	if len(as) > 8 {
		as = as[:8]
	}
	return lang.PrintS(append(append([]*lang.Expr{lang.StrLit(tag)}, as...), lang.StrLit("\n"))...)
}

func (g *modGen) stmt() []*lang.Stmt {
	s := g.s
	switch s.W(5, 5, 4, 3, 2, 1) {
	case 5: // a local called like an alias, a function or a global
		names := []string{"total", "state", "get", "make", "run"}
		for _, im := range g.m.imports {
			names = append(names, im.alias, im.alias)
		}
		e := g.expr(g.typ(1), 2)
		if e == nil {
			return nil
		}
		d := &lang.Decl{Name: names[s.N(len(names))], T: e.T}
		b := []*lang.Stmt{lang.DefStmt(d, e, false)}
		if p := g.print(d.Name, lang.V(d)); p != nil {
			b = append(b, p)
		}
		if d.T.Eq(lang.I32) {
			b = append(b, lang.Assign(lang.V(d), lang.Bin("+", lang.V(d), lang.Lit(1))), g.print(d.Name, lang.V(d)))
		}
		return []*lang.Stmt{{K: lang.SBlock, Body: b}}
	case 0: // new variable
		var e *lang.Expr
		typed := false
		if fs := g.fns(); len(fs) > 0 && s.Bool() {
			d := fs[s.N(len(fs))]
			if len(d.T.R) == 1 {
				e = g.call(d, 2)
			}
		} else {
			e = g.expr(g.typ(2), 2)
		}
		if e == nil {
			return nil
		}
		g.w.names++
		d := &lang.Decl{Name: fmt.Sprintf("v%d", g.w.names), T: e.T}
		typed = g.nameable(e.T) && s.P(1, 3)
		g.vars = append(g.vars, d)
		return []*lang.Stmt{lang.DefStmt(d, e, typed)}
	case 1: // call for its effects
		fs := g.fns()
		if len(fs) == 0 {
			return nil
		}
		d := fs[s.N(len(fs))]
		e := g.call(d, 2)
		if e == nil {
			return nil
		}
		if len(d.T.R) == 1 && e.T.IsNum() && s.Bool() {
			return []*lang.Stmt{lang.PrintS(lang.StrLit(d.Name), e, lang.StrLit("\n"))}
		}
		return []*lang.Stmt{lang.ExprS(e)}
	case 2, 3: // assignment
		var t *modT
		if len(g.vars) > 0 && s.P(2, 3) {
			t = g.vars[s.N(len(g.vars))].T
			if t.K == lang.KPtr && !t.IsStr() && s.Bool() {
				t = t.Elem
			}
		} else {
			t = g.typ(1)
		}
		var ps []*lang.Expr
		for _, e := range g.places(t, true) {
			if lang.IsLval(e) && (g.main || !hasPtr(g.w, t) || true) {
				ps = append(ps, e)
			}
		}
		if len(ps) == 0 {
			return nil
		}
		e := g.expr(t, 2)
		if e == nil {
			return nil
		}
		return []*lang.Stmt{lang.Assign(ps[s.N(len(ps))], e)}
	case 4:
		if len(g.vars) == 0 {
			return nil
		}
		d := g.vars[s.N(len(g.vars))]
		if p := g.print(d.Name, lang.V(d)); p != nil {
			return []*lang.Stmt{p}
		}
	}
	return nil
}

func (g *modGen) body(f *lang.Func, n int) []*lang.Stmt {
	var r []*lang.Stmt
	for i := g.s.N(n + 1); i > 0; i-- {
		r = append(r, g.stmt()...)
	}
	if len(f.R) == 0 {
		if len(r) == 0 {
			r = append(r, lang.PrintS(lang.StrLit(f.Name+"\n")))
		}
		return r
	}
	e := g.expr(f.R[0], 2)
	if e == nil {
		return nil
	}
	return append(r, &lang.Stmt{K: lang.SReturn, E: e})
}

var modPaths = []string{"a.cd", "b.cd", "lib/a.cd", "lib/c.cd", "lib/deep/d.cd", "other/a.cd", "other/e.cd"}

func (g *modGen) spell(to string) string {
	dir := path.Dir(g.m.path)
	rel := relPath(dir, to)
	switch g.s.W(4, 3, 1) {
	case 0:
		return rel
	case 1:
		if !strings.HasPrefix(rel, "..") {
			return "./" + rel
		}
	case 2:
		if !strings.HasPrefix(rel, "..") && !strings.Contains(rel, "/") {
			return "./" + "./" + rel
		}
	}
	return rel
}

func relPath(dir, to string) string {
	d := strings.Split(dir, "/")
	if dir == "." {
		d = nil
	}
	t := strings.Split(to, "/")
	for len(d) > 0 && len(t) > 1 && d[0] == t[0] {
		d, t = d[1:], t[1:]
	}
	return strings.Repeat("../", len(d)) + strings.Join(t, "/")
}

func (w *modWorld) genModule(p string, main bool) {
	s := w.s
	m := &module{path: p}
	g := &modGen{w: w, s: s, m: m, main: main}
	if !main {
		for i := s.W(3, 4, 2); i > 0; i-- {
			d := lang.NewStruct(string("TUV"[len(m.params)]), false, nil)
			m.params = append(m.params, d.T)
		}
	}
	self := w.inst(m, m.params)
	// struct names first: imports may be applied to them
	for i := s.W(1, 3, 2); i > 0; i-- {
		d := lang.NewStruct([]string{"P", "Q", "R"}[len(m.structs)], false, nil)
		m.structs = append(m.structs, d)
		self.structs = append(self.structs, d)
		w.structs[d] = modRef{self, len(m.structs) - 1}
	}
	// imports
	if len(w.mods) > 0 {
		n := s.W(1, 3, 3, 2)
		if main {
			n = 1 + s.W(2, 4, 4, 3, 2)
		}
		for i := 0; i < n; i++ {
			t := w.mods[s.N(len(w.mods))]
			im := &modImport{alias: s.Pick("m", "lib", "aa", "mod") + fmt.Sprint(i), spell: g.spell(t.path)}
			for range t.params {
				var a *modT
				for a == nil || !g.argOK(a) {
					a = g.typ(1)
				}
				im.targs = append(im.targs, a)
			}
			im.inst = w.inst(t, im.targs)
			m.imports = append(m.imports, im)
		}
	}
	// fields
	for n, d := range m.structs {
		for i := 1 + s.N(3); i > 0; i-- {
			t := g.fieldType(n)
			d.Fields = append(d.Fields, lang.Field{Name: []string{"x", "y", "z"}[len(d.Fields)], T: t})
		}
	}
	for i := s.W(2, 3, 1); i > 0; i-- {
		d := &lang.Decl{Name: []string{"total", "state"}[len(m.globals)], T: []*modT{lang.I32, lang.I64, lang.Str, lang.I8}[s.W(4, 2, 2, 1)], Global: true, Const: s.P(1, 4)}
		var e *lang.Expr
		switch {
		case d.T.IsStr():
			e = lang.StrLit(s.Pick("g", "hh"))
		default:
			e = lang.IntLit(d.T, uint64(s.N(50)))
		}
		m.globals = append(m.globals, lang.DefStmt(d, e, s.Bool()))
		self.globals = append(self.globals, d)
		w.decls[d] = modRef{self, len(m.globals) - 1}
	}
	nf := 1 + s.N(5)
	if main {
		nf = s.N(3)
	}
	for i := 0; i < nf; i++ {
		s.Span(func() {
			f := &lang.Func{Name: []string{"make", "get", "set", "run", "f", "g"}[len(m.funcs)]}
			g.limit = len(m.funcs)
			g.vars = nil
			g.main = false
			for k := s.N(4); k > 0; k-- {
				w.names++
				d := &lang.Decl{Name: fmt.Sprintf("p%d", w.names), T: g.typ(2)}
				f.Params = append(f.Params, d)
				g.vars = append(g.vars, d)
			}
			if s.P(3, 4) {
				f.R = []*modT{g.typ(2)}
			}
			f.Body = g.body(f, 3)
			if f.Body == nil {
				return
			}
			m.funcs = append(m.funcs, f)
			d := &lang.Decl{Name: f.Name, T: f.Type(), Global: true, Const: true}
			self.funcs = append(self.funcs, d)
			w.decls[d] = modRef{self, len(m.funcs) - 1}
		})
	}
	if main {
		f := &lang.Func{Name: "main"}
		g.limit, g.vars, g.main = len(m.funcs), nil, true
		for i := 6 + s.N(14); i > 0; i-- {
			s.Span(func() {
				ss := g.stmt()
				f.Body = append(f.Body, ss...)
			})
		}
		for _, d := range g.vars {
			if p := g.print(d.Name, lang.V(d)); p != nil {
				f.Body = append(f.Body, p)
			}
		}
		for _, im := range m.imports {
			for _, d := range im.inst.globals {
				f.Body = append(f.Body, lang.PrintS(lang.StrLit(d.Name), lang.V(d), lang.StrLit("\n")))
			}
		}
		if len(f.Body) == 0 {
			f.Body = append(f.Body, lang.PrintS(lang.StrLit("x")))
		}
		m.funcs = append(m.funcs, f)
		d := &lang.Decl{Name: "main", T: f.Type(), Global: true, Const: true}
		self.funcs = append(self.funcs, d)
		w.decls[d] = modRef{self, len(m.funcs) - 1}
	}
	w.mods = append(w.mods, m)
}

func (g *modGen) argOK(t *modT) bool { return true }

// fieldType keeps structs finite: by value only earlier structs of the file.
func (g *modGen) fieldType(n int) *modT {
	for {
		t := g.typ(1)
		if g.finite(t, n) {
			return t
		}
	}
}

func (g *modGen) finite(t *modT, n int) bool {
	switch t.K {
	case lang.KArr:
		return g.finite(t.Elem, n)
	case lang.KPtr, lang.KFunc:
		return true
	case lang.KStruct:
		r, ok := g.w.structs[t.S]
		if !ok {
			return true
		}
		if r.inst == g.m.self {
			return r.idx < n
		}
		// an imported struct may contain its arguments
		for _, a := range r.inst.targs {
			if !g.finite(a, n) {
				return false
			}
		}
	}
	return true
}

// imported tells whether the spelling of t needs an import.
func (w *modWorld) imported(m *module, t *modT) bool {
	switch t.K {
	case lang.KPtr, lang.KArr:
		return w.imported(m, t.Elem)
	case lang.KFunc:
		for _, x := range append(append([]*modT(nil), t.Ps...), t.R...) {
			if w.imported(m, x) {
				return true
			}
		}
	case lang.KStruct:
		r, ok := w.structs[t.S]
		return ok && r.inst != m.self
	}
	return false
}

func (w *modWorld) source(m *module) string {
	s := w.s
	p := &lang.Printer{}
	byInst := map[*modInst][]string{}
	via := func(i *modInst) string {
		as := byInst[i]
		if len(as) == 0 {
			return "UNNAMEABLE"
		}
		return as[s.N(len(as))]
	}
	p.Alias = func(t *modT) string {
		if t.K == lang.KStruct {
			if r, ok := w.structs[t.S]; ok && r.inst != m.self {
				return via(r.inst) + "." + t.S.Name
			}
		}
		return ""
	}
	p.Name = func(d *lang.Decl) string {
		if r, ok := w.decls[d]; ok && r.inst != m.self {
			return via(r.inst) + "." + d.Name
		}
		return ""
	}
	for _, t := range m.params {
		p.Toks = append(p.Toks, "type", t.S.Name, ";")
	}
	late := map[int]bool{}
	for i, d := range m.structs {
		late[i] = s.Bool()
		for _, f := range d.Fields {
			late[i] = late[i] || w.imported(m, f.T)
		}
		if !late[i] {
			p.Item(lang.Item{Struct: d})
		}
	}
	for _, im := range m.imports {
		p.Toks = append(p.Toks, "import", im.alias)
		for _, t := range im.targs {
			p.Toks = append(p.Toks, ",")
			p.Type(t)
		}
		p.Toks = append(p.Toks, ",", fmt.Sprintf("%q", im.spell), ";")
		byInst[im.inst] = append(byInst[im.inst], im.alias)
	}
	for i, d := range m.structs {
		if late[i] {
			p.Item(lang.Item{Struct: d})
		}
	}
	for _, g := range m.globals {
		p.Item(lang.Item{Global: g})
	}
	for _, f := range m.funcs {
		p.Item(lang.Item{Fn: f})
	}
	return lang.Render(p.Toks)
}

func genModules(s *gen.Src) *Case {
	w := &modWorld{s: s, insts: map[string]*modInst{}, structs: map[*lang.StructDef]modRef{}, decls: map[*lang.Decl]modRef{}, ids: map[*lang.StructDef]int{}}
	n := 1 + s.W(2, 4, 3, 2)
	perm := s.Perm(len(modPaths))
	for i := 0; i < n; i++ {
		w.genModule(modPaths[perm[i]], false)
	}
	w.genModule("main.cd", true)
	m := w.mods[len(w.mods)-1]
	p := &lang.Prog{}
	w.emit(m.self, p)
	p.Main = m.self.funcs[len(m.self.funcs)-1].Fn
	in := lang.NewInterp()
	out, err := in.Run(p)
	if err != nil {
		return nil
	}
	files := map[string]string{}
	for _, x := range w.mods[:n] {
		files[x.path] = w.source(x)
	}
	count, insts := 0, map[*module]int{}
	for _, i := range w.insts {
		if i.done {
			count++
			insts[i.m]++
		}
	}
	for x, k := range insts {
		if len(x.params) > 0 {
			s.Label(fmt.Sprintf("instances of a generic file: %d", k))
		}
	}
	s.LabelN("imports of one instance by several files or names", w.shared)
	return &Case{Judge: "run", Src: w.source(m), Files: files, Want: out, NonTr: count > 2 && len(out) > 20, X: map[string]string{"opt": optMix(s)}}
}

func init() {
	register(&Prop{ID: "C16", Title: "modules", Rule: "at least two imported file instances are linked into the program and the model predicts more than 20 bytes of output; distinct by program text", Assum: assumBase, Fams: []Fam{
		{Name: "modules", Quick: 1500, Thorough: 40000, Gen: genModules},
		{Name: "methods", Quick: 2000, Thorough: 40000, Gen: genMethods},
		{Name: "nomethod", Quick: 1000, Thorough: 20000, Gen: func(s *gen.Src) *Case { return genMeth(s, true) }},
	}})
}
