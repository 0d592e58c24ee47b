package lang

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
)

// Cell is a storage location (or, detached, a value).
type Cell struct {
	T   *Type
	Def bool
	U   uint64
	F   float64
	P   Ptr
	Fn  *Func
	Sub []*Cell
	// union storage
	Raw  []byte
	RDef []bool
	RP   *Ptr // pointer stored last at offset 0
	// view into union storage
	Root *Cell
	Off  int
	self *Block
	sub  *Block
}

type Block struct {
	Cells []*Cell
	Freed bool
	Heap  bool
}

type Ptr struct {
	B   *Block
	Off int
}

type Val = *Cell

// Undefined is raised when the program does something the language leaves
// open; such programs are discarded by the generators.
type Undefined struct{ Why string }

func undef(why string) { panic(Undefined{why}) }

func trunc(u uint64, t *Type) uint64 {
	if t.Bits >= 64 {
		return u
	}
	return u & (1<<uint(t.Bits) - 1)
}

func sext(u uint64, t *Type) int64 {
	sh := uint(64 - t.Bits)
	return int64(u<<sh) >> sh
}

// Signed value of an integer: i1 counts as 0 or 1.
func AsInt(u uint64, t *Type) int64 {
	if t.Un || t.Bits == 1 {
		return int64(u)
	}
	return sext(u, t)
}

func NewCell(t *Type) *Cell {
	c := &Cell{T: t}
	switch t.K {
	case KArr:
		for i := 0; i < t.N; i++ {
			c.Sub = append(c.Sub, NewCell(t.Elem))
		}
	case KStruct:
		for _, f := range t.S.Fields {
			c.Sub = append(c.Sub, NewCell(f.T))
		}
	case KUnion:
		c.Raw = make([]byte, t.Size())
		c.RDef = make([]bool, t.Size())
	}
	return c
}

func (c *Cell) block() *Block {
	if c.self == nil {
		c.self = &Block{Cells: []*Cell{c}}
	}
	return c.self
}

func (c *Cell) elems() *Block {
	c.subs()
	if c.sub == nil {
		c.sub = &Block{Cells: c.Sub}
	}
	return c.sub
}

// subs materialises the parts of a view.
func (c *Cell) subs() []*Cell {
	if c.Root != nil && c.Sub == nil {
		switch c.T.K {
		case KArr:
			for i := 0; i < c.T.N; i++ {
				c.Sub = append(c.Sub, &Cell{T: c.T.Elem, Root: c.Root, Off: c.Off + i*c.T.Elem.Size()})
			}
		case KStruct:
			for i, f := range c.T.S.Fields {
				c.Sub = append(c.Sub, &Cell{T: f.T, Root: c.Root, Off: c.Off + c.T.S.Offset(i)})
			}
		}
	}
	return c.Sub
}

// Load copies the content out.
func Load(c *Cell) Val {
	v := &Cell{T: c.T}
	if c.Root != nil {
		switch c.T.K {
		case KInt:
			n := c.T.Size()
			v.Def = true
			for i := 0; i < n; i++ {
				if !c.Root.RDef[c.Off+i] {
					v.Def = false
				}
				v.U |= uint64(c.Root.Raw[c.Off+i]) << (8 * i)
			}
			if c.T.Bits == 1 && v.U > 1 {
				undef("i1 read from foreign union bytes")
			}
		case KFloat:
			n := c.T.Size()
			v.Def = true
			var u uint64
			for i := 0; i < n; i++ {
				if !c.Root.RDef[c.Off+i] {
					v.Def = false
				}
				u |= uint64(c.Root.Raw[c.Off+i]) << (8 * i)
			}
			if n == 4 {
				v.F = float64(math.Float32frombits(uint32(u)))
			} else {
				v.F = math.Float64frombits(u)
			}
		case KArr, KStruct:
			for _, s := range c.subs() {
				v.Sub = append(v.Sub, Load(s))
			}
			v.Def = true
		case KPtr:
			if c.Root.RP == nil || c.Off != 0 {
				undef("pointer read from foreign union bytes")
			}
			v.P = *c.Root.RP
			v.Def = true
		default:
			undef("union view")
		}
		return v
	}
	v.Def, v.U, v.F, v.P, v.Fn = c.Def, c.U, c.F, c.P, c.Fn
	if c.Sub != nil {
		v.Sub = make([]*Cell, len(c.Sub))
		for i, s := range c.Sub {
			v.Sub[i] = Load(s)
		}
	}
	if c.Raw != nil {
		v.Raw = append([]byte(nil), c.Raw...)
		v.RDef = append([]bool(nil), c.RDef...)
		v.RP = c.RP
	}
	return v
}

// Store copies v into c; a union accepts a value of one of its members.
func Store(c *Cell, v Val) {
	if c.Root != nil {
		w := c.Root
		switch c.T.K {
		case KInt, KFloat:
			u := v.U
			if c.T.K == KFloat {
				if math.IsNaN(v.F) {
					undef("bits of a nan")
				}
				if c.T.Bits == 32 {
					u = uint64(math.Float32bits(float32(v.F)))
				} else {
					u = math.Float64bits(v.F)
				}
			}
			for i := 0; i < c.T.Size(); i++ {
				w.Raw[c.Off+i] = byte(u >> (8 * i))
				w.RDef[c.Off+i] = v.Def
			}
			w.RP = nil
		case KArr, KStruct:
			for i, s := range c.subs() {
				Store(s, v.Sub[i])
			}
		case KPtr:
			p := v.P
			w.RP = &p
			for i := 0; i < 8; i++ {
				w.RDef[c.Off+i] = false
			}
		default:
			undef("union view")
		}
		return
	}
	if c.T.K == KUnion && v.T.K != KUnion {
		Store(&Cell{T: v.T, Root: c}, v)
		return
	}
	c.Def, c.U, c.F, c.P, c.Fn = v.Def, v.U, v.F, v.P, v.Fn
	for i := range c.Sub {
		Store(c.Sub[i], v.Sub[i])
	}
	if c.Raw != nil {
		copy(c.Raw, v.Raw)
		copy(c.RDef, v.RDef)
		c.RP = v.RP
	}
}

func IntVal(t *Type, u uint64) Val { return &Cell{T: t, Def: true, U: trunc(u, t)} }
func BoolVal(b bool) Val {
	if b {
		return IntVal(I1, 1)
	}
	return IntVal(I1, 0)
}
func FloatVal(t *Type, f float64) Val {
	if t.Bits == 32 {
		f = float64(float32(f))
	}
	return &Cell{T: t, Def: true, F: f}
}

type frame struct {
	vars map[*Decl]*Cell
	fn   *Func
}

type Interp struct {
	Out     bytes.Buffer
	Steps   int
	Max     int
	globals map[*Decl]*Cell
	caps    map[*Func]map[*Decl]*Cell
	strs    map[*Expr]*Block
	depth   int
	Stats   map[string]int
	OutMax  int
}

func NewInterp() *Interp {
	return &Interp{Max: 60000, OutMax: 1 << 16, globals: map[*Decl]*Cell{}, caps: map[*Func]map[*Decl]*Cell{}, strs: map[*Expr]*Block{}, Stats: map[string]int{}}
}

type ctl int

const (
	cNone ctl = iota
	cBreak
	cCont
	cRet
)

// Run executes the program; err is non-nil when it is not a defined program.
func (in *Interp) Run(g *Prog) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undefined); ok {
				err = fmt.Errorf("undefined: %s", u.Why)
				return
			}
			panic(r)
		}
	}()
	for _, it := range g.Items {
		if it.Global != nil {
			d := it.Global.D
			c := NewCell(d.T)
			Store(c, in.eval(&frame{vars: map[*Decl]*Cell{}}, it.Global.E))
			in.globals[d] = c
		}
	}
	in.call(g.Main, nil)
	return in.Out.String(), nil
}

func (in *Interp) step() {
	in.Steps++
	if in.Steps > in.Max {
		undef("too many steps")
	}
}

func (in *Interp) call(f *Func, args []Val) []Val {
	in.step()
	if f.Native != nil {
		return f.Native(in, args)
	}
	in.depth++
	if in.depth > 200 {
		undef("too deep")
	}
	fr := &frame{vars: map[*Decl]*Cell{}, fn: f}
	for i, p := range f.Params {
		c := NewCell(p.T)
		Store(c, args[i])
		fr.vars[p] = c
	}
	if cs := in.caps[f]; cs != nil {
		for d, c := range cs {
			fr.vars[d] = c
		}
	}
	k, v := in.block(fr, f.Body)
	in.depth--
	if k != cRet && len(f.R) > 0 {
		undef("no return")
	}
	return v
}

func (in *Interp) block(fr *frame, b []*Stmt) (ctl, []Val) {
	for _, s := range b {
		if k, v := in.stmt(fr, s); k != cNone {
			return k, v
		}
	}
	return cNone, nil
}

func (in *Interp) truth(v Val) bool {
	if !v.Def {
		undef("undefined value")
	}
	switch v.T.K {
	case KInt:
		return v.U != 0
	case KFloat:
		return v.F != 0
	case KPtr:
		return v.P.B != nil
	}
	undef("truth of aggregate")
	return false
}

func (in *Interp) stmt(fr *frame, s *Stmt) (ctl, []Val) {
	in.step()
	switch s.K {
	case SDecl:
		v := in.eval(fr, s.E)
		c := NewCell(s.D.T)
		Store(c, v)
		fr.vars[s.D] = c
	case SMulti:
		vs := in.multi(fr, s.E)
		for i, d := range s.Ds {
			c := NewCell(d.T)
			Store(c, vs[i])
			fr.vars[d] = c
		}
	case SAssign:
		if s.L.K == EList {
			var ps []Ptr
			for _, l := range s.L.Args {
				ps = append(ps, in.lval(fr, l))
			}
			vs := in.multi(fr, s.E)
			for i, p := range ps {
				Store(in.deref(p), vs[i])
			}
			break
		}
		p := in.lval(fr, s.L)
		v := in.eval(fr, s.E)
		Store(in.deref(p), v)
	case SExpr:
		in.multi(fr, s.E)
	case SIf:
		if in.truth(in.eval(fr, s.Cond)) {
			return in.block(fr, s.Body)
		}
		for _, e := range s.Elifs {
			if in.truth(in.eval(fr, e.Cond)) {
				return in.block(fr, e.Body)
			}
		}
		if s.HasEl {
			return in.block(fr, s.Else)
		}
	case SFor:
		if s.Init != nil {
			in.stmt(fr, s.Init)
		}
		for {
			in.step()
			if s.Cond != nil && !in.truth(in.eval(fr, s.Cond)) {
				break
			}
			k, v := in.block(fr, s.Body)
			if k == cRet {
				return k, v
			}
			if k == cBreak {
				break
			}
			if s.Post != nil {
				in.stmt(fr, s.Post)
			}
		}
	case SSwitch:
		v := in.eval(fr, s.Cond)
		if !v.Def {
			undef("undefined value")
		}
		for _, c := range s.Cases {
			cv := in.eval(fr, c.E)
			if cv.U == v.U {
				return in.block(fr, c.Body)
			}
		}
		if s.HasEl {
			return in.block(fr, s.Else)
		}
	case SBlock:
		return in.block(fr, s.Body)
	case SReturn:
		if s.E == nil {
			return cRet, nil
		}
		return cRet, in.multi(fr, s.E)
	case SBreak:
		return cBreak, nil
	case SContinue:
		return cCont, nil
	case SPrint:
		var vs []Val
		for _, a := range s.Args {
			vs = append(vs, in.eval(fr, a))
		}
		for i, v := range vs {
			if i > 0 {
				in.Out.WriteByte(' ')
			}
			in.Out.WriteString(in.Format(v))
		}
		if in.Out.Len() > in.OutMax {
			undef("too much output")
		}
	case SFree:
		v := in.eval(fr, s.E)
		if v.P.B == nil || !v.P.B.Heap || v.P.Off != 0 || v.P.B.Freed {
			undef("bad free")
		}
		v.P.B.Freed = true
	case SUnreachable:
		undef("unreachable executed")
	case SMacro:
		if s.HasEl {
			return in.block(fr, s.Body)
		}
	case SRaw:
	}
	return cNone, nil
}

// CStr reads a zero terminated string.
func (in *Interp) CStr(p Ptr) string {
	var b []byte
	for i := 0; ; i++ {
		c := in.deref(Ptr{p.B, p.Off + i})
		v := Load(c)
		if !v.Def {
			undef("undefined char")
		}
		if v.U == 0 {
			return string(b)
		}
		b = append(b, byte(v.U))
	}
}

func FormatFloat(f float64) string {
	if math.IsNaN(f) {
		undef("prints a nan")
	}
	if math.IsInf(f, 1) {
		return "inf"
	}
	if math.IsInf(f, -1) {
		return "-inf"
	}
	return strconv.FormatFloat(f, 'f', 3, 64)
}

// Format renders a value as @print does.
func (in *Interp) Format(v Val) string {
	if v.T.K != KStruct && !v.Def {
		undef("undefined value")
	}
	switch v.T.K {
	case KInt:
		if v.T.Un || v.T.Bits == 1 {
			return strconv.FormatUint(v.U, 10)
		}
		return strconv.FormatInt(sext(v.U, v.T), 10)
	case KFloat:
		return FormatFloat(v.F)
	case KPtr:
		if v.T.IsStr() {
			return in.CStr(v.P)
		}
	case KStruct:
		return v.T.S.Name
	}
	undef("print of " + v.T.String())
	return ""
}

func (in *Interp) deref(p Ptr) *Cell {
	if p.B == nil {
		undef("null pointer")
	}
	if p.B.Freed {
		undef("use after free")
	}
	if p.Off < 0 || p.Off >= len(p.B.Cells) {
		undef("out of bounds")
	}
	return p.B.Cells[p.Off]
}

// IsLval tells whether e denotes storage.
func IsLval(e *Expr) bool {
	switch e.K {
	case EVar:
		return e.D.Fn == nil && !e.D.Const
	case EUn:
		return e.Op == "*"
	case EIndex, EField:
		return e.A.T.K == KPtr || IsLval(e.A)
	}
	return false
}

func (in *Interp) variable(fr *frame, d *Decl) *Cell {
	if c := fr.vars[d]; c != nil {
		return c
	}
	if c := in.globals[d]; c != nil {
		return c
	}
	panic("interp: unbound " + d.Name)
}

func (in *Interp) index(v Val) int {
	if !v.Def {
		undef("undefined index")
	}
	x := AsInt(v.U, v.T)
	if x > 1<<30 || x < -(1<<30) {
		undef("index")
	}
	return int(x)
}

func (in *Interp) lval(fr *frame, e *Expr) Ptr {
	in.step()
	switch e.K {
	case EVar:
		return Ptr{in.variable(fr, e.D).block(), 0}
	case EUn:
		if e.Op == "*" {
			v := in.eval(fr, e.A)
			if !v.Def {
				undef("undefined pointer")
			}
			return v.P
		}
	case EIndex:
		if e.A.T.K == KPtr {
			v := in.eval(fr, e.A)
			if !v.Def || v.P.B == nil {
				undef("undefined pointer")
			}
			i := in.index(in.eval(fr, e.B))
			return Ptr{v.P.B, v.P.Off + i}
		}
		c := in.deref(in.lval(fr, e.A))
		i := in.index(in.eval(fr, e.B))
		return Ptr{c.elems(), i}
	case EField:
		var c *Cell
		if e.A.T.K == KPtr {
			v := in.eval(fr, e.A)
			if !v.Def {
				undef("undefined pointer")
			}
			c = in.deref(v.P)
		} else {
			c = in.deref(in.lval(fr, e.A))
		}
		return Ptr{in.field(c, int(e.U)).block(), 0}
	}
	panic("interp: not an lvalue")
}

func (in *Interp) field(c *Cell, i int) *Cell {
	if c.T.K == KUnion {
		return &Cell{T: c.T.S.Fields[i].T, Root: c}
	}
	return c.subs()[i]
}

func (in *Interp) multi(fr *frame, e *Expr) []Val {
	switch e.K {
	case EList:
		var vs []Val
		for _, a := range e.Args {
			vs = append(vs, in.eval(fr, a))
		}
		return vs
	case ECall:
		return in.callExpr(fr, e)
	}
	return []Val{in.eval(fr, e)}
}

func (in *Interp) callExpr(fr *frame, e *Expr) []Val {
	f := in.eval(fr, e.A)
	if f.Fn == nil {
		undef("call of undefined function")
	}
	var args []Val
	for _, a := range e.Args {
		args = append(args, in.eval(fr, a))
	}
	in.Stats["call"]++
	return in.call(f.Fn, args)
}

func (in *Interp) eval(fr *frame, e *Expr) Val {
	in.step()
	switch e.K {
	case EInt, EChar:
		return IntVal(e.T, e.U)
	case EFloat:
		return FloatVal(e.T, e.F)
	case EStr:
		b := in.strs[e]
		if b == nil {
			b = &Block{}
			for i := 0; i <= len(e.S); i++ {
				var u uint64
				if i < len(e.S) {
					u = uint64(e.S[i])
				}
				b.Cells = append(b.Cells, IntVal(I8, u))
			}
			in.strs[e] = b
		}
		return &Cell{T: Str, Def: true, P: Ptr{b, 0}}
	case EVar:
		if e.D.Fn != nil {
			return &Cell{T: e.T, Def: true, Fn: e.D.Fn}
		}
		return Load(in.variable(fr, e.D))
	case EUn:
		return in.unary(fr, e)
	case EBin:
		return in.binary(fr, e)
	case ECast:
		return Convert(in.eval(fr, e.A), e.T)
	case ECall:
		vs := in.callExpr(fr, e)
		if len(vs) == 0 {
			return &Cell{T: Void}
		}
		return vs[0]
	case EIndex:
		if IsLval(e) {
			return Load(in.deref(in.lval(fr, e)))
		}
		a := in.eval(fr, e.A)
		i := in.index(in.eval(fr, e.B))
		if i < 0 || i >= len(a.Sub) {
			undef("out of bounds")
		}
		return Load(a.Sub[i])
	case EField:
		if IsLval(e) {
			return Load(in.deref(in.lval(fr, e)))
		}
		a := in.eval(fr, e.A)
		return Load(in.field(a, int(e.U)))
	case EStruct:
		c := NewCell(e.T)
		c.Def = true
		for i, a := range e.Args {
			v := in.eval(fr, a)
			for j, f := range e.T.S.Fields {
				if f.Name == e.Names[i] {
					Store(c.Sub[j], v)
				}
			}
		}
		return c
	case EArr:
		c := NewCell(e.T)
		c.Def = true
		for i, a := range e.Args {
			Store(c.Sub[i], in.eval(fr, a))
		}
		return c
	case EFunc:
		m := in.caps[e.Fn]
		if m == nil {
			m = map[*Decl]*Cell{}
			in.caps[e.Fn] = m
		}
		for _, d := range e.Fn.Caps {
			c := m[d]
			if c == nil {
				c = NewCell(d.T)
				m[d] = c
			}
			Store(c, Load(in.variable(fr, d)))
		}
		return &Cell{T: e.T, Def: true, Fn: e.Fn}
	case EBlock, EIfExpr:
		k, v := in.block(fr, e.Body)
		if k != cRet {
			undef("block without value")
		}
		if e.T.K == KUnion && v[0].T.K != KUnion {
			c := NewCell(e.T)
			Store(c, v[0])
			return c
		}
		return v[0]
	case ESizeof:
		return IntVal(I32, uint64(e.Ty.Size()))
	case EAlloc:
		n := in.index(in.eval(fr, e.A))
		if n < 0 || n > 100000 {
			undef("alloc size")
		}
		b := &Block{Heap: true}
		for i := 0; i < n; i++ {
			b.Cells = append(b.Cells, NewCell(e.Ty))
		}
		return &Cell{T: e.T, Def: true, P: Ptr{b, 0}}
	case ERealloc:
		p := in.eval(fr, e.A)
		n := in.index(in.eval(fr, e.B))
		if p.P.B == nil || !p.P.B.Heap || p.P.Off != 0 || p.P.B.Freed {
			undef("bad realloc")
		}
		if n <= 0 || n > 100000 {
			undef("realloc size")
		}
		b := &Block{Heap: true}
		for i := 0; i < n; i++ {
			if i < len(p.P.B.Cells) {
				c := NewCell(e.T.Elem)
				Store(c, Load(p.P.B.Cells[i]))
				b.Cells = append(b.Cells, c)
			} else {
				b.Cells = append(b.Cells, NewCell(e.T.Elem))
			}
		}
		p.P.B.Freed = true
		return &Cell{T: e.T, Def: true, P: Ptr{b, 0}}
	}
	panic("interp: expr")
}

func (in *Interp) unary(fr *frame, e *Expr) Val {
	switch e.Op {
	case "&":
		if IsLval(e.A) {
			return &Cell{T: e.T, Def: true, P: in.lval(fr, e.A)}
		}
		v := in.eval(fr, e.A)
		c := NewCell(v.T)
		Store(c, v)
		return &Cell{T: e.T, Def: true, P: Ptr{c.block(), 0}}
	case "*":
		return Load(in.deref(in.lval(fr, e)))
	case "++", "--":
		p := in.lval(fr, e.A)
		c := in.deref(p)
		v := Load(c)
		if !v.Def {
			undef("undefined value")
		}
		d := 1.0
		if e.Op == "--" {
			d = -1
		}
		if v.T.K == KFloat {
			Store(c, FloatVal(v.T, v.F+d))
		} else {
			Store(c, IntVal(v.T, v.U+uint64(int64(d))))
		}
		return Load(c)
	}
	v := in.eval(fr, e.A)
	if !v.Def {
		undef("undefined value")
	}
	switch e.Op {
	case "-":
		if v.T.K == KFloat {
			return FloatVal(v.T, -v.F)
		}
		return IntVal(v.T, -v.U)
	case "!":
		return BoolVal(!in.truth(v))
	case "+":
		return v
	}
	panic("interp: unary " + e.Op)
}

func (in *Interp) binary(fr *frame, e *Expr) Val {
	a := in.eval(fr, e.A)
	switch e.Op {
	case "&&":
		if !in.truth(a) {
			in.Stats["skip"]++
			return BoolVal(false)
		}
		return BoolVal(in.truth(in.eval(fr, e.B)))
	case "||":
		if in.truth(a) {
			in.Stats["skip"]++
			return BoolVal(true)
		}
		return BoolVal(in.truth(in.eval(fr, e.B)))
	}
	b := in.eval(fr, e.B)
	if !a.Def || !b.Def {
		undef("undefined value")
	}
	if a.T.K == KPtr {
		if b.T.K == KInt {
			i := in.index(b)
			if a.T.IsStr() && false {
				undef("")
			}
			if e.Op == "-" {
				i = -i
			}
			if a.P.B == nil || a.P.Off+i < 0 || a.P.Off+i > len(a.P.B.Cells) {
				undef("pointer arithmetic")
			}
			return &Cell{T: a.T, Def: true, P: Ptr{a.P.B, a.P.Off + i}}
		}
		if a.T.IsStr() {
			if e.Op == "+" {
				s := in.CStr(a.P) + in.CStr(b.P)
				if len(s) > 1000 {
					undef("long string")
				}
				in.Steps += len(s) / 4
				blk := &Block{Heap: true}
				for i := 0; i <= len(s); i++ {
					var u uint64
					if i < len(s) {
						u = uint64(s[i])
					}
					blk.Cells = append(blk.Cells, IntVal(I8, u))
				}
				return &Cell{T: Str, Def: true, P: Ptr{blk, 0}}
			}
			x, y := in.CStr(a.P), in.CStr(b.P)
			switch e.Op {
			case "==":
				return BoolVal(x == y)
			case "!=":
				return BoolVal(x != y)
			case "<":
				return BoolVal(x < y)
			case "<=":
				return BoolVal(x <= y)
			case ">":
				return BoolVal(x > y)
			case ">=":
				return BoolVal(x >= y)
			}
		}
		var x, y *Cell
		if a.P.B != nil {
			x = in.deref(a.P)
		}
		if b.P.B != nil {
			y = in.deref(b.P)
		}
		same := x == y
		if x != nil && y != nil && x.Root != nil && y.Root != nil {
			same = x.Root == y.Root && x.Off == y.Off
		}
		switch e.Op {
		case "==":
			return BoolVal(same)
		case "!=":
			return BoolVal(!same)
		}
		undef("pointer order")
	}
	return Arith(e.Op, a, b)
}

// Arith applies a binary operator to two defined numbers.
func Arith(op string, a, b Val) Val {
	t := a.T
	if t.K == KFloat {
		x, y := a.F, b.F
		switch op {
		case "+":
			return fl(t, x, y, func(x, y float64) float64 { return x + y }, func(x, y float32) float32 { return x + y })
		case "-":
			return fl(t, x, y, func(x, y float64) float64 { return x - y }, func(x, y float32) float32 { return x - y })
		case "*":
			return fl(t, x, y, func(x, y float64) float64 { return x * y }, func(x, y float32) float32 { return x * y })
		case "/":
			return fl(t, x, y, func(x, y float64) float64 { return x / y }, func(x, y float32) float32 { return x / y })
		case "%":
			return FloatVal(t, math.Mod(x, y))
		case "==":
			return BoolVal(x == y)
		case "!=":
			return BoolVal(x != y)
		case "<":
			return BoolVal(x < y)
		case "<=":
			return BoolVal(x <= y)
		case ">":
			return BoolVal(x > y)
		case ">=":
			return BoolVal(x >= y)
		}
		panic("arith float " + op)
	}
	x, y := a.U, b.U
	un := t.Un
	sx, sy := sext(x, t), sext(y, t)
	if t.Bits == 1 {
		sx, sy = int64(x), int64(y)
	}
	switch op {
	case "+":
		return IntVal(t, x+y)
	case "-":
		return IntVal(t, x-y)
	case "*":
		return IntVal(t, x*y)
	case "/", "%":
		if y == 0 {
			undef("division by zero")
		}
		if un {
			if op == "/" {
				return IntVal(t, x/y)
			}
			return IntVal(t, x%y)
		}
		if sy == -1 && sx == -(1<<uint(t.Bits-1)) {
			undef("division overflow")
		}
		if op == "/" {
			return IntVal(t, uint64(sx/sy))
		}
		return IntVal(t, uint64(sx%sy))
	case "&":
		return IntVal(t, x&y)
	case "|":
		return IntVal(t, x|y)
	case "^":
		return IntVal(t, x^y)
	case "<<", ">>":
		n := AsInt(y, b.T)
		if n < 0 || n >= int64(t.Bits) {
			undef("shift amount")
		}
		if op == "<<" {
			return IntVal(t, x<<uint(n))
		}
		return IntVal(t, x>>uint(n))
	case "==":
		return BoolVal(x == y)
	case "!=":
		return BoolVal(x != y)
	}
	if un {
		switch op {
		case "<":
			return BoolVal(x < y)
		case "<=":
			return BoolVal(x <= y)
		case ">":
			return BoolVal(x > y)
		case ">=":
			return BoolVal(x >= y)
		}
	}
	if t.Bits == 1 {
		undef("ordering of booleans")
	}
	switch op {
	case "<":
		return BoolVal(sx < sy)
	case "<=":
		return BoolVal(sx <= sy)
	case ">":
		return BoolVal(sx > sy)
	case ">=":
		return BoolVal(sx >= sy)
	}
	panic("arith " + op)
}

func fl(t *Type, x, y float64, f func(x, y float64) float64, g func(x, y float32) float32) Val {
	if t.Bits == 32 {
		return FloatVal(t, float64(g(float32(x), float32(y))))
	}
	return FloatVal(t, f(x, y))
}

// Convert is the `as` operator on numbers (and the null pointer).
func Convert(v Val, t *Type) Val {
	if !v.Def {
		undef("undefined value")
	}
	if t.K == KPtr {
		if v.T.K == KPtr {
			if v.T.Eq(t) {
				return v
			}
			if v.P.B == nil {
				return &Cell{T: t, Def: true}
			}
			undef("pointer cast")
		}
		if v.U == 0 {
			return &Cell{T: t, Def: true}
		}
		undef("integer to pointer")
	}
	if v.T.K == KPtr {
		if v.P.B == nil && t.K == KInt {
			return IntVal(t, 0)
		}
		undef("pointer to integer")
	}
	if v.T.K == KFloat {
		if t.K == KFloat {
			return FloatVal(t, v.F)
		}
		if t.Bits == 1 {
			undef("float to i1")
		}
		f := math.Trunc(v.F)
		if math.IsNaN(f) {
			undef("nan to int")
		}
		var lo, hi float64
		if t.Un {
			lo, hi = 0, math.Ldexp(1, t.Bits)
		} else {
			lo, hi = -math.Ldexp(1, t.Bits-1), math.Ldexp(1, t.Bits-1)
		}
		if f < lo || f >= hi {
			undef("float to int out of range")
		}
		if t.Un {
			return IntVal(t, uint64(f))
		}
		return IntVal(t, uint64(int64(f)))
	}
	if t.K == KFloat {
		var f float64
		if t.Bits == 32 {
			if v.T.Un || v.T.Bits == 1 {
				f = float64(float32(v.U))
			} else {
				f = float64(float32(sext(v.U, v.T)))
			}
		} else {
			if v.T.Un || v.T.Bits == 1 {
				f = float64(v.U)
			} else {
				f = float64(sext(v.U, v.T))
			}
		}
		return FloatVal(t, f)
	}
	return IntVal(t, uint64(AsInt(v.U, v.T)))
}
