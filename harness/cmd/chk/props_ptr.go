package main

import (
	"fmt"
	"strconv"
	"strings"

	"candverif/gen"
	"candverif/lang"
)

// C08: programs over pointers, simulated on typed cells.

type mblock struct{ dead, heap bool }

// mseq is a run of adjacent cells of one type: what pointer arithmetic moves in.
type mseq struct {
	b     *mblock
	cells []*mcell
	top   bool // a whole heap block
}

type mptr struct {
	seq *mseq // nil: null
	idx int
}

type mcell struct {
	t    *lang.Type
	u    uint64 // integers, two's complement in 64 bits
	f    float64
	p    mptr
	kids []*mcell // fields, elements
	seq  *mseq
	idx  int
}

func newSeq(b *mblock, t *lang.Type, n int) *mseq {
	q := &mseq{b: b}
	for i := 0; i < n; i++ {
		c := &mcell{t: t, seq: q, idx: i}
		c.grow()
		q.cells = append(q.cells, c)
	}
	return q
}

func (c *mcell) grow() {
	switch c.t.K {
	case lang.KArr:
		c.kids = newSeq(c.seq.b, c.t.Elem, c.t.N).cells
	case lang.KStruct:
		for _, f := range c.t.S.Fields {
			c.kids = append(c.kids, newSeq(c.seq.b, f.T, 1).cells[0])
		}
	}
}

func (c *mcell) copyFrom(o *mcell) {
	c.u, c.f, c.p = o.u, o.f, o.p
	for i := range c.kids {
		c.kids[i].copyFrom(o.kids[i])
	}
}

func snap(o *mcell) *mcell {
	c := newSeq(&mblock{}, o.t, 1).cells[0]
	c.copyFrom(o)
	return c
}

func (p mptr) live() bool { return p.seq != nil && !p.seq.b.dead }

func (p mptr) cell() *mcell { return p.seq.cells[p.idx] }

// mx is an expression: its text and how tightly it binds.
type mx struct {
	s    string
	kind int // 0 postfix or atom, 1 prefix, 2 binary
}

func (e mx) post() string {
	if e.kind > 0 {
		return "(" + e.s + ")"
	}
	return e.s
}

func (e mx) unary() string {
	if e.kind > 1 {
		return "(" + e.s + ")"
	}
	return e.s
}

type mvar struct {
	name string
	c    *mcell
}

type ptrProg struct {
	s       *gen.Src
	body    strings.Builder
	out     strings.Builder
	structs []*lang.StructDef
	vars    []mvar
	n       int
	helpers map[string]string
	order   []string
	derefs  int
}

var ptrLeaves = []*lang.Type{lang.I32, lang.I8, lang.U8, lang.I16, lang.I64, lang.U32, lang.F64, lang.U16, lang.F32}

func (p *ptrProg) line(f string, a ...interface{}) { fmt.Fprintf(&p.body, "\t"+f+"\n", a...) }

func (p *ptrProg) fresh(pre string) string { p.n++; return fmt.Sprintf("%s%d", pre, p.n) }

func (p *ptrProg) leafType() *lang.Type {
	return ptrLeaves[p.s.W(6, 2, 1, 2, 3, 1, 2, 1, 1)]
}

// elemType is what blocks and variables hold.
func (p *ptrProg) elemType() *lang.Type {
	s := p.s
	switch s.W(5, 6, 2, 2) {
	case 1:
		return p.structs[s.N(len(p.structs))].T
	case 2:
		return lang.PtrTo(p.target())
	case 3:
		return lang.ArrOf(1+s.N(3), p.leafType())
	}
	return p.leafType()
}

// target is what pointers point to.
func (p *ptrProg) target() *lang.Type {
	s := p.s
	switch s.W(5, 6, 1) {
	case 1:
		return p.structs[s.N(len(p.structs))].T
	case 2:
		return lang.PtrTo(p.structs[s.N(len(p.structs))].T)
	}
	return p.leafType()
}

// lit spells a new value of type t and stores it in c.
func (p *ptrProg) lit(c *mcell) string {
	s := p.s
	switch c.t.K {
	case lang.KInt:
		c.u = edge(s, c.t)
		switch {
		case c.t.Un:
			if c.t.Bits < 64 {
				c.u &= 1<<uint(c.t.Bits) - 1
			}
		default:
			sh := uint(64 - c.t.Bits)
			c.u = uint64(int64(c.u<<sh) >> sh)
		}
		return intText(c.t, c.u)
	case lang.KFloat:
		c.f = float64(s.N(4000)-2000) / 4
		x := strconv.FormatFloat(c.f, 'f', 2, 64)
		if c.t.Bits == 32 {
			return "@cast(f32, " + x + ")"
		}
		return "@cast(f64, " + x + ")"
	case lang.KPtr:
		if e, v, ok := p.ptrExpr(c.t.Elem, 1); ok && s.P(2, 3) {
			c.p = v
			return e.s
		}
		c.p = mptr{}
		return "@cast(" + c.t.String() + ", 0)"
	case lang.KArr:
		var xs []string
		for _, k := range c.kids {
			xs = append(xs, p.lit(k))
		}
		return c.t.String() + "{" + strings.Join(xs, ", ") + "}"
	case lang.KStruct:
		xs := make([]string, len(c.kids))
		for _, i := range s.Perm(len(c.kids)) {
			xs[i] = c.t.S.Fields[i].Name + ": " + p.lit(c.kids[i])
		}
		return "@" + c.t.S.Name + "{" + strings.Join(xs, ", ") + "}"
	}
	panic("lit")
}

func intText(t *lang.Type, u uint64) string {
	e := lang.ConstLit(t, u)
	return strings.TrimSpace(lang.Render(lang.ExprToks(e, false)))
}

func (p *ptrProg) index(k int) string {
	s := p.s
	if s.P(1, 3) {
		var c []string
		for _, v := range p.vars {
			if v.c.t == lang.I32 && v.c.u == uint64(k) {
				c = append(c, v.name)
			}
		}
		if len(c) > 0 {
			return c[s.N(len(c))]
		}
	}
	switch s.W(8, 1, 1, 1) {
	case 1:
		return fmt.Sprintf("%d + %d", k-k/2, k/2)
	case 2:
		return fmt.Sprintf("%d as i64", k)
	case 3:
		return fmt.Sprintf("%d as i8", k)
	}
	return fmt.Sprint(k)
}

func (p *ptrProg) offset(k int) string {
	i := p.index(k)
	if strings.Contains(i, " ") {
		return "(" + i + ")"
	}
	return i
}

// place is a random walk from a variable to a cell that satisfies want.
func (p *ptrProg) place(want func(c *mcell) bool) (mx, *mcell, bool) {
	s := p.s
	if len(p.vars) == 0 {
		return mx{}, nil, false
	}
	for try := 0; try < 10; try++ {
		v := p.vars[s.N(len(p.vars))]
		e, c := mx{v.name, 0}, v.c
		d := 0
		for step := 0; step < 7; step++ {
			if want(c) && s.P(2, 3) {
				p.derefs += d
				return e, c, true
			}
			if c.t.K == lang.KPtr {
				if !c.p.live() {
					break
				}
				d++
				e, c = p.deref(e, c.p)
			} else if len(c.kids) > 0 {
				i := s.N(len(c.kids))
				if c.t.K == lang.KStruct {
					e = mx{e.post() + "." + c.t.S.Fields[i].Name, 0}
				} else {
					e = mx{e.post() + "[" + p.index(i) + "]", 0}
				}
				c = c.kids[i]
			} else {
				break
			}
		}
		if want(c) {
			p.derefs += d
			return e, c, true
		}
	}
	return mx{}, nil, false
}

// deref spells the cell the pointer e (of value v) points to, or a neighbour or part of it.
func (p *ptrProg) deref(e mx, v mptr) (mx, *mcell) {
	s := p.s
	n := len(v.seq.cells)
	switch s.W(4, 4, 2, 5) {
	case 1: // index forward
		k := s.N(n - v.idx)
		return mx{e.post() + "[" + p.index(k) + "]", 0}, v.seq.cells[v.idx+k]
	case 2: // arithmetic either way
		k := s.N(n) - v.idx
		if k < 0 {
			return mx{"*(" + e.unary() + " - " + p.offset(-k) + ")", 1}, v.seq.cells[v.idx+k]
		}
		return mx{"*(" + e.unary() + " + " + p.offset(k) + ")", 1}, v.seq.cells[v.idx+k]
	case 3: // field through the pointer
		c := v.cell()
		if c.t.K == lang.KStruct {
			i := s.N(len(c.kids))
			return mx{e.post() + "." + c.t.S.Fields[i].Name, 0}, c.kids[i]
		}
	}
	return mx{"*" + e.unary(), 1}, v.cell()
}

func isT(t *lang.Type) func(c *mcell) bool { return func(c *mcell) bool { return c.t.Eq(t) } }

func isPtrTo(t *lang.Type) func(c *mcell) bool {
	return func(c *mcell) bool { return c.t.K == lang.KPtr && c.t.Elem.Eq(t) && (c.p.seq == nil || c.p.live()) }
}

// ptrExpr is an expression of type *t.
func (p *ptrProg) ptrExpr(t *lang.Type, depth int) (mx, mptr, bool) {
	s := p.s
	switch s.W(4, 4, 3, 1, 1, 1) {
	case 0:
		if e, c, ok := p.place(isT(t)); ok {
			return mx{"&" + e.unary(), 1}, mptr{c.seq, c.idx}, true
		}
	case 1:
		if e, c, ok := p.place(isPtrTo(t)); ok {
			return e, c.p, true
		}
	case 2:
		if depth > 0 {
			if e, v, ok := p.ptrExpr(t, depth-1); ok && v.live() {
				k := s.N(len(v.seq.cells)) - v.idx
				if k < 0 {
					return mx{e.s + " - " + p.offset(-k), 2}, mptr{v.seq, v.idx + k}, true
				}
				return mx{e.s + " + " + p.offset(k), 2}, mptr{v.seq, v.idx + k}, true
			}
		}
	case 3: // an array seen as a pointer to its first element
		if e, c, ok := p.place(func(c *mcell) bool { return c.t.K == lang.KArr && c.t.Elem.Eq(t) }); ok {
			f := c.kids[0]
			if s.P(1, 2) {
				return mx{fmt.Sprintf("@cast(*%s, %s)", t, e.s), 0}, mptr{f.seq, 0}, true
			}
			return mx{"&" + e.post() + "[0]", 1}, mptr{f.seq, 0}, true
		}
	case 4:
		if depth > 0 {
			if e, v, ok := p.ptrExpr(t, depth-1); ok {
				h := p.helper("same", t, "func %s(p *%s) *%s {\n\treturn p;\n}\n", 2)
				return mx{h + "(" + e.s + ")", 0}, v, true
			}
		}
	case 5: // through another pointer type and back
		if depth > 0 {
			if e, v, ok := p.ptrExpr(t, depth-1); ok {
				return mx{fmt.Sprintf("@cast(*%s, @cast(%s, %s))", t, s.Pick("i64", "*i8", "*u64", "**i32", "u64"), e.s), 0}, v, true
			}
		}
	}
	return mx{}, mptr{}, false
}

func tname(t *lang.Type) string {
	return strings.NewReplacer("*", "p", "[", "a", "]", "").Replace(t.String())
}

// helper registers a function; text holds its name and the type n times.
func (p *ptrProg) helper(kind string, t *lang.Type, text string, n int) string {
	name := kind + "_" + tname(t)
	if _, ok := p.helpers[name]; !ok {
		as := []interface{}{name}
		for i := 0; i < n; i++ {
			as = append(as, t.String())
		}
		p.helpers[name] = fmt.Sprintf(text, as...)
		p.order = append(p.order, name)
	}
	return name
}

func cellText(c *mcell) string {
	if c.t.K == lang.KFloat {
		return strconv.FormatFloat(c.f, 'f', 3, 64)
	}
	if c.t.Un {
		return strconv.FormatUint(c.u, 10)
	}
	return strconv.FormatInt(int64(c.u), 10)
}

func isLeaf(c *mcell) bool { return c.t.IsNum() }

func (p *ptrProg) print(e, v string) {
	p.line("@print(%s, \"\\n\");", e)
	p.out.WriteString(v + " \n")
}

func (p *ptrProg) addVar(name string, c *mcell) { p.vars = append(p.vars, mvar{name, c}) }

func (p *ptrProg) op() {
	s := p.s
	p.opK(s.W(3, 3, 8, 8, 8, 4, 4, 3, 1, 3, 2, 2, 3, 2, 2, 2))
}

func (p *ptrProg) opK(k int) {
	s := p.s
	switch k {
	case 0: // a variable
		t := p.elemType()
		c := newSeq(&mblock{}, t, 1).cells[0]
		n := p.fresh("v")
		e := p.lit(c)
		if s.P(1, 4) {
			p.line("%s : %s = %s;", n, t, e)
		} else {
			p.line("%s := %s;", n, e)
		}
		p.addVar(n, c)
	case 1: // a heap block
		t := p.elemType()
		k := 1 + s.N(5)
		b := newSeq(&mblock{heap: true}, t, k)
		b.top = true
		n := p.fresh("h")
		if s.P(1, 4) {
			p.line("%s : *%s = @alloc(%s, %d);", n, t, t, k)
		} else {
			p.line("%s := @alloc(%s, %s);", n, t, p.index(k))
		}
		p.fill(n, b, 0)
		c := newSeq(&mblock{}, lang.PtrTo(t), 1).cells[0]
		c.p = mptr{b, 0}
		p.addVar(n, c)
	case 2: // store a number
		if e, c, ok := p.place(isLeaf); ok {
			if f, d, ok := p.place(isT(c.t)); ok && s.P(1, 2) {
				p.line("%s = %s;", e.s, f.s)
				c.copyFrom(d)
			} else {
				p.line("%s = %s;", e.s, p.lit(c))
			}
		}
	case 3: // store a pointer
		if e, c, ok := p.place(func(c *mcell) bool { return c.t.K == lang.KPtr }); ok {
			if f, v, ok := p.ptrExpr(c.t.Elem, 2); ok {
				p.line("%s = %s;", e.s, f.s)
				c.p = v
			}
		}
	case 4: // print
		if e, c, ok := p.place(isLeaf); ok {
			p.print(e.s, cellText(c))
		}
	case 5: // compare pointers
		t := p.target()
		if t == lang.I8 {
			return // strings compare by their contents
		}
		a, x, ok := p.ptrExpr(t, 1)
		b, y, ok2 := p.ptrExpr(t, 1)
		if !ok || !ok2 {
			return
		}
		if s.P(1, 3) {
			// the same place by another road, or the same expression
			b, y = a, x
		}
		op := s.Pick("==", "!=")
		r := x == y
		if x.seq != nil && x.seq == y.seq && s.P(1, 2) {
			op = cmpOps[s.N(6)]
			r = map[string]bool{"==": x.idx == y.idx, "!=": x.idx != y.idx, "<": x.idx < y.idx, "<=": x.idx <= y.idx, ">": x.idx > y.idx, ">=": x.idx >= y.idx}[op]
		} else if x.seq != nil && y.seq != nil && x.seq != y.seq {
			// parts of one object may share an address; only unrelated objects surely do not
			if x.seq.b == y.seq.b {
				return
			}
			r = op == "!="
		} else if op == "!=" {
			r = !r
		}
		p.branch(a.s+" "+op+" "+b.s, r)
	case 6: // null test
		if e, c, ok := p.place(func(c *mcell) bool { return c.t.K == lang.KPtr && (c.p.seq == nil || c.p.live()) }); ok {
			p.branch("!"+e.unary(), c.p.seq == nil)
		}
	case 7: // reallocate
		if e, c, ok := p.owner(); ok {
			old := c.p.seq
			k := 1 + s.N(7)
			b := newSeq(&mblock{heap: true}, c.t.Elem, k)
			b.top = true
			m := min(k, len(old.cells))
			old.b.dead = true
			for i := 0; i < m; i++ {
				b.cells[i].copyFrom(old.cells[i])
			}
			p.line("%s = @realloc(%s, %s);", e, e, s.Pick(fmt.Sprint(k), fmt.Sprintf("%d as i64", k)))
			p.fill(e, b, m)
			c.p = mptr{b, 0}
		}
	case 8: // free
		if e, c, ok := p.owner(); ok {
			p.line("@free(%s);", e)
			c.p.seq.b.dead = true
		}
	case 9: // copy a whole object
		if e, c, ok := p.place(func(c *mcell) bool { return len(c.kids) > 0 }); ok {
			if f, d, ok := p.place(isT(c.t)); ok && s.P(3, 4) {
				x := snap(d)
				p.line("%s = %s;", e.s, f.s)
				c.copyFrom(x)
			} else {
				x := snap(c)
				l := p.lit(x)
				p.line("%s = %s;", e.s, l)
				c.copyFrom(x)
			}
		}
	case 10: // swap by function
		t := p.elemType()
		a, x, ok := p.ptrExpr(t, 1)
		b, y, ok2 := p.ptrExpr(t, 1)
		if ok && ok2 && x.live() && y.live() {
			h := p.helper("swap", t, "func %s(a *%s, b *%s) void {\n\tt := *a;\n\t*a = *b;\n\t*b = t;\n}\n", 2)
			p.line("%s(%s, %s);", h, a.s, b.s)
			z := snap(x.cell())
			x.cell().copyFrom(y.cell())
			y.cell().copyFrom(z)
		}
	case 11: // swap in place
		// not i32, which may be an index of the other place
		a, x, ok := p.place(func(c *mcell) bool { return isLeaf(c) && c.t != lang.I32 })
		if !ok {
			return
		}
		if b, y, ok := p.place(isT(x.t)); ok {
			p.line("%s, %s = %s, %s;", a.s, b.s, b.s, a.s)
			z := snap(x)
			x.copyFrom(y)
			y.copyFrom(z)
		}
	case 12: // a loop over adjacent cells
		t := p.leafType()
		e, v, ok := p.ptrExpr(t, 1)
		if !ok || !v.live() || t.IsFloat() {
			return
		}
		k := len(v.seq.cells) - v.idx
		m := p.fresh("i")
		if s.P(1, 2) {
			q := p.fresh("q")
			p.line("%s := %s;", q, e.s)
			p.line("for %s := 0; %s < %d; %s = %s + 1 { %s[%s] = @cast(%s, %s * 3 + %d); }", m, m, k, m, m, q, m, t, m, v.idx)
			for i := 0; i < k; i++ {
				v.seq.cells[v.idx+i].u = uint64(i*3 + v.idx)
			}
			c := newSeq(&mblock{}, lang.PtrTo(t), 1).cells[0]
			c.p = v
			p.addVar(q, c)
		} else {
			h := p.helper("sum", t, "func %s(p *%s, n i32) i64 {\n\tt := 0 as i64;\n\tfor i := 0; i < n; i = i + 1 { t = t + @cast(i64, p[i]); }\n\treturn t;\n}\n", 1)
			x := uint64(0)
			for i := 0; i < k; i++ {
				x += v.seq.cells[v.idx+i].u
			}
			p.print(fmt.Sprintf("%s(%s, %d)", h, e.s, k), strconv.FormatInt(int64(x), 10))
		}
	case 13: // distance in bytes
		t := p.target()
		a, x, ok := p.ptrExpr(t, 1)
		b, y, ok2 := p.ptrExpr(t, 1)
		if ok && ok2 && x.seq == y.seq && x.seq != nil {
			p.print(fmt.Sprintf("@cast(i64, %s) - @cast(i64, %s)", a.s, b.s), fmt.Sprint((x.idx-y.idx)*t.Size()))
		}
	case 14: // a byte of a number
		if e, c, ok := p.place(func(c *mcell) bool { return c.t.IsInt() }); ok {
			k := s.N(c.t.Bits / 8)
			p.print(fmt.Sprintf("@cast(*u8, &%s)[%d]", e.unary(), k), fmt.Sprint(c.u>>(8*uint(k))&255))
		}
	case 15: // increment
		if e, c, ok := p.place(func(c *mcell) bool { return c.t == lang.I32 || c.t == lang.I64 }); ok {
			o, d := "++", uint64(1)
			if s.P(1, 2) {
				o, d = "--", ^uint64(0)
			}
			c.u += d
			if c.t == lang.I32 {
				c.u = uint64(int64(int32(c.u)))
			}
			if s.P(1, 2) {
				p.line("%s%s;", o, e.unary())
			} else {
				p.print(o+e.unary(), cellText(c))
			}
		}
	}
}

// owner is a variable, or a field of one, that points to the start of a live heap block.
func (p *ptrProg) owner() (string, *mcell, bool) {
	var es []string
	var cs []*mcell
	var walk func(e string, c *mcell)
	walk = func(e string, c *mcell) {
		if c.t.K == lang.KPtr && c.p.live() && c.p.seq.top && c.p.idx == 0 {
			es, cs = append(es, e), append(cs, c)
		}
		if c.t.K == lang.KStruct {
			for i, k := range c.kids {
				walk(e+"."+c.t.S.Fields[i].Name, k)
			}
		}
	}
	for _, v := range p.vars {
		walk(v.name, v.c)
	}
	if len(es) == 0 {
		return "", nil, false
	}
	i := p.s.N(len(es))
	return es[i], cs[i], true
}

func (p *ptrProg) branch(cond string, r bool) {
	if p.s.P(1, 2) {
		v := "0"
		if r {
			v = "1"
		}
		p.print(cond, v)
		return
	}
	p.line("if %s { @print(\"t\\n\"); } else { @print(\"f\\n\"); }", cond)
	p.out.WriteString(map[bool]string{true: "t\n", false: "f\n"}[r])
}

// fill gives a value to the cells of a block from index from.
func (p *ptrProg) fill(e string, b *mseq, from int) {
	for i := from; i < len(b.cells); i++ {
		c := b.cells[i]
		x := snap(c)
		l := p.lit(x)
		c.copyFrom(x)
		switch p.s.N(3) {
		case 0:
			p.line("%s[%d] = %s;", e, i, l)
		case 1:
			p.line("*(%s + %d) = %s;", e, i, l)
		case 2:
			p.line("%s[%s] = %s;", e, p.index(i), l)
		}
	}
}

// dump prints every reachable leaf of a cell.
func (p *ptrProg) dump(e mx, c *mcell, d int) {
	switch {
	case isLeaf(c):
		p.print(e.s, cellText(c))
	case c.t.K == lang.KPtr:
		if c.p.live() && d > 0 {
			p.dump(mx{"*" + e.unary(), 1}, c.p.cell(), d-1)
		}
	case c.t.K == lang.KStruct:
		for i, k := range c.kids {
			p.dump(mx{e.post() + "." + c.t.S.Fields[i].Name, 0}, k, d)
		}
	case c.t.K == lang.KArr:
		for i, k := range c.kids {
			p.dump(mx{fmt.Sprintf("%s[%d]", e.post(), i), 0}, k, d)
		}
	}
}

func genPtrs(s *gen.Src) *Case {
	p := &ptrProg{s: s, helpers: map[string]string{}}
	// two structs that may point to themselves and each other
	for i := 0; i < 2; i++ {
		p.structs = append(p.structs, lang.NewStruct([]string{"N", "Q"}[i], false, nil))
	}
	for i, d := range p.structs {
		n := 1 + s.N(5)
		for k := 0; k < n; k++ {
			var t *lang.Type
			switch s.W(5, 4, 2, 1, 1) {
			case 0:
				t = p.leafType()
			case 1:
				t = lang.PtrTo(p.target())
			case 2:
				t = lang.ArrOf(1+s.N(3), p.leafType())
			case 3:
				if i == 1 {
					t = p.structs[0].T
					if s.P(1, 2) {
						t = lang.ArrOf(1+s.N(2), t)
					}
				} else {
					t = lang.PtrTo(d.T)
				}
			case 4:
				t = lang.ArrOf(1+s.N(2), lang.PtrTo(p.target()))
			}
			d.Fields = append(d.Fields, lang.Field{Name: string(rune('a'+k)) + s.Pick("", "x", "1"), T: t})
		}
	}
	n := 8 + s.N(40)
	for i := 0; i < n; i++ {
		if i < 4 {
			s.Span(func() { p.opK(s.N(2)) })
		} else {
			s.Span(p.op)
		}
		if p.body.Len() > 25000 {
			return nil
		}
	}
	for _, v := range p.vars {
		p.dump(mx{v.name, 0}, v.c, 2)
		if p.body.Len() > 38000 {
			break
		}
	}
	var src strings.Builder
	for _, i := range s.Perm(2) {
		d := p.structs[i]
		src.WriteString("struct " + d.Name + " {")
		for _, f := range d.Fields {
			src.WriteString(" " + f.Name + " " + f.T.String())
		}
		src.WriteString(" }\n")
	}
	for _, h := range p.order {
		src.WriteString(p.helpers[h])
	}
	src.WriteString("func main() void {\n" + p.body.String() + "}\n")
	s.LabelN("dereferences", p.derefs)
	return &Case{Judge: "run", Src: src.String(), Want: p.out.String(), NonTr: p.derefs > 2 && p.out.Len() > 8,
		X: map[string]string{"opt": []string{"jit", "asan", "-O0", "-O2"}[s.W(10, 6, 1, 2)]}}
}

func init() {
	register(&Prop{ID: "C08", Rule: "at least three pointer dereferences and 8 bytes of predicted output (histories), or 4 bytes of predicted output (programs); distinct by text", Fams: []Fam{
		{Name: "histories", Quick: 2000, Thorough: 60000, Gen: genPtrs},
		{Name: "offsets", Quick: 400, Thorough: 15000, Gen: genOffsets},
		progFam("programs", 800, 15000, func(o *lang.Opt) { o.WHeap, o.WDecl, o.Structs, o.Depth, o.Lambdas = 6, 10, 3, 2, false }, optAsan),
	}})
}
