// Package lang is an independent model of the Candice language: types, an AST,
// a source printer and a reference interpreter. It shares no code with the
// compiler under test.
package lang

import (
	"fmt"
	"strings"
)

type Kind int

const (
	KInt Kind = iota
	KFloat
	KPtr
	KArr
	KStruct
	KUnion
	KFunc
	KVoid
)

type Type struct {
	K    Kind
	Bits int
	Un   bool
	Elem *Type
	N    int
	S    *StructDef
	Ps   []*Type
	R    []*Type // results: none is void
}

type StructDef struct {
	Name   string
	Mod    string // module alias used to spell it, if any
	Union  bool
	Fields []Field
	T      *Type
}

type Field struct {
	Name string
	T    *Type
}

func mkInt(b int, un bool) *Type { return &Type{K: KInt, Bits: b, Un: un} }

var (
	I1   = mkInt(1, false)
	I8   = mkInt(8, false)
	I16  = mkInt(16, false)
	I32  = mkInt(32, false)
	I64  = mkInt(64, false)
	U8   = mkInt(8, true)
	U16  = mkInt(16, true)
	U32  = mkInt(32, true)
	U64  = mkInt(64, true)
	F32  = &Type{K: KFloat, Bits: 32}
	F64  = &Type{K: KFloat, Bits: 64}
	Void = &Type{K: KVoid}
	Str  = &Type{K: KPtr, Elem: I8}
)

var Ints = []*Type{I32, I8, I16, I64, U8, U16, U32, U64}
var Floats = []*Type{F32, F64}
var Nums = []*Type{I32, I8, I16, I64, U8, U16, U32, U64, F32, F64}

func PtrTo(t *Type) *Type        { return &Type{K: KPtr, Elem: t} }
func ArrOf(n int, t *Type) *Type { return &Type{K: KArr, N: n, Elem: t} }
func FuncOf(ps []*Type, r ...*Type) *Type {
	return &Type{K: KFunc, Ps: ps, R: r}
}

func NewStruct(name string, union bool, fs []Field) *StructDef {
	d := &StructDef{Name: name, Union: union, Fields: fs}
	k := KStruct
	if union {
		k = KUnion
	}
	d.T = &Type{K: k, S: d}
	return d
}

// String is the spelling of the type in source code.
func (t *Type) String() string {
	switch t.K {
	case KInt:
		c := "i"
		if t.Un {
			c = "u"
		}
		return fmt.Sprintf("%s%d", c, t.Bits)
	case KFloat:
		return fmt.Sprintf("f%d", t.Bits)
	case KPtr:
		return "*" + t.Elem.String()
	case KArr:
		return fmt.Sprintf("[%d]%s", t.N, t.Elem)
	case KStruct, KUnion:
		if t.S.Mod != "" {
			return t.S.Mod + "." + t.S.Name
		}
		return t.S.Name
	case KVoid:
		return "void"
	case KFunc:
		var sb strings.Builder
		sb.WriteString("func(")
		for i, p := range t.Ps {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(p.String())
		}
		sb.WriteString(")")
		switch len(t.R) {
		case 0:
			sb.WriteString(" void")
		case 1:
			sb.WriteString(" " + t.R[0].String())
		default:
			sb.WriteString(" (")
			for i, r := range t.R {
				if i > 0 {
					sb.WriteString(", ")
				}
				sb.WriteString(r.String())
			}
			sb.WriteString(")")
		}
		return sb.String()
	}
	return "?"
}

func (t *Type) Eq(o *Type) bool {
	if t == o {
		return true
	}
	if t == nil || o == nil || t.K != o.K {
		return false
	}
	switch t.K {
	case KInt:
		return t.Bits == o.Bits && t.Un == o.Un
	case KFloat:
		return t.Bits == o.Bits
	case KPtr:
		return t.Elem.Eq(o.Elem)
	case KArr:
		return t.N == o.N && t.Elem.Eq(o.Elem)
	case KStruct, KUnion:
		return t.S == o.S
	case KFunc:
		if len(t.Ps) != len(o.Ps) || len(t.R) != len(o.R) {
			return false
		}
		for i := range t.Ps {
			if !t.Ps[i].Eq(o.Ps[i]) {
				return false
			}
		}
		for i := range t.R {
			if !t.R[i].Eq(o.R[i]) {
				return false
			}
		}
		return true
	}
	return true
}

func (t *Type) IsInt() bool   { return t.K == KInt }
func (t *Type) IsBool() bool  { return t.K == KInt && t.Bits == 1 }
func (t *Type) IsNum() bool   { return t.K == KInt || t.K == KFloat }
func (t *Type) IsFloat() bool { return t.K == KFloat }
func (t *Type) IsStr() bool   { return t.K == KPtr && t.Elem.K == KInt && t.Elem.Bits == 8 && !t.Elem.Un }
func (t *Type) IsAgg() bool   { return t.K == KArr || t.K == KStruct || t.K == KUnion }

// Size and Align follow the C ABI of x86-64.
func (t *Type) Size() int {
	switch t.K {
	case KInt, KFloat:
		return (t.Bits + 7) / 8
	case KPtr, KFunc:
		return 8
	case KArr:
		return t.N * t.Elem.Size()
	case KStruct:
		off := 0
		for _, f := range t.S.Fields {
			off = up(off, f.T.Align()) + f.T.Size()
		}
		return up(off, t.Align())
	case KUnion:
		m := 0
		for _, f := range t.S.Fields {
			if s := f.T.Size(); s > m {
				m = s
			}
		}
		return up(m, t.Align())
	}
	return 0
}

func (t *Type) Align() int {
	switch t.K {
	case KInt, KFloat:
		return (t.Bits + 7) / 8
	case KPtr, KFunc:
		return 8
	case KArr:
		return t.Elem.Align()
	case KStruct, KUnion:
		m := 1
		for _, f := range t.S.Fields {
			if a := f.T.Align(); a > m {
				m = a
			}
		}
		return m
	}
	return 1
}

func up(x, a int) int { return (x + a - 1) / a * a }

// Offset of field i of a struct.
func (d *StructDef) Offset(i int) int {
	if d.Union {
		return 0
	}
	off := 0
	for j, f := range d.Fields {
		off = up(off, f.T.Align())
		if j == i {
			return off
		}
		off += f.T.Size()
	}
	return off
}

// HasUnion tells whether values of this type contain union storage.
func (t *Type) HasUnion() bool {
	switch t.K {
	case KUnion:
		return true
	case KArr:
		return t.Elem.HasUnion()
	case KStruct:
		for _, f := range t.S.Fields {
			if f.T.HasUnion() {
				return true
			}
		}
	}
	return false
}
