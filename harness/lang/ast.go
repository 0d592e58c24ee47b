package lang

// Decl is a named entity: variable, constant, parameter or function.
type Decl struct {
	Name   string
	T      *Type
	Const  bool
	Global bool
	Fn     *Func // set for named functions
	Owner  *Func // function that declares it (nil for globals)
	ID     int
	Mod    string // module alias through which it is spelled
	Prot   bool   // never assigned by generated code
	Depth  int    // scope depth, for pointer lifetimes
	NoRead bool
}

// Func is a named function or a lambda site.
type Func struct {
	Name   string
	Params []*Decl
	R      []*Type
	Body   []*Stmt
	Caps   []*Decl // captured variables (lambdas)
	Pub    bool
	Extern bool
	T      *Type
	D      *Decl
	caps   map[*Decl]*Cell // static storage of the captured values
	Native func(in *Interp, args []Val) []Val
}

func (f *Func) Type() *Type {
	if f.T == nil {
		var ps []*Type
		for _, p := range f.Params {
			ps = append(ps, p.T)
		}
		f.T = FuncOf(ps, f.R...)
	}
	return f.T
}

type EK int

const (
	EInt EK = iota // integer literal of type T (i32, i64 or u64)
	EChar
	EFloat
	EStr
	EVar
	EUn
	EBin
	ECast
	ECall
	EIndex
	EField
	EStruct
	EArr
	EFunc
	EBlock
	ESizeof
	EAlloc
	ERealloc
	EList // comma list: multiple values
	EIfExpr
)

type Expr struct {
	K      EK
	T      *Type
	Ts     []*Type // result types of multi valued calls and lists
	Op     string
	A, B   *Expr
	Args   []*Expr
	D      *Decl
	U      uint64
	F      float64
	S      string
	Form   int // spelling of a literal: 0 decimal, 1 hex, 2 binary
	Fn     *Func
	Body   []*Stmt
	Ty     *Type
	Names  []string
	Method bool // call spelled receiver.f(args)
	Paren  bool // redundant parentheses
}

type SK int

const (
	SDecl SK = iota
	SMulti
	SAssign
	SExpr
	SIf
	SFor
	SSwitch
	SBlock
	SReturn
	SBreak
	SContinue
	SPrint
	SFree
	SUnreachable
	SRaw   // raw source tokens without effect in the model
	SMacro // #if Raw[0] { Body }, compiled when HasEl is set; no scope of its own
)

type Stmt struct {
	K     SK
	D     *Decl
	Ds    []*Decl
	Typed bool
	E     *Expr
	L     *Expr
	Args  []*Expr
	Cond  *Expr
	Body  []*Stmt
	Elifs []Elif
	Else  []*Stmt
	HasEl bool
	Init  *Stmt
	Post  *Stmt
	Cases []Case
	Bare  bool // body spelled without braces
	Raw   []string
}

type Elif struct {
	Cond *Expr
	Body []*Stmt
}

type Case struct {
	E    *Expr
	Body []*Stmt
}

// Item is a root declaration.
type Item struct {
	Struct *StructDef
	Fn     *Func
	Global *Stmt // SDecl
	Alias  string
	Ty     *Type
	Raw    []string
	If     string // wrapped in #if <If>
}

type Prog struct {
	Items []Item
	Main  *Func
}

// ---- builders

func Lit(u uint64) *Expr {
	t := I32
	if u > 1<<63-1 {
		t = U64
	} else if u > 1<<31-1 {
		t = I64
	}
	return &Expr{K: EInt, T: t, U: u}
}

func V(d *Decl) *Expr { return &Expr{K: EVar, T: d.T, D: d} }

func Un(op string, a *Expr) *Expr {
	t := a.T
	switch op {
	case "!":
		t = I1
	case "&":
		t = PtrTo(a.T)
	case "*":
		t = a.T.Elem
	}
	return &Expr{K: EUn, Op: op, A: a, T: t}
}

func IsCmp(op string) bool {
	switch op {
	case "==", "!=", "<", "<=", ">", ">=", "&&", "||":
		return true
	}
	return false
}

func Bin(op string, a, b *Expr) *Expr {
	t := a.T
	if IsCmp(op) {
		t = I1
	}
	return &Expr{K: EBin, Op: op, A: a, B: b, T: t}
}

func Cast(a *Expr, t *Type) *Expr { return &Expr{K: ECast, A: a, T: t} }

func CastIf(a *Expr, t *Type) *Expr {
	if a.T.Eq(t) {
		return a
	}
	return Cast(a, t)
}

// IntLit spells an integer value of type t (u holds its bits).
func IntLit(t *Type, u uint64) *Expr {
	u = trunc(u, t)
	if t.Un || t.Bits == 1 || sext(u, t) >= 0 {
		return CastIf(Lit(u), t)
	}
	m := -uint64(sext(u, t))
	if m == 1<<63 {
		return CastIf(Lit(m), t)
	}
	return CastIf(Un("-", Lit(m)), t)
}

func Index(a, i *Expr) *Expr { return &Expr{K: EIndex, A: a, B: i, T: a.T.Elem} }

func FieldOf(a *Expr, i int) *Expr {
	s := a.T.S
	if a.T.K == KPtr {
		s = a.T.Elem.S
	}
	return &Expr{K: EField, A: a, U: uint64(i), S: s.Fields[i].Name, T: s.Fields[i].T}
}

func Call(fn *Expr, args ...*Expr) *Expr {
	e := &Expr{K: ECall, A: fn, Args: args, Ts: fn.T.R}
	switch len(fn.T.R) {
	case 0:
		e.T = Void
	case 1:
		e.T = fn.T.R[0]
	}
	return e
}

func StrLit(s string) *Expr { return &Expr{K: EStr, S: s, T: Str} }

func FLit(f float64) *Expr { return &Expr{K: EFloat, F: f, T: F32} }

// DefStmt declares d with initialiser e.
func DefStmt(d *Decl, e *Expr, typed bool) *Stmt {
	return &Stmt{K: SDecl, D: d, E: e, Typed: typed}
}

func PrintS(args ...*Expr) *Stmt { return &Stmt{K: SPrint, Args: args} }

func Assign(l, r *Expr) *Stmt { return &Stmt{K: SAssign, L: l, E: r} }

func ExprS(e *Expr) *Stmt { return &Stmt{K: SExpr, E: e} }
