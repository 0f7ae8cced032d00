// Package sim is a path-sensitive abstract interpreter ("property
// simulation") over go/ssa.  It never executes the analysed program: it
// propagates hash-consed symbolic terms through the SSA instructions of the
// functions reachable from an entry point, forking at branches, peeling the
// first iteration of each loop and abstracting all later ones, and hands the
// recorded event trace of every path to a client rule.
package sim

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst   Op = iota // Val
	ONil               // typed nil / zero pointer-ish
	OZero              // zero value of an aggregate type
	OParam             // symbolic input
	OGlobal            // address of a package variable
	OFunc              // function value
	OClosure           // function + bindings
	OAlloc             // address of an allocation / fresh object (make, new, map, chan)
	OField             // address of field: Args[0] base address, Sub field name
	OIndex             // address of element: Args[0] base, Args[1] index
	OLoad              // unknown content of an address
	OCall              // result of an opaque call
	OPure              // result of a pure function, by arguments
	OExtract           // component of a tuple
	OTuple             // tuple
	OBin               // binary arithmetic
	OUn                // unary
	OLt                // a<b
	OEq                // a==b
	ONot               // !a
	OConv              // conversion
	OIface             // interface made of a concrete value
	OSlice             // slice expr: base, lo, hi
	OLen               // len
	OCap               // cap
	OAppend            // append(dst, pieces...) ; piece = element or OSpread(x)
	OSpread            // spread piece of an append
	OStruct            // struct value
	OProj              // field of unknown struct value
	OElem              // element of unknown array value / string index
	OLookup            // map lookup result
	OSym               // fresh symbol
	OAssert            // type assertion result (value part)
	OIsType            // boolean: dynamic type of x is T
	OMin               // misc pure builtin
	OConcat            // string concatenation, flattened
)

var opNames = map[Op]string{OConst: "const", ONil: "nil", OZero: "zero", OParam: "param", OGlobal: "global", OFunc: "func", OClosure: "closure", OAlloc: "alloc", OField: "field", OIndex: "index", OLoad: "load", OCall: "call", OPure: "pure", OExtract: "extract", OTuple: "tuple", OBin: "bin", OUn: "un", OLt: "lt", OEq: "eq", ONot: "not", OConv: "conv", OIface: "iface", OSlice: "slice", OLen: "len", OCap: "cap", OAppend: "append", OSpread: "spread", OStruct: "struct", OProj: "proj", OElem: "elem", OLookup: "lookup", OSym: "sym", OAssert: "assert", OIsType: "istype", OMin: "builtin", OConcat: "concat"}

type Term struct {
	ID   int
	Op   Op
	Sub  string
	Args []*Term
	Typ  types.Type
	Val  constant.Value
	Obj  interface{} // *ssa.Function, *ssa.Global, types.Type, ssa.Instruction
	text string
}

type Terms struct {
	tab  map[string]*Term
	list []*Term
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (tt *Terms) mk(op Op, sub string, typ types.Type, obj interface{}, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 32)
	sb.WriteString(sub)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	switch op {
	case OAlloc:
		// functions of the same name allocate different objects
		if in, ok := obj.(ssa.Instruction); ok {
			fmt.Fprintf(&sb, "@%p", in)
		}
	case OLoad:
		// an address read as another basic type
		if typ != nil {
			if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
				fmt.Fprintf(&sb, "@%d", b.Kind())
			}
		}
	case OBin:
		// the same operation in a narrower type wraps differently
		if bits, signed, ok := intInfo(typ); ok && bits < 64 {
			fmt.Fprintf(&sb, "@%d%v", bits, signed)
		}
	case OSym:
		if typ != nil {
			sb.WriteByte(':')
			sb.WriteString(typ.String())
		}
		if ph, ok := obj.(*ssa.Phi); ok {
			fmt.Fprintf(&sb, "@%p", ph)
		}
	}
	k := sb.String()
	if t := tt.tab[k]; t != nil {
		return t
	}
	t := &Term{ID: len(tt.list), Op: op, Sub: sub, Typ: typ, Obj: obj, Args: append([]*Term(nil), args...)}
	tt.tab[k] = t
	tt.list = append(tt.list, t)
	return t
}

func (tt *Terms) Param(name string, typ types.Type) *Term { return tt.mk(OParam, name, typ, nil) }
func (tt *Terms) Sym(name string, typ types.Type) *Term   { return tt.mk(OSym, name, typ, nil) }

func (tt *Terms) Const(v constant.Value, typ types.Type) *Term {
	kind := "?"
	switch v.Kind() {
	case constant.Bool:
		kind = "b"
	case constant.String:
		kind = "s"
	case constant.Int:
		kind = "n"
	case constant.Float:
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			v = iv
			kind = "n"
		} else {
			kind = "f"
		}
	default:
		kind = "x"
	}
	sub := kind + v.ExactString()
	t := tt.mk(OConst, sub, typ, nil)
	t.Val = v
	return t
}
func (tt *Terms) Int(n int64) *Term { return tt.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (tt *Terms) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *Terms) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *Terms) Nil() *Term { return tt.mk(ONil, "", nil, nil) }

// Zero returns the zero value of a type.
func (tt *Terms) Zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&types.IsNumeric != 0:
			return tt.Const(constant.MakeInt64(0), typ)
		default:
			return tt.Nil()
		}
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, tt.Zero(u.Field(i).Type()))
		}
		return tt.Struct(typ, args)
	case *types.Array:
		return tt.mk(OZero, typ.String(), typ, nil)
	default:
		return tt.Nil()
	}
}

func (tt *Terms) Struct(typ types.Type, fields []*Term) *Term {
	return tt.mk(OStruct, typ.String(), typ, typ, fields...)
}

// ---- predicates on terms ----

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) Int64() (int64, bool) {
	if t.Op == OConst && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}
func (t *Term) StringVal() (string, bool) {
	if t.Op == OConst && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}
func (t *Term) BoolVal() (val, ok bool) {
	if t.Op == OConst && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies p.
func (t *Term) Any(p func(*Term) bool) bool {
	if p(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(p) {
			return true
		}
	}
	return false
}

func (t *Term) String() string {
	if t == nil {
		return "<none>"
	}
	if t.text == "" {
		t.text = t.str(6)
	}
	return t.text
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d == 0 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d - 1) }
	list := func(from int) string {
		var ss []string
		for _, a := range t.Args[from:] {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case OConst:
		return t.Val.String()
	case ONil:
		return "nil"
	case OParam, OSym:
		return t.Sub
	case OGlobal:
		return "&" + t.Sub
	case OFunc:
		return "func " + t.Sub
	case OClosure:
		return "closure " + t.Sub
	case OAlloc:
		return "new@" + t.Sub
	case OField:
		return arg(0) + "." + t.Sub
	case OIndex:
		return arg(0) + "[" + arg(1) + "]"
	case OLoad:
		return "*(" + arg(0) + ")"
	case OCall:
		return t.Sub + "(" + list(0) + ")"
	case OPure, OMin:
		return t.Sub + "(" + list(0) + ")"
	case OExtract:
		return arg(0) + "#" + t.Sub
	case OBin:
		return "(" + arg(0) + t.Sub + arg(1) + ")"
	case OUn:
		return t.Sub + arg(0)
	case OLt:
		return arg(0) + "<" + arg(1)
	case OEq:
		return arg(0) + "==" + arg(1)
	case ONot:
		return "!(" + arg(0) + ")"
	case OConv:
		return t.Sub + "(" + arg(0) + ")"
	case OIface:
		return "iface(" + arg(0) + ")"
	case OSlice:
		return arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case OLen:
		return "len(" + arg(0) + ")"
	case OCap:
		return "cap(" + arg(0) + ")"
	case OAppend:
		return "append(" + list(0) + ")"
	case OSpread:
		return arg(0) + "..."
	case OStruct:
		return "{" + list(0) + "}"
	case OProj:
		return arg(0) + "." + t.Sub
	case OElem:
		return arg(0) + "[" + arg(1) + "]"
	case OLookup:
		return arg(0) + "[" + arg(1) + "]"
	case OAssert:
		return arg(0) + ".(" + t.Sub + ")"
	case OIsType:
		return arg(0) + " is " + t.Sub
	case OConcat:
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, "+")
	}
	return fmt.Sprintf("%s<%s>(%s)", opNames[t.Op], t.Sub, list(0))
}

// ---- constructors with simplification ----

func isIntTerm(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringTyp(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intInfo returns bit width and signedness of an integer type.
func intInfo(typ types.Type) (bits int, signed bool, ok bool) {
	if typ == nil {
		return 0, false, false
	}
	b, isB := typ.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func wrap(v constant.Value, typ types.Type) constant.Value {
	bits, signed, ok := intInfo(typ)
	if !ok || v.Kind() != constant.Int {
		return v
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	// v mod 2^bits
	q := constant.BinaryOp(v, token.REM, mod)
	if constant.Sign(q) < 0 {
		q = constant.BinaryOp(q, token.ADD, mod)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(q, token.GEQ, half) {
			q = constant.BinaryOp(q, token.SUB, mod)
		}
	}
	return q
}

func (tt *Terms) Bin(op token.Token, x, y *Term, typ types.Type) *Term {
	if x.Op == OConst && y.Op == OConst {
		if op == token.SHL || op == token.SHR {
			if n, ok := y.Int64(); ok && n >= 0 && n < 512 && x.Val.Kind() == constant.Int {
				return tt.Const(wrap(constant.Shift(x.Val, op, uint(n)), typ), typ)
			}
		} else if (op == token.QUO || op == token.REM) && y.Val.Kind() == constant.Int && constant.Sign(y.Val) == 0 {
			// leave symbolic
		} else if x.Val.Kind() == y.Val.Kind() && x.Val.Kind() != constant.Unknown && x.Val.Kind() != constant.Bool {
			o := op
			if op == token.QUO && x.Val.Kind() == constant.Int {
				o = token.QUO_ASSIGN // integer division
			}
			if x.Val.Kind() != constant.String || op == token.ADD {
				return tt.Const(wrap(constant.BinaryOp(x.Val, o, y.Val), typ), typ)
			}
		}
	}
	if isStringTyp(typ) && op == token.ADD {
		return tt.Concat(typ, x, y)
	}
	if isIntTerm(typ) {
		if n, ok := y.Int64(); ok && y.Op == OConst && n == 0 {
			switch op {
			case token.XOR, token.OR, token.SHL, token.SHR, token.AND_NOT, token.ADD, token.SUB:
				return x
			}
		}
		switch op {
		case token.SUB:
			if x == y {
				return tt.Const(constant.MakeInt64(0), typ)
			}
			if y.Op == OConst {
				return tt.Bin(token.ADD, x, tt.Const(constant.UnaryOp(token.SUB, y.Val, 0), typ), typ)
			}
			// (a + c) - (b + d) => (a-b) + (c-d)
			xb, xc := splitAdd(x, typ)
			yb, yc := splitAdd(y, typ)
			if xc != 0 || yc != 0 {
				inner := tt.mkBin("-", xb, yb, typ)
				if xb == yb {
					return tt.Const(constant.MakeInt64(xc-yc), typ)
				}
				return tt.Bin(token.ADD, inner, tt.Int(xc-yc), typ)
			}
		case token.ADD:
			if x.Op == OConst {
				x, y = y, x
			}
			if n, ok := y.Int64(); ok {
				if n == 0 {
					return x
				}
				if xb, xc := splitAdd(x, typ); xc != 0 {
					if xc+n == 0 {
						return xb
					}
					return tt.mkBin("+", xb, tt.Const(constant.MakeInt64(xc+n), typ), typ)
				}
				return tt.mkBin("+", x, y, typ)
			}
			// (a - b) + b => a
			if x.Op == OBin && x.Sub == "-" && x.Args[1] == y {
				return x.Args[0]
			}
			if y.Op == OBin && y.Sub == "-" && y.Args[1] == x {
				return y.Args[0]
			}
			xb, xc := splitAdd(x, typ)
			yb, yc := splitAdd(y, typ)
			if xc != 0 || yc != 0 {
				return tt.Bin(token.ADD, tt.Bin(token.ADD, xb, yb, typ), tt.Int(xc+yc), typ)
			}
			if x.ID > y.ID {
				x, y = y, x
			}
		case token.MUL:
			if x.Op == OConst {
				x, y = y, x
			}
			if n, ok := y.Int64(); ok && n == 1 {
				return x
			}
			if n, ok := y.Int64(); ok && n == 0 {
				return y
			}
			if y.Op != OConst && x.ID > y.ID {
				x, y = y, x
			}
		case token.AND, token.OR, token.XOR:
			if x.Op == OConst || (y.Op != OConst && x.ID > y.ID) {
				x, y = y, x
			}
		}
	}
	return tt.mkBin(op.String(), x, y, typ)
}

func (tt *Terms) mkBin(op string, x, y *Term, typ types.Type) *Term {
	return tt.mk(OBin, op, typ, nil, x, y)
}

// splitAdd splits off a constant addend of the same width.
func splitAdd(t *Term, typ types.Type) (*Term, int64) {
	if t.Op == OBin && t.Sub == "+" {
		b1, _, ok1 := intInfo(t.Typ)
		b2, _, ok2 := intInfo(typ)
		if ok1 && ok2 && b1 != b2 {
			return t, 0
		}
		if n, ok := t.Args[1].Int64(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

func (tt *Terms) Concat(typ types.Type, xs ...*Term) *Term {
	var parts []*Term
	add := func(p *Term) {
		if s, ok := p.StringVal(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if s0, ok := parts[n-1].StringVal(); ok {
					parts[n-1] = tt.Str(s0 + s)
					return
				}
			}
		}
		parts = append(parts, p)
	}
	for _, x := range xs {
		if x.Op == OConcat {
			for _, p := range x.Args {
				add(p)
			}
		} else {
			add(x)
		}
	}
	if len(parts) == 0 {
		return tt.Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return tt.mk(OConcat, "", typ, nil, parts...)
}

func (tt *Terms) Not(x *Term) *Term {
	if x.Op == ONot {
		return x.Args[0]
	}
	if b, ok := x.BoolVal(); ok {
		return tt.Bool(!b)
	}
	return tt.mk(ONot, "", types.Typ[types.Bool], nil, x)
}

// NonNil: structurally known to be non-nil.
func (t *Term) NonNil() bool {
	switch t.Op {
	case OAlloc, OGlobal, OFunc, OClosure, OIface, OField, OIndex:
		return true
	case OSlice:
		return t.Args[0].NonNil()
	case OAppend:
		for _, a := range t.Args[1:] {
			if a.Op != OSpread {
				return true
			}
		}
		return false
	case OPure:
		switch t.Sub {
		case "errors.New", "fmt.Errorf":
			return true
		}
	case OCall:
		switch t.Sub {
		case "errors.New", "fmt.Errorf", "time.NewTimer", "time.NewTicker", "context.Background", "context.TODO":
			return true
		}
	}
	return false
}

func (tt *Terms) Eq(x, y *Term) *Term {
	if x == y && !isFloat(x.Typ) {
		return tt.Bool(true)
	}
	if x.Op == OConst && y.Op == OConst {
		if x.Val.Kind() == y.Val.Kind() {
			return tt.Bool(constant.Compare(x.Val, token.EQL, y.Val))
		}
		return tt.Bool(false)
	}
	if x.Op == ONil && y.NonNil() || y.Op == ONil && x.NonNil() {
		return tt.Bool(false)
	}
	if x.Op == OIface && y.Op == OIface && x.Sub != y.Sub {
		return tt.Bool(false)
	}
	if x.Op == OIface && y.Op == OIface && x.Sub == y.Sub {
		return tt.Eq(x.Args[0], y.Args[0])
	}
	if x.Op == OAlloc && y.Op == OAlloc {
		return tt.Bool(false)
	}
	// strings/bool against constants
	if b, ok := y.BoolVal(); ok {
		if b {
			return x
		}
		return tt.Not(x)
	}
	if b, ok := x.BoolVal(); ok {
		if b {
			return y
		}
		return tt.Not(y)
	}
	// s == "" <=> len(s) == 0
	if s, ok := y.StringVal(); ok && s == "" {
		return tt.Eq(tt.Len(x), tt.Int(0))
	}
	if s, ok := x.StringVal(); ok && s == "" {
		return tt.Eq(tt.Len(y), tt.Int(0))
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return tt.mk(OEq, "", types.Typ[types.Bool], nil, x, y)
}

func isFloat(typ types.Type) bool {
	if typ == nil {
		return false
	}
	b, ok := typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (tt *Terms) Lt(x, y *Term) *Term {
	if x.Op == OConst && y.Op == OConst && x.Val.Kind() == y.Val.Kind() {
		return tt.Bool(constant.Compare(x.Val, token.LSS, y.Val))
	}
	if x == y {
		return tt.Bool(false)
	}
	return tt.mk(OLt, "", types.Typ[types.Bool], nil, x, y)
}

// Cmp builds a canonical comparison.
func (tt *Terms) Cmp(op token.Token, x, y *Term) *Term {
	switch op {
	case token.EQL:
		return tt.Eq(x, y)
	case token.NEQ:
		return tt.Not(tt.Eq(x, y))
	case token.LSS:
		return tt.Lt(x, y)
	case token.GTR:
		return tt.Lt(y, x)
	case token.LEQ:
		if isFloat(x.Typ) {
			return tt.mk(OMin, "fle", types.Typ[types.Bool], nil, x, y)
		}
		return tt.Not(tt.Lt(y, x))
	case token.GEQ:
		if isFloat(x.Typ) {
			return tt.mk(OMin, "fle", types.Typ[types.Bool], nil, y, x)
		}
		return tt.Not(tt.Lt(x, y))
	}
	panic("cmp " + op.String())
}

func (tt *Terms) Len(x *Term) *Term {
	I := types.Typ[types.Int]
	switch x.Op {
	case OConst:
		if s, ok := x.StringVal(); ok {
			return tt.Int(int64(len(s)))
		}
	case ONil:
		return tt.Int(0)
	case OSlice:
		return tt.Bin(token.SUB, x.Args[2], x.Args[1], I)
	case OAlloc: // make: length is Args[0]
		if len(x.Args) > 0 {
			return x.Args[0]
		}
	case OConv:
		if x.Sub == "string" || x.Sub == "[]byte" {
			return tt.Len(x.Args[0])
		}
	case OAppend:
		n := tt.Len(x.Args[0])
		for _, p := range x.Args[1:] {
			if p.Op == OSpread {
				n = tt.Bin(token.ADD, n, tt.Len(p.Args[0]), I)
			} else {
				n = tt.Bin(token.ADD, n, tt.Int(1), I)
			}
		}
		return n
	case OConcat:
		n := tt.Int(0)
		for _, p := range x.Args {
			n = tt.Bin(token.ADD, n, tt.Len(p), I)
		}
		return n
	case OZero, OStruct:
	}
	if x.Typ != nil {
		u := x.Typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return tt.Int(a.Len())
		}
	}
	return tt.mk(OLen, "", I, nil, x)
}

func (tt *Terms) SliceOf(base, lo, hi *Term, typ types.Type) *Term {
	if base.Op == OSlice {
		nlo := tt.Bin(token.ADD, base.Args[1], lo, types.Typ[types.Int])
		nhi := tt.Bin(token.ADD, base.Args[1], hi, types.Typ[types.Int])
		return tt.mk(OSlice, "", typ, nil, base.Args[0], nlo, nhi)
	}
	if s, ok := base.StringVal(); ok {
		if l, ok1 := lo.Int64(); ok1 {
			if h, ok2 := hi.Int64(); ok2 && 0 <= l && l <= h && h <= int64(len(s)) {
				return tt.Str(s[l:h])
			}
		}
	}
	if n, ok := lo.Int64(); ok && n == 0 {
		if hi == tt.Len(base) && base.Op != OAlloc {
			if _, isPtr := ptrElem(base); !isPtr {
				return base
			}
		}
	}
	return tt.mk(OSlice, "", typ, nil, base, lo, hi)
}

func ptrElem(t *Term) (types.Type, bool) {
	if t.Typ == nil {
		return nil, false
	}
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func (tt *Terms) Append(dst *Term, pieces []*Term, typ types.Type) *Term {
	if len(pieces) == 0 {
		return dst
	}
	if dst.Op == OAppend {
		all := append(append([]*Term(nil), dst.Args...), pieces...)
		return tt.mk(OAppend, "", typ, nil, all...)
	}
	return tt.mk(OAppend, "", typ, nil, append([]*Term{dst}, pieces...)...)
}

func (tt *Terms) Spread(x *Term) *Term { return tt.mk(OSpread, "", x.Typ, nil, x) }

func (tt *Terms) Field(base *Term, name string, typ types.Type) *Term {
	return tt.mk(OField, name, types.NewPointer(typ), nil, base)
}
func (tt *Terms) Index(base, idx *Term, typ types.Type) *Term {
	if n, ok := idx.Int64(); ok && idx.Typ != types.Typ[types.Int] {
		idx = tt.Int(n)
	}
	return tt.mk(OIndex, "", types.NewPointer(typ), nil, base, idx)
}

func (tt *Terms) Proj(v *Term, i int, st *types.Struct) *Term {
	switch v.Op {
	case OStruct:
		if i < len(v.Args) {
			if vs, ok := v.Typ.Underlying().(*types.Struct); ok && vs.NumFields() == st.NumFields() {
				return v.Args[i]
			}
		}
	case OZero:
		return tt.Zero(st.Field(i).Type())
	}
	return tt.mk(OProj, st.Field(i).Name(), st.Field(i).Type(), nil, v)
}

func (tt *Terms) Iface(x *Term, dyn types.Type, typ types.Type) *Term {
	return tt.mk(OIface, dyn.String(), typ, dyn, x)
}

func (tt *Terms) Func(f *ssa.Function) *Term { return tt.mk(OFunc, f.String(), f.Type(), f) }

func (tt *Terms) Extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple {
		return t.Args[i]
	}
	return tt.mk(OExtract, strconv.Itoa(i), typ, nil, t)
}

// Pure is the result of a function without effects.
func (tt *Terms) Pure(name string, typ types.Type, args ...*Term) *Term {
	return tt.mk(OPure, name, typ, nil, args...)
}

func (tt *Terms) Tuple(args ...*Term) *Term { return tt.mk(OTuple, "", nil, nil, args...) }

// ADD is the addition operator, for building terms.
const ADD = token.ADD

// MUL is the multiplication operator.
const MUL = token.MUL
