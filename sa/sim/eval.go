package sim

import (
	"go/constant"
	"go/token"
	"go/types"
)

// Evaluator computes the value of a term from the values of its leaves.  It
// works on terms only: nothing of the analysed program runs.
type Evaluator struct {
	Leaf func(t *Term) (constant.Value, bool) // value of a term, asked first
	Call func(t *Term, idx []constant.Value) (constant.Value, bool)
	memo map[*Term]evalRes
}

type evalRes struct {
	v  constant.Value
	ok bool
}

func (e *Evaluator) Reset() { e.memo = nil }

// Eval returns the value of t, or false if it depends on something unknown.
func (e *Evaluator) Eval(t *Term) (constant.Value, bool) {
	if e.memo == nil {
		e.memo = map[*Term]evalRes{}
	}
	if r, ok := e.memo[t]; ok {
		return r.v, r.ok
	}
	v, ok := e.eval(t)
	e.memo[t] = evalRes{v, ok}
	return v, ok
}

var tokOf = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}

func (e *Evaluator) eval(t *Term) (constant.Value, bool) {
	if e.Leaf != nil {
		if v, ok := e.Leaf(t); ok {
			return v, v != nil
		}
	}
	un := func() (constant.Value, bool) { return nil, false }
	switch t.Op {
	case OConst:
		return t.Val, true
	case OConv:
		v, ok := e.Eval(t.Args[0])
		if !ok {
			return un()
		}
		switch t.Sub {
		case "string", "[]byte":
			return v, true
		}
		if _, _, isInt := intInfo(t.Typ); isInt && v.Kind() == constant.Int {
			return wrap(v, t.Typ), true
		}
		return un()
	case OBin:
		x, ok := e.Eval(t.Args[0])
		if !ok {
			return un()
		}
		y, ok := e.Eval(t.Args[1])
		if !ok {
			return un()
		}
		op, ok := tokOf[t.Sub]
		if !ok || x.Kind() != constant.Int || y.Kind() != constant.Int {
			return un()
		}
		switch op {
		case token.SHL, token.SHR:
			n, ok := constant.Int64Val(y)
			if !ok || n < 0 || n > 512 {
				return un()
			}
			return wrap(constant.Shift(x, op, uint(n)), t.Typ), true
		case token.QUO, token.REM:
			if constant.Sign(y) == 0 {
				return un()
			}
			if op == token.QUO {
				op = token.QUO_ASSIGN
			}
			// terms are normalised as mathematical integers
			return wrap(constant.BinaryOp(x, op, y), t.Typ), true
		}
		return wrap(constant.BinaryOp(x, op, y), t.Typ), true
	case OUn:
		x, ok := e.Eval(t.Args[0])
		if ok && t.Sub == "^" && x.Kind() == constant.Int {
			return wrap(constant.UnaryOp(token.XOR, x, 0), t.Typ), true
		}
	case OLt, OEq:
		x, ok := e.Eval(t.Args[0])
		if !ok {
			return un()
		}
		y, ok := e.Eval(t.Args[1])
		if !ok || x.Kind() != y.Kind() {
			return un()
		}
		if t.Op == OLt {
			return constant.MakeBool(constant.Compare(x, token.LSS, y)), true
		}
		return constant.MakeBool(constant.Compare(x, token.EQL, y)), true
	case ONot:
		x, ok := e.Eval(t.Args[0])
		if ok && x.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(x)), true
		}
	case OElem:
		if i, ok := e.Eval(t.Args[1]); ok {
			if s, ok := e.Eval(t.Args[0]); ok && s.Kind() == constant.String {
				str := constant.StringVal(s)
				if n, ok := constant.Int64Val(i); ok && n >= 0 && int(n) < len(str) {
					return constant.MakeInt64(int64(str[n])), true
				}
			}
		}
	}
	return un()
}

// IntInfo gives the width and signedness of an integer type.
func IntInfo(t types.Type) (bits int, signed bool, ok bool) { return intInfo(t) }

// Wrap reduces an integer to the range of a type.
func Wrap(v constant.Value, t types.Type) constant.Value { return wrap(v, t) }
