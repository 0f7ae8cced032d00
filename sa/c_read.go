package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C15", "The functions that read integers are interpreted, with the source, over every split of symbolic input; on every path the bytes the conditions allow and the terms of the result are compared with the decimal number the bytes are. The accumulation is examined in an arbitrary iteration for overflow, the narrower types for every region the conditions tell apart.", checkC15)
	register("C24", "The read and skip functions are interpreted, with the source, over every split of symbolic input: on every path, for all bytes (runes) its conditions allow, the input consumed and the result must be the longest run that matches.", checkC24)
}

// reader2 compares read and skip functions with what they shall do.
type reader2 struct {
	*parser
	ts       *tables
	examined int
}

func newReader2(p *sim.Program, r *Report) *reader2 {
	x := newParser(p, r, "parse/read", "parse/skip")
	if x == nil {
		return nil
	}
	y := &reader2{parser: x, ts: newTables(p, x.m)}
	base := x.m.Model
	x.m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		T := m.T
		b := types.Typ[types.Bool]
		switch ev.Callee {
		case "unicode.Is":
			if a := ev.Args[0]; a.Op == sim.OLoad && strings.HasSuffix(a.Args[0].String(), "unicode.White_Space") || strings.HasSuffix(a.String(), "unicode.White_Space)") {
				if n, ok := ev.Args[1].Int64(); ok {
					return T.Bool(n == ' ' || n >= 9 && n <= 13 || n == 0x85 || n == 0xa0), true
				}
				return T.Pure("IsSpace", b, ev.Args[1]), true
			}
			return T.Pure("Is", b, ev.Args[0], ev.Args[1]), true
		case "unicode.IsSpace":
			if n, ok := ev.Args[0].Int64(); ok {
				return T.Bool(n == ' ' || n >= 9 && n <= 13 || n == 0x85 || n == 0xa0), true
			}
			return T.Pure("IsSpace", b, ev.Args[0]), true
		case "unicode.In", "unicode.IsOneOf":
			r, set := ev.Args[0], ev.Args[1]
			if ev.Callee == "unicode.IsOneOf" {
				r, set = set, r
			}
			var es []*sim.Term
			if ev.HasVar {
				es = ev.Var
			} else if xs, ok := y.tablesOf(st, set); ok {
				es = xs
			} else {
				return nil, false
			}
			if len(es) == 0 {
				return T.Bool(false), true
			}
			if len(es) == 1 {
				return T.Pure("Is", b, es[0], r), true
			}
			return T.Pure("In", b, append([]*sim.Term{r}, es...)...), true
		}
		return base(m, st, ev)
	}
	return y
}

func (x *reader2) tablesOf(st *sim.State, set *sim.Term) ([]*sim.Term, bool) {
	if set.Op == sim.OAlloc {
		n, ok := x.m.T.Len(set).Int64()
		if !ok {
			return nil, false
		}
		et := set.Typ.Underlying().(*types.Slice).Elem()
		var out []*sim.Term
		for i := int64(0); i < n; i++ {
			out = append(out, x.m.Load(st, x.m.T.Index(set, x.m.T.Int(i), et), et))
		}
		return out, true
	}
	return x.m.Elements(st, set)
}

func readScripts() (out []*script) {
	for n := 0; n <= 4; n++ {
		out = append(out, &script{str: true, total: n})
	}
	for _, c := range [][]int{{1}, {2}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {1, 1, 2}} {
		n := 0
		for _, k := range c {
			n += k
		}
		out = append(out, &script{reads: c, end: "EOF", total: n})
		if n <= 3 {
			out = append(out, &script{reads: c, end: "E", total: n}, &script{reads: c, end: "EOF", withIt: true, total: n})
		}
	}
	return
}

// byteIn: the number of an input byte.
func byteIn(t *sim.Term) int {
	if t.Op == sim.OPure && t.Sub == "b" && len(t.Args) == 1 {
		if n, ok := t.Args[0].Int64(); ok {
			return int(n)
		}
	}
	return -1
}

// classes: for each byte of the input, the values the path allows.
type classes struct {
	sets  [][]int
	multi []*sim.Term
}

// evaluator over given bytes and parameters.
func (x *reader2) evaluator(bytes []int, vals map[*sim.Term]int64) *sim.Evaluator {
	e := &sim.Evaluator{}
	e.Leaf = func(t *sim.Term) (constant.Value, bool) {
		if v, ok := vals[t]; ok {
			return constant.MakeInt64(v), true
		}
		if i := byteIn(t); i >= 0 {
			if i < len(bytes) && bytes[i] >= 0 {
				return constant.MakeInt64(int64(bytes[i])), true
			}
			return nil, true
		}
		if t.Op == sim.OLoad && t.Args[0].Op == sim.OIndex && t.Args[0].Args[0].Op == sim.OAlloc {
			// a table the initialisers filled
			n, known := e.Eval(t.Args[0].Args[1])
			if known && n != nil && n.Kind() == constant.Int {
				k, _ := constant.Int64Val(n)
				if v := x.m.Load(x.base, x.m.T.Index(t.Args[0].Args[0], x.m.T.Int(k), t.Typ), t.Typ); v.IsConst() {
					return v.Val, true
				}
			}
			return nil, true
		}
		if t.Op == sim.OLoad || t.Op == sim.OElem {
			return x.ts.leaf(e, t)
		}
		return nil, false
	}
	return e
}

func (x *reader2) allowed(o *sim.State, vals map[*sim.Term]int64) *classes {
	n := x.sc.total
	c := &classes{sets: make([][]int, n)}
	atoms := make([][]*sim.Term, n)
	for a := range o.Facts.Atoms {
		in := map[int]bool{}
		a.Any(func(t *sim.Term) bool {
			if i := byteIn(t); i >= 0 && i < n {
				in[i] = true
			}
			return false
		})
		if len(in) == 1 {
			for i := range in {
				atoms[i] = append(atoms[i], a)
			}
		} else if len(in) > 1 {
			c.multi = append(c.multi, a)
		}
	}
	for i := range c.sets {
		bytes := make([]int, n)
		for j := range bytes {
			bytes[j] = -1
		}
		for v := 0; v < 256; v++ {
			bytes[i] = v
			ok := true
			for _, a := range atoms[i] {
				e := x.evaluator(bytes, vals)
				r, known := e.Eval(a)
				if known && constant.BoolVal(r) != o.Facts.Atoms[a] {
					ok = false
					break
				}
			}
			if ok {
				c.sets[i] = append(c.sets[i], v)
			}
		}
	}
	return c
}

// each calls f for inputs the path allows: every allowed value of every byte.
func (x *reader2) each(o *sim.State, vals map[*sim.Term]int64, f func(in []int) bool) {
	c := x.allowed(o, vals)
	for _, s := range c.sets {
		if len(s) == 0 {
			return
		}
	}
	try := func(in []int) bool {
		for _, a := range c.multi {
			r, known := x.evaluator(in, vals).Eval(a)
			if known && constant.BoolVal(r) != o.Facts.Atoms[a] {
				return true
			}
		}
		return f(in)
	}
	lo := make([]int, len(c.sets))
	hi := make([]int, len(c.sets))
	for i, s := range c.sets {
		lo[i], hi[i] = s[0], s[len(s)-1]
	}
	if !try(append([]int(nil), lo...)) || !try(append([]int(nil), hi...)) {
		return
	}
	for i, s := range c.sets {
		for _, v := range s {
			in := append([]int(nil), hi...)
			in[i] = v
			if !try(in) {
				return
			}
		}
	}
}

func showInput(in []int) string {
	b := make([]byte, len(in))
	for i, v := range in {
		b[i] = byte(v)
	}
	return fmt.Sprintf("%q", b)
}

// outcome of a call: how much was consumed, and the state after.
func (x *reader2) consumed(o *sim.State, src *sim.Term) (pos int, err *sim.Term, st *sim.State, ok bool) {
	st = o.Detach()
	pk := x.call(st, src, "Peek")
	er := x.call(st, src, "Error")
	if len(pk) != 1 || len(er) != 1 {
		return 0, nil, nil, false
	}
	bs, known := x.bytesOf(pk[0], pk[0].Ret)
	if !known {
		return 0, nil, nil, false
	}
	if len(bs) == 0 {
		return x.sc.total, er[0].Ret, er[0], true
	}
	for i := 0; i < x.sc.total; i++ {
		if bs[0] == x.b(i) {
			return i, er[0].Ret, er[0], true
		}
	}
	return 0, nil, nil, false
}

// run calls fn over the current script.
func (x *reader2) run(fn *ssa.Function, prep func(st *sim.State) []*sim.Term, each func(o *sim.State, pos int, err *sim.Term, es *sim.State)) {
	sts, src, failed := x.source()
	if failed {
		x.lost++
	}
	for _, st := range sts {
		st := st.Clone()
		args := prep(st)
		cut := x.m.Cut
		outs := x.m.Run(st, fn, append([]*sim.Term{src}, args...))
		if x.m.Cut > cut {
			x.r.Ob("ends", fn.Name(), false, where(x.p, fn), fmt.Sprintf("%v: the function goes on and on", x.sc))
			x.m.Cut = cut
			return
		}
		for _, o := range outs {
			if o.Panicked {
				if o.PanicAt != nil && x.feasible(o) {
					x.r.Ob("no-panic", fn.Name(), false, where(x.p, fn), fmt.Sprintf("%v: panics: %v", x.sc, o.PanicVal), trace(o)...)
				}
				continue
			}
			x.r.Ob("no-panic", fn.Name(), true, "", "")
			pos, err, es, ok := x.consumed(o, src)
			if !ok {
				x.lost++
				x.r.Note("%s: what is left of the input is not understood", fn.Name())
				continue
			}
			each(o, pos, err, es)
		}
	}
}

func (x *reader2) feasible(o *sim.State) bool {
	ok := false
	x.each(o, nil, func(in []int) bool { ok = true; return false })
	return ok || x.sc.total == 0
}

func isDigit(c int) bool { return c >= '0' && c <= '9' }

func checkC15(p *sim.Program, r *Report) {
	r.Assumptions = []string{"parse.Source works as C14 says"}
	x := newReader2(p, r)
	if x == nil {
		return
	}
	T := x.m.T
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"Int", "Int32", "Int64", "Uint64"} {
		fns[n] = p.Func("parse/read", n)
		if !r.Need(fns[n] != nil, "read."+n) {
			return
		}
	}
	for _, n := range []string{"Uint64", "Int64", "Int32", "Int"} {
		fn := fns[n]
		for _, sc := range readScripts() {
			x.sc, x.bufLen = sc, 2
			x.run(fn, func(st *sim.State) []*sim.Term { return nil }, func(o *sim.State, pos int, err *sim.Term, es *sim.State) {
				if sc.total == 0 {
					ok := es.Facts.NonNil(err) && (n == "Uint64" || !x.isErr(es, err, x.eof)) && isInt(o.Ret, 0)
					r.Ob("empty", n, ok, where(p, fn), fmt.Sprintf("no input: gives %v, %v", o.Ret, err), traceIf(!ok, o)...)
					return
				}
				x.each(o, nil, func(in []int) bool {
					i, neg := 0, false
					if n != "Uint64" && in[0] == '-' {
						i, neg = 1, true
					}
					val := int64(0)
					for ; i < len(in) && isDigit(in[i]); i++ {
						val = val*10 + int64(in[i]-'0')
					}
					if neg {
						val = -val
					}
					x.examined++
					bad := func(rule, format string, a ...interface{}) bool {
						r.Ob(rule, n, false, where(p, fn), fmt.Sprintf("input %s (%v): ", showInput(in), sc)+fmt.Sprintf(format, a...), trace(o)...)
						return false
					}
					if pos != i {
						return bad("consumed", "%d bytes are consumed, the number has %d", pos, i)
					}
					e := x.evaluator(in, nil)
					v, known := e.Eval(o.Ret)
					if !known {
						x.lost++
						r.Note("%s: the result %v is not understood", n, o.Ret)
						return false
					}
					if !constant.Compare(v, token.EQL, constant.MakeInt64(val)) {
						return bad("value", "gives %v, not %d", v, val)
					}
					end := i == len(in)
					if !end && !es.Facts.IsNil(err) || end && !x.isErr(es, err, x.end()) {
						return bad("error", "the error is %v", err)
					}
					r.Ob("value", n, true, "", "")
					return true
				})
			})
		}
	}
	r.Ob("coverage", "inputs", x.lost > 0 || x.examined >= 5000, "parse/read", fmt.Sprintf("only %d inputs were examined", x.examined))
	x.overflow(fns["Uint64"])
	for _, n := range []string{"Int64", "Int32", "Int"} {
		x.narrow(fns[n], fns["Uint64"], n)
	}
	r.Absorb(x.m)
	_ = T
}

// corners: values of an accumulator at which conditions may change.
func corners(atoms map[*sim.Term]bool) []*big.Int {
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	seen := map[string]*big.Int{}
	add := func(v *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			w := new(big.Int).Add(v, big.NewInt(d))
			if w.Sign() >= 0 && w.Cmp(two64) < 0 {
				seen[w.String()] = w
			}
		}
	}
	for _, n := range []uint{0, 3, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64} {
		add(new(big.Int).Lsh(big.NewInt(1), n))
	}
	for k := int64(1); k <= 10; k++ {
		for _, d := range []int64{8, 9, 10} {
			v := new(big.Int).Mul(two64, big.NewInt(k))
			add(v.Div(v, big.NewInt(d)))
		}
	}
	v := big.NewInt(1)
	for v.Cmp(two64) < 0 {
		add(v)
		v = new(big.Int).Mul(v, big.NewInt(10))
	}
	for a := range atoms {
		a.Any(func(t *sim.Term) bool {
			if t.Op == sim.OConst && t.Val.Kind() == constant.Int {
				if n, ok := new(big.Int).SetString(t.Val.ExactString(), 10); ok {
					add(n)
					q := new(big.Int).Div(n, big.NewInt(10))
					add(q)
				}
			}
			return false
		})
	}
	var out []*big.Int
	for _, v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return out
}

func bigVal(v *big.Int) constant.Value {
	return constant.MakeFromLiteral(v.String(), token.INT, 0)
}

// overflow: one turn of the accumulation, from any value.
func (x *reader2) overflow(fn *ssa.Function) {
	p, r := x.p, x.r
	m := p.NewMachine()
	m.Opaque = func(f *ssa.Function) bool {
		return pkgOf(f) != "parse/read"
	}
	m.AbstractFirst, m.MaxIter = true, 1
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	ts := newTables(p, m)
	two64 := new(big.Int).Lsh(big.NewInt(1), 64)
	steps, stops := 0, 0
	u64 := types.Typ[types.Uint64]
	isAcc := func(t *sim.Term) bool {
		return t.Op == sim.OSym && t.Typ != nil && types.Identical(t.Typ.Underlying(), u64)
	}
	isByte := func(t *sim.Term) bool {
		if t.Op != sim.OLoad || t.Typ == nil || !types.Identical(t.Typ.Underlying(), types.Typ[types.Byte]) || t.Args[0].Op != sim.OIndex {
			return false
		}
		return t.Args[0].Args[0].Any(func(q *sim.Term) bool { return q.Op == sim.OCall && strings.Contains(q.Sub, "parse.Source).Peek") }) ||
			t.Args[0].Args[0].Op == sim.OCall
	}
	// find: the accumulator and the byte in the terms.
	find := func(facts *sim.Facts, val *sim.Term) (acc, c *sim.Term, ok bool) {
		accs, cs := map[*sim.Term]bool{}, map[*sim.Term]bool{}
		look := func(t *sim.Term) {
			t.Any(func(q *sim.Term) bool {
				if isAcc(q) {
					accs[q] = true
				}
				if isByte(q) {
					cs[q] = true
				}
				return false
			})
		}
		if val != nil {
			look(val)
		}
		n := len(accs)
		for a := range facts.Atoms {
			if n == 0 || len(cs) == 0 {
				look(a)
			}
		}
		if val != nil && n == 1 {
			accs2 := map[*sim.Term]bool{}
			val.Any(func(q *sim.Term) bool {
				if isAcc(q) {
					accs2[q] = true
				}
				return false
			})
			accs = accs2
		}
		if len(accs) != 1 || len(cs) != 1 {
			return nil, nil, false
		}
		for a := range accs {
			acc = a
		}
		for b := range cs {
			c = b
		}
		return acc, c, true
	}
	// each (value, byte) the conditions allow
	each := func(facts *sim.Facts, acc, c *sim.Term, f func(v *big.Int, b int, e *sim.Evaluator) bool) {
		var atoms []*sim.Term
		for a := range facts.Atoms {
			if a.Any(func(q *sim.Term) bool { return q == acc || q == c }) {
				atoms = append(atoms, a)
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].String() < atoms[j].String() })
		for b := 0; b < 256; b++ {
			for _, v := range corners(facts.Atoms) {
				e := &sim.Evaluator{}
				e.Leaf = func(t *sim.Term) (constant.Value, bool) {
					switch {
					case t == acc:
						return bigVal(v), true
					case t == c:
						return constant.MakeInt64(int64(b)), true
					case t.Op == sim.OLoad || t.Op == sim.OElem:
						return ts.leaf(e, t)
					}
					return nil, false
				}
				ok := true
				for _, a := range atoms {
					r, known := e.Eval(a)
					if !known {
						if a.Op == sim.OLt && a.Args[1].Op == sim.OLen {
							continue // within the table
						}
						x.lost++
						x.r.Note("a condition of the accumulation is not understood: %v", a)
						return
					}
					if constant.BoolVal(r) != facts.Atoms[a] {
						ok = false
						break
					}
				}
				if ok && !f(v, b, e) {
					return
				}
				if !ok && b > 0x80 && b < 0xff {
					break
				}
			}
		}
	}
	next := func(v *big.Int, b int) *big.Int {
		n := new(big.Int).Mul(v, big.NewInt(10))
		return n.Add(n, big.NewInt(int64(b-'0')))
	}
	m.OnArrive = func(le *sim.LoopEvent) bool {
		for i, ph := range le.Phis {
			if !types.Identical(ph.Type().Underlying(), u64) {
				continue
			}
			val := le.Vals[i]
			if isAcc(val) || isInt(val, 0) && !le.Back {
				r.Ob("accumulated", "carried", true, "", "")
				continue
			}
			if !le.Back {
				r.Note("the accumulation starts with %v", val)
				continue
			}
			acc, c, ok := find(le.St.Facts, val)
			if !ok {
				x.lost++
				r.Note("the accumulation is not understood: %v", val)
				continue
			}
			each(le.St.Facts, acc, c, func(v *big.Int, b int, e *sim.Evaluator) bool {
				if !isDigit(b) {
					return r.Ob("accumulated", "digit", false, where(p, fn), fmt.Sprintf("the byte %q is taken for a digit", rune(b)), trace(le.St)...)
				}
				want := next(v, b)
				steps++
				if want.Cmp(two64) >= 0 {
					return r.Ob("overflow", "Uint64", false, where(p, fn), fmt.Sprintf("%v followed by the digit %c is more than a uint64 holds, but no error is reported", v, b), trace(le.St)...)
				}
				got, known := e.Eval(val)
				if !known {
					x.lost++
					r.Note("the accumulation is not understood: %v", val)
					return false
				}
				return r.Ob("accumulated", "value", constant.Compare(got, token.EQL, bigVal(want)), where(p, fn), fmt.Sprintf("%v followed by the digit %c becomes %v", v, b, got))
			})
		}
		return true
	}
	// a narrower type for rebinding of arrivals is not needed: returns follow
	st := m.NewState()
	for _, o := range m.Run(st, fn, m.Params(fn, "")) {
		reported := false
		for _, ev := range o.Trace {
			reported = reported || ev.Kind == "call" && srcOp(ev.Callee) == "ReportError"
		}
		if !reported || o.Panicked {
			continue
		}
		acc, c, ok := find(o.Facts, nil)
		if !ok {
			r.Note("a path that reports an error is not understood")
			continue
		}
		each(o.Facts, acc, c, func(v *big.Int, b int, e *sim.Evaluator) bool {
			stops++
			return r.Ob("overflow", "Uint64", isDigit(b) && next(v, b).Cmp(two64) >= 0, where(p, fn), fmt.Sprintf("%v followed by %q is reported as an error although it fits", v, rune(b)), trace(o)...)
		})
	}
	r.Ob("coverage", "accumulation", x.lost > 0 || steps >= 500 && stops >= 50, where(p, fn), fmt.Sprintf("only %d steps and %d overflows were examined", steps, stops))
	r.Absorb(m)
}

// narrow: the signed functions for every value the unsigned one may give.
func (x *reader2) narrow(fn, u *ssa.Function, n string) {
	p, r, m := x.p, x.r, x.m
	T := m.T
	bits := uint(63)
	if n == "Int32" {
		bits = 31
	}
	base := m.Model
	opaque := m.Opaque
	val := T.Param("unsigned", types.Typ[types.Uint64])
	m.Opaque = func(f *ssa.Function) bool { return f == u || opaque(f) }
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if calleeOf(ev) == u {
			return val, true
		}
		return base(m, st, ev)
	}
	defer func() { m.Model, m.Opaque = base, opaque }()
	examined := 0
	for _, neg := range []bool{false, true} {
		x.sc, x.bufLen = &script{str: true, total: 3}, 2
		x.lead, x.leadAt = T.Const(constant.MakeInt64('5'), x.byteT()), 0
		if neg {
			x.lead = T.Const(constant.MakeInt64('-'), x.byteT())
		}
		sts, src, failed := x.source()
		x.lead = nil
		if failed {
			x.lost++
			continue
		}
		for _, st := range sts {
			for _, o := range m.Run(st, fn, []*sim.Term{src}) {
				if o.Panicked {
					continue
				}
				uses := false
				reported := false
				for _, ev := range o.Trace {
					uses = uses || ev.Kind == "call" && calleeOf(ev) == u
				}
				er := x.call(o.Detach(), src, "Error")
				if len(er) != 1 {
					x.lost++
					continue
				}
				reported = er[0].Facts.NonNil(er[0].Ret)
				if !uses {
					x.lost++
					r.Note("%s does not use Uint64", n)
					continue
				}
				limit := new(big.Int).Lsh(big.NewInt(1), bits)
				if !neg {
					limit.Sub(limit, big.NewInt(1))
				}
				for _, v := range corners(o.Facts.Atoms) {
					e := &sim.Evaluator{Leaf: func(t *sim.Term) (constant.Value, bool) {
						if t == val {
							return bigVal(v), true
						}
						return nil, false
					}}
					ok, known := true, true
					for a, want := range o.Facts.Atoms {
						if !a.Contains(val) {
							continue
						}
						b, k := e.Eval(a)
						known = known && k
						if k && constant.BoolVal(b) != want {
							ok = false
						}
					}
					if !ok || !known {
						continue
					}
					examined++
					sign := ""
					want := new(big.Int).Set(v)
					if neg {
						sign = "-"
						want.Neg(want)
					}
					if v.Cmp(limit) > 0 {
						r.Ob("range", n, reported, where(p, fn), fmt.Sprintf("%s%v is out of range but no error is reported", sign, v), traceIf(!reported, o)...)
						continue
					}
					if !r.Ob("range", n, !reported, where(p, fn), fmt.Sprintf("%s%v is reported as an error", sign, v), traceIf(reported, o)...) {
						continue
					}
					got, k := e.Eval(o.Ret)
					if !k {
						x.lost++
						r.Note("%s: the result %v is not understood", n, o.Ret)
						continue
					}
					r.Ob("signed", n, constant.Compare(got, token.EQL, bigVal(want)), where(p, fn), fmt.Sprintf("%s%v is read as %v", sign, v, got))
				}
			}
		}
	}
	r.Ob("coverage", n, x.lost > 0 || examined >= 100, where(p, fn), fmt.Sprintf("only %d values were examined", examined))
}

func checkC24(p *sim.Program, r *Report) {
	r.Assumptions = []string{"parse.Source works as C14 says"}
	x := newReader2(p, r)
	if x == nil {
		return
	}
	m, T := x.m, x.m.T
	bytesT := x.bytes()
	type bfn struct {
		pkg, name string
		stops     int
	}
	for _, f := range []bfn{{"parse/read", "AnyExcept1", 1}, {"parse/read", "AnyExcept2", 2}, {"parse/skip", "Space", 0}} {
		fn := p.Func(f.pkg, f.name)
		if !r.Need(fn != nil, f.pkg+"."+f.name) {
			continue
		}
		var stops []*sim.Term
		for i := 0; i < f.stops; i++ {
			stops = append(stops, T.Param(fmt.Sprintf("stop%d", i), x.byteT()))
		}
		space := T.Param("space", bytesT)
		for _, sc := range readScripts() {
			x.sc, x.bufLen = sc, 2
			x.run(fn, func(st *sim.State) []*sim.Term {
				if f.stops == 0 {
					return nil
				}
				return append([]*sim.Term{space}, stops...)
			}, func(o *sim.State, pos int, err *sim.Term, es *sim.State) {
				for _, sv := range [][]int64{{'}', ','}, {0, 0xff}, {'x', 'x'}, {' ', '\n'}} {
					vals := map[*sim.Term]int64{}
					for i, s := range stops {
						vals[s] = sv[i]
					}
					if f.stops == 0 && sv[0] != 0 {
						continue
					}
					// conditions on the stops alone
					skip := false
					for a, want := range o.Facts.Atoms {
						if v, known := x.evaluator(nil, vals).Eval(a); known && constant.BoolVal(v) != want {
							skip = true
						}
					}
					if skip {
						continue
					}
					match := func(c int) bool {
						if f.stops == 0 {
							return c >= 9 && c <= 13 || c == ' '
						}
						for i := range stops {
							if int64(c) == sv[i] {
								return false
							}
						}
						return true
					}
					x.each(o, vals, func(in []int) bool {
						k := 0
						for k < len(in) && match(in[k]) {
							k++
						}
						x.examined++
						bad := func(rule, format string, a ...interface{}) bool {
							r.Ob(rule, f.name, false, where(p, fn), fmt.Sprintf("input %s (%v), stop at %v: ", showInput(in), sc, sv[:f.stops])+fmt.Sprintf(format, a...), trace(o)...)
							return false
						}
						if pos != k {
							return bad("consumed", "%d bytes are consumed, %d match", pos, k)
						}
						end := k == len(in)
						if !end && !es.Facts.IsNil(err) || end && !x.isErr(es, err, x.end()) {
							return bad("error", "the error is %v", err)
						}
						if f.stops == 0 {
							v, known := x.evaluator(in, vals).Eval(o.Ret)
							if !known {
								x.lost++
								return false
							}
							if !constant.Compare(v, token.EQL, constant.MakeInt64(int64(k))) {
								return bad("result", "gives %v, %d bytes are skipped", v, k)
							}
						} else {
							base := o.Ret
							for base.Op == sim.OSlice || base.Op == sim.OAppend {
								base = base.Args[0]
							}
							if base == x.buf && x.buf != nil {
								return bad("result", "the result is a part of the source's buffer, not a copy")
							}
							ps, ok := x.pieces(o, o.Ret, space)
							if !ok {
								x.lost++
								r.Note("%s: the result %v is not understood", f.name, o.Ret)
								return false
							}
							if !x.same(o, ps, x.stream(0, k)) {
								return bad("result", "appends %s, the run is %s", showBytes(ps), showBytes(x.stream(0, k)))
							}
						}
						r.Ob("consumed", f.name, true, "", "")
						return true
					})
				}
			})
		}
	}
	r.Ob("coverage", "inputs", x.lost > 0 || x.examined >= 3000, "parse", fmt.Sprintf("only %d inputs were examined", x.examined))
	x.runeFns()
	r.Absorb(m)
}

// pieces: the elements appended to space.
func (x *reader2) pieces(o *sim.State, t, space *sim.Term) ([]*sim.Term, bool) {
	if t == space {
		return nil, true
	}
	if t.Op != sim.OAppend {
		return nil, false
	}
	out, ok := x.pieces(o, t.Args[0], space)
	if !ok {
		return nil, false
	}
	for _, p := range t.Args[1:] {
		if p.Op != sim.OSpread {
			out = append(out, p)
			continue
		}
		bs, ok := x.bytesOf(o, p.Args[0])
		if !ok {
			return nil, false
		}
		out = append(out, bs...)
	}
	return out, true
}

// runeFns: the functions that read and skip runes.
func (x *reader2) runeFns() {
	p, r, m := x.p, x.r, x.m
	T := m.T
	base := m.Model
	sizes := map[int]int{} // position of a rune -> its size
	// runeAt: the rune that starts at a position.
	runeAt := func(at int, typ types.Type) *sim.Term {
		if sizes[at] == 1 {
			n, _ := x.leads[at].Int64()
			return T.Const(constant.MakeInt64(n), typ)
		}
		return T.Pure("rune", typ, T.Int(int64(at)))
	}
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if ev.Callee == "unicode/utf8.DecodeRune" || ev.Callee == "unicode/utf8.FullRune" {
			bs, ok := x.bytesOf(st, ev.Args[0])
			if !ok {
				return nil, false
			}
			at := -1
			if len(bs) > 0 {
				for i := 0; i < x.sc.total; i++ {
					if bs[0] == x.rb(i) {
						at = i
					}
				}
			}
			n := sizes[at]
			if ev.Callee == "unicode/utf8.FullRune" {
				return T.Bool(at >= 0 && len(bs) >= n), true
			}
			tup, _ := evResult(ev).(*types.Tuple)
			if at < 0 || n == 0 {
				// an empty input, or not the start of a rune
				sz := int64(1)
				if len(bs) == 0 {
					sz = 0
				}
				return T.Tuple(T.Const(constant.MakeInt64(0xfffd), tup.At(0).Type()), T.Int(sz)), true
			}
			if len(bs) < n {
				return T.Tuple(T.Const(constant.MakeInt64(0xfffd), tup.At(0).Type()), T.Int(1)), true
			}
			return T.Tuple(runeAt(at, tup.At(0).Type()), T.Int(int64(n))), true
		}
		t, ok := base(m, st, ev)
		if ok && t.Op == sim.OPure && t.Sub == "IsSpace" && t.Args[0].Op == sim.OPure && t.Args[0].Sub == "rune" {
			if at, k := t.Args[0].Args[0].Int64(); k && x.leads[int(at)] != nil {
				if n, _ := x.leads[int(at)].Int64(); n != 0xc2 && (n < 0xe1 || n > 0xe3) {
					return T.Bool(false), true
				}
			}
		}
		return t, ok
	}
	defer func() { m.Model = base }()
	lead := map[int][]int64{1: {' ', '\n', 'a'}, 2: {0xc2, 0xc3}, 3: {0xe2, 0xe4}, 4: {0xf0}}
	runeT := types.Typ[types.Rune]
	examined := 0
	for _, f := range []struct {
		pkg, name string
		read      bool
		ranges    bool
		space     bool
	}{{"parse/read", "UnicodeRange", true, false, false}, {"parse/read", "UnicodeRanges", true, true, false},
		{"parse/skip", "UnicodeRange", false, false, false}, {"parse/skip", "UnicodeRanges", false, true, false}, {"parse/skip", "UnicodeSpace", false, false, true}} {
		fn := p.Func(f.pkg, f.name)
		what := strings.TrimPrefix(f.pkg, "parse/") + "." + f.name
		if !r.Need(fn != nil, what) {
			continue
		}
		shapes := [][]int{{}, {1}, {2}, {3}, {4}, {1, 2}, {2, 1}, {3, 1}, {1, 1, 1}, {1, 4}, {2, 2}, {1, 3, 1}, {3, 3}}
		nShapes := len(shapes)
		if f.space {
			for i := 0; i < 128; i++ {
				shapes = append(shapes, []int{1})
			}
		}
		for shape, runes := range shapes {
			total := 0
			for _, n := range runes {
				total += n
			}
			var scs []*script
			scs = append(scs, &script{str: true, total: total})
			if total > 0 {
				var ones []int
				for i := 0; i < total; i++ {
					ones = append(ones, 1)
				}
				scs = append(scs, &script{reads: ones, end: "EOF", total: total}, &script{reads: []int{total}, end: "E", total: total})
				if total > 2 {
					scs = append(scs, &script{reads: []int{2, total - 2}, end: "EOF", total: total, withIt: true})
				}
			}
			for k := range sizes {
				delete(sizes, k)
			}
			x.leads = map[int]*sim.Term{}
			starts := []int{}
			at := 0
			nth := map[int]int{}
			for _, n := range runes {
				sizes[at] = n
				starts = append(starts, at)
				c := lead[n][nth[n]]
				if shape >= nShapes {
					c = int64(shape - nShapes)
				}
				nth[n]++
				x.leads[at] = T.Const(constant.MakeInt64(c), x.byteT())
				at += n
			}
			if shape >= nShapes {
				scs = scs[:1]
			}
			for _, sc := range scs {
				for _, cfg := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}} {
					if !f.ranges && cfg != [2]int{0, 0} {
						continue
					}
					x.sc, x.bufLen = sc, 6
					var incl, excl []*sim.Term
					space := T.Param("runes", types.NewSlice(runeT))
					var table *sim.Term
					x.run(fn, func(st *sim.State) []*sim.Term {
						var args []*sim.Term
						if f.read {
							args = append(args, space)
						}
						ps := fn.Params
						switch {
						case f.space:
						case f.ranges:
							incl, excl = nil, nil
							for k, n := range cfg {
								typ := ps[len(ps)-2+k].Type()
								sl := typ.Underlying().(*types.Slice)
								s := m.MakeSlice(fmt.Sprintf("tables%d", k), int64(n), typ)
								if n == 0 {
									s = T.Zero(typ)
								}
								for i := 0; i < n; i++ {
									e := T.Param(fmt.Sprintf("table%d.%d", k, i), sl.Elem())
									m.Store(st, T.Index(s, T.Int(int64(i)), sl.Elem()), e, sl.Elem())
									if k == 0 {
										incl = append(incl, e)
									} else {
										excl = append(excl, e)
									}
								}
								args = append(args, s)
							}
						default:
							table = T.Param("table", ps[len(ps)-1].Type())
							args = append(args, table)
						}
						return args
					}, func(o *sim.State, pos int, err *sim.Term, es *sim.State) {
						in := func(rn *sim.Term, set []*sim.Term) sim.Tri {
							if len(set) == 0 {
								return sim.False
							}
							res := sim.False
							for _, t := range set {
								switch o.Facts.Eval(T.Pure("Is", types.Typ[types.Bool], t, rn)) {
								case sim.True:
									return sim.True
								case sim.Unknown:
									res = sim.Unknown
								}
							}
							if res == sim.Unknown && len(set) > 1 {
								return o.Facts.Eval(T.Pure("In", types.Typ[types.Bool], append([]*sim.Term{rn}, set...)...))
							}
							return res
						}
						match := func(i int) sim.Tri {
							rn := runeAt(starts[i], runeT)
							switch {
							case f.space:
								switch n, _ := x.leads[starts[i]].Int64(); {
								case n < 0x80:
									if n == ' ' || n >= 9 && n <= 13 {
										return sim.True
									}
									return sim.False
								case n != 0xc2 && (n < 0xe1 || n > 0xe3):
									return sim.False
								}
								return o.Facts.Eval(T.Pure("IsSpace", types.Typ[types.Bool], rn))
							case f.ranges:
								ex, inc := in(rn, excl), sim.True
								if len(incl) > 0 {
									inc = in(rn, incl)
								}
								if ex == sim.True || inc == sim.False {
									return sim.False
								}
								if ex == sim.False && inc == sim.True {
									return sim.True
								}
								return sim.Unknown
							}
							return in(rn, []*sim.Term{table})
						}
						examined++
						where := where(p, fn)
						what := what
						desc := fmt.Sprintf("runes of %v bytes (%v), %d ranges, %d excluded: ", runes, sc, cfg[0], cfg[1])
						bad := func(rule, format string, a ...interface{}) {
							r.Ob(rule, what, false, where, desc+fmt.Sprintf(format, a...), trace(o)...)
						}
						// byBytes: are there conditions on bytes of rune i?
						byBytes := func(i int) bool {
							for a := range o.Facts.Atoms {
								if a.Any(func(t *sim.Term) bool {
									n := byteIn(t)
									return n > starts[i] && n < starts[i]+runes[i]
								}) {
									return true
								}
							}
							return false
						}
						k := 0 // runes consumed
						for k < len(starts) && pos > starts[k] {
							if pos < starts[k]+runes[k] {
								bad("consumed", "stops within a rune, after %d bytes", pos)
								return
							}
							k++
						}
						for i := 0; i < k; i++ {
							switch match(i) {
							case sim.False:
								bad("consumed", "rune %d does not match but is consumed", i)
								return
							case sim.Unknown:
								if byBytes(i) {
									x.lost++
									r.Note("%s: decides by the bytes of a rune", what)
									return
								}
								bad("consumed", "rune %d is consumed without knowing whether it matches", i)
								return
							}
						}
						if k < len(starts) {
							if t := match(k); t != sim.False {
								if t == sim.Unknown && byBytes(k) {
									x.lost++
									r.Note("%s: decides by the bytes of a rune", what)
									return
								}
								bad("consumed", "rune %d matches (or may) but is not consumed", k)
								return
							}
							if !es.Facts.IsNil(err) {
								bad("error", "the error is %v", err)
								return
							}
						} else if !x.isErr(es, err, x.end()) {
							bad("error", "at the end of the input, the error is %v", err)
							return
						}
						if f.read {
							ps, ok := x.pieces(o, o.Ret, space)
							if !ok {
								x.lost++
								r.Note("%s: the result %v is not understood", what, o.Ret)
								return
							}
							ok = len(ps) == k
							for i := 0; ok && i < k; i++ {
								ok = ps[i] == runeAt(starts[i], runeT)
							}
							if !ok {
								bad("result", "appends %v, %d runes match", ps, k)
								return
							}
						} else if !isInt(o.Ret, int64(pos)) {
							if o.Ret.IsConst() {
								bad("result", "gives %v, %d bytes are skipped", o.Ret, pos)
								return
							}
							x.lost++
							r.Note("%s: the result %v is not understood", what, o.Ret)
						}
						r.Ob("consumed", what, true, "", "")
					})
				}
			}
		}
	}
	x.leads = nil
	r.Ob("coverage", "runes", x.lost > 0 || examined >= 500, "parse", fmt.Sprintf("only %d ways to read runes were examined", examined))
}

// rb: byte i of the input.
func (x *reader2) rb(i int) *sim.Term { return x.b(i) }
