package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C09", "Ctx, Value, Add, AddLogContext and GetLogContext are interpreted with unknown contexts, keys and values and log contexts of several sizes: what they give and what the log context holds afterwards is compared with a list of pairs.", checkC09)
}

func checkC09(p *sim.Program, r *Report) {
	ctxT := p.Type("countlog", "Context")
	lcT := p.Type("countlog/spi", "LogContext")
	ctxFn, addFn, getFn := p.Func("countlog", "Ctx"), p.Func("countlog/spi", "AddLogContext"), p.Func("countlog/spi", "GetLogContext")
	if !r.Need(ctxT != nil && lcT != nil && ctxFn != nil && addFn != nil && getFn != nil, "countlog.Ctx, countlog.Context, spi.LogContext, AddLogContext, GetLogContext") {
		return
	}
	pt := types.NewPointer(ctxT)
	valueFn, addM := p.MethodOf(pt, "Value"), p.MethodOf(pt, "Add")
	if !r.Need(valueFn != nil && addM != nil, "Value and Add of a Context") {
		return
	}
	m := p.NewMachine()
	T := m.T
	m.Unroll = 20
	m.Opaque = onlyPkgs("countlog", "countlog/spi")
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	iface := ctxFn.Params[0].Type()
	propsOf := func(st *sim.State, lc *sim.Term) *sim.Term {
		s := lcT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == "Properties" {
				return m.Load(st, T.Field(lc, f.Name(), f.Type()), f.Type())
			}
		}
		return T.Nil()
	}
	keyG := p.Global("countlog/spi", "LogContextKey")
	if !r.Need(keyG != nil, "spi.LogContextKey") {
		return
	}
	lost := 0
	ob := func(rule string, fn *ssa.Function, msg string, o *sim.State) {
		if strings.HasPrefix(msg, "?") {
			r.Note("%s: %s", fname(fn), msg[1:])
			lost++
			return
		}
		r.Ob(rule, fname(fn), msg == "", where(p, fn), msg, traceIf(msg != "", o)...)
	}
	lcKey := func(st *sim.State) *sim.Term {
		kt := keyG.Type().Underlying().(*types.Pointer).Elem()
		return T.Iface(m.LoadGlobal(st, keyG), kt, valueFn.Params[1].Type())
	}
	// value asks a Context (in st) for key.
	ask := func(st *sim.State, c, key *sim.Term) []*sim.State {
		return m.Run(st.Clone(), valueFn, []*sim.Term{c, key})
	}
	// logContextOf: the log context that c holds.
	logContextOf := func(st *sim.State, c *sim.Term) (*sim.Term, string) {
		outs := ask(st, c, lcKey(st))
		var lc *sim.Term
		for _, o := range outs {
			if o.Panicked {
				return nil, fmt.Sprintf("Value panics: %v", o.PanicVal)
			}
			v := o.Ret
			if v.Op != sim.OIface {
				return nil, fmt.Sprintf("Value of the key of the log context gives %v", v)
			}
			if t, _ := v.Obj.(types.Type); t == nil || !types.Identical(t, types.NewPointer(lcT)) {
				return nil, fmt.Sprintf("Value of the key of the log context gives a %v", v.Obj)
			}
			if lc != nil && lc != v.Args[0] {
				return nil, "?different log contexts"
			}
			lc = v.Args[0]
		}
		if lc == nil {
			return nil, "?no log context"
		}
		return lc, ""
	}

	parent := T.Param("parent", iface)
	key := T.Param("key", valueFn.Params[1].Type())
	made := 0
	var mine []*sim.State
	st0 := m.NewState()
	st0.Facts.Assert(T.Eq(parent, T.Nil()), false)
	for _, o := range m.Run(st0, ctxFn, []*sim.Term{parent}) {
		if o.Panicked {
			ob("ctx", ctxFn, fmt.Sprintf("panics: %v", o.PanicVal), o)
			continue
		}
		switch isCtx(o, T, parent, pt) {
		case sim.True:
			msg := ""
			if o.Ret.Op != sim.OAssert && o.Ret != parent && !o.Ret.Contains(parent) {
				msg = "a Context is wrapped again"
			} else if o.Ret.Op == sim.OAlloc {
				msg = "a Context is wrapped again"
			}
			ob("ctx", ctxFn, msg, o)
			continue
		case sim.Unknown:
			if o.Ret.Op == sim.OAlloc {
				ob("ctx", ctxFn, "wraps the context without knowing if it is one already", o)
				continue
			}
		}
		if o.Ret.Op != sim.OAlloc {
			ob("ctx", ctxFn, fmt.Sprintf("gives %v for a context that is none of countlog", o.Ret), o)
			continue
		}
		st := o.Detach()
		lc, msg := logContextOf(st, o.Ret)
		if msg == "" && lc.Op != sim.OAlloc {
			msg = fmt.Sprintf("its log context is %v, not a new one", lc)
			if lc.Op == sim.ONil {
				msg = "it has no log context"
			}
		}
		if msg == "" && T.Len(propsOf(st, lc)) != T.Int(0) && propsOf(st, lc).Op != sim.ONil {
			msg = "its log context is not empty"
		}
		ob("ctx", ctxFn, msg, o)
		if msg == "" {
			made++
			mine = append(mine, o)
		}
	}
	r.Ob("made", "Ctx", made > 0 || lost > 0 || len(r.Viol) > 0, where(p, ctxFn), "makes no Context")

	// Value
	nilC := T.Zero(pt)
	for _, o := range ask(m.NewState(), nilC, key) {
		msg := ""
		if o.Panicked {
			msg = fmt.Sprintf("panics without a Context: %v", o.PanicVal)
		} else if o.Ret.Op != sim.ONil {
			msg = fmt.Sprintf("gives %v without a Context", o.Ret)
		}
		ob("value", valueFn, msg, o)
	}
	for _, c := range mine {
		st := c.Detach()
		st.Facts.Assert(T.Eq(parent, T.Nil()), false)
		lc, _ := logContextOf(st, c.Ret)
		for _, o := range ask(st, c.Ret, key) {
			if o.Panicked {
				if !o.Facts.IsNil(parent) {
					ob("value", valueFn, fmt.Sprintf("panics: %v", o.PanicVal), o)
				}
				continue
			}
			is := o.Facts.Eval(T.Eq(key, lcKey(st)))
			if is == sim.Unknown {
				is = equalByParts(o, T, key, lcKey(st))
			}
			var asked []*sim.Event
			for _, ev := range o.Trace {
				if name, recv, args := method(ev); ev.Kind == "call" && name == "Value" && recv == parent {
					if args[0] != key {
						ob("value", valueFn, fmt.Sprintf("asks the wrapped context for %v", args[0]), o)
					}
					asked = append(asked, ev)
				}
			}
			msg := ""
			switch {
			case o.Ret.Op == sim.OIface && o.Ret.Args[0] == lc:
				if is != sim.True {
					msg = "gives the log context for another key"
				}
			case len(asked) == 1 && o.Ret == asked[0].Res:
				if is != sim.False {
					msg = "asks the wrapped context for the log context"
				}
			default:
				msg = fmt.Sprintf("gives %v", o.Ret)
			}
			ob("value", valueFn, msg, o)
		}
	}

	// adding
	str := types.Typ[types.String]
	k, v := T.Param("name", str), T.Param("val", types.NewInterfaceType(nil, nil))
	added := func(o *sim.State, st0 *sim.State, lc *sim.Term, old []*sim.Term) string {
		es, ok := listOf(m, o, propsOf(o, lc))
		if !ok {
			return fmt.Sprintf("?what the properties are: %v", propsOf(o, lc))
		}
		if len(es) != len(old)+2 {
			return fmt.Sprintf("%d properties become %d", len(old), len(es))
		}
		for i, e := range old {
			if es[i] != e {
				return fmt.Sprintf("property %d becomes %v", i, es[i])
			}
		}
		if stripIface(es[len(old)]) != k || es[len(old)+1] != v {
			return fmt.Sprintf("adds %v, %v", es[len(old)], es[len(old)+1])
		}
		return ""
	}
	fill := func(st *sim.State, lc *sim.Term, n int) []*sim.Term {
		s := lcT.Underlying().(*types.Struct)
		var old []*sim.Term
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == "Properties" {
				et := f.Type().Underlying().(*types.Slice).Elem()
				a := m.MakeSlice(fmt.Sprintf("properties%d", n), int64(n), f.Type())
				for j := 0; j < n; j++ {
					e := T.Param(fmt.Sprintf("property%d", j), et)
					old = append(old, e)
					m.Store(st, T.Index(a, T.Int(int64(j)), et), e, et)
				}
				m.Store(st, T.Field(lc, f.Name(), f.Type()), a, f.Type())
			}
		}
		return old
	}
	for _, c := range mine {
		for n := 0; n <= 6; n += 2 {
			st := c.Detach()
			lc, _ := logContextOf(st, c.Ret)
			old := fill(st, lc, n)
			for _, o := range m.Run(st.Clone(), addM, []*sim.Term{c.Ret, k, v}) {
				msg := ""
				if o.Panicked {
					msg = fmt.Sprintf("panics: %v", o.PanicVal)
				} else if msg = added(o, st, lc, old); msg == "" {
					if l, s := logContextOf(o.Detach(), c.Ret); s != "" || l != lc {
						msg = "the Context has another log context afterwards"
					}
				}
				ob("add", addM, msg, o)
			}
		}
	}
	ctx := T.Param("ctx", iface)
	for n := 0; n <= 6; n += 2 {
		st := m.NewState()
		lc := T.Param("logContext", types.NewPointer(lcT))
		st.Facts.Assert(T.Eq(ctx, T.Nil()), false)
		st.Facts.Assert(T.Eq(lc, T.Nil()), false)
		old := fill(st, lc, n)
		m.Model = func(m *sim.Machine, s *sim.State, ev *sim.Event) (*sim.Term, bool) {
			if name, recv, args := method(ev); name == "Value" && recv == ctx {
				if args[0] == lcKey(s) {
					return T.Iface(lc, types.NewPointer(lcT), evResult(ev)), true
				}
			}
			return nil, false
		}
		for _, o := range m.Run(st.Clone(), addFn, []*sim.Term{ctx, k, v}) {
			msg := ""
			if o.Panicked {
				msg = fmt.Sprintf("panics: %v", o.PanicVal)
			} else {
				msg = added(o, st, lc, old)
			}
			ob("add", addFn, msg, o)
		}
		for _, o := range m.Run(st.Clone(), getFn, []*sim.Term{ctx}) {
			msg := ""
			if o.Panicked {
				msg = fmt.Sprintf("panics: %v", o.PanicVal)
			} else if o.Ret != lc {
				msg = fmt.Sprintf("gives %v, not the log context", o.Ret)
			}
			ob("get", getFn, msg, o)
		}
	}
	// a context without a log context
	m.Model = func(m *sim.Machine, s *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if name, recv, _ := method(ev); name == "Value" && recv == ctx {
			return T.Nil(), true
		}
		return nil, false
	}
	for _, fn := range []*ssa.Function{addFn, getFn} {
		st := m.NewState()
		st.Facts.Assert(T.Eq(ctx, T.Nil()), false)
		args := []*sim.Term{ctx, k, v}
		for _, o := range m.Run(st, fn, args[:len(fn.Params)]) {
			msg := ""
			if o.Panicked {
				msg = fmt.Sprintf("panics without a log context: %v", o.PanicVal)
			} else if fn == getFn && o.Ret.Op != sim.ONil {
				msg = fmt.Sprintf("gives %v without a log context", o.Ret)
			}
			ob("none", fn, msg, o)
		}
	}
	r.Absorb(m)
}

// isCtx: is the context one of countlog?
func isCtx(o *sim.State, T *sim.Terms, c *sim.Term, pt types.Type) sim.Tri {
	for a, v := range o.Facts.Atoms {
		if a.Op == sim.OIsType && a.Args[0] == c {
			if t, ok := a.Obj.(types.Type); ok && types.Identical(t, pt) {
				if v {
					return sim.True
				}
				return sim.False
			}
		}
	}
	if o.Facts.IsNil(c) {
		return sim.False
	}
	return sim.Unknown
}

// equalByParts: is the interface x equal to the interface v, told by the type
// x was found to have and a comparison of what is in it?
func equalByParts(o *sim.State, T *sim.Terms, x, v *sim.Term) sim.Tri {
	typ, _ := v.Obj.(types.Type)
	if v.Op != sim.OIface || typ == nil {
		return sim.Unknown
	}
	res := sim.Unknown
	is := sim.Unknown
	for a, yes := range o.Facts.Atoms {
		if a.Op != sim.OIsType || a.Args[0] != x {
			continue
		}
		t, _ := a.Obj.(types.Type)
		switch {
		case t == nil:
		case types.Identical(t, typ) && yes:
			is = sim.True
		case types.Identical(t, typ) && !yes, !types.Identical(t, typ) && yes && !types.IsInterface(t):
			return sim.False
		}
	}
	if is == sim.True {
		for a, yes := range o.Facts.Atoms {
			if a.Op != sim.OEq {
				continue
			}
			for i, b := range a.Args {
				if b.Op == sim.OAssert && b.Args[0] == x && a.Args[1-i] == v.Args[0] {
					res = sim.False
					if yes {
						res = sim.True
					}
				}
			}
		}
	}
	return res
}

// listOf: the elements of a slice, also of one that was appended to.
func listOf(m *sim.Machine, o *sim.State, s *sim.Term) ([]*sim.Term, bool) {
	if s.Op == sim.OSpread {
		s = s.Args[0]
	}
	if s.Op != sim.OAppend {
		if n, ok := m.T.Len(s).Int64(); ok && (s.Op == sim.OAlloc || s.Op == sim.OSlice && s.Args[0].Op == sim.OAlloc) && n <= 64 {
			if st, ok := s.Typ.Underlying().(*types.Slice); ok {
				var es []*sim.Term
				for i := int64(0); i < n; i++ {
					es = append(es, m.Load(o, m.T.Index(s, m.T.Int(i), st.Elem()), st.Elem()))
				}
				return es, true
			}
		}
		return m.Elements(o, s)
	}
	es, ok := listOf(m, o, s.Args[0])
	for _, a := range s.Args[1:] {
		if a.Op == sim.OSpread {
			more, k := listOf(m, o, a)
			es, ok = append(es[:len(es):len(es)], more...), ok && k
			continue
		}
		es = append(es[:len(es):len(es)], a)
	}
	return es, ok
}
