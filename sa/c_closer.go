package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C21", "Path-sensitive abstract interpretation of plz.Close, CloseAll, MergeErrors and WrapCloser: for lists of 0 to 4 symbolic resources every combination of outcomes is followed exactly, and every loop is entered in an arbitrary iteration as well; on every path each resource is closed once in order, every failure is logged with its error, and the result is nil iff nothing failed and otherwise holds exactly the errors in order.", checkC21)
}

func closeCalls(o *sim.State) []*sim.Event {
	var out []*sim.Event
	for _, ev := range o.Trace {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".Close") && ev.Recv != nil {
			out = append(out, ev)
		}
	}
	return out
}

// errorList gives the elements of a returned error value.
func errorList(m *sim.Machine, o *sim.State, ret *sim.Term) ([]*sim.Term, bool) {
	if o.Facts.IsNil(ret) {
		return nil, true
	}
	if ret.Op != sim.OIface {
		return nil, false
	}
	return listElems(m, o, stripConv(ret.Args[0]), 5)
}

// listElems resolves a slice of known length to its elements.
func listElems(m *sim.Machine, o *sim.State, t *sim.Term, depth int) ([]*sim.Term, bool) {
	T := m.T
	if es, ok := m.Elements(o, t); ok {
		return es, true
	}
	if depth == 0 || t.Typ == nil {
		return nil, false
	}
	sl, ok := t.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	switch t.Op {
	case sim.OConv:
		return listElems(m, o, t.Args[0], depth-1)
	case sim.OAppend:
		es, ok := listElems(m, o, t.Args[0], depth-1)
		if !ok {
			return nil, false
		}
		es = es[:len(es):len(es)]
		for _, p := range t.Args[1:] {
			if p.Op != sim.OSpread {
				es = append(es, p)
				continue
			}
			xs, ok := listElems(m, o, p.Args[0], depth-1)
			if !ok {
				return nil, false
			}
			es = append(es, xs...)
		}
		return es, true
	case sim.OSlice:
		es, ok := listElems(m, o, t.Args[0], depth-1)
		lo, ok1 := t.Args[1].Int64()
		hi, ok2 := t.Args[2].Int64()
		if ok && ok1 && !ok2 && same(o, t.Args[2], T.Len(t.Args[0])) {
			hi, ok2 = int64(len(es)), true
		}
		if !ok || !ok1 || !ok2 || lo > hi || hi > int64(len(es)) {
			return nil, false
		}
		return es[lo:hi], true
	}
	for n := int64(0); n <= 8; n++ {
		if same(o, T.Len(t), T.Int(n)) {
			var out []*sim.Term
			for i := int64(0); i < n; i++ {
				out = append(out, m.Load(o, T.Index(t, T.Int(i), sl.Elem()), sl.Elem()))
			}
			return out, true
		}
	}
	return nil, false
}

func checkC21(p *sim.Program, r *Report) {
	r.Assumptions = []string{"Close of a resource does not change the list it is in", "a panicking Close is outside the property"}
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"Close", "CloseAll", "MergeErrors", "WrapCloser"} {
		fns[n] = p.Func("", n)
		if !r.Need(fns[n] != nil, "plz."+n) {
			return
		}
	}
	newMachine := func() *sim.Machine {
		m := p.NewMachine()
		m.Opaque = func(fn *ssa.Function) bool { return pkgOf(fn) != "" }
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Records["store"] = true
		m.Records["append"] = true
		return m
	}
	logged := func(m *sim.Machine, o *sim.State, err *sim.Term) bool {
		for _, ev := range o.Trace {
			if ev.Kind != "call" || !strings.Contains(ev.Callee, "countlog.Error") && !strings.Contains(ev.Callee, "countlog.Fatal") {
				continue
			}
			for _, a := range ev.Args {
				if a.Contains(err) {
					return true
				}
				if es, ok := m.Elements(o, a); ok {
					for _, e := range es {
						if e.Contains(err) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	const maxN = 4
	// ---- CloseAll
	for n := 0; n <= maxN; n++ {
		m := newMachine()
		m.Unroll = 2*maxN + 2
		T := m.T
		fn := fns["CloseAll"]
		args := m.Params(fn, "")
		st := m.NewState()
		st.Facts.Assert(T.Eq(T.Len(args[0]), T.Int(int64(n))), true)
		et := args[0].Typ.Underlying().(*types.Slice).Elem()
		for _, o := range m.Run(st, fn, args) {
			what := fmt.Sprintf("CloseAll of %d", n)
			if !r.Ob("no-panic", what, !o.Panicked, where(p, fn), "CloseAll panics", trace(o)...) {
				continue
			}
			cs := closeCalls(o)
			ok := len(cs) == n
			for i := 0; ok && i < n; i++ {
				ok = same(o, cs[i].Recv, m.Load(st, T.Index(args[0], T.Int(int64(i)), et), et))
			}
			if !r.Ob("each-closed-once", what, ok, where(p, fn), fmt.Sprintf("CloseAll of %d resources closes %v", n, recvs(cs)), trace(o)...) {
				continue
			}
			var errs []*sim.Term
			for _, c := range cs {
				e := c.Res
				if !o.Facts.IsNil(e) {
					errs = append(errs, e)
					if o.Facts.NonNil(e) {
						r.Ob("failure-logged", what, logged(m, o, e), where(p, fn), fmt.Sprintf("the failure of resource %v is not logged as an error", c.Recv), trace(o)...)
					}
				}
			}
			checkErrors(m, r, o, what, where(p, fn), errs)
			noStores(r, o, what, args)
		}
		r.Need(m.Cut == 0, fmt.Sprintf("loops of CloseAll end for %d resources", n))
		r.Absorb(m)
	}
	// ---- MergeErrors
	for n := 0; n <= maxN; n++ {
		m := newMachine()
		m.Unroll = 2*maxN + 2
		T := m.T
		fn := fns["MergeErrors"]
		args := m.Params(fn, "")
		st := m.NewState()
		st.Facts.Assert(T.Eq(T.Len(args[0]), T.Int(int64(n))), true)
		et := args[0].Typ.Underlying().(*types.Slice).Elem()
		for _, o := range m.Run(st, fn, args) {
			what := fmt.Sprintf("MergeErrors of %d", n)
			if !r.Ob("no-panic", what, !o.Panicked, where(p, fn), "MergeErrors panics", trace(o)...) {
				continue
			}
			var errs []*sim.Term
			for i := 0; i < n; i++ {
				e := m.Load(st, T.Index(args[0], T.Int(int64(i)), et), et)
				if !o.Facts.IsNil(e) {
					errs = append(errs, e)
				}
			}
			checkErrors(m, r, o, what, where(p, fn), errs)
			noStores(r, o, what, args)
		}
		r.Need(m.Cut == 0, fmt.Sprintf("loops of MergeErrors end for %d errors", n))
		r.Absorb(m)
	}
	// ---- arbitrary iteration
	for _, name := range []string{"CloseAll", "MergeErrors"} {
		c21Loop(p, r, newMachine(), fns[name], name)
	}
	// ---- Close
	{
		m := newMachine()
		fn := fns["Close"]
		args := m.Params(fn, "")
		for _, o := range m.Run(nonNilState(m, args[0]), fn, args) {
			if !r.Ob("no-panic", "Close", !o.Panicked, where(p, fn), "Close panics", trace(o)...) {
				continue
			}
			cs := closeCalls(o)
			if !r.Ob("each-closed-once", "Close", len(cs) == 1 && cs[0].Recv == args[0], where(p, fn), fmt.Sprintf("Close closes %v, want the resource once", recvs(cs)), trace(o)...) {
				continue
			}
			e := cs[0].Res
			ok := o.Ret == e || o.Facts.IsNil(o.Ret) && o.Facts.IsNil(e)
			r.Ob("result", "Close", ok, where(p, fn), fmt.Sprintf("Close returns %v instead of the error of the resource", o.Ret), trace(o)...)
			if o.Facts.NonNil(e) {
				r.Ob("failure-logged", "Close", logged(m, o, e), where(p, fn), "the failure is not logged as an error", trace(o)...)
			}
		}
		r.Absorb(m)
	}
	// ---- WrapCloser
	{
		m := newMachine()
		fn := fns["WrapCloser"]
		args := m.Params(fn, "")
		for _, o := range m.Run(nonNilState(m, args[0]), fn, args) {
			called := func(s *sim.State) (n int, res *sim.Term) {
				for _, ev := range s.Trace {
					if ev.Kind == "call" && ev.Recv == args[0] {
						n++
						res = ev.Res
					}
				}
				return
			}
			n0, _ := called(o)
			r.Ob("wrap-does-not-close", "WrapCloser", n0 == 0 && !o.Panicked, where(p, fn), "WrapCloser calls the function itself", trace(o)...)
			if o.Panicked || o.Ret == nil || o.Ret.Op != sim.OIface {
				continue
			}
			cl := p.MethodOf(o.Ret.Obj.(types.Type), "Close")
			if !r.Need(cl != nil, "Close of the wrapped closer") {
				continue
			}
			for _, c := range m.Run(o.Detach(), cl, []*sim.Term{recvFor(m, o, cl, o.Ret.Args[0])}) {
				n, res := called(c)
				r.Ob("wrap-calls-once", "WrapCloser", n == 1 && !c.Panicked, where(p, cl), fmt.Sprintf("closing the wrapped function calls it %d times", n), trace(c)...)
				r.Ob("result", "WrapCloser", c.Panicked || res == nil || c.Ret == res || c.Facts.IsNil(c.Ret) && c.Facts.IsNil(res), where(p, cl), fmt.Sprintf("Close returns %v instead of the error of the function", c.Ret), trace(c)...)
			}
		}
		r.Absorb(m)
	}
}

func nonNilState(m *sim.Machine, t *sim.Term) *sim.State {
	st := m.NewState()
	st.Facts.Assert(m.T.Eq(t, m.T.Nil()), false)
	return st
}

func recvs(cs []*sim.Event) []string {
	out := []string{}
	for _, c := range cs {
		out = append(out, c.Recv.String())
	}
	return out
}

func checkErrors(m *sim.Machine, r *Report, o *sim.State, what, at string, errs []*sim.Term) {
	got, ok := errorList(m, o, o.Ret)
	if !ok {
		r.Note("%s: the elements of the returned error %v are not resolved", what, o.Ret)
		return
	}
	r.Ob("nil-iff-no-error", what, len(errs) == 0 == o.Facts.IsNil(o.Ret), at, fmt.Sprintf("%d errors but the result is %v", len(errs), o.Ret), trace(o)...)
	eq := len(got) == len(errs)
	for i := 0; eq && i < len(got); i++ {
		eq = got[i] == errs[i] && o.Facts.NonNil(errs[i])
	}
	r.Ob("exactly-the-errors", what, eq, at, fmt.Sprintf("the result holds %v, the failures are %v", got, errs), trace(o)...)
}

// noStores: the list passed in is not written to, directly or by appending to
// a part of it.
func noStores(r *Report, o *sim.State, what string, args []*sim.Term) {
	list := args[0]
	for _, ev := range o.Trace {
		ok := true
		switch {
		case ev.Kind == "store" && ev.Addr != nil:
			a := ev.Addr
			for a.Op == sim.OIndex || a.Op == sim.OField || a.Op == sim.OSlice {
				a = a.Args[0]
			}
			ok = a != list
		case ev.Kind == "append" && ev.Recv != nil && len(ev.Args) > 0:
			a := ev.Recv
			for a.Op == sim.OAppend {
				a = a.Args[0]
			}
			ok = !(a.Op == sim.OSlice && a.Args[0] == list)
		}
		if !ok {
			r.Ob("argument-unchanged", what, false, sim.PosOf(ev.Instr), "the list passed in is modified", trace(o)...)
			return
		}
	}
	r.Ob("argument-unchanged", what, true, "", "")
}

// c21Loop: whatever the length, a loop over the list is left only at its end.
func c21Loop(p *sim.Program, r *Report, m *sim.Machine, fn *ssa.Function, name string) {
	m.AbstractFirst, m.MaxIter = true, 1
	T := m.T
	args := m.Params(fn, "")
	list := args[0]
	n := T.Len(list)
	outs := m.Run(m.NewState(), fn, args)
	r.Absorb(m)
	for _, o := range outs {
		if o.Panicked {
			r.Ob("no-panic", name, false, where(p, fn), name+" panics", trace(o)...)
			continue
		}
		if o.Ret != nil && o.Ret.Op == sim.OIface {
			cut := stripConv(o.Ret.Args[0]).Any(func(x *sim.Term) bool {
				if x.Op != sim.OSlice || x.Args[0].Op == sim.OAlloc {
					return false
				}
				_, c := x.Args[2].Int64()
				return c && !same(o, x.Args[2], T.Len(x.Args[0])) && !same(o, x.Args[2], T.Int(0))
			})
			r.Ob("nothing-cut-off", name, !cut, where(p, fn), fmt.Sprintf("the returned errors %v are a part of those collected", o.Ret), trace(o)...)
		}
		done := o.Facts.Leq(n, T.Int(0))
		var pos string
		loop := false
		for _, ev := range closeCalls(o) {
			at := elemIn(ev.Recv, list.Typ.Underlying().(*types.Slice).Elem())
			if at == nil || at.Args[0] != list {
				continue
			}
			pos = sim.PosOf(ev.Instr)
			if o.Facts.Leq(n, T.Bin(sim.ADD, at.Args[1], T.Int(1), types.Typ[types.Int])) {
				done = true
			}
			ph, c := idxPhi(at.Args[1])
			if ph == nil {
				continue
			}
			if start, step, ok := stepOf(ph); ok {
				loop = true
				r.Ob("walks-the-list", name, start+c == 0 && step == 1, sim.PosOf(ev.Instr), fmt.Sprintf("the loop starts at %d and moves by %d", start+c, step), trace(o)...)
			}
		}
		if !loop {
			continue
		}
		for a := range o.Facts.Atoms {
			a.Any(func(x *sim.Term) bool {
				if ph, ok := x.Obj.(*ssa.Phi); ok && x.Op == sim.OSym && isIntType(x.Typ) {
					if start, step, ok := stepOf(ph); ok && step == 1 && o.Facts.Leq(n, T.Bin(sim.ADD, x, T.Int(-start), types.Typ[types.Int])) {
						done = true
					}
				}
				return false
			})
		}
		r.Ob("no-early-exit", name, done, pos, "the loop can be left before every resource was closed", trace(o)...)
	}
}

// recvFor adapts a receiver to the method found: promoted value methods take
// the value a pointer points to.
func recvFor(m *sim.Machine, o *sim.State, fn *ssa.Function, recv *sim.Term) *sim.Term {
	if fn.Signature.Recv() == nil || recv.Typ == nil {
		return recv
	}
	rt := fn.Signature.Recv().Type()
	if _, isP := rt.Underlying().(*types.Pointer); isP {
		return recv
	}
	if pt, ok := recv.Typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), rt) {
		return m.Load(o, recv, rt)
	}
	return recv
}
