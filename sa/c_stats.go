package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C10", "Path simulation of the aggregator: HandlerOf(counter) -> Handle increments exactly one counter by one under the lock of the shard whose map it was found in, on every exit; every dimension extractor reads the properties named by the site's dimensions, returns the element found under them or stores a new one under a private copy; Export visits every shard under its lock and hands each element's value to the collector once with the event, time and dimensions, resetting it; the exporter exports on every tick until stopped.", checkC10)
}

// completeLoop: the path left the loop only after the index reached n.  idxs
// are the indices used, in order.
func completeLoop(m *sim.Machine, o *sim.State, idxs []*sim.Term, n *sim.Term) bool {
	T := m.T
	if len(idxs) == 0 {
		return o.Facts.Leq(n, T.Int(0))
	}
	if v, ok := idxs[0].Int64(); !ok || v != 0 {
		return false
	}
	last := idxs[len(idxs)-1]
	if o.Facts.Leq(n, T.Bin(sim.ADD, last, T.Int(1), types.Typ[types.Int])) {
		return true
	}
	seen := map[*sim.Term]bool{}
	ok := false
	for a := range o.Facts.Atoms {
		a.Any(func(x *sim.Term) bool {
			if x.Op == sim.OSym && !seen[x] {
				seen[x] = true
				max := int64(0)
				if strings.Contains(x.Sub, "rangeindex") {
					max = 1
				}
				for c := int64(0); c <= max; c++ {
					if o.Facts.Leq(n, T.Bin(sim.ADD, x, T.Int(c), types.Typ[types.Int])) {
						ok = true
					}
				}
			}
			return false
		})
	}
	return ok
}

// consecutive: each index but the first is at least one and was reached by
// steps of one (abstract iterations are loop symbols).
func isFirstZero(idxs []*sim.Term) bool {
	if len(idxs) == 0 {
		return true
	}
	v, ok := idxs[0].Int64()
	return ok && v == 0
}

func hasMethod(t types.Type, name string) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

func checkC10(p *sim.Program, r *Report) {
	r.Assumptions = []string{"collectors do not call back into the aggregator", "reflect.ArrayOf/New build arrays of the requested length; the hand-made interface header denotes the array of dimension values"}
	c10Handle(p, r)
	c10Select(p, r)
	c10Extract(p, r)
	c10Export(p, r)
	c10Monoid(p, r)
}

func c10Handle(p *sim.Program, r *Report) {
	aggT := p.Type("countlog/stats", "EventAggregator")
	cfgT := p.Type("countlog/stats", "EventAggregatorConfig")
	ctor := p.Func("countlog/stats", "NewEventAggregator")
	if !r.Need(aggT != nil && ctor != nil && cfgT != nil, "stats.EventAggregator / NewEventAggregator") {
		return
	}
	ho := p.MethodOf(types.NewPointer(aggT), "HandlerOf")
	winT := p.Type("countlog/stats", "Window")
	if !r.Need(ho != nil && winT != nil, "EventAggregator.HandlerOf / Window") {
		return
	}
	m := p.NewMachine()
	op := onlyPkgs("countlog/stats")
	m.Opaque = func(fn *ssa.Function) bool {
		if op(fn) {
			return true
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if hasMethod(res.At(i).Type(), "Extract") {
				return true
			}
		}
		return false
	}
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Records["store"] = true
	T := m.T
	st := m.NewState()
	ca := m.Params(ctor, "")
	exec, coll := m.Proj(ca[0], cfgT, "Executor"), m.Proj(ca[0], cfgT, "Collector")
	st.Facts.Assert(T.Eq(exec, T.Nil()), false)
	st.Facts.Assert(T.Eq(coll, T.Nil()), false)
	site := T.Param("site", ho.Params[1].Type())
	st.Facts.Assert(T.Eq(site, T.Nil()), false)
	seenH := false
	for _, o0 := range m.Run(st, ctor, ca) {
		if o0.Panicked || o0.Ret == nil {
			r.Ob("constructed", "NewEventAggregator", false, where(p, ctor), "NewEventAggregator panics", trace(o0)...)
			continue
		}
		s1 := o0.Detach()
		m.Store(s1, T.Field(site, "Agg", types.Typ[types.String]), T.Str("counter"), types.Typ[types.String])
		for _, o := range m.Run(s1, ho, []*sim.Term{o0.Ret, site}) {
			if !r.Ob("handler", "HandlerOf", !o.Panicked && o.Ret != nil && o.Ret.Op == sim.OIface, where(p, ho), "a site with counter aggregation gets no handler", trace(o)...) {
				continue
			}
			h := p.MethodOf(o.Ret.Obj.(types.Type), "Handle")
			if !r.Need(h != nil, "Handle") {
				continue
			}
			seenH = true
			c10HandleRun(p, r, m, o, h)
			// the exporter
			var starts []*sim.Event
			for _, ev := range o.Trace {
				if ev.Kind == "call" && ev.Recv == exec {
					starts = append(starts, ev)
				}
			}
			if r.Ob("exporter-started", "HandlerOf", len(starts) == 1, where(p, ho), fmt.Sprintf("%d exporters are started for a window, want 1", len(starts)), trace(o)...) {
				c10Exporter(p, r, m, o, starts[0])
			}
			c10Shards(r, o, ho)
		}
	}
	c10AggProperty(p, r, m, ho)
	r.Ob("explored", "HandlerOf", seenH, where(p, ho), "no counter handler")
	r.Absorb(m)
}

// c10AggProperty: a site without handler has no "agg" property: every pair of
// the sample was inspected.
func c10AggProperty(p *sim.Program, r *Report, m *sim.Machine, ho *ssa.Function) {
	T := m.T
	args := m.Params(ho, "a")
	st := m.NewState()
	for _, a := range args {
		st.Facts.Assert(T.Eq(a, T.Nil()), false)
	}
	site := args[1]
	m.Store(st, T.Field(site, "Agg", types.Typ[types.String]), T.Str(""), types.Typ[types.String])
	sample := m.FieldOf(st, site, derefType(site), "Sample")
	n := T.Len(sample)
	for _, o := range m.Run(st, ho, args) {
		if o.Panicked || o.Ret == nil || !o.Facts.IsNil(o.Ret) || o.Facts.Leq(n, T.Int(0)) {
			continue
		}
		started := false
		for _, ev := range o.Trace {
			started = started || ev.Kind == "call" || ev.Kind == "go"
		}
		if started {
			continue // an unknown aggregation
		}
		ok := false
		check := func(x *sim.Term, c int64) {
			ok = ok || o.Facts.Leq(n, T.Bin(sim.ADD, x, T.Int(c), types.Typ[types.Int]))
		}
		for a := range o.Facts.Atoms {
			a.Any(func(x *sim.Term) bool {
				if x.Op == sim.OSym && x.Typ != nil {
					if b, isB := x.Typ.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
						check(x, 1)
					}
				}
				if x.Op == sim.OIndex && x.Args[0] == sample {
					check(x.Args[1], 2)
				}
				return false
			})
		}
		r.Ob("agg-found", "HandlerOf", ok, where(p, ho), "an \"agg\" property at the end of the properties is not found", trace(o)...)
	}
}

// c10Shards: shards with different locks have different maps.
func c10Shards(r *Report, o *sim.State, ho *ssa.Function) {
	type sh struct{ lock, mp *sim.Term }
	by := map[*sim.Term]*sh{}
	var order []*sim.Term
	for _, ev := range o.Trace {
		if ev.Kind != "store" || ev.Addr == nil {
			continue
		}
		a := ev.Addr
		for a.Op == sim.OField {
			a = a.Args[0]
		}
		if a.Op != sim.OIndex || ev.Val == nil || ev.Val.Typ == nil {
			continue
		}
		set := func(v *sim.Term) {
			if v == nil || v.Typ == nil {
				return
			}
			if by[a] == nil {
				by[a] = &sh{}
				order = append(order, a)
			}
			switch t := v.Typ.Underlying().(type) {
			case *types.Map:
				by[a].mp = v
			case *types.Pointer:
				if strings.HasPrefix(t.Elem().String(), "sync.") {
					by[a].lock = v
				}
			}
		}
		if ev.Val.Op == sim.OStruct {
			for _, x := range ev.Val.Args {
				set(x)
			}
		} else {
			set(ev.Val)
		}
	}
	for i, a := range order {
		for _, b := range order[:i] {
			x, y := by[a], by[b]
			if x.mp == nil || y.mp == nil || x.lock == nil || y.lock == nil {
				continue
			}
			r.Ob("shard-maps", "HandlerOf", x.mp != y.mp || x.lock == y.lock, sim.PosOf(ho.Blocks[0].Instrs[0]), "two shards share a map but not the lock", trace(o)...)
		}
	}
}

// c10Select: the extractor made for a site reads the name and the value of
// every dimension, has room for them, and the window knows their number.
func c10Select(p *sim.Program, r *Report) {
	sp := p.ByPath[p.Path("countlog/stats")]
	for _, fn := range p.AllFuncs() {
		if fn.Pkg == nil || fn.Pkg != sp || fn.Signature.Recv() != nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		res := fn.Signature.Results()
		ei, ni := -1, -1
		for i := 0; i < res.Len(); i++ {
			if hasMethod(res.At(i).Type(), "Extract") {
				ei = i
			} else if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ni = i
			}
		}
		if ei < 0 || fn.Signature.Params().Len() != 1 || !strings.HasSuffix(fn.Signature.Params().At(0).Type().String(), "spi.LogSite") {
			continue
		}
		m := p.NewMachine()
		m.Opaque = onlyPkgs("countlog/stats")
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Records["append"] = true
		T := m.T
		args := m.Params(fn, "")
		st := m.NewState()
		st.Facts.Assert(T.Eq(args[0], T.Nil()), false)
		for _, o := range m.Run(st, fn, args) {
			if o.Panicked || o.Ret == nil {
				continue
			}
			ext, cnt := o.Ret, (*sim.Term)(nil)
			if o.Ret.Op == sim.OTuple {
				ext = o.Ret.Args[ei]
				if ni >= 0 {
					cnt = o.Ret.Args[ni]
				}
			}
			// the appended indices come in pairs (name, value)
			var pieces []*sim.Term
			var at *sim.Event
			for _, ev := range o.Trace {
				if ev.Kind != "append" || ev.Res == nil || ev.Res.Typ == nil {
					continue
				}
				sl, ok := ev.Res.Typ.Underlying().(*types.Slice)
				if !ok {
					continue
				}
				if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					continue
				}
				at = ev
				for _, x := range ev.Args {
					for x.Op == sim.OConv {
						x = x.Args[0]
					}
					pieces = append(pieces, x)
				}
			}
			for i := 0; i+1 < len(pieces); i += 2 {
				a1 := T.Bin(sim.ADD, pieces[i], T.Int(1), types.Typ[types.Int])
				r.Ob("dimension-pairs", fname(fn), a1 == pieces[i+1] || o.Facts.Leq(a1, pieces[i+1]) && o.Facts.Leq(pieces[i+1], a1), sim.PosOf(at.Instr), fmt.Sprintf("a dimension is read from properties %v and %v, want a name and the value following it", pieces[i], pieces[i+1]), trace(o)...)
			}
			if ext == nil || ext.Op != sim.OIface || ext.Args[0].Op != sim.OAlloc {
				continue
			}
			et := derefType(ext.Args[0])
			s, ok := et.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			n := T.Int(0)
			for i := 0; i < s.NumFields(); i++ {
				if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						n = T.Len(m.FieldOf(o, ext.Args[0], et, s.Field(i).Name()))
					}
				}
			}
			if cnt != nil {
				r.Ob("dimension-count", fname(fn), n == cnt || o.Facts.Leq(n, cnt) && o.Facts.Leq(cnt, n), where(p, fn), fmt.Sprintf("the window is told %v strings per dimension, the extractor reads %v", cnt, n), trace(o)...)
			}
			ex := p.MethodOf(ext.Obj.(types.Type), "Extract")
			if ex == nil {
				continue
			}
			xa := m.Params(ex, "x")
			xa[0] = ext.Args[0]
			s2 := o.Detach()
			for _, a := range xa {
				s2.Facts.Assert(T.Eq(a, T.Nil()), false)
			}
			m.OnSlice = func(st *sim.State, in ssa.Instruction, base, lo, hi, max *sim.Term, ok bool) {
				if base.Op != sim.OAlloc || hi == nil {
					return
				}
				at, isA := derefType(base).Underlying().(*types.Array)
				if !isA {
					return
				}
				r.Ob("dimension-room", fname(ex), st.Facts.Leq(hi, T.Int(at.Len())), sim.PosOf(in), fmt.Sprintf("%s is chosen for more than %d strings", et, at.Len()), trace(st)...)
			}
			m.Run(s2, ex, xa)
			m.OnSlice = nil
		}
		r.Absorb(m)
	}
}

func c10HandleRun(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, h *ssa.Function) {
	T := m.T
	event := T.Param("event", h.Params[1].Type())
	st := o.Detach()
	st.Facts.Assert(T.Eq(event, T.Nil()), false)
	isExtract := func(ev *sim.Event) bool { return strings.HasSuffix(ev.Callee, ").Extract") }
	m.PanicAt = func(st *sim.State, ev *sim.Event) bool { return isExtract(ev) }
	defer func() { m.PanicAt = nil }()
	for _, c := range m.Run(st, h, []*sim.Term{o.Ret.Args[0], event}) {
		var ex, adds []*sim.Event
		var elem *sim.Term
		inj := false
		held, lerr := walkLocks(c, func(ev *sim.Event, held []heldLock) {
			switch {
			case isExtract(ev) && (ev.Kind == "call" || ev.Kind == "callpanic"):
				ex = append(ex, ev)
				inj = inj || ev.Kind == "callpanic"
				elem = ev.Res
				mp := ev.Args[len(ev.Args)-2]
				ok := false
				for _, l := range held {
					if shardOf(l.addr) != nil && shardOf(l.addr) == shardOf(mp) {
						ok = true
					}
				}
				r.Ob("counted-locked", "Handle", ok, sim.PosOf(ev.Instr), fmt.Sprintf("the shard map %v is used without its own lock", mp), trace(c)...)
				r.Ob("counted-event", "Handle", ev.Args[len(ev.Args)-3] == event, sim.PosOf(ev.Instr), "the dimensions are taken from another event", trace(c)...)
				mk := ev.Args[len(ev.Args)-1]
				r.Ob("new-counter", "Handle", freshZero(p, m, mk), sim.PosOf(ev.Instr), "a new counter does not start at zero, or is shared", trace(c)...)
			case ev.Kind == "store" && elem != nil && ev.Addr.Contains(elem):
				adds = append(adds, ev)
				ok := ev.Val.Op == sim.OBin && ev.Val.Sub == "+" && (isInt(ev.Val.Args[0], 1) && ev.Val.Args[1].Op == sim.OLoad && ev.Val.Args[1].Args[0] == ev.Addr || isInt(ev.Val.Args[1], 1) && ev.Val.Args[0].Op == sim.OLoad && ev.Val.Args[0].Args[0] == ev.Addr)
				r.Ob("plus-one", "Handle", ok, sim.PosOf(ev.Instr), fmt.Sprintf("the counter becomes %v, want its old value plus one", ev.Val), trace(c)...)
				r.Ob("counted-locked", "Handle add", len(held) > 0, sim.PosOf(ev.Instr), "the counter is incremented without the shard's lock", trace(c)...)
			case ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".Monoid).Add") && ev.Recv == elem:
				adds = append(adds, ev)
				v := stripIface(ev.Args[len(ev.Args)-1])
				r.Ob("plus-one", "Handle", v.Op == sim.OAlloc && isInt(c.Heap[v], 1), sim.PosOf(ev.Instr), "the counter is not incremented by one", trace(c)...)
				r.Ob("counted-locked", "Handle add", len(held) > 0, sim.PosOf(ev.Instr), "the counter is incremented without the shard's lock", trace(c)...)
			}
		})
		cs := "Handle"
		if inj {
			cs = "Handle (extracting panics)"
		}
		r.Ob("locks-released", cs, len(held) == 0 && lerr == "", where(p, h), "a shard lock stays held after handling an event: "+lerr, trace(c)...)
		r.Ob("extracted-once", cs, len(ex) == 1, where(p, h), fmt.Sprintf("the counter of an event is looked up %d times", len(ex)), trace(c)...)
		if !inj && !c.Panicked {
			r.Ob("counted-once", cs, len(adds) == 1, where(p, h), fmt.Sprintf("an event is counted %d times", len(adds)), trace(c)...)
		}
	}
}

func isInt(t *sim.Term, n int64) bool {
	if t == nil {
		return false
	}
	v, ok := t.Int64()
	return ok && v == n
}

// shardOf returns the address of the shard a lock or map was read from.
func shardOf(t *sim.Term) *sim.Term {
	for t != nil {
		switch t.Op {
		case sim.OLoad, sim.OField, sim.OConv, sim.OProj:
			t = t.Args[0]
			continue
		case sim.OIndex, sim.OElem:
			return t
		}
		return nil
	}
	return nil
}

// freshZero: calling the function gives a new zero counter.
func freshZero(p *sim.Program, m *sim.Machine, fv *sim.Term) bool {
	if fv.Op != sim.OFunc && fv.Op != sim.OClosure {
		return false
	}
	st := m.NewState()
	outs := m.RunValue(st, fv, nil)
	for _, o := range outs {
		v := stripIface(o.Ret)
		if o.Panicked || v == nil || v.Op != sim.OAlloc {
			return false
		}
		if x, ok := o.Heap[v]; ok && !isInt(x, 0) && x.Op != sim.OZero {
			return false
		}
	}
	return len(outs) > 0
}

func c10Exporter(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, start *sim.Event) {
	T := m.T
	fv := start.Args[0]
	if !r.Ob("exporter-known", "exporter", fv.Op == sim.OClosure || fv.Op == sim.OFunc, sim.PosOf(start.Instr), "the exporter function is not known", trace(o)...) {
		return
	}
	fn := fv.Obj.(*ssa.Function)
	op := m.Opaque
	m.Opaque = func(f *ssa.Function) bool {
		return op(f) || f.Name() == "Export" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "stats.Window")
	}
	defer func() { m.Opaque = op }()
	ticks := 0
	for _, c := range m.RunValue(o.Detach(), fv, []*sim.Term{T.Param("ctx", nil)}) {
		if !r.Ob("exporter-no-panic", "exporter", !c.Panicked, where(p, fn), "the exporter panics", trace(c)...) {
			continue
		}
		done := false
		var tick *sim.Event
		used := map[*sim.Term]bool{}
		exported := 0
		endTick := func() {
			if tick != nil {
				r.Ob("tick-exports", "exporter", exported == 1, sim.PosOf(tick.Instr), fmt.Sprintf("a tick exports %d times", exported), trace(c)...)
			}
			tick, exported = nil, 0
		}
		for _, ev := range c.Trace {
			switch {
			case ev.Kind == "select":
				endTick()
				for _, ch := range ev.Args {
					if src, oneShot := timerSource(ch); oneShot && used[src] {
						r.Ob("ticks-repeat", "exporter", false, sim.PosOf(ev.Instr), "the exporter waits again for a timer that fires only once", trace(c)...)
					}
				}
			case ev.Kind == "recv" && ev.Recv.Op == sim.OPure && ev.Recv.Sub == "(context.Context).Done":
				done = true
			case ev.Kind == "recv":
				tick = ev
				ticks++
				src, oneShot := timerSource(ev.Recv)
				if oneShot {
					if used[src] {
						r.Ob("ticks-repeat", "exporter", false, sim.PosOf(ev.Instr), "the exporter waits again for a timer that fires only once", trace(c)...)
					}
					used[src] = true
				}
				if d, ok := timerDuration(ev.Recv); ok {
					r.Ob("every-second", "exporter", d == 1000000000, sim.PosOf(ev.Instr), fmt.Sprintf("the period is %d ns, want one second", d), trace(c)...)
				}
			case ev.Callee == "(*time.Timer).Reset":
				delete(used, ev.Args[0])
			case ev.Callee == "time.Sleep":
				ticks++
			case strings.HasSuffix(ev.Callee, "stats.Window).Export"):
				exported++
				now := ev.Args[len(ev.Args)-1]
				r.Ob("export-time", "exporter", now.Op == sim.OCall && now.Sub == "time.Now", sim.PosOf(ev.Instr), "the export does not carry the current time", trace(c)...)
			}
		}
		endTick()
		r.Ob("exports-until-stopped", "exporter", done, where(p, fn), "the exporter stops although its context is not done", trace(c)...)
	}
	r.Ob("explored", "exporter", ticks > 0, where(p, fn), "the exporter never ticks")
}

// timerSource returns the timer a channel belongs to and whether it fires once.
func timerSource(ch *sim.Term) (*sim.Term, bool) {
	var src *sim.Term
	one := false
	ch.Any(func(x *sim.Term) bool {
		if x.Op == sim.OCall && (x.Sub == "time.NewTimer" || x.Sub == "time.After") {
			src, one = x, true
			return true
		}
		if x.Op == sim.OCall && (x.Sub == "time.NewTicker" || x.Sub == "time.Tick") {
			src = x
			return true
		}
		return false
	})
	return src, one
}

func c10Extract(p *sim.Program, r *Report) {
	sp := p.ByPath[p.Path("countlog/stats")]
	if !r.Need(sp != nil, "package stats") {
		return
	}
	n := 0
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		fn := p.MethodOf(types.NewPointer(tn.Type()), "Extract")
		if fn == nil || fn.Signature.Params().Len() != 3 {
			continue
		}
		n++
		m := p.NewMachine()
		m.Opaque = onlyPkgs("countlog/stats")
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Records["store"] = true
		m.Records["lookup"] = true
		T := m.T
		args := m.Params(fn, "")
		st := m.NewState()
		for _, a := range args {
			st.Facts.Assert(T.Eq(a, T.Nil()), false)
		}
		event, monoid, create := args[1], args[2], args[3]
		props := m.FieldOf(st, event, derefType(event), "Properties")
		for _, o := range m.Run(st, fn, args) {
			if o.Panicked {
				continue // property of another type: contained by the logger
			}
			var look, upd, crt []*sim.Event
			for _, ev := range o.Trace {
				switch {
				case ev.Kind == "lookup" && ev.Recv == monoid:
					look = append(look, ev)
				case ev.Kind == "mapupdate":
					upd = append(upd, ev)
				case ev.Kind == "call" && ev.Recv == create:
					crt = append(crt, ev)
				}
			}
			if !r.Ob("looked-up", fname(fn), len(look) >= 1, where(p, fn), "the counter is not looked up", trace(o)...) {
				continue
			}
			l := look[0]
			found := l.Res
			if found.Op == sim.OTuple {
				found = found.Args[0]
			}
			if len(crt) == 0 {
				r.Ob("existing-counter", fname(fn), o.Ret == found && len(upd) == 0 && !o.Facts.IsNil(found), where(p, fn), fmt.Sprintf("an existing counter is not returned as it is (returned %v)", o.Ret), trace(o)...)
				continue
			}
			ok := len(crt) == 1 && len(upd) == 1 && upd[0].Recv == monoid && upd[0].Val == crt[0].Res && o.Ret == crt[0].Res && (o.Facts.IsNil(found) || notFound(o, found))
			if !r.Ob("new-counter-stored", fname(fn), ok, where(p, fn), "a new counter is not stored under the event's dimensions (or replaces an existing one)", trace(o)...) {
				continue
			}
			kl, ku := l.Args[0], upd[0].Args[0]
			if kl.Op == sim.OPure && strings.HasPrefix(kl.Sub, "unsafe.") && len(kl.Args) == 2 {
				// hand-made interface: (type, data)
				r.Ob("key-type", fname(fn), ku.Op == sim.OPure && len(ku.Args) == 2 && ku.Args[0] == kl.Args[0], sim.PosOf(upd[0].Instr), "the stored key has another type than the looked-up key", trace(o)...)
				if ku.Op == sim.OPure && len(ku.Args) == 2 {
					lb, ub := allocOf(kl.Args[1]), allocOf(ku.Args[1])
					r.Ob("key-private", fname(fn), lb != nil && ub != nil && lb != ub, sim.PosOf(upd[0].Instr), "the stored key shares the temporary dimension array of the call", trace(o)...)
					c10Keys(p, r, m, o, fn, args[0], props, lb, ub)
				}
			} else {
				r.Ob("key-same", fname(fn), kl == ku, sim.PosOf(upd[0].Instr), fmt.Sprintf("the counter is stored under %v but looked up under %v", ku, kl), trace(o)...)
			}
		}
		r.Absorb(m)
	}
	r.Ob("extractors", "count", n > 0, "countlog/stats", "no dimension extractor found")
}

func allocOf(t *sim.Term) *sim.Term {
	for t != nil {
		switch t.Op {
		case sim.OIndex, sim.OField, sim.OSlice, sim.OConv:
			t = t.Args[0]
			continue
		case sim.OAlloc:
			return t
		}
		return nil
	}
	return nil
}

// c10Keys: the lookup key holds properties[indices[i]] at i for all i; the
// stored key holds copies of the same strings.
func c10Keys(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, fn *ssa.Function, self, props, lb, ub *sim.Term) {
	var li, ui []*sim.Term
	var idxSlice *sim.Term
	for _, ev := range o.Trace {
		if ev.Kind != "store" || ev.Addr.Op != sim.OIndex {
			continue
		}
		base := allocOf(ev.Addr)
		i := ev.Addr.Args[1]
		switch base {
		case lb:
			li = append(li, i)
			// properties[indices[i]]
			v := ev.Val
			for v.Op == sim.OAssert || v.Op == sim.OConv {
				v = v.Args[0]
			}
			ok := false
			if v.Op == sim.OLoad && v.Args[0].Op == sim.OIndex && v.Args[0].Args[0] == props {
				x := v.Args[0].Args[1]
				for x.Op == sim.OConv {
					x = x.Args[0]
				}
				if x.Op == sim.OLoad && x.Args[0].Op == sim.OIndex && x.Args[0].Contains(self) && x.Args[0].Args[1] == i {
					ok = true
					idxSlice = x.Args[0].Args[0]
				}
			}
			r.Ob("dimension-source", fname(fn), ok, sim.PosOf(ev.Instr), fmt.Sprintf("dimension %v is %v, not the property the site names", i, ev.Val), trace(o)...)
		case ub:
			ui = append(ui, i)
			v := content(ev.Val)
			ok := false
			if v.Op == sim.OLoad && v.Args[0].Op == sim.OIndex && allocOf(v.Args[0]) == lb && v.Args[0].Args[1] == i {
				ok = true
			} else if strings.Contains(v.String(), props.String()) {
				ok = true
			} else if c, isC := v.Obj.(*sim.Term); isC && c.Op == sim.OIndex && allocOf(c) == lb && c.Args[1] == i {
				ok = true
			}
			r.Ob("dimension-copy", fname(fn), ok, sim.PosOf(ev.Instr), fmt.Sprintf("dimension %v of the stored key is %v", i, ev.Val), trace(o)...)
		}
	}
	if idxSlice != nil {
		n := m.T.Len(idxSlice)
		r.Ob("all-dimensions", fname(fn), completeLoop(m, o, li, n) && completeLoop(m, o, ui, n), where(p, fn), "not every dimension is part of the key", trace(o)...)
	}
}

func c10Export(p *sim.Program, r *Report) {
	winT := p.Type("countlog/stats", "Window")
	pointT := p.Type("countlog/stats", "Point")
	if !r.Need(winT != nil && pointT != nil, "stats.Window / Point") {
		return
	}
	fn := p.MethodOf(types.NewPointer(winT), "Export")
	if !r.Need(fn != nil, "Window.Export") {
		return
	}
	m := p.NewMachine()
	m.Opaque = onlyPkgs("countlog/stats")
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.SnapAt = func(ev *sim.Event) bool { return strings.HasSuffix(ev.Callee, ".Collector).Collect") }
	T := m.T
	args := m.Params(fn, "")
	st := m.NewState()
	st.Facts.Assert(T.Eq(args[0], T.Nil()), false)
	// number of shards
	nsh := int64(0)
	if s, ok := winT.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if at, ok := s.Field(i).Type().Underlying().(*types.Array); ok {
				nsh = at.Len()
			}
		}
	}
	for _, o := range m.Run(st, fn, args) {
		if !r.Ob("no-panic", "Export", !o.Panicked, where(p, fn), "Export panics", trace(o)...) {
			continue
		}
		var shards []*sim.Term
		var cur *sim.Event
		exports, collects := 0, 0
		dims := map[*sim.Term]bool{}
		open := map[*sim.Term]bool{}
		var val *sim.Term
		endIter := func() {
			if cur != nil {
				r.Ob("exported-once", "Export", exports == 1 && collects == 1, sim.PosOf(cur.Instr), fmt.Sprintf("an element is exported %d times and collected %d times", exports, collects), trace(o)...)
			}
			cur, exports, collects = nil, 0, 0
		}
		held, lerr := walkLocks(o, func(ev *sim.Event, held []heldLock) {
			switch {
			case ev.Kind == "mapnext":
				endIter()
				sh := shardOf(ev.Recv)
				if len(shards) == 0 || shards[len(shards)-1] != sh {
					shards = append(shards, sh)
				}
				ok := false
				for _, l := range held {
					if sh != nil && shardOf(l.addr) == sh {
						ok = true
					}
				}
				r.Ob("export-locked", "Export", ok, sim.PosOf(ev.Instr), "a shard is exported without its own lock", trace(o)...)
				if o.Facts.Eval(ev.Val) == sim.True {
					cur = ev
					open[ev.Recv] = true
				} else {
					open[ev.Recv] = false
				}
			case strings.HasSuffix(ev.Callee, ".Monoid).Export"):
				exports++
				val = ev.Res
				r.Ob("export-element", "Export", cur != nil && ev.Recv == cur.Res, sim.PosOf(ev.Instr), "the exported value is not that of the visited element", trace(o)...)
				r.Ob("export-locked", "Export value", len(held) > 0, sim.PosOf(ev.Instr), "a counter is read and reset without the shard's lock", trace(o)...)
			case strings.HasSuffix(ev.Callee, ".Collector).Collect"):
				collects++
				pt := ev.Args[len(ev.Args)-1]
				get := func(f string) *sim.Term { return m.FieldOf(ev.Snap, pt, pointT, f) }
				r.Ob("point-value", "Export", get("Value") != nil && get("Value") == val, sim.PosOf(ev.Instr), "the collected value is not the exported one", trace(o)...)
				r.Ob("point-time", "Export", get("Timestamp") == args[1], sim.PosOf(ev.Instr), "the collected point does not carry the export time", trace(o)...)
				r.Ob("point-event", "Export", get("Event") != nil && get("Event").Op == sim.OLoad && get("Event").Contains(args[0]), sim.PosOf(ev.Instr), "the collected point does not carry the event", trace(o)...)
				d := get("Dimension")
				okd := false
				if d != nil && cur != nil {
					if d.Contains(cur.Args[0]) {
						okd = true
					}
					for _, e2 := range o.Trace {
						if e2.Kind == "copy" && e2.Args[0] == d && e2.Args[1].Contains(cur.Args[0]) {
							okd = true
						}
						if e2 == ev {
							break
						}
					}
				}
				if d != nil && d.Op == sim.OSlice {
					r.Ob("point-private", "Export", !dims[d], sim.PosOf(ev.Instr), "two collected points share the storage of their dimensions", trace(o)...)
					dims[d] = true
				}
				r.Ob("point-dimension", "Export", okd, sim.PosOf(ev.Instr), "the collected point does not carry the element's dimensions", trace(o)...)
			}
		})
		endIter()
		r.Ob("locks-released", "Export", len(held) == 0 && lerr == "", where(p, fn), "Export returns with a lock held: "+lerr, trace(o)...)
		for mp, op := range open {
			r.Ob("all-elements", "Export", !op, where(p, fn), "the iteration over "+short(mp.String())+" can stop early", trace(o)...)
		}
		var idx []*sim.Term
		for _, s := range shards {
			if s != nil {
				idx = append(idx, s.Args[1])
			}
		}
		r.Ob("all-shards", "Export", nsh > 0 && completeLoop(m, o, idx, T.Int(nsh)), where(p, fn), fmt.Sprintf("not all %d shards are exported", nsh), trace(o)...)
	}
	r.Absorb(m)
	// the window of a site carries its event name: set by whoever makes windows
	c10WindowEvent(p, r, winT)
}

// c10WindowEvent: the window built for a site carries the site's event name.
func c10WindowEvent(p *sim.Program, r *Report, winT types.Type) {
	aggT := p.Type("countlog/stats", "EventAggregator")
	ho := p.MethodOf(types.NewPointer(aggT), "HandlerOf")
	m := p.NewMachine()
	op := onlyPkgs("countlog/stats")
	m.Opaque = func(fn *ssa.Function) bool {
		if op(fn) {
			return true
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if hasMethod(res.At(i).Type(), "Extract") {
				return true
			}
		}
		return false
	}
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	T := m.T
	args := m.Params(ho, "")
	st := m.NewState()
	for _, a := range args {
		st.Facts.Assert(T.Eq(a, T.Nil()), false)
	}
	m.Store(st, T.Field(args[1], "Agg", types.Typ[types.String]), T.Str("counter"), types.Typ[types.String])
	event := m.FieldOf(st, args[1], derefType(args[1]), "Event")
	for _, o := range m.Run(st, ho, args) {
		if o.Panicked || o.Ret == nil || o.Ret.Op != sim.OIface {
			continue
		}
		gw := p.MethodOf(o.Ret.Obj.(types.Type), "GetWindow")
		if gw == nil {
			continue // the no-op handler
		}
		for _, w := range m.Run(o.Detach(), gw, []*sim.Term{o.Ret.Args[0]}) {
			ok := false
			if s, isS := winT.Underlying().(*types.Struct); isS && w.Ret != nil {
				for i := 0; i < s.NumFields(); i++ {
					if m.FieldOf(w, w.Ret, winT, s.Field(i).Name()) == event {
						ok = true
					}
				}
			}
			r.Ob("window-event", "HandlerOf", ok, where(p, ho), "the window does not know the event it counts: exported points are anonymous", trace(o)...)
		}
	}
	r.Absorb(m)
}

func c10Monoid(p *sim.Program, r *Report) {
	ct := p.Type("countlog/stats", "CounterMonoid")
	if !r.Need(ct != nil, "stats.CounterMonoid") {
		return
	}
	pt := types.NewPointer(ct)
	exp, add := p.MethodOf(pt, "Export"), p.MethodOf(pt, "Add")
	if !r.Need(exp != nil && add != nil, "CounterMonoid.Export / Add") {
		return
	}
	m := p.NewMachine()
	m.Opaque = onlyPkgs("countlog/stats")
	T := m.T
	args := m.Params(exp, "")
	for _, o := range m.Run(m.NewState(), exp, args) {
		v := o.Ret
		for v != nil && v.Op == sim.OConv {
			v = v.Args[0]
		}
		r.Ob("export-value", "CounterMonoid.Export", !o.Panicked && v != nil && v.Op == sim.OLoad && v.Args[0] == args[0], where(p, exp), fmt.Sprintf("Export returns %v, not the count", o.Ret), trace(o)...)
		r.Ob("export-resets", "CounterMonoid.Export", isInt(o.Heap[args[0]], 0) || o.Heap[args[0]] != nil && o.Heap[args[0]].Op == sim.OZero, where(p, exp), "Export does not reset the count: it would be reported again", trace(o)...)
	}
	aa := m.Params(add, "")
	for _, o := range m.Run(m.NewState(), add, aa) {
		if o.Panicked {
			continue
		}
		v := o.Heap[aa[0]]
		ok := v != nil && v.Op == sim.OBin && v.Sub == "+"
		if ok {
			n := 0
			for _, a := range v.Args {
				if a.Op == sim.OLoad && a.Args[0] == aa[0] {
					n++
				} else if a.Contains(aa[1]) {
					n += 10
				}
			}
			ok = n == 11
		}
		r.Ob("add-sums", "CounterMonoid.Add", ok, where(p, add), fmt.Sprintf("after Add the count is %v", v), trace(o)...)
	}
	_ = T
	r.Absorb(m)
}
