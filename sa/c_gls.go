package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C08", "Path simulation of the gls API with symbolic goroutine ids (parent and child): ResetGls, GetGls and DeleteGls address the same map entry for the same id under the same lock; the function returned by WithGls / WithEmptyGls installs a map allocated for this invocation (holding every entry of the creator, values with Copy copied) under the id of the goroutine that runs it, calls f once, and removes the entry on normal return and on panic; Get and Set touch only the entry of the current goroutine.", checkC08)
}

type glsAccess struct {
	fn       string
	mp, lock *sim.Term
}

// idxOf returns the index term of load(index(container, idx)).
func idxOf(t *sim.Term) *sim.Term {
	for t != nil {
		switch t.Op {
		case sim.OLoad, sim.OField, sim.OConv:
			t = t.Args[0]
			continue
		case sim.OIndex:
			return t.Args[1]
		case sim.OElem:
			return t.Args[1]
		}
		return nil
	}
	return nil
}

// sameShard: equal map index implies equal lock index.
func sameShard(mp, lock *sim.Term, goid *sim.Term) bool {
	if !lock.Contains(goid) {
		return true // one lock for all
	}
	mi, li := idxOf(mp), idxOf(lock)
	if mi == nil || li == nil {
		return false
	}
	if mi == li {
		return true
	}
	mm, ok1 := modulus(mi, goid)
	lm, ok2 := modulus(li, goid)
	return ok1 && ok2 && lm > 0 && mm%lm == 0
}

func modulus(t, x *sim.Term) (int64, bool) {
	for t.Op == sim.OConv {
		t = t.Args[0]
	}
	if t.Op == sim.OBin && t.Sub == "%" && t.Args[0] == x {
		return t.Args[1].Int64()
	}
	return 0, false
}

func checkC08(p *sim.Program, r *Report) {
	r.Assumptions = []string{"GoID returns the id of the running goroutine, unique among live goroutines", "goroutine ids are positive", "Copy() returns an independent value"}
	get := func(n string) *ssa.Function { return p.Func("gls", n) }
	names := []string{"ResetGls", "DeleteGls", "GetGls", "WithGls", "WithEmptyGls", "Get", "Set", "IsGlsEnabled", "GoID"}
	for _, n := range names {
		if !r.Need(get(n) != nil, "gls."+n) {
			return
		}
	}
	m := p.NewMachine()
	phase := "parent"
	m.Opaque = func(fn *ssa.Function) bool { return pkgOf(fn) != "gls" || fn.Name() == "GoID" }
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Records["lookup"] = true
	i64 := types.Typ[types.Int64]
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if strings.HasSuffix(ev.Callee, "gls.GoID") {
			return m.T.Param("goid."+phase, i64), true
		}
		return nil, false
	}
	T := m.T
	newState := func() *sim.State {
		st := m.NewState()
		for _, ph := range []string{"parent", "child"} {
			st.Facts.Assert(T.Lt(T.Int(0), T.Param("goid."+ph, i64)), true)
		}
		return st
	}
	goid := T.Param("goid.parent", i64)
	// the three primitives
	var acc []glsAccess
	var storedMap *sim.Term
	prim := func(name, kind string, args []*sim.Term, check func(o *sim.State, ev *sim.Event)) {
		fn := get(name)
		for _, o := range m.Run(newState(), fn, args) {
			if !r.Ob("no-panic", name, !o.Panicked, where(p, fn), name+" panics", trace(o)...) {
				continue
			}
			n := 0
			var lock *sim.Term
			held, lerr := walkLocks(o, func(ev *sim.Event, held []heldLock) {
				if ev.Kind != kind {
					return
				}
				if !ev.Args[0].Contains(goid) {
					return
				}
				n++
				ok := false
				for _, h := range held {
					if kind == "lookup" || !h.read {
						ok = true
						lock = h.addr
					}
				}
				r.Ob("entry-locked", name, ok, sim.PosOf(ev.Instr), "the entry of a goroutine is accessed without the lock", trace(o)...)
				r.Ob("entry-key", name, ev.Args[0] == goid, sim.PosOf(ev.Instr), fmt.Sprintf("the entry is looked up under %v instead of the goroutine id", ev.Args[0]), trace(o)...)
				acc = append(acc, glsAccess{name, ev.Recv, lock})
				if lock != nil {
					r.Ob("lock-covers-map", name, sameShard(ev.Recv, lock, goid), sim.PosOf(ev.Instr), fmt.Sprintf("the lock %v does not protect the map %v for every goroutine id", lock, ev.Recv), trace(o)...)
				}
				check(o, ev)
			})
			r.Ob("locks-balanced", name, len(held) == 0 && lerr == "", where(p, fn), name+" returns with a lock held or misuses it: "+lerr, trace(o)...)
			r.Ob("entry-accessed", name, n == 1, where(p, fn), fmt.Sprintf("%s touches the entry of the goroutine %d times, want once", name, n), trace(o)...)
		}
	}
	val := T.Param("value", get("ResetGls").Params[1].Type())
	prim("ResetGls", "mapupdate", []*sim.Term{goid, val}, func(o *sim.State, ev *sim.Event) {
		storedMap = ev.Recv
		r.Ob("reset-stores", "ResetGls", ev.Val == val, sim.PosOf(ev.Instr), "ResetGls does not install the given map", trace(o)...)
	})
	prim("DeleteGls", "mapdelete", []*sim.Term{goid}, func(o *sim.State, ev *sim.Event) {})
	prim("GetGls", "lookup", []*sim.Term{goid}, func(o *sim.State, ev *sim.Event) {
		v := ev.Res
		if v.Op == sim.OTuple {
			v = v.Args[0]
		}
		ok := o.Ret == v || o.Facts.IsNil(o.Ret) && (o.Facts.IsNil(v) || notFound(o, v))
		r.Ob("get-returns", "GetGls", ok, where(p, get("GetGls")), fmt.Sprintf("GetGls returns %v, not the installed map", o.Ret), trace(o)...)
	})
	for i := 1; i < len(acc); i++ {
		a, b := acc[0], acc[i]
		r.Ob("same-entry", a.fn+"/"+b.fn, a.mp == b.mp, b.fn, fmt.Sprintf("%s uses the map %v, %s the map %v", a.fn, a.mp, b.fn, b.mp))
		r.Ob("same-lock", a.fn+"/"+b.fn, a.lock == b.lock, b.fn, fmt.Sprintf("%s locks %v, %s locks %v", a.fn, a.lock, b.fn, b.lock))
	}
	if storedMap == nil {
		return
	}
	// Get / Set / IsGlsEnabled
	entryOf := func(t *sim.Term, id *sim.Term) bool {
		if t != nil && t.Op == sim.OExtract {
			t = t.Args[0]
		}
		return t != nil && t.Op == sim.OLookup && t.Args[0] == storedMap && t.Args[1] == id
	}
	key := T.Param("key", nil)
	for _, o := range m.Run(newState(), get("Get"), []*sim.Term{key}) {
		fn := get("Get")
		if !r.Ob("no-panic", "Get", !o.Panicked, where(p, fn), "Get panics", trace(o)...) {
			continue
		}
		ret := o.Ret
		if o.Facts.IsNil(ret) {
			ent := T.Sym("", nil)
			ok := false
			for _, ev := range o.Trace {
				if ev.Kind == "lookup" {
					v := ev.Res
					if v.Op == sim.OTuple {
						v = v.Args[0]
					}
					if entryOf(v, goid) {
						ent = v
						if o.Facts.IsNil(v) || notFound(o, v) {
							ok = true
						}
					}
				}
			}
			r.Ob("get-own", "Get", ok, where(p, fn), fmt.Sprintf("Get returns nil although the goroutine has a map %v", ent), trace(o)...)
			continue
		}
		x := ret
		if x.Op == sim.OExtract {
			x = x.Args[0]
		}
		r.Ob("get-own", "Get", x.Op == sim.OLookup && x.Args[1] == key && entryOf(x.Args[0], goid), where(p, fn), fmt.Sprintf("Get returns %v, not the value of the key in this goroutine's map", ret), trace(o)...)
	}
	value := T.Param("val", nil)
	for _, o := range m.Run(newState(), get("Set"), []*sim.Term{key, value}) {
		fn := get("Set")
		var us []*sim.Event
		for _, ev := range o.Trace {
			if ev.Kind == "mapupdate" {
				us = append(us, ev)
			}
		}
		if o.Panicked {
			r.Ob("set-panics-unless-enabled", "Set", len(us) == 0, where(p, fn), "Set panics after storing", trace(o)...)
			continue
		}
		ok := len(us) == 1 && us[0].Args[0] == key && us[0].Val == value && entryOf(us[0].Recv, goid)
		r.Ob("set-own", "Set", ok, where(p, fn), "Set does not store into this goroutine's map", trace(o)...)
	}
	for _, o := range m.Run(newState(), get("IsGlsEnabled"), []*sim.Term{goid}) {
		fn := get("IsGlsEnabled")
		b := sim.Unknown
		if o.Ret != nil {
			b = o.Facts.Eval(o.Ret)
		}
		var v *sim.Term
		for _, ev := range o.Trace {
			if ev.Kind == "lookup" {
				v = ev.Res
				if v.Op == sim.OTuple {
					v = v.Args[0]
				}
			}
		}
		ok := v != nil && entryOf(v, goid) && (o.Ret == T.Not(T.Eq(v, T.Nil())) || b == sim.False && (o.Facts.IsNil(v) || notFound(o, v)) || b == sim.True && o.Facts.NonNil(v))
		r.Ob("enabled-iff-installed", "IsGlsEnabled", ok, where(p, fn), fmt.Sprintf("IsGlsEnabled returns %v", o.Ret), trace(o)...)
	}
	// wrapped functions
	for _, name := range []string{"WithGls", "WithEmptyGls"} {
		fn := get(name)
		phase = "parent"
		f := T.Param("f", fn.Params[0].Type())
		st := newState()
		st.Facts.Assert(T.Eq(f, T.Nil()), false)
		for _, o := range m.Run(st, fn, []*sim.Term{f}) {
			if !r.Ob("no-panic", name, !o.Panicked && o.Ret != nil && (o.Ret.Op == sim.OClosure || o.Ret.Op == sim.OFunc), where(p, fn), name+" does not return a function", trace(o)...) {
				continue
			}
			for _, ev := range o.Trace {
				r.Ob("not-called-early", name, !(ev.Kind == "call" && ev.Recv == f), where(p, fn), "f is called by "+name+" itself", trace(o)...)
			}
			phase = "child"
			m.PanicAt = func(st *sim.State, ev *sim.Event) bool { return ev.Recv == f }
			start := o.Detach()
			seq := start.Seq()
			normal, panicked := 0, 0
			for _, c := range m.RunValue(start, o.Ret, nil) {
				cs := name + " function"
				child := T.Param("goid.child", i64)
				var calls, installs, deletes []*sim.Event
				var order []string
				inj := false
				_, lerr := walkLocks(c, func(ev *sim.Event, held []heldLock) {
					switch {
					case (ev.Kind == "call" || ev.Kind == "callpanic") && ev.Recv == f:
						calls = append(calls, ev)
						order = append(order, "call")
						inj = inj || ev.Kind == "callpanic"
						r.Ob("called-unlocked", cs, len(held) == 0, sim.PosOf(ev.Instr), "f runs with a gls lock held", trace(c)...)
					case ev.Kind == "mapupdate" && sameEntry(ev.Recv, storedMap, goid, child):
						installs = append(installs, ev)
						order = append(order, "install")
						r.Ob("own-id", cs, ev.Args[0] == child, sim.PosOf(ev.Instr), fmt.Sprintf("the map is installed for %v, not for the goroutine that runs f", ev.Args[0]), trace(c)...)
					case ev.Kind == "mapupdate" && ev.Args[0].Contains(T.Param("goid.parent", i64)):
						r.Ob("own-id", cs, false, sim.PosOf(ev.Instr), "the map is installed for the creating goroutine", trace(c)...)
					case ev.Kind == "mapdelete":
						deletes = append(deletes, ev)
						order = append(order, "delete")
						r.Ob("own-id", cs, ev.Args[0] == child && sameEntry(ev.Recv, storedMap, goid, child), sim.PosOf(ev.Instr), fmt.Sprintf("the entry of %v is deleted, not that of the goroutine that ran f", ev.Args[0]), trace(c)...)
					}
				})
				if inj {
					panicked++
					cs += " (f panics)"
				} else {
					normal++
				}
				r.Ob("locks-balanced", cs, lerr == "", where(p, fn), lerr, trace(c)...)
				r.Ob("install-call-delete", cs, strings.Join(order, " ") == "install call delete", where(p, fn), fmt.Sprintf("the steps are %v, want install, call f, delete", order), trace(c)...)
				if inj {
					r.Ob("panic-propagates", cs, c.Panicked, where(p, fn), "a panic of f is swallowed", trace(c)...)
				} else {
					r.Ob("no-panic", cs, !c.Panicked, where(p, fn), "the wrapped function panics by itself", trace(c)...)
				}
				if len(installs) == 1 {
					X := installs[0].Val
					r.Ob("own-map", cs, X.Op == sim.OAlloc && allocAfter(X, seq), sim.PosOf(installs[0].Instr), fmt.Sprintf("the installed map %v is shared with other goroutines", X), trace(c)...)
					if name == "WithGls" {
						all := append(append([]*sim.Event(nil), o.Trace...), c.Trace...)
						for _, ev := range c.Trace {
							if (ev.Kind == "mapnext" || ev.Kind == "lookup") && ev.Recv != nil && entryOf(ev.Recv, T.Param("goid.parent", i64)) {
								r.Ob("snapshot-by-creator", cs, false, sim.PosOf(ev.Instr), "the creator's map is read by the goroutine that runs f, not when the function is wrapped", trace(c)...)
							}
						}
						parentMap := func(t *sim.Term) bool { return entryOf(t, T.Param("goid.parent", i64)) || isNilOrMissing(o, t) }
						why := copiedFrom(c, all, X, parentMap, installs[0], 4)
						r.Ob("inherits-all", cs, why == "", where(p, fn), "the child does not start with the creator's values: "+why, append(trace(o), trace(c)...)...)
					} else {
						empty := true
						for _, ev := range c.Trace {
							if ev.Kind == "mapupdate" && ev.Recv == X {
								empty = false
							}
							if ev == installs[0] {
								break
							}
						}
						r.Ob("starts-empty", cs, empty, where(p, fn), "the map does not start empty", trace(c)...)
					}
				}
			}
			m.PanicAt = nil
			phase = "parent"
			r.Ob("explored", name, normal > 0 && panicked > 0, where(p, fn), "f is not called")
		}
	}
	r.Absorb(m)
}

func isNilOrMissing(o *sim.State, t *sim.Term) bool { return o.Facts.IsNil(t) || notFound(o, t) }

// notFound: the path knows the lookup did not find its key.
func notFound(o *sim.State, v *sim.Term) bool {
	for a, b := range o.Facts.Atoms {
		if !b && a.Op == sim.OExtract && a.Sub == "found" && a.Args[0] == v {
			return true
		}
	}
	return false
}

// sameEntry: mp is storedMap with the goroutine id replaced.
func sameEntry(mp, stored, goid, child *sim.Term) bool {
	return strings.ReplaceAll(mp.String(), "goid.child", "goid.parent") == stored.String()
}

// copiedFrom checks that at the install event the map X holds a copy of every
// entry of the parent's map: X is filled by a complete iteration over it (or
// over a map that was).
func copiedFrom(c *sim.State, all []*sim.Event, X *sim.Term, isParent func(*sim.Term) bool, stop *sim.Event, depth int) string {
	if depth == 0 {
		return "chain of copies too long"
	}
	var src *sim.Term
	complete := false
	bad := ""
	var cur *sim.Event
	updated := 0
	endIter := func() {
		if cur != nil && updated != 1 {
			bad = fmt.Sprintf("an entry is copied %d times", updated)
		}
		cur, updated = nil, 0
	}
	// a source is a map iterated while X is being filled
	for _, ev := range all {
		if ev == stop {
			break
		}
		if ev.Kind == "mapupdate" && ev.Recv == X && cur == nil {
			bad = "an entry is stored that does not come from the creator"
		}
		switch ev.Kind {
		case "mapnext":
			if ev.Recv == X {
				continue
			}
			endIter()
			src = ev.Recv
			if c.Facts.Eval(ev.Val) == sim.True {
				cur = ev
				complete = false
			} else {
				complete = true
			}
		case "mapupdate":
			if cur != nil && ev.Recv == X {
				updated++
				v := cur.Res
				okv := ev.Val == v
				isCopy := false
				if ev.Val != nil && !okv && ev.Val.Op == sim.OCall && strings.HasSuffix(ev.Val.Sub, ".Copy") {
					for _, e2 := range all {
						if e2.Res == ev.Val && e2.Recv != nil && e2.Recv.Contains(v) {
							okv, isCopy = true, true
						}
					}
				}
				if ev.Args[0] != cur.Args[0] || !okv {
					bad = "an entry is copied under another key or with another value"
				}
				if okv && !isCopy {
					for a, b := range c.Facts.Atoms {
						if b && a.Op == sim.OIsType && a.Args[0] == v && strings.Contains(a.Sub, "copiable") {
							bad = "a value with a Copy method is shared instead of copied"
						}
					}
				}
			} else if cur != nil && ev.Recv != X {
				// filling another map: this iteration is not about X
				cur = nil
			}
		}
	}
	endIter()
	if bad != "" {
		return bad
	}
	if src == nil {
		return "no entries are copied"
	}
	if !complete {
		return "the iteration over the creator's map can stop early"
	}
	if isParent(src) {
		return ""
	}
	if src.Op == sim.OAlloc {
		// src itself must be a copy of the parent's map
		var upto *sim.Event
		for _, ev := range all {
			if ev.Kind == "mapnext" && ev.Recv == src {
				upto = ev
				break
			}
		}
		return copiedFrom(c, all, src, isParent, upto, depth-1)
	}
	return fmt.Sprintf("entries are copied from %v", src)
}
