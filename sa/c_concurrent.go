package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C06", "Path simulation of the writer returned by NewAsyncWriter (both modes): Write enqueues one private copy of the message or (non-blocking mode, queue full) calls the drop callback once; there is one consumer; every path of the consumer writes each received message exactly once, to the configured writer, before the next receive or return, reports write errors, and returns only after the stop signal and a drain that found the queue empty or ran out of its grace period; Close stops and waits for the consumer before closing the writer and returns the writer's error.", checkC06)
	register("C07", "Path simulation of UnboundedExecutor: Go counts the goroutine under the mutex before spawning it; the goroutine body, on normal return and on panic, decrements the same key exactly once under the mutex and never re-panics, reporting panics other than the stop signal; StopAndWait cancels first and returns only when the caller's context is done or a complete pass over the counts under the mutex found none positive.", checkC07)
}

// lockset tracks the mutexes held along a trace; visit is called with the set
// held just before each event.
type heldLock struct {
	addr *sim.Term
	read bool
}

func isLockCall(ev *sim.Event) (addr *sim.Term, acquire, read, ok bool) {
	if ev.Kind != "call" {
		return
	}
	switch ev.Callee {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return ev.Args[0], true, false, true
	case "(*sync.RWMutex).RLock":
		return ev.Args[0], true, true, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return ev.Args[0], false, false, true
	case "(*sync.RWMutex).RUnlock":
		return ev.Args[0], false, true, true
	case "(sync.Locker).Lock":
		return ev.Recv, true, false, true
	case "(sync.Locker).Unlock":
		return ev.Recv, false, false, true
	}
	return
}

func walkLocks(o *sim.State, visit func(ev *sim.Event, held []heldLock)) (final []heldLock, err string) {
	var held []heldLock
	for _, ev := range o.Trace {
		if visit != nil {
			visit(ev, held)
		}
		a, acq, rd, ok := isLockCall(ev)
		if !ok {
			continue
		}
		if acq {
			for _, h := range held {
				if h.addr == a && !(h.read && rd) {
					err = "locked again while held: " + short(a.String())
				}
			}
			held = append(append([]heldLock(nil), held...), heldLock{a, rd})
		} else {
			found := -1
			for i, h := range held {
				if h.addr == a && h.read == rd {
					found = i
				}
			}
			if found < 0 {
				err = "unlocked although not held: " + short(a.String())
				continue
			}
			held = append(append([]heldLock(nil), held[:found]...), held[found+1:]...)
		}
	}
	return held, err
}

const (
	sigExecGo   = "(*" + mod + "/concurrent.UnboundedExecutor).Go"
	sigExecWait = "(*" + mod + "/concurrent.UnboundedExecutor).StopAndWait"
	sigExecFor  = "(*" + mod + "/concurrent.UnboundedExecutor).StopAndWaitForever"
	sigExecStop = "(*" + mod + "/concurrent.UnboundedExecutor).Stop"
)

// ---- C07 ----

func checkC07(p *sim.Program, r *Report) {
	r.Assumptions = []string{"LogInfo and LogPanic do not panic and do not call back into the executor", "goroutines are started through the executor, not by the handlers themselves"}
	ex := p.Type("concurrent", "UnboundedExecutor")
	if !r.Need(ex != nil, "concurrent.UnboundedExecutor") {
		return
	}
	pt := types.NewPointer(ex)
	goFn, stop, wait, forever := p.MethodOf(pt, "Go"), p.MethodOf(pt, "Stop"), p.MethodOf(pt, "StopAndWait"), p.MethodOf(pt, "StopAndWaitForever")
	ctor := p.Func("concurrent", "NewUnboundedExecutor")
	if !r.Need(goFn != nil && stop != nil && wait != nil && forever != nil && ctor != nil, "Go / Stop / StopAndWait / StopAndWaitForever / NewUnboundedExecutor") {
		return
	}
	mk := func() *sim.Machine {
		m := p.NewMachine()
		m.Opaque = onlyPkgs("concurrent")
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Records["lookup"] = true
		return m
	}
	m := mk()
	T := m.T
	st := m.NewState()
	ga := m.Params(goFn, "")
	st.Facts.Assert(T.Eq(ga[0], T.Nil()), false)
	st.Facts.Assert(T.Eq(ga[1], T.Nil()), false)
	var ctxTerm *sim.Term
	var countMap *sim.Term
	for _, o := range m.Run(st, goFn, ga) {
		if !r.Ob("go-no-panic", "Go", !o.Panicked, where(p, goFn), "Go panics", trace(o)...) {
			continue
		}
		var upd []*sim.Event
		var spawn *sim.Event
		nspawn := 0
		var lockAt []heldLock
		held, lerr := walkLocks(o, func(ev *sim.Event, held []heldLock) {
			switch {
			case ev.Kind == "mapupdate":
				upd = append(upd, ev)
				lockAt = held
				if nspawn > 0 {
					r.Ob("count-before-spawn", "Go", false, sim.PosOf(ev.Instr), "the goroutine is counted after it was started", trace(o)...)
				}
			case ev.Kind == "go":
				spawn = ev
				nspawn++
			}
		})
		r.Ob("locks-balanced", "Go", len(held) == 0 && lerr == "", where(p, goFn), "Go returns with the mutex held or misuses it: "+lerr, trace(o)...)
		if !r.Ob("spawn-once", "Go", nspawn == 1, where(p, goFn), fmt.Sprintf("Go starts %d goroutines", nspawn), trace(o)...) {
			continue
		}
		if !r.Ob("count-before-spawn", "Go", len(upd) == 1, where(p, goFn), fmt.Sprintf("%d counter updates before the goroutine is started, want 1", len(upd)), trace(o)...) {
			continue
		}
		u := upd[0]
		countMap = u.Recv
		r.Ob("count-locked", "Go", len(lockAt) > 0, sim.PosOf(u.Instr), "the active counter is updated without holding the mutex", trace(o)...)
		key := u.Args[0]
		r.Ob("count-plus-one", "Go", isDelta(o, u, key, 1), sim.PosOf(u.Instr), fmt.Sprintf("the counter becomes %v, want its old value plus one", u.Val), trace(o)...)
		// the goroutine
		fv, fargs := goTarget(spawn)
		if !r.Ob("spawn-known", "Go", fv != nil, sim.PosOf(spawn.Instr), "the started function is not known", trace(o)...) {
			continue
		}
		m.PanicAt = func(st *sim.State, ev *sim.Event) bool { return ev.Recv == ga[1] && ev.Kind == "call" }
		calls, panics := 0, 0
		gst := forGoroutine(o)
		m.Havoc(gst, u.Recv)
		for _, g := range m.RunValue(gst, fv, fargs) {
			name := "goroutine"
			var injected *sim.Event
			nh := 0
			var us []*sim.Event
			var ul []heldLock
			logged := 0
			gh, gerr := walkLocks(g, func(ev *sim.Event, held []heldLock) {
				switch {
				case (ev.Kind == "call" || ev.Kind == "callpanic") && ev.Recv == ga[1]:
					nh++
					ctxTerm = ev.Args[0]
					if ev.Kind == "callpanic" {
						injected = ev
					}
					r.Ob("handler-unlocked", name, len(held) == 0, sim.PosOf(ev.Instr), "the handler runs with the mutex held", trace(g)...)
					if len(us) > 0 {
						r.Ob("uncount-after-handler", name, false, sim.PosOf(ev.Instr), "the goroutine is uncounted before its handler has returned", trace(g)...)
					}
				case ev.Kind == "mapupdate":
					us = append(us, ev)
					ul = held
				case ev.Kind == "mapdelete":
					us = append(us, ev)
					ul = held
				case ev.Kind == "call" && isGlobalLoad(ev.Recv, mod+"/concurrent.LogPanic"):
					logged++
				}
			})
			if injected != nil {
				name = "goroutine (handler panics)"
				panics++
			} else {
				calls++
			}
			if !r.Ob("panic-contained", name, !g.Panicked, where(p, goFn), "a panic in a handler escapes the goroutine and ends the program", trace(g)...) {
				continue
			}
			r.Ob("handler-called-once", name, nh == 1, where(p, goFn), fmt.Sprintf("the handler is called %d times", nh), trace(g)...)
			r.Ob("locks-balanced", name, len(gh) == 0 && gerr == "", where(p, goFn), "the goroutine ends with the mutex held: "+gerr, trace(g)...)
			if bad := dropDeletes(m.T, g, &us); bad != nil {
				r.Ob("uncount-all", name, false, sim.PosOf(bad.Instr), "the counter is deleted although it may count other goroutines", trace(g)...)
				continue
			}
			if r.Ob("uncount-once", name, len(us) == 1, where(p, goFn), fmt.Sprintf("the goroutine ends with %d counter updates, want 1", len(us)), trace(g)...) {
				x := us[0]
				same := x.Recv == u.Recv && x.Args[0] == key
				r.Ob("uncount-same-key", name, same, sim.PosOf(x.Instr), "the goroutine decrements another counter than the one it was counted in", trace(g)...)
				r.Ob("uncount-locked", name, len(ul) > 0 && len(lockAt) > 0 && ul[0].addr == lockAt[0].addr, sim.PosOf(x.Instr), "the active counter is updated without holding the mutex", trace(g)...)
				if x.Kind == "mapupdate" && same {
					r.Ob("uncount-minus-one", name, isDelta(g, x, key, -1), sim.PosOf(x.Instr), fmt.Sprintf("the counter becomes %v, want its old value minus one", x.Val), trace(g)...)
				}
			}
			if injected != nil {
				// the panic value equals the stop signal or it is reported
				stopSig := false
				for a, v := range g.Facts.Atoms {
					if v && a.Op == sim.OEq && strings.Contains(a.String(), "STOP!") {
						// not if it only reads like the stop signal
						stopSig = !a.Any(func(x *sim.Term) bool { return strings.HasPrefix(x.Sub, "fmt.") || strings.HasSuffix(x.Sub, ").Error") || strings.HasSuffix(x.Sub, ").String") })
					}
				}
				if stopSig {
					r.Ob("stop-signal-silent", name, logged == 0, where(p, goFn), "the stop signal is reported as a panic", trace(g)...)
				} else {
					r.Ob("panic-reported", name, logged == 1, where(p, goFn), "a panic of a handler is not reported", trace(g)...)
				}
			} else {
				r.Ob("no-false-report", name, logged == 0, where(p, goFn), "a panic is reported although the handler returned normally", trace(g)...)
			}
		}
		r.Ob("explored", "goroutine", calls > 0 && panics > 0, where(p, goFn), "the goroutine does not call the handler")
	}
	// cancellation
	var cancelTerm *sim.Term
	sa := m.Params(stop, "")
	// use the same receiver symbol as Go
	sa[0] = ga[0]
	m.PanicAt = nil
	for _, o := range m.Run(st, stop, sa) {
		n := 0
		for _, ev := range o.Trace {
			if ev.Kind == "call" && ev.Recv != nil && ev.Recv.Op == sim.OLoad {
				cancelTerm = ev.Recv
				n++
			}
		}
		r.Ob("stop-cancels", "Stop", n == 1 && !o.Panicked, where(p, stop), "Stop does not cancel the executor's context", trace(o)...)
	}
	for _, o := range m.Run(m.NewState(), ctor, nil) {
		if !r.Ob("constructed", "NewUnboundedExecutor", !o.Panicked && o.Ret != nil, where(p, ctor), "the constructor panics", trace(o)...) {
			continue
		}
		if ctxTerm != nil && cancelTerm != nil {
			c := substField(m, o, ctxTerm, ga[0], o.Ret)
			x := substField(m, o, cancelTerm, ga[0], o.Ret)
			ok := c != nil && x != nil && c.Op == sim.OExtract && x.Op == sim.OExtract && c.Args[0] == x.Args[0] && c.Sub == "0" && x.Sub == "1" && strings.HasPrefix(c.Args[0].Sub, "context.With")
			r.Ob("context-cancellable", "NewUnboundedExecutor", ok, where(p, ctor), fmt.Sprintf("handlers get %v, which Stop (%v) does not cancel", c, x), trace(o)...)
		}
	}
	// waiting
	for _, w := range []*ssa.Function{wait, forever} {
		m := mk()
		m.T = T
		name := w.Name()
		args := m.Params(w, "")
		args[0] = ga[0]
		st := m.NewState()
		st.Facts.Assert(T.Eq(args[0], T.Nil()), false)
		rets := 0
		for _, o := range m.Run(st, w, args) {
			if !r.Ob("wait-no-panic", name, !o.Panicked, where(p, w), "waiting panics", trace(o)...) {
				continue
			}
			cancelled := false
			doneBy := ""
			complete := false
			positive := false
			locked := true
			var doneCtx *sim.Term
			held, lerr := walkLocks(o, func(ev *sim.Event, held []heldLock) {
				switch {
				case ev.Kind == "call" && cancelTerm != nil && ev.Recv == cancelTerm:
					cancelled = true
				case ev.Kind == "recv" || ev.Kind == "select" || ev.Callee == "time.Sleep":
					r.Ob("cancel-before-wait", name, cancelled, sim.PosOf(ev.Instr), "waiting starts before the goroutines were told to stop", trace(o)...)
					complete, positive = false, false
					if ev.Kind == "recv" && ev.Recv != nil && ev.Recv.Op == sim.OPure && ev.Recv.Sub == "(context.Context).Done" {
						doneBy = "ctx"
						doneCtx = ev.Recv.Args[0]
					}
				case ev.Kind == "mapnext":
					if countMap != nil && ev.Recv != countMap {
						return
					}
					if len(held) == 0 {
						locked = false
					}
					if o.Facts.Eval(ev.Val) == sim.False {
						complete = true
					} else if o.Facts.Eval(T.Lt(T.Int(0), ev.Res)) != sim.False {
						positive = true
					}
				}
			})
			r.Ob("locks-balanced", name, len(held) == 0 && lerr == "", where(p, w), "waiting returns with the mutex held: "+lerr, trace(o)...)
			r.Ob("check-locked", name, locked, where(p, w), "the counters are inspected without holding the mutex", trace(o)...)
			rets++
			if doneBy == "ctx" {
				// allowed only for the caller's context
				ok := doneCtx == args[len(args)-1] && len(args) > 1
				if isBackground(doneCtx) {
					continue // never done
				}
				r.Ob("gives-up-only-on-ctx", name, ok, where(p, w), fmt.Sprintf("waiting ends when %v is done, which is not the caller's context", doneCtx), trace(o)...)
				continue
			}
			for a, v := range o.Facts.Atoms {
				// ctx.Err() != nil
				if !v && a.Op == sim.OEq && len(args) > 1 && strings.Contains(a.String(), "(context.Context).Err") && a.Contains(args[1]) {
					doneBy = "ctx.Err"
				}
			}
			if doneBy == "ctx.Err" {
				continue
			}
			r.Ob("waits-for-all", name, complete && !positive, where(p, w), fmt.Sprintf("waiting returns although goroutines may be running (complete pass over the counters: %v, positive count ignored: %v)", complete, positive), trace(o)...)
		}
		r.Ob("explored", name, rets > 0, where(p, w), "no returning path")
		r.Absorb(m)
	}
	r.Absorb(m)
}

func isBackground(t *sim.Term) bool {
	for t != nil && t.Op == sim.OIface {
		t = t.Args[0]
	}
	return t != nil && (t.Op == sim.OCall || t.Op == sim.OPure) && (t.Sub == "context.Background" || t.Sub == "context.TODO")
}

// isDelta: the update stores the value read in the same critical section plus d.
func isDelta(o *sim.State, u *sim.Event, key *sim.Term, d int64) bool {
	v := u.Val
	if v == nil || v.Op != sim.OBin || v.Sub != "+" || len(v.Args) != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		if n, ok := v.Args[i].Int64(); ok && n == d {
			old := v.Args[1-i]
			read := false
			for _, ev := range o.Trace {
				if ev == u {
					return read
				}
				if _, acq, _, isL := isLockCall(ev); isL && acq {
					read = false
				}
				if ev.Kind == "lookup" && ev.Recv == u.Recv && ev.Args[0] == key && (ev.Res == old || ev.Res.Op == sim.OTuple && ev.Res.Args[0] == old) {
					read = true
				}
			}
		}
	}
	return false
}

// dropDeletes takes the deletions of counters that are known to be zero out of
// us; it gives a deletion of a counter that may still count something. A
// deletion in place of a decrement stays.
func dropDeletes(T *sim.Terms, o *sim.State, us *[]*sim.Event) *sim.Event {
	var kept []*sim.Event
	var m, key, cur *sim.Term
	for _, ev := range o.Trace {
		if _, acq, _, isL := isLockCall(ev); isL && acq {
			cur = nil
		}
		if ev.Kind == "lookup" {
			v := ev.Res
			if v.Op == sim.OTuple {
				v = v.Args[0]
			}
			m, key, cur = ev.Recv, ev.Args[0], v
		}
		mine := false
		for _, u := range *us {
			mine = mine || u == ev
		}
		if !mine {
			continue
		}
		if ev.Kind == "mapupdate" {
			m, key, cur = ev.Recv, ev.Args[0], ev.Val
			kept = append(kept, ev)
			continue
		}
		left := int64(0) // what the counter may be
		if len(kept) == 0 {
			left = 1
			kept = append(kept, ev)
		}
		if cur == nil || ev.Recv != m || ev.Args[0] != key || !o.Facts.Leq(cur, T.Int(left)) {
			return ev
		}
	}
	*us = kept
	return nil
}

// goTarget returns the function a go statement starts.
func goTarget(ev *sim.Event) (*sim.Term, []*sim.Term) {
	if ev.Recv != nil && (ev.Recv.Op == sim.OClosure || ev.Recv.Op == sim.OFunc) {
		return ev.Recv, ev.Args
	}
	return nil, nil
}

// forGoroutine is the memory a new goroutine starts with.
func forGoroutine(o *sim.State) *sim.State {
	return o.Detach()
}

// substField re-reads a field load of one object from another.
func substField(m *sim.Machine, o *sim.State, t, from, to *sim.Term) *sim.Term {
	if t.Op == sim.OLoad && t.Args[0].Op == sim.OField && t.Args[0].Args[0] == from {
		return m.FieldOf(o, to, derefType(to), t.Args[0].Sub)
	}
	return nil
}

func derefType(t *sim.Term) types.Type {
	if t.Typ == nil {
		return nil
	}
	if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t.Typ
}

// ---- C06 ----

func checkC06(p *sim.Program, r *Report) {
	r.Assumptions = []string{"the executor runs each handler once and StopAndWait(Forever) waits for it (C07)", "the configured writer obeys the io.Writer contract", "the drop callback does not retain the message"}
	ctor := p.Func("countlog/output/async", "NewAsyncWriter")
	cfgT := p.Type("countlog/output/async", "AsyncWriterConfig")
	if !r.Need(ctor != nil && cfgT != nil, "async.NewAsyncWriter / AsyncWriterConfig") {
		return
	}
	for _, blocking := range []bool{true, false} {
		for _, hasDrop := range []bool{true, false} {
			c06Mode(p, r, ctor, cfgT, blocking, hasDrop)
		}
	}
}

func c06Mode(p *sim.Program, r *Report, ctor *ssa.Function, cfgT types.Type, blocking, hasDrop bool) {
	cs := fmt.Sprintf("blocking=%v callback=%v", blocking, hasDrop)
	m := p.NewMachine()
	m.Opaque = onlyPkgs("countlog/output/async")
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Records["store"] = true
	T := m.T
	args := m.Params(ctor, "")
	st := m.NewState()
	f := func(n string) *sim.Term { return m.Proj(args[0], cfgT, n) }
	if f("IsQueueBlocking") == nil || f("OnMessageDropped") == nil || f("Writer") == nil {
		r.Need(false, "fields of AsyncWriterConfig")
		return
	}
	st.Facts.Assert(f("IsQueueBlocking"), blocking)
	st.Facts.Assert(T.Eq(f("OnMessageDropped"), T.Nil()), !hasDrop)
	st.Facts.Assert(T.Eq(f("Writer"), T.Nil()), false)
	dest := f("Writer")
	for _, o := range m.Run(st, ctor, args) {
		if !r.Ob("constructed", cs, !o.Panicked && o.Ret != nil && o.Ret.Op == sim.OIface, where(p, ctor), "NewAsyncWriter does not return a writer", trace(o)...) {
			continue
		}
		var gos []*sim.Event
		var chans []*sim.Event
		for _, ev := range o.Trace {
			if ev.Callee == sigExecGo || ev.Kind == "go" || strings.HasSuffix(ev.Callee, "concurrent.Executor).Go") {
				gos = append(gos, ev)
			}
			if ev.Kind == "makechan" {
				chans = append(chans, ev)
			}
		}
		if !r.Ob("single-consumer", cs, len(gos) == 1, where(p, ctor), fmt.Sprintf("%d consumers are started: messages could be lost or written out of order", len(gos)), trace(o)...) {
			continue
		}
		dyn := o.Ret.Obj.(types.Type)
		wfn, cfn := p.MethodOf(dyn, "Write"), p.MethodOf(dyn, "Close")
		if !r.Need(wfn != nil && cfn != nil, "Write / Close of the async writer") {
			continue
		}
		self := o.Ret.Args[0]
		queue := c06Write(p, r, m, o, wfn, self, cs, blocking, hasDrop, f("OnMessageDropped"))
		// consumer
		g := gos[0]
		var fv, exec *sim.Term
		var fargs []*sim.Term
		if g.Kind == "go" {
			fv, fargs = goTarget(g)
		} else {
			fv = g.Args[len(g.Args)-1]
			exec = g.Args[0]
			fargs = []*sim.Term{T.Param("ctx", nil)}
		}
		if fv == nil || fv.Op != sim.OClosure && fv.Op != sim.OFunc {
			r.Ob("consumer-known", cs, false, sim.PosOf(g.Instr), "the consumer function is not known", trace(o)...)
			continue
		}
		if queue != nil {
			c06Consumer(p, r, m, o, fv, fargs, cs, queue, dest)
			for _, c := range chans {
				if c.Res == queue && len(c.Args) > 0 {
					q := c.Args[0]
					want := f("QueueLength")
					z := o.Facts.Eval(T.Eq(want, T.Int(0)))
					ok := q == want && z != sim.True
					if n, isC := q.Int64(); isC && n >= 1 && z == sim.True {
						ok = true
					}
					r.Ob("queue-length", cs, ok, sim.PosOf(c.Instr), fmt.Sprintf("the queue holds %v messages, configured %v", q, want), trace(o)...)
				}
			}
		}
		c06Close(p, r, m, o, cfn, self, cs, exec, dest)
	}
	r.Absorb(m)
}

// freshCopy: t is private storage holding exactly the bytes of buf.
func freshCopy(o *sim.State, m *sim.Machine, t, buf *sim.Term, tr []*sim.Event) bool {
	c := content(t)
	if c == buf && t != buf {
		// a conversion of the slice itself shares storage; an append onto an
		// empty non-fresh base may too
		switch t.Op {
		case sim.OAppend:
			b := t.Args[0]
			return b.Op == sim.ONil || b.Op == sim.OZero || b.Op == sim.OAlloc || b.Op == sim.OSlice && b.Args[0].Op == sim.OAlloc
		case sim.OPure:
			return true
		case sim.OConv:
			return t.Sub == "[]byte" && t.Args[0].Op == sim.OConv && t.Args[0].Sub == "string"
		}
		return false
	}
	// make + copy
	if t.Op == sim.OAlloc && len(t.Args) > 0 {
		ln := o.Facts.Eval(m.T.Eq(t.Args[0], m.T.Len(buf))) == sim.True
		for _, ev := range tr {
			if ev.Kind == "copy" && len(ev.Args) == 2 && ev.Args[0] == t && content(ev.Args[1]) == buf {
				return ln
			}
		}
	}
	return false
}

func c06Write(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, wfn *ssa.Function, self *sim.Term, cs string, blocking, hasDrop bool, cb *sim.Term) (queue *sim.Term) {
	T := m.T
	buf := T.Param("buf", types.NewSlice(types.Typ[types.Byte]))
	delivered := 0
	for _, w := range m.Run(o.Detach(), wfn, []*sim.Term{self, buf}) {
		if !r.Ob("write-no-panic", cs, !w.Panicked, where(p, wfn), "Write panics", trace(w)...) {
			continue
		}
		if ev := unlockedSharedStore(w, o.Seq()); ev != nil {
			r.Ob("concurrent-write-safe", cs, false, sim.PosOf(ev.Instr), "concurrent Write calls modify "+short(ev.Addr.String())+" without a lock", trace(w)...)
		} else {
			r.Ob("concurrent-write-safe", cs, true, "", "")
		}
		var sends, drops []*sim.Event
		nonblock := true
		selDefault := false
		for _, ev := range w.Trace {
			switch {
			case ev.Kind == "send":
				sends = append(sends, ev)
				if _, isSel := ev.Instr.(*ssa.Select); !isSel {
					nonblock = false
				}
			case ev.Kind == "select" && ev.Block:
				nonblock = false
			case ev.Kind == "select" && ev.Idx < 0:
				selDefault = true
			case ev.Kind == "call" && hasDrop && ev.Recv == cb:
				drops = append(drops, ev)
			}
		}
		if blocking {
			r.Ob("write-enqueues", cs, len(sends) == 1 && len(drops) == 0, where(p, wfn), fmt.Sprintf("a message is enqueued %d times and dropped %d times", len(sends), len(drops)), trace(w)...)
		} else {
			r.Ob("write-never-blocks", cs, nonblock, where(p, wfn), "Write can block although the queue is non-blocking", trace(w)...)
			if hasDrop {
				r.Ob("write-enqueues-or-drops", cs, len(sends)+len(drops) == 1, where(p, wfn), fmt.Sprintf("a message is enqueued %d times and reported dropped %d times", len(sends), len(drops)), trace(w)...)
			} else {
				r.Ob("write-enqueues-or-drops", cs, len(sends) <= 1, where(p, wfn), "a message is enqueued twice", trace(w)...)
			}
			if len(sends) == 0 {
				r.Ob("drop-only-when-full", cs, selDefault, where(p, wfn), "a message is dropped without trying to enqueue it", trace(w)...)
			}
		}
		for _, s := range sends {
			delivered++
			queue = s.Recv
			r.Ob("private-copy", cs, freshCopy(w, m, s.Val, buf, w.Trace), sim.PosOf(s.Instr), fmt.Sprintf("the enqueued message %v is not a private copy of the caller's buffer", s.Val), trace(w)...)
		}
		for _, d := range drops {
			r.Ob("drop-message", cs, len(d.Args) == 1 && content(d.Args[0]) == buf, sim.PosOf(d.Instr), "the drop callback does not get the message", trace(w)...)
		}
		if w.Ret != nil {
			n, e := T.Extract(w.Ret, 0, nil), T.Extract(w.Ret, 1, nil)
			r.Ob("write-result", cs, n == T.Len(buf) && w.Facts.IsNil(e), where(p, wfn), fmt.Sprintf("Write returns %v, %v", n, e), trace(w)...)
		}
	}
	r.Ob("write-delivers", cs, delivered > 0, where(p, wfn), "Write never enqueues")
	return queue
}

func c06Consumer(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, fv *sim.Term, fargs []*sim.Term, cs string, queue, dest *sim.Term) {
	T := m.T
	got, rets := 0, 0
	fn := fv.Obj.(*ssa.Function)
	for _, c := range m.RunValue(o.Detach(), fv, fargs) {
		if !r.Ob("consumer-no-panic", cs, !c.Panicked, where(p, fn), "the consumer panics", trace(c)...) {
			continue
		}
		var pending *sim.Event
		stopSeen := false
		drained := ""
		var wrote *sim.Event
		for _, ev := range c.Trace {
			switch {
			case ev.Kind == "select":
				inQ := false
				for _, ch := range ev.Args {
					if ch == queue {
						inQ = true
					}
				}
				if stopSeen && inQ && ev.Idx < 0 {
					drained = "empty"
				} else {
					drained = ""
				}
			case ev.Kind == "recv" && ev.Recv == queue:
				r.Ob("written-before-next", cs, pending == nil, sim.PosOf(ev.Instr), "a message was received but not written before the next one is received", trace(c)...)
				pending = ev
				wrote = nil
				got++
			case ev.Kind == "recv" && ev.Recv.Op == sim.OPure && ev.Recv.Sub == "(context.Context).Done":
				stopSeen = true
			case ev.Kind == "recv":
				// a timer
				if stopSeen {
					drained = "timeout"
					if d, ok := timerDuration(ev.Recv); ok {
						r.Ob("grace-period", cs, d >= 1000000000, sim.PosOf(ev.Instr), fmt.Sprintf("the drain is cut off after %d ns, want at least one second", d), trace(c)...)
					}
				}
			case isWrite(ev):
				if pending == nil {
					r.Ob("written-once", cs, false, sim.PosOf(ev.Instr), "something is written that was not just received (a message is written twice?)", trace(c)...)
					continue
				}
				r.Ob("written-intact", cs, writeData(ev) == pending.Res && writeTarget(ev) == dest, sim.PosOf(ev.Instr), fmt.Sprintf("%v is written to %v instead of the received message to the configured writer", writeData(ev), writeTarget(ev)), trace(c)...)
				wrote = ev
				pending = nil
			}
		}
		_ = wrote
		// errors
		c06Errors(p, r, T, c, fn, cs)
		rets++
		r.Ob("written-before-return", cs, pending == nil, where(p, fn), "the consumer returns without writing a message it received", trace(c)...)
		r.Ob("returns-only-when-stopped", cs, stopSeen, where(p, fn), "the consumer ends although the writer was not closed: later messages are lost", trace(c)...)
		if stopSeen {
			r.Ob("drains-queue", cs, drained != "", where(p, fn), "the consumer ends after the stop signal without draining the queue", trace(c)...)
		}
	}
	r.Ob("consumes", cs, got > 0 && rets > 0, where(p, fn), "the consumer does not receive from the queue or never returns")
}

// c06Errors: each failed write is reported once before the next receive.
func c06Errors(p *sim.Program, r *Report, T *sim.Terms, c *sim.State, fn *ssa.Function, cs string) {
	var last *sim.Event
	reported := 0
	flush := func() {
		if last == nil {
			return
		}
		err := T.Extract(last.Res, 1, nil)
		switch {
		case c.Facts.IsNil(err):
			r.Ob("write-error-reported", cs, reported == 0, sim.PosOf(last.Instr), "an error is reported although the write succeeded", trace(c)...)
		default:
			r.Ob("write-error-reported", cs, reported == 1, sim.PosOf(last.Instr), "a failed write is not reported", trace(c)...)
		}
		last, reported = nil, 0
	}
	for _, ev := range c.Trace {
		if isWrite(ev) {
			flush()
			last = ev
		}
		if last != nil && ev.Kind == "call" && isGlobalLoad(ev.Recv, mod+"/countlog/loglog.Error") && len(ev.Args) == 1 && ev.Args[0].Contains(last.Res) {
			reported++
		}
	}
	flush()
}

func timerDuration(ch *sim.Term) (int64, bool) {
	var d int64
	ok := false
	ch.Any(func(x *sim.Term) bool {
		if x.Op == sim.OCall && (x.Sub == "time.NewTimer" || x.Sub == "time.After" || x.Sub == "time.Tick" || x.Sub == "time.NewTicker") {
			if n, isC := x.Args[0].Int64(); isC {
				d, ok = n, true
			}
			return true
		}
		return false
	})
	return d, ok
}

func c06Close(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, cfn *ssa.Function, self *sim.Term, cs string, exec, dest *sim.Term) {
	T := m.T
	closers := 0
	for _, c := range m.Run(o.Detach(), cfn, []*sim.Term{self}) {
		if !r.Ob("close-no-panic", cs, !c.Panicked, where(p, cfn), "Close panics", trace(c)...) {
			continue
		}
		waited := false
		var closes []*sim.Event
		for _, ev := range c.Trace {
			switch {
			case ev.Callee == sigExecFor && ev.Args[0] == exec:
				waited = true
			case ev.Callee == sigExecWait && ev.Args[0] == exec && isBackground(ev.Args[1]):
				waited = true
			case ev.Kind == "call" && strings.HasSuffix(ev.Callee, ").Close") && (ev.Recv == dest || ev.Recv != nil && ev.Recv.Contains(dest)):
				closes = append(closes, ev)
				r.Ob("close-after-drain", cs, waited, sim.PosOf(ev.Instr), "the underlying writer is closed before the consumer has finished", trace(c)...)
			}
		}
		r.Ob("close-waits", cs, waited, where(p, cfn), "Close returns without waiting for the consumer to write the queued messages", trace(c)...)
		r.Ob("close-once", cs, len(closes) <= 1, where(p, cfn), "the underlying writer is closed twice", trace(c)...)
		if len(closes) == 1 {
			closers++
			r.Ob("close-error", cs, c.Ret == closes[0].Res || c.Facts.IsNil(closes[0].Res) && c.Ret != nil && c.Facts.IsNil(c.Ret) || c.Ret != nil && c.Ret.Contains(closes[0].Res), where(p, cfn), fmt.Sprintf("Close returns %v instead of the writer's error", c.Ret), trace(c)...)
		} else {
			r.Ob("close-error", cs+" no closer", c.Ret != nil && c.Facts.IsNil(c.Ret), where(p, cfn), "Close reports an error although there is nothing to close", trace(c)...)
			// not closed only when the writer is no closer
			ioCloser := closerIface(p)
			if ioCloser != nil {
				ok := false
				for a, v := range c.Facts.Atoms {
					if (a.Op == sim.OIsType || strings.Contains(a.String(), "io.Closer")) && a.Contains(dest) && (!v || a.Op == sim.OEq) {
						ok = true
					}
				}
				r.Ob("closes-writer", cs, ok, where(p, cfn), "the underlying writer is not closed although it may be an io.Closer", trace(c)...)
			}
		}
	}
	r.Ob("closes", cs, closers > 0, where(p, cfn), "Close never closes the underlying writer")
	_ = T
}

func closerIface(p *sim.Program) types.Type {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "io" {
			if o := pk.Pkg.Scope().Lookup("Closer"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// allocAfter: the address lies in an object allocated after the given count.
func allocAfter(a *sim.Term, seq int) bool {
	for a.Op == sim.OField || a.Op == sim.OIndex || a.Op == sim.OSlice || a.Op == sim.OConv {
		a = a.Args[0]
	}
	if a.Op != sim.OAlloc {
		return false
	}
	i := strings.LastIndex(a.Sub, "#")
	n := 0
	fmt.Sscanf(a.Sub[i+1:], "%d", &n)
	return n > seq
}

// unlockedSharedStore returns a store to an object that existed before the
// call, made with no mutex held.
func unlockedSharedStore(o *sim.State, seq int) *sim.Event {
	var bad *sim.Event
	walkLocks(o, func(ev *sim.Event, held []heldLock) {
		if ev.Kind == "store" && len(held) == 0 && !allocAfter(ev.Addr, seq) && bad == nil {
			bad = ev
		}
	})
	return bad
}
