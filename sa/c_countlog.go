package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

// ---- the logging entry points ----

type logEntry struct {
	name   string // as the user writes it
	fn     *ssa.Function
	ctx    bool   // method of *Context
	call   bool   // Call variant: (event, err, props...) error
	level  string // constant name
	errLvl string // level when err != nil (Call variants)
	gated  bool   // subject to the minimum level
	dyn    bool   // level is a parameter (Log)
}

var entryTable = []struct{ name, level, errLvl string }{
	{"Trace", "LevelTrace", ""}, {"Debug", "LevelDebug", ""}, {"Info", "LevelInfo", ""},
	{"Warn", "LevelWarn", ""}, {"Error", "LevelError", ""}, {"Fatal", "LevelFatal", ""},
	{"TraceCall", "LevelTrace", "LevelWarn"}, {"DebugCall", "LevelDebug", "LevelWarn"}, {"InfoCall", "LevelInfo", "LevelWarn"},
	{"LogAccess", "LevelInfo", "LevelError"}, {"Log", "", ""},
}

func logEntries(p *sim.Program, r *Report) []*logEntry {
	var out []*logEntry
	for _, e := range entryTable {
		if e.name != "LogAccess" {
			if fn := p.Func("countlog", e.name); r.Need(fn != nil, "countlog."+e.name) {
				out = append(out, &logEntry{name: e.name, fn: fn, call: e.errLvl != "", level: e.level, errLvl: e.errLvl, dyn: e.level == ""})
			}
		}
		if e.name != "Log" {
			if fn := p.Method("countlog", "Context", e.name); r.Need(fn != nil, "(*countlog.Context)."+e.name) {
				out = append(out, &logEntry{name: "(*Context)." + e.name, fn: fn, ctx: true, call: e.errLvl != "", level: e.level, errLvl: e.errLvl})
			}
		}
	}
	for _, e := range out {
		switch e.level {
		case "LevelWarn", "LevelError", "LevelFatal":
		default:
			e.gated = true
		}
	}
	return out
}

func levelConst(p *sim.Program, name string) (int64, bool) {
	sp := p.ByPath[p.Path("countlog")]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

const (
	sigHandle    = "(" + mod + "/countlog/spi.EventHandler).Handle"
	sigHandlerOf = "(" + mod + "/countlog/spi.EventSink).HandlerOf"
)

// countlogMachine inlines the logger core and treats formatting, output
// formats and user-supplied sinks as opaque.
func countlogMachine(p *sim.Program) *sim.Machine {
	m := p.NewMachine()
	m.Opaque = onlyPkgs("countlog", "countlog/spi", "concurrent")
	m.SnapAt = func(ev *sim.Event) bool {
		return ev.Callee == sigHandle || ev.Callee == sigHandlerOf || ev.Callee == "runtime.Caller"
	}
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	return m
}

// start builds the state in which an entry is called: for Context methods the
// context is one obtained from countlog.Ctx on a plain context.
type entryRun struct {
	e     *logEntry
	m     *sim.Machine
	st    *sim.State
	args  []*sim.Term
	ctx   *sim.Term
	event *sim.Term
	err   *sim.Term
	props *sim.Term
	level *sim.Term
}

func startEntry(p *sim.Program, r *Report, m *sim.Machine, e *logEntry) []*entryRun {
	var bases []*sim.State
	st := m.NewState()
	var ctxs []*sim.Term
	if e.ctx {
		cf := p.Func("countlog", "Ctx")
		if !r.Need(cf != nil, "countlog.Ctx") {
			return nil
		}
		c := m.Params(cf, "user.")
		st.Facts.Assert(m.T.Eq(c[0], m.T.Nil()), false)
		pt := types.NewPointer(p.Type("countlog", "Context"))
		st.Facts.Assert(m.IsType(c[0], pt), false)
		for _, o := range m.Run(st, cf, c) {
			if o.Panicked || o.Ret == nil {
				continue
			}
			bases = append(bases, o)
			ctxs = append(ctxs, o.Ret)
		}
	} else {
		bases = []*sim.State{st}
		ctxs = []*sim.Term{nil}
	}
	var out []*entryRun
	for i, b := range bases {
		er := &entryRun{e: e, m: m, st: b, ctx: ctxs[i]}
		b.Trace = nil
		ps := e.fn.Params
		for j, q := range ps {
			var t *sim.Term
			if e.ctx && j == 0 {
				t = ctxs[i]
			} else {
				t = m.T.Param(q.Name(), q.Type())
				switch u := q.Type().Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						er.event = t
					} else {
						er.level = t
					}
				case *types.Interface:
					er.err = t
				case *types.Slice:
					er.props = t
				}
			}
			er.args = append(er.args, t)
		}
		if er.level == nil && e.level != "" {
			if n, ok := levelConst(p, e.level); ok {
				er.level = m.T.Int(n)
			}
		}
		out = append(out, er)
	}
	return out
}

func minLevel(p *sim.Program, m *sim.Machine, st *sim.State, name string) *sim.Term {
	g := p.Global("countlog/spi", name)
	if g == nil {
		return nil
	}
	return m.LoadGlobal(st, g)
}

func handleEvents(st *sim.State) []*sim.Event {
	var out []*sim.Event
	for _, ev := range st.Trace {
		if (ev.Kind == "call" || ev.Kind == "callpanic") && ev.Callee == sigHandle {
			out = append(out, ev)
		}
	}
	return out
}

// origin classifies the receiver of a Handle event: the sink variable whose
// HandlerOf produced it ("writer", "aggregator") or "cache".
func origin(p *sim.Program, t *sim.Term) string {
	if cacheKey(t) != nil {
		return "cache"
	}
	return ""
}

// cacheKey returns the key a term was looked up with when the term is itself
// (not merely a part of) a value taken from the handler cache.
func cacheKey(t *sim.Term) *sim.Term {
	for t != nil {
		switch {
		case t.Op == sim.OAssert || t.Op == sim.OExtract || t.Op == sim.OConv || t.Op == sim.OIface:
			t = t.Args[0]
			continue
		case t.Op == sim.OCall && (t.Sub == "(*sync.Map).Load" || t.Sub == "(*sync.Map).LoadOrStore") && len(t.Args) > 1, t.Op == sim.OLookup:
			return t.Args[1]
		}
		return nil
	}
	return nil
}

func isPkgLevelSink(t *sim.Term, name string) bool {
	return t != nil && t.Op == sim.OLoad && t.Args[0].Op == sim.OGlobal && t.Args[0].Sub == mod+"/countlog."+name
}

func init() {
	register("C01", "Path simulation of every logging entry point under the preconditions enabled / disabled (MinLevel vs level) and err nil / non-nil; each path's EventHandler.Handle invocations are compared with the specification: disabled => none; enabled => exactly one event of the right level, error, context and properties, reaching the writer, and with an aggregator exactly one aggregation and the writer iff level >= MinCallLevel.", checkC01)
	register("C02", "Path simulation of every Call variant with err nil / non-nil: the returned term is nil, or a non-nil error whose text is built from the formatted event and err.Error().", checkC02)
	register("C03", "Path simulation of every logging entry point with a panic fork at each HandlerOf / Handle call on a sink, unwinding through deferred calls; no path may leave the entry point panicking. Handlers taken from the cache are resolved to the concrete types stored in it (fixpoint).", checkC03)
	register("C04", "Path simulation of every logging entry point recording the call stack at each runtime.Caller: the requested frame must be the caller of the entry point, and the site handed to the sinks must carry that file and line. Cached handlers are resolved to the concrete types stored.", checkC04)
}

func checkC01(p *sim.Program, r *Report) {
	r.Assumptions = []string{"sinks do not reassign spi.MinLevel/MinCallLevel or mutate the event while handling it", "levels are read once per decision; concurrent SetMinLevel calls are outside the property"}
	// order of the level constants
	names := []string{"LevelTraceCall", "LevelTrace", "LevelDebugCall", "LevelDebug", "LevelInfoCall", "LevelInfo", "LevelWarn", "LevelError", "LevelFatal"}
	for i := 1; i < len(names); i++ {
		a, ok1 := levelConst(p, names[i-1])
		b, ok2 := levelConst(p, names[i])
		r.Ob("level-order", names[i-1]+"<"+names[i], ok1 && ok2 && a < b, "countlog/countlog.go", fmt.Sprintf("%s must be below %s", names[i-1], names[i]))
	}
	for _, e := range logEntries(p, r) {
		for _, errCase := range []string{"nil", "non-nil"} {
			if !e.call && errCase == "non-nil" {
				continue
			}
			for _, enabled := range []bool{true, false} {
				m := countlogMachine(p)
				for _, er := range startEntry(p, r, m, e) {
					c01Run(p, r, er, errCase, enabled)
				}
				r.Absorb(m)
			}
		}
	}
	c01Config(p, r)
}

func c01Run(p *sim.Program, r *Report, er *entryRun, errCase string, enabled bool) {
	e, m, st := er.e, er.m, er.st
	T := m.T
	min := minLevel(p, m, st, "MinLevel")
	if !r.Need(min != nil && er.level != nil, "spi.MinLevel / level of "+e.name) {
		return
	}
	want := er.level
	expectEvent := enabled
	if e.call {
		if er.err == nil {
			r.Need(false, "error parameter of "+e.name)
			return
		}
		st.Facts.Assert(T.Eq(er.err, T.Nil()), errCase == "nil")
		if errCase == "non-nil" {
			n, _ := levelConst(p, e.errLvl)
			want = T.Int(n)
			expectEvent = true
		}
	}
	if !e.gated {
		expectEvent = true
	}
	if enabled {
		st.Facts.Assert(T.Cmp(token.LEQ, min, er.level), true)
	} else {
		st.Facts.Assert(T.Lt(er.level, min), true)
	}
	cs := fmt.Sprintf("%s err=%s enabled=%v", e.name, errCase, enabled)
	evType := p.Type("countlog/spi", "Event")
	for _, o := range m.Run(st, e.fn, er.args) {
		if o.Panicked {
			r.Ob("no-panic", cs, false, where(p, e.fn), "a path of "+e.name+" panics: "+o.PanicVal.String(), trace(o)...)
			continue
		}
		hs := handleEvents(o)
		if !expectEvent {
			r.Ob("disabled-silent", cs, len(hs) == 0, where(p, e.fn), "an event below the minimum level is delivered", trace(o)...)
			continue
		}
		// exactly-once delivery
		var cached, w, a []*sim.Event
		for _, h := range hs {
			if origin(p, h.Recv) == "cache" {
				cached = append(cached, h)
				continue
			}
			src := ""
			for _, ev := range o.Trace {
				if ev.Callee == sigHandlerOf && ev.Res == h.Recv {
					if isPkgLevelSink(ev.Recv, "EventWriter") {
						src = "w"
					} else if isPkgLevelSink(ev.Recv, "EventAggregator") {
						src = "a"
					}
				}
			}
			switch src {
			case "w":
				w = append(w, h)
			case "a":
				a = append(a, h)
			default:
				r.Ob("known-sink", cs, false, sim.PosOf(h.Instr), "event handed to an unknown handler "+h.Recv.String(), trace(o)...)
			}
		}
		if len(cached) > 0 {
			r.Ob("delivered-once", cs+" cached", len(cached) == 1 && len(w)+len(a) == 0, where(p, e.fn), "an enabled event must reach the cached handler exactly once", trace(o)...)
		} else {
			var agg *sim.Term
			created := false
			for _, ev := range o.Trace {
				if ev.Callee == sigHandlerOf && isPkgLevelSink(ev.Recv, "EventAggregator") {
					agg = ev.Res
				}
				if ev.Callee == sigHandlerOf && isPkgLevelSink(ev.Recv, "EventWriter") {
					created = true
				}
			}
			if !r.Ob("delivered", cs, created && agg != nil, where(p, e.fn), "an enabled event is dropped: no handler is obtained for it", trace(o)...) {
				continue
			}
			switch {
			case o.Facts.IsNil(agg):
				r.Ob("delivered-once", cs, len(w) == 1 && len(a) == 0, where(p, e.fn), "an enabled event must be written exactly once", trace(o)...)
			default:
				r.Ob("aggregated-once", cs, len(a) == 1, where(p, e.fn), "an aggregated event must reach the aggregator exactly once", trace(o)...)
				mc := minLevel(p, m, o, "MinCallLevel")
				below := o.Facts.Eval(T.Lt(want, mc))
				okw := below == sim.True && len(w) == 0 || below == sim.False && len(w) == 1
				r.Ob("min-call-level", cs, okw, where(p, e.fn), fmt.Sprintf("an aggregated event is written iff its level is at least MinCallLevel; here written %d times with level<MinCallLevel %v", len(w), below), trace(o)...)
			}
		}
		// content of the event
		for _, h := range hs {
			addr := h.Args[len(h.Args)-1]
			get := func(f string) *sim.Term { return m.FieldOf(h.Snap, addr, evType, f) }
			r.Ob("event-level", cs, termEqual(o, T, get("Level"), want), sim.PosOf(h.Instr), fmt.Sprintf("event level is %v, want %v", get("Level"), want), trace(o)...)
			r.Ob("event-props", cs, get("Properties") == er.props, sim.PosOf(h.Instr), "the event does not carry the caller's properties", trace(o)...)
			gotErr := get("Error")
			if e.call && errCase == "non-nil" {
				r.Ob("event-error", cs, gotErr == er.err, sim.PosOf(h.Instr), "the event does not carry the caller's error", trace(o)...)
			} else {
				r.Ob("event-error", cs, gotErr != nil && (o.Facts.IsNil(gotErr)), sim.PosOf(h.Instr), "the event carries an error although none was given", trace(o)...)
			}
			ts := get("Timestamp")
			r.Ob("event-time", cs, ts != nil && ts.Any(func(x *sim.Term) bool { return x.Op == sim.OCall && x.Sub == "time.Now" }), sim.PosOf(h.Instr), "the event's timestamp is not the current time", trace(o)...)
			if e.ctx {
				c := get("Context")
				r.Ob("event-ctx", cs, c != nil && (c == er.ctx || c.Op == sim.OIface && c.Args[0] == er.ctx), sim.PosOf(h.Instr), "the event does not carry the logging context", trace(o)...)
			}
		}
	}
}

func termEqual(st *sim.State, T *sim.Terms, a, b *sim.Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	return st.Facts.Eval(T.Eq(a, b)) == sim.True
}

// c01Config: SetMinLevel, ShouldLog and the timers.
func c01Config(p *sim.Program, r *Report) {
	if fn := p.Func("countlog", "SetMinLevel"); r.Need(fn != nil, "countlog.SetMinLevel") {
		m := countlogMachine(p)
		args := m.Params(fn, "")
		for _, o := range m.Run(m.NewState(), fn, args) {
			ml, mc := minLevel(p, m, o, "MinLevel"), minLevel(p, m, o, "MinCallLevel")
			r.Ob("set-min-level", "MinLevel", !o.Panicked && ml == args[0], where(p, fn), fmt.Sprintf("after SetMinLevel(level) the minimum level is %v", ml), trace(o)...)
			r.Ob("set-min-level", "MinCallLevel", !o.Panicked && termEqual(o, m.T, mc, m.T.Bin(token.ADD, args[0], m.T.Int(5), types.Typ[types.Int])), where(p, fn), fmt.Sprintf("after SetMinLevel(level) the minimum call level is %v, want half a level (5) above", mc), trace(o)...)
		}
		r.Absorb(m)
	}
	if fn := p.Func("countlog", "ShouldLog"); r.Need(fn != nil, "countlog.ShouldLog") {
		for _, enabled := range []bool{true, false} {
			m := countlogMachine(p)
			args := m.Params(fn, "")
			st := m.NewState()
			st.Facts.Assert(m.T.Lt(args[0], minLevel(p, m, st, "MinLevel")), !enabled)
			for _, o := range m.Run(st, fn, args) {
				v := sim.Unknown
				if o.Ret != nil {
					v = o.Facts.Eval(o.Ret)
				}
				wantV := sim.False
				if enabled {
					wantV = sim.True
				}
				r.Ob("should-log", fmt.Sprint("enabled=", enabled), v == wantV && !o.Panicked, where(p, fn), "ShouldLog disagrees with the gating of the log functions", trace(o)...)
			}
			r.Absorb(m)
		}
	}
	for name, lvl := range map[string]string{"TraceTimer": "LevelTrace", "DebugTimer": "LevelDebug", "InfoTimer": "LevelInfo"} {
		fn := p.Func("countlog", name)
		if !r.Need(fn != nil, "countlog."+name) {
			continue
		}
		n, _ := levelConst(p, lvl)
		for _, enabled := range []bool{true, false} {
			m := countlogMachine(p)
			st := m.NewState()
			st.Facts.Assert(m.T.Lt(m.T.Int(n), minLevel(p, m, st, "MinLevel")), !enabled)
			for _, o := range m.Run(st, fn, nil) {
				ok := false
				if o.Ret != nil && !o.Panicked {
					if enabled {
						ok = o.Ret.Op == sim.OPure && o.Ret.Sub == "(time.Time).UnixNano" && o.Ret.Any(func(x *sim.Term) bool { return x.Sub == "time.Now" })
					} else {
						v, isC := o.Ret.Int64()
						ok = isC && v == 0
					}
				}
				r.Ob("timer", fmt.Sprint(name, " enabled=", enabled), ok, where(p, fn), fmt.Sprintf("%s returns %v when its level is enabled=%v", name, o.Ret, enabled), trace(o)...)
			}
			r.Absorb(m)
		}
	}
}

func checkC02(p *sim.Program, r *Report) {
	r.Assumptions = []string{"handlers do not replace the error of the event they are given"}
	for _, e := range logEntries(p, r) {
		if !e.call {
			continue
		}
		for _, errCase := range []string{"nil", "non-nil"} {
			m := countlogMachine(p)
			m.PanicAt = func(st *sim.State, ev *sim.Event) bool {
				return ev.Callee == sigHandle && origin(p, ev.Recv) != "cache"
			}
			for _, er := range startEntry(p, r, m, e) {
				T := m.T
				er.st.Facts.Assert(T.Eq(er.err, T.Nil()), errCase == "nil")
				cs := e.name + " err=" + errCase
				for _, o := range m.Run(er.st, e.fn, er.args) {
					if o.Panicked {
						continue // C03
					}
					if errCase == "nil" {
						r.Ob("nil-stays-nil", cs, o.Ret != nil && o.Facts.IsNil(o.Ret), where(p, e.fn), fmt.Sprintf("err is nil but the call returns %v", o.Ret), trace(o)...)
						continue
					}
					ret := o.Ret
					if !r.Ob("error-not-lost", cs, ret != nil && (o.Facts.NonNil(ret) || ret == er.err), where(p, e.fn), fmt.Sprintf("err is non-nil but the call may return %v", ret), trace(o)...) {
						continue
					}
					hasErr := ret == er.err || ret.Any(func(x *sim.Term) bool {
						return x == er.err || x.Op == sim.OPure && x.Sub == "(error).Error" && x.Contains(er.err)
					})
					parts, known := textParts(m, o, ret)
					for _, x := range parts {
						hasErr = hasErr || x.Contains(er.err)
					}
					r.Ob("error-text", cs, hasErr, where(p, e.fn), fmt.Sprintf("the returned error %v is not built from the caller's error", ret), trace(o)...)
					// format of the wrapping: formatted event, ": ", err.Error()
					if ret == er.err {
						r.Ob("error-wrapping", cs, false, where(p, e.fn), "the error is returned as it is, without the formatted event", trace(o)...)
					} else if known {
						r.Ob("error-wrapping", cs, wrapOK(p, o, parts, er), where(p, e.fn), fmt.Sprintf("the returned error text is %v, want <formatted event>: <error>", parts), trace(o)...)
					} else {
						r.Note("%s: text of %v not decomposed", cs, ret)
					}
				}
			}
			r.Absorb(m)
		}
	}
}

// textParts flattens the text of an error made by errors.New / fmt.Errorf.
func textParts(m *sim.Machine, o *sim.State, t *sim.Term) ([]*sim.Term, bool) {
	if t.Op != sim.OCall {
		return nil, false
	}
	switch t.Sub {
	case "errors.New":
		x := t.Args[0]
		if x.Sub == "fmt.Sprintf" && (x.Op == sim.OPure || x.Op == sim.OCall) {
			return formatParts(m, o, x)
		}
		return flattenText(x), true
	case "fmt.Errorf":
		return formatParts(m, o, t)
	}
	return nil, false
}

// formatParts: the pieces of a text that Sprintf or Errorf makes with a simple format.
func formatParts(m *sim.Machine, o *sim.State, t *sim.Term) ([]*sim.Term, bool) {
	format, ok := t.Args[0].StringVal()
	if !ok {
		return nil, false
	}
	var out []*sim.Term
	args := t.Args[1:]
	if len(args) == 1 || len(args) == 2 && args[0].Op != sim.OIface {
		if es, ok := m.Elements(o, args[0]); ok {
			args = es
		}
	}
	for {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			if format != "" {
				out = append(out, m.T.Str(format))
			}
			return out, true
		}
		if i > 0 {
			out = append(out, m.T.Str(format[:i]))
		}
		if i+1 >= len(format) || !strings.Contains("svw", format[i+1:i+2]) || len(args) == 0 {
			return nil, false
		}
		a := stripIface(args[0])
		out = append(out, flattenText(a)...)
		args, format = args[1:], format[i+2:]
	}
}

func flattenText(t *sim.Term) []*sim.Term {
	switch t.Op {
	case sim.OConv:
		if t.Sub == "string" || t.Sub == "[]byte" {
			return flattenText(t.Args[0])
		}
	case sim.OConcat:
		var out []*sim.Term
		for _, a := range t.Args {
			out = append(out, flattenText(a)...)
		}
		return out
	case sim.OAppend:
		out := flattenText(t.Args[0])
		for _, a := range t.Args[1:] {
			if a.Op == sim.OSpread {
				out = append(out, flattenText(a.Args[0])...)
			} else {
				out = append(out, a)
			}
		}
		return out
	case sim.ONil:
		return nil
	case sim.OSlice:
		if n, ok := t.Args[2].Int64(); ok && n == 0 {
			return nil
		}
	case sim.OAlloc:
		if len(t.Args) > 0 {
			if n, ok := t.Args[0].Int64(); ok && n == 0 {
				return nil
			}
		}
	}
	return []*sim.Term{t}
}

// showsEvent: false if x is what a formatter of another format, or of other
// properties, gave.
func showsEvent(o *sim.State, x *sim.Term, er *entryRun) bool {
	for _, ev := range o.Trace {
		if ev.Kind != "call" || ev.Res != x {
			continue
		}
		name, recv, args := method(ev)
		if name != "Format" || len(args) != 2 {
			continue
		}
		if args[1] != er.props {
			return false
		}
		for _, f := range o.Trace {
			if f.Kind == "call" && f.Res == recv && strings.HasSuffix(f.Callee, "msgfmt.FormatterOf") {
				return len(f.Args) > 0 && f.Args[0] == er.event
			}
		}
	}
	return true
}

func wrapOK(p *sim.Program, o *sim.State, parts []*sim.Term, er *entryRun) bool {
	// join constants
	var text []string
	for _, x := range parts {
		if s, ok := x.StringVal(); ok {
			text = append(text, "lit:"+s)
		} else if n, ok := x.Int64(); ok {
			text = append(text, "lit:"+string(rune(n)))
		} else if x.Contains(er.err) {
			text = append(text, "err")
		} else if x == er.event || !showsEvent(o, x, er) {
			text = append(text, "?")
		} else if x.Contains(er.event) || x.Contains(er.props) || strings.Contains(x.String(), "Format") {
			text = append(text, "msg")
		} else {
			text = append(text, "?")
		}
	}
	// merge literals
	var merged []string
	for _, s := range text {
		if n := len(merged); n > 0 && strings.HasPrefix(s, "lit:") && strings.HasPrefix(merged[n-1], "lit:") {
			merged[n-1] += s[4:]
			continue
		}
		merged = append(merged, s)
	}
	return len(merged) == 3 && merged[0] == "msg" && merged[1] == "lit:: " && merged[2] == "err"
}

// ---- cache resolution shared by C03 and C04 ----

type cacheTable map[string]map[string]types.Type // key type -> stored handler types

func keyKind(t *sim.Term) string {
	if t.Op == sim.OIface {
		return t.Sub
	}
	if t.Typ != nil {
		return t.Typ.String()
	}
	return "?"
}

func (ct cacheTable) add(k string, t types.Type) bool {
	if ct[k] == nil {
		ct[k] = map[string]types.Type{}
	}
	if _, ok := ct[k][t.String()]; ok {
		return false
	}
	ct[k][t.String()] = t
	return true
}

// collect harvests stores of handlers from a trace.
func (ct cacheTable) collect(o *sim.State) bool {
	ch := false
	for _, ev := range o.Trace {
		var k, v *sim.Term
		switch {
		case ev.Kind == "call" && (ev.Callee == "(*sync.Map).Store" || ev.Callee == "(*sync.Map).LoadOrStore") && len(ev.Args) == 3:
			k, v = ev.Args[1], ev.Args[2]
		case ev.Kind == "mapupdate":
			k, v = ev.Args[0], ev.Val
		default:
			continue
		}
		if v.Op == sim.OIface {
			if ct.add(keyKind(k), v.Obj.(types.Type)) {
				ch = true
			}
		}
	}
	return ch
}

// resolver resolves Handle on a cached value to the types stored under the
// same kind of key.
func (ct cacheTable) resolver(p *sim.Program) func(st *sim.State, call *ssa.CallCommon, recv *sim.Term) []*ssa.Function {
	return func(st *sim.State, call *ssa.CallCommon, recv *sim.Term) []*ssa.Function {
		if call.Method.FullName() != sigHandle {
			return nil
		}
		key := cacheKey(recv)
		if key == nil {
			return nil
		}
		var out []*ssa.Function
		var names []string
		for n := range ct[keyKind(key)] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t := ct[keyKind(key)][n]
			if fn := p.MethodOf(t, "Handle"); fn != nil {
				out = append(out, fn)
			}
		}
		return out
	}
}

// cachedHandler is one kind of handler found in the cache: the state at the
// moment it was stored, so that its Handle can be run from there.
type cachedHandler struct {
	st  *sim.State
	m   *sim.Machine
	val *sim.Term
	fn  *ssa.Function
	sig string
}

// handlerSig identifies a stored handler by its type and the functions it is
// configured with.
func handlerSig(m *sim.Machine, st *sim.State, v *sim.Term) string {
	t := v.Obj.(types.Type)
	s := short(t.String())
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if str, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < str.NumFields(); i++ {
				if _, isF := str.Field(i).Type().Underlying().(*types.Signature); isF {
					f := m.FieldOf(st, v.Args[0], pt.Elem(), str.Field(i).Name())
					if f != nil && (f.Op == sim.OFunc || f.Op == sim.OClosure) {
						s += " " + str.Field(i).Name() + "=" + short(f.Obj.(*ssa.Function).String())
					} else {
						s += " " + str.Field(i).Name() + "=?"
					}
				}
			}
		}
	}
	return s
}

// cacheFixpoint runs the entries, then every handler they store, until no new
// kind of handler is stored.  visit sees every terminal state.
func cacheFixpoint(p *sim.Program, r *Report, entries []*logEntry, visit func(name string, fn *ssa.Function, m *sim.Machine, o *sim.State)) (cacheTable, []*cachedHandler) {
	ct := cacheTable{}
	var work, all []*cachedHandler
	known := map[string]bool{}
	type assertion struct {
		key, want types.Type
		in        ssa.Instruction
	}
	var asserts []assertion
	type stored struct {
		key, typ types.Type
		in       ssa.Instruction
	}
	var stores []stored
	seenSt, seenAs := map[string]bool{}, map[string]bool{}
	dynType := func(t *sim.Term) types.Type {
		if t != nil && t.Op == sim.OIface {
			return t.Obj.(types.Type)
		}
		return nil
	}
	harvest := func(m *sim.Machine, o *sim.State) {
		ct.collect(o)
		for _, ev := range o.Trace {
			var v, k *sim.Term
			switch {
			case ev.Kind == "call" && (ev.Callee == "(*sync.Map).Store" || ev.Callee == "(*sync.Map).LoadOrStore") && len(ev.Args) == 3:
				k, v = ev.Args[1], ev.Args[2]
			case ev.Kind == "mapupdate":
				k, v = ev.Args[0], ev.Val
			default:
				continue
			}
			if v.Op != sim.OIface || ev.Snap == nil {
				continue
			}
			if s := fmt.Sprint(dynType(k), dynType(v)); !seenSt[s] {
				seenSt[s] = true
				stores = append(stores, stored{dynType(k), dynType(v), ev.Instr})
			}
			fn := p.MethodOf(v.Obj.(types.Type), "Handle")
			if fn == nil {
				continue
			}
			sig := handlerSig(m, ev.Snap, v)
			if known[sig] {
				continue
			}
			known[sig] = true
			ch := &cachedHandler{st: ev.Snap, m: m, val: v, fn: fn, sig: sig}
			work = append(work, ch)
			all = append(all, ch)
		}
	}
	setup := func(m *sim.Machine) {
		m.PanicAt = sinkPanics
		m.OnAssert = func(st *sim.State, in *ssa.TypeAssert, x *sim.Term) {
			k := cacheKey(x)
			if k == nil || in.CommaOk {
				return
			}
			if s := fmt.Sprint(dynType(k), in.AssertedType, in.Pos()); !seenAs[s] {
				seenAs[s] = true
				asserts = append(asserts, assertion{dynType(k), in.AssertedType, in})
			}
		}
		snap := m.SnapAt
		m.SnapAt = func(ev *sim.Event) bool {
			return snap(ev) || ev.Callee == "(*sync.Map).Store" || ev.Callee == "(*sync.Map).LoadOrStore" || ev.Kind == "mapupdate"
		}
	}
	for _, e := range entries {
		m := countlogMachine(p)
		setup(m)
		for _, er := range startEntry(p, r, m, e) {
			for _, o := range m.Run(er.st, e.fn, er.args) {
				harvest(m, o)
				visit(e.name, e.fn, m, o)
			}
		}
		r.Absorb(m)
	}
	for len(work) > 0 {
		ch := work[len(work)-1]
		work = work[:len(work)-1]
		st := ch.st.Detach()
		args := []*sim.Term{ch.val.Args[0]}
		for _, q := range ch.fn.Params[1:] {
			t := ch.m.T.Param("cached."+q.Name(), q.Type())
			st.Facts.Assert(ch.m.T.Eq(t, ch.m.T.Nil()), false)
			args = append(args, t)
		}
		for _, o := range ch.m.Run(st, ch.fn, args) {
			harvest(ch.m, o)
			visit("cached handler "+ch.sig, ch.fn, ch.m, o)
		}
		r.Absorb(ch.m)
	}
	// a value taken from the cache is asserted to be a handler: every type
	// stored under such a key has to be one
	for _, a := range asserts {
		for _, s := range stores {
			if a.key != nil && s.key != nil && !types.Identical(a.key, s.key) {
				continue
			}
			ok := types.Identical(a.want, s.typ)
			if it, isI := a.want.Underlying().(*types.Interface); isI {
				ok = types.Implements(s.typ, it)
			}
			r.Ob("cached-type", fmt.Sprintf("%s stored, %s wanted", types.TypeString(s.typ, nil), types.TypeString(a.want, nil)), ok, sim.PosOf(a.in), fmt.Sprintf("a %v stored in the cache at %s does not implement %v: the type assertion panics in the code that logs", s.typ, sim.PosOf(s.in), a.want))
		}
	}
	return ct, all
}

// sinkPanics: sinks and the handlers they return may panic.  Handlers taken
// from the cache are the logger's own; they are run separately.
func sinkPanics(st *sim.State, ev *sim.Event) bool {
	return ev.Callee == sigHandle && origin(nil, ev.Recv) != "cache" || ev.Callee == sigHandlerOf
}

func checkC03(p *sim.Program, r *Report) {
	r.Assumptions = []string{"loglog.Error and debug.PrintStack do not panic themselves", "by induction on call depth, a handler taken from the cache does not panic: each kind of handler ever stored is run separately from the state it was stored in"}
	entries := logEntries(p, r)
	inj := map[string]int{}
	var names []string
	fns := map[string]*ssa.Function{}
	ct, all := cacheFixpoint(p, r, entries, func(name string, fn *ssa.Function, m *sim.Machine, o *sim.State) {
		if _, ok := fns[name]; !ok {
			names = append(names, name)
			fns[name] = fn
		}
		for _, ev := range o.Trace {
			if ev.Kind == "callpanic" {
				inj[name]++
				break
			}
		}
		what := ""
		if o.Panicked && o.PanicAt != nil {
			what = sim.PosOf(o.PanicAt)
		}
		r.Ob("panic-contained", name, !o.Panicked, where(p, fn), "a panic in an event sink escapes to the caller of "+name+" (raised at "+short(what)+")", trace(o)...)
	})
	for _, name := range names {
		if strings.HasPrefix(name, "cached") {
			continue
		}
		r.Ob("panic-explored", name, inj[name] > 0, where(p, fns[name]), "no sink call was reached")
	}
	for _, ch := range all {
		r.Note("kind of handler stored in the cache: %s", ch.sig)
	}
	r.Ob("cache-contents", "handler types", len(ct) > 0, "countlog", "no handler type is stored in the handler cache")
}

func checkC04(p *sim.Program, r *Report) {
	r.Assumptions = []string{"runtime.Caller counts source-level frames (inlining is transparent to it)"}
	entries := logEntries(p, r)
	rep := []*logEntry{}
	for _, e := range entries {
		if e.name == "Info" || e.name == "InfoCall" {
			rep = append(rep, e)
		}
	}
	ct, _ := cacheFixpoint(p, newReport("tmp"), rep, func(string, *ssa.Function, *sim.Machine, *sim.State) {})
	siteType := p.Type("countlog/spi", "LogSite")
	for _, e := range entries {
		m := countlogMachine(p)
		m.Resolve = ct.resolver(p)
		asked := 0
		for _, er := range startEntry(p, r, m, e) {
			for _, o := range m.Run(er.st, e.fn, er.args) {
				for _, ev := range o.Trace {
					switch {
					case ev.Callee == "runtime.Caller":
						n, ok := ev.Args[0].Int64()
						depth := 0
						for _, f := range ev.Stack {
							if f.Synthetic == "" {
								depth++
							}
						}
						asked++
						r.Ob("caller-frame", e.name+" in "+fname(ev.Fn), ok && int(n) == depth, sim.PosOf(ev.Instr),
							fmt.Sprintf("runtime.Caller(%v) is called %d frames below the caller of %s", ev.Args[0], depth, e.name), trace(o)...)
					case ev.Callee == sigHandlerOf:
						addr := ev.Args[0]
						file := m.FieldOf(ev.Snap, addr, siteType, "File")
						line := m.FieldOf(ev.Snap, addr, siteType, "Line")
						okF := file != nil && file.Op == sim.OExtract && file.Sub == "1" && file.Args[0].Sub == "runtime.Caller"
						okL := line != nil && line.Op == sim.OExtract && line.Sub == "2" && line.Args[0].Sub == "runtime.Caller"
						r.Ob("site-location", e.name+" in "+fname(ev.Fn), okF && okL && file.Args[0] == line.Args[0], sim.PosOf(ev.Instr),
							fmt.Sprintf("the site handed to the sink has file %v line %v instead of the caller's", file, line), trace(o)...)
						if evn := m.FieldOf(ev.Snap, addr, siteType, "Event"); evn != nil && evn.Op == sim.OParam {
							r.Ob("site-event", e.name, evn == er.event, sim.PosOf(ev.Instr), "the site does not carry the event name", trace(o)...)
						}
					}
				}
			}
		}
		r.Ob("caller-asked", e.name, asked > 0, where(p, e.fn), "no source location is looked up for "+e.name)
		r.Absorb(m)
	}
}
