package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func checkC27(p *sim.Program, r *Report) {
	r.Assumptions = []string{"msgfmt.FormatterOf(f, kv).Format(space, kv) appends the text of f with kv, msgfmt.AppendValue the text of the value (C26)", "properties are pairs of a string and a value"}
	checkLevels(p, r)
	for _, f := range []string{"hrf", "compact"} {
		if e := newEfmt(p, r, f, "Format"); e != nil {
			e.textFormat(f)
			r.Absorb(e.m)
		}
	}
	if e := newEfmt(p, r, "printf", "Format"); e != nil {
		e.printf()
		r.Absorb(e.m)
	}
}

// ---- level names ----

func checkLevels(p *sim.Program, r *Report) {
	sp := p.ByPath[p.Path("countlog/spi")]
	ln, cn := p.Func("countlog/spi", "LevelName"), p.Func("countlog/spi", "ColoredLevelName")
	if !r.Need(sp != nil && ln != nil && cn != nil, "spi.LevelName, spi.ColoredLevelName") {
		return
	}
	m := p.NewMachine()
	m.Unroll = 100
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Opaque = onlyPkgs("countlog/spi")
	e := &efmt{p: p, r: r, m: m}
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if ev.Callee == "fmt.Sprintf" && ev.HasVar {
			return e.sprintf(ev)
		}
		return nil, false
	}
	base := []*sim.State{m.NewState()}
	if init := sp.Func("init"); init != nil {
		if os := m.Run(m.NewState(), init, nil); len(os) > 0 {
			base = nil
			for _, o := range os {
				if !o.Panicked && len(o.Trace) > 0 { // not the path where it has run already
					base = append(base, o.Detach())
				}
			}
		}
	}
	n := 0
	var names []string
	for _, name := range sp.Pkg.Scope().Names() {
		c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
		if !ok || !strings.HasPrefix(name, "Level") {
			continue
		}
		want := strings.ToUpper(strings.TrimSuffix(strings.TrimPrefix(name, "Level"), "Call"))
		names = append(names, name)
		for _, fn := range []*ssa.Function{ln, cn} {
			for _, b := range base {
				for _, o := range m.Run(b.Detach(), fn, []*sim.Term{m.T.Const(c.Val(), types.Typ[types.Int])}) {
					got, known := "", o.Ret != nil && !o.Panicked
					if known {
						for _, q := range flat(o.Ret) {
							s, ok := q.StringVal()
							if q.Op == sim.OZero || q.Op == sim.ONil {
								s, ok = "", true
							}
							got += s
							known = known && ok
						}
					}
					if !known && !o.Panicked {
						r.Note("%s(%s) = %v", fn.Name(), name, o.Ret)
						continue
					}
					n++
					r.Ob("level-name", name+" "+fn.Name(), !o.Panicked && strings.Contains(got, want), where(p, fn), fmt.Sprintf("the name of %s is %q", name, got), trace(o)...)
				}
			}
		}
	}
	sort.Strings(names)
	r.Ob("coverage", "levels", len(names) >= 6, "countlog/spi", fmt.Sprintf("only the levels %v were found", names))
	r.Absorb(m)
}

// ---- hrf and compact ----

// piece: a part of the line, or a run of literal text.
func (e *efmt) textFormat(f string) {
	r, T, m := e.r, e.m.T, e.m
	prefixes := []string{"event!", "callee!", ""}
	ctxT, _ := e.p.MethodOf(types.NewPointer(e.p.Type("countlog/spi", "LogSite")), "LogContext"), 0
	if !r.Need(ctxT != nil, "spi.LogSite.LogContext") {
		return
	}
	lcT := ctxT.Signature.Results().At(0).Type()
	lcS, _ := lcT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !r.Need(lcS != nil, "spi.LogContext") {
		return
	}
	warn, okW := spiConst(e.p, "LevelWarn")
	if !r.Need(okW, "spi.LevelWarn") {
		return
	}
	examined := 0
	for _, pre := range prefixes {
		for _, n := range e.counts() {
			ncs := []int{0}
			if f == "hrf" {
				ncs = []int{0, n}
				if n == 0 {
					ncs[1] = 1
				}
			}
			for _, nc := range ncs {
				if n > 3 && pre != "" {
					continue
				}
				name := e.field(m.NewState(), e.site, e.siteT, "Event")
				mfs := e.mk(func(st *sim.State, recv *sim.Term) {
					sample, _, _ := e.properties(st, "sample", n)
					e.set(st, e.site, e.siteT, "Sample", sample)
					for _, q := range prefixes[:2] {
						st.Facts.Assert(T.Pure("strings.HasPrefix", types.Typ[types.Bool], name, T.Str(q)), q == pre)
					}
				})
				for _, mf := range mfs {
					t := &textRun{efmt: e, f: f, pre: pre, name: name, mf: mf, warn: warn}
					outs, space := e.run(mf, func(st *sim.State) {
						t.props, t.keys, t.vals = e.properties(st, "props", n)
						if n > 2 {
							// which ones are special does not depend on the others
							for i, k := range t.keys {
								timer := n == 3 && i == 1
								st.Facts.Assert(T.Eq(k, T.Str("timer")), timer)
								if !timer {
									st.Facts.Assert(m.IsType(t.vals[i], types.Typ[types.Int64]), false)
								}
							}
							st.Facts.Assert(T.Eq(e.field(st, e.event, e.eventT, "Error"), T.Nil()), true)
						}
						e.set(st, e.event, e.eventT, "Properties", t.props)
						ctx := e.field(st, e.event, e.eventT, "Context")
						t.lc = T.Pure("GetLogContext", lcT, ctx)
						var cp *sim.Term
						cp, t.ckeys, t.cvals = e.properties(st, "ctx", nc)
						m.Store(st, T.Field(t.lc, "Properties", cp.Typ), cp, cp.Typ)
						t.ctx = ctx
					})
					for _, o := range outs {
						its, ok := e.parts(o, space, mf.meth)
						if !ok {
							continue
						}
						examined++
						t.check(o, its)
					}
				}
			}
		}
	}
	r.Ob("coverage", f, examined >= 20, e.pkg, fmt.Sprintf("only %d ways to format were examined", examined))
}

func spiConst(p *sim.Program, name string) (int64, bool) {
	sp := p.ByPath[p.Path("countlog/spi")]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

type textRun struct {
	*efmt
	f, pre       string
	name         *sim.Term
	mf           made
	warn         int64
	props        *sim.Term
	keys, vals   []*sim.Term
	ctx, lc      *sim.Term
	ckeys, cvals []*sim.Term
}

func (t *textRun) check(o *sim.State, its []item) {
	r, T, m := t.r, t.m.T, t.m
	at := where(t.p, t.mf.meth)
	str := types.Typ[types.String]
	bad := func(rule, msg string) {
		r.Ob(rule, t.f, false, at, fmt.Sprintf("%s: %v", msg, its), trace(o)...)
	}
	good := func(rule string) { r.Ob(rule, t.f, true, "", "") }
	count := func(rule, what string, want int, is func(it *item) bool) int {
		n, pos := 0, -1
		for i := range its {
			if is(&its[i]) {
				n++
				pos = i
			}
		}
		if n != want {
			bad(rule, fmt.Sprintf("%s is there %d times instead of %d", what, n, want))
		} else {
			good(rule)
		}
		return pos
	}
	has := func(want *sim.Term) func(it *item) bool {
		return func(it *item) bool { return it.t != nil && content(it.t) == want }
	}
	ev := t.event
	// level
	level := t.field(o, ev, t.eventT, "Level")
	lp := count("level", "the level", 1, func(it *item) bool {
		return it.t != nil && it.t.Op == sim.OPure && (it.t.Sub == "LevelName" || it.t.Sub == "ColoredLevelName") && it.t.Args[0] == level
	})
	// message
	var mp int
	if t.pre == "" {
		mp = count("message", "the message", 1, func(it *item) bool { return isPiece(it, "formatted") })
		if mp >= 0 {
			q := its[mp].t
			fm, kv := q.Args[0], q.Args[1]
			if fm.Op == sim.OPure && fm.Sub == "FormatterOf" {
				if kv != t.props || fm.Args[1] != t.props {
					bad("message-properties", "the message is made from other properties than those of the event, or with the layout of others")
				} else {
					good("message-properties")
				}
				if fm.Args[0] != t.name {
					bad("message", fmt.Sprintf("the message is made from the format %v", fm.Args[0]))
				}
			} else {
				r.Note("%s: message %v", t.f, fm)
			}
		}
	} else {
		n := int64(len(t.pre))
		rest := func(x *sim.Term) bool {
			if x.Op == sim.OSlice && x.Args[0] == t.name {
				lo, ok := x.Args[1].Int64()
				hi := x.Args[2]
				return ok && lo == n && (hi == T.Len(t.name) || hi.Op == sim.ONil)
			}
			return x.Op == sim.OPure && x.Sub == "strings.TrimPrefix" && x.Args[0] == t.name && isStr(x.Args[1], t.pre)
		}
		mp = count("message", "the name of the event without "+t.pre, 1, func(it *item) bool { return it.t != nil && rest(content(it.t)) })
	}
	// error
	err := t.field(o, ev, t.eventT, "Error")
	txt := T.Pure("(error).Error", str, err)
	isErr := func(it *item) bool {
		return it.t != nil && it.t.Op == sim.OPure && strings.HasSuffix(it.t.Sub, ".Error") && len(it.t.Args) > 0 && it.t.Args[0] == err
	}
	want := 1
	if o.Facts.IsNil(err) {
		want = 0
	} else if !o.Facts.NonNil(err) {
		bad("error", "whether there is an error is not looked at")
		want = -1
	} else if o.Facts.Eval(T.Eq(txt, T.Str(""))) == sim.True || o.Facts.Eval(T.Eq(T.Len(txt), T.Int(0))) == sim.True {
		want = -1
	}
	if want >= 0 {
		count("error", "the error", want, isErr)
	}
	// timestamp
	stamp := t.field(o, ev, t.eventT, "Timestamp")
	showT := t.f == "compact"
	if t.f == "hrf" {
		fo := t.p.MethodOf(t.format, "FormatterOf")
		recv := T.Param("fo."+fo.Params[0].Name(), fo.Params[0].Type())
		ft := recv.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		sh := t.field(t.mf.st, recv, ft, "ShowTimestamp")
		showT = o.Facts.Eval(sh) == sim.True
		if !showT && o.Facts.Eval(sh) != sim.False {
			r.Note("hrf: ShowTimestamp is not decided")
		}
	}
	nT := 0
	if showT {
		nT = 1
	}
	count("timestamp", "the time", nT, func(it *item) bool {
		return it.t != nil && it.t.Op == sim.OPure && it.t.Sub == "(time.Time).Format" && it.t.Args[0] == stamp
	})
	// properties
	pos := -1
	if t.f == "hrf" {
		ck, cv := t.ckeys, t.cvals
		if o.Facts.IsNil(t.ctx) || o.Facts.IsNil(t.lc) {
			ck, cv = nil, nil
		}
		pos = t.pairs(o, its, "context", ck, cv, -1, at)
	}
	pos2 := t.pairs(o, its, "property", t.keys, t.vals, pos, at)
	_ = pos2
	// location: from warnings on
	loc := T.Pure("Location", str, t.site)
	atLeast := 1
	if t.f == "hrf" {
		below := T.Lt(level, T.Const(constInt(t.warn), types.Typ[types.Int]))
		if fs := o.Facts.Clone(); fs.Assert(below, true) {
			count("location", "the location (below warnings)", 0, has(loc))
		}
		if fs := o.Facts.Clone(); !fs.Assert(below, false) {
			atLeast = 0
		}
	}
	if atLeast > 0 {
		count("location", "the location", 1, has(loc))
	}
	// the line
	last := ""
	if len(its) > 0 {
		last = its[len(its)-1].lit
	}
	if !strings.HasSuffix(last, "\n") {
		bad("line-end", "the event does not end with a line break")
	} else {
		good("line-end")
	}
	_, _ = lp, m
}

// pairs: each name is followed by its value, in order.
func (t *textRun) pairs(o *sim.State, its []item, what string, keys, vals []*sim.Term, from int, at string) int {
	ob := func(rule string, ok bool, msg string, args ...interface{}) bool {
		if ok {
			return t.r.Ob(rule, t.f, true, "", "")
		}
		return t.r.Ob(rule, t.f, false, at, fmt.Sprintf(msg, args...)+fmt.Sprintf(": %v", its), trace(o)...)
	}
	all := map[*sim.Term]int{}
	for i, k := range keys {
		all[k] = i
	}
	isVal := func(it *item, v *sim.Term) (ok, known bool) {
		if it.ev != nil {
			_, recv, _ := method(it.ev)
			enc := stripIface(recv)
			return enc.Op == sim.OPure && enc.Sub == "EncoderOfObject" && enc.Args[0] == v, enc.Op == sim.OPure && enc.Sub == "EncoderOfObject"
		}
		if it.t == nil {
			return false, false
		}
		if isPiece(it, "value") {
			return it.t.Args[0] == v, true
		}
		return it.t.Contains(v), !it.t.Any(func(x *sim.Term) bool { return x.Op == sim.OCall })
	}
	seen := 0
	for i := 0; i < len(its); i++ {
		it := &its[i]
		if it.t == nil && it.ev == nil {
			continue
		}
		if isTimer := seen < len(keys) && it.t != nil && o.Facts.Eval(t.m.T.Eq(keys[seen], t.m.T.Str("timer"))) == sim.True; isTimer {
			// the time since the start, or any text with the value
			if ok, _ := isVal(it, vals[seen]); ok && i > 0 && strings.Contains(its[i-1].lit, "timer") {
				ob(what+"-value", true, "")
				seen++
				continue
			}
		}
		k, isKey := all[content2(it)]
		if !isKey {
			continue
		}
		if !ob(what+"-order", k == seen, "the name of %s %d is where that of %d is expected", what, k, seen) {
			return i
		}
		seen++
		j := i + 1
		for j < len(its) && its[j].t == nil && its[j].ev == nil {
			j++
		}
		if !ob(what+"-value", j < len(its), "a name without a value") {
			return i
		}
		ok, known := isVal(&its[j], vals[k])
		if !ok && !known {
			t.r.Note("%s: value %v", t.f, its[j])
			continue
		}
		ob(what+"-value", ok, "the name of %s %d is followed by %v", what, k, its[j])
		i = j
	}
	ob(what+"-order", seen == len(keys), "of %d names of a %s %d are written", len(keys), what, seen)
	return -1
}

func content2(it *item) *sim.Term {
	if it.t == nil {
		return nil
	}
	return content(it.t)
}

// ---- printf ----

func (e *efmt) printf() {
	r, T, m := e.r, e.m.T, e.m
	examined := 0
	for _, n := range []int{0, 2} {
		for _, mf := range e.mk(func(st *sim.State, recv *sim.Term) {
			sample, _, _ := e.properties(st, "sample", n)
			e.set(st, e.site, e.siteT, "Sample", sample)
		}) {
			var props *sim.Term
			outs, space := e.run(mf, func(st *sim.State) {
				props, _, _ = e.properties(st, "props", n)
				e.set(st, e.event, e.eventT, "Properties", props)
			})
			for _, o := range outs {
				its, ok := e.parts(o, space, mf.meth)
				if !ok {
					continue
				}
				at := where(e.p, mf.meth)
				if len(its) != 1 || !isPiece(&its[0], "formatted") {
					r.Note("printf: %v", its)
					continue
				}
				examined++
				fm, kvT := its[0].t.Args[0], its[0].t.Args[1]
				kv, ok1 := m.Elements(o, kvT)
				if !r.Ob("layout-values", "printf", ok1 && len(kv)%2 == 0, at, "the values given to the layout are not known", trace(o)...) {
					continue
				}
				if fm.Op != sim.OPure || fm.Sub != "FormatterOf" {
					r.Note("printf: formatter %v", fm)
					continue
				}
				// the layout: Layout and a line break
				parts := flat(fm.Args[0])
				okL := len(parts) == 2 && parts[0].Op == sim.OLoad && parts[0].Args[0].Op == sim.OField && parts[0].Args[0].Sub == "Layout" && isStr(parts[1], "\n")
				r.Ob("layout", "printf", okL, at, fmt.Sprintf("the line is made from %v instead of the layout and a line break", fm.Args[0]), trace(o)...)
				if fm.Args[1] != kvT {
					sample, ok2 := m.Elements(o, fm.Args[1])
					same := ok2 && len(sample) == len(kv)
					for i := 0; same && i < len(kv); i += 2 {
						same = sample[i] == kv[i]
					}
					r.Ob("layout-sample", "printf", same, at, "the layout was compiled for other names than those of the values", trace(o)...)
				}
				str := types.Typ[types.String]
				ev, site := e.event, e.site
				want := map[string]func(v *sim.Term) bool{
					"timestamp": func(v *sim.Term) bool { return v == e.field(o, ev, e.eventT, "Timestamp") },
					"level":     func(v *sim.Term) bool { return v == T.Pure("LevelName", str, e.field(o, ev, e.eventT, "Level")) },
					"event":     func(v *sim.Term) bool { return v == e.field(o, site, e.siteT, "Event") },
					"func":      func(v *sim.Term) bool { return v == e.field(o, site, e.siteT, "Func") },
					"file":      func(v *sim.Term) bool { return v == e.field(o, site, e.siteT, "File") },
					"line":      func(v *sim.Term) bool { return v == e.field(o, site, e.siteT, "Line") },
					"message": func(v *sim.Term) bool {
						ps := flat(v)
						if len(ps) != 1 || ps[0].Op != sim.OPure || ps[0].Sub != "formatted" {
							return false
						}
						f := ps[0].Args[0]
						return ps[0].Args[1] == props && f.Op == sim.OPure && f.Sub == "FormatterOf" && f.Args[0] == e.field(o, site, e.siteT, "Event") && f.Args[1] == props
					},
				}
				got := map[string]*sim.Term{}
				for i := 0; i+1 < len(kv); i += 2 {
					k, ok := stripIface(kv[i]).StringVal()
					if _, dup := got[k]; ok && !dup {
						got[k] = stripIface(kv[i+1])
					}
				}
				for _, k := range []string{"message", "timestamp", "level", "event", "func", "file", "line"} {
					v := got[k]
					r.Ob("layout-values", "printf "+k, v != nil && want[k](v), at, fmt.Sprintf("the value named %s is %v", k, v), trace(o)...)
				}
			}
		}
	}
	r.Ob("coverage", "printf", examined > 0, e.pkg, "no way to format was examined")
}
