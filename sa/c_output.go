package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C05", "Path simulation of EventWriter.HandlerOf(...).Handle and of msgfmt.Printf/Fprintf/Println/Fprintln: on every path exactly one Write of exactly the formatter's output to the configured destination; the space given to the formatter is empty and private (fresh or from a sync.Pool); a pooled buffer is put back at most once and only after the Write; nothing derived from it is used afterwards; a Write error is reported or returned.", checkC05)
}

// ---- helpers over traces ----

func isWrite(ev *sim.Event) bool {
	return (ev.Kind == "call" || ev.Kind == "callpanic") && (ev.Callee == "(io.Writer).Write" || ev.Callee == "(*os.File).Write" || strings.HasSuffix(ev.Callee, ".ClosableWriter).Write") ||
		ev.Callee == "io.WriteString" || ev.Callee == "(*os.File).WriteString" || strings.HasPrefix(ev.Callee, "fmt.Fprint"))
}

// writeTarget and writeData decode a write event.
func writeTarget(ev *sim.Event) *sim.Term {
	switch {
	case ev.Callee == "(*os.File).Write" || ev.Callee == "(*os.File).WriteString":
		return ev.Args[0]
	case ev.Callee == "io.WriteString" || strings.HasPrefix(ev.Callee, "fmt.Fprint"):
		return stripIface(ev.Args[0])
	}
	return ev.Recv
}

func writeData(ev *sim.Event) *sim.Term {
	switch ev.Callee {
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString":
		return ev.Args[1]
	case "(io.Writer).Write":
		return ev.Args[0]
	}
	if strings.HasPrefix(ev.Callee, "fmt.Fprint") {
		return nil
	}
	return ev.Args[len(ev.Args)-1]
}

func stripIface(t *sim.Term) *sim.Term {
	for t != nil && t.Op == sim.OIface {
		t = t.Args[0]
	}
	return t
}

// content strips conversions and whole copies: what bytes a term denotes.
func content(t *sim.Term) *sim.Term {
	for t != nil {
		switch t.Op {
		case sim.OConv:
			if t.Sub == "string" || t.Sub == "[]byte" {
				t = t.Args[0]
				continue
			}
		case sim.OAppend:
			if len(t.Args) == 2 && t.Args[1].Op == sim.OSpread && emptySlice(t.Args[0]) {
				t = t.Args[1].Args[0]
				continue
			}
		case sim.OPure:
			if t.Sub == "bytes.Clone" {
				t = t.Args[0]
				continue
			}
		}
		return t
	}
	return t
}

func emptySlice(t *sim.Term) bool {
	switch t.Op {
	case sim.ONil, sim.OZero:
		return true
	case sim.OAlloc:
		if len(t.Args) > 0 {
			if n, ok := t.Args[0].Int64(); ok && n == 0 {
				return true
			}
		}
	case sim.OSlice:
		if n, ok := t.Args[2].Int64(); ok && n == 0 {
			return true
		}
	}
	return false
}

// bufferRoots collects the storage a byte slice may live in.
func bufferRoots(t *sim.Term) []*sim.Term {
	switch t.Op {
	case sim.OConv:
		return bufferRoots(t.Args[0])
	case sim.OAppend, sim.OSlice, sim.OAssert, sim.OExtract:
		return bufferRoots(t.Args[0])
	case sim.OIface:
		return bufferRoots(t.Args[0])
	}
	return []*sim.Term{t}
}

const (
	sigOutFormat = "(" + mod + "/countlog/output.Formatter).Format"
	sigMsgFormat = "(" + mod + "/msgfmt.Formatter).Format"
	sigPoolGet   = "(*sync.Pool).Get"
	sigPoolPut   = "(*sync.Pool).Put"
)

func isGlobalLoad(t *sim.Term, name string) bool {
	return t != nil && t.Op == sim.OLoad && t.Args[0].Op == sim.OGlobal && t.Args[0].Sub == name
}

// loglogErrors returns the events that report an error through loglog.Error.
func loglogErrors(o *sim.State) []*sim.Event {
	var out []*sim.Event
	for _, ev := range o.Trace {
		if ev.Kind == "call" && ev.Recv != nil && isGlobalLoad(ev.Recv, mod+"/countlog/loglog.Error") {
			out = append(out, ev)
		}
	}
	return out
}

func checkC05(p *sim.Program, r *Report) {
	r.Assumptions = []string{"formatters append to the space they are given (C24)", "io.Writer implementations obey the io.Writer contract: they do not retain or modify the buffer"}
	c05Writer(p, r)
	c05Msgfmt(p, r)
}

func c05Writer(p *sim.Program, r *Report) {
	nw := p.Func("countlog/output", "NewEventWriter")
	cfgT := p.Type("countlog/output", "EventWriterConfig")
	ewT := p.Type("countlog/output", "EventWriter")
	if !r.Need(nw != nil && cfgT != nil && ewT != nil, "output.NewEventWriter / EventWriterConfig / EventWriter") {
		return
	}
	ho := p.MethodOf(types.NewPointer(ewT), "HandlerOf")
	if !r.Need(ho != nil, "(*EventWriter).HandlerOf") {
		return
	}
	for _, nilWriter := range []bool{false, true} {
		cs := fmt.Sprintf("EventWriter writer=nil:%v", nilWriter)
		m := p.NewMachine()
		m.Opaque = onlyPkgs("countlog/output")
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		T := m.T
		st := m.NewState()
		args := m.Params(nw, "")
		if args[0].Op != sim.OParam {
			r.Need(false, "parameter of NewEventWriter")
			return
		}
		w := m.Proj(args[0], cfgT, "Writer")
		st.Facts.Assert(T.Eq(w, T.Nil()), nilWriter)
		for _, o1 := range m.Run(st, nw, args) {
			if o1.Panicked || o1.Ret == nil {
				r.Ob("construct", cs, false, where(p, nw), "NewEventWriter panics", trace(o1)...)
				continue
			}
			site := T.Param("site", ho.Params[1].Type())
			s2 := o1.Detach()
			for _, o2 := range m.Run(s2, ho, []*sim.Term{o1.Ret, site}) {
				if o2.Panicked || o2.Ret == nil {
					r.Ob("construct", cs, false, where(p, ho), "HandlerOf panics", trace(o2)...)
					continue
				}
				if !r.Ob("handler", cs, o2.Ret.Op == sim.OIface, where(p, ho), fmt.Sprintf("HandlerOf returns %v, not a writing handler", o2.Ret), trace(o2)...) {
					continue
				}
				var fmtr *sim.Term
				for _, ev := range o2.Trace {
					if strings.HasSuffix(ev.Callee, "output.Format).FormatterOf") {
						fmtr = ev.Res
						r.Ob("formatter-site", cs, len(ev.Args) > 0 && ev.Args[len(ev.Args)-1] == site, sim.PosOf(ev.Instr), "the formatter is not built for the site of the event", trace(o2)...)
					}
				}
				h := p.MethodOf(o2.Ret.Obj.(types.Type), "Handle")
				if !r.Need(h != nil, "Handle of the handler returned by HandlerOf") {
					continue
				}
				event := T.Param("event", h.Params[1].Type())
				s3 := o2.Detach()
				s3.Facts.Assert(T.Eq(event, T.Nil()), false)
				for _, o := range m.Run(s3, h, []*sim.Term{o2.Ret.Args[0], event}) {
					dest := w
					destOK := func(t *sim.Term) bool {
						if nilWriter {
							return isGlobalLoad(stripIface(t), "os.Stdout")
						}
						return t == dest
					}
					c05Path(p, r, m, o, h, cs, sigOutFormat, fmtr, []*sim.Term{event}, destOK, true)
				}
			}
		}
		r.Absorb(m)
	}
}

// c05Path checks one path of a function that formats and writes.
func c05Path(p *sim.Program, r *Report, m *sim.Machine, o *sim.State, fn *ssa.Function, cs, sigFormat string, fmtr *sim.Term, fargs []*sim.Term, destOK func(*sim.Term) bool, reportErr bool) {
	if !r.Ob("no-panic", cs, !o.Panicked, where(p, fn), "the path panics", trace(o)...) {
		return
	}
	var fs, ws, puts []*sim.Event
	var order []string
	T := m.T
	freed := map[*sim.Term]*sim.Event{}
	for _, ev := range o.Trace {
		if ev.Kind == "call" && ev.Callee != sigPoolPut {
			for _, a := range ev.Args {
				for _, b := range bufferRoots(a) {
					if put := freed[b]; put != nil {
						r.Ob("no-use-after-put", cs, false, sim.PosOf(ev.Instr), "a buffer is used after it was put back into the pool", trace(o)...)
					}
				}
			}
		}
		switch {
		case ev.Kind == "call" && ev.Callee == sigFormat:
			fs = append(fs, ev)
			order = append(order, "format")
		case isWrite(ev):
			ws = append(ws, ev)
			order = append(order, "write")
		case ev.Kind == "call" && ev.Callee == sigPoolPut:
			puts = append(puts, ev)
			order = append(order, "put")
			for _, b := range bufferRoots(ev.Args[len(ev.Args)-1]) {
				r.Ob("put-once", cs, freed[b] == nil, sim.PosOf(ev.Instr), "a buffer is put back into the pool twice", trace(o)...)
				freed[b] = ev
				// the formatter's result may live in the space it was given
				for _, f := range fs {
					if f.Res == b {
						for _, sb := range bufferRoots(f.Args[0]) {
							if sb.Op != sim.ONil {
								freed[sb] = ev
							}
						}
					}
				}
			}
		}
	}
	if !r.Ob("one-record-one-write", cs, len(fs) == 1 && len(ws) == 1, where(p, fn), fmt.Sprintf("formatted %d times, written %d times", len(fs), len(ws)), trace(o)...) {
		return
	}
	f, w := fs[0], ws[0]
	if fmtr != nil {
		r.Ob("formatter", cs, f.Recv == fmtr, sim.PosOf(f.Instr), "the event is formatted by a different formatter than the one made for its site", trace(o)...)
	}
	for i, a := range fargs {
		r.Ob("format-args", cs, len(f.Args) > i+1 && f.Args[i+1] == a, sim.PosOf(f.Instr), "the formatter is not given the caller's event", trace(o)...)
	}
	sp := f.Args[0]
	r.Ob("space-empty", cs, o.Facts.IsNil(sp) || o.Facts.Eval(T.Eq(T.Len(sp), T.Int(0))) == sim.True, sim.PosOf(f.Instr), "the space given to the formatter is not empty: an earlier record would be written again", trace(o)...)
	for _, b := range bufferRoots(sp) {
		priv := b.Op == sim.ONil || b.Op == sim.OAlloc || b.Op == sim.OZero || b.Op == sim.OCall && b.Sub == sigPoolGet
		r.Ob("space-private", cs, priv, sim.PosOf(f.Instr), "the space given to the formatter is shared between calls: "+b.String(), trace(o)...)
	}
	data := writeData(w)
	r.Ob("whole-record", cs, data != nil && content(data) == f.Res, sim.PosOf(w.Instr), fmt.Sprintf("what is written (%v) is not the formatted record", data), trace(o)...)
	r.Ob("destination", cs, destOK(writeTarget(w)), sim.PosOf(w.Instr), fmt.Sprintf("the record is written to %v", writeTarget(w)), trace(o)...)
	iw, ip := -1, -1
	for i, s := range order {
		if s == "write" {
			iw = i
		}
		if s == "put" && ip < 0 {
			ip = i
		}
	}
	if ip >= 0 {
		r.Ob("put-after-write", cs, ip > iw, sim.PosOf(puts[0].Instr), "the buffer goes back to the pool before it is written", trace(o)...)
	}
	werr := T.Extract(w.Res, 1, nil)
	isNil := o.Facts.IsNil(werr)
	if reportErr {
		es := loglogErrors(o)
		if isNil {
			r.Ob("write-error-reported", cs+" ok", len(es) == 0, where(p, fn), "an error is reported although the write succeeded", trace(o)...)
		} else {
			ok := len(es) == 1 && es[0].Args[0].Contains(w.Res)
			r.Ob("write-error-reported", cs+" failed", ok, where(p, fn), "a failed write is not reported", trace(o)...)
		}
	} else if o.Ret != nil {
		e := T.Extract(o.Ret, 1, nil)
		n := T.Extract(o.Ret, 0, nil)
		r.Ob("write-result-returned", cs, e == werr || isNil && o.Facts.IsNil(e), where(p, fn), fmt.Sprintf("the write's error is not returned but %v", e), trace(o)...)
		r.Ob("write-count-returned", cs, n == T.Extract(w.Res, 0, nil) || isNil && n == T.Len(f.Res), where(p, fn), fmt.Sprintf("the write's count is not returned but %v", n), trace(o)...)
	}
}

func c05Msgfmt(p *sim.Program, r *Report) {
	for _, name := range []string{"Fprintf", "Printf", "Fprintln", "Println"} {
		fn := p.Func("msgfmt", name)
		if !r.Need(fn != nil, "msgfmt."+name) {
			continue
		}
		m := p.NewMachine()
		op := onlyPkgs("msgfmt", "reflect2", "concurrent")
		m.Opaque = func(f *ssa.Function) bool { return op(f) || f.Name() == "FormatterOf" && f.Signature.Recv() == nil }
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		T := m.T
		args := m.Params(fn, "")
		st := m.NewState()
		var writer, kv *sim.Term
		for i, q := range fn.Params {
			switch q.Type().Underlying().(type) {
			case *types.Interface:
				writer = args[i]
				st.Facts.Assert(T.Eq(writer, T.Nil()), false)
			case *types.Slice:
				kv = args[i]
			}
		}
		destOK := func(t *sim.Term) bool {
			if writer == nil {
				return isGlobalLoad(stripIface(t), "os.Stdout")
			}
			return t == writer
		}
		ln := strings.HasSuffix(name, "ln")
		for _, o := range m.Run(st, fn, args) {
			if ln && (o.Facts.IsNil(kv) || o.Facts.Eval(T.Eq(T.Len(kv), T.Int(0))) == sim.True) {
				// nothing but a line break
				var ws []*sim.Event
				for _, ev := range o.Trace {
					if isWrite(ev) || ev.Callee == "fmt.Println" {
						ws = append(ws, ev)
					}
				}
				ok := len(ws) == 1
				if ok && ws[0].Callee == "fmt.Println" {
					ok = writer == nil
				} else if ok {
					ok = destOK(writeTarget(ws[0]))
				}
				r.Ob("destination", name+" no values", ok, where(p, fn), "the line break is not written to the given writer", trace(o)...)
				continue
			}
			var fa []*sim.Term
			if !ln {
				fa = []*sim.Term{kv}
			}
			var fmtr *sim.Term
			for _, ev := range o.Trace {
				if strings.HasSuffix(ev.Callee, "msgfmt.FormatterOf") {
					fmtr = ev.Res
				}
			}
			c05Path(p, r, m, o, fn, name, sigMsgFormat, fmtr, fa, destOK, false)
		}
		r.Absorb(m)
	}
}
