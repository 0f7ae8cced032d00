package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C14", "Every operation of parse.Source is interpreted after every short history of operations, over readers that deliver any split of a stream of symbolic bytes and end in every way; what Peek, PeekN, PeekRune and Error show after each operation must be the rest of the stream and its end.", checkC14)
}

// script: what a reader does: the bytes of each read, then how it ends.
type script struct {
	reads  []int  // bytes per read; 0: a read without bytes or error
	end    string // EOF, E (an error), dead (never anything again)
	withIt bool   // the last read with bytes comes with the end
	str    bool   // no reader: NewSourceString
	total  int
}

func (s *script) String() string {
	if s.str {
		return fmt.Sprintf("string of %d bytes", s.total)
	}
	w := ""
	if s.withIt {
		w = " with the last"
	}
	return fmt.Sprintf("reads of %v bytes, %s%s", s.reads, s.end, w)
}

type srcOpn struct {
	name string
	n    int
}

func (o srcOpn) String() string {
	if strings.HasSuffix(o.name, "N") || o.name == "Consume1" {
		return fmt.Sprintf("%s(%d)", o.name, o.n)
	}
	return o.name
}

// psrc: the expected state of a source.
type psrc struct {
	pos    int
	sticky *sim.Term // an error other than the end that was reported first
	any    bool      // an error of the operation itself was reported
}

type parser struct {
	p        *sim.Program
	r        *Report
	m        *sim.Machine
	base     *sim.State
	eof, unx *sim.Term
	noprog   *sim.Term
	errE     *sim.Term
	reads    *sim.Term // cell: number of reads done
	sc       *script
	bufLen   int
	lead     *sim.Term // the byte at leadAt
	leadAt   int
	leads    map[int]*sim.Term // other known bytes
	buf      *sim.Term         // the buffer given to the source
	lost     int
	ops      int
}

func (x *parser) byteT() types.Type { return types.Typ[types.Byte] }
func (x *parser) bytes() types.Type {
	return types.NewSlice(types.Universe.Lookup("byte").Type())
}

func (x *parser) b(i int) *sim.Term {
	if x.lead != nil && i == x.leadAt {
		return x.lead
	}
	if l := x.leads[i]; l != nil {
		return l
	}
	return x.m.T.Pure("b", x.byteT(), x.m.T.Int(int64(i)))
}

func newParser(p *sim.Program, r *Report, pkgs ...string) *parser {
	x := &parser{p: p, r: r, bufLen: 2}
	sp := p.ByPath[parsePkg]
	io := p.SSA.ImportedPackage("io")
	if !r.Need(sp != nil && p.Func("parse", "NewSource") != nil && p.Func("parse", "NewSourceString") != nil && io != nil, "parse.NewSource, parse.NewSourceString") {
		return nil
	}
	m := p.NewMachine()
	x.m = m
	m.Unroll, m.Depth = 3000, 4
	m.MaxSteps = 1 << 50
	m.InPlace = true
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Opaque = onlyPkgs(append(pkgs, "parse")...)
	m.Model = x.model
	m.Std = p.StandIns()
	st := m.NewState()
	et := types.Universe.Lookup("error").Type()
	x.eof = m.LoadGlobal(st, io.Var("EOF"))
	x.unx = m.LoadGlobal(st, io.Var("ErrUnexpectedEOF"))
	x.noprog = m.LoadGlobal(st, io.Var("ErrNoProgress"))
	x.errE = m.T.Param("readError", et)
	x.reads = m.T.Param("reads", types.NewPointer(types.Typ[types.Int]))
	errs := []*sim.Term{x.eof, x.unx, x.noprog, x.errE}
	for i, e := range errs {
		st.Facts.Assert(m.T.Eq(e, m.T.Nil()), false)
		for _, f := range errs[:i] {
			st.Facts.Assert(m.T.Eq(e, f), false)
		}
	}
	x.base = st
	for _, pk := range append([]string{"parse"}, pkgs...) {
		if q := p.ByPath[p.Path(pk)]; q != nil && q.Func("init") != nil {
			n := -1
			var b *sim.State
			for _, o := range m.Run(x.base, q.Func("init"), nil) {
				if !o.Panicked && len(o.Heap) > n {
					n = len(o.Heap)
					b = o.Detach()
				}
			}
			if b != nil {
				x.base = b
			}
		}
	}
	return x
}

func (x *parser) model(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
	T := m.T
	name, recv, args := method(ev)
	if name == "Read" && recv != nil && len(args) == 1 {
		tup, _ := evResult(ev).(*types.Tuple)
		if tup == nil || tup.Len() != 2 {
			return nil, false
		}
		k64, _ := m.Load(st, x.reads, types.Typ[types.Int]).Int64()
		k := int(k64)
		m.Store(st, x.reads, T.Int(k64+1), types.Typ[types.Int])
		res := func(n int, e *sim.Term) (*sim.Term, bool) {
			return T.Tuple(T.Int(int64(n)), e), true
		}
		end := T.Nil()
		switch x.sc.end {
		case "EOF":
			end = x.eof
		case "E":
			end = x.errE
		}
		if k >= len(x.sc.reads) {
			return res(0, end)
		}
		n, at := x.sc.reads[k], 0
		for _, c := range x.sc.reads[:k] {
			at += c
		}
		if l, ok := T.Len(args[0]).Int64(); !ok || int(l) < n {
			st.Tag("short-buffer")
			st.Facts.Assert(T.Bool(true), false)
			return res(0, x.errE)
		}
		for i := 0; i < n; i++ {
			a, j := args[0], int64(i)
			if a.Op == sim.OSlice {
				lo, ok := a.Args[1].Int64()
				if !ok {
					st.Tag("unknown-buffer")
					return nil, false
				}
				a, j = a.Args[0], lo+j
			}
			m.Store(st, T.Index(a, T.Int(j), x.byteT()), x.b(at+i), x.byteT())
		}
		if x.sc.withIt && k == len(x.sc.reads)-1 {
			return res(n, end)
		}
		return res(n, T.Nil())
	}
	switch ev.Callee {
	case "errors.New", "fmt.Errorf":
		e := T.Pure("newError", evResult(ev), T.Int(int64(st.Seq())))
		st.Facts.Assert(T.Eq(e, T.Nil()), false)
		for _, o := range []*sim.Term{x.eof, x.unx, x.noprog, x.errE} {
			st.Facts.Assert(T.Eq(e, o), false)
		}
		return e, true
	case "unicode/utf8.DecodeRune":
		tup, _ := evResult(ev).(*types.Tuple)
		bs, ok := x.bytesOf(st, args[0])
		if tup == nil || !ok {
			return nil, false
		}
		return T.Tuple(T.Pure("rune", tup.At(0).Type(), bs...), T.Pure("size", tup.At(1).Type(), bs...)), true
	case "unicode/utf8.FullRune":
		bs, ok := x.bytesOf(st, args[0])
		if !ok {
			return nil, false
		}
		if len(bs) == 0 {
			return T.Bool(false), true
		}
		if c, ok := bs[0].Int64(); ok && len(bs) >= runeLen(int(c)) {
			return T.Bool(true), true
		}
		return T.Pure("FullRune", types.Typ[types.Bool], bs...), true
	}
	return nil, false
}

// bytesOf: the content of a []byte.
func (x *parser) bytesOf(st *sim.State, t *sim.Term) ([]*sim.Term, bool) {
	m := x.m
	T := m.T
	switch t.Op {
	case sim.ONil, sim.OZero:
		return nil, true
	case sim.OConst:
		s, ok := t.StringVal()
		var out []*sim.Term
		for i := 0; ok && i < len(s); i++ {
			out = append(out, T.Const(constant.MakeInt64(int64(s[i])), x.byteT()))
		}
		return out, ok
	case sim.OAlloc:
		n, ok := T.Len(t).Int64()
		if !ok || n > 4096 {
			return nil, false
		}
		var out []*sim.Term
		for i := int64(0); i < n; i++ {
			out = append(out, m.Load(st, T.Index(t, T.Int(i), x.byteT()), x.byteT()))
		}
		return out, true
	case sim.OSlice:
		lo, ok1 := t.Args[1].Int64()
		hi, ok2 := t.Args[2].Int64()
		if !ok1 || !ok2 || hi < lo || hi-lo > 4096 {
			return nil, false
		}
		if b := t.Args[0]; b.Op == sim.OAppend || b.Op == sim.OConv || b.Op == sim.OConst {
			bs, ok := x.bytesOf(st, b)
			if !ok || int(hi) > len(bs) || lo < 0 {
				return nil, false
			}
			return bs[lo:hi], true
		}
		var out []*sim.Term
		for i := lo; i < hi; i++ {
			out = append(out, m.Load(st, T.Index(t.Args[0], T.Int(i), x.byteT()), x.byteT()))
		}
		return out, true
	case sim.OAppend:
		out, ok := x.bytesOf(st, t.Args[0])
		if !ok {
			return nil, false
		}
		out = out[:len(out):len(out)]
		for _, p := range t.Args[1:] {
			if p.Op != sim.OSpread {
				out = append(out, p)
				continue
			}
			bs, ok := x.bytesOf(st, p.Args[0])
			if !ok {
				return nil, false
			}
			out = append(out, bs...)
		}
		return out, true
	case sim.OConv:
		return x.bytesOf(st, t.Args[0])
	}
	return nil, false
}

// runeLen: how many bytes the encoding of a rune that starts with b has.
func runeLen(b int) int {
	switch {
	case b < 0xc2:
		return 1
	case b < 0xe0:
		return 2
	case b < 0xf0:
		return 3
	case b < 0xf5:
		return 4
	}
	return 1
}

func showBytes(bs []*sim.Term) string {
	var out []string
	for _, b := range bs {
		if b.Op == sim.OPure && b.Sub == "b" {
			out = append(out, "b"+b.Args[0].String())
		} else {
			out = append(out, short(b.String()))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

// stream: bytes i to j of the input.
func (x *parser) stream(i, j int) []*sim.Term {
	var out []*sim.Term
	for ; i < j; i++ {
		out = append(out, x.b(i))
	}
	return out
}

func (x *parser) same(st *sim.State, a, b []*sim.Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && st.Facts.Eval(x.m.T.Eq(a[i], b[i])) != sim.True {
			return false
		}
	}
	return true
}

// end: the error at the end of the input.
func (x *parser) end() *sim.Term {
	switch {
	case x.sc.str || x.sc.end == "EOF":
		return x.eof
	case x.sc.end == "E":
		return x.errE
	}
	return x.noprog
}

func (x *parser) method(name string) *ssa.Function { return x.p.Method("parse", "Source", name) }

// source: the states after making a source, with the source.
func (x *parser) source() (sts []*sim.State, src *sim.Term, failed bool) {
	m := x.m
	T := m.T
	st := x.base.Clone()
	m.Store(st, x.reads, T.Int(0), types.Typ[types.Int])
	if x.sc.str {
		fn := x.p.Func("parse", "NewSourceString")
		var s *sim.Term
		if x.sc.total == 0 {
			s = T.Str("")
		} else {
			// a string of given length
			arr := m.MakeSlice("input", int64(x.sc.total), x.bytes())
			for i := 0; i < x.sc.total; i++ {
				m.Store(st, T.Index(arr, T.Int(int64(i)), x.byteT()), x.b(i), x.byteT())
			}
			s = arr
		}
		outs := m.Run(st, fn, []*sim.Term{s})
		if len(outs) != 1 || outs[0].Panicked {
			return nil, nil, true
		}
		o := outs[0].Detach()
		if pk := x.call(o, outs[0].Ret, "Peek"); len(pk) == 1 && pk[0].Ret.Op == sim.OConv {
			for i := 0; i < x.sc.total; i++ {
				m.Store(o, T.Index(pk[0].Ret, T.Int(int64(i)), x.byteT()), x.b(i), x.byteT())
			}
		}
		return []*sim.State{o}, outs[0].Ret, false
	}
	fn := x.p.Func("parse", "NewSource")
	rd := T.Param("reader", fn.Params[0].Type())
	st.Facts.Assert(T.Eq(rd, T.Nil()), false)
	buf := m.MakeSlice("buf", int64(x.bufLen), x.bytes())
	x.buf = buf
	outs := m.Run(st, fn, []*sim.Term{rd, buf})
	if len(outs) != 1 || outs[0].Panicked || outs[0].Ret.Op != sim.OTuple || outs[0].Tags["short-buffer"] {
		return nil, nil, true
	}
	o := outs[0]
	src, err := o.Ret.Args[0], o.Ret.Args[1]
	if x.sc.total == 0 {
		x.r.Ob("made", "no-input", o.Facts.IsNil(src) && x.isErr(o, err, x.end()), where(x.p, fn), fmt.Sprintf("NewSource of a reader with %v: gives %v, %v", x.sc, src, err), traceIf(true, o)...)
		return nil, nil, false
	}
	if !x.r.Ob("made", "input", o.Facts.IsNil(err) && !o.Facts.IsNil(src), where(x.p, fn), fmt.Sprintf("NewSource of a reader with %v: gives %v, %v", x.sc, src, err), traceIf(true, o)...) {
		return nil, nil, false
	}
	return []*sim.State{o.Detach()}, src, false
}

func traceIf(c bool, o *sim.State) []string {
	if c {
		return trace(o)
	}
	return nil
}

func (x *parser) isErr(o *sim.State, e, want *sim.Term) bool {
	return e == want || stripIface(e) == stripIface(want) || o.Facts.Eval(x.m.T.Eq(e, want)) == sim.True
}

// history is a source with what was done to it.
type history struct {
	st  *sim.State
	src *sim.Term
	exp psrc
	did []srcOpn
}

func (x *parser) what(h *history) string {
	var s []string
	for _, o := range h.did {
		s = append(s, o.String())
	}
	return fmt.Sprintf("%v; %s", x.sc, strings.Join(s, ", "))
}

// call runs a method of the source; nil if the result is not understood.
func (x *parser) call(st *sim.State, src *sim.Term, name string, args ...*sim.Term) []*sim.State {
	fn := x.method(name)
	if fn == nil {
		return nil
	}
	return x.m.Run(st, fn, append([]*sim.Term{src}, args...))
}

// observe checks what Peek and Error show.
func (x *parser) observe(h *history, op string) bool {
	T := x.m.T
	pk := x.call(h.st, h.src, "Peek")
	er := x.call(h.st, h.src, "Error")
	if len(pk) != 1 || len(er) != 1 || pk[0].Panicked || er[0].Panicked {
		x.lost++
		return false
	}
	bs, ok := x.bytesOf(pk[0], pk[0].Ret)
	if !ok {
		x.lost++
		x.r.Note("what Peek returns is not understood: %v", pk[0].Ret)
		return false
	}
	fn := x.method(op)
	if fn == nil {
		fn = x.p.Func("parse", op)
	}
	rest := x.sc.total - h.exp.pos
	ok = len(bs) <= rest && (len(bs) > 0) == (rest > 0) && x.same(pk[0], bs, x.stream(h.exp.pos, h.exp.pos+len(bs)))
	if !x.r.Ob("stream", op, ok, where(x.p, fn), fmt.Sprintf("after %s: Peek gives %s, the input goes on with %s", x.what(h), showBytes(bs), showBytes(x.stream(h.exp.pos, x.sc.total)))) {
		return false
	}
	e := er[0].Ret
	switch {
	case h.exp.sticky != nil:
		ok = x.isErr(er[0], e, h.exp.sticky)
	case h.exp.any:
		ok = er[0].Facts.NonNil(e) && er[0].Facts.Eval(T.Eq(e, x.eof)) == sim.False
		h.exp.sticky = e
	case rest == 0:
		ok = x.isErr(er[0], e, x.end())
	default:
		ok = er[0].Facts.IsNil(e)
	}
	return x.r.Ob("error", op, ok, where(x.p, fn), fmt.Sprintf("after %s: Error gives %v with %d bytes left", x.what(h), short(e.String()), rest))
}

// apply does op on every state of the history and checks it.
func (x *parser) apply(h *history, op srcOpn) (out []*history) {
	T := x.m.T
	x.ops++
	total := x.sc.total
	did := append(h.did[:len(h.did):len(h.did)], op)
	var args []*sim.Term
	st := h.st.Clone()
	switch op.name {
	case "PeekN", "ConsumeN":
		args = []*sim.Term{T.Int(int64(op.n))}
	case "Consume1":
		c := T.Param("expected", x.byteT())
		if h.exp.pos < total {
			c = x.b(h.exp.pos)
			if op.n == 1 {
				c = T.Param("other", x.byteT())
				if !st.Facts.Assert(T.Eq(c, x.b(h.exp.pos)), false) {
					return nil
				}
			}
		}
		args = []*sim.Term{c}
	case "SetBuffer":
		args = []*sim.Term{x.m.MakeSlice("otherbuf", int64(x.bufLen), x.bytes())}
	case "ReportError":
		args = []*sim.Term{x.errE2()}
		st.Facts.Assert(T.Eq(args[0], T.Nil()), false)
		for _, o := range []*sim.Term{x.eof, x.unx, x.noprog, x.errE} {
			st.Facts.Assert(T.Eq(args[0], o), false)
		}
	}
	fn := x.method(op.name)
	ahead := 0
	if op.name == "Consume" {
		pk := x.call(h.st, h.src, "Peek")
		if len(pk) != 1 {
			return nil
		}
		bs, ok := x.bytesOf(pk[0], pk[0].Ret)
		if !ok {
			return nil
		}
		ahead = len(bs)
	}
	cut := x.m.Cut
	outs := x.call(st, h.src, op.name, args...)
	g := &history{src: h.src, exp: h.exp, did: did}
	if x.m.Cut > cut {
		x.r.Ob("ends", op.name, false, where(x.p, fn), fmt.Sprintf("%s: the operation goes on and on", x.what(g)))
		x.m.Cut = cut
		return nil
	}
	for _, o := range outs {
		if o.Tags["short-buffer"] || o.Tags["unknown-buffer"] {
			continue
		}
		if !x.r.Ob("no-panic", op.name, !o.Panicked, where(x.p, fn), fmt.Sprintf("%s: panics: %v", x.what(g), o.PanicVal), traceIf(o.Panicked, o)...) {
			continue
		}
		g := &history{src: h.src, exp: h.exp, did: did}
		pos := h.exp.pos
		ob := func(rule string, ok bool, format string, a ...interface{}) bool {
			if ok {
				return x.r.Ob(rule, op.name, true, "", "")
			}
			return x.r.Ob(rule, op.name, false, where(x.p, fn), x.what(g)+": "+fmt.Sprintf(format, a...), trace(o)...)
		}
		switch op.name {
		case "PeekN":
			if o.Ret.Op != sim.OTuple {
				x.lost++
				continue
			}
			bs, ok := x.bytesOf(o, o.Ret.Args[0])
			if !ok {
				x.lost++
				x.r.Note("what PeekN returns is not understood: %v", o.Ret.Args[0])
				continue
			}
			e := o.Ret.Args[1]
			if pos+op.n <= total {
				ob("peeked", o.Facts.IsNil(e) && x.same(o, bs, x.stream(pos, pos+op.n)), "gives %s, %v; the input goes on with %s", showBytes(bs), e, showBytes(x.stream(pos, total)))
			} else {
				ob("peeked", x.isErr(o, e, x.end()) && x.same(o, bs, x.stream(pos, total)), "gives %s, %v; the rest of the input is %s", showBytes(bs), e, showBytes(x.stream(pos, total)))
			}
		case "Peek1":
			if pos < total {
				ob("peeked", o.Facts.Eval(T.Eq(o.Ret, x.b(pos))) == sim.True, "gives %v, the next byte is b%d", o.Ret, pos)
			} else if h.exp.sticky == nil && x.end() == x.eof {
				g.exp.any = true
			}
		case "ConsumeN":
			g.exp.pos = pos + op.n
			if g.exp.pos > total {
				g.exp.pos = total
			}
		case "Consume":
			g.exp.pos = pos + ahead
		case "Consume1":
			if pos < total {
				g.exp.pos = pos + 1
				if op.n == 1 && h.exp.sticky == nil {
					g.exp.any = true
				}
			} else if h.exp.sticky == nil && x.end() == x.eof {
				g.exp.any = true
			}
		case "ReportError":
			if h.exp.sticky == nil && !(pos == total && x.end() != x.eof) {
				g.exp.sticky = args[0]
			}
		}
		g.st = o.Detach()
		if op.name == "Consume1" && op.n == 1 && pos < total {
			// whether the unexpected byte is consumed is not stated
			pk := x.call(g.st, g.src, "Peek")
			if len(pk) == 1 {
				if bs, ok := x.bytesOf(pk[0], pk[0].Ret); ok && len(bs) > 0 && bs[0] == x.b(pos) {
					g.exp.pos = pos
				}
			}
		}
		if x.observe(g, op.name) {
			if g.exp.sticky == nil && !g.exp.any && g.exp.pos == total && x.end() != x.eof {
				g.exp.sticky = x.end()
			}
			out = append(out, g)
		}
	}
	return out
}

func (x *parser) errE2() *sim.Term {
	return x.m.T.Param("reported", types.Universe.Lookup("error").Type())
}

func scripts() (out []*script) {
	for _, c := range [][]int{{}, {1}, {2}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 2, 1}, {1, 1, 1, 1}, {0, 2}, {1, 0, 2}, {2, 0, 0, 1}, {3}, {4, 1}, {3, 2}, {1, 4}} {
		n := 0
		for _, k := range c {
			n += k
		}
		for _, e := range []string{"EOF", "E", "dead"} {
			big := false
			for _, k := range c {
				big = big || k > 2
			}
			if e == "dead" && (big || len(c) > 3) || e == "E" && big {
				continue
			}
			out = append(out, &script{reads: c, end: e, total: n})
			if e != "dead" && len(c) > 0 {
				out = append(out, &script{reads: c, end: e, withIt: true, total: n})
			}
		}
	}
	for n := 0; n <= 4; n++ {
		out = append(out, &script{str: true, total: n})
	}
	return out
}

func checkC14(p *sim.Program, r *Report) {
	x := newParser(p, r)
	if x == nil {
		return
	}
	for _, n := range []string{"Peek", "Peek1", "PeekN", "ConsumeN", "Consume1", "Consume", "PeekRune", "ReportError", "Error", "SetBuffer"} {
		if !r.Need(x.method(n) != nil, "(*parse.Source)."+n) {
			return
		}
	}
	befores := [][]srcOpn{
		{}, {{"PeekN", 2}}, {{"PeekN", 3}}, {{"PeekN", 5}}, {{"ConsumeN", 1}}, {{"Consume", 0}}, {{"ConsumeN", 2}},
		{{"PeekN", 3}, {"ConsumeN", 1}}, {{"PeekN", 4}, {"ConsumeN", 2}}, {{"PeekN", 5}, {"ConsumeN", 3}}, {{"PeekN", 4}, {"Consume", 0}},
		{{"PeekN", 3}, {"PeekN", 4}}, {{"ConsumeN", 1}, {"PeekN", 3}}, {{"ReportError", 0}}, {{"PeekN", 9}},
		{{"PeekN", 9}, {"ConsumeN", 2}}, {{"Consume1", 0}}, {{"ConsumeN", 9}},
		{{"SetBuffer", 0}}, {{"PeekN", 3}, {"SetBuffer", 0}},
	}
	var ops []srcOpn
	for n := 0; n <= 6; n++ {
		ops = append(ops, srcOpn{"PeekN", n}, srcOpn{"ConsumeN", n})
	}
	ops = append(ops, srcOpn{"Peek1", 0}, srcOpn{"Consume", 0}, srcOpn{"Consume1", 0}, srcOpn{"Consume1", 1}, srcOpn{"ReportError", 0})
	sources := 0
	for _, sc := range scripts() {
		x.sc = sc
		x.bufLen = 2
		for _, k := range sc.reads {
			if k > 2 {
				x.bufLen = 4
			}
		}
		sts, src, failed := x.source()
		if failed {
			x.lost++
			r.Note("how a source is made is not understood: %v", sc)
		}
		for _, st := range sts {
			sources++
			h0 := &history{st: st, src: src, exp: psrc{}}
			if sc.total == 0 {
				h0.exp.pos = 0
			}
			name := "NewSource"
			if sc.str {
				name = "NewSourceString"
			}
			if !x.observe(h0, name) {
				continue
			}
			for _, before := range befores {
				hs := []*history{h0}
				for _, op := range before {
					var next []*history
					for _, h := range hs {
						next = append(next, x.apply(h, op)...)
					}
					hs = next
				}
				for _, op := range ops {
					for _, h := range hs {
						for _, g := range x.apply(h, op) {
							x.drain(g, op)
						}
					}
				}
			}
		}
	}
	r.Ob("coverage", "sources", x.lost > 0 || sources >= 40, "parse", fmt.Sprintf("only %d sources were examined", sources))
	x.runes()
	r.Absorb(x.m)
}

// drain: the rest of the input after an operation.
func (x *parser) drain(h *history, op srcOpn) {
	for i := 0; i < 6 && h.exp.pos < x.sc.total; i++ {
		hs := x.apply(h, srcOpn{"Consume", 0})
		if len(hs) != 1 {
			return
		}
		h = hs[0]
	}
	x.r.Ob("drained", op.name, h.exp.pos == x.sc.total, where(x.p, x.method(op.name)), fmt.Sprintf("after %s: consuming does not come to the end", x.what(h)))
}

// runes: PeekRune decodes enough of the input, whatever the first byte is.
func (x *parser) runes() {
	T := x.m.T
	fn := x.method("PeekRune")
	examined := 0
	for _, reads := range [][]int{{1}, {2}, {1, 1}, {1, 2}, {2, 2}, {1, 1, 1, 1}, {2, 1, 2}, {1, 2, 2}, {3}, {3, 1}, {1, 3}, {3, 2}, {4}} {
		x.bufLen = 4
		for _, str := range []bool{false, true} {
			n := 0
			for _, k := range reads {
				n += k
			}
			x.sc = &script{reads: reads, end: "EOF", total: n, str: str}
			for lead := 0; lead < 256; lead++ {
				for _, skip := range []int{0, 1} {
					if skip >= n || skip == 1 && lead%5 != 0 && lead < 0xc0 {
						continue
					}
					x.lead, x.leadAt = T.Const(constant.MakeInt64(int64(lead)), x.byteT()), skip
					sts, src, failed := x.source()
					if failed || len(sts) != 1 {
						x.lost++
						continue
					}
					h := &history{st: sts[0], src: src}
					if skip > 0 {
						hs := x.apply(h, srcOpn{"ConsumeN", skip})
						if len(hs) != 1 {
							continue
						}
						h = hs[0]
					}
					g := &history{src: src, exp: h.exp, did: append(h.did, srcOpn{"PeekRune", 0})}
					for _, o := range x.call(h.st, h.src, "PeekRune") {
						what := fmt.Sprintf("%s, first byte %#x", x.what(g), lead)
						if !x.r.Ob("no-panic", "PeekRune", !o.Panicked, where(x.p, fn), fmt.Sprintf("%s: panics: %v", what, o.PanicVal), traceIf(o.Panicked, o)...) {
							continue
						}
						if o.Ret.Op != sim.OTuple {
							x.lost++
							continue
						}
						need := skip + runeLen(lead)
						if need > n {
							need = n
						}
						rn, sz := o.Ret.Args[0], o.Ret.Args[1]
						ok := false
						full := false
						for a, v := range o.Facts.Atoms {
							if a.Op == sim.OPure && a.Sub == "FullRune" && v {
								full = true
							}
						}
						switch {
						case rn.Op == sim.OPure && rn.Sub == "rune" && sz.Op == sim.OPure && sz.Sub == "size":
							if !full {
								ok = len(rn.Args) >= need-skip && len(sz.Args) >= need-skip && len(rn.Args) <= n-skip
							} else {
								ok = len(rn.Args) <= n-skip
							}
							ok = ok && x.same(o, rn.Args, x.stream(skip, skip+len(rn.Args))) && x.same(o, sz.Args, x.stream(skip, skip+len(sz.Args)))
						case rn.IsConst() && sz.IsConst():
							// one byte is its own rune
							r1, _ := rn.Int64()
							s1, _ := sz.Int64()
							ok = s1 == 1 && (lead < 0x80 && r1 == int64(lead) || r1 == 0xfffd && (lead >= 0x80 && runeLen(lead) == 1 || need-skip < runeLen(lead)))
						default:
							x.lost++
							x.r.Note("what PeekRune returns is not understood: %v", o.Ret)
							continue
						}
						examined++
						if !x.r.Ob("rune", "PeekRune", ok, where(x.p, fn), fmt.Sprintf("%s: gives %s, %s; the input goes on with %s", what, short(rn.String()), short(sz.String()), showBytes(x.stream(skip, n))), traceIf(!ok, o)...) {
							continue
						}
						g.st = o.Detach()
						if x.observe(g, "PeekRune") && lead%16 == 2 {
							x.drain(g, srcOpn{"PeekRune", 0})
						}
					}
				}
			}
		}
	}
	x.lead = nil
	x.r.Ob("coverage", "runes", x.lost > 0 || examined >= 1000, where(x.p, fn), fmt.Sprintf("only %d runes were examined", examined))
}
