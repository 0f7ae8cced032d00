package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C26", "FormatterOf is interpreted over all sequences of tokens of a format (literal text, {key}, {key, func, args}) and properties with any keys and values, then Format of the formatter it returns: the pieces appended must be the texts read, the value after the first key equal to the one read, by its own type, and what the function made appends, in order. A cached formatter is reused only for the same keys and types.", checkC26)
	register("C22", "FormatterOf is interpreted over all sequences of tokens of a format, with errors at any place: every error ends in text that names it, nothing panics, and every turn of a loop of the parser consumes input or reports an error.", checkC22)
}

// mfmt interprets msgfmt with the primitives of package parse as models.
type mfmt struct {
	p        *sim.Program
	r        *Report
	m        *sim.Machine
	fo       *ssa.Function
	eof      *sim.Term
	base     []*sim.State
	format   *sim.Term
	nested   bool
	tokens   int  // tokens read before the input ends
	args     int  // arguments of a function
	lit      int  // 1: only literals, 2: only variables, 3: only functions, 0: anything
	closed   bool // input ends well only
	stored   [][2]*sim.Term
	reuse    bool
	printing bool
	formats  *sim.Term
	errText  bool
	unknown  bool // there are tokens that are not understood
	stuckAt  *sim.State
	consts   []int64
}

const parsePkg = mod + "/parse"

func srcOp(callee string) string {
	if strings.HasPrefix(callee, "(*"+parsePkg+".Source).") {
		return strings.TrimPrefix(callee, "(*"+parsePkg+".Source).")
	}
	for _, q := range []string{"read.", "skip."} {
		if strings.HasPrefix(callee, parsePkg+"/"+q) {
			return q + strings.TrimPrefix(callee, parsePkg+"/"+q)
		}
	}
	if callee == parsePkg+".NewSourceString" {
		return "NewSourceString"
	}
	return ""
}

func consumes(op string) bool {
	return op == "Consume" || op == "ConsumeN" || op == "Consume1" || strings.HasPrefix(op, "read.") || strings.HasPrefix(op, "skip.")
}

func newMfmt(p *sim.Program, r *Report) *mfmt {
	x := &mfmt{p: p, r: r, fo: p.Func("msgfmt", "FormatterOf")}
	sp := p.ByPath[p.Path("msgfmt")]
	io := p.SSA.ImportedPackage("io")
	if !r.Need(sp != nil && x.fo != nil && io != nil && io.Var("EOF") != nil, "msgfmt.FormatterOf, io.EOF") {
		return nil
	}
	m := p.NewMachine()
	x.m = m
	m.Unroll = 600
	m.Depth = 4
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	only := onlyPkgs("msgfmt", "parse")
	m.Opaque = func(fn *ssa.Function) bool {
		if only(fn) {
			return true
		}
		if pkgOf(fn) == "parse" {
			return fn.Signature.Recv() != nil || fn.Name() == "NewSourceString"
		}
		return x.escaper(fn)
	}
	m.Model = x.model
	st := m.NewState()
	x.eof = m.LoadGlobal(st, io.Var("EOF"))
	st.Facts.Assert(m.T.Eq(x.eof, m.T.Nil()), false)
	x.consts = intConsts(p, "msgfmt")
	x.base = []*sim.State{st}
	if init := sp.Func("init"); init != nil {
		n := 0
		for _, o := range m.Run(st, init, nil) {
			// the other paths are those where a package has been initialised before
			if !o.Panicked && len(o.Trace) > n {
				n = len(o.Trace)
				b := o.Detach()
				if f := sp.Var("Formats"); f != nil {
					x.formats = m.LoadGlobal(b, f)
					m.OtherEntries(b, x.formats)
				}
				x.base = []*sim.State{b}
			}
		}
	}
	return x
}

// escaper: a function of the package that appends a []byte escaped (C16).
func (x *mfmt) escaper(fn *ssa.Function) bool {
	sig := fn.Signature
	bs := types.NewSlice(types.Universe.Lookup("byte").Type())
	return pkgOf(fn) == "msgfmt" && sig.Recv() == nil && sig.Params().Len() == 2 && sig.Results().Len() == 1 &&
		types.Identical(sig.Params().At(0).Type(), bs) && types.Identical(sig.Params().At(1).Type(), bs) && types.Identical(sig.Results().At(0).Type(), bs)
}

// scan: what has been done with the source so far.
type srcState struct {
	consumed int
	err      *sim.Term
	lits     int // literals read
	open     int // { read
	shut     int // } read
	args     int // parts of the function call being read
	ops      []*sim.Event
	idle     int // operations since input was consumed
}

func (x *mfmt) scan(st *sim.State) *srcState {
	T := x.m.T
	s := &srcState{}
	et := types.Universe.Lookup("error").Type()
	fresh := func() *sim.Term { return T.Pure("err", et, T.Int(int64(s.consumed))) }
	sticky := func() bool {
		return s.err != nil && st.Facts.NonNil(s.err) && st.Facts.Eval(T.Eq(s.err, x.eof)) == sim.False
	}
	for _, ev := range st.Trace {
		if ev.Kind != "call" {
			continue
		}
		op := srcOp(ev.Callee)
		if op == "" {
			continue
		}
		s.idle++
		switch {
		case op == "NewSourceString":
			*s = srcState{err: T.Nil()}
			if st.Facts.Eval(T.Eq(content(ev.Args[0]), T.Str(""))) == sim.True {
				s.err = x.eof
			}
		case consumes(op):
			pending := T.Pure("byte", types.Typ[types.Byte], T.Int(int64(s.consumed)))
			if strings.HasPrefix(op, "skip.") && notSpace(st, pending) {
				continue
			}
			if strings.HasPrefix(op, "read.AnyExcept") && x.stops(st, ev, pending) {
				s.ops = append(s.ops, ev)
				continue
			}
			s.consumed++
			s.ops = append(s.ops, ev)
			certain := strings.HasPrefix(op, "Consume") || strings.HasPrefix(op, "read.AnyExcept")
			if certain && (s.err == nil || !st.Facts.NonNil(s.err)) {
				s.idle = 0
			}
			if op == "Consume1" {
				c := ev.Args[len(ev.Args)-1]
				if v, ok := c.Int64(); ok && st.Facts.Eval(T.Eq(pending, c)) != sim.False {
					if v == '{' {
						s.open++
						s.args = 0
					} else if v == '}' {
						s.shut++
					}
				}
			} else if strings.HasPrefix(op, "read.") {
				if s.open == s.shut {
					s.lits++
				} else {
					s.args++
				}
			}
			if !sticky() {
				s.err = fresh()
			}
		case op == "ReportError":
			if !sticky() {
				s.err = ev.Args[len(ev.Args)-1]
			}
		}
	}
	return s
}

// notSpace: the byte is known and no space.
func notSpace(st *sim.State, b *sim.Term) bool {
	for a, v := range st.Facts.Atoms {
		if a.Op != sim.OEq || !v {
			continue
		}
		for i := range a.Args {
			if c, ok := a.Args[i].Int64(); ok && a.Args[1-i] == b && c > ' ' && c < 0x80 {
				return true
			}
		}
	}
	return false
}

func (x *mfmt) model(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
	T := m.T
	rt := evResult(ev)
	str := types.Typ[types.String]
	name, recv, args := method(ev)
	add := func(space, piece *sim.Term) (*sim.Term, bool) {
		return T.Append(space, []*sim.Term{T.Spread(piece)}, space.Typ), true
	}
	if op := srcOp(ev.Callee); op != "" {
		s := x.scan(st)
		if x.errText && s.idle > 60 {
			x.stuckAt = st
			st.Tag("stuck")
		}
		pending := T.Pure("byte", types.Typ[types.Byte], T.Int(int64(s.consumed)))
		if s.open == s.shut && x.lit > 0 {
			st.Facts.Assert(T.Eq(pending, T.Const(constant.MakeInt64('{'), types.Typ[types.Byte])), x.lit > 1)
		}
		if s.open > s.shut {
			if s.args > x.args || x.lit == 2 {
				st.Facts.Assert(T.Eq(pending, T.Const(constant.MakeInt64(','), types.Typ[types.Byte])), false)
			}
			if x.closed && s.args > x.args {
				st.Facts.Assert(T.Eq(pending, T.Const(constant.MakeInt64('}'), types.Typ[types.Byte])), true)
			}
		}
		switch op {
		case "NewSourceString":
			st.Facts.Assert(T.Eq(content(ev.Args[0]), T.Nil()), false)
			src := T.Pure("source", rt, content(ev.Args[0]))
			st.Facts.Assert(T.Eq(src, T.Nil()), false)
			return src, true
		case "Error":
			if s.lits+s.shut >= x.tokens && s.open == s.shut && s.consumed > 0 {
				if st.Facts.Eval(T.Eq(s.err, T.Nil())) == sim.Unknown {
					if !st.Facts.Assert(T.Eq(s.err, T.Nil()), false) || x.closed && !st.Facts.Assert(T.Eq(s.err, x.eof), true) {
						return nil, false
					}
				}
			} else if x.closed && st.Facts.Eval(T.Eq(s.err, T.Nil())) == sim.Unknown {
				st.Facts.Assert(T.Eq(s.err, T.Nil()), true)
			}
			return s.err, true
		case "Peek":
			cur := T.Pure("input", rt, T.Int(int64(s.consumed)))
			if st.Facts.IsNil(s.err) {
				st.Facts.Assert(T.Lt(T.Int(0), T.Len(cur)), true)
			}
			m.Store(st, T.Index(cur, T.Int(0), types.Typ[types.Byte]), pending, types.Typ[types.Byte])
			return cur, true
		case "Peek1":
			return pending, true
		case "ReportError":
			if e := args[0]; e.Op == sim.OLoad && e.Args[0].Op == sim.OGlobal && e != x.eof {
				st.Facts.Assert(T.Eq(e, T.Nil()), false)
				st.Facts.Assert(T.Eq(e, x.eof), false)
			}
		case "PeekN":
			tup, _ := rt.(*types.Tuple)
			if tup == nil || tup.Len() != 2 {
				return nil, false
			}
			return T.Tuple(T.Pure("next", tup.At(0).Type(), T.Int(int64(s.consumed))), T.Pure("nextErr", tup.At(1).Type(), T.Int(int64(s.consumed)))), true
		}
		return nil, false
	}
	if x.printing {
		switch {
		case ev.Callee == mod+"/reflect2.NoEscape":
			return ev.Args[0], true
		case calleeOf(ev) == x.fo:
			f := T.Pure("FormatterOf", rt, ev.Args...)
			st.Facts.Assert(T.Eq(f, T.Nil()), false)
			return f, true
		}
	}
	switch {
	case ev.Callee == sigMsgFormat && recv != nil && stripIface(recv) == recv:
		return add(args[0], T.Pure("formatted", str, recv, args[1]))
	case ev.Callee == "errors.New", ev.Callee == "fmt.Errorf":
		e := T.Pure("newError", rt, append(append([]*sim.Term(nil), args...), T.Int(int64(st.Seq())))...)
		st.Facts.Assert(T.Eq(e, T.Nil()), false)
		st.Facts.Assert(T.Eq(e, x.eof), false)
		return e, true
	case x.errText && name == "Error" && recv != nil && len(args) == 0:
		return T.Pure("Error", str, recv), true
	case name == "String" && recv != nil && len(args) == 0:
		return T.Pure("String", str, recv), true
	case ev.Callee == "(time.Time).AppendFormat":
		return add(ev.Args[1], T.Pure("(time.Time).Format", str, ev.Args[0], ev.Args[2]))
	case ev.Callee == "strings.TrimSpace":
		return T.Pure("TrimSpace", str, content(ev.Args[0])), true
	case ev.Callee == mod+"/"+jsonfmt+".EncoderOfObject":
		return T.Pure("EncoderOfObject", rt, args[0]), true
	case ev.Callee == mod+"/reflect2.PtrOf":
		return T.Pure("PtrOf", rt, args[0]), true
	case ev.Callee == mod+"/reflect2.RTypeOf", ev.Callee == mod+"/reflect2.TypeOf", ev.Callee == "reflect.TypeOf":
		return T.Pure("TypeOf", rt, args[0]), true
	case cacheOp(ev) == "Load":
		tup, _ := rt.(*types.Tuple)
		if tup == nil || tup.Len() != 2 {
			return nil, false
		}
		if x.reuse {
			for _, kv := range x.stored {
				if st.Facts.Eval(T.Eq(stripIface(kv[0]), stripIface(args[0]))) == sim.True {
					return T.Tuple(kv[1], T.Bool(true)), true
				}
			}
		}
		return T.Tuple(T.Zero(tup.At(0).Type()), T.Bool(false)), true
	}
	if fn := calleeOf(ev); fn != nil && x.escaper(fn) {
		return add(ev.Args[0], T.Pure("escapedBytes", str, content(ev.Args[1])))
	}
	return nil, false
}

// cacheOp: an operation on a concurrent map.
func cacheOp(ev *sim.Event) string {
	for _, t := range []string{mod + "/concurrent.Map", "sync.Map"} {
		if strings.HasPrefix(ev.Callee, "(*"+t+").") {
			return strings.TrimPrefix(ev.Callee, "(*"+t+").")
		}
	}
	return ""
}

func calleeOf(ev *sim.Event) *ssa.Function {
	if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
		return ci.Common().StaticCallee()
	}
	return nil
}

// sample makes 2n arguments; kind tells what the keys are.
func (x *mfmt) sample(st *sim.State, name string, n int, odd bool, anyKey bool, keys []*sim.Term) (kv *sim.Term, ks, vs []*sim.Term) {
	T := x.m.T
	et := types.NewInterfaceType(nil, nil)
	kv = T.Param(name, types.NewSlice(et))
	size := 2 * n
	if odd {
		size++
	}
	st.Facts.Assert(T.Eq(T.Len(kv), T.Int(int64(size))), true)
	for i := 0; i < n; i++ {
		var k, ki *sim.Term
		if keys != nil {
			k = keys[i]
			if anyKey {
				ki = k.Args[0]
			}
		} else {
			k = T.Param(fmt.Sprintf("%s key %d", name, i), types.Typ[types.String])
		}
		if ki == nil {
			ki = T.Iface(k, types.Typ[types.String], et)
		}
		if anyKey && keys == nil {
			ki = T.Param(fmt.Sprintf("%s any key %d", name, i), et)
			k = x.m.AssertedValue(ki, types.Typ[types.String])
		}
		v := T.Param(fmt.Sprintf("%s value %d", name, i), et)
		ks, vs = append(ks, k), append(vs, v)
		x.m.Store(st, T.Index(kv, T.Int(int64(2*i)), et), ki, et)
		x.m.Store(st, T.Index(kv, T.Int(int64(2*i+1)), et), v, et)
	}
	return
}

// msgToken is a token the parser has read.
type msgToken struct {
	lit  *sim.Term
	id   *sim.Term
	fn   *sim.Term
	args []*sim.Term
	raw  bool // the arguments are read as one text
	shut bool
}

// readTokens: the tokens read on a path.
func (x *mfmt) readTokens(o *sim.State) (toks []msgToken, bad string, ok bool) {
	var cur *msgToken
	ok = true
	str := types.Typ[types.String]
	bytesAt := func(ev *sim.Event, i int) (int64, bool) { return ev.Args[i].Int64() }
	_ = str
	for _, ev := range x.scan(o).ops {
		op := srcOp(ev.Callee)
		switch {
		case op == "Consume1":
			c, known := ev.Args[len(ev.Args)-1].Int64()
			if !known {
				return nil, "", false
			}
			switch c {
			case '{':
				if cur != nil {
					return nil, "a { within { }", true
				}
				cur = &msgToken{}
			case '}':
				if cur == nil {
					return nil, "", false
				}
				cur.shut = true
				toks = append(toks, *cur)
				cur = nil
			case ',':
			default:
				return nil, "", false
			}
		case strings.HasPrefix(op, "skip."):
			if cur == nil {
				bad = "text outside of { } is skipped"
			}
		case op == "read.AnyExcept1" && cur == nil:
			if c, known := bytesAt(ev, 2); !known {
				return nil, "", false
			} else if c != '{' {
				bad = fmt.Sprintf("literal text is read up to %q", rune(c))
			}
			if !emptySlice(ev.Args[1]) && !o.Facts.IsNil(ev.Args[1]) {
				return nil, "", false
			}
			toks = append(toks, msgToken{lit: ev.Res, shut: true})
		case op == "read.AnyExcept2" && cur == nil:
			a, k1 := bytesAt(ev, 2)
			b, k2 := bytesAt(ev, 3)
			if !k1 || !k2 {
				return nil, "", false
			}
			if a != '{' || b != '{' {
				bad = fmt.Sprintf("literal text is read up to %q or %q", rune(a), rune(b))
			}
			toks = append(toks, msgToken{lit: ev.Res, shut: true})
		case op == "read.AnyExcept2" && cur != nil && cur.id != nil:
			a, k1 := bytesAt(ev, 2)
			b, k2 := bytesAt(ev, 3)
			if !k1 || !k2 || !emptySlice(ev.Args[1]) && !o.Facts.IsNil(ev.Args[1]) {
				return nil, "", false
			}
			if !(a == ',' && b == '}' || a == '}' && b == ',') {
				bad = fmt.Sprintf("names and arguments of functions are read up to %q and %q", rune(a), rune(b))
			}
			if cur.fn == nil {
				cur.fn = ev.Res
			} else {
				cur.args = append(cur.args, ev.Res)
			}
		case op == "read.AnyExcept1" && cur != nil && cur.fn != nil:
			cur.args, cur.raw = append(cur.args, ev.Res), true
		case op == "read.UnicodeRanges" && cur != nil && cur.id == nil:
			cur.id = ev.Res
		default:
			return nil, "", false
		}
	}
	if cur != nil {
		toks = append(toks, *cur)
	}
	return toks, bad, ok
}

// isError: the path ends with an error of the source other than its end.
func (x *mfmt) errorOf(o *sim.State) (err *sim.Term, isErr, known bool) {
	s := x.scan(o)
	T := x.m.T
	if s.err == nil || o.Facts.IsNil(s.err) {
		return s.err, false, s.err != nil
	}
	switch o.Facts.Eval(T.Eq(s.err, x.eof)) {
	case sim.True:
		return s.err, false, true
	case sim.False:
		if o.Facts.NonNil(s.err) {
			return s.err, true, true
		}
	}
	return s.err, false, false
}

type compiled struct {
	o      *sim.State
	fm     *sim.Term
	meth   *ssa.Function
	kv     *sim.Term
	keys   []*sim.Term
	vals   []*sim.Term
	toks   []msgToken
	isErr  bool
	err    *sim.Term
	tokBad string
}

type mcfg struct {
	n           int
	odd, anyKey bool
}

// compile interprets FormatterOf.
func (x *mfmt) compile(c mcfg, prep func(st *sim.State, keys, vals []*sim.Term)) (out []compiled) {
	m, T := x.m, x.m.T
	for _, b := range x.base {
		m.MaxSteps = m.Steps + 6000000
		st := b.Detach()
		x.format = T.Param("format", types.Typ[types.String])
		kv, keys, vals := x.sample(st, "sample", c.n, c.odd, c.anyKey, nil)
		if prep != nil {
			prep(st, keys, vals)
		}
		for _, o := range m.Run(st, x.fo, []*sim.Term{x.format, kv}) {
			cc := compiled{o: o, kv: kv, keys: keys, vals: vals}
			if x.ownFormatters(o) {
				continue
			}
			if o.Panicked {
				out = append(out, cc)
				continue
			}
			if o.Ret != nil && o.Ret.Op == sim.OIface {
				cc.fm = o.Ret.Args[0]
				cc.meth = x.p.MethodOf(o.Ret.Obj.(types.Type), "Format")
				if cc.meth == nil {
					continue
				}
			} else if o.Ret == nil || !o.Facts.NonNil(o.Ret) {
				x.r.Note("FormatterOf returns %v", o.Ret)
				continue
			} else {
				cc.fm = o.Ret
			}
			var known, ok bool
			cc.err, cc.isErr, known = x.errorOf(o)
			if cc.err == nil && len(x.scan(o).ops) == 0 {
				known = true // nothing is parsed
			}
			if !known {
				x.r.Note("it is not known how a format ends: %v", cc.err)
				continue
			}
			cc.toks, cc.tokBad, ok = x.readTokens(o)
			if !ok {
				if !cc.isErr {
					x.unknown = true
					x.r.Note("tokens: %v", trace(o))
					continue
				}
				cc.toks = nil
			}
			out = append(out, cc)
		}
	}
	return
}

// ownFormatters: a path where a function that is not of this repository
// returns a formatter of this repository.
func (x *mfmt) ownFormatters(o *sim.State) bool {
	for a, v := range o.Facts.Atoms {
		if t, ok := a.Obj.(*types.Named); ok && v && a.Op == sim.OIsType && !types.IsInterface(t) && t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == x.p.Path("msgfmt") {
			if q := a.Args[0]; q.Op == sim.OExtract && q.Args[0].Op == sim.OCall {
				return true
			}
		}
	}
	return false
}

// formatted interprets Format of what FormatterOf returned, with values of the same types.
func (x *mfmt) formatted(c *compiled, cf mcfg, same bool) (outs []*sim.State, space *sim.Term, vals []*sim.Term) {
	m, T := x.m, x.m.T
	st := c.o.Clone()
	m.MaxSteps = m.Steps + 3000000
	st = st.Detach()
	kv := c.kv
	vals = c.vals
	if !same {
		kv, _, vals = x.sample(st, "kv", cf.n, cf.odd, cf.anyKey, c.keys)
	}
	space = T.Param("space", types.NewSlice(types.Universe.Lookup("byte").Type()))
	if c.meth == nil {
		// made by a function we do not know
		st.Ret = T.Append(space, []*sim.Term{T.Spread(T.Pure("formatted", types.Typ[types.String], c.fm, kv))}, space.Typ)
		return []*sim.State{st}, space, vals
	}
	return m.Run(st, c.meth, []*sim.Term{recvFor(m, st, c.meth, c.fm), space, kv}), space, vals
}

func isText(t *sim.Term, want *sim.Term) bool {
	return t != nil && content(t) == content(want)
}

// valuePiece: is the item the text of v, by its own type.
func (x *mfmt) valuePiece(o *sim.State, it *item, v *sim.Term) (ok, known bool, why string) {
	T, m := x.m.T, x.m
	str := types.Typ[types.String]
	bs := types.NewSlice(types.Universe.Lookup("byte").Type())
	stringer := x.p.SSA.ImportedPackage("fmt").Type("Stringer").Type()
	is := func(t types.Type) sim.Tri { return o.Facts.Eval(m.IsType(v, t)) }
	notStringer := is(stringer) == sim.False || o.Facts.IsNil(m.AssertedValue(v, stringer))
	if it.ev != nil {
		_, recv, as := method(it.ev)
		enc := stripIface(recv)
		if enc.Op != sim.OPure || enc.Sub != "EncoderOfObject" {
			return false, false, ""
		}
		if enc.Args[0] != v {
			return false, true, fmt.Sprintf("the encoder of %v", enc.Args[0])
		}
		if p := as[2]; p.Op == sim.OPure && p.Sub == "PtrOf" && p.Args[0] != v {
			return false, true, fmt.Sprintf("the value %v", p.Args[0])
		}
		switch {
		case is(str) == sim.True || is(bs) == sim.True:
			return false, true, "a string or []byte as JSON"
		case is(str) != sim.False:
			return false, true, "JSON, without looking whether it is a string"
		case is(bs) != sim.False:
			return false, true, "JSON, without looking whether it is a []byte"
		case !notStringer:
			return false, true, "JSON, without looking whether it is a Stringer"
		}
		return true, true, ""
	}
	t := it.t
	if t == nil {
		return false, true, fmt.Sprintf("the text %q", it.lit)
	}
	switch {
	case t.Op == sim.OPure && t.Sub == "String":
		if stripAssert(t.Args[0]) != v {
			return false, true, fmt.Sprintf("String() of %v", t.Args[0])
		}
		return true, true, ""
	case t.Op == sim.OPure && t.Sub == "escapedBytes":
		if stripAssert(t.Args[0]) != v {
			return false, true, fmt.Sprintf("the bytes %v", t.Args[0])
		}
		return is(bs) == sim.True, true, "escaped bytes of something else"
	case content(t) == m.AssertedValue(v, str):
		return is(str) == sim.True, true, "a string"
	case content(t) == m.AssertedValue(v, bs):
		return false, true, "a []byte that is not escaped"
	}
	if t.Any(func(q *sim.Term) bool { return q.Op == sim.OCall }) {
		return false, false, ""
	}
	_ = T
	return false, true, t.String()
}

// core is t without conversions.
func core(t *sim.Term) *sim.Term {
	for t != nil {
		if c := content(t); c != t {
			t = c
			continue
		}
		if t.Op == sim.OConv {
			t = t.Args[0]
			continue
		}
		return t
	}
	return t
}

// equalText: what the path knows about two texts being equal.
func equalText(o *sim.State, a, b *sim.Term) sim.Tri {
	a, b = core(stripAssert(a)), core(stripAssert(b))
	if a == b {
		return sim.True
	}
	for at, v := range o.Facts.Atoms {
		if at.Op != sim.OEq {
			continue
		}
		x, y := core(stripAssert(stripIface(at.Args[0]))), core(stripAssert(stripIface(at.Args[1])))
		if x == a && y == b || x == b && y == a {
			if v {
				return sim.True
			}
			return sim.False
		}
	}
	return sim.Unknown
}

// knownText: the constant a text is known to be equal to.
func knownText(o *sim.State, t *sim.Term) *sim.Term {
	t = core(stripAssert(t))
	for at, v := range o.Facts.Atoms {
		if at.Op != sim.OEq || !v {
			continue
		}
		for i := range at.Args {
			if n, ok := at.Args[i].Int64(); ok && n == 0 && at.Args[1-i].Op == sim.OLen && core(stripAssert(stripIface(at.Args[1-i].Args[0]))) == t {
				return sim.NewTerms().Str("")
			}
			if _, ok := at.Args[i].StringVal(); ok && core(stripAssert(stripIface(at.Args[1-i]))) == t {
				return at.Args[i]
			}
		}
	}
	return nil
}

// keyIndex: is keys[want] the first key equal to id?
func keyIndex(o *sim.State, keys []*sim.Term, id *sim.Term, want int) string {
	if equalText(o, keys[want], id) != sim.True {
		return "the value of a key that is not the one in the format"
	}
	for i := 0; i < want; i++ {
		if equalText(o, keys[i], id) != sim.False {
			return "the value of a key that need not be the first one equal to that in the format"
		}
	}
	return ""
}

// pieces compares what Format appended with the tokens read.
func (x *mfmt) pieces(c *compiled, o *sim.State, space *sim.Term, vals []*sim.Term) {
	r, T := x.r, x.m.T
	at := where(x.p, x.fo)
	if c.meth != nil {
		at = where(x.p, c.meth)
	}
	ob := func(rule, what string, ok bool, format string, args ...interface{}) bool {
		if ok {
			return r.Ob(rule, what, true, "", "")
		}
		return r.Ob(rule, what, false, at, fmt.Sprintf(format, args...), append(trace(c.o), trace(o)...)...)
	}
	if !ob("formatted", "format", !o.Panicked, "formatting panics: %v", o.PanicVal) {
		return
	}
	its, ok := (*jenc)(nil).items(o, o.Ret, space)
	if !ok {
		root := appendRoot(o, o.Ret)
		ob("space-kept", "format", root == space || !definiteRoot(root), "the result does not start with the given space but with %v", root)
		r.Note("formatted: %v", o.Ret)
		return
	}
	kvArg := func(t *sim.Term) bool { return t == T.Param("kv", t.Typ) }
	for i := range c.toks {
		tok := &c.toks[i]
		var it *item
		if i < len(its) {
			it = &its[i]
		}
		if !ob("token-shown", "format", it != nil, "token %d of %d is not shown: %v", i, len(c.toks), its) {
			return
		}
		if tok.lit != nil {
			ob("literal", "format", it.t != nil && core(it.t) == core(tok.lit), "literal text %v is shown as %v", tok.lit, *it)
			continue
		}
		if tok.fn == nil {
			found, known, why := -1, false, ""
			for j, v := range vals {
				ok, kn, w := x.valuePiece(o, it, v)
				known = known || kn
				if ok {
					found = j
				} else if kn && keyIndex(c.o, c.keys, tok.id, j) == "" {
					why = w
				}
			}
			if found < 0 {
				if known {
					ob("value", "format", false, "{key} is shown as %v: %s", *it, why)
				} else {
					r.Note("{key} is shown as %v", *it)
				}
				continue
			}
			ob("value", "format", true, "")
			w := keyIndex(c.o, c.keys, tok.id, found)
			ob("first-key", "format", w == "", "{key} is shown as value %d: %s", found, w)
			continue
		}
		x.funcPiece(c, o, tok, it, vals, kvArg, ob)
	}
	ob("token-shown", "format", len(its) == len(c.toks), "for %d tokens %d pieces are shown: %v", len(c.toks), len(its), its)
}

func (x *mfmt) funcPiece(c *compiled, o *sim.State, tok *msgToken, it *item, vals []*sim.Term, kvArg func(*sim.Term) bool, ob func(rule, what string, ok bool, format string, args ...interface{}) bool) {
	if isPiece(it, "formatted") {
		recv := it.t.Args[0]
		var call *sim.Event
		for _, ev := range c.o.Trace {
			if name, _, _ := method(ev); ev.Kind == "call" && name == "FormatterOf" && ev.Res != nil && recv.Contains(ev.Res) {
				call = ev
			}
		}
		if call == nil {
			x.r.Note("{key, func} is shown by %v", recv)
			return
		}
		_, f, as := method(call)
		ob("func-args", "kv", kvArg(it.t.Args[1]), "the function formats %v instead of the arguments", it.t.Args[1])
		ob("func-args", "key", core(as[0]) == core(tok.id), "the function is asked for the key %v instead of %v", as[0], tok.id)
		ob("func-args", "sample", as[2] == c.kv, "the function is given %v instead of the arguments", as[2])
		got, okA := x.m.Elements(c.o, as[1])
		if !okA && (c.o.Facts.IsNil(as[1]) || emptySlice(as[1])) {
			got, okA = nil, true
		}
		if okA {
			same := len(got) == len(tok.args)
			for i := 0; same && i < len(got); i++ {
				same = textOf(got[i]) == core(tok.args[i])
			}
			if tok.raw {
				if !same {
					x.r.Note("arguments %v", got)
					return
				}
				same = false
			}
			ob("func-args", "args", same, "the function is given the arguments %v instead of %v", got, tok.args)
		} else {
			x.r.Note("arguments %v", as[1])
		}
		ob("func-name", "func", f.Any(func(q *sim.Term) bool { return q == core(tok.fn) }), "the function is %v, not the one named in the format", f)
		return
	}
	if it.t != nil && it.t.Op == sim.OPure && it.t.Sub == "(time.Time).Format" {
		v := stripAssert(it.t.Args[0])
		for j := range vals {
			if vals[j] == v {
				w := keyIndex(c.o, c.keys, tok.id, j)
				ob("first-key", "goTime", w == "", "{key, goTime} is shown as value %d: %s", j, w)
				l := it.t.Args[1]
				if tok.raw {
					x.r.Note("layout %v", l)
				} else if len(tok.args) == 0 {
					s, isC := textOf(l).StringVal()
					ob("goTime-layout", "default", !isC || s == "2006-01-02T15:04:05Z07:00", "{key, goTime} uses the layout %v", l)
				} else {
					ob("goTime-layout", "given", l == x.m.T.Pure("TrimSpace", types.Typ[types.String], core(tok.args[0])) || textOf(l) == core(tok.args[0]), "the layout is %v instead of %v", l, tok.args[0])
				}
				ob("goTime-func", "name", equalText(c.o, tok.fn, x.m.T.Str("goTime")) == sim.True, "a time format is used for another function")
				return
			}
		}
		ob("value", "goTime", false, "{key, goTime} shows %v", v)
		return
	}
	// a value that is not a time
	for j, v := range vals {
		if ok, _, _ := x.valuePiece(o, it, v); ok {
			w := keyIndex(c.o, c.keys, tok.id, j)
			ob("first-key", "goTime", w == "", "{key, goTime} is shown as value %d: %s", j, w)
			tt := x.p.SSA.ImportedPackage("time")
			if tt != nil {
				ob("value", "goTime", o.Facts.Eval(x.m.IsType(v, tt.Type("Time").Type())) == sim.False, "a time is not shown as one")
			}
			return
		}
	}
	known := true
	for _, v := range vals {
		_, k, _ := x.valuePiece(o, it, v)
		known = known && k
	}
	if known && len(vals) > 0 {
		ob("value", "goTime", false, "{key, func} is shown as %v", *it)
		return
	}
	x.r.Note("{key, func} is shown as %v", *it)
}

// textOf: what text a term is, without trimming.
func textOf(t *sim.Term) *sim.Term {
	t = core(stripAssert(stripIface(t)))
	if t.Op == sim.OPure && t.Sub == "TrimSpace" {
		return core(t.Args[0])
	}
	return t
}

func checkC26(p *sim.Program, r *Report) {
	r.Assumptions = []string{"package parse reads text as C14 says", "an escaped []byte is as C16 says, JSON as C18 says", "functions registered in Formats behave"}
	x := newMfmt(p, r)
	if x == nil {
		return
	}
	x.closed = true
	lits, vars, funcs, times := 0, 0, 0, 0
	run := func(c mcfg, prep func(st *sim.State, keys, vals []*sim.Term)) {
		cs := x.compile(c, prep)
		for _, cc := range cs {
			cc := cc
			at := where(p, x.fo)
			if cc.o.Panicked {
				r.Ob("compiled", "FormatterOf", false, at, fmt.Sprintf("making a formatter panics: %v", cc.o.PanicVal), trace(cc.o)...)
				continue
			}
			r.Ob("compiled", "FormatterOf", true, "", "")
			if cc.isErr {
				x.justified(&cc, c)
				continue
			}
			if cc.tokBad != "" {
				r.Ob("token-end", "format", false, at, cc.tokBad, trace(cc.o)...)
				continue
			}
			outs, space, vals := x.formatted(&cc, c, false)
			for _, o := range outs {
				x.pieces(&cc, o, space, vals)
			}
			for _, t := range cc.toks {
				switch {
				case t.lit != nil:
					lits++
				case t.fn == nil:
					vars++
				case equalText(cc.o, t.fn, x.m.T.Str("goTime")) == sim.True:
					times++
				default:
					funcs++
				}
			}
		}
	}
	// one token, any kind of key and value
	x.tokens, x.args = 1, 2
	for _, n := range x.counts(3) {
		run(mcfg{n: n}, nil)
	}
	run(mcfg{n: 1, odd: true}, nil)
	run(mcfg{n: 1, anyKey: true}, nil)
	// two tokens
	x.tokens, x.args = 2, 1
	plain := func(st *sim.State, keys, vals []*sim.Term) {
		for _, v := range vals {
			st.Facts.Assert(x.m.IsType(v, types.Typ[types.String]), true)
		}
	}
	run(mcfg{n: 2}, plain)
	x.tokens = 3
	run(mcfg{n: 1}, plain)
	// many tokens and many arguments
	for _, k := range x.counts(5) {
		for lit := 1; lit <= 2; lit++ {
			x.tokens, x.lit, x.args = k, lit, 0
			run(mcfg{n: 1}, plain)
		}
		x.tokens, x.lit, x.args = 1, 3, k
		run(mcfg{n: 1}, plain)
	}
	x.lit = 0
	r.Ob("coverage", "tokens", x.unknown || lits >= 10 && vars >= 20 && funcs >= 4 && times >= 4, where(p, x.fo), fmt.Sprintf("examined %d literals, %d values, %d functions, %d times", lits, vars, funcs, times))
	x.cache()
	x.printers()
	r.Absorb(x.m)
}

func (x *mfmt) counts(max int) []int {
	e := &efmt{consts: x.consts}
	var out []int
	for _, n := range e.counts() {
		if n <= max || n > 5 {
			out = append(out, n)
		}
	}
	return out
}

// justified: a complete format is an error only because a key is missing or
// a function does not take it.
func (x *mfmt) justified(c *compiled, cf mcfg) {
	if len(c.toks) == 0 || cf.anyKey {
		return
	}
	for _, t := range c.toks {
		if t.id == nil {
			continue
		}
		if t.fn != nil {
			return
		}
		missing := true
		for _, k := range c.keys {
			missing = missing && equalText(c.o, k, t.id) == sim.False
		}
		if missing {
			return
		}
	}
	last := c.toks[len(c.toks)-1]
	T := x.m.T
	next := T.Pure("byte", types.Typ[types.Byte], T.Int(int64(x.scan(c.o).consumed)))
	if !last.shut && c.o.Facts.Eval(T.Eq(next, T.Const(constant.MakeInt64('}'), types.Typ[types.Byte]))) != sim.True {
		return // the input ended
	}
	x.r.Ob("accepted", "format", false, where(x.p, x.fo), fmt.Sprintf("a format of %d tokens whose keys are all there is an error: %v", len(c.toks), c.err), trace(c.o)...)
}

// cache: FormatterOf reuses a formatter only for the same keys and types.
func (x *mfmt) cache() {
	r, m, T := x.r, x.m, x.m.T
	x.tokens, x.args, x.lit = 1, 0, 2
	defer func() { x.reuse, x.stored, x.lit = false, nil, 0 }()
	et := types.NewInterfaceType(nil, nil)
	at := where(x.p, x.fo)
	reused, again, others := 0, 0, 0
	str := types.Typ[types.String]
	for _, first := range x.compile(mcfg{n: 1}, func(st *sim.State, keys, vals []*sim.Term) {
		st.Facts.Assert(m.IsType(vals[0], types.Typ[types.String]), true)
	}) {
		if first.isErr || first.o.Panicked || len(first.toks) == 0 {
			continue
		}
		x.stored = nil
		for _, ev := range first.o.Trace {
			if cacheOp(ev) == "Store" {
				as := ev.Args[len(ev.Args)-2:]
				x.stored = append(x.stored, [2]*sim.Term{as[0], as[1]})
			}
		}
		{
			st := first.o.Detach()
			x.reuse = true
			f2 := T.Param("another format", str)
			st.Facts.Assert(T.Eq(f2, x.format), false)
			st.Facts.Assert(T.Eq(T.Len(f2), T.Int(0)), false)
			m.MaxSteps = m.Steps + 3000000
			for _, o := range m.Run(st, x.fo, []*sim.Term{f2, first.kv}) {
				if o.Panicked {
					continue
				}
				others++
				made := false
				for _, ev := range o.Trace {
					made = made || srcOp(ev.Callee) == "NewSourceString"
				}
				r.Ob("cache", "format", made || o.Ret != first.o.Ret, at, "the formatter made for one format is used for another", trace(o)...)
			}
		}
		for size := 0; size <= 4; size++ {
			st := first.o.Detach()
			x.reuse = true
			kv := T.Param("later", types.NewSlice(et))
			st.Facts.Assert(T.Eq(T.Len(kv), T.Int(int64(size))), true)
			var elems []*sim.Term
			for i := 0; i < size; i++ {
				v := T.Param(fmt.Sprintf("later argument %d", i), et)
				m.Store(st, T.Index(kv, T.Int(int64(i)), et), v, et)
				elems = append(elems, v)
			}
			m.MaxSteps = m.Steps + 3000000
			for _, o := range m.Run(st, x.fo, []*sim.Term{x.format, kv}) {
				if o.Panicked {
					r.Ob("cache", "later", false, at, fmt.Sprintf("using a format again panics: %v", o.PanicVal), trace(o)...)
					continue
				}
				if o.Ret == nil || o.Ret != first.o.Ret {
					again++
					continue
				}
				made := false
				for _, ev := range o.Trace {
					made = made || srcOp(ev.Callee) == "NewSourceString"
				}
				if made {
					again++
					continue
				}
				if x.typeConflict(o) {
					continue
				}
				reused++
				if !r.Ob("cache", "later", size == 2, at, fmt.Sprintf("the formatter made for 2 arguments is used for %d", size), trace(o)...) {
					continue
				}
				r.Ob("cache", "key", x.sameText(o, elems[0], first.keys[0]), at, "a formatter made for one key is used for another", trace(o)...)
				r.Ob("cache", "type", x.sameType(o, elems[1], first.vals[0], types.Typ[types.String]), at, "a formatter made for a value of one type is used for one of another", trace(o)...)
			}
		}
	}
	if reused == 0 {
		r.Note("no formatter is reused")
	}
	r.Ob("coverage", "cache", again > 0 && others > 0, at, "the use of a format for other arguments was not examined")
}

func (x *mfmt) sameText(o *sim.State, v, key *sim.Term) bool {
	return equalText(o, v, key) == sim.True
}

func (x *mfmt) sameType(o *sim.State, a, b *sim.Term, t types.Type) bool {
	if o.Facts.Eval(x.m.IsType(a, t)) == sim.True {
		return true
	}
	for at, v := range o.Facts.Atoms {
		if at.Op == sim.OEq && v {
			p, q := core(at.Args[0]), core(at.Args[1])
			is := func(t, v *sim.Term) bool { return t.Op == sim.OPure && t.Sub == "TypeOf" && t.Args[0] == v }
			if is(p, a) && is(q, b) || is(p, b) && is(q, a) {
				return true
			}
		}
	}
	return false
}

// typeConflict: a value has the type of another, and also has not.
func (x *mfmt) typeConflict(o *sim.State) bool {
	is := func(t *sim.Term) bool { return t.Op == sim.OPure && t.Sub == "TypeOf" }
	for at, v := range o.Facts.Atoms {
		if at.Op != sim.OEq || !v {
			continue
		}
		p, q := core(at.Args[0]), core(at.Args[1])
		if !is(p) || !is(q) {
			continue
		}
		if q.Args[0].Op != sim.OIface {
			p, q = q, p
		}
		if q.Args[0].Op == sim.OIface && o.Facts.Eval(x.m.IsType(p.Args[0], q.Args[0].Obj.(types.Type))) == sim.False {
			return true
		}
	}
	return false
}

// printers: Sprintf, Fprintf, Printf, Fprintln and Println.
func (x *mfmt) printers() {
	r, m, T := x.r, x.m, x.m.T
	et := types.NewInterfaceType(nil, nil)
	str := types.Typ[types.String]
	old := m.Opaque
	defer func() { m.Opaque = old; x.printing = false }()
	x.printing = true
	m.Opaque = func(fn *ssa.Function) bool { return fn == x.fo || old(fn) }
	io := x.p.SSA.ImportedPackage("io")
	os := x.p.SSA.ImportedPackage("os")
	if !r.Need(os != nil && os.Var("Stdout") != nil, "os.Stdout") {
		return
	}
	run := func(name string, line bool, n int) {
		fn := x.p.Func("msgfmt", name)
		if !r.Need(fn != nil, "msgfmt."+name) {
			return
		}
		at := where(x.p, fn)
		st := x.base[0].Detach()
		m.MaxSteps = m.Steps + 2000000
		kv := T.Param("values", types.NewSlice(et))
		var elems []*sim.Term
		if line {
			st.Facts.Assert(T.Eq(T.Len(kv), T.Int(int64(n))), true)
			for i := 0; i < n; i++ {
				v := T.Param(fmt.Sprintf("value %d", i), et)
				m.Store(st, T.Index(kv, T.Int(int64(i)), et), v, et)
				elems = append(elems, v)
			}
		}
		var args []*sim.Term
		var out, format *sim.Term
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			pt := fn.Signature.Params().At(i).Type()
			switch {
			case types.Identical(pt, io.Type("Writer").Type()):
				out = T.Param("writer", pt)
				st.Facts.Assert(T.Eq(out, T.Nil()), false)
				args = append(args, out)
			case types.Identical(pt, str):
				format = T.Param("format", pt)
				args = append(args, format)
			default:
				args = append(args, kv)
			}
		}
		for _, o := range m.Run(st, fn, args) {
			ob := func(rule string, ok bool, format string, as ...interface{}) bool {
				if ok {
					return r.Ob(rule, name, true, "", "")
				}
				return r.Ob(rule, name, false, at, fmt.Sprintf(format, as...), trace(o)...)
			}
			if !ob("printed", !o.Panicked, "printing panics: %v", o.PanicVal) {
				continue
			}
			if name == "Sprintf" {
				t := core(o.Ret)
				want := T.Pure("formatted", str, T.Pure("FormatterOf", x.fo.Signature.Results().At(0).Type(), format, kv), kv)
				got, known := t, true
				if its, ok := (*jenc)(nil).items(o, t, T.Nil()); ok && len(its) == 1 && its[0].t != nil {
					got = core(its[0].t)
				} else if t.Op == sim.OAppend && len(t.Args) == 2 && t.Args[1].Op == sim.OSpread && o.Facts.Eval(T.Eq(T.Len(t.Args[0]), T.Int(0))) == sim.True {
					got = core(t.Args[1].Args[0])
				} else {
					known = t.Op != sim.OCall
				}
				if !known {
					r.Note("Sprintf returns %v", t)
				} else {
					ob("printed", got == want, "Sprintf returns %v instead of the text of the format for its arguments", t)
				}
				continue
			}
			// what is written
			var texts []*sim.Term
			var kvs [][]*sim.Term
			newline, writes, put, other := false, 0, -1, false
			var wres *sim.Term
			for i, ev := range o.Trace {
				if ev.Kind != "call" && ev.Kind != "defer" {
					continue
				}
				mname, recv, as := method(ev)
				switch {
				case ev.Callee == "(*sync.Pool).Put":
					put = i
				case mname == "Write" && recv != nil && len(as) == 1 || strings.HasSuffix(ev.Callee, ".Write") && len(ev.Args) == 2:
					w, data := recv, as[0]
					if len(ev.Args) == 2 && (recv == nil || len(as) == 2) {
						w, data = ev.Args[0], ev.Args[1]
					}
					writes++
					wres = ev.Res
					to := out
					if to == nil {
						to = m.LoadGlobal(o, os.Var("Stdout"))
					}
					ob("written-to", core(stripIface(w)) == core(to), "the text is written to %v", w)
					ob("buffer", put < 0, "the text is written after its buffer has been given back")
					if t := content(data); t != nil {
						if c, ok := t.StringVal(); ok && c == "\n" {
							newline = true
							continue
						}
					}
					if es, ok := m.Elements(o, data); ok && data.Op != sim.OAppend {
						if b, isC := int64(0), false; len(es) == 1 {
							if b, isC = es[0].Int64(); isC && b == '\n' {
								newline = true
								continue
							}
						}
					}
					if data.Op != sim.OAppend || o.Facts.Eval(T.Eq(T.Len(data.Args[0]), T.Int(0))) == sim.False {
						if data.Op == sim.OCall || data.Op == sim.OAppend {
							r.Note("%s writes %v", name, data)
							other = true
							continue
						}
						ob("printed", false, "%s writes %v", name, data)
						other = true
						continue
					}
					ob("buffer", o.Facts.Eval(T.Eq(T.Len(data.Args[0]), T.Int(0))) == sim.True, "the text is appended to what is in the buffer: %v", data.Args[0])
					for _, pc := range data.Args[1:] {
						if pc.Op == sim.OSpread {
							texts = append(texts, core(pc.Args[0]))
						} else {
							texts = append(texts, pc)
						}
					}
				case ev.Callee == "fmt.Fprintln" && ev.HasVar && len(ev.Var) == 0, ev.Callee == "fmt.Fprintln" && len(ev.Args) == 2 && (o.Facts.IsNil(ev.Args[1]) || emptySlice(ev.Args[1])):
					writes++
					newline = true
					wres = ev.Res
					to := out
					if to == nil {
						to = m.LoadGlobal(o, os.Var("Stdout"))
					}
					ob("written-to", core(stripIface(ev.Args[0])) == core(to), "the text is written to %v", ev.Args[0])
				case strings.HasPrefix(ev.Callee, "fmt.F") || strings.HasPrefix(ev.Callee, "io.") || strings.HasPrefix(ev.Callee, "os."):
					other = true
					r.Note("%s calls %s", name, ev.Callee)
				}
			}
			_ = kvs
			if other {
				continue
			}
			if !ob("printed", writes == 1, "%s writes %d times", name, writes) {
				continue
			}
			if wres != nil && o.Ret != nil {
				ret := o.Ret
				if ret.Op == sim.OTuple && len(ret.Args) == 2 {
					for i, c := range ret.Args {
						ob("result", c.Op == sim.OExtract && c.Args[0] == wres && c.Sub == fmt.Sprint(i), "%s returns %v, not what Write returned", name, c)
					}
				}
			}
			if !line || n > 0 {
				var ft *sim.Term
				if len(texts) > 0 && texts[0].Op == sim.OPure && texts[0].Sub == "formatted" {
					ft = texts[0]
				}
				if !ob("printed", ft != nil && !newline, "%s writes %v", name, texts) {
					continue
				}
				fm, args := ft.Args[0], ft.Args[1]
				if fm.Op != sim.OPure || fm.Sub != "FormatterOf" {
					r.Note("%s formats with %v", name, fm)
					continue
				}
				ob("printed", fm.Args[1] == args, "%s formats other arguments (%v) than the formatter is made for (%v)", name, args, fm.Args[1])
				if !line {
					ob("printed", len(texts) == 1, "%s writes more than the text: %v", name, texts)
					ob("printed", fm.Args[0] == format, "%s uses the format %v", name, fm.Args[0])
					ob("printed", args == kv, "%s formats %v", name, args)
					continue
				}
				f, ok := fm.Args[0].StringVal()
				got, ok2 := m.Elements(o, args)
				if !ok || !ok2 {
					r.Note("%s uses the format %v with %v", name, fm.Args[0], args)
					continue
				}
				for _, t := range texts[1:] {
					if c, ok := t.StringVal(); ok {
						f += c
					} else if c, ok := t.Int64(); ok {
						f += string(rune(c))
					} else {
						f += "?"
					}
				}
				key := strings.TrimSuffix(strings.TrimPrefix(f, "{"), "}\n")
				ob("line-format", f == "{"+key+"}\n" && !strings.ContainsAny(key, "{}, \n"), "%s of %d values uses the format %q", name, n, f)
				if !ob("line-args", len(got) == 2, "%s of %d values formats %v", name, n, got) {
					continue
				}
				k, isC := textOf(got[0]).StringVal()
				ob("line-args", isC && k == key, "%s of %d values uses the key %v for the format %q", name, n, got[0], f)
				v := got[1]
				if n == 1 {
					ob("line-value", v == elems[0], "%s of one value prints %v", name, v)
				} else {
					ob("line-value", stripIface(v) == kv, "%s of %d values prints %v instead of all of them", name, n, v)
				}
				continue
			}
			ob("printed", newline && len(texts) == 0, "%s of nothing writes %v", name, texts)
		}
	}
	run("Sprintf", false, 0)
	run("Fprintf", false, 0)
	run("Printf", false, 0)
	for _, n := range x.counts(5) {
		if n > 8 {
			continue
		}
		run("Fprintln", true, n)
		run("Println", true, n)
	}
}

// stops: reading up to some bytes reads nothing, as one of them is next.
func (x *mfmt) stops(st *sim.State, ev *sim.Event, pending *sim.Term) bool {
	for _, a := range ev.Args[2:] {
		if _, ok := a.Int64(); ok && st.Facts.Eval(x.m.T.Eq(pending, a)) == sim.True {
			return true
		}
	}
	return false
}

func checkC22(p *sim.Program, r *Report) {
	r.Assumptions = []string{"package parse reads text as C14 says", "functions registered in Formats may return or panic, but do not return formatters of package msgfmt"}
	x := newMfmt(p, r)
	if x == nil {
		return
	}
	m, T := x.m, x.m.T
	at := where(p, x.fo)
	x.errText = true
	m.OnBlock = func(st *sim.State, b *ssa.BasicBlock) bool { return !st.Tags["stuck"] }
	m.PanicAt = func(st *sim.State, ev *sim.Event) bool {
		name, recv, _ := method(ev)
		return name == "FormatterOf" && recv != nil && calleeOf(ev) == nil
	}
	m.OnIndex = func(st *sim.State, in ssa.Instruction, idx, n *sim.Term, ok bool) {
		if n.Op != sim.OLen || n.Args[0].Op != sim.OPure || n.Args[0].Sub != "input" {
			return
		}
		f := where(p, in.Parent())
		if ok {
			r.Ob("input-there", "index", true, "", "")
		} else {
			st.Tag("stuck")
			r.Ob("input-there", "index", false, f, fmt.Sprintf("byte %v of the input is used although the input may have ended", idx), trace(st)...)
		}
	}
	m.OnAssert = func(st *sim.State, in *ssa.TypeAssert, x *sim.Term) {
		if x.Op == sim.OParam || x.Op == sim.OSym && strings.HasPrefix(x.Sub, "panic(") {
			r.Ob("compiled", "assertion", false, where(p, in.Parent()), fmt.Sprintf("%v is taken for a %v, but may be anything", x, in.AssertedType), trace(st)...)
		}
	}
	bad, good, ended := 0, 0, 0
	run := func(c mcfg, prep func(st *sim.State, keys, vals []*sim.Term)) {
		for _, cc := range x.compile(c, prep) {
			cc := cc
			ob := func(rule, what string, o *sim.State, ok bool, format string, as ...interface{}) bool {
				if ok {
					return r.Ob(rule, what, true, "", "")
				}
				tr := trace(cc.o)
				if o != nil {
					tr = append(tr, trace(o)...)
				}
				return r.Ob(rule, what, false, at, fmt.Sprintf(format, as...), tr...)
			}
			if !ob("compiled", "FormatterOf", nil, !cc.o.Panicked, "making a formatter panics: %v", cc.o.PanicVal) {
				continue
			}
			s := x.scan(cc.o)
			ended++
			if len(s.ops) == 0 && s.err == nil {
				continue // the empty format
			}
			if !cc.isErr && s.err != nil && cc.o.Facts.Eval(T.Eq(s.err, x.eof)) == sim.True {
				// accepted
				good++
				for _, t := range cc.toks {
					if t.id == nil {
						continue
					}
					ob("rejected", "unclosed", nil, t.shut, "a format that ends within { } is accepted")
					if t.fn != nil {
						if c := knownText(cc.o, t.fn); c != nil && x.formats != nil {
							found := false
							for _, k := range m.MapKeys(x.base[0], x.formats) {
								found = found || k == c || k.IsConst() && k.String() == c.String()
							}
							ob("rejected", "function", nil, found, "a format with a function %v that does not exist is accepted", c)
						}
						continue
					}
					found := false
					for _, k := range cc.keys {
						found = found || equalText(cc.o, k, t.id) == sim.True
					}
					ob("rejected", "key", nil, found, "a format with a key that is not among the arguments is accepted")
				}
				continue
			}
			bad++
			if cc.meth == nil {
				ob("error-shown", "formatter", nil, !cc.fm.Any(func(q *sim.Term) bool { return q.Op == sim.OCall }), "a malformed format is shown by what a function made, %v", cc.fm)
				continue
			}
			outs, space, _ := x.formatted(&cc, c, true)
			for _, o := range outs {
				if !ob("formatted", "invalid", o, !o.Panicked, "formatting with a malformed format panics: %v", o.PanicVal) {
					continue
				}
				its, ok := (*jenc)(nil).items(o, o.Ret, space)
				if !ok {
					r.Note("an invalid format is shown as %v", o.Ret)
					continue
				}
				var text []*sim.Term
				for i := range its {
					if its[i].t != nil {
						text = append(text, its[i].t)
					}
				}
				text = x.within(o, text)
				named, args := s.err == nil || o.Facts.IsNil(s.err), false
				for _, t := range text {
					named = named || t == T.Pure("Error", types.Typ[types.String], s.err) || t == s.err
					args = args || core(stripIface(t)) == cc.kv
				}
				ob("error-shown", "error", o, named, "what is wrong with the format (%v) is not in the text: %v", s.err, its)
				ob("args-shown", "arguments", o, args, "the arguments are not in the text of a malformed format: %v", its)
				for _, t := range text {
					if t.Op == sim.OExtract && t.Sub == "0" && t.Args[0].Op == sim.OCall && strings.HasPrefix(t.Args[0].Sub, "encoding/json.Marshal") {
						e := T.Extract(t.Args[0], 1, types.Universe.Lookup("error").Type())
						ob("args-shown", "json", o, o.Facts.IsNil(e), "the arguments are shown as JSON although they can not be encoded")
					}
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2} {
		x.tokens, x.args = 1, 2
		run(mcfg{n: n}, nil)
	}
	run(mcfg{n: 1, odd: true}, nil)
	run(mcfg{n: 1, anyKey: true}, nil)
	x.tokens, x.args = 2, 1
	run(mcfg{n: 1}, func(st *sim.State, keys, vals []*sim.Term) {
		for _, v := range vals {
			st.Facts.Assert(m.IsType(v, types.Typ[types.String]), true)
		}
	})
	if m.Cut > 0 && x.stuckAt == nil {
		r.Note("%d paths go through a loop more than %d times", m.Cut, m.Unroll)
	}
	if x.stuckAt != nil {
		r.Ob("progress", "parser", false, at, "the parser goes on without consuming input", trace(x.stuckAt)...)
	} else {
		r.Ob("progress", "parser", true, "", "")
	}
	r.Ob("coverage", "formats", bad >= 20 && good >= 20, at, fmt.Sprintf("examined %d malformed formats and %d others", bad, good))
	r.Absorb(m)
}

// within: the terms and what they are made of: conversions, concatenations,
// and the arguments of functions of other packages.
func (x *mfmt) within(o *sim.State, ts []*sim.Term) (out []*sim.Term) {
	seen := map[*sim.Term]bool{}
	var add func(t *sim.Term)
	add = func(t *sim.Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
		if t.Op == sim.OExtract && t.Typ != nil && types.Identical(t.Typ, types.Universe.Lookup("error").Type()) {
			return // an error need not show what it is about
		}
		for _, ev := range o.Trace {
			if ev.Kind == "call" && ev.Res == t {
				for _, v := range ev.Var {
					add(v)
				}
			}
		}
		if es, ok := x.m.Elements(o, t); ok {
			for _, e := range es {
				add(e)
			}
		}
		for _, a := range t.Args {
			add(a)
		}
	}
	for _, t := range ts {
		add(t)
	}
	return
}
