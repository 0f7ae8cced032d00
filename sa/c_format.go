package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C25", "FormatterOf and Format of the JSON event format are interpreted over sites and events with any names and values: the text appended to the space is parsed as JSON over literal and symbolic pieces; every string must come from the escaper, every property must be there once, in order, encoded by the encoder of its value.", checkC25)
	register("C27", "FormatterOf and Format of the text formats (hrf, compact, printf) are interpreted over sites and events: the appended pieces must be the level, the message made from the properties of the event, its error, every property of the event (and of its context) as name and value, in order, and the location.", checkC27)
}

// efmt analyses the formatter an output format makes for a log site.
type efmt struct {
	p      *sim.Program
	r      *Report
	m      *sim.Machine
	pkg    string
	what   string
	format types.Type
	site   *sim.Term
	event  *sim.Term
	eventT *types.Struct
	siteT  *types.Struct
	consts []int64
}

func newEfmt(p *sim.Program, r *Report, pkg, typ string) *efmt {
	e := &efmt{p: p, r: r, pkg: "countlog/output/" + pkg, what: pkg}
	ft := p.Type(e.pkg, typ)
	et, st := p.Type("countlog/spi", "Event"), p.Type("countlog/spi", "LogSite")
	if !r.Need(ft != nil && et != nil && st != nil, e.pkg+"."+typ+", spi.Event, spi.LogSite") {
		return nil
	}
	e.format = types.NewPointer(ft)
	e.eventT, e.siteT = et.Underlying().(*types.Struct), st.Underlying().(*types.Struct)
	m := p.NewMachine()
	e.m = m
	m.NoRecurse = true
	m.Unroll = 700
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Opaque = onlyPkgs("countlog/output", e.pkg)
	m.Model = e.model
	e.site, e.event = m.T.Param("site", types.NewPointer(st)), m.T.Param("event", types.NewPointer(et))
	e.consts = intConsts(p, e.pkg, "countlog/output")
	return e
}

// intConsts: the small constants the functions of the packages use. What a
// loop does can depend on a count only by comparing it with one of them.
func intConsts(p *sim.Program, rels ...string) []int64 {
	set := map[int64]bool{}
	for _, rel := range rels {
		sp := p.ByPath[p.Path(rel)]
		if sp == nil {
			continue
		}
		for _, fn := range p.AllFuncs() {
			f := fn
			for f.Parent() != nil {
				f = f.Parent()
			}
			if f.Pkg != sp {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.BinOp, *ssa.Slice, *ssa.MakeSlice, *ssa.Call:
					default:
						continue
					}
					for _, o := range in.Operands(nil) {
						if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(c.Value); ok && n > 1 && n <= 128 {
								set[n] = true
							}
						}
					}
				}
			}
		}
	}
	var out []int64
	for n := range set {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// counts: the numbers of properties examined.
func (e *efmt) counts() []int {
	set := map[int]bool{0: true, 1: true, 2: true, 3: true, 5: true}
	for _, c := range e.consts {
		if c <= 64 {
			set[int(c)], set[int(c)+1] = true, true
			set[int(c)/2], set[int(c)/2+1] = true, true
		}
	}
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func structField(s *types.Struct, name string) types.Type {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (e *efmt) field(st *sim.State, base *sim.Term, s *types.Struct, name string) *sim.Term {
	t := structField(s, name)
	if t == nil {
		return e.m.T.Sym("no field "+name, nil)
	}
	return e.m.Load(st, e.m.T.Field(base, name, t), t)
}

func (e *efmt) model(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
	T := m.T
	name, recv, args := method(ev)
	rt := evResult(ev)
	callee := ev.Callee
	add := func(space, piece *sim.Term) (*sim.Term, bool) {
		return T.Append(space, []*sim.Term{T.Spread(piece)}, space.Typ), true
	}
	str := types.Typ[types.String]
	switch {
	case strings.HasPrefix(callee, mod+"/countlog/spi."), strings.HasPrefix(callee, "(*"+mod+"/countlog/spi.LogSite)."):
		if recv != nil {
			args = append([]*sim.Term{recv}, args...)
		}
		return T.Pure(name, rt, args...), true
	case callee == mod+"/msgfmt.AppendValue":
		return add(args[0], T.Pure("value", str, args[1]))
	case callee == mod+"/msgfmt.FormatterOf":
		return T.Pure("FormatterOf", rt, content(args[0]), args[1]), true
	case callee == mod+"/msgfmt.Sprintf" && len(args) == 2:
		return T.Pure("formatted", str, T.Pure("FormatterOf", rt, content(args[0]), args[1]), args[1]), true
	case callee == sigMsgFormat:
		return add(args[0], T.Pure("formatted", str, stripIface(recv), args[1]))
	case callee == mod+"/"+jsonfmt+".WriteString":
		return add(args[0], T.Pure("escaped", str, content(args[1])))
	case strings.HasPrefix(callee, mod+"/"+jsonfmt+".WriteInt"), strings.HasPrefix(callee, mod+"/"+jsonfmt+".WriteUint"):
		return add(args[0], T.Pure("decimal", str, args[1]))
	case callee == "strconv.AppendInt" || callee == "strconv.AppendUint":
		if b, ok := args[2].Int64(); ok && b == 10 {
			return add(args[0], T.Pure("decimal", str, args[1]))
		}
	case callee == "strconv.FormatInt" || callee == "strconv.FormatUint":
		if b, ok := args[1].Int64(); ok && b == 10 {
			return T.Pure("decimal", str, args[0]), true
		}
	case callee == "strconv.Itoa":
		return T.Pure("decimal", str, args[0]), true
	case callee == mod+"/"+jsonfmt+".EncoderOfObject":
		return T.Pure("EncoderOfObject", rt, args[0]), true
	case callee == mod+"/"+jsonfmt+".EncoderOf" && len(args) == 1:
		a := stripIface(args[0])
		if a.Op == sim.OPure && a.Sub == "TypeOf" {
			return T.Pure("EncoderOfObject", rt, a.Args[0]), true
		}
	case callee == mod+"/"+jsonfmt+".MarshalToString":
		return T.Pure("encoded", str, args[0]), true
	case callee == mod+"/reflect2.TypeOf":
		return T.Pure("TypeOf", rt, args[0]), true
	case callee == mod+"/reflect2.PtrOf":
		return T.Pure("PtrOf", rt, args[0]), true
	case callee == "(time.Time).AppendFormat":
		return add(ev.Args[1], T.Pure("(time.Time).Format", str, ev.Args[0], ev.Args[2]))
	case callee == "fmt.Sprintf" && ev.HasVar:
		return e.sprintf(ev)
	}
	return nil, false
}

// sprintf: the pieces of fmt.Sprintf with verbs that show the value as text.
func (e *efmt) sprintf(ev *sim.Event) (*sim.Term, bool) {
	f, ok := ev.Args[0].StringVal()
	if !ok {
		return nil, false
	}
	T := e.m.T
	var parts []*sim.Term
	lit, n := "", 0
	flush := func() {
		if lit != "" {
			parts = append(parts, T.Str(lit))
		}
		lit = ""
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if !strings.ContainsRune("svd", rune(f[i])) || n >= len(ev.Var) {
			return nil, false
		}
		flush()
		x := stripIface(ev.Var[n])
		n++
		if b, ok := x.Typ.(*types.Basic); ok && b.Info()&types.IsString == 0 || x.IsConst() && x.Val.Kind() == constant.Int {
			if v, ok := x.Int64(); ok {
				parts = append(parts, T.Str(fmt.Sprint(v)))
				continue
			}
			x = T.Pure("decimal", types.Typ[types.String], x)
		}
		parts = append(parts, x)
	}
	flush()
	return T.Concat(types.Typ[types.String], parts...), n == len(ev.Var)
}

// made is a formatter made for the site.
type made struct {
	st   *sim.State
	fm   *sim.Term
	meth *ssa.Function
}

// mk interprets FormatterOf; prep constrains the site and the format.
func (e *efmt) mk(prep func(st *sim.State, recv *sim.Term)) []made {
	fo := e.p.MethodOf(e.format, "FormatterOf")
	if !e.r.Need(fo != nil, e.pkg+" FormatterOf") {
		return nil
	}
	m := e.m
	m.MaxSteps = m.Steps + 3000000
	st := m.NewState()
	args := m.Params(fo, "fo.")
	args[1] = e.site
	st.Facts.Assert(m.T.Eq(e.site, m.T.Nil()), false)
	st.Facts.Assert(m.T.Eq(args[0], m.T.Nil()), false)
	if prep != nil {
		prep(st, args[0])
	}
	var out []made
	for _, o := range m.Run(st, fo, args) {
		if !e.r.Ob("formatter-made", e.what, !o.Panicked, where(e.p, fo), "making the formatter of a site panics: "+fmt.Sprint(o.PanicVal), trace(o)...) {
			continue
		}
		if o.Ret == nil || o.Ret.Op != sim.OIface {
			e.r.Note("%s: formatter %v", e.what, o.Ret)
			continue
		}
		fn := e.p.MethodOf(o.Ret.Obj.(types.Type), "Format")
		if !e.r.Need(fn != nil, e.pkg+" Format") {
			continue
		}
		out = append(out, made{o, o.Ret.Args[0], fn})
	}
	return out
}

// properties makes 2n properties with string keys.
func (e *efmt) properties(st *sim.State, name string, n int) (props *sim.Term, keys, vals []*sim.Term) {
	T := e.m.T
	et := types.NewInterfaceType(nil, nil)
	props = T.Param(name, types.NewSlice(et))
	st.Facts.Assert(T.Eq(T.Len(props), T.Int(int64(2*n))), true)
	for i := 0; i < n; i++ {
		k := T.Param(fmt.Sprintf("%s key %d", name, i), types.Typ[types.String])
		v := T.Param(fmt.Sprintf("%s value %d", name, i), et)
		keys, vals = append(keys, k), append(vals, v)
		e.m.Store(st, T.Index(props, T.Int(int64(2*i)), et), T.Iface(k, types.Typ[types.String], et), et)
		e.m.Store(st, T.Index(props, T.Int(int64(2*i+1)), et), v, et)
	}
	return
}

func (e *efmt) set(st *sim.State, base *sim.Term, s *types.Struct, name string, v *sim.Term) {
	if t := structField(s, name); t != nil {
		e.m.Store(st, e.m.T.Field(base, name, t), v, t)
	}
}

// run interprets Format of a made formatter.
func (e *efmt) run(mf made, prep func(st *sim.State)) (out []*sim.State, space *sim.Term) {
	m := e.m
	m.MaxSteps = m.Steps + 3000000
	st := mf.st.Detach()
	st.Facts.Assert(m.T.Eq(e.event, m.T.Nil()), false)
	space = m.T.Param("space", types.NewSlice(types.Typ[types.Byte]))
	prep(st)
	args := []*sim.Term{recvFor(m, st, mf.meth, mf.fm), space, e.event}
	return m.Run(st, mf.meth, args), space
}

// parts decomposes what was appended.
func (e *efmt) parts(o *sim.State, space *sim.Term, fn *ssa.Function) ([]item, bool) {
	if !e.r.Ob("formatted", e.what, !o.Panicked, where(e.p, fn), "formatting an event panics: "+fmt.Sprint(o.PanicVal), trace(o)...) {
		return nil, false
	}
	its, ok := (*jenc)(nil).items(o, o.Ret, space)
	if !ok {
		root := appendRoot(o, o.Ret)
		e.r.Ob("space-kept", e.what, root == space || !definiteRoot(root), where(e.p, fn), fmt.Sprintf("the result does not start with the given space but with %v", root), trace(o)...)
		e.r.Note("%s: result %v", e.what, o.Ret)
		return nil, false
	}
	e.r.Ob("space-kept", e.what, true, "", "")
	return its, true
}

// appendRoot: what a slice made by appending starts with.
func appendRoot(o *sim.State, t *sim.Term) *sim.Term {
	for {
		switch t.Op {
		case sim.OAppend:
			t = t.Args[0]
			continue
		}
		if ev := encodeEvent(o, t); ev != nil {
			_, _, as := method(ev)
			t = as[1]
			continue
		}
		return t
	}
}

// definiteRoot: certainly not the space a function was given.
func definiteRoot(t *sim.Term) bool {
	switch t.Op {
	case sim.ONil, sim.OZero, sim.OConst, sim.OParam, sim.OAlloc:
		return true
	case sim.OConv:
		return definiteRoot(t.Args[0])
	case sim.OSlice:
		if x := t.Args[0]; x.Op == sim.OAppend || x.Op == sim.OCall {
			// part of what was written
			hi, ok := t.Args[2].Int64()
			return ok && hi == 0
		}
		return t.Args[0].Op == sim.OAlloc || t.Args[0].Op == sim.OParam
	}
	return false
}

// ---- C25 ----

// jtok is a character or a piece of the text.
type jtok struct {
	c byte
	i *item
}

type jmember struct {
	key  string
	keyT *sim.Term
	val  *item  // a single piece
	text string // or text
}

type jparse struct {
	toks []jtok
	pos  int
	err  string
}

func (p *jparse) fail(format string, a ...interface{}) {
	if p.err == "" {
		p.err = fmt.Sprintf(format, a...)
	}
}

func (p *jparse) peek() (byte, *item, bool) {
	if p.pos >= len(p.toks) {
		return 0, nil, false
	}
	return p.toks[p.pos].c, p.toks[p.pos].i, true
}

func (p *jparse) char(c byte) bool {
	if b, i, ok := p.peek(); ok && i == nil && b == c {
		p.pos++
		return true
	}
	p.fail("expected %q", string([]byte{c}))
	return false
}

// str parses a string of the text: a quoted literal or an escaped piece.
func (p *jparse) str() (string, *item) {
	b, it, ok := p.peek()
	if !ok {
		p.fail("the text ends where a string is expected")
		return "", nil
	}
	if it != nil {
		if !isPiece(it, "escaped") {
			p.fail("%v is not an escaped string", it)
			return "", nil
		}
		p.pos++
		return "", it
	}
	if b != '"' {
		p.fail("%q where a string is expected", string([]byte{b}))
		return "", nil
	}
	p.pos++
	s := ""
	for {
		b, it, ok := p.peek()
		if !ok {
			p.fail("a string is not closed")
			return "", nil
		}
		p.pos++
		if it != nil {
			p.fail("%v is put between quotes without escaping", it)
			return "", nil
		}
		if b == '"' {
			return s, nil
		}
		if b < ' ' {
			p.fail("a control character in a string")
			return "", nil
		}
		s += string([]byte{b})
	}
}

func isPiece(it *item, name string) bool {
	t := it.t
	return t != nil && it.spr && t.Op == sim.OPure && t.Sub == name
}

func (p *jparse) object() (out []jmember) {
	if !p.char('{') {
		return
	}
	for p.err == "" {
		var m jmember
		s, it := p.str()
		if p.err != "" || !p.char(':') {
			return
		}
		m.key = s
		if it != nil {
			m.key, m.keyT = "", it.t.Args[0]
		}
		b, vi, ok := p.peek()
		switch {
		case !ok:
			p.fail("a value is missing")
		case vi != nil:
			p.pos++
			m.val = vi
		case b == '"':
			m.text, _ = p.str()
		default:
			for {
				b, vi, ok := p.peek()
				if !ok || vi != nil || b == ',' || b == '}' {
					break
				}
				if !strings.ContainsRune("0123456789-+.eEtrufalsn", rune(b)) {
					p.fail("%q in a value", string([]byte{b}))
					break
				}
				m.text += string([]byte{b})
				p.pos++
			}
			if m.text == "" {
				p.fail("a value is missing")
			}
		}
		if p.err != "" {
			return
		}
		out = append(out, m)
		b, it, ok = p.peek()
		if ok && it == nil && b == ',' {
			p.pos++
			continue
		}
		p.char('}')
		return
	}
	return
}

func checkC25(p *sim.Program, r *Report) {
	r.Assumptions = []string{"jsonfmt.WriteString writes its argument as a JSON string (C16), jsonfmt.Write(U)IntN its decimal text (C17), encoders the JSON of their value (C18, C23)", "properties are pairs of a string and a value"}
	e := newEfmt(p, r, "json", "JsonFormat")
	if e == nil {
		return
	}
	T := e.m.T
	made := 0
	for _, n := range e.counts() {
		// the sample of the site has as many properties, fewer or more
		for _, ns := range []int{n, 0, n + 1} {
			if ns != n && n > 5 {
				continue
			}
			for _, mf := range e.mk(func(st *sim.State, recv *sim.Term) {
				sample, _, _ := e.properties(st, "sample", ns)
				e.set(st, e.site, e.siteT, "Sample", sample)
			}) {
				var keys, vals []*sim.Term
				outs, space := e.run(mf, func(st *sim.State) {
					var props *sim.Term
					props, keys, vals = e.properties(st, "props", n)
					e.set(st, e.event, e.eventT, "Properties", props)
				})
				made++
				for _, o := range outs {
					its, ok := e.parts(o, space, mf.meth)
					if !ok {
						continue
					}
					e.json(o, its, keys, vals, mf)
				}
			}
		}
	}
	_ = T
	r.Ob("coverage", e.what, made > 0, e.pkg, "no formatter was examined")
	r.Absorb(e.m)
}

func (e *efmt) json(o *sim.State, its []item, keys, vals []*sim.Term, mf made) {
	r, T := e.r, e.m.T
	at := where(e.p, mf.meth)
	ps := &jparse{}
	for i := range its {
		it := &its[i]
		if it.t == nil && it.ev == nil {
			for k := 0; k < len(it.lit); k++ {
				ps.toks = append(ps.toks, jtok{c: it.lit[k]})
			}
			continue
		}
		ps.toks = append(ps.toks, jtok{i: it})
	}
	ms := ps.object()
	if !r.Ob("json-object", e.what, ps.err == "", at, "the line is not a JSON object: "+ps.err+fmt.Sprintf(" in %v", its), trace(o)...) {
		return
	}
	rest := ""
	for ps.pos < len(ps.toks) {
		c, it, _ := ps.peek()
		if it != nil {
			c = '?'
		}
		rest += string([]byte{c})
		ps.pos++
	}
	r.Ob("one-line", e.what, rest == "\n", at, fmt.Sprintf("the object is followed by %q instead of one line break", rest), trace(o)...)
	site := e.site
	find := func(key string) *jmember {
		var f *jmember
		for i := range ms {
			if ms[i].keyT == nil && ms[i].key == key {
				if !r.Ob("member-once", key, f == nil, at, "the member "+key+" is written twice", trace(o)...) {
					return f
				}
				f = &ms[i]
			}
		}
		return f
	}
	ev := find("event")
	name := e.field(o, site, e.siteT, "Event")
	r.Ob("member-event", e.what, ev != nil && ev.val != nil && isPiece(ev.val, "escaped") && ev.val.t.Args[0] == name, at, "the name of the event is not a member of the object", trace(o)...)
	loc := find("location")
	r.Ob("member-location", e.what, loc != nil && loc.val != nil && isPiece(loc.val, "escaped") && loc.val.t.Args[0] == T.Pure("Location", types.Typ[types.String], site), at, "the location of the log statement is not a member of the object", trace(o)...)
	ts := find("timestamp")
	stamp := e.field(o, e.event, e.eventT, "Timestamp")
	okTs := ts != nil && ts.val != nil && ts.val.t != nil && ts.val.t.Contains(stamp)
	if okTs && isPiece(ts.val, "decimal") {
		a := ts.val.t.Args[0]
		okTs = a.Op == sim.OPure && a.Sub == "(time.Time).UnixNano"
	}
	r.Ob("member-timestamp", e.what, okTs, at, "the time of the event in nanoseconds is not a member of the object", trace(o)...)
	// the properties
	next := 0
	for _, m := range ms {
		if m.keyT == nil {
			continue
		}
		if !r.Ob("property-order", e.what, next < len(keys) && m.keyT == keys[next], at, fmt.Sprintf("of %d properties, the member number %d is %v", len(keys), next, m.keyT), trace(o)...) {
			return
		}
		e.value(o, m.val, vals[next], at)
		next++
	}
	r.Ob("property-order", e.what, next == len(keys), at, fmt.Sprintf("of %d properties of the event only %d are written", len(keys), next), trace(o)...)
}

// value: the piece is the JSON of v.
func (e *efmt) value(o *sim.State, it *item, v *sim.Term, at string) {
	if it == nil {
		e.r.Ob("property-value", e.what, false, at, "a property is written as fixed text", trace(o)...)
		return
	}
	if it.ev == nil {
		if isPiece(it, "encoded") {
			e.r.Ob("property-value", e.what, it.t.Args[0] == v, at, fmt.Sprintf("a property is written as %v", it), trace(o)...)
			return
		}
		// a value of a known type written without an encoder
		a := it.t
		ok := (isPiece(it, "escaped") || isPiece(it, "decimal")) && stripConv(a.Args[0]).Op == sim.OAssert && stripConv(a.Args[0]).Args[0] == v
		if !ok && !a.Contains(v) {
			e.r.Ob("property-value", e.what, false, at, fmt.Sprintf("a property is written as %v", it), trace(o)...)
		} else if !ok {
			e.r.Note("%s: value written as %v", e.what, it)
		} else {
			e.r.Ob("property-value", e.what, true, "", "")
		}
		return
	}
	_, recv, args := method(it.ev)
	enc := stripIface(recv)
	okE := enc.Op == sim.OPure && enc.Sub == "EncoderOfObject"
	if !okE {
		e.r.Note("%s: encoder %v", e.what, enc)
		return
	}
	e.r.Ob("property-value", e.what, enc.Args[0] == v && args[2] == e.m.T.Pure("PtrOf", args[2].Typ, v), at, fmt.Sprintf("the encoder of %v is given %v", enc.Args[0], args[2]), trace(o)...)
}
