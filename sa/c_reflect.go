package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C19", "Every operation of the reflect2 types that takes an object is interpreted for a type of every kind: a path that does anything but panic must have compared the dynamic type of each object with the one required, and no memory is changed before.", func(p *sim.Program, r *Report) { checkReflect(p, r, true) })
	register("C20", "Every operation of the reflect2 types is interpreted for a type of every kind: where it reads and writes (base, element size, offset), with which runtime type, and the type of what it returns must be those of the operation.", func(p *sim.Program, r *Report) { checkReflect(p, r, false) })
}

const rfPkg = "reflect2"

// rt: a type as the analysis sees it: its kind and what it is made of.
type rt struct {
	kind   reflect.Kind
	n      int // length, number of methods
	elem   *rt
	key    *rt
	fields []*rt
	term   *sim.Term
	name   string
}

type reflecter struct {
	p     *sim.Program
	r     *Report
	m     *sim.Machine
	types bool // C19
	desc  map[*sim.Term]*rt
	typeT types.Type
	lost  int
	done  int
	sf    func(m *sim.Machine, st *sim.State, typ types.Type) *sim.Term // what FieldByX finds
}

func (x *reflecter) mk(name string, kind reflect.Kind, elem *rt) *rt {
	t := &rt{kind: kind, elem: elem, name: name}
	t.term = x.m.T.Param("type "+name, x.typeT)
	x.desc[t.term] = t
	return t
}

func (x *reflecter) ptrTo(t *sim.Term) *sim.Term { return x.m.T.Pure("PtrTo", x.typeT, t) }

// R: the runtime type of t.
func (x *reflecter) R(t *sim.Term) *sim.Term {
	return x.m.T.Pure("word1", types.Typ[types.UnsafePointer], t)
}
func (x *reflecter) P(t *sim.Term) *sim.Term { return x.R(x.ptrTo(t)) }

func (x *reflecter) data(v *sim.Term) *sim.Term {
	return x.m.T.Pure("word1", types.Typ[types.UnsafePointer], v)
}
func (x *reflecter) rtype(v *sim.Term) *sim.Term {
	return x.m.T.Pure("word0", types.Typ[types.UnsafePointer], v)
}
func (x *reflecter) size(t *rt) *sim.Term {
	return x.m.T.Pure("Size", types.Typ[types.Uintptr], t.term)
}
func (x *reflecter) offset(t *rt, i int) *sim.Term {
	return x.m.T.Pure("offset", types.Typ[types.Uintptr], t.term, x.m.T.Int(int64(i)))
}

// flat: a canonical form of an address or number.
func (x *reflecter) flat(t *sim.Term) string {
	mono := x.poly(t)
	var ks []string
	for k, n := range mono {
		if n != 0 {
			ks = append(ks, fmt.Sprintf("%d*%s", n, k))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " + ")
}

func (x *reflecter) poly(t *sim.Term) map[string]int64 {
	switch {
	case t.Op == sim.ONil:
		return map[string]int64{}
	case t.Op == sim.OConst:
		if n, ok := t.Int64(); ok {
			return map[string]int64{"": n}
		}
	case t.Op == sim.OConv:
		return x.poly(t.Args[0])
	case t.Op == sim.OBin && (t.Sub == "+" || t.Sub == "-"):
		a, b := x.poly(t.Args[0]), x.poly(t.Args[1])
		out := map[string]int64{}
		for k, n := range a {
			out[k] += n
		}
		for k, n := range b {
			if t.Sub == "-" {
				n = -n
			}
			out[k] += n
		}
		return out
	case t.Op == sim.OBin && t.Sub == "*":
		a, b := x.poly(t.Args[0]), x.poly(t.Args[1])
		out := map[string]int64{}
		for k, n := range a {
			for l, o := range b {
				fs := append(strings.Fields(k), strings.Fields(l)...)
				sort.Strings(fs)
				out[strings.Join(fs, " ")] += n * o
			}
		}
		return out
	case t.Op == sim.OLoad:
		return map[string]int64{fmt.Sprintf("*%s(%s)", t.Sub, strings.ReplaceAll(x.flat(t.Args[0]), " ", "_")): 1}
	}
	return map[string]int64{fmt.Sprintf("t%d", t.ID): 1}
}

func (x *reflecter) same(a, b *sim.Term) bool { return a == b || x.flat(a) == x.flat(b) }

// field makes a reflect.StructField.
func (x *reflecter) field(st *sim.State, typ types.Type, owner *rt, i int, ft *rt, index []int) *sim.Term {
	T := x.m.T
	s := typ.Underlying().(*types.Struct)
	var fs []*sim.Term
	for k := 0; k < s.NumFields(); k++ {
		f := s.Field(k)
		switch f.Name() {
		case "Type":
			fs = append(fs, ft.term)
		case "Offset":
			fs = append(fs, x.offset(owner, i))
		case "Index":
			a := x.m.MakeSlice(fmt.Sprintf("index%v", index), int64(len(index)), f.Type())
			for j, n := range index {
				x.m.Store(st, T.Index(a, T.Int(int64(j)), types.Typ[types.Int]), T.Int(int64(n)), types.Typ[types.Int])
			}
			fs = append(fs, a)
		default:
			fs = append(fs, T.Param(fmt.Sprintf("%s.%d.%s", owner.name, i, f.Name()), f.Type()))
		}
	}
	return T.Struct(typ, fs)
}

func (x *reflecter) model(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
	T := m.T
	switch ev.Callee {
	case "reflect.PtrTo", "reflect.PointerTo":
		return x.ptrTo(ev.Args[0]), true
	case "reflect.TypeOf":
		return T.Pure("TypeOf", x.typeT, ev.Args[0]), true
	}
	name, recv, args := method(ev)
	res := evResult(ev)
	if recv == nil || res == nil {
		return nil, false
	}
	ci, _ := ev.Instr.(ssa.CallInstruction)
	if ci == nil || !ci.Common().IsInvoke() {
		if strings.HasSuffix(ev.Callee, "Map).Load") {
			tup := res.(*types.Tuple)
			return T.Tuple(T.Pure("cached", tup.At(0).Type(), args[0]), T.Pure("isCached", types.Typ[types.Bool], args[0])), true
		}
		return nil, false
	}
	if !types.Identical(ci.Common().Value.Type(), x.typeT) {
		return nil, false
	}
	d := x.desc[recv]
	tup, _ := res.(*types.Tuple)
	switch name {
	case "Elem":
		if d != nil && d.elem != nil {
			return d.elem.term, true
		}
	case "Key":
		if d != nil && d.key != nil {
			return d.key.term, true
		}
	case "Size":
		return T.Pure("Size", types.Typ[types.Uintptr], recv), true
	case "Kind":
		if d != nil {
			return T.Const(constant.MakeInt64(int64(d.kind)), res), true
		}
	case "Len", "NumMethod":
		if d != nil {
			return T.Int(int64(d.n)), true
		}
	case "NumField":
		if d != nil {
			return T.Int(int64(len(d.fields))), true
		}
	case "Field":
		if i, ok := args[0].Int64(); ok && d != nil && int(i) < len(d.fields) {
			return x.field(st, res, d, int(i), d.fields[i], []int{int(i)}), true
		}
	case "FieldByName", "FieldByNameFunc":
		if x.sf != nil && tup != nil {
			return T.Tuple(x.sf(m, st, tup.At(0).Type()), T.Pure("found", types.Typ[types.Bool], args[0])), true
		}
	case "FieldByIndex":
		if x.sf != nil {
			return x.sf(m, st, res), true
		}
	}
	if tup == nil {
		return T.Pure("Type."+name, res, append([]*sim.Term{recv}, args...)...), true
	}
	return nil, false
}

// op: an operation to examine.
type rop struct {
	name  string
	args  []*sim.Term
	want  []*sim.Term // runtime type each argument must have (nil: not an object)
	nilOk bool        // the first argument may be a nil interface: true
	loops bool        // symbolic loops
	check func(st0, o *sim.State) string
	bad   func(st0, o *sim.State) bool // what allows it to panic
}

// writes: functions of the runtime that use the memory they are given.
func memOp(ev *sim.Event) string {
	if ev.Kind != "call" {
		return ""
	}
	c := ev.Callee
	if i := strings.LastIndex(c, "."); i >= 0 {
		c = c[i+1:]
	}
	switch c {
	case "typedmemmove", "typedslicecopy", "mapassign", "mapaccess", "mapiterinit", "mapiternext", "unsafe_New", "unsafe_NewArray", "makemap":
		return c
	}
	return ""
}

func calls(o *sim.State, name string) (out []*sim.Event) {
	for _, ev := range o.Trace {
		if memOp(ev) == name {
			out = append(out, ev)
		}
	}
	return
}

func (x *reflecter) dyn(v *sim.Term) (types.Type, *sim.Term) {
	if v.Op != sim.OIface {
		return nil, nil
	}
	t, _ := v.Obj.(types.Type)
	return t, v.Args[0]
}

func (x *reflecter) methodOf(recv *sim.Term, name string) *ssa.Function {
	typ, _ := x.dyn(recv)
	if typ == nil {
		return nil
	}
	return x.p.MethodOf(typ, name)
}

func (x *reflecter) do(what string, st0 *sim.State, recv *sim.Term, op rop) {
	r := x.r
	typ, self := x.dyn(recv)
	if typ == nil {
		x.lost++
		r.Note("%s: what implements it is not understood: %v", what, recv)
		return
	}
	fn := x.p.MethodOf(typ, op.name)
	if fn == nil {
		r.Note("%s has no %s", what, op.name)
		x.lost++
		return
	}
	what += "." + op.name
	x.m.Unroll = 40
	if op.loops {
		x.m.Unroll = 0
	}
	args := append([]*sim.Term{self}, op.args...)
	if len(args) != len(fn.Params) {
		x.lost++
		return
	}
	at := where(x.p, fn)
	st0 = st0.Clone()
	for _, w := range op.want {
		if w != nil {
			st0.Facts.Assert(x.m.T.Eq(w, x.m.T.Nil()), false)
		}
	}
	if op.loops { // a slice: 0 <= length <= capacity
		p := op.args[0]
		if op.want != nil {
			p = x.data(p)
		}
		intT := types.Typ[types.Int]
		l := x.m.Load(st0, x.m.T.Field(p, "Len", intT), intT)
		c := x.m.Load(st0, x.m.T.Field(p, "Cap", intT), intT)
		st0.Facts.AssertLe(x.m.T.Int(0), l)
		st0.Facts.AssertLe(l, c)
	}
	for _, o := range x.m.Run(st0.Clone(), fn, args) {
		x.done++
		nilArg := len(op.args) > 0 && op.want != nil && op.want[0] != nil && o.Facts.IsNil(op.args[0])
		verdict := sim.True
		bad := -1
		for i, w := range op.want {
			if w == nil {
				continue
			}
			v := sim.False
			if !o.Facts.IsNil(op.args[i]) {
				v = o.Facts.Eval(x.m.T.Eq(x.rtype(op.args[i]), w))
			}
			if v == sim.False {
				verdict = sim.False
				break
			}
			if v == sim.Unknown && verdict == sim.True {
				verdict, bad = sim.Unknown, i
			}
		}
		if o.Panicked {
			if x.types {
				early := ""
				for _, ev := range o.Trace {
					if n := memOp(ev); n != "" && n != "unsafe_New" && n != "unsafe_NewArray" && n != "makemap" {
						early = n
					}
				}
				r.Ob("before", what, verdict != sim.False || early == "", at, fmt.Sprintf("%s before the types of all objects are checked", early), trace(o)...)
			} else if op.bad != nil && op.bad(st0, o) {
				continue
			} else if len(op.want) > 0 || o.PanicAt != nil {
				r.Ob("no-panic", what, verdict == sim.False, at, fmt.Sprintf("panics although every object has the type it must have: %v", o.PanicVal), traceIf(verdict != sim.False, o)...)
			}
			continue
		}
		if op.nilOk && nilArg {
			if !x.types {
				b, ok := o.Ret.BoolVal()
				r.Ob("effect", what, ok && b, at, "a nil object is not nil", traceIf(!(ok && b), o)...)
			}
			continue
		}
		if x.types {
			msg := ""
			switch verdict {
			case sim.False:
				msg = "goes on with an object of another type"
			case sim.Unknown:
				msg = fmt.Sprintf("goes on without the type of argument %d being checked", bad+1)
			}
			r.Ob("checked", what, msg == "", at, msg, traceIf(msg != "", o)...)
			continue
		}
		if verdict == sim.False {
			continue // C19
		}
		if op.check == nil {
			continue
		}
		msg := op.check(st0, o)
		if strings.HasPrefix(msg, "?") {
			x.lost++
			r.Note("%s: %s", what, msg[1:])
			continue
		}
		r.Ob("effect", what, msg == "", at, msg, traceIf(msg != "", o)...)
	}
}

func (x *reflecter) isPacked(v, w0, w1 *sim.Term) string {
	if v.Op == sim.OPure && v.Sub == "packed" {
		if v.Args[0] != w0 {
			return fmt.Sprintf("gives an object of type %v, not %v", v.Args[0], w0)
		}
		if !x.same(v.Args[1], w1) {
			return fmt.Sprintf("gives an object at %v, not %v", v.Args[1], w1)
		}
		return ""
	}
	if v.IsConst() || v.Op == sim.ONil || v.Op == sim.OPure || v.Op == sim.OParam || v.Op == sim.OLoad {
		return fmt.Sprintf("gives %v, not an object of type %v at %v", v, w0, w1)
	}
	return fmt.Sprintf("?gives %v", v)
}

// moved: exactly one copy of a value of type t.
func (x *reflecter) moved(o *sim.State, t, dst, src *sim.Term) string {
	mv := calls(o, "typedmemmove")
	if len(mv) != 1 {
		return fmt.Sprintf("%d values are copied", len(mv))
	}
	a := mv[0].Args
	switch {
	case a[0] != x.R(t):
		return fmt.Sprintf("a value of type %v is copied, not %v", a[0], x.R(t))
	case !x.same(a[1], dst):
		return fmt.Sprintf("the value is written to %v, not %v", a[1], dst)
	case !x.same(a[2], src):
		return fmt.Sprintf("the value is read from %v, not %v", a[2], src)
	}
	return ""
}

func firstOf(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func checkReflect(p *sim.Program, r *Report, typ bool) {
	x := &reflecter{p: p, r: r, types: typ, desc: map[*sim.Term]*rt{}}
	cfgT := p.Type(rfPkg, "Config")
	if !r.Need(cfgT != nil && p.MethodOf(cfgT, "Froze") != nil && p.Type(rfPkg, "Type") != nil, "reflect2.Config.Froze, reflect2.Type") {
		return
	}
	m := p.NewMachine()
	x.m = m
	T := m.T
	m.Words, m.Unroll, m.Depth = true, 40, 12
	m.Opaque = onlyPkgs(rfPkg)
	m.Model = x.model
	m.NoHavoc = func(ev *sim.Event) bool {
		n := memOp(ev)
		return n != "mapiterinit" && n != "mapiternext"
	}
	froze := p.MethodOf(cfgT, "Froze")
	t2fn := p.Func(rfPkg, "Type2")
	x.typeT = t2fn.Params[0].Type()
	outs := m.Run(m.NewState(), froze, []*sim.Term{T.Zero(cfgT)})
	if !r.Need(len(outs) == 1 && !outs[0].Panicked, "Config.Froze gives a configuration") {
		return
	}
	cfg, base := outs[0].Ret, outs[0].Detach()
	ft := froze.Signature.Results().At(0).Type()
	type2 := p.MethodOf(ft, "Type2")
	typeOf := p.MethodOf(ft, "TypeOf")
	if !r.Need(type2 != nil && typeOf != nil, "TypeOf and Type2 of a configuration") {
		return
	}
	i := x.mk("int", reflect.Int, nil)
	str := x.mk("string", reflect.String, nil)
	ptr := x.mk("*int", reflect.Ptr, i)
	mp := x.mk("map", reflect.Map, str)
	mp.key = i
	ch := x.mk("chan", reflect.Chan, i)
	fnc := x.mk("func", reflect.Func, nil)
	up := x.mk("unsafe.Pointer", reflect.UnsafePointer, nil)
	sl := x.mk("slice", reflect.Slice, str)
	ef := x.mk("interface{}", reflect.Interface, nil)
	ifc := x.mk("interface{M}", reflect.Interface, nil)
	ifc.n = 1
	types_ := []*rt{i, str, ptr, mp, ch, fnc, up, sl, ef, ifc}
	for _, k := range []reflect.Kind{reflect.Bool, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128} {
		types_ = append(types_, x.mk(k.String(), k, nil))
	}
	like := map[*rt]bool{ptr: true, mp: true, ch: true, fnc: true, up: true}
	var inner []*rt
	mkArr := func(n int, e *rt) *rt {
		t := x.mk(fmt.Sprintf("[%d]%s", n, e.name), reflect.Array, e)
		t.n = n
		like[t] = n == 1 && like[e]
		return t
	}
	mkStruct := func(fs ...*rt) *rt {
		var ns []string
		for _, f := range fs {
			ns = append(ns, f.name)
		}
		t := x.mk("struct{"+strings.Join(ns, ";")+"}", reflect.Struct, nil)
		t.fields = fs
		like[t] = len(fs) == 1 && like[fs[0]]
		return t
	}
	inner = append(inner, i, ptr, mp, ch, fnc, up, sl, ef, ifc, str)
	inner = append(inner, mkStruct(ptr), mkStruct(i), mkArr(1, ptr), mkArr(2, ptr), mkArr(1, i), mkStruct(mkArr(1, mp)), mkArr(1, mkStruct(ch)))
	types_ = append(types_, inner[10:]...)
	for _, e := range inner {
		types_ = append(types_, mkArr(1, e), mkArr(2, e), mkStruct(e))
	}
	types_ = append(types_, mkArr(0, ptr), mkStruct(), mkStruct(ptr, i), mkStruct(i, str), mkStruct(ptr, ptr, ptr))
	outer := mkStruct(i, mkStruct(i, str), x.mk("*struct", reflect.Ptr, mkStruct(i, ptr)))
	types_ = append(types_, outer)
	obj := T.Param("obj", types.NewInterfaceType(nil, nil))
	val := T.Param("val", types.NewInterfaceType(nil, nil))
	key := T.Param("key", types.NewInterfaceType(nil, nil))
	idx := T.Param("index", types.Typ[types.Int])
	upT := types.Typ[types.UnsafePointer]
	pa, pb, pc := T.Param("p", upT), T.Param("q", upT), T.Param("k", upT)

	// the types themselves
	for _, t := range types_ {
		t := t
		m.Unroll = 40
		fresh := 0
		for _, o := range m.Run(base.Clone(), type2, []*sim.Term{cfg, t.term}) {
			x.done++
			if o.Panicked {
				r.Ob("made", t.name, false, where(p, type2), fmt.Sprintf("Type2 panics: %v", o.PanicVal), trace(o)...)
				continue
			}
			cached := false
			var keys []*sim.Term
			for _, ev := range o.Trace {
				if ev.Kind == "call" && (strings.HasSuffix(ev.Callee, "Map).Load") || strings.HasSuffix(ev.Callee, "Map).Store")) {
					keys = append(keys, ev.Args[1])
					if o.Facts.Eval(T.Pure("isCached", types.Typ[types.Bool], ev.Args[1])) == sim.True {
						cached = true
					}
				}
			}
			for _, k := range keys {
				k = stripIface(k)
				r.Ob("cache-key", "Type2", k == x.R(t.term) || !k.Any(func(q *sim.Term) bool { return q == x.R(t.term) }) && k.Op != sim.OConst && !x.derived(k, t), where(p, type2), fmt.Sprintf("the cache is keyed by %v, which does not tell types apart", k), trace(o)...)
			}
			if cached {
				continue
			}
			_, self := x.dyn(o.Ret)
			if self == nil {
				r.Note("Type2 of %s gives %v", t.name, o.Ret)
				x.lost++
				continue
			}
			fresh++
			st := o.Detach()
			x.ops(t, st, o.Ret, like[t], obj, val, key, idx, pa, pb, pc)
		}
		r.Ob("coverage", t.name, x.lost > 0 || fresh > 0, where(p, type2), "no type is made")
	}
	if !typ {
		x.top(base, cfg, typeOf, obj)
	}
	// fields of structs
	x.structs(outer, base, cfg, type2, obj, val, pa, pb)
	r.Ob("coverage", "operations", x.lost > 0 || x.done > 1000, rfPkg, fmt.Sprintf("only %d paths were examined", x.done))
	r.Absorb(m)
}

// top: the functions that start from an object.
func (x *reflecter) top(base *sim.State, cfg *sim.Term, typeOf *ssa.Function, obj *sim.Term) {
	T, m, r, p := x.m.T, x.m, x.r, x.p
	of := T.Pure("TypeOf", x.typeT, obj)
	for _, k := range []reflect.Kind{reflect.Int, reflect.String, reflect.Ptr} {
		x.desc[of] = &rt{kind: k, term: of, name: "TypeOf(obj)"}
		if k == reflect.Ptr {
			x.desc[of].elem = x.mk("pointee", reflect.Int, nil)
		}
		st := base.Clone()
		m.Unroll = 40
		for _, o := range m.Run(st, typeOf, []*sim.Term{cfg, obj}) {
			x.done++
			if o.Panicked {
				if !o.Facts.IsNil(obj) {
					r.Ob("typeof", "TypeOf", false, where(p, typeOf), fmt.Sprintf("panics: %v", o.PanicVal), trace(o)...)
				}
				continue
			}
			msg := ""
			hit := false
			for _, ev := range o.Trace {
				if ev.Kind == "call" && (strings.HasSuffix(ev.Callee, "Map).Load") || strings.HasSuffix(ev.Callee, "Map).Store")) {
					key := stripIface(ev.Args[1])
					isObj := key.Any(func(q *sim.Term) bool { return q == x.rtype(obj) }) || key.Any(func(q *sim.Term) bool { return q == of })
					if !isObj && !key.Any(func(q *sim.Term) bool { return q.Op == sim.OPure || q.Op == sim.OLoad }) {
						msg = fmt.Sprintf("the cache is keyed by %v", key)
					} else if key == x.data(obj) {
						msg = "the cache is keyed by the value, not its type"
					}
					if isObj && o.Facts.Eval(T.Pure("isCached", types.Typ[types.Bool], ev.Args[1])) == sim.True {
						hit = true
					}
				}
			}
			if msg == "" && !hit {
				msg = x.isTypeOf(o, x.desc[of])
			}
			if strings.HasPrefix(msg, "?") {
				x.lost++
				r.Note("TypeOf: %s", msg[1:])
				continue
			}
			r.Ob("typeof", "TypeOf", msg == "", where(p, typeOf), msg, traceIf(msg != "", o)...)
		}
	}
	delete(x.desc, of)
	for name, want := range map[string]func(o *sim.State) *sim.Term{
		"PtrOf":   func(o *sim.State) *sim.Term { return x.data(obj) },
		"RTypeOf": func(o *sim.State) *sim.Term { return x.rtype(obj) },
		"IsNil": func(o *sim.State) *sim.Term {
			if o.Facts.IsNil(obj) {
				return T.Bool(true)
			}
			return T.Eq(x.data(obj), T.Nil())
		},
	} {
		fn := p.Func(rfPkg, name)
		if !r.Need(fn != nil && len(fn.Params) == 1, rfPkg+"."+name) {
			continue
		}
		for _, o := range m.Run(base.Clone(), fn, []*sim.Term{obj}) {
			x.done++
			if o.Panicked {
				r.Ob("typeof", name, false, where(p, fn), fmt.Sprintf("panics: %v", o.PanicVal), trace(o)...)
				continue
			}
			w := want(o)
			ok := x.same(o.Ret, w)
			if v := o.Facts.Eval(w); !ok && v != sim.Unknown {
				ok = o.Facts.Eval(o.Ret) == v
			}
			if !ok && name == "IsNil" && !o.Ret.IsConst() && !x.plain(o.Ret) && !o.Ret.Any(func(q *sim.Term) bool { return q == x.rtype(obj) }) {
				x.lost++
				r.Note("%s gives %v", name, o.Ret)
				continue
			}
			r.Ob("typeof", name, ok, where(p, fn), fmt.Sprintf("gives %v, not %v", o.Ret, w), traceIf(!ok, o)...)
		}
	}
}

// derived: the key is made of something of the type that others may share.
func (x *reflecter) derived(k *sim.Term, t *rt) bool {
	return k.Any(func(q *sim.Term) bool {
		return q.Op == sim.OPure && strings.HasPrefix(q.Sub, "Type.") || q.Op == sim.OPure && (q.Sub == "Size" || q.Sub == "Kind")
	})
}

// ops examines the operations of a type.
func (x *reflecter) ops(t *rt, st *sim.State, recv *sim.Term, like bool, obj, val, key, idx, pa, pb, pc *sim.Term) {
	T, m := x.m.T, x.m
	upT := types.Typ[types.UnsafePointer]
	do := func(op rop) { x.do(t.name, st, recv, op) }
	one := func(w *sim.Term) []*sim.Term { return []*sim.Term{w} }
	P, R := x.P(t.term), x.R(t.term)
	d, dv := x.data(obj), x.data(val)
	load := func(s *sim.State, a *sim.Term) *sim.Term { return m.Load(s, a, upT) }
	hdr := func(s *sim.State, a *sim.Term, f string) *sim.Term {
		ft := types.Type(types.Typ[types.Int])
		if f == "Data" {
			ft = upT
		}
		return m.Load(s, T.Field(a, f, ft), ft)
	}
	eq := func(o *sim.State, got *sim.Term, what string, want *sim.Term) string {
		if x.same(got, want) || o.Facts.Eval(T.Eq(got, want)) == sim.True {
			return ""
		}
		return fmt.Sprintf("%s is %v, not %v", what, got, want)
	}
	// set
	set := func(dst, src *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			if t.kind == reflect.Slice && len(calls(o, "typedmemmove")) == 0 {
				return firstOf(eq(o, hdr(o, dst, "Data"), "Data", hdr(st0, src, "Data")), eq(o, hdr(o, dst, "Len"), "Len", hdr(st0, src, "Len")), eq(o, hdr(o, dst, "Cap"), "Cap", hdr(st0, src, "Cap")))
			}
			return x.moved(o, t.term, dst, src)
		}
	}
	do(rop{name: "Set", args: []*sim.Term{obj, val}, want: []*sim.Term{P, P}, check: set(d, dv)})
	do(rop{name: "UnsafeSet", args: []*sim.Term{pa, pb}, check: set(pa, pb)})
	// nil
	isNil := func(a *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			var v *sim.Term
			switch t.kind {
			case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
				v = load(st0, a)
			case reflect.UnsafePointer:
				v = load(st0, a)
			case reflect.Slice:
				v = hdr(st0, a, "Data")
			case reflect.Interface:
				if t.n > 0 {
					return x.nilIface(o, a)
				}
				v = x.data(m.Load(st0, a, types.NewInterfaceType(nil, nil)))
			}
			want := sim.Unknown
			switch o.Facts.Eval(T.Eq(a, T.Nil())) {
			case sim.True:
				want = sim.True
			default:
				if v == nil {
					return eq(o, o.Ret, "the result", T.Eq(a, T.Nil()))
				}
				want = o.Facts.Eval(T.Eq(v, T.Nil()))
			}
			if want == sim.Unknown {
				if v != nil && o.Ret == T.Eq(v, T.Nil()) {
					return ""
				}
				if o.Ret.IsConst() {
					return fmt.Sprintf("is %v whether or not the value is nil", o.Ret)
				}
				if v != nil && x.same2(o.Ret, T.Eq(v, T.Nil())) {
					return ""
				}
				if x.plain(o.Ret) {
					return fmt.Sprintf("gives %v", o.Ret)
				}
				return fmt.Sprintf("?gives %v", o.Ret)
			}
			b, ok := o.Ret.BoolVal()
			if !ok {
				switch o.Facts.Eval(o.Ret) {
				case sim.True:
					b, ok = true, true
				case sim.False:
					b, ok = false, true
				}
			}
			if !ok {
				return fmt.Sprintf("?gives %v", o.Ret)
			}
			if b != (want == sim.True) {
				return fmt.Sprintf("gives %v", b)
			}
			return ""
		}
	}
	nullable := t.kind == reflect.Ptr || t.kind == reflect.Map || t.kind == reflect.Chan || t.kind == reflect.Func || t.kind == reflect.Slice || t.kind == reflect.Interface
	do(rop{name: "IsNil", args: one(obj), want: one(P), nilOk: nullable || t.kind == reflect.UnsafePointer, check: isNil(d)})
	do(rop{name: "UnsafeIsNil", args: one(pa), check: isNil(pa)})
	do(rop{name: "IsNullable", check: func(st0, o *sim.State) string {
		b, ok := o.Ret.BoolVal()
		if !ok {
			return fmt.Sprintf("?gives %v", o.Ret)
		}
		if b != nullable && t.kind != reflect.UnsafePointer {
			return fmt.Sprintf("gives %v", b)
		}
		return ""
	}})
	// new
	fresh := func(v func(o *sim.State) *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			ns := calls(o, "unsafe_New")
			if len(ns) != 1 || ns[0].Args[0] != R {
				return "no new value of the type is made"
			}
			return eq(o, v(o), "the pointer", ns[0].Res)
		}
	}
	do(rop{name: "UnsafeNew", check: fresh(func(o *sim.State) *sim.Term { return o.Ret })})
	do(rop{name: "New", check: func(st0, o *sim.State) string {
		if o.Ret.Op == sim.OPure && o.Ret.Sub == "packed" {
			return firstOf(x.isPacked(o.Ret, P, o.Ret.Args[1]), fresh(func(o *sim.State) *sim.Term { return o.Ret.Args[1] })(st0, o))
		}
		return fmt.Sprintf("?gives %v", o.Ret)
	}})
	do(rop{name: "PackEFace", args: one(pa), check: func(st0, o *sim.State) string { return x.isPacked(o.Ret, P, pa) }})
	do(rop{name: "RType", check: func(st0, o *sim.State) string { return eq(o, o.Ret, "the result", R) }})
	do(rop{name: "Type1", check: func(st0, o *sim.State) string { return eq(o, o.Ret, "the result", t.term) }})
	for _, n := range []string{"Implements", "AssignableTo"} {
		n := n
		if fn := x.methodOf(recv, n); fn != nil && len(fn.Params) == 2 {
			other := T.Param("other", fn.Params[1].Type())
			do(rop{name: n, args: one(other), check: func(st0, o *sim.State) string {
				q := o.Ret
				if q.Op != sim.OPure || q.Sub != "Type."+n || len(q.Args) != 2 {
					return fmt.Sprintf("?gives %v", q)
				}
				if q.Args[0] != t.term {
					return fmt.Sprintf("asks %v instead of the type", q.Args[0])
				}
				return ""
			}})
		}
	}
	do(rop{name: "LikePtr", check: func(st0, o *sim.State) string {
		b, ok := o.Ret.BoolVal()
		if !ok {
			return fmt.Sprintf("?gives %v", o.Ret)
		}
		if b != like {
			return fmt.Sprintf("gives %v", b)
		}
		return ""
	}})
	// indirect
	ind := func(a *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			if t.kind == reflect.Interface {
				if t.n == 0 {
					return eq(o, o.Ret, "the result", m.Load(st0, a, types.NewInterfaceType(nil, nil)))
				}
				return x.ifaceValue(o, a)
			}
			if like {
				return x.isPacked(o.Ret, R, load(st0, a))
			}
			return x.isPacked(o.Ret, R, a)
		}
	}
	do(rop{name: "Indirect", args: one(obj), want: one(P), check: ind(d)})
	do(rop{name: "UnsafeIndirect", args: one(pa), check: ind(pa)})
	// lists
	var E *rt
	if t.kind == reflect.Slice || t.kind == reflect.Array {
		E = t.elem
		PE := x.P(E.term)
		mul := func(base, i *sim.Term) *sim.Term {
			return T.Bin(token.ADD, base, T.Bin(token.MUL, i, x.size(E), types.Typ[types.Uintptr]), types.Typ[types.Uintptr])
		}
		at := func(s *sim.State, a *sim.Term) *sim.Term {
			if t.kind == reflect.Slice {
				return mul(hdr(s, a, "Data"), idx)
			}
			return mul(a, idx)
		}
		do(rop{name: "GetIndex", args: []*sim.Term{obj, idx}, want: []*sim.Term{P, nil}, check: func(st0, o *sim.State) string { return x.isPacked(o.Ret, PE, at(st0, d)) }})
		do(rop{name: "UnsafeGetIndex", args: []*sim.Term{pa, idx}, check: func(st0, o *sim.State) string { return eq(o, o.Ret, "the element", at(st0, pa)) }})
		do(rop{name: "SetIndex", args: []*sim.Term{obj, idx, val}, want: []*sim.Term{P, nil, PE}, check: func(st0, o *sim.State) string { return x.moved(o, E.term, at(st0, d), dv) }})
		do(rop{name: "UnsafeSetIndex", args: []*sim.Term{pa, idx, pb}, check: func(st0, o *sim.State) string { return x.moved(o, E.term, at(st0, pa), pb) }})
		if t.kind == reflect.Slice {
			num := T.Param("length", types.Typ[types.Int])
			cp := T.Param("cap", types.Typ[types.Int])
			made := func(o *sim.State, h *sim.Term) string {
				ns := calls(o, "unsafe_NewArray")
				if len(ns) != 1 || ns[0].Args[0] != x.R(E.term) || ns[0].Args[1] != cp {
					return "no array of cap elements is made"
				}
				return firstOf(eq(o, hdr(o, h, "Data"), "Data", ns[0].Res), eq(o, hdr(o, h, "Len"), "Len", num), eq(o, hdr(o, h, "Cap"), "Cap", cp))
			}
			do(rop{name: "MakeSlice", args: []*sim.Term{num, cp}, check: func(st0, o *sim.State) string {
				if o.Ret.Op != sim.OPure || o.Ret.Sub != "packed" {
					return fmt.Sprintf("?gives %v", o.Ret)
				}
				return firstOf(x.isPacked(o.Ret, P, o.Ret.Args[1]), made(o, o.Ret.Args[1]))
			}})
			do(rop{name: "UnsafeMakeSlice", args: []*sim.Term{num, cp}, check: func(st0, o *sim.State) string { return made(o, o.Ret) }})
			for name, f := range map[string]string{"LengthOf": "Len", "Cap": "Cap"} {
				f := f
				do(rop{name: name, args: one(obj), want: one(P), check: func(st0, o *sim.State) string { return eq(o, o.Ret, "the result", hdr(st0, d, f)) }})
				do(rop{name: "Unsafe" + name, args: one(pa), check: func(st0, o *sim.State) string { return eq(o, o.Ret, "the result", hdr(st0, pa, f)) }})
			}
			nl := func(a *sim.Term) func(st0, o *sim.State) string {
				return func(st0, o *sim.State) string {
					return firstOf(eq(o, hdr(o, a, "Data"), "Data", T.Nil()), eq(o, hdr(o, a, "Len"), "Len", T.Int(0)), eq(o, hdr(o, a, "Cap"), "Cap", T.Int(0)))
				}
			}
			do(rop{name: "SetNil", args: one(obj), want: one(P), check: nl(d)})
			do(rop{name: "UnsafeSetNil", args: one(pa), check: nl(pa)})
			grown := func(st0, o *sim.State, a, n *sim.Term) string {
				D0, L0, C0 := hdr(st0, a, "Data"), hdr(st0, a, "Len"), hdr(st0, a, "Cap")
				D, L, C := hdr(o, a, "Data"), hdr(o, a, "Len"), hdr(o, a, "Cap")
				if s := eq(o, L, "Len", n); s != "" {
					return s
				}
				if len(calls(o, "unsafe_NewArray")) == 0 {
					if s := firstOf(eq(o, D, "Data", D0), eq(o, C, "Cap", C0)); s != "" {
						return s
					}
					if !o.Facts.Leq(n, C0) {
						return "the length becomes more than the capacity, without a new array"
					}
					return ""
				}
				ns := calls(o, "unsafe_NewArray")
				nw := ns[len(ns)-1]
				if nw.Args[0] != x.R(E.term) {
					return fmt.Sprintf("the new array has elements of type %v", nw.Args[0])
				}
				if s := firstOf(eq(o, D, "Data", nw.Res), eq(o, C, "Cap", nw.Args[1])); s != "" {
					return s
				}
				if !o.Facts.Leq(n, C) {
					if C.Any(func(q *sim.Term) bool { return q.Op == sim.OCall || q.Op == sim.OMin }) {
						return fmt.Sprintf("?the new capacity is %v", C)
					}
					return fmt.Sprintf("the new capacity %v may be less than the new length", C)
				}
				cs := calls(o, "typedslicecopy")
				if len(cs) != 1 {
					if len(cs) == 0 && len(calls(o, "typedmemmove")) == 0 {
						return "the elements are not copied"
					}
					return "?how the elements are copied"
				}
				part := func(v *sim.Term, f string) *sim.Term {
					if v.Op == sim.OStruct {
						s := v.Typ.Underlying().(*types.Struct)
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == f {
								return v.Args[i]
							}
						}
					}
					return T.Nil()
				}
				ca := cs[0].Args
				dst, src := ca[1], ca[2]
				if !o.Facts.Leq(L0, part(dst, "Len")) {
					return fmt.Sprintf("only %v of %v elements are copied", part(dst, "Len"), L0)
				}
				return firstOf(eq(o, ca[0], "the type of the copied elements", x.R(E.term)), eq(o, part(dst, "Data"), "where the elements are copied to", nw.Res), eq(o, part(src, "Data"), "where the elements are copied from", D0), eq(o, part(src, "Len"), "the number of copied elements", L0))
			}
			do(rop{name: "Grow", loops: true, args: []*sim.Term{obj, num}, want: []*sim.Term{P, nil}, check: func(st0, o *sim.State) string { return grown(st0, o, d, num) }})
			do(rop{name: "UnsafeGrow", loops: true, args: []*sim.Term{pa, num}, check: func(st0, o *sim.State) string { return grown(st0, o, pa, num) }})
			app := func(a, e *sim.Term) func(st0, o *sim.State) string {
				return func(st0, o *sim.State) string {
					L0 := hdr(st0, a, "Len")
					return firstOf(grown(st0, o, a, T.Bin(token.ADD, L0, T.Int(1), types.Typ[types.Int])), x.moved(o, E.term, mul(hdr(o, a, "Data"), L0), e))
				}
			}
			do(rop{name: "Append", loops: true, args: []*sim.Term{obj, val}, want: []*sim.Term{P, PE}, check: app(d, dv)})
			do(rop{name: "UnsafeAppend", loops: true, args: []*sim.Term{pa, pb}, check: app(pa, pb)})
		}
	}
	if t.kind == reflect.Map {
		x.maps(t, st, recv, do, obj, val, key, pa, pb, pc)
	}
}

func (x *reflecter) same2(a, b *sim.Term) bool {
	return a.Op == b.Op && len(a.Args) == 2 && (x.same(a.Args[0], b.Args[0]) && x.same(a.Args[1], b.Args[1]) || x.same(a.Args[0], b.Args[1]) && x.same(a.Args[1], b.Args[0]))
}

// plain: a comparison of something read with a constant.
func (x *reflecter) plain(t *sim.Term) bool {
	if t.Op == sim.ONot {
		t = t.Args[0]
	}
	if t.Op != sim.OEq && t.Op != sim.OLt || len(t.Args) != 2 {
		return false
	}
	for k, a := range t.Args {
		b := t.Args[1-k]
		if a.Op == sim.OLoad && (b.Op == sim.ONil || b.IsConst()) {
			return true
		}
	}
	return false
}

// first: t is the interface at a, or its first word.
func firstWord(t, a *sim.Term) bool {
	if t.Op != sim.OLoad {
		return false
	}
	p := t.Args[0]
	return p == a || p.Op == sim.OField && p.Args[0] == a && p.Sub != "data"
}

// nilIface: an interface with methods is nil if its first word is.
func (x *reflecter) nilIface(o *sim.State, a *sim.Term) string {
	T := x.m.T
	if o.Facts.Eval(T.Eq(a, T.Nil())) == sim.True {
		if b, ok := o.Ret.BoolVal(); !ok || !b {
			return "a nil pointer is not nil"
		}
		return ""
	}
	for at, v := range o.Facts.Atoms {
		if at.Op != sim.OEq {
			continue
		}
		for k, w := range at.Args {
			if w.Op == sim.OLoad && (w.Args[0] == a || w.Args[0].Op == sim.OField && w.Args[0].Args[0] == a) && at.Args[1-k].Op == sim.ONil {
				if w.Args[0] != a && w.Args[0].Sub != "itab" {
					return "looks at another word than the first"
				}
				if b, ok := o.Ret.BoolVal(); ok {
					if b != v {
						return fmt.Sprintf("gives %v", b)
					}
					return ""
				}
			}
		}
	}
	if o.Ret.IsConst() {
		return fmt.Sprintf("is %v whether or not the value is nil", o.Ret)
	}
	if o.Ret.Op == sim.OEq && (firstWord(o.Ret.Args[0], a) && o.Ret.Args[1].Op == sim.ONil || firstWord(o.Ret.Args[1], a) && o.Ret.Args[0].Op == sim.ONil) {
		return ""
	}
	if x.plain(o.Ret) || o.Ret.Op == sim.OEq && o.Ret.Any(func(q *sim.Term) bool { return q.Op == sim.OPure && q.Sub == "word1" && firstWord(q.Args[0], a) }) {
		return fmt.Sprintf("gives %v", o.Ret)
	}
	return fmt.Sprintf("?gives %v", o.Ret)
}

// ifaceValue: the value of an interface with methods as interface{}.
func (x *reflecter) ifaceValue(o *sim.State, a *sim.Term) string {
	if o.Ret.Op == sim.ONil {
		for at, v := range o.Facts.Atoms {
			if at.Op == sim.OEq && v && (at.Args[0].Op == sim.ONil || at.Args[1].Op == sim.ONil) && (firstWord(at.Args[0], a) || firstWord(at.Args[1], a) || at.Args[0] == a || at.Args[1] == a) {
				return ""
			}
		}
		return "gives nil although the interface is not known to be nil"
	}
	if o.Ret.Op == sim.OPure && o.Ret.Sub == "packed" {
		w0, w1 := o.Ret.Args[0], o.Ret.Args[1]
		ok0 := w0.Op == sim.OLoad && w0.Args[0].Op == sim.OField && w0.Args[0].Sub == "rtype" && w0.Args[0].Args[0].Any(func(q *sim.Term) bool { return q.Op == sim.OField && q.Args[0] == a && q.Sub == "itab" })
		ok1 := w1.Op == sim.OLoad && w1.Args[0].Op == sim.OField && w1.Args[0].Sub == "data" && w1.Args[0].Args[0] == a
		if ok0 && ok1 {
			return ""
		}
		return fmt.Sprintf("gives an object of type %v at %v", w0, w1)
	}
	return fmt.Sprintf("?gives %v", o.Ret)
}

func (x *reflecter) maps(t *rt, st *sim.State, recv *sim.Term, do func(rop), obj, val, key, pa, pb, pc *sim.Term) {
	T, m := x.m.T, x.m
	upT := types.Typ[types.UnsafePointer]
	P, R, PK, PE := x.P(t.term), x.R(t.term), x.P(t.key.term), x.P(t.elem.term)
	d, dv, dk := x.data(obj), x.data(val), x.data(key)
	eq := func(o *sim.State, got *sim.Term, what string, want *sim.Term) string {
		if x.same(got, want) || o.Facts.Eval(T.Eq(got, want)) == sim.True {
			return ""
		}
		return fmt.Sprintf("%s is %v, not %v", what, got, want)
	}
	call := func(o *sim.State, name string, want ...*sim.Term) (string, *sim.Term) {
		cs := calls(o, name)
		if len(cs) != 1 {
			return fmt.Sprintf("%s is called %d times", name, len(cs)), nil
		}
		for i, w := range want {
			if w != nil && !x.same(cs[0].Args[i], w) {
				return fmt.Sprintf("%s is given %v, not %v", name, cs[0].Args[i], w), nil
			}
		}
		return "", cs[0].Res
	}
	num := T.Param("cap", types.Typ[types.Int])
	madeMap := func(o *sim.State, cell *sim.Term) string {
		s, res := call(o, "makemap", R)
		if s != "" {
			return s
		}
		return eq(o, m.Load(o, cell, upT), "the map", res)
	}
	do(rop{name: "UnsafeMakeMap", args: []*sim.Term{num}, check: func(st0, o *sim.State) string { return madeMap(o, o.Ret) }})
	do(rop{name: "MakeMap", args: []*sim.Term{num}, check: func(st0, o *sim.State) string {
		if o.Ret.Op != sim.OPure || o.Ret.Sub != "packed" {
			return fmt.Sprintf("?gives %v", o.Ret)
		}
		return firstOf(x.isPacked(o.Ret, P, o.Ret.Args[1]), madeMap(o, o.Ret.Args[1]))
	}})
	assign := func(a, k, v *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			s, _ := call(o, "mapassign", R, m.Load(st0, a, upT), k, v)
			return s
		}
	}
	do(rop{name: "SetIndex", args: []*sim.Term{obj, key, val}, want: []*sim.Term{P, PK, PE}, check: assign(d, dk, dv)})
	do(rop{name: "UnsafeSetIndex", args: []*sim.Term{pa, pb, pc}, check: assign(pa, pb, pc)})
	access := func(o, st0 *sim.State, a, k *sim.Term) (string, *sim.Term) {
		return call(o, "mapaccess", R, m.Load(st0, a, upT), k)
	}
	do(rop{name: "GetIndex", args: []*sim.Term{obj, key}, want: []*sim.Term{P, PK}, check: func(st0, o *sim.State) string {
		s, res := access(o, st0, d, dk)
		if s != "" {
			return s
		}
		return x.isPacked(o.Ret, PE, res)
	}})
	do(rop{name: "UnsafeGetIndex", args: []*sim.Term{pa, pb}, check: func(st0, o *sim.State) string {
		s, res := access(o, st0, pa, pb)
		if s != "" {
			return s
		}
		return eq(o, o.Ret, "the element", res)
	}})
	do(rop{name: "TryGetIndex", args: []*sim.Term{obj, key}, want: []*sim.Term{P, PK}, check: func(st0, o *sim.State) string {
		s, res := access(o, st0, d, dk)
		if s != "" {
			return s
		}
		if o.Ret.Op != sim.OTuple {
			return fmt.Sprintf("?gives %v", o.Ret)
		}
		found, ok := o.Ret.Args[1].BoolVal()
		if !ok {
			return fmt.Sprintf("?gives %v", o.Ret)
		}
		if found {
			if !o.Facts.NonNil(res) {
				return "says it found an element without having one"
			}
			return x.isPacked(o.Ret.Args[0], PE, res)
		}
		if !o.Facts.IsNil(res) || o.Ret.Args[0].Op != sim.ONil {
			return fmt.Sprintf("gives %v", o.Ret)
		}
		return ""
	}})
	do(rop{name: "Key", check: func(st0, o *sim.State) string { return x.isTypeOf(o, t.key) }})
	do(rop{name: "Elem", check: func(st0, o *sim.State) string { return x.isTypeOf(o, t.elem) }})
	iter := func(a *sim.Term) func(st0, o *sim.State) string {
		return func(st0, o *sim.State) string {
			cs := calls(o, "mapiterinit")
			if len(cs) != 1 || len(cs[0].Args) < 3 {
				return "?how the iteration starts"
			}
			if !x.same(cs[0].Args[0], R) || !x.same(cs[0].Args[1], m.Load(st0, a, upT)) {
				return fmt.Sprintf("iterates over %v of type %v", cs[0].Args[1], cs[0].Args[0])
			}
			it := cs[0].Args[2]
			o2 := o.Detach()
			k := m.Load(o2, T.Field(it, "key", upT), upT)
			v := m.Load(o2, T.Field(it, "value", upT), upT)
			if k.Op != sim.OLoad || v.Op != sim.OLoad {
				return "?the state of the iteration"
			}
			typ, self := x.dyn(o.Ret)
			if typ == nil {
				return "?what iterates"
			}
			for _, n := range []string{"HasNext", "Next", "UnsafeNext"} {
				fn := x.p.MethodOf(typ, n)
				if fn == nil {
					return "?no " + n
				}
				for _, q := range m.Run(o2.Clone(), fn, []*sim.Term{self}) {
					if q.Panicked {
						return n + " panics"
					}
					if n == "HasNext" {
						if x.same2(q.Ret, T.Eq(k, T.Nil())) {
							return "HasNext is true at the end"
						}
						not := q.Ret.Op == sim.ONot && (q.Ret.Args[0] == T.Eq(k, T.Nil()))
						e := q.Facts.Eval(T.Eq(k, T.Nil()))
						b, isB := q.Ret.BoolVal()
						if !not && !(isB && e != sim.Unknown && b == (e == sim.False)) {
							if isB || x.plain(q.Ret) {
								return fmt.Sprintf("HasNext gives %v", q.Ret)
							}
							return fmt.Sprintf("?HasNext gives %v", q.Ret)
						}
						continue
					}
					if len(calls(q, "mapiternext")) != 1 {
						return fmt.Sprintf("%s advances %d times", n, len(calls(q, "mapiternext")))
					}
					if q.Ret.Op != sim.OTuple {
						return fmt.Sprintf("?%s gives %v", n, q.Ret)
					}
					if n == "Next" {
						if s := firstOf(x.isPacked(q.Ret.Args[0], PK, k), x.isPacked(q.Ret.Args[1], PE, v)); s != "" {
							return n + ": " + s
						}
					} else if s := firstOf(eq(q, q.Ret.Args[0], "the key", k), eq(q, q.Ret.Args[1], "the element", v)); s != "" {
						return n + ": " + s
					}
				}
			}
			return ""
		}
	}
	do(rop{name: "Iterate", args: []*sim.Term{obj}, want: []*sim.Term{P}, check: iter(d)})
	do(rop{name: "UnsafeIterate", args: []*sim.Term{pa}, check: iter(pa)})
}

// isTypeOf: the result wraps t (made, or from the cache).
func (x *reflecter) isTypeOf(o *sim.State, t *rt) string {
	if o.Ret.Any(func(q *sim.Term) bool { return q.Op == sim.OPure && q.Sub == "cached" }) {
		return ""
	}
	typ, self := x.dyn(o.Ret)
	if typ == nil {
		return fmt.Sprintf("?gives %v", o.Ret)
	}
	fn := x.p.MethodOf(typ, "Type1")
	if fn == nil {
		return "?gives something without Type1"
	}
	for _, q := range x.m.Run(o.Detach(), fn, []*sim.Term{self}) {
		if !q.Panicked && q.Ret != t.term {
			return fmt.Sprintf("gives the type %v, not %v", q.Ret, t.term)
		}
	}
	return ""
}

// structs: the fields of a struct with embedded structs.
func (x *reflecter) structs(t *rt, base *sim.State, cfg *sim.Term, type2 *ssa.Function, obj, val, pa, pb *sim.Term) {
	T, m, r := x.m.T, x.m, x.r
	upT := types.Typ[types.UnsafePointer]
	uptr := types.Typ[types.Uintptr]
	add := func(a, b *sim.Term) *sim.Term { return T.Bin(token.ADD, a, b, uptr) }
	m.Unroll = 40
	for _, o := range m.Run(base.Clone(), type2, []*sim.Term{cfg, t.term}) {
		typ, self := x.dyn(o.Ret)
		if o.Panicked || typ == nil {
			continue
		}
		st0 := o.Detach()
		// path of the field, and its type
		type acc struct {
			name string
			path []int
		}
		for _, a := range []acc{{"Field", []int{0}}, {"Field", []int{1}}, {"Field", []int{2}}, {"FieldByName", []int{1}}, {"FieldByNameFunc", []int{2}}, {"FieldByIndex", []int{0}},
			{"FieldByName", []int{1, 0}}, {"FieldByName", []int{1, 1}}, {"FieldByIndex", []int{1, 1}}, {"FieldByNameFunc", []int{1, 1}},
			{"FieldByName", []int{2, 0}}, {"FieldByIndex", []int{2, 1}}} {
			a := a
			ft, owner := t, t
			var steps []func(s *sim.State, p *sim.Term) *sim.Term
			through := false
			for k, i := range a.path {
				if k > 0 && ft.kind == reflect.Ptr {
					ft = ft.elem
					through = true
					steps = append(steps, func(s *sim.State, p *sim.Term) *sim.Term { return m.Load(s, p, upT) })
				}
				owner = ft
				off := x.offset(ft, i)
				steps = append(steps, func(s *sim.State, p *sim.Term) *sim.Term { return add(p, off) })
				ft = ft.fields[i]
			}
			addr := func(s *sim.State, p *sim.Term) *sim.Term {
				for _, f := range steps {
					p = f(s, p)
				}
				return p
			}
			last := a.path[len(a.path)-1]
			x.sf = func(m *sim.Machine, st *sim.State, typ types.Type) *sim.Term {
				index := a.path
				if a.name == "FieldByIndex" {
					index = index[len(index)-1:] // reflect gives the innermost step only
				}
				return x.field(st, typ, owner, last, ft, index)
			}
			what := fmt.Sprintf("%s%v", a.name, a.path)
			fn := x.p.MethodOf(typ, a.name)
			if fn == nil {
				x.lost++
				continue
			}
			st := st0.Clone()
			var arg *sim.Term
			switch a.name {
			case "Field":
				arg = T.Int(int64(a.path[0]))
			case "FieldByIndex":
				arg = m.MakeSlice("path"+fmt.Sprint(a.path), int64(len(a.path)), fn.Params[1].Type())
				for j, n := range a.path {
					m.Store(st, T.Index(arg, T.Int(int64(j)), types.Typ[types.Int]), T.Int(int64(n)), types.Typ[types.Int])
				}
			default:
				arg = T.Param("which", fn.Params[1].Type())
			}
			m.Unroll = 40
			for _, q := range m.Run(st, fn, []*sim.Term{self, arg}) {
				x.done++
				found := sim.True
				if strings.HasPrefix(a.name, "FieldByName") {
					found = q.Facts.Eval(T.Pure("found", types.Typ[types.Bool], arg))
				}
				if found == sim.Unknown && !x.types && !q.Panicked {
					r.Ob("not-found", a.name, false, where(x.p, fn), fmt.Sprintf("gives %v without asking if there is such a field", q.Ret), trace(q)...)
					continue
				}
				if found == sim.False {
					if !x.types {
						r.Ob("not-found", a.name, q.Panicked || q.Ret.Op == sim.ONil, where(x.p, fn), fmt.Sprintf("gives %v if there is no such field", q.Ret), trace(q)...)
					}
					continue
				}
				if q.Panicked {
					if !x.types {
						r.Ob("no-panic", what, false, where(x.p, fn), fmt.Sprintf("panics: %v", q.PanicVal), trace(q)...)
					}
					continue
				}
				if ftyp, _ := x.dyn(q.Ret); ftyp == nil {
					if q.Ret.Op == sim.ONil {
						r.Ob("found", what, x.types, where(x.p, fn), "gives no field although there is one", trace(q)...)
						continue
					}
					x.lost++
					r.Note("%s gives %v", what, q.Ret)
					continue
				}
				s := q.Detach()
				P, PF := x.P(t.term), x.P(ft.term)
				embedded := func(p *sim.Term) func(st0, o *sim.State) bool {
					return func(st0, o *sim.State) bool {
						p := p
						for _, f := range steps {
							p = f(st0, p)
							if p.Op != sim.OLoad {
								continue
							}
							for at, v := range o.Facts.Atoms {
								if v && at.Op == sim.OEq && (x.same(at.Args[0], p) && at.Args[1].Op == sim.ONil || x.same(at.Args[1], p) && at.Args[0].Op == sim.ONil) {
									return true
								}
							}
						}
						return false
					}
				}
				do := func(op rop) {
					if len(op.args) > 0 {
						p := op.args[0]
						if op.want != nil {
							p = x.data(p)
						}
						op.bad = embedded(p)
					}
					x.do(what, s, q.Ret, op)
				}
				d, dv := x.data(obj), x.data(val)
				do(rop{name: "Get", args: []*sim.Term{obj}, want: []*sim.Term{P}, check: func(st0, o *sim.State) string { return x.isPacked(o.Ret, PF, addr(st0, d)) }})
				do(rop{name: "UnsafeGet", args: []*sim.Term{pa}, check: func(st0, o *sim.State) string {
					if !x.same(o.Ret, addr(st0, pa)) {
						return fmt.Sprintf("gives %v, not %v", o.Ret, addr(st0, pa))
					}
					return ""
				}})
				do(rop{name: "Set", args: []*sim.Term{obj, val}, want: []*sim.Term{P, PF}, check: func(st0, o *sim.State) string { return x.moved(o, ft.term, addr(st0, d), dv) }})
				do(rop{name: "UnsafeSet", args: []*sim.Term{pa, pb}, check: func(st0, o *sim.State) string { return x.moved(o, ft.term, addr(st0, pa), pb) }})
				do(rop{name: "Type", check: func(st0, o *sim.State) string { return x.isTypeOf(o, ft) }})
				if !through {
					do(rop{name: "Offset", check: func(st0, o *sim.State) string {
						if !x.same(o.Ret, addr(st0, T.Nil())) {
							return fmt.Sprintf("gives %v, not %v", o.Ret, addr(st0, T.Nil()))
						}
						return ""
					}})
				}
			}
			x.sf = nil
		}
	}
}
