package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C18", "Two-phase path simulation of jsonfmt: phase 1 runs the maker of encoders for every kind of type (reflect2 calls are uninterpreted functions of the type, the kind is fixed); phase 2 runs Encode of the encoder made, from the state phase 1 ended in. What is appended to the space is compared with the encoding the value has to have: scalars are read with the width and signedness of their kind and written as their decimal text, strings escaped, nil as null, pointers and interfaces through the encoder of the type they refer to; makers are checked for caching under the type and for eager recursion.", func(p *sim.Program, r *Report) { checkEnc(p, r, "C18") })
	register("C23", "The same two phases for slices, arrays, structs and maps: for 0 to 3 elements (fields, entries) every path is followed exactly and the appended text compared with the JSON array or object, for any number an arbitrary iteration is checked (element i, separator, exit only at the end); names of fields are compared with the exported name or the name in the tag.", func(p *sim.Program, r *Report) { checkEnc(p, r, "C23") })
}

type encSpec struct {
	*jenc
	fn    *ssa.Function
	class string
	what  string
	c     choice
	loads bool
	space *sim.Term
	ptr   *sim.Term
}

var scalarKinds = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.String}

func intKind(k reflect.Kind) (bits int, signed, ok bool) {
	switch k {
	case reflect.Int, reflect.Int64:
		return 64, true, true
	case reflect.Int8:
		return 8, true, true
	case reflect.Int16:
		return 16, true, true
	case reflect.Int32:
		return 32, true, true
	case reflect.Uint, reflect.Uint64, reflect.Uintptr:
		return 64, false, true
	case reflect.Uint8:
		return 8, false, true
	case reflect.Uint16:
		return 16, false, true
	case reflect.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isComposite(k reflect.Kind) bool {
	switch k {
	case reflect.Slice, reflect.Array, reflect.Struct, reflect.Map:
		return true
	}
	return false
}

func (j *jenc) scenarios() []scenario {
	var out []scenario
	for _, k := range scalarKinds {
		out = append(out, scenario{kind: k})
	}
	out = append(out, scenario{kind: reflect.Slice, bytes: 1})
	for _, impl := range []string{"", "error", "marshaler"} {
		for _, k := range []reflect.Kind{reflect.Ptr, reflect.Map} {
			out = append(out, scenario{kind: k, impl: impl, like: 1})
		}
		for _, k := range []reflect.Kind{reflect.Slice, reflect.Interface} {
			out = append(out, scenario{kind: k, impl: impl})
		}
		for _, k := range []reflect.Kind{reflect.Array, reflect.Struct} {
			out = append(out, scenario{kind: k, impl: impl}, scenario{kind: k, impl: impl, like: 1})
		}
		if impl != "" {
			out = append(out, scenario{kind: reflect.Int, impl: impl}, scenario{kind: reflect.String, impl: impl})
		}
	}
	for _, k := range []reflect.Kind{reflect.Complex64, reflect.Complex128, reflect.UnsafePointer} {
		out = append(out, scenario{kind: k})
	}
	for _, k := range []reflect.Kind{reflect.Chan, reflect.Func} {
		out = append(out, scenario{kind: k, like: 1})
	}
	return out
}

func checkEnc(p *sim.Program, r *Report, prop string) {
	r.Assumptions = []string{"reflect2 describes types as the reflect package does (C19, C20)", "jsonfmt extensions are outside the property", "MarshalJSON of a user type returns valid JSON"}
	j := newJenc(p, r)
	if j == nil {
		return
	}
	j.prop = prop
	var work []*ssa.Function
	for _, n := range []string{"EncoderOf", "EncoderOfObject"} {
		fn := j.apiMethod(n)
		if !r.Need(fn != nil, "jsonfmt.API."+n) {
			return
		}
		work = append(work, fn)
	}
	done := map[*ssa.Function]bool{}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		if done[fn] {
			continue
		}
		done[fn] = true
		cl := "data"
		if fn != j.apiMethod("EncoderOf") && fn != j.apiMethod("EncoderOfObject") {
			cl = j.class(fn)
		}
		switch cl {
		case "":
			r.Note("what the encoders made by %s expect is not known", short(fn.String()))
			continue
		case "key":
			if prop == "C23" {
				j.keys(fn)
			}
		default:
			for _, s := range j.scenarios() {
				j.maker(fn, cl, s)
			}
		}
		for f := range j.makers {
			if !done[f] {
				work = append(work, f)
			}
		}
	}
	if prop == "C18" {
		j.nilObject()
		j.packageFuncs()
	}
	r.Absorb(j.m)
}

func (j *jenc) loose() { j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter = 0, true, 1 }
func (j *jenc) exact() { j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter = 8, false, 2 }

// maker checks the encoders fn makes for one kind of type.
func (j *jenc) maker(fn *ssa.Function, class string, s scenario) {
	mine := isComposite(s.kind) && s.impl == "" && s.bytes == 0
	if mine != (j.prop == "C23") {
		return
	}
	for _, dyn := range j.dyn[s.kind] {
		ns := []int64{-1}
		if mine && s.kind != reflect.Map {
			ns = []int64{0, 1, 2, 3}
			if s.like == 1 {
				ns = []int64{1}
			}
		}
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 500*time.Millisecond && os.Getenv("PLZSA_TIME") != "" {
				fmt.Fprintln(os.Stderr, short(fn.String()), s.String(), d)
			}
		}()
		what := s.String()
		if class == "data" {
			what = "object of type " + what
		}
		for _, n := range ns {
			sc := s
			sc.n = n
			j.use(&sc, dyn)
			j.exact()
			j.m.Cut = 0
			cs := j.choose(fn, what)
			j.r.Ob("encoder-chosen", what, len(cs) > 0, where(j.p, fn), "no encoder is made for "+what)
			seen := map[string]bool{}
			for _, c := range cs {
				j.madeRight(fn, class, what, c)
				if !mine {
					key := c.enc.Obj.(types.Type).String() + fmt.Sprint(len(c.st.Facts.Atoms))
					if seen[key] {
						continue
					}
					seen[key] = true
				}
				e := &encSpec{jenc: j, fn: fn, class: class, what: what, c: c}
				if !mine {
					key := fmt.Sprint(sc.kind, sc.impl, sc.like, sc.bytes, dyn, class == "data" && sc.like == 1, j.encKey(c))
					if j.ran[key] {
						e.good("same-encoder")
						continue
					}
					j.ran[key] = true
				}
				e.run()
				e.cacheHit()
			}
		}
		if mine {
			sc := s
			sc.n = -1
			j.use(&sc, dyn)
			(&encSpec{jenc: j, fn: fn, class: class, what: what}).anyLength()
		}
		if j.prop == "C18" || mine {
			j.hit(fn, class, what, s, dyn)
		}
	}
}

// encKey: what Encode depends on, the encoder and the fields of the value it
// points to.
func (j *jenc) encKey(c choice) string {
	ty := c.enc.Obj.(types.Type)
	key := fmt.Sprint(ty, c.meth)
	x := c.enc.Args[0]
	if pt, ok := ty.Underlying().(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				key += fmt.Sprint("|", j.m.Load(c.st, j.m.T.Field(x, f.Name(), f.Type()), f.Type()).ID)
			}
			return key
		}
	}
	return key + fmt.Sprint("|", x.ID)
}

// hit: a cached encoder is one kept for this type.
func (j *jenc) hit(fn *ssa.Function, class, what string, s scenario, dyn types.Type) {
	s.hit, s.n = true, -1
	j.use(&s, dyn)
	j.loose()
	defer j.exact()
	j.phase2 = false
	m := j.m
	args := m.Params(fn, "mk.")
	st := j.start()
	for i, q := range fn.Params {
		if j.isCfg(q.Type()) {
			args[i] = j.cfg
		}
	}
	if i := j.typeParam(fn); i >= 0 {
		args[i] = s.val
	} else if i := j.objParam(fn); i >= 0 {
		j.scen.obj = args[i]
		st.Facts.Assert(m.T.Eq(args[i], m.T.Nil()), false)
	}
	m.MaxSteps = m.Steps + 3000000
	for _, o := range m.Run(st, fn, args) {
		if o.Panicked || o.Ret == nil {
			continue
		}
		e := stripAssert(stripIface(o.Ret))
		if e.Op != sim.OPure || e.Sub != "cached" {
			continue
		}
		k := e.Args[1]
		ok := k.Op == sim.OPure && k.Sub == "RType" && subj(k.Args[0]) == s.subj
		j.r.Ob("cache-key", what, ok, where(j.p, fn), fmt.Sprintf("the cached encoder is looked up by %v, not by the type", k), trace(o)...)
		j.cacheClass(e.Args[0], class, what, fn, o)
	}
}

// cacheClass: the encoders in a cache all expect the same.
func (j *jenc) cacheClass(cache *sim.Term, class, what string, fn *ssa.Function, o *sim.State) {
	if old := j.caches[cache]; old != "" && old != class {
		j.r.Ob("cache-holds-one-sort", what, false, where(j.p, fn), fmt.Sprintf("encoders that expect %s and encoders that expect %s share a cache", expects(old), expects(class)), trace(o)...)
		return
	}
	j.caches[cache] = class
	j.r.Ob("cache-holds-one-sort", what, true, "", "")
}

func expects(class string) string {
	switch class {
	case "addr":
		return "the address of a value"
	case "data":
		return "the data word of an interface"
	}
	return "the address of a map key"
}

// madeRight checks what making an encoder did besides: caching, recursion.
func (j *jenc) madeRight(fn *ssa.Function, class, what string, c choice) {
	o := c.st
	T := j.m.T
	stored := false
	for _, ev := range o.Trace {
		if ev.Kind != "call" {
			continue
		}
		if isCache(ev.Callee, "Store") {
			stored = true
			_, recv, args := method(ev)
			if len(args) != 2 || recv == nil {
				continue
			}
			k := stripIface(args[0])
			ok := k.Op == sim.OPure && k.Sub == "RType" && subj(k.Args[0]) == j.scen.subj
			j.r.Ob("cache-key", what, ok, sim.PosOf(ev.Instr), fmt.Sprintf("the encoder is kept under %v, not under its type", k), trace(o)...)
			if stripIface(args[1]) == stripIface(o.Ret) {
				j.cacheClass(cacheID(recv), class, what, fn, o)
			} else if stripIface(args[1]).Op == sim.OAlloc {
				j.r.Ob("cache-value", what, false, sim.PosOf(ev.Instr), fmt.Sprintf("another encoder (%v) is kept than the one returned (%v)", args[1], o.Ret), trace(o)...)
			}
			continue
		}
		ci, ok := ev.Instr.(ssa.CallInstruction)
		if !ok || stored {
			continue
		}
		callee := ci.Common().StaticCallee()
		if callee == nil || !j.makesEncoder(callee) {
			continue
		}
		i := j.typeParam(callee)
		if i < 0 || i >= len(ev.Args) {
			continue
		}
		t := subj(ev.Args[i])
		if t.Op != sim.OPure || t.Sub != "Elem" || t.Args[0] != j.scen.subj {
			continue
		}
		if k := j.scen.kind; k != reflect.Ptr && k != reflect.Slice && k != reflect.Map {
			continue
		}
		// made at once: the element may be of a type that contains this one
		if !j.lazy(callee) {
			open := false
			kt := T.Pure("Kind", kindType(o, t), t)
			for _, k := range []reflect.Kind{reflect.Ptr, reflect.Slice, reflect.Struct, reflect.Map} {
				if o.Facts.Eval(T.Eq(kt, T.Const(constInt(int64(k)), kt.Typ))) != sim.False {
					open = true
				}
			}
			j.r.Ob("no-endless-making", what, !open, sim.PosOf(ev.Instr), "the encoder of the element is made at once, whatever the element is: a type that contains itself overflows the stack", trace(o)...)
		} else {
			j.r.Ob("no-endless-making", what, true, "", "")
		}
	}
}

// kindType finds the type of Kind results on the path.
func kindType(o *sim.State, t *sim.Term) types.Type {
	var out types.Type
	for a := range o.Facts.Atoms {
		a.Any(func(x *sim.Term) bool {
			if x.Op == sim.OPure && x.Sub == "Kind" && x.Args[0] == t {
				out = x.Typ
			}
			return false
		})
	}
	return out
}

// lazy: the function does not make the encoder of a composite type (one that
// may contain itself) at once.
func (j *jenc) lazy(fn *ssa.Function) bool {
	if v, ok := j.lazies[fn]; ok {
		return v
	}
	if j.lazies == nil {
		j.lazies = map[*ssa.Function]bool{}
	}
	j.lazies[fn] = false
	saved, rr, ph := j.scen, j.r, j.phase2
	su, sa, sm := j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter
	defer func() {
		j.scen, j.r, j.phase2 = saved, rr, ph
		j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter = su, sa, sm
	}()
	j.r = newReport("scratch")
	ok := true
	for _, k := range []reflect.Kind{reflect.Ptr, reflect.Slice, reflect.Struct, reflect.Map} {
		s := &scenario{kind: k, n: 1}
		if k == reflect.Ptr || k == reflect.Map {
			s.like = 1
		}
		j.use(s, j.dyn[k][0])
		j.exact()
		for _, c := range j.choose(fn, "lazy") {
			for _, ev := range c.st.Trace {
				ci, isCall := ev.Instr.(ssa.CallInstruction)
				if ev.Kind != "call" || !isCall {
					continue
				}
				callee := ci.Common().StaticCallee()
				if isCache(ev.Callee, "Store") {
					break
				}
				if callee != nil && j.makesEncoder(callee) {
					ok = false
				}
			}
		}
	}
	j.lazies[fn] = ok
	return ok
}

// ---- phase 2 ----

func (e *encSpec) bad(rule string, o *sim.State, format string, a ...interface{}) {
	e.r.Ob(rule, e.what, false, where(e.p, e.c.meth), fmt.Sprintf(format, a...), trace(o)...)
}

func (e *encSpec) good(rule string) { e.r.Ob(rule, e.what, true, "", "") }

// dataWord: the pointer given is the value itself.
func (e *encSpec) dataWord() bool { return e.class == "data" && e.scen.like == 1 }

// isAddr: t is the address of the value.
func (e *encSpec) isAddr(o *sim.State, t *sim.Term) bool {
	if !e.dataWord() {
		return t == e.ptr
	}
	return t.Op == sim.OAlloc && e.m.Load(o, t, types.Typ[types.UnsafePointer]) == e.ptr
}

// word: the first word of the value.
func (e *encSpec) word(st *sim.State) *sim.Term {
	if e.dataWord() {
		return e.ptr
	}
	return e.m.Load(st, e.ptr, types.Typ[types.UnsafePointer])
}

// delegated: the encoding is left to another encoder of the same type.
func (e *encSpec) delegated(o *sim.State, its []item) bool {
	if len(its) != 1 || its[0].ev == nil {
		return false
	}
	_, enc, as := method(its[0].ev)
	ch := e.childOf(o, enc)
	if ch == nil || ch.typ != e.scen.subj {
		return false
	}
	e.childCfg(o, ch)
	ok := ch.class == e.class && as[2] == e.ptr || ch.class == "addr" && e.isAddr(o, as[2])
	if ch.class != "" {
		e.r.Ob("value-of-the-type", e.what, ok, sim.PosOf(its[0].ev.Instr), fmt.Sprintf("the encoder that expects %s is given %v", expects(ch.class), as[2]), trace(o)...)
	}
	return true
}

func (e *encSpec) childCfg(o *sim.State, ch *child) {
	e.r.Ob("same-configuration", e.what, ch.cfg, where(e.p, e.c.meth), "the encoder of a part is made with another configuration", trace(o)...)
}

// part checks an item that has to be the encoding of a part: the value of
// type typ at address addr.
func (e *encSpec) part(o *sim.State, it item, typ *sim.Term, addrOK func(t *sim.Term) (ok, known bool), what string) bool {
	if it.ev == nil {
		e.bad("parts", o, "%s: %v is written instead of %s", e.what, it, what)
		return false
	}
	_, enc, as := method(it.ev)
	ch := e.childOf(o, enc)
	if ch == nil {
		e.r.Note("%s: the encoder %v of %s is not known", e.what, enc, what)
		return true
	}
	e.childCfg(o, ch)
	if typ != nil && ch.typ != nil {
		if !e.r.Ob("value-of-the-type", e.what, ch.typ == typ, sim.PosOf(it.ev.Instr), fmt.Sprintf("%s is encoded by the encoder of %v instead of %v", what, ch.typ, typ), trace(o)...) {
			return false
		}
	}
	if ch.class != "addr" && ch.class != "" {
		e.r.Ob("value-of-the-type", e.what, false, sim.PosOf(it.ev.Instr), fmt.Sprintf("%s is encoded by an encoder that expects %s", what, expects(ch.class)), trace(o)...)
		return false
	}
	ok, known := addrOK(as[2])
	if !known {
		e.r.Note("%s: the address %v of %s is not known", e.what, as[2], what)
		return true
	}
	return e.r.Ob("parts", e.what, ok, sim.PosOf(it.ev.Instr), fmt.Sprintf("%s is taken from %v", what, as[2]), trace(o)...)
}

func (e *encSpec) outcomes(prep func(st *sim.State)) []*sim.State {
	st, args, space, ptr := e.encodeArgs(e.c)
	e.space, e.ptr = space, ptr
	if prep != nil {
		prep(st)
	}
	var out []*sim.State
	for _, o := range e.m.Run(st, e.c.meth, args) {
		if o.Panicked {
			e.bad("no-panic", o, "encoding %s panics: %v", e.what, o.Ret)
			continue
		}
		e.cached(o)
		out = append(out, o)
	}
	return out
}

// cached checks the encoders kept in caches while encoding.
func (e *encSpec) cached(o *sim.State) {
	for _, ev := range o.Trace {
		if ev.Kind != "call" {
			continue
		}
		if isCache(ev.Callee, "Load") {
			e.loads = true
		}
		if !isCache(ev.Callee, "Store") {
			continue
		}
		_, recv, args := method(ev)
		if len(args) != 2 || recv == nil {
			continue
		}
		ch := e.childOf(o, args[1])
		if ch == nil || ch.class == "" || ch.typ == nil {
			continue
		}
		k := stripIface(args[0])
		e.r.Ob("cache-key", e.what, k.Op == sim.OPure && k.Sub == "RType" && subj(k.Args[0]) == ch.typ, sim.PosOf(ev.Instr), fmt.Sprintf("the encoder of %v is kept under %v", ch.typ, k), trace(o)...)
		e.cacheClass(cacheID(recv), ch.class, e.what, e.c.meth, o)
	}
}

// cacheHit: an encoder found in a cache while encoding is that of the type.
func (e *encSpec) cacheHit() {
	if !e.loads || e.scen.impl != "" || e.scen.kind == reflect.Interface {
		return
	}
	s := *e.scen
	s.hit = true
	e.scen = &s
	e.loose()
	defer e.exact()
	for _, o := range e.outcomes(nil) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok || len(its) != 1 || its[0].ev == nil {
			continue
		}
		_, enc, _ := method(its[0].ev)
		x := stripAssert(stripIface(enc))
		if x.Op != sim.OPure || x.Sub != "cached" {
			continue
		}
		k := x.Args[1]
		e.r.Ob("cache-key", e.what, k.Op == sim.OPure && k.Sub == "RType" && subj(k.Args[0]) == e.scen.subj, where(e.p, e.c.meth), fmt.Sprintf("the cached encoder is looked up by %v, not by the type", k), trace(o)...)
		e.delegated(o, its)
	}
}

// unwritten: the text is not what was appended to the space given.
func (e *encSpec) unwritten(o *sim.State) {
	if o.Ret != nil && !o.Ret.Contains(e.space) && !o.Ret.Any(func(x *sim.Term) bool { return x.Op == sim.OSym }) {
		e.bad("appended", o, "%v is returned, nothing is appended to the space given", o.Ret)
	}
}

func (e *encSpec) null(rule string, prep func(st *sim.State)) {
	n := 0
	for _, o := range e.outcomes(prep) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: nil is written as %v", e.what, o.Ret)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		n++
		if len(its) == 1 && its[0].lit == "null" {
			e.good(rule)
		} else {
			e.bad(rule, o, "%s: nil is encoded as %v instead of null", e.what, its)
		}
	}
}

func (e *encSpec) run() {
	T := e.m.T
	s := e.scen
	e.exact()
	e.space, e.ptr = T.Param("enc."+e.c.meth.Params[2].Name(), e.c.meth.Params[2].Type()), T.Param("enc."+e.c.meth.Params[3].Name(), e.c.meth.Params[3].Type())
	switch {
	case s.impl != "":
		e.implementer()
		return
	case s.bytes == 1:
		e.text(escJSONBytes, types.NewSlice(types.Typ[types.Uint8]))
		return
	}
	if bits, signed, ok := intKind(s.kind); ok {
		e.integer(bits, signed)
		return
	}
	switch s.kind {
	case reflect.Bool:
		for _, o := range e.outcomes(nil) {
			its, ok := e.items(o, o.Ret, e.space)
			if !ok || e.delegated(o, its) {
				continue
			}
			v := e.loaded(o, types.Bool)
			if v == nil {
				continue
			}
			want := ""
			switch o.Facts.Eval(v) {
			case sim.True:
				want = "true"
			case sim.False:
				want = "false"
			}
			if want == "" || len(its) != 1 || its[0].lit != want {
				e.bad("scalar", o, "the bool that is %s is encoded as %v", want, its)
			} else {
				e.good("scalar")
			}
		}
	case reflect.Float32, reflect.Float64:
		e.m.Unroll, e.m.AbstractFirst, e.m.MaxIter = 0, true, 1
		want := types.Float64
		if s.kind == reflect.Float32 {
			want = types.Float32
		}
		for _, o := range e.outcomes(nil) {
			if its, ok := e.items(o, o.Ret, e.space); ok && e.delegated(o, its) {
				continue
			}
			e.loaded(o, want)
		}
	case reflect.String:
		e.text(escJSON, types.Typ[types.String])
	case reflect.Ptr:
		e.pointer()
	case reflect.Interface:
		e.iface()
	case reflect.Slice, reflect.Array:
		e.list()
	case reflect.Struct:
		e.structure()
	case reflect.Map:
		e.mapping()
	default:
		e.unsupported()
	}
}

// loaded: all that is read at the address is one value of the basic type.
func (e *encSpec) loaded(o *sim.State, want types.BasicKind) *sim.Term {
	loads := map[*sim.Term]bool{}
	see := func(t *sim.Term) {
		if t == nil {
			return
		}
		t.Any(func(x *sim.Term) bool {
			if x.Op == sim.OLoad && x.Args[0] == e.ptr {
				loads[x] = true
			}
			return false
		})
	}
	see(o.Ret)
	for a := range o.Facts.Atoms {
		see(a)
	}
	for _, ev := range o.Trace {
		for _, a := range ev.Args {
			see(a)
		}
	}
	var out *sim.Term
	for l := range loads {
		b, ok := l.Typ.Underlying().(*types.Basic)
		if !ok {
			e.r.Note("%s: read as %v", e.what, l.Typ)
			return nil
		}
		eq := basicEq(b.Kind(), want)
		e.r.Ob("read-as-its-kind", e.what, eq, where(e.p, e.c.meth), fmt.Sprintf("the %s is read as %s", e.scen.kind, b), trace(o)...)
		if !eq {
			return nil
		}
		out = l
	}
	return out
}

func basicEq(a, b types.BasicKind) bool {
	n := func(k types.BasicKind) types.BasicKind {
		switch k {
		case types.Int:
			return types.Int64
		case types.Uint, types.Uintptr:
			return types.Uint64
		}
		return k
	}
	return n(a) == n(b)
}

func (e *encSpec) integer(bits int, signed bool) {
	e.m.Unroll = 0
	e.m.AbstractFirst, e.m.MaxIter = false, 2
	want := map[int]types.BasicKind{8: types.Int8, 16: types.Int16, 32: types.Int32, 64: types.Int64}[bits]
	if !signed {
		want = map[int]types.BasicKind{8: types.Uint8, 16: types.Uint16, 32: types.Uint32, 64: types.Uint64}[bits]
	}
	var n *sim.Term
	var outs []*sim.State
	for _, o := range e.outcomes(nil) {
		if its, ok := e.items(o, o.Ret, e.space); ok && e.delegated(o, its) {
			continue
		}
		if l := e.loaded(o, want); l != nil {
			n = l
			outs = append(outs, o)
		}
	}
	if n == nil {
		return
	}
	d := &decEnv{p: e.p, m: e.m, ts: newTables(e.p, e.m), n: n, bits: bits, signed: signed}
	d.check(e.r, e.what, where(e.p, e.c.meth), outs, e.space)
}

// escaped: from the given facts on, what is written is the escaped text.
func (e *encSpec) escaped(mode *escMode, str *sim.Term, prep func(st *sim.State)) {
	st, args, space, _ := e.encodeArgs(e.c)
	if prep != nil {
		prep(st)
	}
	m := e.m
	m.Unroll, m.AbstractFirst, m.MaxIter = 0, true, 1
	arrive, header := m.OnArrive, m.OnHeader
	defer func() { m.OnArrive, m.OnHeader = arrive, header; e.exact() }()
	x := &escRun{p: e.p, m: m, ts: newTables(e.p, m), mode: mode, str: str, space: space}
	sub := newReport("scratch")
	x.check(sub, e.what, where(e.p, e.c.meth), e.c.meth, st, args)
	e.r.Merge(sub)
}

func (e *encSpec) text(mode *escMode, typ types.Type) {
	e.m.Unroll, e.m.AbstractFirst, e.m.MaxIter = 0, true, 1
	outs := e.outcomes(nil)
	for _, o := range outs {
		if its, ok := e.items(o, o.Ret, e.space); ok && e.delegated(o, its) {
			return
		}
	}
	if _, ok := typ.(*types.Basic); ok {
		for _, o := range outs {
			e.loaded(o, types.String)
		}
	}
	st, _, _, ptr := e.encodeArgs(e.c)
	e.escaped(mode, e.m.Load(st, ptr, typ), nil)
}

// implementer: errors and json.Marshalers.
func (e *encSpec) implementer() {
	T := e.m.T
	s := e.scen
	e.loose()
	defer e.exact()
	// the interface value made from the value
	var obj, at *sim.Term
	for _, o := range e.outcomes(nil) {
		if its, ok := e.items(o, o.Ret, e.space); ok && e.delegated(o, its) {
			return
		}
		see := func(t *sim.Term) {
			if t == nil {
				return
			}
			t.Any(func(x *sim.Term) bool {
				if x.Op == sim.OPure && (x.Sub == "UnsafeIndirect" || x.Sub == "Indirect") {
					if x.Args[0] == s.subj {
						obj, at = x, x.Args[1]
					} else {
						e.bad("value-of-the-type", o, "the value is taken as one of type %v", x.Args[0])
					}
				}
				return false
			})
		}
		for a := range o.Facts.Atoms {
			see(a)
		}
		for _, ev := range o.Trace {
			see(ev.Recv)
			for _, a := range ev.Args {
				see(a)
			}
		}
		if at != nil {
			e.r.Ob("value-of-the-type", e.what, e.isAddr(o, at), where(e.p, e.c.meth), fmt.Sprintf("the value is taken from %v", at), trace(o)...)
		}
	}
	if obj == nil {
		e.r.Note("%s: the value is not found", e.what)
		return
	}
	nilPtr := T.Pure("IsNil", types.Typ[types.Bool], obj)
	present := func(st *sim.State) {
		st.Facts.Assert(T.Eq(obj, T.Nil()), false)
		st.Facts.Assert(nilPtr, false)
	}
	if s.kind == reflect.Interface {
		e.null("nil-is-null", func(st *sim.State) { st.Facts.Assert(T.Eq(obj, T.Nil()), true) })
	}
	if s.kind == reflect.Ptr {
		// the value converted to an interface is never nil, what it holds may be
		e.null("nil-is-null", func(st *sim.State) {
			st.Facts.Assert(T.Eq(obj, T.Nil()), false)
			st.Facts.Assert(nilPtr, true)
			e.dynKind(st, obj, reflect.Ptr)
		})
	}
	prep := func(st *sim.State) {
		present(st)
		if s.kind != reflect.Interface {
			e.dynKind(st, obj, s.kind)
		}
	}
	asErr := func(o *sim.State) *sim.Term {
		var out *sim.Term
		for _, ev := range o.Trace {
			if ev.Kind == "call" && ev.Res != nil {
				ev.Res.Any(func(x *sim.Term) bool {
					if x.Op == sim.OPure && (x.Sub == "Error" || x.Sub == "MarshalJSON" || x.Sub == "MarshalJSON.err") && stripAssert(x.Args[0]) == obj {
						out = x
					}
					return false
				})
			}
		}
		return out
	}
	var res *sim.Term
	for _, o := range e.outcomes(prep) {
		x := asErr(o)
		if x == nil {
			its, _ := e.items(o, o.Ret, e.space)
			e.bad("text-of-the-value", o, "the value is not asked for its text, %v is written", its)
			continue
		}
		res = x
	}
	if res == nil {
		return
	}
	if s.impl == "error" {
		if res.Sub != "Error" {
			e.r.Note("%s: encoded by %s", e.what, res.Sub)
			return
		}
		e.escaped(escJSON, res, prep)
		return
	}
	rec := res.Args[0]
	e.loose()
	buf := T.Pure("MarshalJSON", types.NewSlice(types.Typ[types.Uint8]), rec)
	err := T.Pure("MarshalJSON.err", types.Universe.Lookup("error").Type(), rec)
	for _, o := range e.outcomes(func(st *sim.State) { prep(st); st.Facts.Assert(T.Eq(err, T.Nil()), true) }) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if len(its) == 1 && its[0].spr && content(its[0].t) == buf {
			e.good("text-of-the-value")
		} else {
			e.bad("text-of-the-value", o, "%v is written instead of what MarshalJSON returned", its)
		}
	}
	e.escaped(escJSON, T.Pure("Error", types.Typ[types.String], err), func(st *sim.State) { prep(st); st.Facts.Assert(T.Eq(err, T.Nil()), false) })
}

// dynKind fixes the kind of the type an interface value holds.
func (e *encSpec) dynKind(st *sim.State, obj *sim.Term, k reflect.Kind) {
	T := e.m.T
	kt := e.kindT
	if kt == nil {
		return
	}
	st.Facts.Assert(T.Eq(T.Pure("Kind", kt, T.Pure("TypeOf", e.t2, obj)), T.Const(constInt(int64(k)), kt)), true)
}

func (e *encSpec) pointer() {
	T := e.m.T
	st, _, _, ptr := e.encodeArgs(e.c)
	e.ptr = ptr
	v := e.word(st)
	e.null("nil-is-null", func(st *sim.State) { st.Facts.Assert(T.Eq(v, T.Nil()), true) })
	for _, o := range e.outcomes(func(st *sim.State) { st.Facts.Assert(T.Eq(v, T.Nil()), false) }) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		if len(its) != 1 {
			e.bad("parts", o, "%v is written for a pointer", its)
			continue
		}
		e.part(o, its[0], e.of("Elem"), func(t *sim.Term) (bool, bool) { return t == v, true }, "what it points to")
	}
}

func (e *encSpec) iface() {
	T := e.m.T
	var obj *sim.Term
	for _, o := range e.outcomes(nil) {
		for _, ev := range o.Trace {
			ev := ev
			for _, a := range append(append([]*sim.Term{}, ev.Args...), ev.Recv) {
				if a == nil {
					continue
				}
				a.Any(func(x *sim.Term) bool {
					if x.Op == sim.OPure && x.Sub == "UnsafeIndirect" {
						obj = x
					}
					return false
				})
			}
		}
	}
	if obj == nil {
		for _, o := range e.outcomes(nil) {
			if its, ok := e.items(o, o.Ret, e.space); ok && !e.delegated(o, its) {
				e.r.Note("%s: %v is written", e.what, its)
			}
		}
		return
	}
	e.null("nil-is-null", func(st *sim.State) { st.Facts.Assert(T.Eq(obj, T.Nil()), true) })
	for _, o := range e.outcomes(func(st *sim.State) { st.Facts.Assert(T.Eq(obj, T.Nil()), false) }) {
		e.r.Ob("value-of-the-type", e.what, obj.Args[0] == e.scen.subj && e.isAddr(o, obj.Args[1]), where(e.p, e.c.meth), fmt.Sprintf("the value is taken as %v", obj), trace(o)...)
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		if len(its) != 1 || its[0].ev == nil {
			e.bad("parts", o, "%v is written for a value in an interface", its)
			continue
		}
		_, enc, as := method(its[0].ev)
		ch := e.childOf(o, enc)
		if ch == nil {
			e.r.Note("%s: the encoder %v is not known", e.what, enc)
			continue
		}
		e.childCfg(o, ch)
		e.held(o, its[0].ev, ch, as[2], obj, "data")
	}
}

// held: the value an interface holds is encoded by the encoder of its type
// and given as that encoder expects it.
func (e *encSpec) held(o *sim.State, ev *sim.Event, ch *child, p, obj *sim.Term, data string) {
	T := e.m.T
	e.r.Ob("value-of-the-type", e.what, ch.obj == obj, sim.PosOf(ev.Instr), fmt.Sprintf("the value in the interface is encoded by the encoder of %v", ch.typ), trace(o)...)
	word := T.Pure("PtrOf", types.Typ[types.UnsafePointer], obj)
	cell := p.Op == sim.OAlloc && e.m.Load(o, p, types.Typ[types.UnsafePointer]) == word
	if ch.class == data {
		e.r.Ob("parts", e.what, p == word, sim.PosOf(ev.Instr), fmt.Sprintf("the value is taken from %v", p), trace(o)...)
		return
	}
	if ch.class == "" {
		return
	}
	// an encoder of values: pointer-shaped values are in the word itself
	like := T.Pure("LikePtr", types.Typ[types.Bool], T.Pure("TypeOf", e.t2, obj))
	ok := false
	switch o.Facts.Eval(like) {
	case sim.True:
		ok = cell
	case sim.False:
		ok = p == word
	}
	e.r.Ob("parts", e.what, ok, sim.PosOf(ev.Instr), fmt.Sprintf("the value is taken from %v, the encoder expects %s", p, expects(ch.class)), trace(o)...)
}

func (e *encSpec) unsupported() {
	// the text of the encoder
	var str *sim.Term
	e.m.Unroll, e.m.AbstractFirst, e.m.MaxIter = 0, true, 1
	for _, o := range e.outcomes(nil) {
		if its, ok := e.items(o, o.Ret, e.space); ok && e.delegated(o, its) {
			return
		}
	}
	enc := e.c.enc.Args[0]
	if pt, ok := e.c.enc.Obj.(types.Type).Underlying().(*types.Pointer); ok && !e.dataWord() {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					str = e.m.Load(e.c.st, e.m.T.Field(enc, st.Field(i).Name(), st.Field(i).Type()), st.Field(i).Type())
				}
			}
		}
	}
	if str != nil && !str.IsConst() {
		e.escaped(escJSON, str, nil)
		return
	}
	if str == nil && !e.dataWord() {
		e.r.Note("%s: what is written is not known", e.what)
	}
}

// of: a type derived from the type of the value.
func (e *encSpec) of(name string, args ...*sim.Term) *sim.Term {
	return e.m.T.Pure(name, e.t2, append([]*sim.Term{e.scen.subj}, args...)...)
}

// index of the element at an address.
func (e *encSpec) elemIndex(o *sim.State, t *sim.Term) (*sim.Term, bool) {
	if t.Op == sim.OPure && t.Sub == "UnsafeGetIndex" && len(t.Args) == 3 && t.Args[0] == e.scen.subj && e.isAddr(o, t.Args[1]) {
		return t.Args[2], true
	}
	return nil, false
}

// seq cuts the items into text and parts: text[i] stands before part i.
func seq(its []item) (text []string, ps []item, ok bool) {
	cur := ""
	for _, it := range its {
		switch {
		case it.ev != nil:
			text = append(text, cur)
			cur = ""
			ps = append(ps, it)
		case it.t == nil:
			cur += it.lit
		default:
			return nil, nil, false
		}
	}
	return append(text, cur), ps, true
}

func (e *encSpec) list() {
	T := e.m.T
	n := int(e.scen.n)
	for _, o := range e.outcomes(nil) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		text, ps, ok := seq(its)
		if !ok {
			e.r.Note("%s: %v is written", e.what, its)
			continue
		}
		if e.scen.kind == reflect.Slice && n == 0 && len(its) == 1 && its[0].lit == "null" {
			continue
		}
		if !e.r.Ob("all-elements", e.what, len(ps) == n, where(e.p, e.c.meth), fmt.Sprintf("%d of %d elements are written: %v", len(ps), n, its), trace(o)...) {
			continue
		}
		for i, p := range ps {
			i := i
			e.part(o, p, e.of("Elem"), func(t *sim.Term) (bool, bool) {
				idx, known := e.elemIndex(o, t)
				return known && same(o, idx, T.Int(int64(i))), known || t == e.ptr
			}, fmt.Sprintf("element %d of %d", i, n))
			want := ","
			if i == 0 {
				want = "["
			}
			e.r.Ob("punctuation", e.what, text[i] == want, where(e.p, e.c.meth), fmt.Sprintf("%q stands before element %d of %d", text[i], i, n), trace(o)...)
		}
		want := "]"
		if n == 0 {
			want = "[]"
		}
		e.r.Ob("punctuation", e.what, text[n] == want, where(e.p, e.c.meth), fmt.Sprintf("%q stands at the end of %d elements", text[n], n), trace(o)...)
	}
	e.cut()
}

func (e *encSpec) cut() {
	if e.m.Cut > 0 && e.scen.n >= 0 {
		e.r.Ob("ends", e.what, false, where(e.p, e.c.meth), fmt.Sprintf("the loop does not end after %d elements", e.scen.n))
	}
	e.m.Cut = 0
}

// ---- structs ----

// tagName: t is the name part of the tag.
func tagName(o *sim.State, t, tag *sim.Term) bool {
	t = content(t)
	switch t.Op {
	case sim.OLoad, sim.OElem:
		a := t.Args[0]
		if t.Op == sim.OLoad {
			if a.Op != sim.OIndex {
				return false
			}
		} else {
			a = t
		}
		idx := a.Args[1]
		return isInt(idx, 0) && a.Args[0].Op == sim.OPure && (a.Args[0].Sub == "strings.Split" || a.Args[0].Sub == "strings.SplitN" && !isInt(a.Args[0].Args[2], 1)) && a.Args[0].Args[0] == tag && isStr(a.Args[0].Args[1], ",")
	case sim.OExtract:
		return t.Sub == "0" && t.Args[0].Op == sim.OPure && t.Args[0].Sub == "strings.Cut" && t.Args[0].Args[0] == tag && isStr(t.Args[0].Args[1], ",")
	case sim.OSlice:
		hi := t.Args[2]
		return t.Args[0] == tag && isInt(t.Args[1], 0) && hi.Op == sim.OPure && (hi.Sub == "strings.Index" && isStr(hi.Args[1], ",") || hi.Sub == "strings.IndexByte" && isInt(hi.Args[1], ',')) && hi.Args[0] == tag
	}
	return false
}

func isStr(t *sim.Term, s string) bool {
	v, ok := t.StringVal()
	return ok && v == s
}

// field tells what the path knows about field i.
type fieldFacts struct {
	skip  sim.Tri // left out
	name  string  // "field", "tag", "" unknown
	known bool    // all that the path assumes about the field is understood
	open  string  // what may still have it left out
	why   string
	field *sim.Term
}

func (e *encSpec) fieldOf(o *sim.State, i int) fieldFacts {
	T := e.m.T
	f := T.Pure("Field", e.fieldT, e.scen.subj, T.Int(int64(i)))
	ff := fieldFacts{field: f}
	name := T.Pure("Name", types.Typ[types.String], f)
	typ := T.Pure("Type", e.t2, f)
	var tag *sim.Term
	exported := sim.Unknown
	all := e.m.Proj(e.cfgArg, e.cfgT, "IncludesUnexported")
	// kind
	kind := T.Pure("Kind", e.kindT, typ)
	for _, k := range []reflect.Kind{reflect.Func, reflect.Chan} {
		if o.Facts.Eval(T.Eq(kind, T.Const(constInt(int64(k)), e.kindT))) == sim.True {
			return fieldFacts{skip: sim.True, why: "it is a " + k.String(), field: f}
		}
	}
	open := false
	for _, k := range []reflect.Kind{reflect.Func, reflect.Chan} {
		if o.Facts.Eval(T.Eq(kind, T.Const(constInt(int64(k)), e.kindT))) != sim.False {
			open = true
		}
	}
	part := sim.Unknown // the name in the tag: True "-"
	empty := sim.Unknown
	noTag := sim.Unknown
	for a, v := range o.Facts.Atoms {
		tv := sim.False
		if v {
			tv = sim.True
		}
		if a.Op == sim.OPure && (a.Sub == "unicode.IsUpper" || strings.HasSuffix(a.Sub, ".IsExported") || a.Sub == "IsExported") && a.Contains(name) {
			exported = tv
			if a.Contains(name) && !a.Any(func(x *sim.Term) bool { return x.Op == sim.OPure && strings.Contains(x.Sub, "DecodeRune") }) && a.Any(func(x *sim.Term) bool {
				return (x.Op == sim.OElem || x.Op == sim.OIndex) && x.Args[0] == name && isInt(x.Args[1], 0)
			}) {
				e.bad("left-out", o, "whether field %d is exported is told by the first byte of its name", i)
			}
		}
		a.Any(func(x *sim.Term) bool {
			if x.Op == sim.OPure && strings.HasSuffix(x.Sub, "StructTag).Get") && isStr(x.Args[1], "json") && x.Args[0].Contains(f) {
				tag = x
			}
			return false
		})
	}
	if tag != nil {
		noTag = o.Facts.Eval(T.Eq(tag, T.Str("")))
		for a, v := range o.Facts.Atoms {
			if a.Op != sim.OEq {
				continue
			}
			for k := 0; k < 2; k++ {
				tv := sim.False
				if v {
					tv = sim.True
				}
				if x := a.Args[k]; x.Op == sim.OLen && tagName(o, x.Args[0], tag) && isInt(a.Args[1-k], 0) {
					empty = tv
				}
				if !tagName(o, a.Args[k], tag) {
					continue
				}
				if s, ok := a.Args[1-k].StringVal(); ok && s == "-" {
					part = tv
				}
			}
		}
	}
	ff.known = e.understood(o, f, name, typ, tag, all)
	vis := exported
	if o.Facts.Eval(all) == sim.True {
		vis = sim.True
	} else if o.Facts.Eval(all) != sim.False && vis != sim.True {
		vis = sim.Unknown
	}
	switch {
	case vis == sim.False:
		ff.skip, ff.why = sim.True, "it is not exported"
	case part == sim.True && noTag != sim.True:
		ff.skip, ff.why = sim.True, "its tag is -"
	case vis == sim.True && !open && (noTag == sim.True || part == sim.False || empty == sim.True):
		ff.skip = sim.False
	case open:
		ff.open = "may be a function or channel"
	case vis != sim.True:
		ff.open = "may not be exported"
	default:
		ff.open = "may have the tag -"
	}
	switch {
	case noTag == sim.True || empty == sim.True:
		ff.name = "field"
	case empty == sim.False && noTag == sim.False:
		ff.name = "tag"
	}
	return ff
}

// understood: the path assumes nothing about a field but what fieldOf reads.
func (e *encSpec) understood(o *sim.State, f, name, typ, tag, all *sim.Term) bool {
	has := func(t *sim.Term, sub string) bool {
		return t.Any(func(x *sim.Term) bool { return x.Op == sim.OPure && strings.HasSuffix(x.Sub, sub) })
	}
	for a := range o.Facts.Atoms {
		if a == all {
			continue
		}
		if a.Contains(all) {
			return false
		}
		if !a.Contains(f) {
			continue
		}
		switch {
		case a.Op == sim.OIsType || a.Op == sim.OEq && (a.Args[0] == f || a.Args[1] == f):
		case a.Contains(typ):
			// the kind, compared with a constant
			if a.Op != sim.OEq || !isKindOf(a.Args[0], typ) && !isKindOf(a.Args[1], typ) {
				return false
			}
		case a.Contains(name):
			isLen := func(x *sim.Term) bool { return x.Op == sim.OLen && x.Args[0] == name }
			cmp := (a.Op == sim.OEq || a.Op == sim.OLt) && (isLen(a.Args[0]) || isLen(a.Args[1]))
			if !cmp && !(a.Op == sim.OPure && (a.Sub == "unicode.IsUpper" || strings.HasSuffix(a.Sub, "IsExported"))) {
				return false
			}
		case has(a, "StructTag).Get"):
			other := false
			a.Any(func(x *sim.Term) bool {
				if x.Op == sim.OPure && strings.HasSuffix(x.Sub, "StructTag).Get") && x != tag {
					if _, ok := x.Args[1].StringVal(); ok && x.Args[0].Contains(f) {
						other = true
					}
				}
				return false
			})
			if other && (tag == nil || !a.Contains(tag)) {
				continue // another key of the tag
			}
			known := false
			if a.Op == sim.OEq || a.Op == sim.OLt {
				for k := 0; k < 2; k++ {
					x, y := a.Args[k], a.Args[1-k]
					l := x
					if l.Op == sim.OLen {
						l = l.Args[0]
					}
					_, isS := y.StringVal()
					_, isI := y.Int64()
					if (isS || isI) && (l == tag || tagName(o, l, tag) || x.Op == sim.OLen && l.Op == sim.OPure && strings.HasPrefix(l.Sub, "strings.Split")) {
						known = true
					}
				}
			}
			if !known {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isKindOf(t, typ *sim.Term) bool {
	return t.Op == sim.OPure && t.Sub == "Kind" && t.Args[0] == typ
}

// unnamed: the path assumes that a field has no name.
func (e *encSpec) unnamed(o *sim.State, n int) bool {
	T := e.m.T
	for i := 0; i < n; i++ {
		name := T.Pure("Name", types.Typ[types.String], T.Pure("Field", e.fieldT, e.scen.subj, T.Int(int64(i))))
		if o.Facts.Eval(T.Eq(name, T.Str(""))) == sim.True || o.Facts.Eval(T.Eq(T.Len(name), T.Int(0))) == sim.True {
			return true
		}
	}
	return false
}

func (e *encSpec) structure() {
	T := e.m.T
	n := int(e.scen.n)
	for _, o := range e.outcomes(nil) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		// the fields the path has to write
		var want []fieldFacts
		known := true
		if e.unnamed(o, n) {
			continue
		}
		skipped := map[*sim.Term]fieldFacts{}
		open := map[*sim.Term]fieldFacts{}
		for i := 0; i < n; i++ {
			ff := e.fieldOf(o, i)
			switch ff.skip {
			case sim.False:
				want = append(want, ff)
			case sim.True:
				skipped[ff.field] = ff
			case sim.Unknown:
				open[ff.field] = ff
				known = false
			default:
				known = false
			}
		}
		// cut the items into fields
		type out struct {
			pre, post string
			name      *sim.Term
			lit       string
			part      item
		}
		var outs []out
		var pend []item
		for _, it := range its {
			if it.ev == nil {
				pend = append(pend, it)
				continue
			}
			f := out{part: it}
			for _, q := range pend {
				switch {
				case q.t != nil && f.name == nil:
					f.name = q.t
				case q.t != nil:
					known = false
				case f.name == nil:
					f.pre += q.lit
				default:
					f.post += q.lit
				}
			}
			outs = append(outs, f)
			pend = nil
		}
		tail := ""
		for _, q := range pend {
			tail += q.lit
			if q.t != nil {
				known = false
			}
		}
		var names []string
		for _, f := range outs {
			names = append(names, fmt.Sprint(f.name))
		}
		for _, f := range outs {
			_, _, as := method(f.part.ev)
			if as[2].Op == sim.OPure && as[2].Sub == "UnsafeGet" {
				if sk, ok := skipped[as[2].Args[0]]; ok {
					e.bad("left-out", o, "a field is written although %s", sk.why)
				}
				if sk, ok := open[as[2].Args[0]]; ok && sk.known {
					e.bad("left-out", o, "a field is written that %s", sk.open)
				}
				delete(open, as[2].Args[0])
			}
		}
		for _, sk := range open {
			if sk.known {
				e.bad("all-fields", o, "a field is left out although nothing known about it says so")
			}
		}
		if !known {
			e.r.Note("%s: which of its %d fields are written is not decided on a path", e.what, n)
			continue
		}
		if !e.r.Ob("all-fields", e.what, len(outs) == len(want), where(e.p, e.c.meth), fmt.Sprintf("of %d fields %d have to be written, %d are: %v", n, len(want), len(outs), names), trace(o)...) {
			continue
		}
		for i, f := range outs {
			w := want[i]
			e.part(o, f.part, T.Pure("Type", e.t2, w.field), func(t *sim.Term) (bool, bool) {
				if t.Op == sim.OPure && t.Sub == "UnsafeGet" && len(t.Args) == 2 {
					return t.Args[0] == w.field && e.isAddr(o, t.Args[1]), true
				}
				return false, t == e.ptr
			}, fmt.Sprintf("field %d", i))
			pre := ","
			if i == 0 {
				pre = "{"
			}
			if f.name == nil {
				e.bad("field-name", o, "%q stands before field %d", f.pre, i)
				continue
			}
			if !(f.name.Op == sim.OPure && f.name.Sub == "escaped") {
				if f.pre == pre+`"` && f.post == `":` {
					e.bad("field-name", o, "the name of field %d, %v, is not escaped", i, f.name)
				} else {
					e.r.Note("%s: the name %v is not known", e.what, f.name)
				}
				continue
			}
			f.name = f.name.Args[0]
			e.r.Ob("punctuation", e.what, f.pre == pre && f.post == ":", where(e.p, e.c.meth), fmt.Sprintf("the name of field %d of %d stands between %q and %q", i, len(outs), f.pre, f.post), trace(o)...)
			isField := content(f.name) == T.Pure("Name", types.Typ[types.String], w.field)
			var tag *sim.Term
			f.name.Any(func(x *sim.Term) bool {
				if x.Op == sim.OPure && strings.HasSuffix(x.Sub, "StructTag).Get") {
					tag = x
				}
				return false
			})
			isTag := tag != nil && isStr(tag.Args[1], "json") && tag.Args[0].Contains(w.field) && tagName(o, f.name, tag)
			switch w.name {
			case "field":
				e.r.Ob("field-name", e.what, isField, where(e.p, e.c.meth), fmt.Sprintf("field %d has no name in its tag and is written as %v", i, f.name), trace(o)...)
			case "tag":
				if !isField && !isTag && tag != nil && tag.Args[0].Contains(w.field) && content(f.name) != tag {
					e.r.Note("%s: the name %v is not known", e.what, f.name)
					continue
				}
				e.r.Ob("field-name", e.what, isTag, where(e.p, e.c.meth), fmt.Sprintf("field %d has a name in its tag and is written as %v", i, f.name), trace(o)...)
			default:
				e.r.Note("%s: which name field %d has is not decided on a path", e.what, i)
			}
		}
		end := "}"
		if len(outs) == 0 {
			end = "{}"
		}
		e.r.Ob("punctuation", e.what, tail == end, where(e.p, e.c.meth), fmt.Sprintf("%q stands at the end of %d fields", tail, len(outs)), trace(o)...)
	}
	e.cut()
}

// ---- maps ----

// next: the calls of the iterator of the map, in order.
func (e *encSpec) iterator(o *sim.State) (has, next []*sim.Event, ok bool) {
	ok = true
	for _, ev := range o.Trace {
		if ev.Kind != "call" {
			continue
		}
		name, recv, _ := method(ev)
		if name != "HasNext" && name != "UnsafeNext" || recv == nil {
			continue
		}
		it := subj(recv)
		if it.Op != sim.OPure || it.Sub != "UnsafeIterate" || it.Args[0] != e.scen.subj || !e.isAddr(o, it.Args[1]) {
			ok = false
			continue
		}
		if name == "HasNext" {
			has = append(has, ev)
		} else {
			next = append(next, ev)
		}
	}
	return
}

func (e *encSpec) mapping() {
	T := e.m.T
	st, _, _, ptr := e.encodeArgs(e.c)
	e.ptr = ptr
	v := e.word(st)
	e.m.Unroll = 3
	e.null("nil-is-null", func(st *sim.State) { st.Facts.Assert(T.Eq(v, T.Nil()), true) })
	for _, o := range e.outcomes(func(st *sim.State) { st.Facts.Assert(T.Eq(v, T.Nil()), false) }) {
		its, ok := e.items(o, o.Ret, e.space)
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if e.delegated(o, its) {
			continue
		}
		has, next, ok := e.iterator(o)
		if !ok || len(has) == 0 {
			e.r.Note("%s: the iteration is not known", e.what)
			continue
		}
		n := len(next)
		e.r.Ob("all-entries", e.what, o.Facts.Eval(has[len(has)-1].Res) == sim.False, where(e.p, e.c.meth), fmt.Sprintf("the encoding ends after %d entries although there may be more", n), trace(o)...)
		text, ps, ok := seq(its)
		if !ok {
			e.r.Note("%s: %v is written", e.what, its)
			continue
		}
		if !e.r.Ob("all-entries", e.what, len(ps) == 2*n, where(e.p, e.c.meth), fmt.Sprintf("for %d entries %d parts are written", n, len(ps)), trace(o)...) {
			continue
		}
		for i := 0; i < n; i++ {
			e.entry(o, ps[2*i], ps[2*i+1], next[i], text[2*i+1])
			want := ","
			if i == 0 {
				want = "{"
			}
			e.r.Ob("punctuation", e.what, text[2*i] == want, where(e.p, e.c.meth), fmt.Sprintf("%q stands before entry %d", text[2*i], i), trace(o)...)
		}
		want := "}"
		if n == 0 {
			want = "{}"
		}
		e.r.Ob("punctuation", e.what, text[2*n] == want, where(e.p, e.c.meth), fmt.Sprintf("%q stands at the end of %d entries", text[2*n], n), trace(o)...)
	}
	e.m.Cut = 0
}

// entry: a key and an element are those the iterator gave.
func (e *encSpec) entry(o *sim.State, k, v item, next *sim.Event, between string) {
	T := e.m.T
	_, enc, as := method(k.ev)
	key := T.Extract(next.Res, 0, types.Typ[types.UnsafePointer])
	elem := T.Extract(next.Res, 1, types.Typ[types.UnsafePointer])
	ch := e.childOf(o, enc)
	if ch != nil {
		e.childCfg(o, ch)
		if ch.class != "" {
			if ch.class != "key" {
				e.bad("map-key", o, "the key is encoded as a value, not as a key (%q follows)", between)
			}
			e.r.Ob("punctuation", e.what, between == "", where(e.p, e.c.meth), fmt.Sprintf("%q stands between a key and its element", between), trace(o)...)
		}
		e.r.Ob("value-of-the-type", e.what, ch.typ == e.of("Key"), sim.PosOf(k.ev.Instr), fmt.Sprintf("the key is encoded by the encoder of %v", ch.typ), trace(o)...)
	} else {
		e.r.Note("%s: the encoder %v of the key is not known", e.what, enc)
	}
	e.r.Ob("parts", e.what, as[2] == key, sim.PosOf(k.ev.Instr), fmt.Sprintf("the key is taken from %v", as[2]), trace(o)...)
	e.part(o, v, e.of("Elem"), func(t *sim.Term) (bool, bool) { return t == elem, true }, "the element of an entry")
}

// keys checks the encoders of map keys.
func (j *jenc) keys(fn *ssa.Function) {
	run := func(s scenario) {
		for _, dyn := range j.dyn[s.kind] {
			s := s
			s.n = -1
			j.use(&s, dyn)
			j.exact()
			what := "map key of type " + s.String()
			// encoders of values are opaque here
			j.keep = func(f *ssa.Function) bool { return f != fn && j.makesEncoder(f) && j.plainMaker(f) }
			cs := j.choose(fn, what)
			for _, c := range cs {
				j.madeRight(fn, "key", what, c)
				(&encSpec{jenc: j, fn: fn, class: "key", what: what, c: c}).key()
			}
			j.keep = nil
			j.hit(fn, "key", what, s, dyn)
		}
	}
	for _, k := range scalarKinds {
		run(scenario{kind: k})
	}
	for _, impl := range []string{"", "error", "marshaler"} {
		for _, k := range []reflect.Kind{reflect.Struct, reflect.Array, reflect.Interface} {
			run(scenario{kind: k, impl: impl})
		}
		run(scenario{kind: reflect.Ptr, impl: impl, like: 1})
		if impl != "" {
			run(scenario{kind: reflect.Int, impl: impl})
			run(scenario{kind: reflect.String, impl: impl})
		}
	}
}

// plainMaker: fn makes encoders that expect the address of a value.
func (j *jenc) plainMaker(fn *ssa.Function) bool {
	keep := j.keep
	j.keep = nil
	defer func() { j.keep = keep }()
	return j.class(fn) == "addr"
}

func (e *encSpec) key() {
	T := e.m.T
	s := e.scen
	if s.kind == reflect.Interface {
		e.ifaceKey()
		return
	}
	e.m.Unroll, e.m.AbstractFirst, e.m.MaxIter = 0, true, 1
	outs := e.outcomes(nil)
	e.exact()
	str := s.kind == reflect.String && s.impl != "marshaler" || s.impl == "error" && s.kind != reflect.Ptr
	scalar := s.impl == "" && s.kind <= reflect.Float64
	for _, o := range outs {
		// the encoding of the key as a value
		var ev *sim.Event
		for _, x := range o.Trace {
			if name, _, as := method(x); x.Kind == "call" && name == "Encode" && len(as) == 3 {
				ev = x
			}
		}
		if ev == nil {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		e.part(o, item{ev: ev}, s.subj, func(t *sim.Term) (bool, bool) { return t == e.ptr, true }, "the key")
		its, ok := e.items(o, o.Ret, e.space)
		// is the encoding known to be a JSON string?
		quoted := sim.Unknown
		for a, v := range o.Facts.Atoms {
			if a.Op == sim.OEq && (isInt(a.Args[0], '"') || isInt(a.Args[1], '"')) && a.Contains(ev.Res) {
				if v {
					quoted = sim.True
				} else {
					quoted = sim.False
				}
			}
		}
		if quoted == sim.Unknown && o.Facts.Eval(T.Eq(T.Len(ev.Res), T.Int(0))) == sim.True {
			quoted = sim.False
		}
		if str && quoted == sim.False || scalar && quoted == sim.True {
			continue // not possible
		}
		if str {
			quoted = sim.True
		} else if scalar {
			quoted = sim.False
		}
		if !ok {
			e.r.Note("%s: %v is written", e.what, o.Ret)
			e.unwritten(o)
			continue
		}
		if len(its) == 2 && its[0].t != nil && its[0].t.Op == sim.OPure && its[0].t.Sub == "escaped" && content(its[0].t.Args[0]) == ev.Res && its[1].lit != "" {
			// the encoding made a string
			e.r.Ob("map-key", e.what, its[1].lit == ":" && quoted != sim.True, where(e.p, e.c.meth), fmt.Sprintf("%v is written for a key encoded as a string", its), trace(o)...)
			continue
		}
		text, ps, ok := seq(its)
		if !ok || len(ps) != 1 {
			if quoted != sim.False || scalar {
				e.r.Note("%s: %v is written", e.what, its)
			}
			continue
		}
		form := text[0] + "key" + text[1]
		switch {
		case quoted == sim.True:
			e.r.Ob("map-key", e.what, form == "key:", where(e.p, e.c.meth), fmt.Sprintf("a key encoded as a string is written as %s", form), trace(o)...)
		case scalar:
			e.r.Ob("map-key", e.what, form == `"key":`, where(e.p, e.c.meth), fmt.Sprintf("a key encoded as a number or bool is written as %s", form), trace(o)...)
		default:
			e.bad("map-key", o, "a key that may be encoded as any JSON value is written as %s", form)
		}
	}
}

func (e *encSpec) ifaceKey() {
	T := e.m.T
	var obj *sim.Term
	see := func(t *sim.Term) {
		if t != nil {
			t.Any(func(x *sim.Term) bool {
				if x.Op == sim.OPure && x.Sub == "UnsafeIndirect" {
					obj = x
				}
				return false
			})
		}
	}
	for _, o := range e.outcomes(nil) {
		for a := range o.Facts.Atoms {
			see(a)
		}
	}
	if obj == nil {
		e.r.Note("%s: the value is not found", e.what)
		return
	}
	for _, isNil := range []bool{true, false} {
		for _, o := range e.outcomes(func(st *sim.State) { st.Facts.Assert(T.Eq(obj, T.Nil()), isNil) }) {
			its, ok := e.items(o, o.Ret, e.space)
			if !ok {
				e.r.Note("%s: %v is written", e.what, o.Ret)
				continue
			}
			e.r.Ob("value-of-the-type", e.what, obj.Args[0] == e.scen.subj && obj.Args[1] == e.ptr, where(e.p, e.c.meth), fmt.Sprintf("the key is taken as %v", obj), trace(o)...)
			if isNil {
				e.r.Ob("map-key", e.what, len(its) == 1 && its[0].lit == `"null":`, where(e.p, e.c.meth), fmt.Sprintf("the nil key is written as %v", its), trace(o)...)
				continue
			}
			if len(its) != 1 || its[0].ev == nil {
				e.bad("map-key", o, "%v is written for a key in an interface", its)
				continue
			}
			_, enc, as := method(its[0].ev)
			ch := e.childOf(o, enc)
			if ch == nil {
				e.r.Note("%s: the encoder %v is not known", e.what, enc)
				continue
			}
			e.childCfg(o, ch)
			if ch.class != "key" && ch.class != "" {
				e.bad("map-key", o, "the key in an interface is encoded as a value, not as a key")
				continue
			}
			e.held(o, its[0].ev, ch, as[2], obj, "data")
		}
	}
}

// ---- any number of elements ----

// anyLength: an arbitrary iteration of the loops, for any number of elements.
func (e *encSpec) anyLength() {
	m := e.m
	m.Unroll, m.AbstractFirst, m.MaxIter = 0, true, 1
	defer e.exact()
	s := e.scen
	T := m.T
	for _, c := range e.choose(e.fn, e.what) {
		if s.kind == reflect.Struct {
			e.leftAtEnd(c.st, T.Pure("NumField", types.Typ[types.Int], s.subj), e.fn, "all-fields")
		}
		m.Unroll, m.AbstractFirst, m.MaxIter = 0, true, 1
		e.c = c
		arrive := m.OnArrive
		if s.kind != reflect.Struct {
			m.OnArrive = func(le *sim.LoopEvent) bool { e.iteration(le); return true }
		}
		outs := e.outcomes(nil)
		m.OnArrive = arrive
		for _, o := range outs {
			switch s.kind {
			case reflect.Slice:
				e.leftAtEnd(o, e.lengthOf(o), c.meth, "all-elements")
			case reflect.Array:
				e.leftAtEnd(o, T.Pure("Len", types.Typ[types.Int], s.subj), c.meth, "all-elements")
			case reflect.Map:
				if has, _, ok := e.iterator(o); ok && len(has) > 0 {
					e.r.Ob("all-entries", e.what, o.Facts.Eval(has[len(has)-1].Res) == sim.False, where(e.p, c.meth), "the encoding ends although there may be more entries", trace(o)...)
				}
			case reflect.Struct:
				// the list of fields made in phase 1
				for a := range o.Facts.Atoms {
					a.Any(func(x *sim.Term) bool {
						if x.Op == sim.OLen && x.Args[0].Typ != nil && isList(x.Args[0].Typ) {
							e.leftAtEnd(o, x, c.meth, "all-fields")
						}
						return false
					})
				}
			}
		}
	}
}

// isList: a slice of something other than bytes.
func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok && !isBytes(t)
}

func (e *encSpec) lengthOf(o *sim.State) *sim.Term {
	var out *sim.Term
	for a := range o.Facts.Atoms {
		a.Any(func(x *sim.Term) bool {
			if x.Op == sim.OPure && x.Sub == "UnsafeLengthOf" && x.Args[0] == e.scen.subj {
				if e.isAddr(o, x.Args[1]) {
					out = x
				} else {
					e.bad("all-elements", o, "the length is taken from %v", x.Args[1])
				}
			}
			return false
		})
	}
	return out
}

// leftAtEnd: a loop that counts up to n is left only when n is reached.
func (e *encSpec) leftAtEnd(o *sim.State, n *sim.Term, fn *ssa.Function, rule string) {
	if n == nil || o.Panicked {
		return
	}
	T := e.m.T
	loops := map[*ssa.Phi][]*sim.Term{}
	// loops over the elements, whatever they are bounded by
	over := map[*ssa.Phi]bool{}
	for _, ev := range o.Trace {
		name, _, as := method(ev)
		if ev.Kind != "call" || name != "UnsafeGetIndex" && name != "Field" || len(as) == 0 {
			continue
		}
		if ph, _ := idxPhi(as[len(as)-1]); ph != nil {
			over[ph] = true
		}
	}
	for a := range o.Facts.Atoms {
		a.Any(func(x *sim.Term) bool {
			if ph, ok := x.Obj.(*ssa.Phi); ok && (over[ph] || a.Contains(n)) && x.Op == sim.OSym && isIntType(x.Typ) && !n.Contains(x) {
				loops[ph] = append(loops[ph], x)
			}
			return false
		})
	}
	for ph, xs := range loops {
		start, step, ok := stepOf(ph)
		if !ok || step != 1 {
			continue
		}
		done := false
		for _, x := range xs {
			// the last test may be the one after the iteration x stands for
			done = done || o.Facts.Leq(n, T.Bin(sim.ADD, x, T.Int(1-start), types.Typ[types.Int]))
		}
		e.r.Ob(rule, e.what, done, where(e.p, fn), fmt.Sprintf("the loop over %v can be left before its end", n), append(trace(o), factsAbout(o, n)...)...)
	}
}

// factsAbout lists what a path assumes about a term.
func factsAbout(o *sim.State, n *sim.Term) []string {
	var out []string
	for a, v := range o.Facts.Atoms {
		if a.Contains(n) {
			out = append(out, fmt.Sprintf("assumes %v is %v", a, v))
		}
	}
	sort.Strings(out)
	return out
}

// iteration checks what one iteration of a loop in Encode appended.
func (e *encSpec) iteration(le *sim.LoopEvent) {
	if !le.Back {
		return
	}
	o := le.St
	for i, ph := range le.Phis {
		if !isBytes(ph.Type()) {
			continue
		}
		// the symbol the iteration started with
		var start *sim.Term
		le.Vals[i].Any(func(x *sim.Term) bool {
			if x.Op == sim.OSym && x.Obj == ph {
				start = x
			}
			return false
		})
		if start == nil {
			continue
		}
		its, ok := e.items(o, le.Vals[i], start)
		if !ok {
			continue
		}
		text, ps, ok := seq(its)
		if !ok {
			continue
		}
		if e.scen.kind == reflect.Map {
			e.mapIteration(o, text, ps)
			continue
		}
		if len(ps) != 1 {
			e.bad("all-elements", o, "an iteration writes %d elements: %v", len(ps), its)
			continue
		}
		_, _, as := method(ps[0].ev)
		idx, known := e.elemIndex(o, as[2])
		if !known {
			continue
		}
		iph, c := idxPhi(idx)
		if iph == nil {
			e.bad("all-elements", o, "every iteration writes element %v", idx)
			continue
		}
		st, step, ok := stepOf(iph)
		if ok {
			first := st + c
			e.r.Ob("all-elements", e.what, step == 1 && (first == 0 || first == 1), sim.PosOf(ps[0].ev.Instr), fmt.Sprintf("the loop starts with element %d and moves by %d", first, step), trace(o)...)
		}
		sep := text[0] + text[1]
		e.r.Ob("punctuation", e.what, sep == "," || sep == "", sim.PosOf(ps[0].ev.Instr), fmt.Sprintf("%q stands between elements", sep), trace(o)...)
		if sep == "" && e.withoutComma(o, idx) {
			e.bad("punctuation", o, "no comma separates elements")
		}
		if sep == "" {
			e.good("punctuation")
		}
	}
}

// withoutComma: the facts allow an element other than the first.
func (e *encSpec) withoutComma(o *sim.State, idx *sim.Term) bool {
	if o.Facts.Leq(e.m.T.Int(1), idx) {
		return true
	}
	if o.Facts.Leq(idx, e.m.T.Int(0)) {
		return false
	}
	root, _ := idx, 0
	root.Any(func(x *sim.Term) bool {
		if x.Op == sim.OSym {
			root = x
		}
		return false
	})
	var atoms []*sim.Term
	for a := range o.Facts.Atoms {
		if a.Contains(root) {
			atoms = append(atoms, a)
		}
	}
	// a witness: an index above 0 that satisfies all that is known about it
	for v := int64(1); v < 3000; v++ {
		all := true
		for _, a := range atoms {
			if a.Any(func(x *sim.Term) bool { return x.Op == sim.OPure && (x.Sub == "UnsafeLengthOf" || x.Sub == "Len") }) {
				continue
			}
			got, ok := evalAt(a, root, v)
			if !ok {
				return false
			}
			if (got != 0) != o.Facts.Atoms[a] {
				all = false
				break
			}
		}
		if all && len(atoms) > 1 {
			return true
		}
	}
	return false
}

func (e *encSpec) mapIteration(o *sim.State, text []string, ps []item) {
	_, next, ok := e.iterator(o)
	if !ok || len(next) == 0 {
		return
	}
	if len(ps) != 2 {
		e.bad("all-entries", o, "an iteration writes %d parts", len(ps))
		return
	}
	e.entry(o, ps[0], ps[1], next[len(next)-1], text[1])
	sep := text[0] + text[2]
	e.r.Ob("punctuation", e.what, sep == "," || sep == "", where(e.p, e.c.meth), fmt.Sprintf("%q stands between entries", sep), trace(o)...)
}

// ---- the API ----

// nilObject: the encoder of a nil object writes null.
func (j *jenc) nilObject() {
	fn := j.apiMethod("EncoderOfObject")
	m := j.m
	j.exact()
	j.phase2 = false
	j.scen = &scenario{n: -1}
	args := m.Params(fn, "mk.")
	args[0] = j.cfg
	i := j.objParam(fn)
	st := j.start()
	st.Facts.Assert(m.T.Eq(args[i], m.T.Nil()), true)
	for _, o := range m.Run(st, fn, args) {
		if !j.r.Ob("no-panic", "nil object", !o.Panicked, where(j.p, fn), "making the encoder of nil panics", trace(o)...) {
			continue
		}
		if o.Ret == nil || o.Ret.Op != sim.OIface {
			j.r.Ob("nil-is-null", "nil object", false, where(j.p, fn), fmt.Sprintf("the encoder of a nil object is %v", o.Ret), trace(o)...)
			continue
		}
		meth := j.p.MethodOf(o.Ret.Obj.(types.Type), "Encode")
		if meth == nil {
			continue
		}
		e := &encSpec{jenc: j, fn: fn, class: "data", what: "nil object", c: choice{o, o.Ret, meth}}
		e.null("nil-is-null", func(st *sim.State) {
			st.Facts.Assert(m.T.Eq(m.T.Param("enc."+meth.Params[3].Name(), meth.Params[3].Type()), m.T.Nil()), true)
		})
	}
}

// packageFuncs: the functions of the package encode with the default
// configuration and give the object itself to its encoder.
func (j *jenc) packageFuncs() {
	for _, n := range []string{"EncoderOf", "EncoderOfObject", "MarshalToString"} {
		fn := j.p.Func(jsonfmt, n)
		if !j.r.Need(fn != nil, "jsonfmt."+n) {
			continue
		}
		m := j.p.NewMachine()
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Opaque = func(f *ssa.Function) bool { return pkgOf(f) != jsonfmt }
		m.Model = j.model
		j.scen = &scenario{n: -1}
		args := m.Params(fn, "")
		mm := j.m
		j.m = m
		for _, o := range m.Run(m.NewState(), fn, args) {
			if !j.r.Ob("no-panic", "jsonfmt."+n, !o.Panicked, where(j.p, fn), "panics", trace(o)...) {
				continue
			}
			enc := o.Ret
			if n == "MarshalToString" {
				ev := encodeEvent(o, content(o.Ret))
				if ev == nil {
					j.r.Note("jsonfmt.%s returns %v", n, o.Ret)
					continue
				}
				_, e, as := method(ev)
				enc = e
				j.r.Ob("object-to-its-encoder", "jsonfmt."+n, as[2] == m.T.Pure("PtrOf", types.Typ[types.UnsafePointer], args[0]) && (o.Facts.IsNil(as[1]) || emptySlice(as[1])), where(j.p, fn), fmt.Sprintf("the encoder is given %v and the space %v", as[2], as[1]), trace(o)...)
			}
			var made *sim.Event
			for _, ev := range o.Trace {
				if ev.Kind == "call" && ev.Res == enc {
					made = ev
				}
			}
			if made == nil {
				j.r.Note("jsonfmt.%s uses %v", n, enc)
				continue
			}
			_, _, as := method(made)
			ok := len(as) == 1 && (as[0] == args[0] || as[0].Op == sim.OPure && as[0].Sub == "TypeOf" && as[0].Args[0] == args[0])
			j.r.Ob("object-to-its-encoder", "jsonfmt."+n, ok, where(j.p, fn), fmt.Sprintf("the encoder is made for %v", as), trace(o)...)
		}
		j.m = mm
		j.r.Absorb(m)
	}
}
