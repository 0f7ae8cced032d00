package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

// jenc analyses the encoders of jsonfmt: how an encoder is chosen for a type
// (phase 1) and what the chosen encoder writes for a value (phase 2).
type jenc struct {
	ran  map[string]bool
	p    *sim.Program
	r    *Report
	m    *sim.Machine
	enc  *types.Interface // jsonfmt.Encoder
	t2   types.Type       // reflect2.Type
	dyn  map[reflect.Kind][]types.Type
	scen *scenario
	// cells of the package variables that hold reflect2 types
	globals map[*sim.Term]*sim.Term
	classes map[string]string
	caches  map[*sim.Term]string // class of the encoders kept in a cache
	makers  map[*ssa.Function]bool
	cfg     *sim.Term  // the frozen configuration
	cfgArg  *sim.Term  // the Config it was made from
	cfgT    types.Type // Config
	api     *types.Interface
	base    *sim.State
	phase2  bool
	prop    string
	kindT   types.Type // reflect.Kind
	fieldT  types.Type // reflect2.StructField
	lazies  map[*ssa.Function]bool
	keep    func(fn *ssa.Function) bool // opaque in addition
}

// scenario fixes what is known about one type.
type scenario struct {
	kind  reflect.Kind
	subj  *sim.Term // the reflect2 type
	val   *sim.Term // the same as interface value
	obj   *sim.Term // an object of this type
	impl  string    // "", "error", "marshaler"
	like  int       // LikePtr: 0 no, 1 yes, 2 open
	n     int64     // fields or length, -1 open
	hit   bool
	bytes int // is it []byte: 0 no, 1 yes
}

func (s *scenario) String() string {
	k := s.kind.String()
	if s.bytes == 1 {
		k = "[]byte"
	}
	if s.impl != "" {
		k = s.impl + " of kind " + k
	}
	if s.like == 1 && s.kind != reflect.Ptr && s.kind != reflect.Map && s.kind != reflect.Chan && s.kind != reflect.Func {
		k += " stored as a pointer"
	}
	return k
}

func newJenc(p *sim.Program, r *Report) *jenc {
	j := &jenc{p: p, r: r, classes: map[string]string{}, caches: map[*sim.Term]string{}, makers: map[*ssa.Function]bool{}}
	sp := p.ByPath[p.Path(jsonfmt)]
	if !r.Need(sp != nil, "package jsonfmt") {
		return nil
	}
	et, _ := sp.Pkg.Scope().Lookup("Encoder").(*types.TypeName)
	t2 := p.Type("reflect2", "Type")
	if !r.Need(et != nil && types.IsInterface(et.Type()) && t2 != nil, "jsonfmt.Encoder, reflect2.Type") {
		return nil
	}
	if ft := p.Type("reflect2", "StructField"); ft != nil {
		j.fieldT = ft
	}
	if ko, _, _ := types.LookupFieldOrMethod(t2, false, nil, "Kind"); ko != nil {
		j.kindT = ko.Type().(*types.Signature).Results().At(0).Type()
	}
	if !r.Need(j.kindT != nil && j.fieldT != nil, "reflect2.Type.Kind, reflect2.StructField") {
		return nil
	}
	j.enc = et.Type().Underlying().(*types.Interface)
	j.t2 = t2
	m := p.NewMachine()
	j.m = m
	m.NoRecurse = true
	j.ran = map[string]bool{}
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Model = j.model
	m.Opaque = func(fn *ssa.Function) bool {
		if pkgOf(fn) != jsonfmt {
			return true
		}
		if j.keep != nil && j.keep(fn) {
			return true
		}
		if j.isEscaper(fn) {
			return true
		}
		return j.phase2 && j.makesEncoder(fn)
	}
	m.OpaqueCall = func(fn *ssa.Function, args []*sim.Term) bool {
		// the digits of floating point numbers
		if j.scen.kind == reflect.Float32 || j.scen.kind == reflect.Float64 {
			for _, q := range fn.Params {
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return true
				}
			}
		}
		// encoders of other types
		if j.scen.subj == nil || !j.makesEncoder(fn) {
			return false
		}
		if i := j.typeParam(fn); i >= 0 && i < len(args) {
			return subj(args[i]) != j.scen.subj
		}
		if i := j.objParam(fn); i >= 0 && i < len(args) {
			return args[i] != j.scen.obj
		}
		return false
	}
	j.scen = &scenario{}
	j.initGlobals(sp)
	if !j.kinds() || !j.froze(sp) {
		return nil
	}
	return j
}

// froze makes the configuration from a Config without extensions.
func (j *jenc) froze(sp *ssa.Package) bool {
	at, _ := sp.Pkg.Scope().Lookup("API").(*types.TypeName)
	ct, _ := sp.Pkg.Scope().Lookup("Config").(*types.TypeName)
	if !j.r.Need(at != nil && ct != nil && types.IsInterface(at.Type()), "jsonfmt.API, jsonfmt.Config") {
		return false
	}
	j.api = at.Type().Underlying().(*types.Interface)
	j.cfgT = ct.Type()
	fn := j.p.MethodOf(ct.Type(), "Froze")
	if !j.r.Need(fn != nil, "jsonfmt.Config.Froze") {
		return false
	}
	m := j.m
	j.cfgArg = m.T.Param("config", ct.Type())
	for _, o := range m.Run(j.start(), fn, []*sim.Term{j.cfgArg}) {
		if o.Panicked || o.Ret == nil || o.Ret.Op != sim.OIface {
			continue
		}
		j.cfg = o.Ret.Args[0]
		j.base = o.Detach()
	}
	if !j.r.Need(j.cfg != nil, "the configuration made by Froze") {
		return false
	}
	if st, ok := ct.Type().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				j.base.Facts.Assert(m.T.Eq(m.T.Len(m.Proj(j.cfgArg, ct.Type(), st.Field(i).Name())), m.T.Int(0)), true)
			}
		}
	}
	return true
}

func (j *jenc) isCfg(t types.Type) bool {
	return j.api != nil && types.Implements(t, j.api)
}

// makesEncoder: the function makes an encoder for a type or an object.
func (j *jenc) makesEncoder(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() != 1 || !types.Implements(res.At(0).Type(), j.enc) {
		return false
	}
	return j.typeParam(fn) >= 0 || j.objParam(fn) >= 0
}

func (j *jenc) typeParam(fn *ssa.Function) int {
	for i, q := range fn.Params {
		if it, ok := q.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 10 && types.Implements(q.Type(), j.t2.Underlying().(*types.Interface)) {
			return i
		}
	}
	return -1
}

func (j *jenc) objParam(fn *ssa.Function) int {
	for i, q := range fn.Params {
		if it, ok := q.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return i
		}
	}
	return -1
}

// initGlobals runs the package initialiser and keeps the variables that hold
// reflect2 types.
func (j *jenc) initGlobals(sp *ssa.Package) {
	j.globals = map[*sim.Term]*sim.Term{}
	init := sp.Func("init")
	if init == nil {
		return
	}
	m := j.m
	m.AbstractFirst, m.MaxIter = true, 1
	for _, o := range m.Run(m.NewState(), init, nil) {
		for a, v := range o.Heap {
			g, ok := a.Obj.(*ssa.Global)
			if a.Op != sim.OGlobal || !ok || g.Pkg != sp {
				continue
			}
			if types.Implements(g.Type().(*types.Pointer).Elem(), j.t2.Underlying().(*types.Interface)) {
				j.globals[a] = v
			}
		}
	}
	m.AbstractFirst, m.MaxIter = false, 2
}

func (j *jenc) start() *sim.State {
	st := j.m.NewState()
	if j.base != nil {
		return j.base.Detach()
	}
	for a, v := range j.globals {
		st.Heap[a] = v
	}
	return st
}

// subj is the reflect2 type a receiver belongs to.
func subj(t *sim.Term) *sim.Term {
	for {
		switch t.Op {
		case sim.OIface:
			t = t.Args[0]
			continue
		case sim.OLoad:
			if t.Args[0].Op == sim.OField {
				a := t.Args[0]
				for a.Op == sim.OField {
					a = a.Args[0]
				}
				t = a
				continue
			}
		case sim.OField:
			t = t.Args[0]
			continue
		case sim.OAssert:
			t = t.Args[0]
			continue
		}
		return t
	}
}

// method splits an event of a method call.
func method(ev *sim.Event) (name string, recv *sim.Term, args []*sim.Term) {
	name = ev.Callee
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok {
		return name, nil, ev.Args
	}
	c := ci.Common()
	if c.IsInvoke() {
		recv, args = ev.Recv, ev.Args
		if len(args) > c.Signature().Params().Len() {
			recv, args = args[0], args[1:]
		}
		return name, recv, args
	}
	if c.Signature().Recv() != nil && len(ev.Args) > 0 {
		return name, ev.Args[0], ev.Args[1:]
	}
	return name, nil, ev.Args
}

func evResult(ev *sim.Event) types.Type {
	if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
		rs := ci.Common().Signature().Results()
		if rs.Len() == 1 {
			return rs.At(0).Type()
		}
		return rs
	}
	return nil
}

var notPure = map[string]bool{"HasNext": true, "Next": true, "UnsafeNext": true, "New": true, "UnsafeNew": true, "Set": true, "UnsafeSet": true}

func isCache(callee, op string) bool {
	return callee == "(*sync.Map)."+op || strings.HasSuffix(callee, "/concurrent.Map)."+op)
}

// cacheID is what identifies a cache.
func cacheID(t *sim.Term) *sim.Term {
	for t.Op == sim.OField {
		t = t.Args[0]
	}
	return t
}

// implemented finds the interface an argument of Implements stands for.
func implemented(t *sim.Term) string {
	out := ""
	t.Any(func(x *sim.Term) bool {
		if x.Op != sim.OIface {
			return false
		}
		if pt, ok := x.Obj.(types.Type).(*types.Pointer); ok {
			switch pt.Elem().String() {
			case "error":
				out = "error"
			case "encoding/json.Marshaler":
				out = "marshaler"
			}
		}
		return false
	})
	return out
}

// isEscaper: jsonfmt.WriteString, which C16 decides, is taken at its word
// where the structure of the output is looked at.
func (j *jenc) isEscaper(fn *ssa.Function) bool {
	return j.prop == "C23" && fn != nil && pkgOf(fn) == jsonfmt && fn.Name() == "WriteString" && fn.Signature.Recv() == nil
}

func (j *jenc) model(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
	T := m.T
	s := j.scen
	if j.prop == "C23" && ev.Callee == mod+"/"+jsonfmt+".WriteString" && len(ev.Args) == 2 {
		return T.Append(ev.Args[0], []*sim.Term{T.Spread(T.Pure("escaped", types.Typ[types.String], content(ev.Args[1])))}, ev.Args[0].Typ), true
	}
	name, recv, args := method(ev)
	rt := evResult(ev)
	callee := ev.Callee
	isR2 := strings.Contains(callee, mod+"/reflect2.")
	switch {
	case name == "HasNext" && recv != nil && isR2:
		// whether there is another entry changes only by taking one
		for i := len(st.Trace) - 1; i >= 0; i-- {
			before := st.Trace[i]
			if before.Kind != "call" || before == ev {
				continue
			}
			n, on, _ := method(before)
			if on == nil || subj(on) != subj(recv) {
				continue
			}
			if n == "HasNext" && before.Res != nil {
				return before.Res, true
			}
			if n == "Next" || n == "UnsafeNext" {
				break
			}
		}
		return nil, false
	case isCache(callee, "Load"):
		if len(args) < 1 {
			return nil, false
		}
		return T.Tuple(T.Pure("cached", types.NewInterfaceType(nil, nil), cacheID(recv), stripIface(args[0])), T.Bool(s.hit)), true
	case isCache(callee, "Store"), strings.Contains(callee, "/concurrent.NewMap"):
		return nil, false
	case isR2 && recv == nil:
		switch name {
		case "TypeOf", "TypeOfPtr":
			if args[0] == s.obj && s.val != nil {
				return s.val, true
			}
			return T.Pure("TypeOf", rt, args[0]), true
		case "RTypeOf":
			if args[0] == s.obj && s.val != nil {
				return T.Pure("RType", rt, s.subj), true
			}
			return T.Pure("RType", rt, T.Pure("TypeOf", j.t2, args[0])), true
		case "PtrOf":
			return T.Pure("PtrOf", rt, args[0]), true
		}
		return T.Pure(name, rt, args...), true
	case recv != nil && (isR2 || strings.Contains(callee, "(reflect.Type).")) && !notPure[name]:
		on := subj(recv)
		if on == s.subj && s.subj != nil {
			switch name {
			case "Kind":
				return T.Const(constInt(int64(s.kind)), rt), true
			case "LikePtr":
				if s.like < 2 {
					return T.Bool(s.like == 1), true
				}
			case "Implements":
				if w := implemented(args[0]); w != "" {
					return T.Bool(w == s.impl), true
				}
			case "NumField", "Len", "UnsafeLengthOf":
				if s.n >= 0 {
					return T.Const(constInt(s.n), rt), true
				}
			}
		}
		if name == "RType" && on == s.subj {
			return T.Pure("RType", rt, on), true
		}
		return T.Pure(name, rt, append([]*sim.Term{on}, args...)...), true
	case callee == "(error).Error" || name == "Error" && recv != nil && len(args) == 0:
		return T.Pure("Error", rt, recv), true
	case name == "MarshalJSON" && recv != nil:
		tup, ok := rt.(*types.Tuple)
		if !ok || tup.Len() != 2 {
			return nil, false
		}
		return T.Tuple(T.Pure("MarshalJSON", tup.At(0).Type(), recv), T.Pure("MarshalJSON.err", tup.At(1).Type(), recv)), true
	}
	return nil, false
}

// kinds finds the reflect2 type made for each kind.
func (j *jenc) kinds() bool {
	fn := j.p.Func("reflect2", "Type2")
	if !j.r.Need(fn != nil, "reflect2.Type2") {
		return false
	}
	j.dyn = map[reflect.Kind][]types.Type{}
	for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
		m := j.p.NewMachine()
		m.Opaque = func(fn *ssa.Function) bool { return pkgOf(fn) != "reflect2" }
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
			name, recv, args := method(ev)
			switch {
			case strings.HasSuffix(ev.Callee, "(reflect.Type).Kind"):
				return m.T.Const(constInt(int64(k)), evResult(ev)), true
			case isCache(ev.Callee, "Load"):
				return m.T.Tuple(m.T.Pure("cached", types.NewInterfaceType(nil, nil), recv, args[0]), m.T.Bool(false)), true
			}
			_ = name
			return nil, false
		}
		args := m.Params(fn, "")
		st := m.NewState()
		st.Facts.Assert(m.T.Eq(args[0], m.T.Nil()), false)
		seen := map[string]bool{}
		for _, o := range m.Run(st, fn, args) {
			if o.Panicked || o.Ret == nil || o.Ret.Op != sim.OIface {
				continue
			}
			d := o.Ret.Obj.(types.Type)
			if strings.Contains(d.String(), ".safe") {
				continue
			}
			if !seen[d.String()] {
				seen[d.String()] = true
				j.dyn[k] = append(j.dyn[k], d)
			}
		}
		if !j.r.Need(len(j.dyn[k]) > 0, "reflect2 type of kind "+k.String()) {
			return false
		}
	}
	return true
}

// scenarioOf makes the type value of a scenario.
func (j *jenc) use(s *scenario, dyn types.Type) {
	T := j.m.T
	s.subj = T.Param("valType", dyn)
	s.val = T.Iface(s.subj, dyn, j.t2)
	j.scen = s
}

// choice is one encoder chosen for the type of a scenario.
type choice struct {
	st   *sim.State
	enc  *sim.Term
	meth *ssa.Function
}

// choose runs phase 1: fn makes the encoder for the scenario's type.
func (j *jenc) choose(fn *ssa.Function, what string) []choice {
	m := j.m
	T := m.T
	j.phase2 = false
	m.MaxSteps = m.Steps + 3000000
	args := m.Params(fn, "mk.")
	st := j.start()
	if i := j.typeParam(fn); i >= 0 {
		args[i] = j.scen.val
	} else if i := j.objParam(fn); i >= 0 {
		j.scen.obj = args[i]
		st.Facts.Assert(T.Eq(args[i], T.Nil()), false)
	}
	for i, q := range fn.Params {
		if j.isCfg(q.Type()) {
			args[i] = j.cfg
		}
	}
	var out []choice
	for _, o := range m.Run(st, fn, args) {
		if !j.r.Ob("encoder-chosen", what, !o.Panicked, where(j.p, fn), "making the encoder of "+what+" panics", trace(o)...) {
			continue
		}
		if j.fromExtension(o) || !j.bytesPath(o) {
			continue
		}
		e := o.Ret
		if e == nil || e.Op != sim.OIface {
			if o.Facts.IsNil(e) {
				j.r.Ob("encoder-chosen", what, false, where(j.p, fn), "no encoder for "+what, trace(o)...)
			} else {
				j.r.Note("%s: the encoder %v is not a known one", what, e)
			}
			continue
		}
		meth := j.p.SSA.LookupMethod(e.Obj.(types.Type), j.p.ByPath[j.p.Path(jsonfmt)].Pkg, "Encode")
		if meth == nil || len(meth.Blocks) == 0 {
			j.r.Note("%s: no Encode for %v", what, e)
			continue
		}
		out = append(out, choice{o, e, meth})
	}
	return out
}

// fromExtension: the encoder was given by a user extension.
func (j *jenc) fromExtension(o *sim.State) bool {
	for _, ev := range o.Trace {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".Extension).EncoderOf") && ev.Res != nil && o.Facts.NonNil(ev.Res) {
			return true
		}
	}
	return false
}

// bytesPath: what the path assumed about the type being []byte agrees with
// the scenario.
func (j *jenc) bytesPath(o *sim.State) bool {
	for a, v := range o.Facts.Atoms {
		if a.Op != sim.OEq || len(a.Args) != 2 {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if subj(y) == j.scen.subj {
			x, y = y, x
		}
		if subj(x) != j.scen.subj && !(x.Op == sim.OPure && (x.Sub == "Type1" || x.Sub == "RType") && x.Args[0] == j.scen.subj) {
			continue
		}
		isBytesT := y.Any(func(t *sim.Term) bool {
			if t.Op != sim.OIface {
				return false
			}
			ty, ok := t.Obj.(types.Type)
			return ok && isBytes(ty)
		})
		if isBytesT && v != (j.scen.bytes == 1) {
			return false
		}
	}
	return true
}

// item is a part of the output.
type item struct {
	lit  string
	t    *sim.Term // appended byte or spread
	ev   *sim.Event
	spr  bool
	what string
}

func (i item) String() string {
	switch {
	case i.ev != nil:
		_, recv, args := method(i.ev)
		if len(args) == 3 {
			return fmt.Sprintf("<%v of %v>", recv, args[2])
		}
		return fmt.Sprintf("<%v>", recv)
	case i.t != nil && i.spr:
		return fmt.Sprintf("%v...", i.t)
	case i.t != nil:
		return i.t.String()
	}
	return fmt.Sprintf("%q", i.lit)
}

// items decomposes what was appended to space.
func (j *jenc) items(o *sim.State, ret, space *sim.Term) ([]item, bool) {
	var rev []item
	for ret != space {
		switch ret.Op {
		case sim.OAppend:
			for i := len(ret.Args) - 1; i >= 1; i-- {
				p := ret.Args[i]
				if p.Op == sim.OSpread {
					if ev := encodeEvent(o, content(p.Args[0])); ev != nil {
						if _, _, as := method(ev); emptySlice(as[1]) || o.Facts.IsNil(as[1]) {
							rev = append(rev, item{ev: ev})
							continue
						}
					}
					for _, q := range revParts(p.Args[0]) {
						if s, ok := content(q).StringVal(); ok {
							rev = append(rev, item{lit: s})
						} else if v, ok := q.Int64(); ok && v >= 0 && v < 256 {
							rev = append(rev, item{lit: string([]byte{byte(v)})})
						} else {
							rev = append(rev, item{t: q, spr: true})
						}
					}
				} else if v, ok := p.Int64(); ok {
					rev = append(rev, item{lit: string([]byte{byte(v)})})
				} else {
					rev = append(rev, item{t: p})
				}
			}
			ret = ret.Args[0]
			continue
		}
		ev := encodeEvent(o, ret)
		if ev == nil {
			return nil, false
		}
		_, _, args := method(ev)
		rev = append(rev, item{ev: ev})
		ret = args[1]
	}
	var out []item
	for i := len(rev) - 1; i >= 0; i-- {
		it := rev[i]
		if it.t == nil && it.ev == nil && len(out) > 0 && out[len(out)-1].t == nil && out[len(out)-1].ev == nil {
			out[len(out)-1].lit += it.lit
			continue
		}
		if it.t == nil && it.ev == nil && it.lit == "" {
			continue
		}
		out = append(out, it)
	}
	return out, true
}

// encodeEvent: the call of an encoder whose result is t.
func encodeEvent(o *sim.State, t *sim.Term) *sim.Event {
	for _, e := range o.Trace {
		if e.Kind == "call" && e.Res == t && t != nil {
			if name, _, args := method(e); name == "Encode" && len(args) == 3 {
				return e
			}
		}
	}
	return nil
}

// flat: the pieces a text is made of.
func flat(t *sim.Term) []*sim.Term {
	t = content(t)
	var out []*sim.Term
	switch {
	case t.Op == sim.OConcat:
		for _, a := range t.Args {
			out = append(out, flat(a)...)
		}
		return out
	case t.Op == sim.OAppend && emptySlice(t.Args[0]):
		for _, a := range t.Args[1:] {
			if a.Op == sim.OSpread {
				out = append(out, flat(a.Args[0])...)
			} else {
				out = append(out, a)
			}
		}
		return out
	}
	return []*sim.Term{t}
}

func revParts(t *sim.Term) []*sim.Term {
	ps := flat(t)
	var out []*sim.Term
	for i := len(ps) - 1; i >= 0; i-- {
		out = append(out, ps[i])
	}
	return out
}

// encodeArgs prepares phase 2.
func (j *jenc) encodeArgs(c choice) (st *sim.State, args []*sim.Term, space, ptr *sim.Term) {
	T := j.m.T
	j.phase2 = true
	j.m.MaxSteps = j.m.Steps + 3000000
	ps := c.meth.Params
	args = []*sim.Term{recvFor(j.m, c.st, c.meth, c.enc.Args[0])}
	for _, q := range ps[1:] {
		args = append(args, T.Param("enc."+q.Name(), q.Type()))
	}
	space, ptr = args[2], args[3]
	st = c.st.Detach()
	return
}

// child describes the encoder used for a part.
type child struct {
	typ   *sim.Term // the type it was made for
	obj   *sim.Term // or the object
	class string    // addr, data, key
	cfg   bool      // made with the configuration at hand
}

func stripAssert(t *sim.Term) *sim.Term {
	for t.Op == sim.OAssert {
		t = t.Args[0]
	}
	return t
}

func (j *jenc) childOf(o *sim.State, e *sim.Term) *child {
	e = stripAssert(stripIface(e))
	if e.Op == sim.OPure && e.Sub == "cached" {
		k := e.Args[1]
		if k.Op == sim.OPure && k.Sub == "RType" {
			if cl := j.caches[e.Args[0]]; cl != "" {
				return &child{typ: subj(k.Args[0]), class: cl, cfg: true}
			}
		}
		return nil
	}
	if e.Op != sim.OCall {
		return nil
	}
	var fn *ssa.Function
	if ci, ok := e.Obj.(ssa.CallInstruction); ok {
		fn = ci.Common().StaticCallee()
		if fn == nil && ci.Common().IsInvoke() {
			fn = j.apiMethod(ci.Common().Method.Name())
		}
	}
	if fn == nil || pkgOf(fn) != jsonfmt {
		return nil
	}
	args := e.Args
	if len(args) > 0 {
		args = args[:len(args)-1] // the sequence number
	}
	off := 0
	var recv *sim.Term
	if len(args) == len(fn.Params)-1 {
		off = 1
		for _, x := range o.Trace {
			if x.Kind == "call" && x.Res == e {
				recv = stripIface(x.Recv)
			}
		}
	}
	c := &child{class: j.class(fn)}
	j.makers[fn] = true
	for i, q := range fn.Params {
		if j.isCfg(q.Type()) {
			if i == 0 && off == 1 {
				c.cfg = recv == j.cfg
			} else if i-off < len(args) {
				c.cfg = args[i-off] == j.cfg
			}
		}
	}
	if i := j.typeParam(fn) - off; i >= 0 && i < len(args) {
		c.typ = subj(args[i])
		if c.typ.Op == sim.OPure && c.typ.Sub == "TypeOf" {
			c.obj = c.typ.Args[0]
		}
	} else if i := j.objParam(fn) - off; i >= 0 && i < len(args) {
		c.obj = args[i]
	}
	return c
}

// apiMethod: the implementation of a method of jsonfmt.API.
func (j *jenc) apiMethod(name string) *ssa.Function {
	sp := j.p.ByPath[j.p.Path(jsonfmt)]
	for _, t := range implementers(j.p, j.api, jsonfmt) {
		if fn := j.p.SSA.LookupMethod(t, sp.Pkg, name); fn != nil && len(fn.Blocks) > 0 {
			return fn
		}
	}
	return nil
}

// class tells what the encoders made by fn expect: the address of the value
// (addr), the data word of an interface (data), or the address of a map key
// (key).
func (j *jenc) class(fn *ssa.Function) string {
	if c, ok := j.classes[fn.String()]; ok {
		return c
	}
	j.classes[fn.String()] = ""
	saved, savedPhase, rr := j.scen, j.phase2, j.r
	su, sa, sm := j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter
	j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter = 0, false, 2
	defer func() {
		j.scen, j.phase2, j.r = saved, savedPhase, rr
		j.m.Unroll, j.m.AbstractFirst, j.m.MaxIter = su, sa, sm
	}()
	j.r = newReport("scratch")
	cls := map[string]bool{}
	j.use(&scenario{kind: reflect.Bool, n: -1}, j.dyn[reflect.Bool][0])
	for _, c := range j.choose(fn, "class") {
		st, args, space, _ := j.encodeArgs(c)
		for _, o := range j.m.Run(st, c.meth, args) {
			if o.Panicked {
				continue
			}
			if its, ok := j.items(o, o.Ret, space); ok && len(its) > 0 && strings.HasSuffix(its[len(its)-1].lit, ":") {
				cls["key"] = true
			}
		}
	}
	if cls["key"] {
		j.classes[fn.String()] = "key"
		return "key"
	}
	s := &scenario{kind: reflect.Ptr, like: 1, n: -1}
	j.use(s, j.dyn[reflect.Ptr][0])
	for _, c := range j.choose(fn, "class") {
		st, args, space, ptr := j.encodeArgs(c)
		loaded := j.m.Load(st, ptr, types.Typ[types.UnsafePointer])
		for _, o := range j.m.Run(st, c.meth, args) {
			if o.Panicked {
				continue
			}
			its, ok := j.items(o, o.Ret, space)
			if !ok {
				continue
			}
			for _, it := range its {
				if it.ev == nil {
					continue
				}
				_, e, as := method(it.ev)
				scen := j.scen
				ch := j.childOf(o, e)
				j.scen = scen
				switch {
				case ch != nil && ch.typ == s.subj && as[2] == ptr:
					cls[ch.class] = true
				case as[2] == loaded:
					cls["addr"] = true
				case as[2] == ptr:
					cls["data"] = true
				}
			}
		}
	}
	delete(cls, "")
	if len(cls) == 1 {
		for k := range cls {
			j.classes[fn.String()] = k
		}
	}
	return j.classes[fn.String()]
}

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }
