package sim

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Elements resolves the elements of a slice term when its length and content
// are known.
func (m *Machine) Elements(st *State, s *Term) ([]*Term, bool) {
	if s.Op == ONil || s.Op == OZero && isSliceTyp(s.Typ) {
		return nil, true
	}
	if s.Op == OAppend {
		var out []*Term
		base, ok := m.Elements(st, s.Args[0])
		if !ok {
			return nil, false
		}
		out = append(out, base...)
		for _, p := range s.Args[1:] {
			if p.Op == OSpread {
				es, ok := m.Elements(st, p.Args[0])
				if !ok {
					return nil, false
				}
				out = append(out, es...)
			} else {
				out = append(out, p)
			}
		}
		return out, true
	}
	if s.Op != OSlice {
		return nil, false
	}
	lo, ok1 := s.Args[1].Int64()
	hi, ok2 := s.Args[2].Int64()
	if ok1 && ok2 && s.Args[0].Op == OAppend {
		if es, ok := m.Elements(st, s.Args[0]); ok && 0 <= lo && lo <= hi && int(hi) <= len(es) {
			return append([]*Term(nil), es[lo:hi]...), true
		}
		return nil, false
	}
	if !ok1 || !ok2 || hi-lo > 64 || s.Args[0].Op != OAlloc {
		return nil, false
	}
	if s.Typ == nil {
		return nil, false
	}
	sl, ok := s.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	var out []*Term
	for i := lo; i < hi; i++ {
		out = append(out, m.Load(st, m.T.Index(s.Args[0], m.T.Int(i), sl.Elem()), sl.Elem()))
	}
	return out, true
}

func (m *Machine) callEvent(st *State, c *ssa.CallCommon, in ssa.Instruction) *Event {
	ev := &Event{Kind: "call", Instr: in}
	if c.IsInvoke() {
		ev.Recv = m.val(st, c.Value)
		ev.Callee = c.Method.FullName()
	} else {
		ev.Recv = m.val(st, c.Value)
		ev.Callee = m.calleeName(ev.Recv)
	}
	for _, a := range c.Args {
		ev.Args = append(ev.Args, m.val(st, a))
	}
	if sig := c.Signature(); sig != nil && sig.Variadic() && len(ev.Args) > 0 {
		if es, ok := m.Elements(st, ev.Args[len(ev.Args)-1]); ok {
			ev.Var, ev.HasVar = es, true
		}
	}
	return ev
}

func (m *Machine) calleeName(fv *Term) string {
	switch fv.Op {
	case OFunc:
		return fv.Sub
	case OClosure:
		return fv.Sub
	case OLoad:
		if fv.Args[0].Op == OGlobal {
			return "var " + fv.Args[0].Sub
		}
		if fv.Args[0].Op == OField {
			return "field " + fv.Args[0].Sub
		}
	}
	return "dyn"
}

const maxDepth = 48

func (m *Machine) inlinable(st *State, fn *ssa.Function, args ...*Term) bool {
	if fn == nil || len(fn.Blocks) == 0 || len(st.frames) >= maxDepth {
		return false
	}
	if m.Opaque != nil && m.Opaque(fn) && !isStandIn(fn) {
		return false
	}
	if !m.IsRepo(fn) && !isStandIn(fn) {
		return false
	}
	if m.OpaqueCall != nil && m.OpaqueCall(fn, args) {
		return false
	}
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if m.NoRecurse {
		return n < 1
	}
	if m.Depth > 0 {
		return n < m.Depth
	}
	return n < 2
}

// doCall performs a call in the top frame.  result is the SSA value bound to
// the result (nil for deferred calls).  On return pc has been advanced, or a
// frame pushed with the caller's pc already advanced (for deferred calls the
// caller's pc stays, so that the defer loop continues).
func (m *Machine) doCall(st *State, c *ssa.CallCommon, fv *Term, args []*Term, result ssa.Value, site ssa.Instruction, isDefer bool) ([]*State, bool) {
	f := st.top()
	T := m.T
	adv := func(s *State) {
		if !isDefer {
			s.top().pc++
		}
	}
	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(st, b, c, args, result, site, isDefer)
	}
	enter := func(s *State, fn *ssa.Function, as []*Term, bs []*Term) {
		adv(s)
		nf := m.enter(s, fn, as, bs, result, site)
		nf.deferRun = isDefer
	}
	if c.IsInvoke() {
		if st.Facts.IsNil(fv) {
			return m.raise(st, T.Sym("runtime error: nil interface call", nil), site)
		}
		if fv.Op == OIface {
			dyn := fv.Obj.(types.Type)
			fn := f.fn.Prog.LookupMethod(dyn, c.Method.Pkg(), c.Method.Name())
			if m.inlinable(st, fn, append([]*Term{fv.Args[0]}, args...)...) {
				enter(st, fn, append([]*Term{fv.Args[0]}, args...), nil)
				return nil, true
			}
			if fn != nil {
				return m.opaque(st, c, fn.String(), fv, append([]*Term{fv.Args[0]}, args...), result, site, isDefer)
			}
		}
		if m.Resolve != nil {
			if fns := m.Resolve(st, c, fv); len(fns) > 0 {
				var forks []*State
				for _, fn := range fns[1:] {
					if !m.inlinable(st, fn) {
						continue
					}
					o := st.Clone()
					rt := fn.Signature.Recv().Type()
					o.Facts.Assert(m.isType(fv, rt), true)
					recv := T.mk(OAssert, rt.String(), rt, nil, fv)
					enter(o, fn, append([]*Term{recv}, args...), nil)
					forks = append(forks, o)
				}
				fn := fns[0]
				if m.inlinable(st, fn) {
					rt := fn.Signature.Recv().Type()
					st.Facts.Assert(m.isType(fv, rt), true)
					recv := T.mk(OAssert, rt.String(), rt, nil, fv)
					enter(st, fn, append([]*Term{recv}, args...), nil)
					return forks, true
				}
				if len(forks) > 0 {
					return forks, false
				}
			}
		}
		return m.opaque(st, c, c.Method.FullName(), fv, args, result, site, isDefer)
	}
	switch fv.Op {
	case OFunc:
		fn, _ := fv.Obj.(*ssa.Function)
		if m.inlinable(st, fn, args...) {
			enter(st, fn, args, nil)
			return nil, true
		}
		if s := m.standIn(st, fn); s != nil {
			enter(st, s, args, nil)
			return nil, true
		}
	case OClosure:
		fn := fv.Obj.(*ssa.Function)
		if m.inlinable(st, fn, args...) {
			enter(st, fn, args, fv.Args)
			return nil, true
		}
	}
	if st.Facts.IsNil(fv) {
		return m.raise(st, T.Sym("runtime error: nil function call", nil), site)
	}
	return m.opaque(st, c, m.calleeName(fv), fv, args, result, site, isDefer)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "path/filepath": true, "path": true, "math": true, "unicode/utf8": true, "unicode": true, "bytes": true, "math/bits": true}

func isPure(callee string) bool {
	switch callee {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "reflect.TypeOf", "reflect.ValueOf", "(error).Error", "(fmt.Stringer).String", "runtime.FuncForPC", "(*runtime.Func).Name", "os.IsNotExist", "os.IsExist", "errors.Is",
		"(context.Context).Done", "sync/atomic.LoadInt64", "sync/atomic.LoadPointer":
		return true
	}
	if strings.HasPrefix(callee, "(time.Time).") || strings.HasPrefix(callee, "(time.Duration).") {
		return true
	}
	if strings.HasPrefix(callee, "time.Unix") || strings.HasPrefix(callee, "time.Parse") || strings.HasPrefix(callee, "time.Date") {
		return true
	}
	if strings.HasPrefix(callee, "(os.FileInfo).") || strings.HasPrefix(callee, "(io/fs.FileInfo).") || strings.HasPrefix(callee, "(io/fs.FileMode).") || strings.HasPrefix(callee, "(io/fs.DirEntry).") {
		return true
	}
	if strings.HasPrefix(callee, "(reflect.") {
		return true
	}
	if i := strings.LastIndex(callee, "."); i > 0 && purePkgs[callee[:i]] {
		return true
	}
	return false
}

func resultType(c *ssa.CallCommon) types.Type {
	r := c.Signature().Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// opaque handles a call whose body is not analysed.
func (m *Machine) opaque(st *State, c *ssa.CallCommon, callee string, fv *Term, args []*Term, result ssa.Value, site ssa.Instruction, isDefer bool) ([]*State, bool) {
	T := m.T
	ev := &Event{Kind: "call", Callee: callee, Recv: fv, Args: args, Instr: site, Defer: isDefer}
	if sig := c.Signature(); sig.Variadic() && len(args) > 0 {
		if es, ok := m.Elements(st, args[len(args)-1]); ok {
			ev.Var, ev.HasVar = es, true
		}
	}
	var res *Term
	handled := false
	if m.Model != nil {
		res, handled = m.Model(m, st, ev)
	}
	rt := resultType(c)
	if !handled {
		if isPure(callee) {
			as := args
			if c.IsInvoke() && (fv.Op != OIface || len(args) == 0) {
				as = append([]*Term{fv}, args...)
			}
			if ev.HasVar {
				as = append(append([]*Term(nil), as[:len(as)-1]...), ev.Var...)
			}
			res = T.mk(OPure, callee, rt, nil, as...)
		} else {
			st.seq++
			res = T.mk(OCall, callee, rt, site, append(append([]*Term(nil), args...), T.Sym(fmt.Sprintf("#%d", st.seq), nil))...)
		}
	}
	ev.Res = res
	var forks []*State
	doPanic := m.PanicAt != nil && m.PanicAt(st, ev)
	m.emit(st, ev)
	if doPanic {
		o := st.Clone()
		// the event stays in the trace: the call happened and panicked
		pe := *ev
		pe.Kind = "callpanic"
		o.Trace[len(o.Trace)-1] = &pe
		o.Trace = append([]*Event(nil), o.Trace...)
		o.Trace[len(o.Trace)-1] = &pe
		st.Trace[len(st.Trace)-1] = ev
		o.seq++
		pv := T.Sym(fmt.Sprintf("panic(%s)#%d", callee, o.seq), types.NewInterfaceType(nil, nil))
		o.Facts.Assert(T.Eq(pv, T.Nil()), false)
		fs, alive := m.raise(o, pv, site)
		forks = append(forks, fs...)
		if alive {
			forks = append(forks, o)
		}
	}
	// effects
	if !handled && m.mayWrite(c, callee) && (m.NoHavoc == nil || !m.NoHavoc(ev)) {
		for _, a := range args {
			m.Havoc(st, a)
		}
		if ev.HasVar {
			for _, a := range ev.Var {
				m.Havoc(st, a)
			}
		}
	}
	if result != nil {
		st.top().env[result] = res
	}
	if !isDefer {
		st.top().pc++
	}
	return forks, true
}

func (m *Machine) mayWrite(c *ssa.CallCommon, callee string) bool {
	if c.IsInvoke() {
		switch callee {
		case "(error).Error", "(io.Writer).Write", "(io.Closer).Close", "(context.Context).Done", "(context.Context).Value", "(fmt.Stringer).String":
			return false
		}
		return !isPure(callee)
	}
	if fn := c.StaticCallee(); fn != nil {
		switch fn.String() {
		case "io.ReadFull", "io.ReadAtLeast", "runtime.Stack", "(*os.File).Read", "(*bufio.Reader).Read":
			return true
		}
		if m.IsRepo(fn) {
			return true
		}
		return false
	}
	return true
}

// wholeArray: the elements of a slice of a whole array of interfaces, pointers
// or structs.
func (m *Machine) wholeArray(st *State, s *Term) ([]*Term, bool) {
	if s.Op != OSlice || s.Args[0].Op != OAlloc || s.Args[0].Typ == nil {
		return nil, false
	}
	pt, ok := s.Args[0].Typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return nil, false
	}
	if _, basic := at.Elem().Underlying().(*types.Basic); basic {
		return nil, false
	}
	if hi, ok := s.Args[2].Int64(); !ok || hi != at.Len() {
		return nil, false
	}
	return m.Elements(st, s)
}

func (m *Machine) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, result ssa.Value, site ssa.Instruction, isDefer bool) ([]*State, bool) {
	T := m.T
	f := st.top()
	var res *Term
	switch b.Name() {
	case "len":
		if isMapTyp(c.Args[0].Type()) || isChan(c.Args[0].Type()) {
			res = T.mk(OLen, fmt.Sprintf("%d", st.version(args[0])), types.Typ[types.Int], nil, args[0])
			if isMapTyp(c.Args[0].Type()) && (st.Facts.IsNil(args[0]) || m.emptyMap(st, args[0])) {
				res = T.Int(0)
			}
		} else {
			res = T.Len(args[0])
		}
	case "cap":
		res = T.mk(OCap, "", types.Typ[types.Int], nil, args[0])
		st.Facts.AssertLe(T.Len(args[0]), res)
	case "append":
		var pieces []*Term
		if len(args) > 1 {
			x := args[1]
			if es, ok := m.Elements(st, x); ok && x.Op != OAppend {
				pieces = es
			} else if s, isC := x.StringVal(); isC && s == "" {
				pieces = nil
			} else {
				pieces = []*Term{T.Spread(x)}
			}
		}
		typ := c.Args[0].Type()
		base := args[0]
		if es, ok := m.wholeArray(st, base); ok && len(pieces) > 0 {
			// a slice without spare capacity is copied
			base, pieces = T.Zero(typ), append(es, pieces...)
		}
		res = nil
		if m.InPlace && len(pieces) > 0 {
			res = m.appendInPlace(st, base, pieces, typ)
		}
		if res == nil {
			res = T.Append(base, pieces, typ)
		}
		ev := &Event{Kind: "append", Recv: args[0], Args: pieces, Res: res, Instr: site}
		if m.Records["append"] {
			m.emit(st, ev)
		}
	case "copy":
		st.seq++
		res = T.Sym(fmt.Sprintf("copied#%d", st.seq), types.Typ[types.Int])
		dl, sl := T.Len(args[0]), T.Len(args[1])
		if st.Facts.Leq(dl, sl) {
			res = dl
		} else if st.Facts.Leq(sl, dl) {
			res = sl
		} else {
			st.Facts.AssertLe(T.Int(0), res)
			st.Facts.AssertLe(res, dl)
			st.Facts.AssertLe(res, sl)
		}
		m.emit(st, &Event{Kind: "copy", Callee: "copy", Args: args, Res: res, Instr: site})
		if !m.copyElems(st, args[0], args[1], res) {
			m.havocElems(st, args[0])
		}
	case "delete":
		x, k := args[0], args[1]
		m.emit(st, &Event{Kind: "mapdelete", Recv: x, Args: []*Term{k}, Instr: site, Defer: isDefer})
		m.mapSet(st, x, k, T.Sym(absentKey, nil))
	case "close":
		m.emit(st, &Event{Kind: "close", Recv: args[0], Instr: site, Defer: isDefer})
	case "recover":
		res = T.Nil()
		if f.deferRun && len(st.frames) >= 2 {
			p := st.frames[len(st.frames)-2]
			if p.unwind && !p.recov {
				p.recov = true
				res = p.pval
				m.emit(st, &Event{Kind: "recover", Res: res, Instr: site})
			}
		}
	case "print", "println":
	case "ssa:wrapnilchk":
		res = args[0]
	case "min", "max":
		res = T.mk(OMin, b.Name(), resultType(c), nil, args...)
	default:
		st.seq++
		res = T.Sym(fmt.Sprintf("%s#%d", b.Name(), st.seq), resultType(c))
	}
	if result != nil && res != nil {
		f.env[result] = res
	}
	if !isDefer {
		f.pc++
	}
	return nil, true
}

// appendInPlace appends known elements to a slice of known capacity.
func (m *Machine) appendInPlace(st *State, base *Term, pieces []*Term, typ types.Type) *Term {
	T := m.T
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	arr, lo, hi := base, int64(0), int64(0)
	if base.Op == OSlice {
		var ok1, ok2 bool
		lo, ok1 = base.Args[1].Int64()
		hi, ok2 = base.Args[2].Int64()
		if !ok1 || !ok2 {
			return nil
		}
		arr = base.Args[0]
	} else if hi, ok = T.Len(base).Int64(); !ok {
		return nil
	}
	if arr.Op != OAlloc {
		return nil
	}
	max := int64(0)
	if len(arr.Args) > 1 {
		max, ok = arr.Args[1].Int64()
	} else if pt, isP := arr.Typ.Underlying().(*types.Pointer); isP {
		at, isA := pt.Elem().Underlying().(*types.Array)
		if ok = isA; ok {
			max = at.Len()
		}
	} else {
		ok = false
	}
	if !ok || max > 4096 {
		return nil
	}
	for i, p := range pieces {
		if p.Op == OSpread {
			es, ok := m.Elements(st, p.Args[0])
			if !ok {
				return nil
			}
			pieces = append(append(append([]*Term(nil), pieces[:i]...), es...), pieces[i+1:]...)
			return m.appendInPlace(st, base, pieces, typ)
		}
	}
	if hi+int64(len(pieces)) <= max {
		for i, p := range pieces {
			m.Store(st, T.Index(arr, T.Int(hi+int64(i)), sl.Elem()), p, sl.Elem())
		}
		return T.SliceOf(arr, T.Int(lo), T.Int(hi+int64(len(pieces))), typ)
	}
	var old []*Term
	for i := lo; i < hi; i++ {
		old = append(old, m.Load(st, T.Index(arr, T.Int(i), sl.Elem()), sl.Elem()))
	}
	return T.Append(T.Zero(typ), append(old, pieces...), typ)
}

// copyElems copies a known number of elements into a slice made before.
func (m *Machine) copyElems(st *State, dst, src, n *Term) bool {
	k, ok := n.Int64()
	if !ok || k > 64 || dst.Typ == nil {
		return false
	}
	sl, ok := dst.Typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	at := func(s *Term) (*Term, int64, bool) {
		lo := int64(0)
		if s.Op == OSlice {
			l, ok := s.Args[1].Int64()
			if !ok {
				return nil, 0, false
			}
			s, lo = s.Args[0], l
		}
		return s, lo, true
	}
	d, dlo, ok := at(dst)
	if !ok || d.Op != OAlloc {
		return false
	}
	var vals []*Term
	if es, known := m.Elements(st, src); known && int64(len(es)) >= k {
		vals = es[:k]
	} else if isStringTyp(src.Typ) {
		for i := int64(0); i < k; i++ {
			vals = append(vals, m.elem(src, m.T.Int(i), sl.Elem()))
		}
	} else {
		b, lo, ok := at(src)
		if !ok {
			return false
		}
		for i := int64(0); i < k; i++ {
			vals = append(vals, m.Load(st, m.T.Index(b, m.T.Int(lo+i), sl.Elem()), sl.Elem()))
		}
	}
	for i, v := range vals {
		m.Store(st, m.T.Index(d, m.T.Int(dlo+int64(i)), sl.Elem()), v, sl.Elem())
	}
	return true
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (m *Machine) havocElems(st *State, s *Term) {
	base := s
	if base.Op == OSlice {
		base = base.Args[0]
	}
	for k := range st.Heap {
		if k.Op == OIndex && k.Args[0] == base {
			delete(st.Heap, k)
		}
	}
	st.ver[base]++
}

// ret returns from the top frame.
func (m *Machine) ret(st *State, rs []*Term) ([]*State, bool) {
	f := st.top()
	var res *Term
	switch len(rs) {
	case 0:
	case 1:
		res = rs[0]
	default:
		res = m.T.Tuple(rs...)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.Ret = res
		return nil, true
	}
	if f.call != nil && res != nil {
		st.top().env[f.call] = res
	}
	return nil, true
}

// raise starts a panic at the top frame.
func (m *Machine) raise(st *State, v *Term, in ssa.Instruction) ([]*State, bool) {
	if st.PanicAt == nil || !st.Panicked {
		st.PanicAt = in
	}
	m.emit(st, &Event{Kind: "panic", Val: v, Instr: in})
	f := st.top()
	f.unwind = true
	f.recov = false
	f.pval = v
	return nil, true
}

// stepUnwind runs the deferred calls of a panicking frame.
func (m *Machine) stepUnwind(st *State, f *Frame) ([]*State, bool) {
	if f.recov {
		// recovered: the function returns normally to its caller
		f.unwind = false
		if len(f.defers) > 0 || f.fn.Recover == nil {
			// remaining defers run as normal ones
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				f.unwind = true
				f.pval = m.T.Nil()
				return m.doCall(st, d.call, d.recv, d.args, nil, d.in, true)
			}
			var rs []*Term
			r := f.fn.Signature.Results()
			for i := 0; i < r.Len(); i++ {
				rs = append(rs, m.T.Zero(r.At(i).Type()))
			}
			return m.ret(st, rs)
		}
		f.block = f.fn.Recover
		f.prev = nil
		f.pc = 0
		return nil, true
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return m.doCall(st, d.call, d.recv, d.args, nil, d.in, true)
	}
	// propagate
	v := f.pval
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.Panicked = true
		st.PanicVal = v
		return nil, true
	}
	p := st.top()
	if p.unwind {
		// panic inside a deferred call replaces the previous one
		p.recov = false
	}
	p.unwind = true
	p.pval = v
	return nil, true
}

var _ = token.ADD
