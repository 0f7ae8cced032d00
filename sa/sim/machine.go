package sim

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step of a path.
type Event struct {
	Kind   string // call, go, defer, send, recv, select, store, mapupdate, mapdelete, lookup, copy, panic, close, return
	Callee string
	Recv   *Term // receiver of an invoke / function value of a dynamic call
	Args   []*Term
	Var    []*Term // resolved variadic elements, when known
	HasVar bool
	Res    *Term
	Addr   *Term
	Val    *Term
	Idx    int
	Block  bool // blocking select
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Stack  []*ssa.Function // innermost first
	Defer  bool
	Iter   string // loop iteration tag, e.g. "12:0"
	Snap   *State // memory and facts just before the event, when requested
}

func (e *Event) Pos(prog *ssa.Program) string {
	if e.Instr == nil {
		return "?"
	}
	return PosOf(e.Instr)
}

func PosOf(in ssa.Instruction) string {
	fn := in.Parent()
	p := in.Pos()
	if !p.IsValid() {
		p = fn.Pos()
	}
	if !p.IsValid() || fn.Prog == nil {
		return fn.String()
	}
	pos := fn.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d (%s)", strings.TrimPrefix(pos.Filename, "/repo/"), pos.Line, fn.String())
}

type deferred struct {
	fn   *Term
	call *ssa.CallCommon
	args []*Term // resolved args (receiver first for static methods)
	recv *Term
	in   ssa.Instruction
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]*Term
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []deferred
	call     ssa.Value // value in the caller to bind
	key      string    // call path
	id       int
	iter     map[*ssa.BasicBlock]int
	lheap    map[*ssa.BasicBlock]map[*Term]*Term
	lseq     map[*ssa.BasicBlock]int
	phiInit  map[*ssa.Phi]*Term
	deferRun bool // this frame runs a deferred call of its parent
	unwind   bool // this frame is panicking, running defers
	recov    bool
	pval     *Term
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.iter = make(map[*ssa.BasicBlock]int, len(f.iter))
	for k, v := range f.iter {
		g.iter[k] = v
	}
	g.lheap = make(map[*ssa.BasicBlock]map[*Term]*Term, len(f.lheap))
	for k, v := range f.lheap {
		g.lheap[k] = v
	}
	g.lseq = make(map[*ssa.BasicBlock]int, len(f.lseq))
	for k, v := range f.lseq {
		g.lseq[k] = v
	}
	g.phiInit = make(map[*ssa.Phi]*Term, len(f.phiInit))
	for k, v := range f.phiInit {
		g.phiInit[k] = v
	}
	return &g
}

type State struct {
	frames []*Frame
	Heap   map[*Term]*Term
	ver    map[*Term]int
	Facts  *Facts
	Trace  []*Event
	seq    int
	// terminal
	Ret      *Term // result term (tuple for several)
	Panicked bool
	PanicVal *Term
	PanicAt  ssa.Instruction
	Data     interface{}
	Tags     map[string]bool
}

func (st *State) Clone() *State {
	n := &State{seq: st.seq, Facts: st.Facts.Clone(), Ret: st.Ret, Panicked: st.Panicked, PanicVal: st.PanicVal, PanicAt: st.PanicAt, Data: st.Data}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		n.frames[i] = f.clone()
	}
	n.Heap = make(map[*Term]*Term, len(st.Heap)+4)
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.ver = make(map[*Term]int, len(st.ver))
	for k, v := range st.ver {
		n.ver[k] = v
	}
	n.Trace = st.Trace[:len(st.Trace):len(st.Trace)]
	if st.Tags != nil {
		n.Tags = map[string]bool{}
		for k, v := range st.Tags {
			n.Tags[k] = v
		}
	}
	return n
}

// Detach copies the memory and facts of a snapshot without its call stack.
func (st *State) Detach() *State {
	n := st.Clone()
	n.frames = nil
	n.Trace = nil
	n.Ret, n.Panicked, n.PanicVal, n.PanicAt = nil, false, nil, nil
	return n
}

// Seq is the allocation counter: objects made later have larger numbers.
func (st *State) Seq() int { return st.seq }

func (st *State) Tag(s string) {
	if st.Tags == nil {
		st.Tags = map[string]bool{}
	}
	st.Tags[s] = true
}

// Machine explores paths.
type Machine struct {
	T        *Terms
	IsRepo   func(fn *ssa.Function) bool
	Opaque   func(fn *ssa.Function) bool
	Std      map[string]*ssa.Function // stand-ins to interpret for functions of the standard library
	PanicAt  func(st *State, ev *Event) bool
	NoHavoc  func(ev *Event) bool
	Resolve  func(st *State, call *ssa.CallCommon, recv *Term) []*ssa.Function
	Model    func(m *Machine, st *State, ev *Event) (*Term, bool)
	OnIndex  func(st *State, in ssa.Instruction, idx, n *Term, ok bool)
	OnSlice  func(st *State, in ssa.Instruction, base, lo, hi, max *Term, ok bool)
	OnAssert func(st *State, in *ssa.TypeAssert, x *Term)
	OnDeref  func(st *State, in ssa.Instruction, addr *Term, write bool, val *Term)
	OnNilMap func(st *State, in ssa.Instruction)
	SnapAt   func(ev *Event) bool
	OnBlock  func(st *State, b *ssa.BasicBlock) bool // false prunes
	OnArrive func(e *LoopEvent) bool                 // abstract loops: values reaching a header; false prunes
	OnHeader func(e *LoopEvent)                      // abstract loops: the symbols the header starts with
	Global   func(g *ssa.Global) *Term               // resolved initial value or nil
	// Freeze: loads of this address keep symbolic identity through havoc
	MaxSteps int
	MaxPaths int
	MaxIter  int
	// AbstractFirst enters every loop in an arbitrary iteration (nothing is
	// known about what earlier iterations did but the loop invariants).
	AbstractFirst bool
	// Depth: how many calls of a function are followed at a time (2 if 0).
	Depth int
	// NoRecurse: a recursive call is opaque.
	NoRecurse bool
	// InPlace: appending to a slice with known spare capacity writes there.
	InPlace bool
	// OpaqueCall: calls with these arguments are opaque.
	OpaqueCall func(fn *ssa.Function, args []*Term) bool
	// Words: an interface in memory can be taken apart into (and put
	// together from) its two words through a pointer to a struct.
	Words bool
	// Unroll > 0 follows loops exactly, for at most this many iterations.
	Unroll  int
	Cut     int             // paths ended by Unroll
	Records map[string]bool // extra event kinds to record: store, lookup

	Steps    int
	Paths    int
	Pruned   int
	Overflow bool
	Funcs    map[*ssa.Function]bool
	loopMods map[string]map[*Term]types.Type
	changed  bool
}

// LoopEvent is an arrival at (or the start of) an abstract loop iteration.
type LoopEvent struct {
	St     *State
	Key    string
	Header *ssa.BasicBlock
	Phis   []*ssa.Phi
	Vals   []*Term
	Back   bool
	f      *Frame
}

// Env is the value of v in the function of the loop.
func (e *LoopEvent) Env(v ssa.Value) *Term { return e.f.env[v] }

func NewMachine(isRepo func(fn *ssa.Function) bool) *Machine {
	return &Machine{T: NewTerms(), IsRepo: isRepo, MaxSteps: 3000000, MaxPaths: 60000, MaxIter: 2,
		Records: map[string]bool{}, Funcs: map[*ssa.Function]bool{}, loopMods: map[string]map[*Term]types.Type{}}
}

func (m *Machine) NewState() *State {
	return &State{Heap: map[*Term]*Term{}, ver: map[*Term]int{}, Facts: NewFacts(m.T)}
}

// Params makes symbolic parameters for fn.
func (m *Machine) Params(fn *ssa.Function, prefix string) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		out = append(out, m.T.Param(prefix+p.Name(), p.Type()))
	}
	return out
}

// Run explores fn(args) from st and returns all terminal states.  The
// exploration is repeated until the sets of cells modified by each loop are
// stable, so that the abstract iteration covers every real one.
func (m *Machine) Run(st0 *State, fn *ssa.Function, args []*Term) []*State {
	return m.run(st0, func(st *State) { m.enter(st, fn, args, nil, nil, nil) })
}

// RunValue explores a call of a function value.
func (m *Machine) RunValue(st0 *State, fv *Term, args []*Term) []*State {
	switch fv.Op {
	case OFunc:
		return m.Run(st0, fv.Obj.(*ssa.Function), args)
	case OClosure:
		return m.run(st0, func(st *State) { m.enter(st, fv.Obj.(*ssa.Function), args, fv.Args, nil, nil) })
	}
	return nil
}

func (m *Machine) run(st0 *State, start func(st *State)) []*State {
	for round := 0; ; round++ {
		m.changed = false
		st := st0.Clone()
		st.Ret, st.Panicked = nil, false
		start(st)
		out := m.explore(st)
		if !m.changed || round > 6 {
			return out
		}
	}
}

func (m *Machine) explore(st *State) []*State {
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if len(out) > m.MaxPaths || m.Steps > m.MaxSteps {
			m.Overflow = true
			break
		}
		for {
			if len(s.frames) == 0 {
				out = append(out, s)
				m.Paths++
				break
			}
			m.Steps++
			if m.Steps&1023 == 0 && TimeUp() {
				m.Overflow = true
				return out
			}
			if m.Steps > m.MaxSteps {
				break
			}
			forks, alive := m.step(s)
			work = append(work, forks...)
			if !alive {
				m.Pruned++
				break
			}
		}
	}
	return out
}

// Deadline: when to stop exploring (never if zero).
var Deadline time.Time

func TimeUp() bool { return !Deadline.IsZero() && time.Now().After(Deadline) }

// MakeSlice is a new slice of n elements.
func (m *Machine) MakeSlice(name string, n int64, typ types.Type) *Term {
	return m.T.mk(OAlloc, name, typ, nil, m.T.Int(n), m.T.Int(n))
}

func (m *Machine) enter(st *State, fn *ssa.Function, args []*Term, bindings []*Term, result ssa.Value, site ssa.Instruction) *Frame {
	st.seq++
	key := fn.String()
	if len(st.frames) > 0 {
		p := st.frames[len(st.frames)-1]
		idx := -1
		if site != nil {
			idx = instrIndex(site)
		}
		key = fmt.Sprintf("%s/%d>%s", p.key, idx, key)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], call: result, key: key, id: st.seq,
		iter: map[*ssa.BasicBlock]int{}, lheap: map[*ssa.BasicBlock]map[*Term]*Term{}, lseq: map[*ssa.BasicBlock]int{}, phiInit: map[*ssa.Phi]*Term{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = m.T.Sym(fmt.Sprintf("arg%d#%d", i, st.seq), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			f.env[fv] = bindings[i]
		} else {
			f.env[fv] = m.T.Sym(fmt.Sprintf("fv%s#%d", fv.Name(), st.seq), fv.Type())
		}
	}
	m.Funcs[fn] = true
	st.frames = append(st.frames, f)
	return f
}

func instrIndex(in ssa.Instruction) int {
	b := in.Block()
	if b == nil {
		return -1
	}
	for i, x := range b.Instrs {
		if x == in {
			return b.Index*1000 + i
		}
	}
	return -1
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Stack returns the functions on the stack, innermost first.
func (st *State) Stack() []*ssa.Function {
	var out []*ssa.Function
	for i := len(st.frames) - 1; i >= 0; i-- {
		out = append(out, st.frames[i].fn)
	}
	return out
}

func (st *State) iterTag() string {
	var sb strings.Builder
	for _, f := range st.frames {
		for b, n := range f.iter {
			fmt.Fprintf(&sb, "%d.%d=%d;", f.id, b.Index, n)
		}
	}
	return sb.String()
}

func (m *Machine) emit(st *State, ev *Event) {
	if len(st.frames) > 0 {
		ev.Fn = st.top().fn
		ev.Stack = st.Stack()
	}
	if m.SnapAt != nil && m.SnapAt(ev) {
		ev.Snap = st.Clone()
	}
	st.Trace = append(st.Trace, ev)
}

// LoadGlobal is the value of a package variable in st.
func (m *Machine) LoadGlobal(st *State, g *ssa.Global) *Term {
	return m.Load(st, m.T.mk(OGlobal, g.String(), g.Type(), g), g.Type().(*types.Pointer).Elem())
}

// FieldOf loads a field of the struct at address addr.
func (m *Machine) FieldOf(st *State, addr *Term, typ types.Type, name string) *Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == name {
			return m.Load(st, m.T.Field(addr, name, f.Type()), f.Type())
		}
	}
	return nil
}

// Val evaluates an SSA value in the top frame.
func (m *Machine) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return m.T.Zero(v.Type())
		}
		return m.T.Const(v.Value, v.Type())
	case *ssa.Global:
		return m.T.mk(OGlobal, v.String(), v.Type(), v)
	case *ssa.Function:
		return m.T.Func(v)
	case *ssa.Builtin:
		return m.T.mk(OFunc, "builtin "+v.Name(), v.Type(), nil)
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	return m.T.Sym("undef:"+v.Name(), v.Type())
}

// ---- memory ----

func root(addr *Term) *Term {
	for addr.Op == OField || addr.Op == OIndex {
		addr = addr.Args[0]
	}
	if addr.Op == OSlice {
		return root(addr.Args[0])
	}
	return addr
}

// Version counts the changes of the object at addr.
func (st *State) Version(addr *Term) int { return st.version(addr) }

func (st *State) version(addr *Term) int {
	n := st.ver[addr]
	for addr.Op == OField || addr.Op == OIndex || addr.Op == OSlice {
		addr = addr.Args[0]
		n += st.ver[addr]
	}
	return n
}

func under(addr, prefix *Term) bool {
	for {
		if addr == prefix {
			return true
		}
		if addr.Op == OField || addr.Op == OIndex || addr.Op == OSlice {
			addr = addr.Args[0]
			continue
		}
		return false
	}
}

func (m *Machine) decomposable(typ types.Type) *types.Struct {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok || s.NumFields() > 40 {
		return nil
	}
	if n, ok := typ.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if !strings.Contains(p, ".") { // std
			return nil
		}
	}
	return s
}

// Load reads memory.
func (m *Machine) Load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.Heap[addr]; ok {
		return v
	}
	if m.Words {
		if i := wordOf(addr); i >= 0 {
			v, ok := st.Heap[addr.Args[0]]
			if !ok {
				v = m.T.Nil()
			}
			return m.Word(st, v, i)
		}
		if ifaceCell(addr) {
			if _, has := st.Heap[m.wordAddr(addr, 0)]; has {
				return m.Pack(m.Load(st, m.wordAddr(addr, 0), types.Typ[types.UnsafePointer]), m.Load(st, m.wordAddr(addr, 1), types.Typ[types.UnsafePointer]), typ)
			}
		}
	}
	if addr.Op == OAlloc && addr.Typ != nil {
		// a struct read through a pointer to another type
		if pt, ok := addr.Typ.Underlying().(*types.Pointer); ok {
			if es, ok := pt.Elem().Underlying().(*types.Struct); ok {
				if _, isS := typ.Underlying().(*types.Struct); !isS {
					var fs []*Term
					for i := 0; i < es.NumFields(); i++ {
						f := es.Field(i)
						fs = append(fs, m.Load(st, m.T.Field(addr, f.Name(), f.Type()), f.Type()))
					}
					if _, isI := typ.Underlying().(*types.Interface); isI && m.Words && len(fs) == 2 {
						return m.Pack(fs[0], fs[1], typ)
					}
					return m.T.mk(OPure, "unsafe."+typ.String(), typ, nil, fs...)
				}
			}
		}
	}
	if s := m.decomposable(typ); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fs = append(fs, m.Load(st, m.T.Field(addr, f.Name(), f.Type()), f.Type()))
		}
		return m.T.Struct(typ, fs)
	}
	// parent whole value?
	if addr.Op == OField {
		p := addr.Args[0]
		if v, ok := st.Heap[p]; ok {
			if v.Op == OStruct {
				if vs, ok2 := v.Typ.Underlying().(*types.Struct); ok2 {
					for i := 0; i < vs.NumFields(); i++ {
						if vs.Field(i).Name() == addr.Sub {
							return v.Args[i]
						}
					}
				}
			}
			return m.T.mk(OProj, addr.Sub, typ, nil, v)
		}
	}
	if addr.Op == OIndex {
		p := addr.Args[0]
		if v, ok := st.Heap[p]; ok && v.Op != OZero {
			return m.T.mk(OElem, "", typ, nil, v, addr.Args[1])
		}
		if s, ok := p.StringVal(); ok {
			if i, ok := addr.Args[1].Int64(); ok && i >= 0 && int(i) < len(s) {
				return m.T.Const(constant.MakeInt64(int64(s[i])), typ)
			}
		}
	}
	if addr.Op == OIndex && addr.Args[0].Op == OAppend && st.version(addr) == 0 {
		// the element of a slice built by appending known elements
		if i, ok := addr.Args[1].Int64(); ok && !m.maybeStored(st, addr) {
			if es, ok := m.appendedElems(addr.Args[0]); ok && i >= 0 && int(i) < len(es) && es[i].Typ != nil && (types.Identical(es[i].Typ, typ) || types.IsInterface(es[i].Typ) && types.IsInterface(typ)) {
				return es[i]
			}
		}
	}
	if addr.Op == OField && st.version(addr) == 0 && !m.maybeStored(st, addr) {
		if v := m.appendedField(addr); v != nil && v.Typ != nil && types.Identical(v.Typ, typ) {
			return v
		}
	}
	if addr.Op == OGlobal && m.Global != nil {
		if g, ok := addr.Obj.(*ssa.Global); ok && st.version(addr) == 0 {
			if t := m.Global(g); t != nil {
				return t
			}
		}
	}
	r := root(addr)
	v := st.version(addr)
	if _, isA := typ.Underlying().(*types.Array); isA && r.Op == OAlloc {
		for k := range st.Heap {
			if k != addr && under(k, addr) {
				return m.T.mk(OLoad, fmt.Sprintf("%d+", v), typ, nil, addr)
			}
		}
	}
	if r.Op == OAlloc && v == 0 && !st.opaqueAlloc(r) && !m.maybeStored(st, addr) {
		return m.T.Zero(typ)
	}
	return m.T.mk(OLoad, fmt.Sprintf("%d", v), typ, nil, addr)
}

// appendedField: the field of an element of a slice built by appending.
func (m *Machine) appendedField(addr *Term) *Term {
	switch addr.Op {
	case OIndex:
		if addr.Args[0].Op != OAppend {
			return nil
		}
		i, ok := addr.Args[1].Int64()
		es, known := m.appendedElems(addr.Args[0])
		if ok && known && i >= 0 && int(i) < len(es) {
			return es[i]
		}
	case OField:
		v := m.appendedField(addr.Args[0])
		if v == nil || v.Op != OStruct {
			return nil
		}
		if vs, ok := v.Typ.Underlying().(*types.Struct); ok {
			for i := 0; i < vs.NumFields(); i++ {
				if vs.Field(i).Name() == addr.Sub {
					return v.Args[i]
				}
			}
		}
	}
	return nil
}

// appendedElems: the elements of a slice made only of appended elements.
func (m *Machine) appendedElems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case ONil:
		return nil, true
	case OZero:
		return nil, isSliceTyp(t.Typ)
	case OAppend:
		es, ok := m.appendedElems(t.Args[0])
		if !ok {
			return nil, false
		}
		es = es[:len(es):len(es)]
		for _, p := range t.Args[1:] {
			if p.Op != OSpread {
				es = append(es, p)
				continue
			}
			xs, ok := m.appendedElems(p.Args[0])
			if !ok {
				return nil, false
			}
			es = append(es, xs...)
		}
		return es, true
	case OSlice:
		lo, ok1 := t.Args[1].Int64()
		hi, ok2 := t.Args[2].Int64()
		if es, ok := m.appendedElems(t.Args[0]); ok && ok1 && ok2 && 0 <= lo && lo <= hi && int(hi) <= len(es) {
			return es[lo:hi], true
		}
	}
	return nil, false
}

// maybeStored reports whether a stored cell may be the addressed one: the
// address goes through an index that may equal the index of a stored element.
func (m *Machine) maybeStored(st *State, addr *Term) bool {
	for a := addr; a.Op == OField || a.Op == OIndex; a = a.Args[0] {
		if a.Op != OIndex {
			continue
		}
		for k := range st.Heap {
			for kk := k; kk.Op == OField || kk.Op == OIndex; kk = kk.Args[0] {
				if kk.Op == OIndex && kk != a && kk.Args[0] == a.Args[0] && st.Facts.Eval(m.T.Eq(kk.Args[1], a.Args[1])) != False {
					return true
				}
			}
		}
	}
	return false
}

func (st *State) opaqueAlloc(r *Term) bool { return strings.HasPrefix(r.Sub, "opaque") }

// Store writes memory.
func (m *Machine) Store(st *State, addr, val *Term, typ types.Type) {
	if m.Words {
		if i := wordOf(addr); i >= 0 {
			p := addr.Args[0]
			o := m.wordAddr(p, 1-i)
			if _, has := st.Heap[o]; !has {
				st.Heap[o] = m.Load(st, o, types.Typ[types.UnsafePointer])
			}
			delete(st.Heap, p)
			st.Heap[addr] = val
			return
		}
	}
	if s := m.decomposable(typ); s != nil {
		m.clearUnder(st, addr, false)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			m.Store(st, m.T.Field(addr, f.Name(), f.Type()), m.T.Proj(val, i, s), f.Type())
		}
		return
	}
	if at, ok := typ.Underlying().(*types.Array); ok && addr.Op == OGlobal && val.Op == OLoad && val.Args[0].Op == OAlloc && at.Len() <= 1024 {
		// the initial value of a table
		m.clearUnder(st, addr, true)
		for i := int64(0); i < at.Len(); i++ {
			st.Heap[m.T.Index(addr, m.T.Int(i), at.Elem())] = m.Load(st, m.T.Index(val.Args[0], m.T.Int(i), at.Elem()), at.Elem())
		}
		return
	}
	if addr.Op == OIndex {
		base := addr.Args[0]
		idx := addr.Args[1]
		for k := range st.Heap {
			kk := k
			for kk.Op == OField {
				kk = kk.Args[0]
			}
			if kk.Op == OIndex && kk.Args[0] == base && kk != addr {
				if st.Facts.Eval(m.T.Eq(kk.Args[1], idx)) != False {
					delete(st.Heap, k)
					st.ver[kk]++
				}
			}
		}
		if _, ok := idx.Int64(); !ok {
			// unknown elements may have changed
			for k := range st.Heap {
				_ = k
			}
			st.ver[base]++
			st.rekey(m, base)
		}
	} else {
		m.clearUnder(st, addr, false)
	}
	st.Heap[addr] = val
}

// ifaceCell: a variable that holds an interface.
func ifaceCell(x *Term) bool {
	if x.Op != OAlloc || x.Typ == nil {
		return false
	}
	p, ok := x.Typ.Underlying().(*types.Pointer)
	return ok && types.IsInterface(p.Elem())
}

// wordOf: the number of the word of an interface variable, or -1.
func wordOf(addr *Term) int {
	if addr.Op == OField && (addr.Sub == "#0" || addr.Sub == "#1") {
		return int(addr.Sub[1] - '0')
	}
	return -1
}

func (m *Machine) wordAddr(x *Term, i int) *Term {
	return m.T.Field(x, fmt.Sprintf("#%d", i), types.Typ[types.UnsafePointer])
}

// Word: a word of an interface value.
func (m *Machine) Word(st *State, v *Term, i int) *Term {
	up := types.Typ[types.UnsafePointer]
	if v.Op == OPure && v.Sub == "packed" {
		return v.Args[i]
	}
	if v.Op == OZero || st.Facts.IsNil(v) {
		return m.T.Zero(up)
	}
	return m.T.Pure(fmt.Sprintf("word%d", i), up, v)
}

// Pack: the interface value made of two words.
func (m *Machine) Pack(w0, w1 *Term, typ types.Type) *Term {
	if w0.Op == OPure && w0.Sub == "word0" && w1.Op == OPure && w1.Sub == "word1" && w0.Args[0] == w1.Args[0] {
		return w0.Args[0]
	}
	if w0.Op == ONil {
		return m.T.Nil()
	}
	return m.T.Pure("packed", typ, w0, w1)
}

// rekey is a hook point kept for clarity: cells under base stay valid.
func (st *State) rekey(m *Machine, base *Term) {}

func (m *Machine) clearUnder(st *State, addr *Term, bump bool) {
	for k := range st.Heap {
		if k != addr && under(k, addr) || bump && k == addr {
			delete(st.Heap, k)
		}
	}
	if bump {
		st.ver[addr]++
	}
}

// Havoc forgets everything reachable from t.
func (m *Machine) Havoc(st *State, t *Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OAlloc, OParam, OField, OIndex, OSym, OLoad, OCall, OExtract, OAssert, OProj, OElem, OLookup:
			if pointerish(t.Typ) || t.Op == OAlloc {
				var vals []*Term
				for k, v := range st.Heap {
					if under(k, t) {
						vals = append(vals, v)
						delete(st.Heap, k)
					}
				}
				st.ver[t]++
				for _, v := range vals {
					visit(v)
				}
			}
		case OIface, OSlice, OAppend, OSpread, OStruct, OTuple, OClosure, OConv:
			for _, a := range t.Args {
				visit(a)
			}
		}
	}
	visit(t)
}

func pointerish(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// ---- stepping ----

func (m *Machine) setResult(st *State, f *Frame, v ssa.Value, t *Term) {
	if v != nil {
		f.env[v] = t
	}
}

// step executes one instruction; returns forked states and whether s lives.
func (m *Machine) step(st *State) (forks []*State, alive bool) {
	f := st.top()
	if f.unwind {
		return m.stepUnwind(st, f)
	}
	if f.pc >= len(f.block.Instrs) {
		return nil, false
	}
	in := f.block.Instrs[f.pc]
	adv := func() ([]*State, bool) { f.pc++; return nil, true }
	T := m.T
	switch in := in.(type) {
	case *ssa.DebugRef:
		return adv()
	case *ssa.Phi:
		// all phis of the block at once on entry (see gotoBlock)
		return adv()
	case *ssa.Alloc:
		st.seq++
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		a := T.mk(OAlloc, fmt.Sprintf("%s.%s#%d", f.fn.Name(), in.Name(), st.seq), in.Type(), in)
		_ = elem
		f.env[in] = a
		return adv()
	case *ssa.BinOp:
		x, y := m.val(st, in.X), m.val(st, in.Y)
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			f.env[in] = T.Cmp(in.Op, x, y)
		default:
			if (in.Op == token.QUO || in.Op == token.REM) && isIntTerm(in.Type()) {
				if n, ok := y.Int64(); ok && n == 0 {
					return m.raise(st, T.Sym("runtime error: division by zero", nil), in)
				}
			}
			switch in.Op {
			case token.QUO, token.REM, token.SHR, token.SHL, token.MUL, token.AND:
				// no linear arithmetic: the operands themselves where they are known
				if isIntTerm(in.Type()) && x.Op != OConst {
					if n, ok := st.Facts.Pinned(x); ok {
						x = T.Const(constant.MakeInt64(n), x.Typ)
					}
				}
			}
			f.env[in] = T.Bin(in.Op, x, y, in.Type())
		}
		return adv()
	case *ssa.UnOp:
		x := m.val(st, in.X)
		switch in.Op {
		case token.MUL:
			if st.Facts.IsNil(x) {
				return m.raise(st, T.Sym("runtime error: nil dereference", nil), in)
			}
			if m.OnDeref != nil {
				m.OnDeref(st, in, x, false, nil)
			}
			v := m.Load(st, x, in.Type())
			f.env[in] = v
			if m.Records["load"] {
				m.emit(st, &Event{Kind: "load", Addr: x, Val: v, Instr: in})
			}
		case token.ARROW:
			st.seq++
			elem := in.X.Type().Underlying().(*types.Chan).Elem()
			v := T.mk(OCall, fmt.Sprintf("recv#%d", st.seq), elem, nil, x)
			res := v
			var rok *Term
			if in.CommaOk {
				ok := T.Sym(fmt.Sprintf("recvok#%d", st.seq), types.Typ[types.Bool])
				res = T.Tuple(v, ok)
				rok = ok
			}
			f.env[in] = res
			m.emit(st, &Event{Kind: "recv", Recv: x, Res: v, Val: rok, Instr: in})
		case token.SUB:
			f.env[in] = T.Bin(token.SUB, T.Const(constant.MakeInt64(0), in.Type()), x, in.Type())
		case token.NOT:
			f.env[in] = T.Not(x)
		default:
			f.env[in] = T.mk(OUn, in.Op.String(), in.Type(), nil, x)
		}
		return adv()
	case *ssa.ChangeType:
		f.env[in] = m.val(st, in.X)
		return adv()
	case *ssa.ChangeInterface:
		f.env[in] = m.val(st, in.X)
		return adv()
	case *ssa.Convert:
		f.env[in] = m.convert(m.val(st, in.X), in.X.Type(), in.Type())
		return adv()
	case *ssa.MultiConvert:
		f.env[in] = m.convert(m.val(st, in.X), in.X.Type(), in.Type())
		return adv()
	case *ssa.MakeInterface:
		x := m.val(st, in.X)
		f.env[in] = T.Iface(x, in.X.Type(), in.Type())
		return adv()
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, m.val(st, b))
		}
		f.env[in] = T.mk(OClosure, fn.String(), in.Type(), fn, bs...)
		return adv()
	case *ssa.MakeMap:
		st.seq++
		f.env[in] = T.mk(OAlloc, fmt.Sprintf("map.%s#%d", in.Name(), st.seq), in.Type(), in)
		return adv()
	case *ssa.MakeChan:
		st.seq++
		f.env[in] = T.mk(OAlloc, fmt.Sprintf("chan.%s#%d", in.Name(), st.seq), in.Type(), in, m.val(st, in.Size))
		m.emit(st, &Event{Kind: "makechan", Res: f.env[in], Args: []*Term{m.val(st, in.Size)}, Instr: in})
		return adv()
	case *ssa.MakeSlice:
		st.seq++
		n := m.val(st, in.Len)
		f.env[in] = T.mk(OAlloc, fmt.Sprintf("make.%s#%d", in.Name(), st.seq), in.Type(), in, n, m.val(st, in.Cap))
		return adv()
	case *ssa.FieldAddr:
		x := m.val(st, in.X)
		if st.Facts.IsNil(x) {
			return m.raise(st, T.Sym("runtime error: nil dereference", nil), in)
		}
		s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if m.Words && s.NumFields() == 2 && ifaceCell(x) {
			f.env[in] = T.Field(x, fmt.Sprintf("#%d", in.Field), types.Typ[types.UnsafePointer])
			return adv()
		}
		f.env[in] = T.Field(x, s.Field(in.Field).Name(), s.Field(in.Field).Type())
		return adv()
	case *ssa.Field:
		x := m.val(st, in.X)
		s := in.X.Type().Underlying().(*types.Struct)
		f.env[in] = T.Proj(x, in.Field, s)
		return adv()
	case *ssa.IndexAddr:
		x := m.val(st, in.X)
		i := m.val(st, in.Index)
		n := T.Len(x)
		ok := st.Facts.Leq(T.Int(0), i) && st.Facts.Less(i, n)
		if m.OnIndex != nil {
			m.OnIndex(st, in, i, n, ok)
		}
		if !ok {
			if !st.Facts.AssertLe(T.Int(0), i) || !st.Facts.Assert(T.Lt(i, n), true) {
				return m.raise(st, T.Sym("runtime error: index out of range", nil), in)
			}
		}
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		f.env[in] = m.indexAddr(x, i, elem)
		return adv()
	case *ssa.Index:
		x := m.val(st, in.X)
		i := m.val(st, in.Index)
		n := T.Len(x)
		ok := st.Facts.Leq(T.Int(0), i) && st.Facts.Less(i, n)
		if m.OnIndex != nil {
			m.OnIndex(st, in, i, n, ok)
		}
		if !ok {
			if !st.Facts.AssertLe(T.Int(0), i) || !st.Facts.Assert(T.Lt(i, n), true) {
				return m.raise(st, T.Sym("runtime error: index out of range", nil), in)
			}
		}
		f.env[in] = m.elem(x, i, in.Type())
		return adv()
	case *ssa.Lookup:
		x := m.val(st, in.X)
		k := m.val(st, in.Index)
		if isStringTyp(in.X.Type()) {
			f.env[in] = m.elem(x, k, in.Type())
			return adv()
		}
		forks := m.splitKeys(st, x, k)
		v, found := m.lookup(st, x, k, in.X.Type().Underlying().(*types.Map))
		if m.Records["lookup"] {
			m.emit(st, &Event{Kind: "lookup", Recv: x, Args: []*Term{k}, Res: v, Instr: in})
		}
		if in.CommaOk {
			f.env[in] = T.Tuple(v, found)
		} else {
			f.env[in] = v
		}
		f.pc++
		return forks, true
	case *ssa.MapUpdate:
		x, k, v := m.val(st, in.Map), m.val(st, in.Key), m.val(st, in.Value)
		m.emit(st, &Event{Kind: "mapupdate", Recv: x, Args: []*Term{k}, Val: v, Instr: in})
		m.mapSet(st, x, k, v)
		return adv()
	case *ssa.Slice:
		x := m.val(st, in.X)
		lo := T.Int(0)
		if in.Low != nil {
			lo = m.val(st, in.Low)
		}
		var hi *Term
		if in.High != nil {
			hi = m.val(st, in.High)
		} else {
			hi = T.Len(x)
		}
		ok := st.Facts.Leq(T.Int(0), lo) && st.Facts.Leq(lo, hi) && (in.High == nil || st.Facts.Leq(hi, T.Len(x)))
		if m.OnSlice != nil {
			m.OnSlice(st, in, x, lo, hi, T.Len(x), ok)
		}
		if !st.Facts.AssertLe(T.Int(0), lo) || !st.Facts.AssertLe(lo, hi) {
			return m.raise(st, T.Sym("runtime error: slice bounds out of range", nil), in)
		}
		if isStringTyp(in.X.Type()) {
			if !st.Facts.AssertLe(hi, T.Len(x)) {
				return m.raise(st, T.Sym("runtime error: slice bounds out of range", nil), in)
			}
		}
		f.env[in] = T.SliceOf(x, lo, hi, in.Type())
		return adv()
	case *ssa.SliceToArrayPointer:
		f.env[in] = m.val(st, in.X)
		return adv()
	case *ssa.Range:
		f.env[in] = m.val(st, in.X)
		return adv()
	case *ssa.Next:
		x := m.val(st, in.Iter)
		st.seq++
		ok := T.Sym(fmt.Sprintf("more#%d", st.seq), types.Typ[types.Bool])
		if in.IsString {
			k := T.Sym(fmt.Sprintf("ri#%d", st.seq), types.Typ[types.Int])
			v := T.Sym(fmt.Sprintf("rune#%d", st.seq), types.Typ[types.Rune])
			st.Facts.AssertLe(T.Int(0), k)
			f.env[in] = T.Tuple(ok, k, v)
			return adv()
		}
		rng := in.Iter.(*ssa.Range)
		mt := rng.X.Type().Underlying().(*types.Map)
		if st.Facts.IsNil(x) || m.emptyMap(st, x) {
			ok = T.Bool(false)
		}
		k := T.Sym(fmt.Sprintf("key#%d", st.seq), mt.Key())
		v := T.mk(OLookup, fmt.Sprintf("%d", st.version(x)), mt.Elem(), nil, x, k)
		f.env[in] = T.Tuple(ok, k, v)
		m.emit(st, &Event{Kind: "mapnext", Recv: x, Args: []*Term{k}, Res: v, Val: ok, Instr: in})
		return adv()
	case *ssa.Extract:
		f.env[in] = T.Extract(m.val(st, in.Tuple), in.Index, in.Type())
		return adv()
	case *ssa.TypeAssert:
		return m.typeAssert(st, f, in)
	case *ssa.Store:
		a, v := m.val(st, in.Addr), m.val(st, in.Val)
		if st.Facts.IsNil(a) {
			return m.raise(st, T.Sym("runtime error: nil dereference", nil), in)
		}
		if m.OnDeref != nil {
			m.OnDeref(st, in, a, true, v)
		}
		if m.Records["store"] {
			m.emit(st, &Event{Kind: "store", Addr: a, Val: v, Instr: in})
		}
		m.Store(st, a, v, in.Val.Type())
		return adv()
	case *ssa.Send:
		m.emit(st, &Event{Kind: "send", Recv: m.val(st, in.Chan), Val: m.val(st, in.X), Instr: in})
		return adv()
	case *ssa.Select:
		return m.selectStep(st, f, in)
	case *ssa.Go:
		ev := m.callEvent(st, &in.Call, in)
		ev.Kind = "go"
		m.emit(st, ev)
		return adv()
	case *ssa.Defer:
		ev := m.callEvent(st, &in.Call, in)
		f.defers = append(f.defers, deferred{fn: ev.Recv, call: &in.Call, args: ev.Args, recv: ev.Recv, in: in})
		return adv()
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return adv()
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return m.doCall(st, d.call, d.recv, d.args, nil, d.in, true)
	case *ssa.Call:
		ev := m.callEvent(st, &in.Call, in)
		return m.doCall(st, &in.Call, ev.Recv, ev.Args, in, in, false)
	case *ssa.Panic:
		return m.raise(st, m.val(st, in.X), in)
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, m.val(st, r))
		}
		return m.ret(st, rs)
	case *ssa.Jump:
		return nil, m.gotoBlock(st, f, f.block.Succs[0])
	case *ssa.If:
		return m.ifStep(st, f, in)
	}
	panic(fmt.Sprintf("sim: unhandled %T in %s", in, f.fn))
}

func (m *Machine) ifStep(st *State, f *Frame, in *ssa.If) ([]*State, bool) {
	c := m.val(st, in.Cond)
	tb, fb := f.block.Succs[0], f.block.Succs[1]
	switch st.Facts.Eval(c) {
	case True:
		return nil, m.gotoBlock(st, f, tb)
	case False:
		return nil, m.gotoBlock(st, f, fb)
	}
	var forks []*State
	o := st.Clone()
	if o.Facts.Assert(c, false) {
		if m.gotoBlock(o, o.top(), fb) {
			forks = append(forks, o)
		} else {
			m.Pruned++
		}
	}
	if !st.Facts.Assert(c, true) {
		return forks, false
	}
	return forks, m.gotoBlock(st, f, tb)
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// inLoop reports whether block x belongs to the natural loop of header h.
func inLoop(h, x *ssa.BasicBlock) bool {
	if !h.Dominates(x) {
		return false
	}
	// x reaches a back edge source without leaving through h
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s == h {
				return true
			}
			if h.Dominates(s) && dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(x)
}

// gotoBlock moves the frame to b, handling loops and phis.
func (m *Machine) gotoBlock(st *State, f *Frame, b *ssa.BasicBlock) bool {
	prev := f.block
	back := b.Dominates(prev)
	// leaving loops: forget iteration counts of loops not containing b
	for h := range f.iter {
		if h != b && !inLoop(h, b) {
			delete(f.iter, h)
			delete(f.lheap, h)
		}
	}
	if m.OnBlock != nil && !m.OnBlock(st, b) {
		return false
	}
	// exit-only iterations: do not enter the body again
	if n, ok := f.iter[prev]; ok && m.Unroll == 0 && n >= m.MaxIter && isHeader(prev) && inLoop(prev, b) && b != prev {
		hasExit := false
		for _, s := range prev.Succs {
			if !inLoop(prev, s) {
				hasExit = true
			}
		}
		if hasExit {
			return false
		}
	}
	abstract := false
	if m.Unroll > 0 && isHeader(b) {
		if !back {
			f.iter[b] = 0
		} else if f.iter[b]++; f.iter[b] > m.Unroll {
			m.Cut++
			return false
		}
	} else if back && m.shortLoop(st, f, b, prev) {
		abstract = false
	} else if back {
		f.iter[b]++
		if f.iter[b] > m.MaxIter {
			return false
		}
		abstract = true
	} else if isHeader(b) && m.AbstractFirst && m.shortLoop(st, f, b, prev) {
		f.iter[b] = 0
	} else if isHeader(b) {
		f.iter[b] = 0
		snap := make(map[*Term]*Term, len(st.Heap))
		for k, v := range st.Heap {
			snap[k] = v
		}
		f.lheap[b] = snap
		f.lseq[b] = st.seq
		abstract = m.AbstractFirst
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, m.val(st, p.Edges[pi]))
	}
	f.prev = prev
	f.block = b
	f.pc = 0
	if abstract && m.OnArrive != nil && !m.OnArrive(&LoopEvent{St: st, Key: f.key + fmt.Sprintf("@%d", b.Index), Header: b, Phis: phis, Vals: vals, Back: back, f: f}) {
		return false
	}
	if abstract && !back {
		for i, p := range phis {
			f.phiInit[p] = vals[i]
		}
	}
	if !abstract {
		for i, p := range phis {
			f.env[p] = vals[i]
			if isHeader(b) {
				f.phiInit[p] = vals[i]
			}
		}
		return true
	}
	// abstract iteration
	mods := m.loopMods[f.key+fmt.Sprintf("@%d", b.Index)]
	if mods == nil {
		mods = map[*Term]types.Type{}
		m.loopMods[f.key+fmt.Sprintf("@%d", b.Index)] = mods
	}
	snap := f.lheap[b]
	for k, v := range st.Heap {
		if old, ok := snap[k]; !ok || old != v {
			r := root(k)
			// only cells that existed (rooted outside this iteration) matter
			if r.Op == OAlloc {
				found := false
				for kk := range snap {
					if root(kk) == r {
						found = true
						break
					}
				}
				if !found && allocSeq(r) > f.lseq[b] {
					continue
				}
			}
			if _, ok := mods[k]; !ok {
				var et types.Type
				if p, ok := k.Typ.(*types.Pointer); ok {
					et = p.Elem()
				}
				mods[k] = et
				m.changed = true
			}
		}
	}
	for k := range snap {
		if _, ok := st.Heap[k]; !ok {
			if _, ok := mods[k]; !ok {
				var et types.Type
				if p, ok := k.Typ.(*types.Pointer); ok {
					et = p.Elem()
				}
				mods[k] = et
				m.changed = true
			}
		}
	}
	st.seq++
	bumped := map[*Term]bool{}
	for k := range mods {
		for a := k; a.Op == OField || a.Op == OIndex; a = a.Args[0] {
			if a.Op == OIndex && !bumped[a.Args[0]] {
				// other elements may have been stored by other iterations
				bumped[a.Args[0]] = true
				st.ver[a.Args[0]]++
			}
		}
	}
	for k, et := range mods {
		if et != nil {
			st.Heap[k] = m.T.mk(OSym, fmt.Sprintf("loop(%s~%d)#%d", k.str(3), k.ID, st.seq), et, k)
		} else {
			delete(st.Heap, k)
			st.ver[k]++
		}
	}
	for i, p := range phis {
		if f.phiInit[p] == vals[i] && m.invariantPhi(p) {
			f.env[p] = vals[i]
			continue
		}
		s := m.T.mk(OSym, fmt.Sprintf("%s.%s#%d", f.fn.Name(), phiName(p), st.seq), p.Type(), p)
		f.env[p] = s
		if isIntTerm(p.Type()) && f.phiInit[p] != nil {
			if lo, ok := inductive(p, b, true); ok {
				if !back {
					lo = 0
				}
				st.Facts.Assert(m.T.Cmp(token.GEQ, s, m.T.Bin(token.ADD, f.phiInit[p], m.T.Int(lo), p.Type())), true)
			} else if hi, ok := inductive(p, b, false); ok {
				if !back {
					hi = 0
				}
				st.Facts.Assert(m.T.Cmp(token.LEQ, s, m.T.Bin(token.ADD, f.phiInit[p], m.T.Int(hi), p.Type())), true)
			}
		}
	}
	if m.OnHeader != nil {
		var syms []*Term
		for _, p := range phis {
			syms = append(syms, f.env[p])
		}
		m.OnHeader(&LoopEvent{St: st, Key: f.key + fmt.Sprintf("@%d", b.Index), Header: b, Phis: phis, Vals: syms, Back: back, f: f})
	}
	return true
}

// shortLoop: the loop counts a known index up to a known small bound: it is
// followed iteration by iteration.
func (m *Machine) shortLoop(st *State, f *Frame, b, prev *ssa.BasicBlock) bool {
	const maxTrip = 6
	if len(b.Instrs) == 0 {
		return false
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != b {
		return false
	}
	var lim *Term
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		lim = m.val(st, y)
	default:
		if in, ok := y.(ssa.Instruction); ok && in.Block() == b {
			return false
		}
		lim = f.env[y]
	}
	if lim == nil {
		return false
	}
	if n, ok := lim.Int64(); !ok || n > maxTrip {
		return false
	}
	x := cmp.X
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == b {
		if _, isC := a.Y.(*ssa.Const); isC {
			x = a.X
		}
	}
	ph, ok := x.(*ssa.Phi)
	if !ok || ph.Block() != b {
		return false
	}
	for i, p := range b.Preds {
		if p == prev {
			v := m.val(st, ph.Edges[i])
			n, ok := v.Int64()
			return ok && n <= maxTrip
		}
	}
	return false
}

// allocSeq is the moment an object was allocated.
func allocSeq(r *Term) int {
	n := 0
	if i := strings.LastIndex(r.Sub, "#"); i >= 0 {
		fmt.Sscanf(r.Sub[i+1:], "%d", &n)
	}
	return n
}

func (m *Machine) invariantPhi(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e != p {
			if _, isC := e.(*ssa.Const); !isC {
				return false
			}
		}
	}
	return false
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// inductive: on every back edge the phi becomes phi + c, c >= 0 (up) or
// c <= 0 (down); returns the least step.
func inductive(p *ssa.Phi, b *ssa.BasicBlock, up bool) (int64, bool) {
	var step int64
	first := true
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value, acc int64) bool
	ok = func(v ssa.Value, acc int64) bool {
		if v == p {
			if up && acc < 0 || !up && acc > 0 {
				return false
			}
			if first || up && acc < step || !up && acc > step {
				step = acc
				first = false
			}
			return true
		}
		if seen[v] {
			return false
		}
		switch v := v.(type) {
		case *ssa.BinOp:
			c, isC := v.Y.(*ssa.Const)
			if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			n, _ := constant.Int64Val(c.Value)
			switch v.Op {
			case token.ADD:
				return ok(v.X, acc+n)
			case token.SUB:
				return ok(v.X, acc-n)
			}
		case *ssa.Phi:
			if v.Block() == b {
				return false
			}
			seen[v] = true
			for _, e := range v.Edges {
				if !ok(e, acc) {
					return false
				}
			}
			seen[v] = false
			return true
		}
		return false
	}
	for i, e := range p.Edges {
		if b.Dominates(b.Preds[i]) {
			if !ok(e, 0) {
				return 0, false
			}
		}
	}
	return step, !first
}

func (m *Machine) convert(x *Term, from, to types.Type) *Term {
	T := m.T
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return x
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	isUP := func(b *types.Basic, ok bool) bool {
		return ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr)
	}
	_, fptr := fu.(*types.Pointer)
	_, tptr := tu.(*types.Pointer)
	if (isUP(fb, fok) || fptr) && (isUP(tb, tok) || tptr) {
		return x
	}
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.Op == OConst {
			return T.Const(wrap(x.Val, to), to)
		}
		b1, s1, _ := intInfo(from)
		b2, s2, _ := intInfo(to)
		if s1 == s2 && b2 >= b1 || !s1 && s2 && b2 > b1 {
			return x
		}
		return T.mk(OConv, tb.Name(), to, nil, x)
	}
	if fok && fb.Info()&types.IsString != 0 {
		if _, ok := tu.(*types.Slice); ok {
			if x.Op == OConv && x.Sub == "string" {
				return T.mk(OConv, "[]byte", to, nil, x)
			}
			return T.mk(OConv, "[]byte", to, nil, x)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if _, ok := fu.(*types.Slice); ok {
			return T.mk(OConv, "string", to, nil, x)
		}
		return T.mk(OConv, "runestring", to, nil, x)
	}
	if tok && x.Op == OConst && tb.Info()&types.IsFloat != 0 {
		return T.Const(constant.ToFloat(x.Val), to)
	}
	return T.mk(OConv, to.String(), to, nil, x)
}

func (m *Machine) indexAddr(x, i *Term, elem types.Type) *Term {
	if x.Op == OSlice {
		return m.T.Index(x.Args[0], m.T.Bin(token.ADD, x.Args[1], i, types.Typ[types.Int]), elem)
	}
	return m.T.Index(x, i, elem)
}

func (m *Machine) elem(x, i *Term, typ types.Type) *Term {
	if s, ok := x.StringVal(); ok {
		if n, ok := i.Int64(); ok && n >= 0 && int(n) < len(s) {
			return m.T.Const(constant.MakeInt64(int64(s[n])), typ)
		}
	}
	if x.Op == OZero {
		return m.T.Zero(typ)
	}
	if x.Op == OSlice && isStringTyp(x.Typ) {
		return m.T.mk(OElem, "", typ, nil, x.Args[0], m.T.Bin(token.ADD, x.Args[1], i, types.Typ[types.Int]))
	}
	return m.T.mk(OElem, "", typ, nil, x, i)
}

// ---- maps ----

func (m *Machine) cell(x, k *Term) *Term { return m.T.mk(OIndex, "map", nil, nil, x, k) }

var absentKey = "absent"

func (m *Machine) lookup(st *State, x, k *Term, mt *types.Map) (v, found *Term) {
	t, ok := st.Heap[m.cell(x, k)]
	if !ok && x.Op == OAlloc && k.Op != OConst {
		for c, v := range st.Heap {
			if c.Op == OIndex && c.Sub == "map" && c.Args[0] == x && c.Args[1].Op == OConst && st.Facts.Eval(m.T.Eq(c.Args[1], k)) == True {
				t, ok = v, true
			}
		}
	}
	if ok {
		if t.Op == OSym && t.Sub == absentKey {
			return m.T.Zero(mt.Elem()), m.T.Bool(false)
		}
		return t, m.T.Bool(true)
	}
	if st.Facts.IsNil(x) || m.emptyMap(st, x) || m.otherKeys(st, x, k) {
		return m.T.Zero(mt.Elem()), m.T.Bool(false)
	}
	l := m.T.mk(OLookup, fmt.Sprintf("%d", st.version(x)), mt.Elem(), nil, x, k)
	return l, m.T.mk(OExtract, "found", types.Typ[types.Bool], nil, l)
}

// otherKeys: all entries of a map made here are known, and have other keys.
func (m *Machine) otherKeys(st *State, x, k *Term) bool {
	if x.Op != OAlloc {
		return false
	}
	n := 0
	for c := range st.Heap {
		if c.Op == OIndex && c.Args[0] == x {
			if c.Sub != "map" || st.Facts.Eval(m.T.Eq(c.Args[1], k)) != False {
				return false
			}
			n++
		}
	}
	return n == st.version(x)
}

// splitKeys separates the cases in which k is one of the constant keys of a
// map made here: st becomes the one where it is none of them.
func (m *Machine) splitKeys(st *State, x, k *Term) (forks []*State) {
	if x.Op != OAlloc || k.Op == OConst {
		return nil
	}
	var keys []*Term
	for c := range st.Heap {
		if c.Op == OIndex && c.Sub == "map" && c.Args[0] == x {
			tri := st.Facts.Eval(m.T.Eq(c.Args[1], k))
			if tri == True || tri == Unknown && c.Args[1].Op != OConst {
				return nil
			}
			if tri == Unknown {
				keys = append(keys, c.Args[1])
			}
		}
	}
	if len(keys) == 0 || len(keys) > 4 {
		return nil
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	for _, c := range keys {
		o := st.Clone()
		if o.Facts.Assert(m.T.Eq(c, k), true) {
			forks = append(forks, o)
		}
		st.Facts.Assert(m.T.Eq(c, k), false)
	}
	return forks
}

// MapKeys: the keys of the entries that are known.
func (m *Machine) MapKeys(st *State, x *Term) (keys []*Term) {
	for c, v := range st.Heap {
		if c.Op == OIndex && c.Sub == "map" && c.Args[0] == x && !(v.Op == OSym && v.Sub == absentKey) {
			keys = append(keys, c.Args[1])
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	return
}

// OtherEntries: there may be entries of the map that are not known.
func (m *Machine) OtherEntries(st *State, x *Term) { st.ver[x]++ }

func (m *Machine) emptyMap(st *State, x *Term) bool {
	if x.Op != OAlloc || st.version(x) > 0 {
		return false
	}
	for k := range st.Heap {
		if k.Op == OIndex && k.Args[0] == x {
			return false
		}
	}
	return true
}

func (m *Machine) mapSet(st *State, x, k, v *Term) {
	c := m.cell(x, k)
	for kk := range st.Heap {
		if kk.Op == OIndex && kk.Sub == "map" && kk.Args[0] == x && kk != c {
			if st.Facts.Eval(m.T.Eq(kk.Args[1], k)) != False {
				delete(st.Heap, kk)
			}
		}
	}
	st.ver[x]++
	st.Heap[c] = v
}

// ---- type assertions ----

func (m *Machine) isType(x *Term, t types.Type) *Term {
	return m.T.mk(OIsType, t.String(), types.Typ[types.Bool], t, x)
}

// IsType builds the atom "dynamic type of x is (or implements) t".
func (m *Machine) IsType(x *Term, t types.Type) *Term { return m.isType(x, t) }

// AssertedValue is the value x.(t).
func (m *Machine) AssertedValue(x *Term, t types.Type) *Term {
	return m.T.mk(OAssert, t.String(), t, nil, x)
}

func (m *Machine) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) ([]*State, bool) {
	T := m.T
	x := m.val(st, in.X)
	toIface := types.IsInterface(in.AssertedType)
	var res *Term
	tri := Unknown
	if x.Op == OIface {
		dyn := x.Obj.(types.Type)
		if toIface {
			if types.Implements(dyn, in.AssertedType.Underlying().(*types.Interface)) {
				tri = True
			} else {
				tri = False
			}
			res = x
		} else if types.Identical(dyn, in.AssertedType) {
			tri = True
			res = x.Args[0]
		} else {
			tri = False
		}
	} else if st.Facts.IsNil(x) {
		tri = False
	} else {
		atom := m.isType(x, in.AssertedType)
		tri = st.Facts.Eval(atom)
		// static: x's static interface type already implements the asserted one
		if toIface && tri == Unknown && st.Facts.NonNil(x) && types.AssignableTo(in.X.Type(), in.AssertedType) {
			tri = True
		}
		if xt := x.Typ; tri == Unknown && xt != nil {
			if it, ok := xt.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				if toIface && st.Facts.NonNil(x) && types.AssignableTo(xt, in.AssertedType) {
					tri = True
				} else if !toIface && !types.Implements(in.AssertedType, it) {
					tri = False
				}
			}
		}
	}
	if res == nil {
		if toIface {
			res = x
		} else {
			res = T.mk(OAssert, in.AssertedType.String(), in.AssertedType, nil, x)
		}
	}
	if in.CommaOk {
		set := func(s *State, ok bool) {
			ff := s.top()
			if ok {
				ff.env[in] = T.Tuple(res, T.Bool(true))
			} else {
				ff.env[in] = T.Tuple(T.Zero(in.AssertedType), T.Bool(false))
			}
			ff.pc++
		}
		switch tri {
		case True:
			set(st, true)
			return nil, true
		case False:
			set(st, false)
			return nil, true
		}
		o := st.Clone()
		var forks []*State
		if o.Facts.Assert(m.isType(x, in.AssertedType), false) {
			set(o, false)
			forks = append(forks, o)
		}
		if !st.Facts.Assert(m.isType(x, in.AssertedType), true) {
			return forks, false
		}
		set(st, true)
		return forks, true
	}
	if tri == False {
		return m.raise(st, T.Sym("runtime error: failed type assertion", nil), in)
	}
	if tri == Unknown {
		if m.OnAssert != nil {
			m.OnAssert(st, in, x)
		}
		st.Facts.Assert(m.isType(x, in.AssertedType), true)
	}
	f.env[in] = res
	f.pc++
	return nil, true
}

// ---- select ----

func (m *Machine) selectStep(st *State, f *Frame, in *ssa.Select) ([]*State, bool) {
	T := m.T
	var forks []*State
	mkRes := func(s *State, idx int) {
		ff := s.top()
		s.seq++
		args := []*Term{T.Int(int64(idx)), T.Sym(fmt.Sprintf("recvok#%d", s.seq), types.Typ[types.Bool])}
		ev := &Event{Kind: "select", Idx: idx, Instr: in, Block: in.Blocking}
		for _, c := range in.States {
			ev.Args = append(ev.Args, m.val(s, c.Chan))
		}
		for i, c := range in.States {
			if c.Dir == types.RecvOnly {
				elem := c.Chan.Type().Underlying().(*types.Chan).Elem()
				v := T.mk(OCall, fmt.Sprintf("recv#%d.%d", s.seq, i), elem, nil, m.val(s, c.Chan))
				args = append(args, v)
				if i == idx {
					ev.Res = v
				}
			}
		}
		ff.env[in] = T.Tuple(args...)
		m.emit(s, ev)
		if idx >= 0 {
			c := in.States[idx]
			if c.Dir == types.SendOnly {
				m.emit(s, &Event{Kind: "send", Recv: m.val(s, c.Chan), Val: m.val(s, c.Send), Instr: in, Idx: idx})
			} else {
				m.emit(s, &Event{Kind: "recv", Recv: m.val(s, c.Chan), Res: ev.Res, Instr: in, Idx: idx})
			}
		}
		ff.pc++
	}
	n := len(in.States)
	var idxs []int
	for i := 0; i < n; i++ {
		idxs = append(idxs, i)
	}
	if !in.Blocking {
		idxs = append(idxs, -1)
	}
	if len(idxs) == 0 {
		return nil, false
	}
	for _, i := range idxs[1:] {
		o := st.Clone()
		mkRes(o, i)
		forks = append(forks, o)
	}
	mkRes(st, idxs[0])
	return forks, true
}

// Proj is the value of a named field of a struct value.
func (m *Machine) Proj(v *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return m.T.Proj(v, i, st)
		}
	}
	return nil
}
