package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

// flow is what can end up in a slice variable: the appends that feed it and
// the calls whose result it is.
type flow struct {
	appends map[ssa.Instruction]bool
	calls   map[*ssa.Function]bool
	unknown bool
	seen    map[ssa.Value]bool
}

func newFlow() *flow {
	return &flow{appends: map[ssa.Instruction]bool{}, calls: map[*ssa.Function]bool{}, seen: map[ssa.Value]bool{}}
}

// into collects the sources of v. stop functions are not looked into.
func (fl *flow) into(p *sim.Program, v ssa.Value, stop map[*ssa.Function]bool) {
	if v == nil || fl.seen[v] {
		return
	}
	fl.seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			fl.into(p, e, stop)
		}
	case *ssa.ChangeType:
		fl.into(p, v.X, stop)
	case *ssa.Slice:
		fl.into(p, v.X, stop)
	case *ssa.Const, *ssa.MakeSlice:
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			fl.call(p, c, v.Index, stop)
			return
		}
		fl.unknown = true
	case *ssa.Call:
		fl.call(p, v, 0, stop)
	case *ssa.Parameter:
		idx := -1
		for i, q := range v.Parent().Params {
			if q == v {
				idx = i
			}
		}
		for _, fn := range p.AllFuncs() {
			if pkgOf(fn) != pkgOf(v.Parent()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == v.Parent() {
						fl.into(p, c.Common().Args[idx], stop)
					}
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			fl.stores(p, v.X, stop)
			return
		}
		fl.unknown = true
	case *ssa.Alloc:
		// array literal behind a slice
		if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len() != 0 {
				fl.unknown = true
			}
			return
		}
		fl.unknown = true
	default:
		fl.unknown = true
	}
}

func (fl *flow) call(p *sim.Program, c *ssa.Call, idx int, stop map[*ssa.Function]bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			fl.appends[c] = true
			fl.into(p, c.Call.Args[0], stop)
			return
		}
		fl.unknown = true
		return
	}
	fn := c.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 {
		fl.unknown = true
		return
	}
	if stop[fn] || !strings.HasPrefix(fn.String(), "(*"+mod) && !strings.HasPrefix(fn.String(), mod) && !strings.HasPrefix(fn.String(), "("+mod) {
		fl.calls[fn] = true
		return
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
			fl.into(p, rt.Results[idx], stop)
		}
	}
}

func (fl *flow) stores(p *sim.Program, addr ssa.Value, stop map[*ssa.Function]bool) {
	if fl.seen[addr] {
		return
	}
	fl.seen[addr] = true
	switch a := addr.(type) {
	case *ssa.FreeVar:
		par := a.Parent()
		for i, fv := range par.FreeVars {
			if fv != a {
				continue
			}
			for _, b := range par.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == par {
						fl.stores(p, mc.Bindings[i], stop)
					}
				}
			}
		}
	case *ssa.Alloc:
		fl.storesTo(p, a, stop)
	case *ssa.FieldAddr:
		for _, fn := range p.AllFuncs() {
			if pkgOf(fn) != pkgOf(a.Parent()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == a.Field && types.Identical(fa.X.Type(), a.X.Type()) {
							fl.into(p, s.Val, stop)
						}
					}
				}
			}
		}
	default:
		fl.unknown = true
	}
}

func (fl *flow) storesTo(p *sim.Program, v ssa.Value, stop map[*ssa.Function]bool) {
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr == v {
				fl.into(p, r.Val, stop)
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v {
					fl.storesTo(p, fn.FreeVars[i], stop)
				}
			}
		}
	}
}

// flowOf gives the sources of a slice term.
func flowOf(p *sim.Program, t *sim.Term, list *sim.Term, listFn *ssa.Function) *flow {
	fl := newFlow()
	stop := map[*ssa.Function]bool{listFn: true}
	var walk func(t *sim.Term)
	walk = func(t *sim.Term) {
		switch {
		case t == list:
			fl.calls[listFn] = true
		case t.Op == sim.OSym || t.Op == sim.OAlloc:
			switch ob := t.Obj.(type) {
			case *ssa.Phi:
				fl.into(p, ob, stop)
			case *sim.Term:
				if a, ok := ob.Obj.(*ssa.Alloc); ok {
					fl.storesTo(p, a, stop)
				} else if ob.Op == sim.OField {
					fl.unknown = true
				} else {
					fl.unknown = true
				}
			default:
				fl.unknown = true
			}
		case t.Op == sim.OSlice, t.Op == sim.OAppend, t.Op == sim.OConv:
			fl.unknown = fl.unknown || t.Op == sim.OAppend
			walk(t.Args[0])
		case t.Op == sim.ONil:
		default:
			fl.unknown = true
		}
	}
	walk(t)
	return fl
}

// elemIn finds the element address X[i] of a slice of elem type et inside t.
func elemIn(t *sim.Term, et types.Type) *sim.Term {
	var out *sim.Term
	t.Any(func(x *sim.Term) bool {
		if x.Op == sim.OIndex && x.Sub != "map" && out == nil && len(x.Args) == 2 && x.Args[0].Typ != nil {
			if s, ok := x.Args[0].Typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), et) {
				out = x
			}
		}
		return false
	})
	return out
}

// evalAt evaluates an integer term with one term fixed.
func evalAt(t, x *sim.Term, v int64) (int64, bool) {
	if t == x {
		return v, true
	}
	if n, ok := t.Int64(); ok {
		return n, true
	}
	switch t.Op {
	case sim.OConv:
		return evalAt(t.Args[0], x, v)
	case sim.OBin:
		a, ok1 := evalAt(t.Args[0], x, v)
		b, ok2 := evalAt(t.Args[1], x, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Sub {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		case "/":
			if b != 0 {
				return a / b, true
			}
		}
	case sim.OUn:
		a, ok := evalAt(t.Args[0], x, v)
		if ok && t.Sub == "-" {
			return -a, true
		}
	}
	return 0, false
}

// stripTime removes conversions of a time that do not change the instant.
func stripTime(t *sim.Term) *sim.Term {
	for t.Op == sim.OPure && (t.Sub == "(time.Time).UTC" || t.Sub == "(time.Time).Local" || t.Sub == "(time.Time).In") {
		t = t.Args[0]
	}
	return t
}

func isNow(t *sim.Term) bool {
	t = stripTime(t)
	return (t.Op == sim.OCall || t.Op == sim.OPure) && t.Sub == "time.Now"
}

// stepOf describes the index variable of a loop: where it starts and by how
// much it moves.
func stepOf(ph *ssa.Phi) (start, step int64, ok bool) {
	haveS, haveT := false, false
	for i, e := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			b, isB := e.(*ssa.BinOp)
			if !isB || b.X != ph {
				return 0, 0, false
			}
			c, isC := b.Y.(*ssa.Const)
			if !isC || c.Value == nil {
				return 0, 0, false
			}
			n, _ := constant.Int64Val(c.Value)
			switch b.Op {
			case token.ADD:
			case token.SUB:
				n = -n
			default:
				return 0, 0, false
			}
			if haveT && n != step {
				return 0, 0, false
			}
			step, haveT = n, true
		} else {
			c, isC := e.(*ssa.Const)
			if !isC || c.Value == nil {
				return 0, step, false
			}
			start, _ = constant.Int64Val(c.Value)
			haveS = true
		}
	}
	return start, step, haveS && haveT
}

// loopBlocks: the blocks of the natural loop of header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	set := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if set[b] {
			continue
		}
		set[b] = true
		work = append(work, b.Preds...)
	}
	return set
}

// earlyExit finds a way out of the loop other than its header's.
func earlyExit(h *ssa.BasicBlock) *ssa.BasicBlock {
	set := loopBlocks(h)
	for b := range set {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if !set[s] && !panics(s) {
				return b
			}
		}
		if len(b.Succs) == 0 && !panics(b) {
			return b
		}
	}
	return nil
}

func panics(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func idxPhi(idx *sim.Term) (*ssa.Phi, int64) {
	off := int64(0)
	if idx.Op == sim.OBin && idx.Sub == "+" {
		if n, ok := idx.Args[1].Int64(); ok {
			off = n
			idx = idx.Args[0]
		}
	}
	ph, _ := idx.Obj.(*ssa.Phi)
	return ph, off
}

type c13env struct {
	p    *sim.Program
	r    *Report
	e    *lumberjackEnv
	list *ssa.Function
	run  *ssa.Function
	tsF  string // timestamp field of the element
	et   types.Type
}

func checkC13(p *sim.Program, r *Report) {
	r.Assumptions = []string{"sort.Sort and sort.Slice sort by the given order; the directory listing names files of the directory", "MaxAge in days does not overflow a Duration"}
	e := lumberEnv(p, r)
	if e == nil {
		return
	}
	runs := minimalReaching(p, lumber, setDir, setRemove)
	lists := minimalReaching(p, lumber, setDir)
	if !r.Need(len(runs) == 1, "the retention pass (reads the directory and removes files)") || !r.Need(len(lists) == 1, "the listing of the backups") {
		return
	}
	env := &c13env{p: p, r: r, e: e, list: lists[0], run: runs[0]}
	if env.list == env.run {
		r.Note("listing and removal are one function: not decomposed")
		return
	}
	res := env.list.Signature.Results()
	sl, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok {
		r.Note("the listing does not return a slice: not decomposed")
		return
	}
	env.et = sl.Elem()
	if st, ok := env.et.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "time.Time" {
				env.tsF = st.Field(i).Name()
			}
		}
	}
	if env.tsF == "" {
		r.Note("the listing does not carry timestamps: not decomposed")
		return
	}
	env.retention()
	env.listing()
	env.naming()
	env.trigger()
}

func (c *c13env) machine() *sim.Machine {
	m := lumberMachine(c.p)
	m.AbstractFirst, m.MaxIter = true, 1
	m.Records["append"] = true
	m.SnapAt = func(ev *sim.Event) bool { return ev.Kind == "mapupdate" }
	return m
}

func (c *c13env) retention() {
	p, r := c.p, c.r
	m := c.machine()
	T := m.T
	base := m.Opaque
	m.Opaque = func(fn *ssa.Function) bool {
		return base(fn) || fn == c.list || fn != c.run && reaches(fn, setGzip, map[*ssa.Function]bool{})
	}
	m.OnBlock = func(st *sim.State, b *ssa.BasicBlock) bool {
		st.Tag(fmt.Sprintf("%p", b))
		return true
	}
	args := m.Params(c.run, "")
	st0 := m.NewState()
	l := args[0]
	st0.Facts.Assert(T.Eq(l, T.Nil()), false)
	outs := m.Run(st0, c.run, args)
	r.Absorb(m)
	if m.Overflow {
		return
	}
	sN := m.NewState()
	mb := m.FieldOf(sN, l, c.e.t, "MaxBackups")
	ma := m.FieldOf(sN, l, c.e.t, "MaxAge")
	cp := m.FieldOf(sN, l, c.e.t, "Compress")
	zero := T.Int(0)
	nameOf := func(e *sim.Term, t *sim.Term) bool {
		return t.Any(func(x *sim.Term) bool {
			return x.Op == sim.OPure && strings.HasSuffix(x.Sub, "FileInfo).Name") && x.Contains(e)
		})
	}
	type sel struct {
		ev *sim.Event
		e  *sim.Term
	}
	type pathInfo struct {
		o      *sim.State
		list   *sim.Term
		sels   []sel
		counts map[*sim.Term]*sim.Event // element -> update of the counting map
	}
	// the slices files are removed from
	removal := newFlow()
	direct := false
	var rmHeader *ssa.BasicBlock
	listOf := func(o *sim.State) (*sim.Term, *sim.Term) {
		for _, ev := range o.Trace {
			if ev.Kind == "call" && ev.Fn == c.list || ev.Kind == "call" && ev.Callee == c.list.String() {
				return resOf(m, ev, 0), resOf(m, ev, c.list.Signature.Results().Len()-1)
			}
		}
		return nil, nil
	}
	removals := 0
	merge := func(dst, src *flow) {
		for k := range src.appends {
			dst.appends[k] = true
		}
		for k := range src.calls {
			dst.calls[k] = true
		}
		dst.unknown = dst.unknown || src.unknown
	}
	flows := map[*sim.Term]*flow{}
	flowT := func(x, list *sim.Term) *flow {
		if f := flows[x]; f != nil {
			return f
		}
		f := flowOf(p, x, list, c.list)
		flows[x] = f
		return f
	}
	for _, o := range outs {
		list, _ := listOf(o)
		for _, ev := range o.Trace {
			if ev.Kind != "call" || !setRemove[ev.Callee] {
				continue
			}
			removals++
			e := elemIn(ev.Args[0], c.et)
			if !r.Ob("removes-listed", fname(c.run), e != nil && nameOf(e, ev.Args[0]), sim.PosOf(ev.Instr), fmt.Sprintf("%v is removed, which is not a listed backup", ev.Args[0]), trace(o)...) {
				continue
			}
			f := flowT(e.Args[0], list)
			merge(removal, f)
			if f.calls[c.list] {
				direct = true
			}
			if ph, _ := idxPhi(e.Args[1]); ph != nil {
				rmHeader = ph.Block()
			}
		}
	}
	if !r.Ob("explored", "removal", removals > 0, where(p, c.run), "no removal of old files was found") {
		return
	}
	if removal.unknown {
		r.Note("the slice of files to remove is built in a way that is not decomposed")
		return
	}
	var infos []*pathInfo
	var countH, ageH *ssa.BasicBlock
	for _, o := range outs {
		if o.Panicked {
			continue
		}
		list, _ := listOf(o)
		pi := &pathInfo{o: o, list: list, counts: map[*sim.Term]*sim.Event{}}
		for _, ev := range o.Trace {
			switch ev.Kind {
			case "append":
				if removal.appends[ev.Instr] {
					for _, a := range ev.Args {
						if e := elemIn(a, c.et); e != nil {
							pi.sels = append(pi.sels, sel{ev, e})
						} else {
							r.Note("an append to the files to remove is not decomposed: %v", a)
						}
					}
				}
			case "call":
				if direct && setRemove[ev.Callee] {
					if e := elemIn(ev.Args[0], c.et); e != nil && flowT(e.Args[0], list).calls[c.list] {
						pi.sels = append(pi.sels, sel{ev, e})
					}
				}
			case "mapupdate":
				if e := elemIn(ev.Args[0], c.et); e != nil {
					pi.counts[e] = ev
					if ph, _ := idxPhi(e.Args[1]); ph != nil {
						countH = ph.Block()
					}
				}
			}
		}
		for a := range o.Facts.Atoms {
			if e := c.ageElem(a, ma); e != nil {
				if ph, _ := idxPhi(e.Args[1]); ph != nil {
					ageH = ph.Block()
				}
			}
		}
		infos = append(infos, pi)
	}
	if countH == nil || ageH == nil {
		r.Note("the count (%v) or the age (%v) pass is written in a way that is not decomposed", countH != nil, ageH != nil)
	}
	// loops
	for _, h := range []struct {
		what string
		b    *ssa.BasicBlock
	}{{"counting the backups", countH}, {"comparing the ages", ageH}, {"removing the files", rmHeader}} {
		if h.b == nil {
			continue
		}
		if x := earlyExit(h.b); x != nil {
			r.Ob("whole-list", h.what, false, where(p, h.b.Parent()), "the loop "+h.what+" can stop before the last file")
		} else {
			r.Ob("whole-list", h.what, true, "", "")
		}
		for _, in := range h.b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			start, step, ok := stepOf(ph)
			used := false
			for _, pi := range infos {
				for _, s := range pi.sels {
					if q, off := idxPhi(s.e.Args[1]); q == ph {
						used = true
						start += off
						break
					}
				}
				if used {
					break
				}
			}
			if used && ok {
				r.Ob("whole-list", h.what+" from the first", start == 0 && step == 1, where(p, h.b.Parent()), fmt.Sprintf("the loop %s starts at %d and moves by %d", h.what, start, step))
			}
		}
	}
	day := int64(86400e9)
	countOK := func(pi *pathInfo, e *sim.Term) (ok, known bool, why string) {
		o := pi.o
		ev := pi.counts[e]
		if ev == nil {
			return false, true, ""
		}
		exceeded := false
		for a := range o.Facts.Atoms {
			a.Any(func(n *sim.Term) bool {
				if n.Op == sim.OLen && n.Args[0] == ev.Recv {
					v, err := strconv.Atoi(n.Sub)
					if err == nil && ev.Snap != nil && v > ev.Snap.Version(ev.Recv) && o.Facts.Less(mb, n) {
						exceeded = true
					}
				}
				return false
			})
		}
		if !exceeded {
			return false, true, ""
		}
		if !o.Facts.Less(zero, mb) {
			return false, true, "MaxBackups may be 0 (keep everything)"
		}
		return true, true, ""
	}
	ageOK := func(pi *pathInfo, e *sim.Term) (ok bool, why string, unknown bool) {
		for a, v := range pi.o.Facts.Atoms {
			if !a.Contains(e) || !a.Contains(ma) {
				continue
			}
			if c.ageElem(a, ma) != e {
				unknown = true
				continue
			}
			t, cut := a.Args[0], a.Args[1]
			if a.Sub == "(time.Time).After" {
				t, cut = cut, t
			}
			if !v {
				continue
			}
			if !t.Contains(e) || cut.Contains(e) {
				return false, "files newer than the limit are removed", false
			}
			ts := stripTime(t)
			if !ts.Any(func(x *sim.Term) bool {
				return x.Op == sim.OField && x.Sub == c.tsF || x.Op == sim.OProj && x.Sub == c.tsF
			}) {
				return false, fmt.Sprintf("the age is computed from %v, not from the timestamp in the name", t), false
			}
			add := stripTime(cut)
			if add.Op != sim.OPure || add.Sub != "(time.Time).Add" {
				unknown = true
				continue
			}
			if !isNow(add.Args[0]) {
				return false, fmt.Sprintf("the limit is computed from %v, not from the current time", add.Args[0]), false
			}
			for _, k := range []int64{1, 2, 30} {
				d, ok := evalAt(add.Args[1], ma, k)
				if !ok {
					unknown = true
					break
				}
				if d != -k*day {
					return false, fmt.Sprintf("with MaxAge %d the limit is %d ns before now, want %d", k, -d, k*day), false
				}
			}
			if unknown {
				continue
			}
			if !pi.o.Facts.Less(zero, ma) {
				return false, "MaxAge may be 0 (no limit)", false
			}
			return true, "", false
		}
		return false, "", unknown
	}
	selN := 0
	for _, pi := range infos {
		o := pi.o
		selected := map[*sim.Term]bool{}
		for _, s := range pi.sels {
			selected[s.e] = true
			selN++
			cok, _, cwhy := countOK(pi, s.e)
			aok, awhy, unk := ageOK(pi, s.e)
			if cok {
				// counted before the decision, with the name of this file, and over the whole sorted list
				ev := pi.counts[s.e]
				before := false
				for _, x := range o.Trace {
					if x == ev {
						before = true
					}
					if x == s.ev {
						break
					}
				}
				r.Ob("counted-first", "count", before, sim.PosOf(s.ev.Instr), "the file is judged before it was counted", trace(o)...)
				f := flowT(s.e.Args[0], pi.list)
				r.Ob("counts-all", "count", f.calls[c.list] && len(f.appends) == 0 || f.unknown, sim.PosOf(ev.Instr), "the backups are not counted over the whole sorted listing", trace(o)...)
				r.Ob("count-key", "count", c.countKey(o, ev.Args[0], s.e), sim.PosOf(ev.Instr), fmt.Sprintf("a backup is counted as %v: a log file and its compressed copy must count once, different backups separately", ev.Args[0]), trace(o)...)
			}
			if cok || aok {
				r.Ob("removed-for-reason", "selection", true, "", "")
				continue
			}
			// a comparison with MaxBackups or MaxAge that is not understood?
			known := true
			msg := "a file is selected for removal although neither MaxBackups nor MaxAge requires it"
			if cwhy != "" {
				msg += ": " + cwhy
			}
			if awhy != "" {
				msg += ": " + awhy
			} else if unk {
				known = false
			}
			for a := range o.Facts.Atoms {
				if a.Op != sim.OLt || !a.Contains(mb) {
					continue
				}
				other := a.Args[0]
				if other.Contains(mb) {
					other = a.Args[1]
				}
				if _, isC := other.Int64(); isC || pi.list != nil && other == T.Len(pi.list) {
					continue
				}
				if other.Op == sim.OLen {
					continue
				}
				if ph, _ := idxPhi(other); ph != nil {
					if _, _, ok := stepOf(ph); !ok && awhy == "" {
						known = false // a counter
					}
					continue
				}
				if awhy == "" && other.Op != sim.OBin {
					known = false
				}
			}
			if !known {
				r.Note("a selection is guarded by a comparison that is not decomposed at %s", sim.PosOf(s.ev.Instr))
				continue
			}
			r.Ob("removed-for-reason", "selection", false, sim.PosOf(s.ev.Instr), msg, trace(o)...)
		}
		// converse: what has to go is selected
		for e, ev := range pi.counts {
			if ok, _, _ := countOK(pi, e); ok {
				r.Ob("excess-removed", "count", selected[e], sim.PosOf(ev.Instr), "a backup beyond MaxBackups is not selected for removal", trace(o)...)
			} else if ageH != nil && !selected[e] && o.Tags[fmt.Sprintf("%p", ageH)] {
				kept, known := false, true
				for a := range o.Facts.Atoms {
					if a.Op != sim.OLt || a.Args[1].Op != sim.OLen {
						continue
					}
					if ph, _ := idxPhi(a.Args[0]); ph == nil || ph.Block() != ageH {
						continue
					}
					f := flowT(a.Args[1].Args[0], pi.list)
					known = known && !f.unknown
					kept = kept || f.calls[c.list] && len(f.appends) == 0
					for _, x := range o.Trace {
						if x.Kind == "append" && f.appends[x.Instr] {
							for _, a := range x.Args {
								kept = kept || elemIn(a, c.et) == e
							}
						}
					}
				}
				if !known {
					continue
				}
				r.Ob("kept-aged", "count", kept, sim.PosOf(ev.Instr), "a backup kept by count is not compared with MaxAge", trace(o)...)
			}
		}
		for a, v := range o.Facts.Atoms {
			if e := c.ageElem(a, ma); e != nil && v {
				if ok, _, _ := ageOK(pi, e); ok {
					r.Ob("aged-removed", "age", selected[e], where(p, c.run), "a file older than MaxAge days is not selected for removal", trace(o)...)
				}
			}
			// bodies that were entered
			if a.Op == sim.OLt && v && a.Args[1].Op == sim.OLen {
				ph, _ := idxPhi(a.Args[0])
				if ph == nil {
					continue
				}
				x := a.Args[1].Args[0]
				switch ph.Block() {
				case rmHeader:
					if direct {
						break
					}
					got := false
					for _, ev := range o.Trace {
						if ev.Kind == "call" && setRemove[ev.Callee] {
							if e := elemIn(ev.Args[0], c.et); e != nil && e.Args[0] == x && e.Args[1] == a.Args[0] {
								got = true
							}
						}
					}
					r.Ob("selected-removed", "removal", got, where(p, c.run), "a file selected for removal is not removed", trace(o)...)
				case countH:
					got := false
					for e := range pi.counts {
						got = got || e.Args[1] == a.Args[0] && e.Args[0] == x
					}
					r.Ob("all-counted", "count", got, where(p, c.run), "a backup is not counted", trace(o)...)
				case ageH:
					got := false
					for b := range o.Facts.Atoms {
						if e := c.ageElem(b, ma); e != nil && e.Args[1] == a.Args[0] && e.Args[0] == x {
							got = true
						}
					}
					r.Ob("all-aged", "age", got || selectedAt(selected, x, a.Args[0]), where(p, c.run), "a backup is not compared with MaxAge", trace(o)...)
				}
			}
		}
		// the passes happen when configured
		list, lerr := listOf(o)
		if lerr != nil && nonNilErr(o, lerr) {
			continue
		}
		if countH != nil && !o.Tags[fmt.Sprintf("%p", countH)] {
			ok := o.Facts.Leq(mb, zero) || list != nil && o.Facts.Leq(T.Len(list), mb)
			if list == nil {
				// left before the listing
				ok = ok || o.Facts.Eval(T.Eq(mb, zero)) == sim.True
			}
			r.Ob("count-pass", "count", ok, where(p, c.run), "with MaxBackups set and more backups than that, they are not counted", trace(o)...)
		}
		if ageH != nil && !o.Tags[fmt.Sprintf("%p", ageH)] {
			ok := o.Facts.Leq(ma, zero) || o.Facts.Eval(T.Eq(ma, zero)) == sim.True
			r.Ob("age-pass", "age", ok, where(p, c.run), "with MaxAge set, the ages are not compared", trace(o)...)
		}
		if len(pi.sels) > 0 && rmHeader != nil {
			r.Ob("removal-pass", "removal", o.Tags[fmt.Sprintf("%p", rmHeader)], where(p, c.run), "files are selected for removal, then the pass ends without removing them", trace(o)...)
		}
		// compression
		for _, ev := range o.Trace {
			if ev.Kind != "call" || ev.Fn == nil && len(ev.Args) < 2 {
				continue
			}
			fn := calledFn(ev)
			if fn == nil || fn == c.list || !reaches(fn, setGzip, map[*ssa.Function]bool{}) || len(ev.Args) != 2 {
				continue
			}
			on := o.Facts.Eval(cp) == sim.True
			r.Ob("compress-asked", "compression", on, sim.PosOf(ev.Instr), "files are compressed although Compress is off", trace(o)...)
			gz := ev.Args[1] == T.Concat(types.Typ[types.String], ev.Args[0], T.Str(".gz"))
			r.Ob("compress-name", "compression", gz, sim.PosOf(ev.Instr), fmt.Sprintf("%v is compressed to %v, want the name + .gz", ev.Args[0], ev.Args[1]), trace(o)...)
		}
	}
	r.Ob("explored", "selection", selN > 0, where(p, c.run), "no selection of old files was found")
}

func selectedAt(sel map[*sim.Term]bool, x, idx *sim.Term) bool {
	for e := range sel {
		if e.Args[0] == x && e.Args[1] == idx {
			return true
		}
	}
	return false
}

func calledFn(ev *sim.Event) *ssa.Function {
	if c, ok := ev.Instr.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

// ageElem: the atom compares the timestamp of an element with a limit made
// of MaxAge; returns the element.
func (c *c13env) ageElem(a, ma *sim.Term) *sim.Term {
	if a.Op != sim.OPure || a.Sub != "(time.Time).Before" && a.Sub != "(time.Time).After" || !a.Contains(ma) {
		return nil
	}
	return elemIn(a, c.et)
}

// countKey: the counting key is the name without .gz.
func (c *c13env) countKey(o *sim.State, k, e *sim.Term) bool {
	isName := func(x *sim.Term) bool {
		return x.Op == sim.OPure && strings.HasSuffix(x.Sub, "FileInfo).Name") && x.Contains(e)
	}
	if k.Op == sim.OPure && k.Sub == "strings.TrimSuffix" {
		s, ok := k.Args[1].StringVal()
		return isName(k.Args[0]) && ok && s == ".gz"
	}
	if isName(k) {
		for a, v := range o.Facts.Atoms {
			if !v && a.Op == sim.OPure && a.Sub == "strings.HasSuffix" && a.Args[0] == k {
				if s, ok := a.Args[1].StringVal(); ok && s == ".gz" {
					return true
				}
			}
		}
		return false
	}
	if k.Op == sim.OSlice && isName(k.Args[0]) {
		if !isInt(k.Args[1], 0) {
			return false
		}
		n, d := splitOff(k.Args[2])
		return n.Op == sim.OLen && n.Args[0] == k.Args[0] && d == -3
	}
	// timestamps are as good as names
	if k.Any(func(x *sim.Term) bool { return x.Op == sim.OField && x.Sub == c.tsF }) {
		return true
	}
	return !k.Any(isName) // not decomposed
}

func splitOff(t *sim.Term) (*sim.Term, int64) {
	if t.Op == sim.OBin && t.Sub == "+" {
		if n, ok := t.Args[1].Int64(); ok {
			return t.Args[0], n
		}
	}
	return t, 0
}

// timeFormatOK: the format is BackupTimeFormat, or the default one when that
// is empty.
func timeFormatOK(m *sim.Machine, o *sim.State, l *sim.Term, t *types.Named, f *sim.Term) bool {
	ff := m.FieldOf(m.NewState(), l, t, "BackupTimeFormat")
	if f == ff {
		return o.Facts.Eval(m.T.Eq(m.T.Len(ff), m.T.Int(0))) == sim.False || o.Facts.Eval(m.T.Eq(ff, m.T.Str(""))) == sim.False
	}
	if s, ok := f.StringVal(); ok {
		return s == "2006-01-02T15-04-05.000" && (o.Facts.Eval(m.T.Eq(m.T.Len(ff), m.T.Int(0))) == sim.True || o.Facts.Eval(m.T.Eq(ff, m.T.Str(""))) == sim.True)
	}
	return false
}

// logName: t is the configured file name (Filename, or the default below the
// temporary directory when that is empty).
func isLogName(m *sim.Machine, o *sim.State, l *sim.Term, n *types.Named, t *sim.Term) bool {
	ff := m.FieldOf(m.NewState(), l, n, "Filename")
	if t == ff {
		return true
	}
	return t.Op == sim.OPure && t.Sub == "path/filepath.Join" && t.Any(func(x *sim.Term) bool { return x.Sub == "os.TempDir" })
}

func isPureOf(t *sim.Term, sub string) (*sim.Term, bool) {
	if t.Op == sim.OPure && t.Sub == sub && len(t.Args) > 0 {
		return t.Args[0], true
	}
	return nil, false
}

// extOf: t is the extension of the base of the log name.
func (c *c13env) isExt(m *sim.Machine, o *sim.State, l, t *sim.Term) bool {
	x, ok := isPureOf(t, "path/filepath.Ext")
	if !ok {
		return false
	}
	if b, ok := isPureOf(x, "path/filepath.Base"); ok {
		x = b
	}
	return isLogName(m, o, l, c.e.t, x)
}

// isStem: t is the base of the log name without its extension.
func (c *c13env) isStem(m *sim.Machine, o *sim.State, l, t *sim.Term) bool {
	if t.Op == sim.OPure && t.Sub == "strings.TrimSuffix" {
		b, ok := isPureOf(t.Args[0], "path/filepath.Base")
		return ok && isLogName(m, o, l, c.e.t, b) && c.isExt(m, o, l, t.Args[1])
	}
	if t.Op != sim.OSlice || !isInt(t.Args[1], 0) {
		return false
	}
	b, ok := isPureOf(t.Args[0], "path/filepath.Base")
	if !ok || !isLogName(m, o, l, c.e.t, b) {
		return false
	}
	hi := t.Args[2]
	if hi.Op != sim.OBin || hi.Sub != "-" {
		return false
	}
	a, x := hi.Args[0], hi.Args[1]
	return a.Op == sim.OLen && a.Args[0] == t.Args[0] && x.Op == sim.OLen && c.isExt(m, o, l, x.Args[0])
}

// parts flattens a concatenation or a Sprintf of %s verbs.
func parts(t *sim.Term) []*sim.Term {
	if t.Op == sim.OConcat {
		var out []*sim.Term
		for _, a := range t.Args {
			out = append(out, parts(a)...)
		}
		return out
	}
	return []*sim.Term{t}
}

func partsFmt(T *sim.Terms, t *sim.Term) []*sim.Term {
	if (t.Op == sim.OPure || t.Op == sim.OCall) && t.Sub == "fmt.Sprintf" && len(t.Args) > 0 {
		f, ok := t.Args[0].StringVal()
		if !ok {
			return nil
		}
		var out []*sim.Term
		args := t.Args[1:]
		lit := ""
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				lit += string(f[i])
				continue
			}
			i++
			if i >= len(f) {
				return nil
			}
			if f[i] == '%' {
				lit += "%"
				continue
			}
			if f[i] != 's' && f[i] != 'v' || len(args) == 0 {
				return nil
			}
			if lit != "" {
				out = append(out, T.Str(lit))
				lit = ""
			}
			out = append(out, parts(stripIface(args[0]))...)
			args = args[1:]
		}
		if lit != "" {
			out = append(out, T.Str(lit))
		}
		return out
	}
	return parts(t)
}

func (c *c13env) listing() {
	p, r := c.p, c.r
	m := c.machine()
	T := m.T
	args := m.Params(c.list, "")
	l := args[0]
	st0 := m.NewState()
	st0.Facts.Assert(T.Eq(l, T.Nil()), false)
	outs := m.Run(st0, c.list, args)
	r.Absorb(m)
	fi := types.Type(nil)
	_ = fi
	listed := 0
	lt := m.FieldOf(m.NewState(), l, c.e.t, "LocalTime")
	isPrefix := func(o *sim.State, t *sim.Term) bool {
		ps := parts(t)
		if len(ps) != 2 {
			return false
		}
		s, ok := ps[1].StringVal()
		return ok && s == "-" && c.isStem(m, o, l, ps[0])
	}
	// 0 plain, 1 compressed, -1 neither
	suffixKind := func(o *sim.State, t *sim.Term) int {
		ps := parts(t)
		if len(ps) == 1 && c.isExt(m, o, l, ps[0]) {
			return 0
		}
		if len(ps) == 2 && c.isExt(m, o, l, ps[0]) {
			if s, ok := ps[1].StringVal(); ok && s == ".gz" {
				return 1
			}
		}
		return -1
	}
	for _, o := range outs {
		if o.Panicked {
			continue
		}
		var dir *sim.Event
		var dirRes *sim.Term
		for _, ev := range o.Trace {
			if ev.Kind == "call" && setDir[ev.Callee] {
				dir = ev
				dirRes = resOf(m, ev, 0)
				d, ok := isPureOf(ev.Args[0], "path/filepath.Dir")
				r.Ob("lists-log-dir", fname(c.list), ok && isLogName(m, o, l, c.e.t, d), sim.PosOf(ev.Instr), fmt.Sprintf("the backups are looked for in %v, not in the directory of the log file", ev.Args[0]), trace(o)...)
			}
		}
		if dir == nil {
			continue
		}
		dirElem := func(t *sim.Term) *sim.Term {
			var out *sim.Term
			t.Any(func(x *sim.Term) bool {
				if x.Op == sim.OIndex && x.Args[0] == dirRes {
					out = x
				}
				return false
			})
			return out
		}
		type parse struct {
			ev   *sim.Event
			e    *sim.Term
			kind int
		}
		var parses []parse
		for _, ev := range o.Trace {
			if ev.Kind != "call" || ev.Callee != "time.Parse" && ev.Callee != "time.ParseInLocation" {
				continue
			}
			e := dirElem(ev.Args[1])
			if e == nil {
				continue
			}
			r.Ob("parse-format", fname(c.list), timeFormatOK(m, o, l, c.e.t, ev.Args[0]), sim.PosOf(ev.Instr), fmt.Sprintf("timestamps are parsed with the format %v, not the one backups are named with", ev.Args[0]), trace(o)...)
			local := ev.Callee == "time.ParseInLocation" && strings.Contains(ev.Args[2].String(), "time.Local")
			want := o.Facts.Eval(lt)
			r.Ob("parse-zone", fname(c.list), want == sim.True && local || want == sim.False && !local, sim.PosOf(ev.Instr), "the timestamps are not read in the time zone they are written in (local time exactly when LocalTime is set)", trace(o)...)
			x := ev.Args[1]
			kind := -2
			if x.Op == sim.OSlice {
				// name[len(prefix):len(name)-len(ext)]
				name := x.Args[0]
				for a, v := range o.Facts.Atoms {
					if !v || a.Op != sim.OPure || a.Sub != "strings.HasSuffix" || a.Args[0] != name {
						continue
					}
					k := suffixKind(o, a.Args[1])
					if k >= 0 && x.Args[2] == T.Bin(token.SUB, T.Len(name), T.Len(a.Args[1]), types.Typ[types.Int]) {
						if kind != 1 {
							kind = k
						}
					}
				}
				pre := false
				for a, v := range o.Facts.Atoms {
					if v && a.Op == sim.OPure && a.Sub == "strings.HasPrefix" && a.Args[0] == name && isPrefix(o, a.Args[1]) && x.Args[1] == T.Len(a.Args[1]) {
						pre = true
					}
				}
				isN := strings.HasSuffix(name.Sub, "FileInfo).Name") || strings.HasSuffix(name.Sub, "DirEntry).Name")
				if isN {
					r.Ob("parses-timestamp", fname(c.list), pre && kind >= 0, sim.PosOf(ev.Instr), fmt.Sprintf("%v is parsed as the timestamp: it must be what lies between the checked prefix (name without extension and a dash) and the checked extension (or extension + .gz)", x), trace(o)...)
				}
			} else {
				r.Note("the timestamp is cut out of the name in a way that is not decomposed")
			}
			parses = append(parses, parse{ev, e, kind})
		}
		taken := map[*sim.Term]bool{}
		for _, ev := range o.Trace {
			if ev.Kind != "append" || len(ev.Args) != 1 || ev.Args[0].Typ == nil || !types.Identical(ev.Args[0].Typ, c.et) {
				continue
			}
			e := dirElem(ev.Args[0])
			if e == nil {
				r.Note("an entry of the listing is not decomposed")
				continue
			}
			listed++
			ts := m.Proj(ev.Args[0], c.et, c.tsF)
			var from *parse
			for i := range parses {
				if ts != nil && resOf(m, parses[i].ev, 0) == stripTime(ts) {
					from = &parses[i]
				}
			}
			if r.Ob("listed-parsed", fname(c.list), from != nil, sim.PosOf(ev.Instr), "a file is listed as a backup with a timestamp that was not parsed from its name", trace(o)...) {
				okp := succeeded(o, resOf(m, from.ev, 1)) && from.e == e
				r.Ob("listed-parsed", fname(c.list)+" ok", okp, sim.PosOf(ev.Instr), "a file is listed as a backup although its timestamp did not parse, or with that of another file", trace(o)...)
			}
			isDir := false
			for a, v := range o.Facts.Atoms {
				if a.Op == sim.OPure && (strings.HasSuffix(a.Sub, ".IsDir") || strings.HasSuffix(a.Sub, ".IsRegular")) && a.Contains(e) && v == strings.HasSuffix(a.Sub, ".IsRegular") {
					isDir = true
				}
			}
			r.Ob("listed-file", fname(c.list), isDir, sim.PosOf(ev.Instr), "a directory can be listed as a backup", trace(o)...)
			taken[e] = true
		}
		// converse: a backup is listed
		for a, v := range o.Facts.Atoms {
			if a.Op != sim.OLt || !v || a.Args[1].Op != sim.OLen || a.Args[1].Args[0] != dirRes {
				continue
			}
			ph, _ := idxPhi(a.Args[0])
			if ph == nil {
				continue
			}
			if x := earlyExit(ph.Block()); x != nil {
				r.Ob("whole-directory", fname(c.list), false, where(p, c.list), "the listing can stop before the last file of the directory")
			}
			var e *sim.Term
			excl := false
			okKind := map[int]bool{}
			for b, bv := range o.Facts.Atoms {
				x := dirElem(b)
				if x == nil || x.Args[1] != a.Args[0] {
					continue
				}
				e = x
				if b.Op == sim.OPure && (strings.HasSuffix(b.Sub, ".IsDir") && bv || strings.HasSuffix(b.Sub, ".IsRegular") && !bv) {
					excl = true
				}
				if b.Op == sim.OPure && b.Sub == "strings.HasPrefix" && isPrefix(o, b.Args[1]) && !bv {
					excl = true
				}
				if b.Op == sim.OPure && b.Sub == "strings.HasSuffix" && !bv {
					if k := suffixKind(o, b.Args[1]); k >= 0 {
						okKind[k] = true
					}
				}
			}
			for _, ps := range parses {
				if ps.e.Args[1] == a.Args[0] && failed(o, resOf(m, ps.ev, 1)) && ps.kind >= 0 {
					okKind[ps.kind] = true
				}
			}
			sel := false
			for t := range taken {
				sel = sel || t.Args[1] == a.Args[0]
			}
			_ = e
			r.Ob("backup-listed", fname(c.list), sel || excl || okKind[0] && okKind[1], where(p, c.list), "a file named prefix + timestamp + extension (or + .gz) can be left out of the listing", trace(o)...)
		}
		// sorted newest first
		if o.Ret == nil || o.Ret.Op != sim.OTuple || !o.Facts.IsNil(o.Ret.Args[len(o.Ret.Args)-1]) {
			continue
		}
		sorted, decomposed := c.sortedNewest(m, o, o.Ret.Args[0])
		if decomposed {
			r.Ob("newest-first", fname(c.list), sorted, where(p, c.list), "the backups are not sorted newest first", trace(o)...)
		} else {
			r.Note("the sort order of the listing is not decomposed")
		}
		f := flowOf(p, o.Ret.Args[0], nil, nil)
		if !f.unknown {
			n := 0
			for in := range f.appends {
				_ = in
				n++
			}
			r.Ob("returns-listing", fname(c.list), n > 0, where(p, c.list), "the listing is not what is returned", trace(o)...)
		}
	}
	r.Ob("explored", "listing", listed > 0, where(p, c.list), "no file is ever listed as a backup")
}

// sortedNewest: the returned slice was sorted, newest first.
func (c *c13env) sortedNewest(m *sim.Machine, o *sim.State, ret *sim.Term) (sorted, decomposed bool) {
	any := false
	for _, ev := range o.Trace {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Callee, "sort.") && !strings.HasPrefix(ev.Callee, "slices.") {
			continue
		}
		any = true
		switch ev.Callee {
		case "sort.Sort", "sort.Stable":
			x := ev.Args[0]
			if x.Op == sim.OPure || x.Op == sim.OCall {
				// sort.Reverse and the like
				return false, false
			}
			if x.Op != sim.OIface {
				return false, false
			}
			dyn, _ := x.Obj.(types.Type)
			if dyn == nil {
				dyn = x.Args[0].Typ
			}
			if stripConv(x.Args[0]) != stripConv(ret) {
				return false, true
			}
			less := c.p.MethodOf(dyn, "Less")
			if less == nil {
				return false, false
			}
			m2 := lumberMachine(c.p)
			as := m2.Params(less, "")
			ok, dec := c.lessNewest(m2, m2.Run(m2.NewState(), less, as), as[len(as)-2], as[len(as)-1])
			c.r.Absorb(m2)
			return ok, dec
		case "sort.Slice", "sort.SliceStable":
			if stripConv(stripIface(ev.Args[0])) != stripConv(ret) {
				return false, true
			}
			fv := ev.Args[1]
			i, j := m.T.Sym("less.i", types.Typ[types.Int]), m.T.Sym("less.j", types.Typ[types.Int])
			st := o.Detach()
			return c.lessNewest(m, m.RunValue(st, fv, []*sim.Term{i, j}), i, j)
		default:
			return false, false
		}
	}
	if !any {
		return false, true
	}
	return false, false
}

func stripConv(t *sim.Term) *sim.Term {
	for t.Op == sim.OConv {
		t = t.Args[0]
	}
	return t
}

func (c *c13env) lessNewest(m *sim.Machine, outs []*sim.State, i, j *sim.Term) (ok, decomposed bool) {
	ok, decomposed = true, true
	has := func(t, idx *sim.Term) bool {
		return t.Any(func(x *sim.Term) bool { return x.Op == sim.OIndex && x.Args[1] == idx }) && t.Any(func(x *sim.Term) bool { return x.Op == sim.OField && x.Sub == c.tsF })
	}
	for _, o := range outs {
		if o.Panicked || o.Ret == nil {
			continue
		}
		t := o.Ret
		if t.Op != sim.OPure || t.Sub != "(time.Time).After" && t.Sub != "(time.Time).Before" {
			if b, isC := t.BoolVal(); isC {
				// decided by a branch
				found := false
				for a, v := range o.Facts.Atoms {
					if a.Op == sim.OPure && (a.Sub == "(time.Time).After" || a.Sub == "(time.Time).Before") && v == b {
						t, found = a, true
					}
				}
				if !found {
					return true, false
				}
			} else {
				return true, false
			}
		}
		x, y := t.Args[0], t.Args[1]
		if t.Sub == "(time.Time).Before" {
			x, y = y, x
		}
		if has(x, i) && has(y, j) {
			continue
		}
		if has(x, j) && has(y, i) {
			return false, true
		}
		return false, true
	}
	return ok, decomposed
}

// naming: the names rotation gives are the names the listing recognises.
func (c *c13env) naming() {
	r := c.r
	n := 0
	lumberRuns(c.p, r, c.e, func(name string, fn *ssa.Function, m *sim.Machine, l *sim.Term, args []*sim.Term, o *sim.State) {
		lt := m.FieldOf(m.NewState(), l, c.e.t, "LocalTime")
		for _, ev := range o.Trace {
			if ev.Kind != "call" || ev.Callee != "os.Rename" {
				continue
			}
			n++
			dst := ev.Args[1]
			base := dst
			if dst.Op == sim.OPure && dst.Sub == "path/filepath.Join" && len(dst.Args) == 2 {
				d, ok := isPureOf(dst.Args[0], "path/filepath.Dir")
				r.Ob("backup-dir", "rotation", ok && isLogName(m, o, l, c.e.t, d), sim.PosOf(ev.Instr), fmt.Sprintf("backups are put into %v, not into the directory of the log file", dst.Args[0]), trace(o)...)
				base = dst.Args[1]
			}
			ps := partsFmt(m.T, base)
			if ps == nil {
				r.Note("the backup name is not decomposed")
				continue
			}
			// stem "-" timestamp ext
			ok := false
			if len(ps) == 4 {
				s, isS := ps[1].StringVal()
				ok = isS && s == "-" && c.isStem(m, o, l, ps[0]) && c.isExt(m, o, l, ps[3]) && ps[2].Op == sim.OPure && ps[2].Sub == "(time.Time).Format"
			}
			if !r.Ob("backup-name", "rotation", ok, sim.PosOf(ev.Instr), fmt.Sprintf("a backup is named %v, want name + \"-\" + timestamp + extension", base), trace(o)...) {
				continue
			}
			f := ps[2]
			r.Ob("name-format", "rotation", timeFormatOK(m, o, l, c.e.t, f.Args[1]), sim.PosOf(ev.Instr), fmt.Sprintf("the timestamp is formatted with %v, want BackupTimeFormat or its default", f.Args[1]), trace(o)...)
			t := f.Args[0]
			utc := t.Op == sim.OPure && t.Sub == "(time.Time).UTC"
			want := o.Facts.Eval(lt)
			r.Ob("name-zone", "rotation", isNow(t) && (want == sim.True && !utc || want == sim.False && utc), sim.PosOf(ev.Instr), "the timestamp is not the current time, in UTC unless LocalTime is set", trace(o)...)
		}
	})
	r.Ob("explored", "rotation", n > 0, lumber, "no rotation was found")
}

// trigger: a rotation makes the retention pass run, after the rotation.
func (c *c13env) trigger() {
	p, r := c.p, c.r
	chans := map[string]bool{}
	n := 0
	lumberRuns(p, r, c.e, func(name string, fn *ssa.Function, m *sim.Machine, l *sim.Term, args []*sim.Term, o *sim.State) {
		if o.Panicked {
			return
		}
		ren, sig := -1, -1
		openFailed := false
		for i, ev := range o.Trace {
			switch {
			case ev.Kind == "call" && ev.Callee == "os.Rename" && succeeded(o, ev.Res):
				ren = i
			case ev.Kind == "select":
				for _, a := range ev.Args {
					if x := fieldName(a); x != "" {
						sig = i
						chans[x] = true
					}
				}
			case ev.Kind == "send":
				if x := fieldName(ev.Recv); x != "" {
					sig = i
					chans[x] = true
				}
			case (ev.Kind == "call" || ev.Kind == "go") && calledFn(ev) != nil && reachesFn(calledFn(ev), c.run):
				sig = i
			}
			if _, _, ok := openFlags(ev); ok && ev.Kind == "call" && nonNilErr(o, resOf(m, ev, 1)) {
				openFailed = true
			}
			if ev.Kind == "call" && (ev.Callee == "os.Stat" || ev.Callee == "os.Lstat") && nonNilErr(o, resOf(m, ev, 1)) {
				openFailed = true // appeared meanwhile
			}
		}
		if ren < 0 || openFailed {
			return
		}
		// only rotations that succeed
		err := o.Ret
		if err != nil && err.Op == sim.OTuple {
			err = nil
			for _, ev := range o.Trace {
				if isWrite(ev) {
					err = m.T.Nil()
				}
			}
		}
		if err == nil || !o.Facts.IsNil(err) {
			return
		}
		n++
		r.Ob("retention-triggered", name, sig > ren, where(p, fn), "a log file was rotated but the removal of old backups is not triggered afterwards", trace(o)...)
	})
	r.Ob("explored", "trigger", n > 0, lumber, "no successful rotation was found")
	// the goroutine
	for _, fn := range p.AllFuncs() {
		if pkgOf(fn) != lumber || len(fn.Blocks) == 0 || fn == c.run {
			continue
		}
		recv := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
					recv = true
				}
			}
		}
		if !recv || !reachesFn(fn, c.run) {
			continue
		}
		m := c.machine()
		base := m.Opaque
		m.Opaque = func(f *ssa.Function) bool { return base(f) || f == c.run }
		args := m.Params(fn, "")
		for _, o := range m.Run(m.NewState(), fn, args) {
			for i, ev := range o.Trace {
				if ev.Kind != "recv" || ev.Val != nil && o.Facts.Eval(ev.Val) != sim.True {
					continue
				}
				got := false
				for _, x := range o.Trace[i+1:] {
					if x.Kind == "recv" {
						break
					}
					if x.Kind == "call" && calledFn(x) == c.run {
						got = true
					}
				}
				r.Ob("each-trigger-runs", fname(fn), got, sim.PosOf(ev.Instr), "a trigger is received but the retention pass does not run", trace(o)...)
			}
		}
		for _, h := range fn.Blocks {
			isH := false
			for _, q := range h.Preds {
				isH = isH || h.Dominates(q)
			}
			if isH && inHeader(h, func(in ssa.Instruction) bool {
				u, ok := in.(*ssa.UnOp)
				return ok && u.Op == token.ARROW
			}) {
				x := earlyExit(h)
				r.Ob("goroutine-stays", fname(fn), x == nil, where(p, fn), "the goroutine that removes old backups can end while the logger is used")
			}
		}
		r.Absorb(m)
	}
	// a trigger is never lost while the pass runs: the channel is buffered
	for _, fn := range p.AllFuncs() {
		if pkgOf(fn) != lumber {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mc, ok := in.(*ssa.MakeChan)
				if !ok {
					continue
				}
				k, isC := mc.Size.(*ssa.Const)
				if isC && k.Value != nil {
					sz, _ := constant.Int64Val(k.Value)
					r.Ob("trigger-buffered", fname(fn), sz >= 1, sim.PosOf(in), "the trigger channel is not buffered: a rotation during a retention pass is not followed by another one")
				}
			}
		}
	}
}

func inHeader(h *ssa.BasicBlock, f func(in ssa.Instruction) bool) bool {
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			if f(in) {
				return true
			}
		}
	}
	return false
}

func fieldName(t *sim.Term) string {
	if t == nil {
		return ""
	}
	if t.Typ != nil {
		if _, ok := t.Typ.Underlying().(*types.Chan); ok {
			return t.String()
		}
	}
	return ""
}

func reachesFn(fn, target *ssa.Function) bool {
	if fn == target {
		return true
	}
	return reaches(fn, map[string]bool{target.String(): true}, map[*ssa.Function]bool{})
}
