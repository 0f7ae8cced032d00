package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

// tables resolves package-level lookup tables: arrays and slices that are
// filled by the package initialisers only.
type tables struct {
	p    *sim.Program
	m    *sim.Machine
	tab  map[*ssa.Global]*table
	seen map[*ssa.Global]bool
}

type table struct {
	n     int64
	konst map[int64]constant.Value
	rows  []tableRow // filled by a loop over the index
	zero  constant.Value
}

type tableRow struct {
	idx  *sim.Term
	st   *sim.State
	val  *sim.Term
	head *ssa.BasicBlock
}

func newTables(p *sim.Program, m *sim.Machine) *tables {
	return &tables{p: p, m: m, tab: map[*ssa.Global]*table{}, seen: map[*ssa.Global]bool{}}
}

func elemOfGlobal(g *ssa.Global) (types.Type, int64) {
	switch u := g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Array:
		return u.Elem(), u.Len()
	case *types.Slice:
		return u.Elem(), -1
	}
	return nil, 0
}

// globalOf: the table a slice or array value denotes.
func globalOf(v ssa.Value) *ssa.Global {
	switch v := v.(type) {
	case *ssa.Global:
		return v
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

func (ts *tables) get(g *ssa.Global) *table {
	if ts.seen[g] {
		return ts.tab[g]
	}
	ts.seen[g] = true
	et, n := elemOfGlobal(g)
	if et == nil || g.Pkg == nil {
		return nil
	}
	if _, ok := et.Underlying().(*types.Basic); !ok {
		return nil
	}
	t := &table{n: n, konst: map[int64]constant.Value{}}
	z := ts.m.T.Zero(et)
	if !z.IsConst() {
		return nil
	}
	t.zero = z.Val
	// who writes?
	var inits []*ssa.Function
	for _, fn := range ts.p.AllFuncs() {
		if fn.Pkg != g.Pkg && !(fn.Parent() != nil) {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		writes := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if s.Addr == g {
						writes = true
					}
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && globalOf(ia.X) == g {
						writes = true
					}
				}
			}
		}
		if writes {
			if !isInit {
				return nil
			}
			inits = append(inits, fn)
		}
	}
	if pi := g.Pkg.Func("init"); pi != nil {
		found := false
		for _, f := range inits {
			found = found || f == pi
		}
		if !found {
			inits = append([]*ssa.Function{pi}, inits...)
		}
	}
	for _, fn := range inits {
		if fn.Synthetic != "" {
			ts.constInit(fn, g, t)
			continue
		}
		if !ts.loopInit(fn, g, t) {
			return nil
		}
	}
	if t.n < 0 {
		return nil
	}
	ts.tab[g] = t
	return t
}

// constInit reads a composite literal in the package initialiser.
func (ts *tables) constInit(fn *ssa.Function, g *ssa.Global, t *table) {
	var arr ssa.Value = g
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				switch v := s.Val.(type) {
				case *ssa.Slice:
					arr = v.X
					if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
						if a, ok := pt.Elem().Underlying().(*types.Array); ok {
							t.n = a.Len()
						}
					}
				case *ssa.MakeSlice:
					if c, ok := v.Len.(*ssa.Const); ok {
						t.n = c.Int64()
					}
				case *ssa.UnOp:
					arr = v.X
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || ia.X != arr {
				continue
			}
			i, ok1 := ia.Index.(*ssa.Const)
			v, ok2 := s.Val.(*ssa.Const)
			if ok1 && ok2 && v.Value != nil {
				t.konst[i.Int64()] = constant.ToInt(v.Value)
				if v.Value.Kind() == constant.Bool {
					t.konst[i.Int64()] = v.Value
				}
			} else {
				t.n = -1
				return
			}
		}
	}
}

// loopInit describes the elements stored by an init function.
func (ts *tables) loopInit(fn *ssa.Function, g *ssa.Global, t *table) bool {
	m := ts.p.NewMachine()
	m.T = ts.m.T
	m.Global = ts.p.GlobalInit(m.T)
	m.AbstractFirst, m.MaxIter = true, 1
	m.Records["store"] = true
	outs := m.Run(m.NewState(), fn, nil)
	if m.Overflow {
		return false
	}
	for _, o := range outs {
		last := map[*sim.Term]*sim.Event{}
		ga := (*sim.Term)(nil)
		for _, ev := range o.Trace {
			if ev.Kind == "store" && ev.Addr.Op == sim.OGlobal && ev.Addr.Obj == g {
				n, ok := m.T.Len(ev.Val).Int64()
				if !ok {
					return false
				}
				t.n = n
				ga = ev.Val
				if ga.Op == sim.OSlice {
					if !isInt(ga.Args[1], 0) {
						return false
					}
					ga = ga.Args[0]
				}
			}
		}
		for _, ev := range o.Trace {
			if ev.Kind == "store" && ev.Addr.Op == sim.OIndex && (ga != nil && ev.Addr.Args[0] == ga || isGlobalTab(ev.Addr.Args[0], g)) {
				last[ev.Addr.Args[1]] = ev
			}
		}
		for idx, ev := range last {
			if n, ok := idx.Int64(); ok {
				v := ev.Val
				if !v.IsConst() {
					return false
				}
				t.konst[n] = v.Val
				continue
			}
			ph, _ := idxPhi(idx)
			if ph == nil || earlyExit(ph.Block()) != nil {
				return false
			}
			dup := false
			for _, row := range t.rows {
				if row.idx == idx && row.st == o {
					dup = true
				}
			}
			if !dup {
				t.rows = append(t.rows, tableRow{idx, o, ev.Val, ph.Block()})
			}
		}
	}
	return true
}

func isGlobalTab(x *sim.Term, g *ssa.Global) bool {
	if x.Op == sim.OLoad {
		x = x.Args[0]
	}
	return x.Op == sim.OGlobal && x.Obj == g
}

// at returns element i; inRange is false if the index is out of range.
func (ts *tables) at(t *table, i int64) (v constant.Value, inRange, ok bool) {
	if i < 0 || i >= t.n {
		return nil, false, true
	}
	var res constant.Value
	var head *ssa.BasicBlock
	for _, row := range t.rows {
		root, off := idxRoot(row.idx)
		e := &sim.Evaluator{Leaf: func(x *sim.Term) (constant.Value, bool) {
			if x == root {
				return constant.MakeInt64(i - off), true
			}
			return nil, false
		}}
		match, known := true, true
		for a, want := range row.st.Facts.Atoms {
			if !a.Contains(root) {
				continue
			}
			b, ok := e.Eval(a)
			if !ok {
				known = false
				continue
			}
			if constant.BoolVal(b) != want {
				match = false
			}
		}
		if !match {
			continue
		}
		if !known {
			return nil, true, false
		}
		x, ok := e.Eval(row.val)
		if !ok {
			return nil, true, false
		}
		if res != nil && !constant.Compare(res, token.EQL, x) {
			// the later loop wins
			switch {
			case head != row.head && head.Dominates(row.head) && !loopBlocks(head)[row.head]:
			case head != row.head && row.head.Dominates(head) && !loopBlocks(row.head)[head]:
				continue
			default:
				return nil, true, false
			}
		}
		res, head = x, row.head
	}
	if res != nil {
		return res, true, true
	}
	if v, ok := t.konst[i]; ok {
		return v, true, true
	}
	return t.zero, true, true
}

func idxRoot(idx *sim.Term) (*sim.Term, int64) {
	for idx.Op == sim.OConv {
		idx = idx.Args[0]
	}
	if idx.Op == sim.OBin && idx.Sub == "+" {
		if n, ok := idx.Args[1].Int64(); ok {
			return idx.Args[0], n
		}
	}
	return idx, 0
}

// outOfRange is panicked with by leaf when an index leaves its table.
type outOfRange struct{ what string }

// leaf resolves table reads for an evaluator.
func (ts *tables) leaf(e *sim.Evaluator, x *sim.Term) (constant.Value, bool) {
	var base, idx *sim.Term
	switch {
	case x.Op == sim.OLoad && x.Args[0].Op == sim.OIndex:
		base, idx = x.Args[0].Args[0], x.Args[0].Args[1]
	case x.Op == sim.OElem:
		base, idx = x.Args[0], x.Args[1]
	default:
		return nil, false
	}
	if base.Op == sim.OLoad {
		base = base.Args[0]
	}
	g, ok := base.Obj.(*ssa.Global)
	if !ok {
		return nil, false
	}
	iv, ok := e.Eval(idx)
	if !ok {
		return nil, false
	}
	i, ok := constant.Int64Val(iv)
	if !ok {
		return nil, false
	}
	t := ts.get(g)
	if t == nil {
		return nil, false
	}
	v, in, ok := ts.at(t, i)
	if !in {
		panic(outOfRange{fmt.Sprintf("%s[%d], which has %d elements", g.Name(), i, t.n)})
	}
	return v, ok
}
