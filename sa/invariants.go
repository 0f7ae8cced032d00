package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

// Loop invariants by elimination: a set of candidate facts is assumed at
// every loop header, and the ones that do not hold at some arrival are
// dropped, until the rest is inductive.

// linCand: phi + c <= bound (le) or bound <= phi + c.
type linCand struct {
	phi   *ssa.Phi
	c     int64
	bound ssa.Value // another phi of the header or a value from before the loop
	isLen bool      // the bound is the length of that value
	le    bool
}

type invariants struct {
	m     *sim.Machine
	lin   map[string][]linCand
	bad   map[string]map[linCand]bool
	extra func(e *sim.LoopEvent, arrive bool) // client domain
	drop  bool
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// outsideValues: values of the function that are known before the loop starts.
func outsideValues(h *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	fn := h.Parent()
	for _, p := range fn.Params {
		out = append(out, p)
	}
	for _, b := range fn.Blocks {
		if b == h || !b.Dominates(h) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				out = append(out, v)
			}
		}
	}
	return out
}

func candidatesAt(h *ssa.BasicBlock) []linCand {
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok && isIntType(p.Type()) {
			phis = append(phis, p)
		}
	}
	var out []linCand
	outs := outsideValues(h)
	for _, p := range phis {
		for c := int64(0); c <= 1; c++ {
			for _, q := range phis {
				if p != q {
					out = append(out, linCand{p, c, q, false, true}, linCand{p, c, q, false, false})
				}
			}
			for _, v := range outs {
				if isIntType(v.Type()) {
					out = append(out, linCand{p, c, v, false, true})
				} else if isByteSeq(v.Type()) {
					out = append(out, linCand{p, c, v, true, true})
				}
			}
		}
		// p <= q + 1 and so on: q + c bounds p from above
		for _, q := range phis {
			if p != q {
				out = append(out, linCand{p, -1, q, false, true})
			}
		}
	}
	return out
}

func (iv *invariants) term(e *sim.LoopEvent, c linCand) *sim.Term {
	T := iv.m.T
	at := func(v ssa.Value) *sim.Term {
		for i, p := range e.Phis {
			if p == v {
				return e.Vals[i]
			}
		}
		return e.Env(v)
	}
	x := at(c.phi)
	b := at(c.bound)
	if x == nil || b == nil {
		return nil
	}
	if c.isLen {
		b = T.Len(b)
	}
	x = T.Bin(token.ADD, x, T.Int(c.c), c.phi.Type())
	if c.le {
		return T.Cmp(token.LEQ, x, b)
	}
	return T.Cmp(token.LEQ, b, x)
}

// solve runs until the candidates are inductive; run explores the program
// once.  The states of the last run satisfy the invariants.
func (iv *invariants) solve(run func()) int {
	iv.lin = map[string][]linCand{}
	iv.bad = map[string]map[linCand]bool{}
	m := iv.m
	cands := func(e *sim.LoopEvent) []linCand {
		l, ok := iv.lin[e.Key]
		if !ok {
			l = candidatesAt(e.Header)
			iv.lin[e.Key] = l
		}
		return l
	}
	m.OnArrive = func(e *sim.LoopEvent) bool {
		var keep []linCand
		for _, c := range cands(e) {
			t := iv.term(e, c)
			if t == nil || e.St.Facts.Eval(t) != sim.True {
				iv.drop = true
				continue
			}
			keep = append(keep, c)
		}
		iv.lin[e.Key] = keep
		if iv.extra != nil {
			iv.extra(e, true)
		}
		return !e.Back
	}
	m.OnHeader = func(e *sim.LoopEvent) {
		for _, c := range cands(e) {
			if t := iv.term(e, c); t != nil {
				e.St.Facts.Assert(t, true)
			}
		}
		if iv.extra != nil {
			iv.extra(e, false)
		}
	}
	rounds := 0
	for ; rounds < 60; rounds++ {
		iv.drop = false
		run()
		if !iv.drop {
			break
		}
	}
	return rounds
}

func (iv *invariants) String() string {
	s := ""
	for k, l := range iv.lin {
		for _, c := range l {
			op := "<="
			if !c.le {
				op = ">="
			}
			b := c.bound.Name()
			if c.isLen {
				b = "len(" + b + ")"
			}
			s += fmt.Sprintf("%s: %s+%d %s %s\n", k, c.phi.Comment, c.c, op, b)
		}
	}
	return s
}
