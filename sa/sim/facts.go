package sim

import (
	"go/constant"
	"go/token"
	"go/types"
)

// Facts is the abstract value of the path condition: a set of boolean atoms
// with known truth, plus a zone (difference bounds a-b<=c) over integer terms.
type Facts struct {
	tt    *Terms
	Atoms map[*Term]bool
	edges map[[2]int]int64 // [a,b] -> c : a-b<=c ; id -1 is zero
	nodes map[int]*Term
	eqc   map[*Term]*Term // term known equal to a constant / nil (non-integer)
}

func NewFacts(tt *Terms) *Facts {
	return &Facts{tt: tt, Atoms: map[*Term]bool{}, edges: map[[2]int]int64{}, nodes: map[int]*Term{}, eqc: map[*Term]*Term{}}
}

func (f *Facts) Clone() *Facts {
	g := NewFacts(f.tt)
	for k, v := range f.Atoms {
		g.Atoms[k] = v
	}
	for k, v := range f.edges {
		g.edges[k] = v
	}
	for k, v := range f.nodes {
		g.nodes[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	return g
}

type Tri int

const (
	Unknown Tri = iota
	True
	False
)

func (t Tri) Not() Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// lin decomposes an integer term into coefficients.
func lin(t *Term, sign int64, coef map[*Term]int64, c *int64) {
	if n, ok := t.Int64(); ok && n < huge && n > -huge {
		*c += sign * n
		return
	}
	if bits, _, ok := intInfo(t.Typ); ok && bits < 64 {
		// narrow arithmetic wraps
	} else if t.Op == OBin {
		switch t.Sub {
		case "+":
			lin(t.Args[0], sign, coef, c)
			lin(t.Args[1], sign, coef, c)
			return
		case "-":
			lin(t.Args[0], sign, coef, c)
			lin(t.Args[1], -sign, coef, c)
			return
		case "*":
			if n, ok := t.Args[1].Int64(); ok && n > -1000 && n < 1000 && sign > -1e6 && sign < 1e6 {
				lin(t.Args[0], sign*n, coef, c)
				return
			}
		}
	}
	coef[t] += sign
	if coef[t] == 0 {
		delete(coef, t)
	}
}

// diff returns (a,b,c,ok): x-y = a-b+c with a or b possibly nil (zero node).
func diff(x, y *Term) (a, b *Term, c int64, ok bool) {
	coef := map[*Term]int64{}
	lin(x, 1, coef, &c)
	lin(y, -1, coef, &c)
	ok = len(coef) <= 2
	for t, k := range coef {
		switch {
		case k == 1 && a == nil:
			a = t
		case k == -1 && b == nil:
			b = t
		default:
			ok = false
		}
	}
	if ok {
		return
	}
	// fall back: only split constants
	xb, xc := split64(x)
	yb, yc := split64(y)
	a, b = xb, yb
	c = xc - yc
	if n, isc := xb.Int64(); isc && n < huge && n > -huge {
		a = nil
		c += n
	}
	if n, isc := yb.Int64(); isc && n < huge && n > -huge {
		b = nil
		c -= n
	}
	return a, b, c, true
}

func split64(t *Term) (*Term, int64) {
	if bits, _, ok := intInfo(t.Typ); ok && bits < 64 {
		return t, 0
	}
	return splitAdd(t, t.Typ)
}

func nid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.ID
}

func isIntish(x *Term) bool {
	if x.Typ == nil {
		return x.Op == OConst && x.Val.Kind() == constant.Int
	}
	return isIntTerm(x.Typ)
}

func (f *Facts) addEdge(a, b *Term, c int64) {
	if c >= inf || c <= -inf {
		return
	}
	k := [2]int{nid(a), nid(b)}
	if old, ok := f.edges[k]; ok && old <= c {
		return
	}
	f.edges[k] = c
	if a != nil {
		f.nodes[a.ID] = a
	}
	if b != nil {
		f.nodes[b.ID] = b
	}
}

// typeBounds yields implied bounds of a leaf.
func typeBounds(t *Term) (lo, hi int64, hasLo, hasHi bool) {
	if t.Op == OLen || t.Op == OCap {
		return 0, 0, true, false
	}
	if t.Op == OBin && t.Sub == "%" {
		if n, ok := t.Args[1].Int64(); ok && n > 0 {
			_, signed, okI := intInfo(t.Typ)
			if okI && !signed {
				return 0, n - 1, true, true
			}
			return -(n - 1), n - 1, true, true
		}
	}
	if t.Op == OBin && t.Sub == "&" {
		if n, ok := t.Args[1].Int64(); ok && n >= 0 {
			return 0, n, true, true
		}
	}
	if bits, signed, ok := intInfo(t.Typ); ok {
		if !signed {
			switch bits {
			case 8:
				return 0, 255, true, true
			case 16:
				return 0, 65535, true, true
			case 32:
				return 0, 1<<32 - 1, true, true
			}
			return 0, 0, true, false
		}
		switch bits {
		case 8:
			return -128, 127, true, true
		case 16:
			return -32768, 32767, true, true
		case 32:
			return -1 << 31, 1<<31 - 1, true, true
		}
	}
	return
}

const inf = int64(1) << 62

// huge: larger constants are no part of the arithmetic, which could overflow.
const huge = int64(1) << 50

// shortest computes the least known c with a-b<=c.
func (f *Facts) shortest(a, b *Term) int64 {
	// Bellman-Ford from b: dist[v] = least c with v-b<=c
	type edge struct {
		to, from int
		c        int64
	}
	var es []edge
	for k, c := range f.edges {
		es = append(es, edge{k[0], k[1], c})
	}
	nodes := map[int]*Term{}
	for id, t := range f.nodes {
		nodes[id] = t
	}
	if a != nil {
		nodes[a.ID] = a
	}
	if b != nil {
		nodes[b.ID] = b
	}
	for id, t := range nodes {
		lo, hi, hl, hh := typeBounds(t)
		if hl {
			es = append(es, edge{-1, id, -lo}) // 0 - t <= -lo
		}
		if hh {
			es = append(es, edge{id, -1, hi})
		}
	}
	dist := map[int]int64{}
	for id := range nodes {
		dist[id] = inf
	}
	dist[-1] = inf
	dist[nid(b)] = 0
	for i := 0; i <= len(nodes)+1; i++ {
		ch := false
		for _, e := range es {
			d := dist[e.from]
			if d == inf {
				continue
			}
			if n := max(d+e.c, -inf/2); n < dist[e.to] {
				dist[e.to] = n
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return dist[nid(a)]
}

// leq: is x-y <= c entailed?
func (f *Facts) leq(x, y *Term, c int64) bool {
	if f.leqDiff(x, y, c) {
		return true
	}
	// not a difference: an atom with the same linear form
	coef := map[*Term]int64{}
	k := -c
	lin(x, 1, coef, &k)
	lin(y, -1, coef, &k)
	if len(coef) < 2 {
		return false
	}
	for at, v := range f.Atoms {
		if at.Op != OLt {
			continue
		}
		ac := map[*Term]int64{}
		var ak int64
		if v { // a - b + 1 <= 0
			ak = 1
			lin(at.Args[0], 1, ac, &ak)
			lin(at.Args[1], -1, ac, &ak)
		} else { // b - a <= 0
			lin(at.Args[1], 1, ac, &ak)
			lin(at.Args[0], -1, ac, &ak)
		}
		if len(ac) != len(coef) || k > ak {
			continue
		}
		same := true
		for t, n := range coef {
			if ac[t] != n {
				same = false
				break
			}
		}
		if same {
			return true
		}
	}
	return false
}

func (f *Facts) leqDiff(x, y *Term, c int64) bool {
	a, b, k, ok := diff(x, y)
	if !ok {
		return false
	}
	if a == nil && b == nil {
		return k <= c
	}
	s := f.shortest(a, b)
	if s == inf {
		return false
	}
	if s+k <= c {
		return true
	}
	if s+k == c+1 {
		// disequality may tighten by one: a-b != s
		if f.knownNeq(a, b, s) {
			return true
		}
	}
	return false
}

func (f *Facts) knownNeq(a, b *Term, s int64) bool {
	// a == b + s known false ?
	for at, v := range f.Atoms {
		if v || at.Op != OEq {
			continue
		}
		x, y := at.Args[0], at.Args[1]
		if !isIntish(x) && !isIntish(y) {
			continue
		}
		p, q, k, ok := diff(x, y) // x-y = p-q+k ; neq => p-q != -k
		if !ok {
			continue
		}
		if p == a && q == b && -k == s {
			return true
		}
		if p == b && q == a && k == s {
			return true
		}
	}
	return false
}

// Leq: x <= y entailed.
func (f *Facts) Leq(x, y *Term) bool { return f.leq(x, y, 0) }

// Lt: x < y entailed.
func (f *Facts) Less(x, y *Term) bool { return f.leq(x, y, -1) }

// Eval evaluates a boolean term under the facts.
func (f *Facts) Eval(t *Term) Tri {
	if b, ok := t.BoolVal(); ok {
		if b {
			return True
		}
		return False
	}
	if t.Op == ONot {
		return f.Eval(t.Args[0]).Not()
	}
	if v, ok := f.Atoms[t]; ok {
		if v {
			return True
		}
		return False
	}
	switch t.Op {
	case OLt:
		x, y := t.Args[0], t.Args[1]
		if isIntish(x) && isIntish(y) {
			if f.leq(x, y, -1) {
				return True
			}
			if f.leq(y, x, 0) {
				return False
			}
		}
	case OEq:
		x, y := t.Args[0], t.Args[1]
		if isIntish(x) && isIntish(y) {
			if f.leq(x, y, -1) || f.leq(y, x, -1) {
				return False
			}
			if f.leq(x, y, 0) && f.leq(y, x, 0) {
				return True
			}
			return Unknown
		}
		cx, cy := f.eqc[x], f.eqc[y]
		if x.Op == OConst || x.Op == ONil {
			cx = x
		}
		if y.Op == OConst || y.Op == ONil {
			cy = y
		}
		if cx != nil && cy != nil {
			return f.Eval(f.tt.Eq(cx, cy))
		}
		if cx != nil && cx.Op == ONil && f.NonNil(y) || cy != nil && cy.Op == ONil && f.NonNil(x) {
			return False
		}
	case OIsType:
		// another concrete type known true => false
		x := t.Args[0]
		for a, v := range f.Atoms {
			if v && a.Op == OIsType && a.Args[0] == x && a != t {
				ta, _ := a.Obj.(types.Type)
				tb, _ := t.Obj.(types.Type)
				if ta != nil && tb != nil && !types.IsInterface(ta) && !types.IsInterface(tb) && !types.Identical(ta, tb) {
					return False
				}
			}
		}
		if f.IsNil(x) {
			return False
		}
	}
	return Unknown
}

// Assert adds t==v to the facts; false if contradictory.
func (f *Facts) Assert(t *Term, v bool) bool {
	switch f.Eval(t) {
	case True:
		return v
	case False:
		return !v
	}
	if t.Op == ONot {
		return f.Assert(t.Args[0], !v)
	}
	f.Atoms[t] = v
	switch t.Op {
	case OLt:
		x, y := t.Args[0], t.Args[1]
		if isIntish(x) && isIntish(y) {
			a, b, k, _ := diff(x, y)
			if v { // x-y <= -1
				f.addEdge(a, b, -1-k)
			} else { // y-x <= 0  => b-a -k <= 0
				f.addEdge(b, a, k)
			}
		}
	case OEq:
		x, y := t.Args[0], t.Args[1]
		if isIntish(x) && isIntish(y) {
			if v {
				a, b, k, _ := diff(x, y)
				f.addEdge(a, b, -k)
				f.addEdge(b, a, k)
			}
			return true
		}
		if v {
			if y.Op == OConst || y.Op == ONil {
				f.eqc[x] = y
			} else if x.Op == OConst || x.Op == ONil {
				f.eqc[y] = x
			} else if c := f.eqc[y]; c != nil {
				f.eqc[x] = c
			} else if c := f.eqc[x]; c != nil {
				f.eqc[y] = c
			}
			if y.Op == ONil && isSliceTyp(x.Typ) || y.Op == ONil && isMapTyp(x.Typ) {
				f.Assert(f.tt.Eq(f.tt.Len(x), f.tt.Int(0)), true)
			}
			if s, ok := y.StringVal(); ok {
				f.Assert(f.tt.Eq(f.tt.Len(x), f.tt.Int(int64(len(s)))), true)
			}
			if s, ok := x.StringVal(); ok {
				f.Assert(f.tt.Eq(f.tt.Len(y), f.tt.Int(int64(len(s)))), true)
			}
		}
	case OIsType:
		if v {
			f.Atoms[f.tt.Eq(t.Args[0], f.tt.Nil())] = false
		}
	case OPure:
		if v && t.Sub == "strings.HasPrefix" {
			f.AssertLe(f.tt.Len(t.Args[1]), f.tt.Len(t.Args[0]))
		}
	}
	return true
}

func (f *Facts) AssertLe(x, y *Term) bool {
	return f.Assert(f.tt.Cmp(token.LEQ, x, y), true)
}

func isSliceTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
func isMapTyp(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// IsNil: known nil.
func (f *Facts) IsNil(t *Term) bool {
	if t.Op == ONil {
		return true
	}
	if c := f.eqc[t]; c != nil && c.Op == ONil {
		return true
	}
	v, ok := f.Atoms[f.tt.Eq(t, f.tt.Nil())]
	return ok && v
}

// NonNil: known non-nil.
func (f *Facts) NonNil(t *Term) bool {
	if t.NonNil() {
		return true
	}
	if e := f.tt.Eq(t, f.tt.Nil()); e.Op == OEq {
		if v, ok := f.Atoms[e]; ok && !v {
			return true
		}
	}
	return false
}

// Pinned: the one integer value the facts allow t to have.
func (f *Facts) Pinned(t *Term) (int64, bool) {
	if n, ok := t.Int64(); ok {
		return n, true
	}
	if !isIntTerm(t.Typ) {
		return 0, false
	}
	coef := map[*Term]int64{}
	k := int64(0)
	lin(t, 1, coef, &k)
	if len(coef) != 1 {
		return 0, false
	}
	for at, c := range coef {
		if c == 0 {
			return k, true
		}
		up := f.shortest(at, nil)
		if up >= inf || up <= -huge || up >= huge || f.shortest(nil, at) != -up {
			return 0, false
		}
		return c*up + k, true
	}
	return 0, false
}
