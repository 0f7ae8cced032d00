package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"math/big"
	"sort"
	"strings"

	"plzsa/sim"
)

const jsonfmt = "msgfmt/jsonfmt"

func init() {
	register("C17", "Abstract interpretation of jsonfmt.WriteInt*/WriteUint* over a domain of decimal digit ranges: on every path the appended bytes are an optional sign and the decimal digits n-1..0 of the magnitude, where the path condition bounds the magnitude to exactly n digits; lookup tables are resolved from the initialisers that build them.", checkC17)
}

// dr is a digit range: floor(mag / 10^lo) mod 10^(hi-lo); hi < 0: unbounded.
type dr struct{ lo, hi int }

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

func log10exact(t *sim.Term) (int, bool) {
	if !t.IsConst() || t.Val.Kind() != constant.Int {
		return 0, false
	}
	s := t.Val.ExactString()
	if s[0] != '1' || strings.Trim(s[1:], "0") != "" {
		return 0, false
	}
	return len(s) - 1, true
}

func bigOf(v constant.Value) *big.Int {
	b, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
	if !ok {
		return nil
	}
	return b
}

func konst(b *big.Int) constant.Value {
	return constant.MakeFromLiteral(b.String(), token.INT, 0)
}

type decEnv struct {
	p      *sim.Program
	m      *sim.Machine
	ts     *tables
	n      *sim.Term // the parameter
	bits   int
	signed bool
}

// decPath is one path of a writer.
type decPath struct {
	*decEnv
	o      *sim.State
	neg    bool
	lo, up *big.Int // bounds of the magnitude
}

// isMag: t is the magnitude of the parameter on this path.
func (d *decPath) isMag(t *sim.Term) bool {
	strip := func(t *sim.Term) *sim.Term {
		for t.Op == sim.OConv {
			b, _, ok := sim.IntInfo(t.Typ)
			if !ok || b < d.bits {
				break
			}
			t = t.Args[0]
		}
		return t
	}
	t = strip(t)
	if !d.neg {
		return t == d.n
	}
	if t.Op == sim.OBin && t.Sub == "-" && isInt(t.Args[0], 0) {
		return strip(t.Args[1]) == d.n
	}
	return false
}

func (d *decPath) classify(t *sim.Term) (dr, bool) {
	if d.isMag(t) {
		return dr{0, -1}, true
	}
	no := dr{}
	switch t.Op {
	case sim.OConv:
		r, ok := d.classify(t.Args[0])
		b, _, isI := sim.IntInfo(t.Typ)
		if ok && isI {
			if _, up := d.rng(r); up.BitLen() < b {
				return r, true
			}
		}
	case sim.OBin:
		switch t.Sub {
		case "/":
			k, ok := log10exact(t.Args[1])
			x, ok2 := d.classify(t.Args[0])
			if ok && ok2 && (x.hi < 0 || x.lo+k < x.hi) {
				return dr{x.lo + k, x.hi}, true
			}
		case "%":
			k, ok := log10exact(t.Args[1])
			x, ok2 := d.classify(t.Args[0])
			if ok && ok2 && k > 0 {
				if x.hi < 0 || x.lo+k < x.hi {
					return dr{x.lo, x.lo + k}, true
				}
				return x, true
			}
		case "-":
			x, ok := d.classify(t.Args[0])
			y := t.Args[1]
			if ok && y.Op == sim.OBin && y.Sub == "*" {
				k, ok := log10exact(y.Args[1])
				z, ok2 := d.classify(y.Args[0])
				if ok && ok2 && k > 0 && z.lo == x.lo+k && z.hi == x.hi {
					return dr{x.lo, x.lo + k}, true
				}
			}
		}
	}
	return no, false
}

// rng bounds the value of a digit range.
func (d *decPath) rng(r dr) (lo, up *big.Int) {
	q := pow10(r.lo)
	lo, up = new(big.Int).Quo(d.lo, q), new(big.Int).Quo(d.up, q)
	if r.hi >= 0 {
		max := new(big.Int).Sub(pow10(r.hi-r.lo), big.NewInt(1))
		if up.Cmp(max) > 0 {
			return big.NewInt(0), max
		}
	}
	return
}

// drRoots: the maximal subterms of t that are digit ranges; ok is false if t
// depends on something else.
func (d *decPath) drRoots(t *sim.Term) (map[*sim.Term]dr, bool) {
	out := map[*sim.Term]dr{}
	ok := true
	var walk func(t *sim.Term)
	walk = func(t *sim.Term) {
		if r, is := d.classify(t); is {
			out[t] = r
			return
		}
		switch t.Op {
		case sim.OConst, sim.OGlobal:
			return
		case sim.OParam, sim.OSym, sim.OCall:
			ok = false
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out, ok
}

func (d *decPath) evalWith(bind map[*sim.Term]constant.Value, t *sim.Term) (v constant.Value, ok bool) {
	var e *sim.Evaluator
	e = &sim.Evaluator{Leaf: func(x *sim.Term) (constant.Value, bool) {
		if v, ok := bind[x]; ok {
			return v, true
		}
		return d.ts.leaf(e, x)
	}}
	return e.Eval(t)
}

// narrow uses the path facts to bound the magnitude; false: the path is dead.
func (d *decPath) narrow() bool {
	changed := true
	for rounds := 0; changed && rounds < 6; rounds++ {
		changed = false
		for a, want := range d.o.Facts.Atoms {
			roots, ok := d.drRoots(a)
			if !ok || len(roots) != 1 {
				continue
			}
			for x, r := range roots {
				if r.hi >= 0 {
					continue
				}
				lo, up := d.rng(r)
				min, max, ok := d.scan(a, want, x, lo, up)
				if !ok {
					continue
				}
				if min == nil {
					return false
				}
				q := pow10(r.lo)
				l := new(big.Int).Mul(min, q)
				u := new(big.Int).Sub(new(big.Int).Mul(new(big.Int).Add(max, big.NewInt(1)), q), big.NewInt(1))
				if l.Cmp(d.lo) > 0 {
					d.lo, changed = l, true
				}
				if u.Cmp(d.up) < 0 {
					d.up, changed = u, true
				}
				if d.lo.Cmp(d.up) > 0 {
					return false
				}
			}
		}
	}
	return true
}

// scan: the least and the greatest value of x within bounds for which the
// atom has the wanted truth value.
func (d *decPath) scan(a *sim.Term, want bool, x *sim.Term, lo, up *big.Int) (min, max *big.Int, ok bool) {
	// x == c and x < c directly
	if a.Op == sim.OEq || a.Op == sim.OLt {
		l, r := a.Args[0], a.Args[1]
		var c *big.Int
		left := false
		if l == x && r.IsConst() {
			c, left = bigOf(r.Val), true
		} else if r == x && l.IsConst() {
			c = bigOf(l.Val)
		}
		if c != nil {
			one := big.NewInt(1)
			min, max = new(big.Int).Set(lo), new(big.Int).Set(up)
			switch {
			case a.Op == sim.OEq && want:
				if c.Cmp(lo) < 0 || c.Cmp(up) > 0 {
					return nil, nil, true
				}
				return c, c, true
			case a.Op == sim.OEq:
				if c.Cmp(min) == 0 {
					min.Add(min, one)
				}
				if c.Cmp(max) == 0 {
					max.Sub(max, one)
				}
			case left == want: // x < c, or c <= x is false... see below
				// left && want: x < c ; !left && !want: not c < x, x <= c
				lim := new(big.Int).Set(c)
				if left {
					lim.Sub(lim, one)
				}
				if lim.Cmp(max) < 0 {
					max = lim
				}
			default:
				// left && !want: x >= c ; !left && want: x > c
				lim := new(big.Int).Set(c)
				if !left {
					lim.Add(lim, one)
				}
				if lim.Cmp(min) > 0 {
					min = lim
				}
			}
			if min.Cmp(max) > 0 {
				return nil, nil, true
			}
			return min, max, true
		}
	}
	n := new(big.Int).Sub(up, lo)
	if n.Cmp(big.NewInt(20000)) > 0 {
		return nil, nil, false
	}
	for v := new(big.Int).Set(lo); v.Cmp(up) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
		b, ok := d.tryEval(map[*sim.Term]constant.Value{x: konst(v)}, a)
		if !ok {
			return nil, nil, false
		}
		if constant.BoolVal(b) == want {
			if min == nil {
				min = v
			}
			max = v
		}
	}
	return min, max, true
}

func (d *decPath) tryEval(bind map[*sim.Term]constant.Value, t *sim.Term) (v constant.Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(outOfRange); !is {
				panic(e)
			}
			v, ok = nil, false
		}
	}()
	return d.evalWith(bind, t)
}

// digitAt: the byte is the decimal digit of the magnitude at a position.
func (d *decPath) digitAt(e *sim.Term) (pos int, ok bool) {
	roots, ok := d.drRoots(e)
	if !ok || len(roots) != 1 {
		return 0, false
	}
	for x, r := range roots {
		lo, up := d.rng(r)
		n := new(big.Int).Sub(up, lo)
		if n.Cmp(big.NewInt(20000)) > 0 {
			return 0, false
		}
		cand := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true}
		for v := new(big.Int).Set(lo); v.Cmp(up) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
			bind := map[*sim.Term]constant.Value{x: konst(v)}
			feasible := true
			for a, want := range d.o.Facts.Atoms {
				if !a.Contains(x) {
					continue
				}
				ar, ok := d.drRoots(a)
				if !ok || len(ar) != 1 {
					continue
				}
				if _, same := ar[x]; !same {
					continue
				}
				if b, ok := d.tryEval(bind, a); ok && constant.BoolVal(b) != want {
					feasible = false
					break
				}
			}
			if !feasible {
				continue
			}
			c, ok := d.tryEval(bind, e)
			if !ok {
				return 0, false
			}
			got, _ := constant.Int64Val(c)
			for j := range cand {
				dig := new(big.Int).Mod(new(big.Int).Quo(v, pow10(j)), big.NewInt(10)).Int64()
				if got != '0'+dig {
					delete(cand, j)
				}
			}
			if len(cand) == 0 {
				return 0, false
			}
		}
		var js []int
		for j := range cand {
			js = append(js, j)
		}
		sort.Ints(js)
		return r.lo + js[0], true
	}
	return 0, false
}

func appended(ret, space *sim.Term) ([]*sim.Term, bool) {
	if ret == space {
		return nil, true
	}
	if ret.Op == sim.OAppend && ret.Args[0] == space {
		return ret.Args[1:], true
	}
	return nil, false
}

// bytesOf expands the appended pieces to single bytes.
func bytesOf(T *sim.Terms, pieces []*sim.Term) ([]*sim.Term, bool) {
	var out []*sim.Term
	for _, p := range pieces {
		if p.Op == sim.OSpread {
			s, ok := content(p.Args[0]).StringVal()
			if !ok {
				return nil, false
			}
			for i := 0; i < len(s); i++ {
				out = append(out, T.Int(int64(s[i])))
			}
			continue
		}
		out = append(out, p)
	}
	return out, true
}

// checkDecimal decides one writer of integers.  val is the integer written.
func (d *decEnv) check(r *Report, what, at string, outs []*sim.State, space *sim.Term) {
	T := d.m.T
	for _, o := range outs {
		negs := []bool{false}
		if d.signed {
			switch {
			case o.Facts.Less(d.n, T.Int(0)):
				negs = []bool{true}
			case o.Facts.Leq(T.Int(0), d.n):
			default:
				negs = []bool{false, true}
			}
		}
		for _, neg := range negs {
			dp := &decPath{decEnv: d, o: o, neg: neg, lo: big.NewInt(0)}
			dp.up = new(big.Int).Lsh(big.NewInt(1), uint(d.bits))
			dp.up.Sub(dp.up, big.NewInt(1))
			if d.signed {
				dp.up.Rsh(dp.up, 1)
				if neg {
					dp.lo = big.NewInt(1)
					dp.up.Add(dp.up, big.NewInt(1))
				}
			}
			if !dp.narrow() {
				continue
			}
			if ok, why := dp.proved(space); ok {
				r.Ob("decimal", what, true, "", "")
			} else if bad, msg := dp.refuted(space); bad {
				r.Ob("decimal", what, false, at, msg, trace(o)...)
			} else {
				r.Note("%s: a path is not decomposed (%s)", what, why)
			}
		}
	}
}

func (d *decPath) proved(space *sim.Term) (bool, string) {
	if d.o.Panicked {
		return false, "panics"
	}
	pieces, ok := appended(d.o.Ret, space)
	if !ok {
		return false, "the result is not the space with something appended"
	}
	bs, ok := bytesOf(d.m.T, pieces)
	if !ok {
		return false, "unknown pieces are appended"
	}
	if d.neg {
		if len(bs) == 0 || !isInt(bs[0], '-') {
			return false, "no sign"
		}
		bs = bs[1:]
	}
	n := len(bs)
	if n == 0 {
		return false, "no digits"
	}
	for i, b := range bs {
		pos, ok := d.digitAt(b)
		if !ok {
			return false, fmt.Sprintf("byte %d is not a digit of the value", i)
		}
		// a value without higher digits is the same at several positions
		if pos != n-1-i {
			return false, fmt.Sprintf("byte %d is digit %d of the value", i, pos)
		}
	}
	if n > 1 && d.lo.Cmp(pow10(n-1)) < 0 {
		return false, fmt.Sprintf("%d digits are written for values from %v", n, d.lo)
	}
	if d.up.Cmp(pow10(n)) >= 0 {
		return false, fmt.Sprintf("%d digits are written for values up to %v", n, d.up)
	}
	return true, ""
}

// refuted looks for a value that takes this path and for which the appended
// terms denote something else than its decimal representation.
func (d *decPath) refuted(space *sim.Term) (bool, string) {
	for _, w := range d.witnesses() {
		n := new(big.Int).Set(w)
		if d.neg {
			n.Neg(n)
		}
		bind := map[*sim.Term]constant.Value{d.n: konst(n)}
		feasible := true
		oor := ""
		for a, want := range d.o.Facts.Atoms {
			if !a.Contains(d.n) || isTableBound(a) {
				continue
			}
			c, ok, out := d.evalAny(bind, a)
			if out != "" {
				oor = out
				continue
			}
			if !ok || constant.BoolVal(c) != want {
				feasible = false
				break
			}
		}
		if !feasible {
			continue
		}
		if oor != "" {
			return true, fmt.Sprintf("the value %v reads %s", n, oor)
		}
		if d.o.Panicked {
			return true, fmt.Sprintf("panics for the value %v", n)
		}
		pieces, ok := appended(d.o.Ret, space)
		if !ok {
			return false, ""
		}
		bs, ok := bytesOf(d.m.T, pieces)
		if !ok {
			return false, ""
		}
		var sb strings.Builder
		bad := ""
		for _, b := range bs {
			c, ok, oor := d.evalByte(bind, b)
			if oor != "" {
				bad = fmt.Sprintf("the value %v reads %s", n, oor)
				break
			}
			if !ok {
				return false, ""
			}
			sb.WriteByte(byte(c))
		}
		if bad != "" {
			return true, bad
		}
		if sb.String() != n.String() {
			return true, fmt.Sprintf("the value %v is written as %q", n, sb.String())
		}
	}
	return false, ""
}

// isTableBound: the atom only says that an index is within a table.
func isTableBound(a *sim.Term) bool {
	return a.Op == sim.OLt && a.Args[1].Op == sim.OLen
}

func (d *decPath) evalByte(bind map[*sim.Term]constant.Value, t *sim.Term) (c int64, ok bool, oor string) {
	v, ok, oor := d.evalAny(bind, t)
	if !ok {
		return 0, false, oor
	}
	n, ok := constant.Int64Val(v)
	return n & 255, ok, ""
}

func (d *decPath) evalAny(bind map[*sim.Term]constant.Value, t *sim.Term) (v constant.Value, ok bool, oor string) {
	defer func() {
		if e := recover(); e != nil {
			x, is := e.(outOfRange)
			if !is {
				panic(e)
			}
			v, ok, oor = nil, false, x.what
		}
	}()
	v, ok = d.evalWith(bind, t)
	return
}

func (d *decPath) witnesses() []*big.Int {
	var out []*big.Int
	seen := map[string]bool{}
	add := func(b *big.Int) {
		if b.Cmp(d.lo) >= 0 && b.Cmp(d.up) <= 0 && !seen[b.String()] {
			seen[b.String()] = true
			out = append(out, b)
		}
	}
	add(d.lo)
	add(d.up)
	for k := 0; k <= 20; k++ {
		for c := int64(1); c <= 9; c++ {
			x := new(big.Int).Mul(pow10(k), big.NewInt(c))
			for j := int64(-1); j <= 1; j++ {
				add(new(big.Int).Add(x, big.NewInt(j)))
			}
		}
		if k > 0 {
			b, _ := new(big.Int).SetString("12345678901234567890"[:k], 10)
			add(b)
			b, _ = new(big.Int).SetString("90807060504030201009"[:k], 10)
			add(b)
		}
	}
	for k := uint(0); k <= 64; k++ {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		for j := int64(-1); j <= 1; j++ {
			add(new(big.Int).Add(x, big.NewInt(j)))
		}
	}
	return out
}

var intWriters = []struct {
	name   string
	bits   int
	signed bool
}{{"Int8", 8, true}, {"Uint8", 8, false}, {"Int16", 16, true}, {"Uint16", 16, false}, {"Int32", 32, true}, {"Uint32", 32, false}, {"Int64", 64, true}, {"Uint64", 64, false}}

func checkC17(p *sim.Program, r *Report) {
	r.Assumptions = []string{"package-level tables are written by the package initialisers only (checked for stores in the package)"}
	for _, w := range intWriters {
		fn := p.Func(jsonfmt, "Write"+w.name)
		if !r.Need(fn != nil, "jsonfmt.Write"+w.name) {
			continue
		}
		if !r.Need(len(fn.Params) == 2, "parameters of jsonfmt.Write"+w.name) {
			continue
		}
		m := p.NewMachine()
		m.Opaque = onlyPkgs(jsonfmt)
		args := m.Params(fn, "")
		d := &decEnv{p: p, m: m, ts: newTables(p, m), n: args[1], bits: w.bits, signed: w.signed}
		outs := m.Run(m.NewState(), fn, args)
		d.check(r, fn.Name(), where(p, fn), outs, args[0])
		r.Absorb(m)
	}
}
