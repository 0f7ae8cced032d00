package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C16", "Strings and byte slices are escaped so that they decode to what was given: every segment between loop headers writes the next bytes of the input, escaped or copied, exactly once.", checkC16)
}

// escMode says what the writer must produce.
type escMode struct {
	name   string
	quoted bool
	raw    func(b byte) bool
	// decode reads one element of the output and returns the byte it stands
	// for and the number of output bytes used.
	decode func(s string) (b byte, n int, ok bool)
}

func hexByte(s string) (byte, bool) {
	if len(s) != 2 {
		return 0, false
	}
	n, err := strconv.ParseUint(s, 16, 8)
	return byte(n), err == nil
}

func jsonRaw(b byte) bool { return b >= 0x20 && b != '"' && b != '\\' }

func jsonDecode(s string) (byte, int, bool) {
	if s == "" {
		return 0, 0, false
	}
	if s[0] != '\\' {
		return s[0], 1, jsonRaw(s[0])
	}
	if len(s) < 2 {
		return 0, 0, false
	}
	switch s[1] {
	case '"', '\\', '/':
		return s[1], 2, true
	case 'b':
		return '\b', 2, true
	case 'f':
		return '\f', 2, true
	case 'n':
		return '\n', 2, true
	case 'r':
		return '\r', 2, true
	case 't':
		return '\t', 2, true
	case 'u':
		if len(s) < 6 || s[2] != '0' || s[3] != '0' {
			return 0, 0, false
		}
		b, ok := hexByte(s[4:6])
		return b, 6, ok && b < 0x80
	}
	return 0, 0, false
}

var escJSON = &escMode{"json", true, jsonRaw, jsonDecode}

// bytes: what is not printable ASCII becomes the text \xHH in the JSON string.
var escJSONBytes = &escMode{"jsonbytes", true, func(b byte) bool { return jsonRaw(b) && b < 0x80 }, func(s string) (byte, int, bool) {
	if strings.HasPrefix(s, `\\x`) && len(s) >= 5 {
		if b, ok := hexByte(s[3:5]); ok {
			return b, 5, b < 0x20 || b >= 0x7f
		}
	}
	b, n, ok := jsonDecode(s)
	return b, n, ok && b < 0x80
}}

// plain: bytes in a message, not quoted.
var escPlain = &escMode{"plain", false, func(b byte) bool { return b >= 0x20 && b < 0x80 && b != '\\' && b != '|' }, func(s string) (byte, int, bool) {
	if s == "" {
		return 0, 0, false
	}
	if s[0] != '\\' {
		b := s[0]
		return b, 1, b >= 0x20 && b < 0x80 && b != '|'
	}
	if len(s) < 2 {
		return 0, 0, false
	}
	switch s[1] {
	case '"', '\\':
		return s[1], 2, true
	case 'n':
		return '\n', 2, true
	case 'r':
		return '\r', 2, true
	case 't':
		return '\t', 2, true
	case 'x':
		if len(s) >= 4 {
			b, ok := hexByte(s[2:4])
			return b, 4, ok
		}
	}
	return 0, 0, false
}}

// rangeCand: the bytes [a+ac, b+bc) of the input may be copied as they are.
type rangeCand struct {
	a  ssa.Value // nil: 0
	ac int64
	b  *ssa.Phi
	bc int64
}

type safeRange struct{ lo, hi *sim.Term }

type rangeList struct {
	safeRange
	next *rangeList
}

type escRun struct {
	p        *sim.Program
	m        *sim.Machine
	ts       *tables
	mode     *escMode
	str      *sim.Term // the input
	space    *sim.Term
	ranges   map[string][]rangeCand
	arrivals []arrival
	heads    map[*sim.Term]*escHead // space symbol -> header
	iv       *invariants
}

type arrival struct {
	st   *sim.State
	key  string
	e    sim.LoopEvent
	phi  *ssa.Phi
	val  *sim.Term
	ints map[ssa.Value]*sim.Term // values of the integer phis
}

type escHead struct {
	key  string
	phi  *ssa.Phi
	cand []kCand // positions the space may stand for
	pos  map[*sim.Term]map[kCand]*sim.Term
}

type kCand struct {
	v    ssa.Value // nil: constant
	c    int64
	base ssa.Value // slice whose offset is added, nil: 0
}

// slice resolves a term to a range of the input.
func (x *escRun) slice(t *sim.Term) (lo, hi *sim.Term, ok bool) {
	T := x.m.T
	t = content(t)
	if t == x.str {
		return T.Int(0), T.Len(x.str), true
	}
	if t.Op == sim.OSlice {
		l, _, ok := x.slice(t.Args[0])
		if !ok {
			return nil, nil, false
		}
		I := types.Typ[types.Int]
		return T.Bin(token.ADD, l, t.Args[1], I), T.Bin(token.ADD, l, t.Args[2], I), true
	}
	return nil, nil, false
}

// byteAt resolves a term to a position of the input.
func (x *escRun) byteAt(t *sim.Term) (*sim.Term, bool) {
	var base, idx *sim.Term
	switch {
	case t.Op == sim.OLoad && t.Args[0].Op == sim.OIndex:
		base, idx = t.Args[0].Args[0], t.Args[0].Args[1]
	case t.Op == sim.OElem:
		base, idx = t.Args[0], t.Args[1]
	default:
		return nil, false
	}
	if base.Op == sim.OLoad && content(base) != x.str {
		return nil, false
	}
	lo, _, ok := x.slice(base)
	if !ok {
		return nil, false
	}
	return x.m.T.Bin(token.ADD, lo, idx, types.Typ[types.Int]), true
}

func same(st *sim.State, a, b *sim.Term) bool {
	return a == b || st.Facts.Leq(a, b) && st.Facts.Leq(b, a)
}

// eval computes t with the bytes at position pos being v.
func (x *escRun) eval(st *sim.State, t, pos *sim.Term, v byte) (constant.Value, bool) {
	e := &sim.Evaluator{}
	e.Leaf = func(l *sim.Term) (constant.Value, bool) {
		if q, ok := x.byteAt(l); ok {
			if same(st, q, pos) {
				return constant.MakeInt64(int64(v)), true
			}
			return nil, true
		}
		if l.Op == sim.OLoad && l.Args[0].Op == sim.OGlobal {
			if s, ok := x.globalString(l.Args[0].Obj.(*ssa.Global)); ok {
				return constant.MakeString(s), true
			}
		}
		return x.ts.leaf(e, l)
	}
	var res constant.Value
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(outOfRange); !is {
					panic(r)
				}
				ok = false
			}
		}()
		res, ok = e.Eval(t)
	}()
	return res, ok
}

// globalString: a string variable that only its declaration sets.
func (x *escRun) globalString(g *ssa.Global) (string, bool) {
	if x.m.Global != nil {
		if t := x.m.Global(g); t != nil {
			return t.StringVal()
		}
	}
	return "", false
}

// values of the byte at pos that the path condition allows.
func (x *escRun) values(st *sim.State, pos *sim.Term) []byte {
	var atoms []*sim.Term
	for a := range st.Facts.Atoms {
		if a.Any(func(t *sim.Term) bool {
			q, ok := x.byteAt(t)
			return ok && same(st, q, pos)
		}) {
			atoms = append(atoms, a)
		}
	}
	var out []byte
	for v := 0; v < 256; v++ {
		ok := true
		for _, a := range atoms {
			c, known := x.eval(st, a, pos, byte(v))
			if known && c.Kind() == constant.Bool && constant.BoolVal(c) != st.Facts.Atoms[a] {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, byte(v))
		}
	}
	return out
}

// safe: the bytes [lo,hi) may be copied unchanged.
func (x *escRun) safe(st *sim.State, lo, hi *sim.Term) (bool, string) {
	T := x.m.T
	cur := lo
	for n := 0; n < 6; n++ {
		if st.Facts.Leq(hi, cur) {
			return true, ""
		}
		moved := false
		for l, _ := st.Data.(*rangeList); l != nil; l = l.next {
			if st.Facts.Leq(l.lo, cur) && st.Facts.Leq(cur, l.hi) && !st.Facts.Leq(l.hi, cur) {
				cur, moved = l.hi, true
				break
			}
		}
		if moved {
			continue
		}
		// a range whose end is not known to be after cur
		for l, _ := st.Data.(*rangeList); l != nil; l = l.next {
			if st.Facts.Leq(l.lo, cur) && st.Facts.Leq(hi, T.Bin(token.ADD, l.hi, T.Int(1), hi.Typ)) && !same(st, l.hi, cur) {
				cur, moved = l.hi, true
				break
			}
		}
		if moved {
			continue
		}
		vs := x.values(st, cur)
		for _, v := range vs {
			if !x.mode.raw(v) {
				return false, fmt.Sprintf("byte %#02x is copied unescaped", v)
			}
		}
		cur = T.Bin(token.ADD, cur, T.Int(1), types.Typ[types.Int])
	}
	return false, "bytes are copied that were not looked at"
}

func addRange(st *sim.State, lo, hi *sim.Term) {
	l, _ := st.Data.(*rangeList)
	st.Data = &rangeList{safeRange{lo, hi}, l}
}

func (x *escRun) rangeCands(e *sim.LoopEvent) []rangeCand {
	if l, ok := x.ranges[e.Key]; ok {
		return l
	}
	var out []rangeCand
	as := []ssa.Value{nil}
	for _, p := range e.Phis {
		if isIntType(p.Type()) {
			as = append(as, p)
		}
	}
	for _, v := range outsideValues(e.Header) {
		if isIntType(v.Type()) {
			as = append(as, v)
		}
	}
	for _, b := range e.Phis {
		if !isIntType(b.Type()) {
			continue
		}
		for bc := int64(0); bc <= 1; bc++ {
			for _, a := range as {
				if a == b {
					continue
				}
				out = append(out, rangeCand{a, 0, b, bc})
			}
		}
	}
	x.ranges[e.Key] = out
	return out
}

// offsets of the slices of the input that the function of the loop has.
func (x *escRun) bases(e *sim.LoopEvent) map[*sim.Term]ssa.Value {
	out := map[*sim.Term]ssa.Value{x.m.T.Int(0): nil}
	for _, v := range outsideValues(e.Header) {
		if isByteSeq(v.Type()) {
			if t := e.Env(v); t != nil {
				if lo, _, ok := x.slice(t); ok {
					if _, dup := out[lo]; !dup {
						out[lo] = v
					}
				}
			}
		}
	}
	return out
}

func (x *escRun) rangeOf(e *sim.LoopEvent, c rangeCand, off *sim.Term) (lo, hi *sim.Term) {
	T := x.m.T
	I := types.Typ[types.Int]
	at := func(v ssa.Value, k int64) *sim.Term {
		if v == nil {
			return T.Bin(token.ADD, off, T.Int(k), I)
		}
		var t *sim.Term
		for i, p := range e.Phis {
			if p == v {
				t = e.Vals[i]
			}
		}
		if t == nil {
			t = e.Env(v)
		}
		if t == nil {
			return nil
		}
		return T.Bin(token.ADD, T.Bin(token.ADD, off, t, I), T.Int(k), I)
	}
	return at(c.a, c.ac), at(c.b, c.bc)
}

// offset: loops index one slice of the input; positions are relative to it.
func (x *escRun) offset(e *sim.LoopEvent) *sim.Term {
	b := x.bases(e)
	var offs []*sim.Term
	for t, v := range b {
		if v != nil {
			offs = append(offs, t)
		}
	}
	if len(offs) == 0 {
		return x.m.T.Int(0)
	}
	sort.Slice(offs, func(i, j int) bool { return offs[i].ID < offs[j].ID })
	// prefer the slice indexed in the loop
	for blk := range loopBlocks(e.Header) {
		for _, in := range blk.Instrs {
			var s ssa.Value
			switch in := in.(type) {
			case *ssa.IndexAddr:
				s = in.X
			case *ssa.Index:
				s = in.X
			case *ssa.Lookup:
				s = in.X
			}
			if s != nil {
				if t := e.Env(s); t != nil {
					if lo, _, ok := x.slice(t); ok {
						return lo
					}
				}
			}
		}
	}
	return offs[0]
}

func (x *escRun) hook(e *sim.LoopEvent, arrive bool) {
	off := x.offset(e)
	cs := x.rangeCands(e)
	if !arrive {
		for _, c := range cs {
			if lo, hi := x.rangeOf(e, c, off); lo != nil && hi != nil {
				addRange(e.St, lo, hi)
			}
		}
		for i, p := range e.Phis {
			if !isBytes(p.Type()) {
				continue
			}
			h := x.headOf(e, p)
			pos := map[kCand]*sim.Term{}
			for _, c := range h.cand {
				if t := x.kTerm(e, c); t != nil {
					pos[c] = t
				}
			}
			h.pos[e.Vals[i]] = pos
			x.heads[e.Vals[i]] = h
		}
		return
	}
	var keep []rangeCand
	for _, c := range cs {
		lo, hi := x.rangeOf(e, c, off)
		ok := lo != nil && hi != nil
		if ok {
			ok, _ = x.safe(e.St, lo, hi)
		}
		if ok {
			keep = append(keep, c)
		} else {
			x.iv.drop = true
		}
	}
	x.ranges[e.Key] = keep
	for i, p := range e.Phis {
		if isBytes(p.Type()) {
			x.arrivals = append(x.arrivals, arrival{st: e.St.Clone(), key: e.Key, e: *e, phi: p, val: e.Vals[i]})
		}
	}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *escRun) headOf(e *sim.LoopEvent, p *ssa.Phi) *escHead {
	for _, h := range x.heads {
		if h.key == e.Key && h.phi == p {
			return h
		}
	}
	h := &escHead{key: e.Key, phi: p, pos: map[*sim.Term]map[kCand]*sim.Term{}}
	vs := []ssa.Value{nil}
	for _, q := range e.Phis {
		if isIntType(q.Type()) {
			vs = append(vs, q)
		}
	}
	for _, v := range outsideValues(e.Header) {
		if isIntType(v.Type()) {
			vs = append(vs, v)
		}
	}
	for _, b := range x.bases(e) {
		for _, v := range vs {
			for c := int64(-1); c <= 2; c++ {
				h.cand = append(h.cand, kCand{v, c, b})
			}
		}
	}
	return h
}

func (x *escRun) kTerm(e *sim.LoopEvent, c kCand) *sim.Term {
	T := x.m.T
	I := types.Typ[types.Int]
	t := T.Int(c.c)
	if c.v != nil {
		var v *sim.Term
		for i, p := range e.Phis {
			if p == c.v {
				v = e.Vals[i]
			}
		}
		if v == nil {
			v = e.Env(c.v)
		}
		if v == nil {
			return nil
		}
		t = T.Bin(token.ADD, v, t, I)
	}
	if c.base != nil {
		b := e.Env(c.base)
		if b == nil {
			return nil
		}
		lo, _, ok := x.slice(b)
		if !ok {
			return nil
		}
		t = T.Bin(token.ADD, lo, t, I)
	}
	return t
}

type segResult int

const (
	segOK segResult = iota
	segBad
	segUnknown
)

// rootOf splits a byte slice into the symbol it extends and the pieces.
func rootOf(t *sim.Term) (*sim.Term, []*sim.Term) {
	if t.Op == sim.OAppend {
		return t.Args[0], t.Args[1:]
	}
	return t, nil
}

// follow consumes pieces from position cur of the input.
func (x *escRun) follow(st *sim.State, pieces []*sim.Term, cur *sim.Term) (end *sim.Term, res segResult, msg string) {
	T := x.m.T
	I := types.Typ[types.Int]
	wrong := ""
	for len(pieces) > 0 {
		p := pieces[0]
		if p.Op == sim.OSpread {
			if s, ok := content(p.Args[0]).StringVal(); ok {
				var bs []*sim.Term
				for i := 0; i < len(s); i++ {
					bs = append(bs, T.Int(int64(s[i])))
				}
				pieces = append(bs, pieces[1:]...)
				continue
			}
			lo, hi, ok := x.slice(p.Args[0])
			if !ok {
				return nil, segUnknown, "unknown text is appended"
			}
			if !same(st, lo, cur) {
				return nil, segBad, fmt.Sprintf("copies the input from %s, but it was written up to %s", short(lo.String()), short(cur.String()))
			}
			if ok, why := x.safe(st, lo, hi); !ok {
				return nil, segBad, why
			}
			cur = hi
			pieces = pieces[1:]
			continue
		}
		// single bytes: one element of the output
		n := 0
		for n < len(pieces) && n < 8 && pieces[n].Op != sim.OSpread {
			n++
		}
		for n < len(pieces) && n < 8 && pieces[n].Op == sim.OSpread {
			if s, ok := content(pieces[n].Args[0]).StringVal(); ok && len(s) > 0 {
				var bs []*sim.Term
				for i := 0; i < len(s); i++ {
					bs = append(bs, T.Int(int64(s[i])))
				}
				pieces = append(append(append([]*sim.Term(nil), pieces[:n]...), bs...), pieces[n+1:]...)
				for n < len(pieces) && n < 8 && pieces[n].Op != sim.OSpread {
					n++
				}
				continue
			}
			break
		}
		vs := x.values(st, cur)
		used := 0
		for _, v := range vs {
			var sb strings.Builder
			known := true
			for _, b := range pieces[:n] {
				c, ok := x.eval(st, b, cur, v)
				if !ok || c.Kind() != constant.Int {
					known = false
					break
				}
				k, _ := constant.Int64Val(c)
				sb.WriteByte(byte(k))
			}
			if !known && sb.Len() == 0 {
				return nil, segUnknown, "an appended byte is not a function of the next byte of the input"
			}
			b, k, ok := x.mode.decode(sb.String())
			if !ok && !known {
				return nil, segUnknown, "an appended byte is not a function of the next byte of the input"
			}
			if !ok || b != v {
				if wrong == "" {
					wrong = fmt.Sprintf("byte %#02x is written as %q", v, sb.String())
				}
				continue
			}
			if used != 0 && used != k {
				return nil, segUnknown, "the number of bytes written varies"
			}
			used = k
		}
		if used == 0 {
			if wrong != "" {
				return nil, segBad, wrong
			}
			return cur, segOK, "infeasible"
		}
		pieces = pieces[used:]
		cur = T.Bin(token.ADD, cur, T.Int(1), I)
	}
	if wrong != "" {
		return cur, segBad, wrong // the position is right, the text is not
	}
	return cur, segOK, ""
}

// open strips the opening quote.
func (x *escRun) open(pieces []*sim.Term) ([]*sim.Term, bool) {
	if !x.mode.quoted {
		return pieces, true
	}
	if len(pieces) == 0 {
		return nil, false
	}
	if pieces[0].Op == sim.OSpread {
		s, ok := content(pieces[0].Args[0]).StringVal()
		if !ok || !strings.HasPrefix(s, `"`) {
			return nil, false
		}
		var bs []*sim.Term
		for i := 1; i < len(s); i++ {
			bs = append(bs, x.m.T.Int(int64(s[i])))
		}
		return append(bs, pieces[1:]...), true
	}
	if !isInt(pieces[0], '"') {
		return nil, false
	}
	return pieces[1:], true
}

func (x *escRun) close(pieces []*sim.Term) ([]*sim.Term, bool) {
	if !x.mode.quoted {
		return pieces, true
	}
	if len(pieces) == 0 {
		return nil, false
	}
	l := pieces[len(pieces)-1]
	if l.Op == sim.OSpread {
		s, ok := content(l.Args[0]).StringVal()
		if !ok || !strings.HasSuffix(s, `"`) {
			return nil, false
		}
		return append(append([]*sim.Term(nil), pieces[:len(pieces)-1]...), x.m.T.Spread(x.m.T.Str(s[:len(s)-1]))), true
	}
	if !isInt(l, '"') {
		return nil, false
	}
	return pieces[:len(pieces)-1], true
}

// from gives where a segment starts, for the chosen positions.
func (x *escRun) from(root *sim.Term, pieces []*sim.Term, chosen map[*escHead]kCand) (cur *sim.Term, rest []*sim.Term, res segResult, msg string) {
	if root == x.space {
		rest, ok := x.open(pieces)
		if !ok {
			if len(pieces) > 0 && (pieces[0].Op != sim.OSpread && !pieces[0].IsConst() || pieces[0].Op == sim.OSpread) {
				return nil, nil, segUnknown, "the output does not start with a quote"
			}
			return nil, nil, segBad, "the output does not start with a quote"
		}
		return x.m.T.Int(0), rest, segOK, ""
	}
	h := x.heads[root]
	if h == nil {
		return nil, nil, segUnknown, "the result does not extend the given space"
	}
	c, ok := chosen[h]
	if !ok {
		return nil, nil, segUnknown, "the progress of a loop is not understood"
	}
	return h.pos[root][c], pieces, segOK, ""
}

func (x *escRun) check(r *Report, what, at string, fn *ssa.Function, start *sim.State, args []*sim.Term) {
	x.ranges = map[string][]rangeCand{}
	x.iv = &invariants{m: x.m, extra: x.hook}
	var outs []*sim.State
	x.iv.solve(func() {
		x.arrivals, x.heads = nil, map[*sim.Term]*escHead{}
		outs = x.m.Run(start, fn, args)
	})
	if x.m.Overflow {
		r.Note("%s: too many paths", what)
		return
	}
	// choose what each loop header stands for, in order of discovery
	chosen := map[*escHead]kCand{}
	done := map[*escHead]bool{}
	bad := map[string]bool{}
	for progress := true; progress; {
		progress = false
		heads := map[*escHead]bool{}
		for _, h := range x.heads {
			heads[h] = true
		}
		for h := range heads {
			if done[h] {
				continue
			}
			type verdict struct {
				ok, moved, bad int
				msgs           []string
				where          []*sim.State
			}
			var best *verdict
			var bestC kCand
			ready := true
			for _, c := range h.cand {
				v := &verdict{}
				chosen[h] = c
				entry := true
				for _, a := range x.arrivals {
					if a.key != h.key || a.phi != h.phi {
						continue
					}
					root, pieces := rootOf(a.val)
					if hr := x.heads[root]; hr != nil && hr != h && !done[hr] {
						ready = false
					}
					own := x.heads[root] == h
					cur, rest, res, msg := x.from(root, pieces, chosen)
					if res == segOK {
						cur, res, msg = x.follow(a.st, rest, cur)
					}
					if res == segUnknown {
						entry = false
						break
					}
					want := x.kTerm(&a.e, c)
					if want == nil {
						entry = false
						break
					}
					inPlace := cur != nil && msg != "infeasible" && same(a.st, cur, want)
					if res == segOK && msg == "" && !inPlace {
						res, msg = segBad, fmt.Sprintf("the input was written up to %s, but the next iteration goes on at %s", short(cur.String()), short(want.String()))
					}
					if res == segBad {
						v.bad++
						if own && inPlace && len(pieces) > 0 {
							v.moved++
						}
						v.msgs = append(v.msgs, msg)
						v.where = append(v.where, a.st)
						continue
					}
					v.ok++
					if own && len(pieces) > 0 {
						v.moved++
					}
				}
				if !entry || v.moved == 0 {
					continue
				}
				if best == nil || v.bad < best.bad || v.bad == best.bad && v.moved > best.moved {
					best, bestC = v, c
				}
			}
			delete(chosen, h)
			if !ready {
				continue
			}
			done[h] = true
			progress = true
			if best == nil {
				r.Note("%s: the progress of a loop is not understood (%s)", what, short(h.key))
				continue
			}
			chosen[h] = bestC
			for i := 0; i < best.ok; i++ {
				r.Ob("transducer", what, true, "", "")
			}
			for i, msg := range best.msgs {
				if !bad[msg] {
					bad[msg] = true
					r.Ob("transducer", what, false, at, msg, trace(best.where[i])...)
				}
			}
		}
	}
	for _, o := range outs {
		if o.Panicked {
			continue
		}
		root, pieces := rootOf(o.Ret)
		rest, ok := x.close(pieces)
		if !ok {
			if x.heads[root] == nil && root != x.space || len(pieces) > 0 && pieces[len(pieces)-1].Op == sim.OSpread && pieces[len(pieces)-1].Args[0].Op == sim.OCall {
				r.Note("%s: a result is not decomposed", what)
				continue
			}
			r.Ob("transducer", what, false, at, "the output does not end with a quote", trace(o)...)
			continue
		}
		cur, rest, res, msg := x.from(root, rest, chosen)
		if res == segOK {
			cur, res, msg = x.follow(o, rest, cur)
		}
		if res == segOK && msg == "" && !same(o, cur, x.m.T.Len(x.str)) {
			res, msg = segBad, fmt.Sprintf("returns when the input was written up to %s only", short(cur.String()))
		}
		switch res {
		case segUnknown:
			r.Note("%s: %s", what, msg)
		case segBad:
			r.Ob("transducer", what, false, at, msg, trace(o)...)
		default:
			r.Ob("transducer", what, true, "", "")
		}
	}
	r.Absorb(x.m)
}

func escMachine(p *sim.Program, pkg string) *sim.Machine {
	m := p.NewMachine()
	m.Opaque = onlyPkgs(pkg)
	m.AbstractFirst, m.MaxIter = true, 1
	return m
}

func checkC16(p *sim.Program, r *Report) {
	r.Assumptions = []string{"package-level tables are written by the package initialisers only (checked for stores in the package)"}
	for _, w := range []struct {
		name string
		mode *escMode
	}{{"WriteString", escJSON}, {"WriteBytes", escJSONBytes}} {
		fn := p.Func(jsonfmt, w.name)
		if !r.Need(fn != nil && len(fn.Params) == 2, "jsonfmt."+w.name) {
			continue
		}
		m := escMachine(p, jsonfmt)
		args := m.Params(fn, "")
		x := &escRun{p: p, m: m, ts: newTables(p, m), mode: w.mode, str: args[1], space: args[0]}
		x.check(r, fn.Name(), where(p, fn), fn, m.NewState(), args)
	}
	c16Message(p, r)
}

// c16Message: the formatter of byte slices in messages.
func c16Message(p *sim.Program, r *Report) {
	sp := p.ByPath[p.Path("msgfmt")]
	if !r.Need(sp != nil, "package msgfmt") {
		return
	}
	ft, _ := sp.Pkg.Scope().Lookup("Formatter").(*types.TypeName)
	if !r.Need(ft != nil && types.IsInterface(ft.Type()), "msgfmt.Formatter") {
		return
	}
	for _, t := range implementers(p, ft.Type().Underlying().(*types.Interface), "msgfmt") {
		fn := p.SSA.LookupMethod(t, sp.Pkg, "Format")
		if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 3 || fn.Synthetic != "" && fn.Pkg == nil {
			continue
		}
		m := escMachine(p, "msgfmt")
		var str *sim.Term
		var bt types.Type
		args := m.Params(fn, "")
		// the value formatted is the only byte slice asserted
		probe := escMachine(p, "msgfmt")
		probe.T = m.T
		for _, o := range probe.Run(probe.NewState(), fn, args) {
			for a, v := range o.Facts.Atoms {
				if ty, ok := a.Obj.(types.Type); ok && v && a.Op == sim.OIsType && isBytes(ty) {
					str, bt = a.Args[0], ty
				}
			}
		}
		if str == nil {
			continue
		}
		x := &escRun{p: p, m: m, ts: newTables(p, m), mode: escPlain, str: m.AssertedValue(str, bt), space: args[1]}
		start := m.NewState()
		start.Facts.Assert(m.IsType(str, x.str.Typ), true)
		x.check(r, "msgfmt bytes formatter", where(p, fn), fn, start, args)
	}
}
