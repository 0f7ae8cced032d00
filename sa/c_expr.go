package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

func init() {
	register("C28", "parse.Parse is interpreted with an unknown lexer, source and precedence: on every path the calls to the lexer and its tokens must be those of a precedence climbing parser, and the result the last operand built. parse.String is interpreted with an unknown outcome of Parse.", checkC28)
}

func checkC28(p *sim.Program, r *Report) {
	parse, str := p.Func("parse", "Parse"), p.Func("parse", "String")
	if !r.Need(parse != nil && str != nil && len(parse.Params) == 3 && len(str.Params) == 2, "parse.Parse, parse.String") {
		return
	}
	srcT := parse.Params[0].Type()
	isSrc := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), srcT) && f.Object() != nil && f.Object().Exported()
	}
	m := p.NewMachine()
	T := m.T
	m.Unroll = 20
	m.Depth = 5
	in := onlyPkgs("parse")
	m.Opaque = func(f *ssa.Function) bool { return in(f) || isSrc(f) }
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if name, _, _ := method(ev); name == "InfixToken" {
			if tup, ok := evResult(ev).(*types.Tuple); ok && tup.Len() == 2 {
				n := T.Int(int64(len(st.Trace)))
				return T.Tuple(T.Pure("infixToken", tup.At(0).Type(), n), T.Pure("infixPrecedence", tup.At(1).Type(), n)), true
			}
		}
		if name, recv, _ := method(ev); name == "Error" && recv != nil && types.Identical(recv.Typ, srcT) {
			n := 0
			for _, e := range st.Trace {
				if nm, _, _ := method(e); e.Kind == "call" && (nm != "Error" || strings.Contains(e.Callee, "loglog")) && !strings.Contains(e.Callee, "TypeOf") {
					n++
				}
			}
			return T.Pure("errorOf", evResult(ev), recv, T.Int(int64(n))), true
		}
		return nil, false
	}
	src, lexer, prec := T.Param("src", srcT), T.Param("lexer", parse.Params[1].Type()), T.Param("precedence", parse.Params[2].Type())
	st := m.NewState()
	st.Facts.Assert(T.Eq(src, T.Nil()), false)
	st.Facts.Assert(T.Eq(lexer, T.Nil()), false)
	at := where(p, parse)
	turns := 0
	for _, o := range m.Run(st, parse, []*sim.Term{src, lexer, prec}) {
		if o.Panicked {
			r.Ob("no-panic", "Parse", false, at, fmt.Sprintf("panics: %v", o.PanicVal), trace(o)...)
			continue
		}
		msg, n := climb(o, T, src, lexer, prec, isSrc)
		if n > turns {
			turns = n
		}
		if msg != "" && cutShort(o, parse.Pkg, isSrc) {
			msg = "?ends in a call that was not followed"
		}
		if strings.HasPrefix(msg, "?") {
			r.Note("Parse: %s", msg[1:])
			r.Ob("lost", "Parse", true, at, "")
			continue
		}
		r.Ob("climb", "Parse", msg == "", at, msg, traceIf(msg != "", o)...)
	}
	r.Ob("turns", "Parse", turns > 1, at, fmt.Sprintf("takes %d infix tokens at most", turns))
	r.Absorb(m)

	// String
	m = p.NewMachine()
	T = m.T
	isNew := p.Func("parse", "NewSourceString")
	m.Opaque = func(f *ssa.Function) bool { return in(f) || isSrc(f) || f == parse || f == isNew }
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.Model = func(m *sim.Machine, st *sim.State, ev *sim.Event) (*sim.Term, bool) {
		if name, recv, _ := method(ev); name == "Error" && recv != nil && types.Identical(recv.Typ, srcT) {
			done := 0
			for _, e := range st.Trace {
				if e.Kind == "call" && strings.HasSuffix(e.Callee, "parse.Parse") {
					done = 1
				}
			}
			return T.Pure("errorOf", evResult(ev), recv, T.Int(int64(done))), true
		}
		return nil, false
	}
	input, lx := T.Param("input", str.Params[0].Type()), T.Param("lexer", str.Params[1].Type())
	at = where(p, str)
	for _, o := range m.Run(m.NewState(), str, []*sim.Term{input, lx}) {
		if o.Panicked {
			r.Ob("no-panic", "String", false, at, fmt.Sprintf("panics: %v", o.PanicVal), trace(o)...)
			continue
		}
		msg := whole(o, T, input, lx)
		if strings.HasPrefix(msg, "?") {
			r.Note("String: %s", msg[1:])
			continue
		}
		r.Ob("whole", "String", msg == "", at, msg, traceIf(msg != "", o)...)
	}
	r.Absorb(m)
}

// cutShort: did the path come to a function of the package that was not followed?
func cutShort(o *sim.State, pkg *ssa.Package, isSrc func(f *ssa.Function) bool) bool {
	for _, ev := range o.Trace {
		if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ev.Kind == "call" {
			if f := ci.Common().StaticCallee(); f != nil && f.Pkg == pkg && !isSrc(f) {
				return true
			}
		}
	}
	return false
}

// climb follows what Parse did.
func climb(o *sim.State, T *sim.Terms, src, lexer, prec *sim.Term, isSrc func(f *ssa.Function) bool) (string, int) {
	var left, token, inf *sim.Term
	phase, turns := "start", 0
	checked := false
	reported := false
	why := ""
	for _, ev := range o.Trace {
		if ev.Kind != "call" {
			continue
		}
		name, recv, args := method(ev)
		invoke := false
		if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
			invoke = ci.Common().IsInvoke()
		}
		if !invoke {
			if recv != src {
				continue
			}
			switch name {
			case "Error":
				if phase != "infix?" {
					continue
				}
				switch v := o.Facts.Eval(T.Eq(ev.Res, T.Nil())); v {
				case sim.True:
					checked = true
				case sim.False:
					why = "error"
				}
			case "ReportError":
				if phase != "none" {
					return "reports an error although there is a prefix token", turns
				}
				if o.Facts.IsNil(args[0]) {
					return "reports no error", turns
				}
				reported = true
			case "Consume", "Consume1", "ConsumeN":
				return "consumes input itself", turns
			}
			continue
		}
		switch name {
		case "PrefixToken":
			if phase != "start" || recv != lexer || args[0] != src {
				return "asks for a prefix token at another place", turns
			}
			token = ev.Res
			switch o.Facts.Eval(T.Eq(token, T.Nil())) {
			case sim.True:
				phase = "none"
			case sim.False:
				phase = "prefix"
			default:
				phase = "prefix" // used without knowing
			}
		case "PrefixParse":
			if phase != "prefix" || recv != token || args[0] != src {
				return "parses something else than the prefix token", turns
			}
			if !o.Facts.NonNil(token) {
				return "parses a prefix token that may be nil", turns
			}
			left, phase, checked = ev.Res, "infix?", false
		case "InfixToken":
			if phase != "infix?" || why != "" {
				return "asks for an infix token when it should not", turns
			}
			if recv != lexer || args[0] != src {
				return "asks something else for an infix token", turns
			}
			if !checked {
				return "asks for an infix token without looking if there is an error", turns
			}
			token, inf = tupleParts(T, ev)
			if token == nil {
				return fmt.Sprintf("?the infix token is %v", ev.Res), turns
			}
			if o.Facts.IsNil(token) {
				why = "no token"
			}
			if o.Facts.Leq(inf, prec) {
				if why == "" {
					why = "precedence"
				}
			}
			phase = "infix"
		case "InfixParse":
			if phase != "infix" || recv != token {
				return "parses something else than the infix token", turns
			}
			if why != "" {
				return fmt.Sprintf("goes on although it should end (%s)", why), turns
			}
			if args[0] != src || args[1] != left {
				return fmt.Sprintf("gives the infix token %v, not the operand %v", args, left), turns
			}
			if !o.Facts.NonNil(token) {
				return "parses an infix token that may be nil", turns
			}
			if !o.Facts.Less(prec, inf) {
				return "parses an infix token whose precedence may not be higher", turns
			}
			turns++
			left, phase, checked = ev.Res, "infix?", false
		}
	}
	if phase == "none" {
		if !reported {
			return "no error is reported although there is no prefix token", turns
		}
		if o.Ret.Op != sim.ONil {
			return fmt.Sprintf("gives %v without a prefix token", o.Ret), turns
		}
		return "", turns
	}
	if left == nil {
		return "nothing is parsed", turns
	}
	if why == "" {
		return "ends before there is an error, no token or one of lower precedence", turns
	}
	if o.Ret != left {
		return fmt.Sprintf("gives %v, not the last operand %v", o.Ret, left), turns
	}
	return "", turns
}

func tupleParts(T *sim.Terms, ev *sim.Event) (*sim.Term, *sim.Term) {
	if ev.Res != nil && ev.Res.Op == sim.OTuple && len(ev.Res.Args) == 2 {
		return ev.Res.Args[0], ev.Res.Args[1]
	}
	return nil, nil
}

// whole checks what String did.
func whole(o *sim.State, T *sim.Terms, input, lexer *sim.Term) string {
	var parsed, source *sim.Term
	for _, ev := range o.Trace {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Callee, "parse.NewSourceString"):
			if ev.Args[0] != input {
				return fmt.Sprintf("parses %v", ev.Args[0])
			}
			source = ev.Res
		case strings.HasSuffix(ev.Callee, "parse.Parse"):
			if parsed != nil {
				return "parses twice"
			}
			if source == nil || ev.Args[0] != source {
				return "?the source"
			}
			if ev.Args[1] != lexer {
				return "parses with another lexer"
			}
			if n, ok := ev.Args[2].Int64(); !ok || n != 0 {
				return fmt.Sprintf("starts with precedence %v", ev.Args[2])
			}
			parsed = ev.Res
		}
	}
	if parsed == nil {
		return "?how it parses"
	}
	if o.Ret.Op != sim.OTuple || len(o.Ret.Args) != 2 {
		return fmt.Sprintf("?gives %v", o.Ret)
	}
	err := T.Pure("errorOf", types.Universe.Lookup("error").Type(), source, T.Int(1))
	good := o.Facts.Eval(T.Eq(err, T.Nil()))
	eof := sim.Unknown
	for a, v := range o.Facts.Atoms {
		if a.Op == sim.OEq && (a.Args[0] == err || a.Args[1] == err) && strings.Contains(a.String(), "io.EOF") {
			eof = sim.False
			if v {
				eof = sim.True
			}
		}
	}
	val, e := o.Ret.Args[0], o.Ret.Args[1]
	isErr := e == err
	isNil := o.Facts.IsNil(e)
	if !isErr && !isNil {
		return fmt.Sprintf("?gives the error %v", e)
	}
	switch {
	case good == sim.True || eof == sim.True:
		if !isNil {
			return "gives an error although the input was parsed"
		}
		if val != parsed {
			return fmt.Sprintf("gives %v, not what was parsed", val)
		}
	case good == sim.False && eof == sim.False:
		if isNil {
			return "hides the error"
		}
		if val.Op != sim.ONil {
			return fmt.Sprintf("gives %v although there is an error", val)
		}
	case isNil:
		return "gives no error without knowing that there was none"
	default:
		return "gives an error that may be the end of the input"
	}
	return ""
}
