package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

const mod = "github.com/v2pro/plz"

func short(s string) string { return strings.ReplaceAll(s, mod+"/", "") }

func pkgOf(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), mod), "/")
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.TrimPrefix(strings.TrimPrefix(f.Object().Pkg().Path(), mod), "/")
	}
	return ""
}

// onlyPkgs returns an Opaque predicate that inlines only the given packages
// (relative to the module) and treats the others as opaque.
func onlyPkgs(pkgs ...string) func(fn *ssa.Function) bool {
	set := map[string]bool{}
	for _, p := range pkgs {
		set[p] = true
	}
	return func(fn *ssa.Function) bool {
		if fn.Pkg == nil && fn.Parent() == nil {
			return false // synthetic wrappers
		}
		return !set[pkgOf(fn)]
	}
}

func evLine(e *sim.Event) string {
	var as []string
	for _, a := range e.Args {
		as = append(as, short(a.String()))
	}
	s := e.Kind + " " + short(e.Callee) + "(" + strings.Join(as, ", ") + ")"
	if e.Recv != nil && e.Callee == "" {
		s += " on " + short(e.Recv.String())
	}
	if e.Val != nil {
		s += " val=" + short(e.Val.String())
	}
	if e.Addr != nil {
		s += " addr=" + short(e.Addr.String())
	}
	if e.Res != nil {
		s += " => " + short(e.Res.String())
	}
	if e.Instr != nil {
		s += "   [" + short(sim.PosOf(e.Instr)) + "]"
	}
	return s
}

func trace(st *sim.State) []string {
	evs := st.Trace
	var out []string
	for i, e := range evs {
		if len(evs) > 40 && i == 20 {
			out = append(out, "...")
		}
		if len(evs) > 40 && i >= 20 && i < len(evs)-20 {
			continue
		}
		s := evLine(e)
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		out = append(out, s)
	}
	return out
}

func where(p *sim.Program, fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	pos := p.SSA.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d (%s)", strings.TrimPrefix(pos.Filename, p.Dir+"/"), pos.Line, short(fn.String()))
}

func fname(fn *ssa.Function) string { return short(fn.String()) }

func dumpFunc(p *sim.Program, spec string) {
	parts := strings.Split(spec, ":")
	var fn *ssa.Function
	if len(parts) == 3 {
		fn = p.Method(parts[0], parts[1], parts[2])
	} else {
		fn = p.Func(parts[0], parts[1])
	}
	if fn == nil {
		fmt.Println("not found")
		return
	}
	m := p.NewMachine()
	m.Opaque = onlyPkgs(parts[0])
	if os.Getenv("PLZSA_ABSTRACT") != "" {
		m.AbstractFirst, m.MaxIter = true, 1
		m.Records["append"] = true
		m.NoHavoc = func(ev *sim.Event) bool { return true }
		op := m.Opaque
		m.Opaque = func(fn *ssa.Function) bool {
			return op(fn) || strings.Contains(os.Getenv("PLZSA_OPAQUE"), fn.Name())
		}
	}
	outs := m.Run(m.NewState(), fn, m.Params(fn, ""))
	fmt.Println("paths", len(outs), "steps", m.Steps, "pruned", m.Pruned)
	for i, o := range outs {
		fmt.Printf("--- path %d panicked=%v ret=%v\n", i, o.Panicked, o.Ret)
		for _, l := range trace(o) {
			fmt.Println("   ", l)
		}
		for a, v := range o.Facts.Atoms {
			fmt.Println("      fact", v, short(a.String()))
		}
	}
}

// implementers returns the concrete named types (or pointers to them) of the
// repository that implement iface.
func implementers(p *sim.Program, iface *types.Interface, rels ...string) []types.Type {
	var out []types.Type
	for _, rel := range rels {
		sp := p.ByPath[p.Path(rel)]
		if sp == nil {
			continue
		}
		scope := sp.Pkg.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), iface) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), iface) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	return out
}
