package sim

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository.
type Program struct {
	Dir    string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	Skip   []string
	Mod    string
	inits  map[*ssa.Global]*initInfo

	standIns map[string]*ssa.Function
}

type initInfo struct {
	stores []*ssa.Store
	escape bool
}

// Load type-checks every package of the repository that compiles, from source.
func Load(dir string, tags string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
	out, err := func() ([]byte, error) {
		c := exec.Command("go", "list", "-e", "-f", "{{.ImportPath}}", "./...")
		c.Dir = dir
		c.Env = env
		return c.Output()
	}()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	var pats []string
	p := &Program{Dir: dir, ByPath: map[string]*ssa.Package{}, Mod: "github.com/v2pro/plz", inits: map[*ssa.Global]*initInfo{}}
	for _, l := range strings.Fields(string(out)) {
		rel := strings.TrimPrefix(l, p.Mod)
		if strings.HasPrefix(rel, "/examples") {
			p.Skip = append(p.Skip, l)
			continue
		}
		pats = append(pats, l)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags", tags}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var good []*packages.Package
	for _, q := range pkgs {
		if len(q.Errors) > 0 || q.IllTyped {
			p.Skip = append(p.Skip, q.PkgPath)
			continue
		}
		good = append(good, q)
	}
	sort.Slice(good, func(i, j int) bool { return good[i].PkgPath < good[j].PkgPath })
	p.Pkgs = good
	prog, sp := ssautil.Packages(good, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for _, s := range sp {
		if s != nil {
			p.ByPath[s.Pkg.Path()] = s
		}
	}
	p.indexGlobals()
	return p, nil
}

// IsRepo: the function's body belongs to the repository.
func (p *Program) IsRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.ByPath[f.Pkg.Pkg.Path()] == f.Pkg
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		path := f.Object().Pkg().Path()
		if _, ok := p.ByPath[path]; ok {
			return true
		}
		// synthetic wrapper around a promoted std method: inline the wrapper
		return f.Synthetic != "" && len(f.Blocks) > 0
	}
	return f.Synthetic != "" && len(f.Blocks) > 0
}

// Func finds a package-level function; rel is relative to the module root.
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.ByPath[p.path(rel)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) path(rel string) string {
	if rel == "" {
		return p.Mod
	}
	return p.Mod + "/" + rel
}

// Path gives the import path of a package relative to the module root.
func (p *Program) Path(rel string) string { return p.path(rel) }

// Type finds a named type.
func (p *Program) Type(rel, name string) *types.Named {
	sp := p.ByPath[p.path(rel)]
	if sp == nil {
		return nil
	}
	m := sp.Type(name)
	if m == nil {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// Method finds a method of a named type (pointer or value receiver).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	return p.MethodOf(n, name)
}

func (p *Program) MethodOf(n types.Type, name string) *ssa.Function {
	t := n
	if _, ok := n.(*types.Pointer); !ok && !types.IsInterface(n) {
		t = types.NewPointer(n)
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn := p.SSA.MethodValue(s)
			// prefer the declared (value-receiver) function over a wrapper
			if fn != nil && fn.Synthetic != "" && len(s.Index()) == 1 {
				if o, ok := s.Obj().(*types.Func); ok {
					if g := p.SSA.FuncValue(o); g != nil && len(g.Blocks) > 0 {
						return g
					}
				}
			}
			return fn
		}
	}
	return nil
}

func (p *Program) Global(rel, name string) *ssa.Global {
	sp := p.ByPath[p.path(rel)]
	if sp == nil {
		return nil
	}
	return sp.Var(name)
}

// AllFuncs returns every function with a body in the repository.
func (p *Program) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if len(fn.Blocks) > 0 && p.IsRepo(fn) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func (p *Program) indexGlobals() {
	for fn := range ssautil.AllFunctions(p.SSA) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					info := p.inits[g]
					if info == nil {
						info = &initInfo{}
						p.inits[g] = info
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == g {
							info.stores = append(info.stores, in)
						} else {
							info.escape = true
						}
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					default:
						info.escape = true
					}
				}
			}
		}
	}
}

// GlobalInit resolves an unexported package variable that is assigned exactly
// once, in the package initialiser, to a function or constant.
func (p *Program) GlobalInit(tt *Terms) func(g *ssa.Global) *Term {
	return func(g *ssa.Global) *Term {
		if g.Object() == nil || g.Object().Exported() {
			return nil
		}
		info := p.inits[g]
		if info == nil || info.escape || len(info.stores) != 1 {
			return nil
		}
		s := info.stores[0]
		if s.Parent().Name() != "init" || s.Parent().Synthetic == "" {
			return nil
		}
		switch v := s.Val.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return tt.Zero(v.Type())
			}
			return tt.Const(v.Value, v.Type())
		case *ssa.Function:
			return tt.Func(v)
		}
		return nil
	}
}

// NewMachine makes a machine over the program.
func (p *Program) NewMachine() *Machine {
	m := NewMachine(p.IsRepo)
	m.Global = p.GlobalInit(m.T)
	return m
}
