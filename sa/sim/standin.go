package sim

import (
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Functions of the standard library with the meaning documented there,
// for analyses that look at every element of a slice or string.
const standInSrc = `package standin

func bytes_IndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func bytes_LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func bytes_Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func bytes_HasPrefix(s, prefix []byte) bool {
	return len(s) >= len(prefix) && bytes_Equal(s[:len(prefix)], prefix)
}

func strings_IndexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func strings_LastIndexByte(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
`

var standInNames = map[string]string{
	"bytes.IndexByte":       "bytes_IndexByte",
	"bytes.LastIndexByte":   "bytes_LastIndexByte",
	"bytes.Equal":           "bytes_Equal",
	"bytes.HasPrefix":       "bytes_HasPrefix",
	"strings.IndexByte":     "strings_IndexByte",
	"strings.LastIndexByte": "strings_LastIndexByte",
}

// StandIns builds them.
func (p *Program) StandIns() map[string]*ssa.Function {
	if p.standIns != nil {
		return p.standIns
	}
	p.standIns = map[string]*ssa.Function{}
	fset := p.SSA.Fset
	f, err := parser.ParseFile(fset, "standin.go", standInSrc, 0)
	if err != nil {
		panic(err)
	}
	pkg, _, err := ssautil.BuildPackage(&types.Config{}, fset, types.NewPackage("standin", "standin"), []*ast.File{f}, 0)
	if err != nil {
		panic(err)
	}
	for full, n := range standInNames {
		p.standIns[full] = pkg.Func(n)
	}
	return p.standIns
}

// standIn: the function to interpret for a call of one of the standard library.
func (m *Machine) standIn(st *State, fn *ssa.Function) *ssa.Function {
	if fn == nil || m.Std == nil || len(st.frames) >= maxDepth {
		return nil
	}
	if s := m.Std[fn.String()]; s != nil {
		return s
	}
	return nil
}

func isStandIn(fn *ssa.Function) bool { return fn.Pkg != nil && fn.Pkg.Pkg.Path() == "standin" }
