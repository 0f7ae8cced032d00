package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"plzsa/sim"
)

const lumber = "countlog/output/lumberjack"

func init() {
	register("C11", "Path simulation of Logger.Write / Rotate / Close from an arbitrary logger: at every write to the log file the tracked size is the size of that file (0 after a truncating open, the size reported by Stat for the same name after an append open, the previous size plus the bytes written otherwise) and size + len(p) <= max, max being MaxSize MB or 100 MB; every path re-establishes that the tracked size belongs to the open file.", checkC11)
	register("C12", "Path simulation of Logger.Write / Rotate / Close and of the compression: every path that reports success wrote p once, unchanged, to the open file; the log file is only truncated when it does not exist or was successfully renamed to a backup in the same directory, is never removed, and is otherwise opened for append; a replaced file is closed first; the source of a compression is removed only after everything was copied and both writers were closed without error, and the destination is removed on every failure.", checkC12)
	register("C13", "Path simulation of the retention pass with every loop entered in an arbitrary iteration: a file is removed exactly when more than MaxBackups (> 0) newer-or-equal distinct backups were counted before it or its timestamp is before now - MaxAge days (MaxAge > 0); only regular files whose name is prefix + timestamp + extension (or + .gz) are candidates, sorted newest first; every selected file is removed.", checkC13)
}

type lumberjackEnv struct {
	t          *types.Named
	file, size string
}

func lumberEnv(p *sim.Program, r *Report) *lumberjackEnv {
	n := p.Type(lumber, "Logger")
	if !r.Need(n != nil, "lumberjack.Logger") {
		return nil
	}
	e := &lumberjackEnv{t: n}
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() {
			continue
		}
		switch f.Type().String() {
		case "*os.File":
			e.file = f.Name()
		case "int64":
			e.size = f.Name()
		}
	}
	if !r.Need(e.file != "" && e.size != "", "the open file and its size in lumberjack.Logger") {
		return nil
	}
	return e
}

func lumberMachine(p *sim.Program) *sim.Machine {
	m := p.NewMachine()
	m.Opaque = onlyPkgs(lumber)
	m.NoHavoc = func(ev *sim.Event) bool { return true }
	m.SnapAt = func(ev *sim.Event) bool { return strings.HasPrefix(ev.Callee, "(*os.File).Write") }
	return m
}

// lumberRuns runs the exported methods of Logger that touch the file.
func lumberRuns(p *sim.Program, r *Report, e *lumberjackEnv, visit func(name string, fn *ssa.Function, m *sim.Machine, l *sim.Term, args []*sim.Term, o *sim.State)) {
	for _, name := range []string{"Write", "Rotate", "Close"} {
		fn := p.MethodOf(types.NewPointer(e.t), name)
		if !r.Need(fn != nil, "Logger."+name) {
			continue
		}
		m := lumberMachine(p)
		args := m.Params(fn, "")
		st := m.NewState()
		st.Facts.Assert(m.T.Eq(args[0], m.T.Nil()), false)
		for _, o := range m.Run(st, fn, args) {
			visit(name, fn, m, args[0], args, o)
		}
		r.Absorb(m)
	}
}

func openFlags(ev *sim.Event) (name *sim.Term, flags int64, ok bool) {
	switch ev.Callee {
	case "os.OpenFile":
		f, isC := ev.Args[1].Int64()
		return ev.Args[0], f, isC
	case "os.Create":
		return ev.Args[0], 0x242, true
	case "os.Open":
		return ev.Args[0], 0, true
	}
	return nil, 0, false
}

const (
	oTRUNC  = 0x200
	oAPPEND = 0x400
	oCREATE = 0x40
)

// resOf returns component i of a call result.
func resOf(m *sim.Machine, ev *sim.Event, i int) *sim.Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == sim.OTuple {
		return ev.Res.Args[i]
	}
	if tp, ok := ev.Res.Typ.(*types.Tuple); ok {
		return m.T.Extract(ev.Res, i, tp.At(i).Type())
	}
	return ev.Res
}

func succeeded(o *sim.State, err *sim.Term) bool { return o.Facts.IsNil(err) }
func failed(o *sim.State, err *sim.Term) bool {
	return nonNilErr(o, err)
}

// nonNilErr: the error is known to be non-nil.
func nonNilErr(o *sim.State, err *sim.Term) bool {
	if err == nil {
		return false
	}
	if err.NonNil() || o.Facts.NonNil(err) {
		return true
	}
	x := stripIface(err)
	if x.Op == sim.OCall && (x.Sub == "fmt.Errorf" || x.Sub == "errors.New") {
		return true
	}
	if x.Op == sim.OPure && (x.Sub == "fmt.Errorf" || x.Sub == "errors.New") {
		return true
	}
	for a, v := range o.Facts.Atoms {
		if v && a.Op == sim.OPure && (a.Sub == "os.IsNotExist" || a.Sub == "os.IsExist") && len(a.Args) == 1 && a.Args[0] == err {
			return true
		}
	}
	return false
}

// sizeBelongs: size is the size of file at this point of the path (file was
// opened, or was open from the start).
func sizeBelongs(m *sim.Machine, o *sim.State, upto *sim.Event, file, size, file0, size0 *sim.Term) (bool, string) {
	T := m.T
	want := size0
	src := "the size tracked before"
	known := file == file0
	var stats []*sim.Event
	for _, ev := range o.Trace {
		if ev == upto {
			break
		}
		if ev.Kind != "call" {
			continue
		}
		if ev.Callee == "os.Stat" || ev.Callee == "os.Lstat" {
			stats = append(stats, ev)
		}
		if n, fl, ok := openFlags(ev); ok && resOf(m, ev, 0) == file {
			known = true
			switch {
			case fl&oTRUNC != 0:
				want, src = T.Int(0), "0 (just truncated)"
			default:
				want, src = nil, "the size Stat reports for the same name"
				for _, s := range stats {
					if s.Args[0] == n {
						fi := resOf(m, s, 0)
						if size != nil && size.Any(func(x *sim.Term) bool {
							return x.Op == sim.OPure && strings.HasSuffix(x.Sub, "FileInfo).Size") && len(x.Args) == 1 && x.Args[0] == fi
						}) {
							// base term
							size.Any(func(x *sim.Term) bool {
								if x.Op == sim.OPure && strings.HasSuffix(x.Sub, "FileInfo).Size") && x.Args[0] == fi {
									want = x
								}
								return false
							})
						}
					}
				}
			}
		}
		if isWrite(ev) && writeTarget(ev) == file && want != nil {
			want = T.Bin(sim.ADD, want, resOf(m, ev, 0), types.Typ[types.Int64])
		}
		if ev.Callee == "(*os.File).Stat" && ev.Args[0] == file {
			fi := resOf(m, ev, 0)
			if size != nil && size.Op == sim.OPure && strings.HasSuffix(size.Sub, "FileInfo).Size") && size.Args[0] == fi {
				want = size
			}
		}
	}
	if !known {
		return false, "the file was not opened on this path"
	}
	if want == nil {
		return false, fmt.Sprintf("the tracked size %v is not %s", size, src)
	}
	if size == want || isInt(want, 0) && isInt(size, 0) || o.Facts.Leq(size, want) && o.Facts.Leq(want, size) {
		return true, ""
	}
	return false, fmt.Sprintf("the tracked size is %v, want %v (%s)", size, want, src)
}

func maxOf(m *sim.Machine, o *sim.State, e *lumberjackEnv, l *sim.Term) *sim.Term {
	T := m.T
	ms := m.FieldOf(m.NewState(), l, e.t, "MaxSize")
	switch o.Facts.Eval(T.Eq(ms, T.Int(0))) {
	case sim.True:
		return T.Int(100 * 1024 * 1024)
	case sim.False:
		return T.Bin(sim.MUL, ms, T.Int(1024*1024), types.Typ[types.Int64])
	}
	return nil
}

func checkC11(p *sim.Program, r *Report) {
	r.Assumptions = []string{"only this logger writes to the file while it is open (documented)", "Stat reports the size of the file that is opened next", "megabyte is 1024*1024 (variable only for tests)"}
	e := lumberEnv(p, r)
	if e == nil {
		return
	}
	writes := 0
	lumberRuns(p, r, e, func(name string, fn *ssa.Function, m *sim.Machine, l *sim.Term, args []*sim.Term, o *sim.State) {
		T := m.T
		if o.Panicked {
			return
		}
		s0 := m.NewState()
		file0, size0 := m.FieldOf(s0, l, e.t, e.file), m.FieldOf(s0, l, e.t, e.size)
		for _, ev := range o.Trace {
			if !isWrite(ev) || ev.Snap == nil {
				continue
			}
			writes++
			f, sz := m.FieldOf(ev.Snap, l, e.t, e.file), m.FieldOf(ev.Snap, l, e.t, e.size)
			if !r.Ob("writes-open-file", name, writeTarget(ev) == f, sim.PosOf(ev.Instr), fmt.Sprintf("the data goes to %v, not to the open log file", writeTarget(ev)), trace(o)...) {
				continue
			}
			ok, why := sizeBelongs(m, o, ev, f, sz, file0, size0)
			r.Ob("size-tracked", name+" before write", ok, sim.PosOf(ev.Instr), why, trace(o)...)
			mx := maxOf(m, o, e, l)
			lim := false
			if mx != nil {
				n := T.Len(writeData(ev))
				sum := T.Bin(sim.ADD, sz, n, types.Typ[types.Int64])
				lim = ev.Snap.Facts.Leq(sum, mx) || ev.Snap.Facts.Eval(T.Lt(mx, sum)) == sim.False
			}
			r.Ob("within-limit", name, lim, sim.PosOf(ev.Instr), "a write can take the file beyond the maximum size", trace(o)...)
		}
		f, sz := m.FieldOf(o, l, e.t, e.file), m.FieldOf(o, l, e.t, e.size)
		if f == file0 && sz == size0 || o.Facts.IsNil(f) {
			r.Ob("size-tracked", name+" on return", true, "", "")
			return
		}
		ok, why := sizeBelongs(m, o, nil, f, sz, file0, size0)
		r.Ob("size-tracked", name+" on return", ok, where(p, fn), why, trace(o)...)
	})
	r.Ob("explored", "Write", writes > 0, lumber, "no write to the log file was found")
}

func checkC12(p *sim.Program, r *Report) {
	r.Assumptions = []string{"os.Rename is atomic; a file that Stat cannot find does not exist", "only this logger touches the log file (documented)"}
	e := lumberEnv(p, r)
	if e == nil {
		return
	}
	wr, ren := 0, 0
	lumberRuns(p, r, e, func(name string, fn *ssa.Function, m *sim.Machine, l *sim.Term, args []*sim.Term, o *sim.State) {
		if o.Panicked {
			return
		}
		s0 := m.NewState()
		file0 := m.FieldOf(s0, l, e.t, e.file)
		var writes []*sim.Event
		absent := map[*sim.Term]bool{}  // the name does not exist
		present := map[*sim.Term]bool{} // Stat found it
		created := map[*sim.Term]bool{} // created empty on this path
		closed := map[*sim.Term]int{}
		for _, ev := range o.Trace {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Callee {
			case "os.Stat", "os.Lstat":
				n := ev.Args[0]
				err := resOf(m, ev, 1)
				absent[n] = failed(o, err)
				present[n] = succeeded(o, err)
			case "os.Rename":
				ren++
				n, dst := ev.Args[0], ev.Args[1]
				if succeeded(o, ev.Res) {
					absent[n] = true
				}
				cs := "rotation"
				r.Ob("renamed-aside", cs, dst != n && sameDir(dst, n), sim.PosOf(ev.Instr), fmt.Sprintf("the log file is moved to %v, want a backup name in the same directory", dst), trace(o)...)
				r.Ob("backup-kept", cs, absent[dst], sim.PosOf(ev.Instr), "the log file is renamed without making sure that no backup of that name exists: the existing backup is overwritten", trace(o)...)
				ok := closed[file0] > 0 || o.Facts.IsNil(file0)
				r.Ob("closed-first", cs, ok, sim.PosOf(ev.Instr), "the log file is renamed while it is open", trace(o)...)
			case "os.Remove", "os.RemoveAll", "os.Truncate":
				r.Ob("never-removed", lastFunc(ev), false, sim.PosOf(ev.Instr), "the logger removes or truncates a file while writing or rotating", trace(o)...)
			case "(*os.File).Truncate":
				r.Ob("never-removed", lastFunc(ev), false, sim.PosOf(ev.Instr), "the logger truncates the open file", trace(o)...)
			case "(*os.File).Close":
				closed[ev.Args[0]]++
			}
			if n, fl, ok := openFlags(ev); ok {
				if fl&oTRUNC != 0 {
					r.Ob("truncates-nothing", lastFunc(ev), absent[n] || created[n], sim.PosOf(ev.Instr), fmt.Sprintf("%v is truncated although it may hold log data (it exists and was not moved aside)", n), trace(o)...)
					created[n] = true
				} else if m.FieldOf(o, l, e.t, e.file) == resOf(m, ev, 0) || usedForWrite(o, resOf(m, ev, 0)) {
					r.Ob("appends", lastFunc(ev), fl&oAPPEND != 0, sim.PosOf(ev.Instr), "an existing log file is opened without O_APPEND: its content is overwritten", trace(o)...)
				}
			}
			if isWrite(ev) {
				writes = append(writes, ev)
				wr++
				r.Ob("not-closed", lastFunc(ev), closed[writeTarget(ev)] == 0, sim.PosOf(ev.Instr), "the data goes to a closed file", trace(o)...)
			}
		}
		for f, n := range closed {
			r.Ob("closed-once", name, n == 1, where(p, fn), fmt.Sprintf("%v is closed %d times", f, n), trace(o)...)
		}
		fEnd := m.FieldOf(o, l, e.t, e.file)
		if fEnd != file0 && !o.Facts.IsNil(file0) {
			r.Ob("closed-replaced", name, closed[file0] == 1, where(p, fn), "the previous log file is not closed when it is replaced", trace(o)...)
		}
		r.Ob("open-file-usable", name, closed[fEnd] == 0 || o.Facts.IsNil(fEnd), where(p, fn), "the logger keeps a closed file as its log file", trace(o)...)
		if fEnd != file0 && !o.Facts.IsNil(fEnd) {
			// opened successfully
			ok := true
			for _, ev := range o.Trace {
				if _, _, isO := openFlags(ev); isO && resOf(m, ev, 0) == fEnd {
					ok = succeeded(o, resOf(m, ev, 1))
				}
			}
			r.Ob("open-file-usable", name, ok, where(p, fn), "the logger keeps a file it failed to open", trace(o)...)
		}
		switch name {
		case "Write":
			if o.Ret == nil || o.Ret.Op != sim.OTuple {
				return
			}
			n, err := o.Ret.Args[0], o.Ret.Args[1]
			if len(writes) == 0 {
				r.Ob("no-silent-loss", name, nonNilErr(o, err) && isInt(n, 0), where(p, fn), fmt.Sprintf("Write returns (%v, %v) without having written", n, err), trace(o)...)
				return
			}
			ok := len(writes) == 1 && writeData(writes[0]) == args[1]
			r.Ob("written-once", name, ok, where(p, fn), fmt.Sprintf("the data is written %d times, or not as given", len(writes)), trace(o)...)
			if ok {
				r.Ob("result-reported", name, n == resOf(m, writes[0], 0) && (err == resOf(m, writes[0], 1) || nonNilErr(o, err)), where(p, fn), fmt.Sprintf("Write returns (%v, %v), not the result of the file write", n, err), trace(o)...)
			}
		case "Close":
			for _, ev := range o.Trace {
				if ev.Callee == "(*os.File).Close" && ev.Kind == "call" {
					r.Ob("close-reported", name, o.Ret == ev.Res, where(p, fn), "Close does not return the error of closing the file", trace(o)...)
				}
			}
			r.Ob("closes", name, closed[file0] == 1 || o.Facts.IsNil(file0), where(p, fn), "Close leaves the file open", trace(o)...)
		case "Rotate":
			// a successful rotation moved the existing file aside
			if o.Facts.IsNil(o.Ret) {
				moved := false
				for _, ev := range o.Trace {
					if ev.Callee == "os.Rename" && succeeded(o, ev.Res) {
						moved = true
					}
				}
				anyPresent := false
				for _, v := range present {
					anyPresent = anyPresent || v
				}
				r.Ob("rotated", name, moved || !anyPresent, where(p, fn), "Rotate succeeds without moving the existing log file aside", trace(o)...)
				r.Ob("rotated", name+" opens", fEnd != file0 && !o.Facts.IsNil(fEnd), where(p, fn), "Rotate succeeds without opening a new log file", trace(o)...)
			}
		}
	})
	r.Ob("explored", "Write", wr > 0, lumber, "no write to the log file was found")
	r.Ob("explored", "Rename", ren > 0, lumber, "no rotation was found")
	c12Compress(p, r)
}

func lastFunc(ev *sim.Event) string {
	if ev.Fn != nil {
		return fname(ev.Fn)
	}
	return fname(ev.Instr.Parent())
}

func usedForWrite(o *sim.State, f *sim.Term) bool {
	for _, ev := range o.Trace {
		if isWrite(ev) && writeTarget(ev) == f {
			return true
		}
	}
	return false
}

// sameDir: dst is a path made of the directory of n.
func sameDir(dst, n *sim.Term) bool {
	has := dst.Any(func(x *sim.Term) bool {
		return x.Op == sim.OPure && (x.Sub == "path/filepath.Dir" || x.Sub == "path/filepath.Split") && len(x.Args) > 0 && x.Args[0] == n
	})
	if has {
		return true
	}
	// name + suffix
	return dst.Op == sim.OConcat && dst.Args[0] == n || dst.Op == sim.OConcat && dst.Args[0].Op == sim.OSlice && dst.Args[0].Args[0] == n
}

// reaches: fn calls (statically, within the package) one of the callees.
func reaches(fn *ssa.Function, names map[string]bool, seen map[*ssa.Function]bool) bool {
	if fn == nil || seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if mc, ok := (*op).(*ssa.MakeClosure); ok {
					if reaches(mc.Fn.(*ssa.Function), names, seen) {
						return true
					}
				}
			}
			f := c.Common().StaticCallee()
			if f == nil {
				continue
			}
			if names[f.String()] {
				return true
			}
			if pkgOf(f) == pkgOf(fn) && reaches(f, names, seen) {
				return true
			}
		}
	}
	return false
}

// minimalReaching: the functions of the package that reach every group and
// have no callee in the package that does.
func minimalReaching(p *sim.Program, rel string, groups ...map[string]bool) []*ssa.Function {
	all := map[*ssa.Function]bool{}
	for _, fn := range p.AllFuncs() {
		if pkgOf(fn) != rel || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		ok := true
		for _, g := range groups {
			ok = ok && reaches(fn, g, map[*ssa.Function]bool{})
		}
		if ok {
			all[fn] = true
		}
	}
	var out []*ssa.Function
	for fn := range all {
		min := true
		var look func(f *ssa.Function)
		look = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && g != fn && all[g] {
							min = false
						}
					}
				}
			}
			for _, an := range f.AnonFuncs {
				look(an)
			}
		}
		look(fn)
		if min {
			out = append(out, fn)
		}
	}
	return out
}

var (
	setGzip   = map[string]bool{"compress/gzip.NewWriter": true, "compress/gzip.NewWriterLevel": true}
	setRemove = map[string]bool{"os.Remove": true, "os.RemoveAll": true}
	setDir    = map[string]bool{"io/ioutil.ReadDir": true, "os.ReadDir": true, "(*os.File).Readdir": true, "path/filepath.Glob": true}
)

func c12Compress(p *sim.Program, r *Report) {
	fns := minimalReaching(p, lumber, setGzip, setRemove)
	if len(fns) == 0 {
		r.Note("no compression found")
		return
	}
	for _, fn := range fns {
		m := lumberMachine(p)
		args := m.Params(fn, "")
		T := m.T
		st := m.NewState()
		for _, o := range m.Run(st, fn, args) {
			if o.Panicked {
				continue
			}
			src := map[*sim.Term]*sim.Term{} // file -> name, opened for reading
			dst := map[*sim.Term]*sim.Term{} // file -> name, opened for writing
			gz := map[*sim.Term]*sim.Term{}  // gzip writer -> file
			copied := map[*sim.Term]*sim.Term{}
			gzClosed := map[*sim.Term]bool{}
			fClosed := map[*sim.Term]bool{}
			var dstName, srcName *sim.Term
			srcGone, dstGone := false, false
			badDst := false
			for _, ev := range o.Trace {
				if ev.Kind != "call" {
					continue
				}
				if n, fl, ok := openFlags(ev); ok {
					f := resOf(m, ev, 0)
					if fl&3 == 0 {
						src[f] = n
						srcName = n
					} else {
						if n == srcName && fl&oTRUNC != 0 {
							r.Ob("source-kept", fname(fn), false, sim.PosOf(ev.Instr), "the file to compress is truncated", trace(o)...)
						}
						dst[f] = n
						dstName = n
						if fl&oTRUNC == 0 {
							badDst = true
						}
					}
				}
				switch ev.Callee {
				case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
					g := ev.Res
					if strings.HasSuffix(ev.Callee, "Level") {
						g = resOf(m, ev, 0)
					}
					gz[g] = stripIface(ev.Args[0])
				case "io.Copy":
					if succeeded(o, resOf(m, ev, 1)) {
						copied[stripIface(ev.Args[0])] = stripIface(ev.Args[1])
					}
				case "(*compress/gzip.Writer).Close":
					if succeeded(o, ev.Res) {
						gzClosed[ev.Args[0]] = true
					}
				case "(*os.File).Close":
					if succeeded(o, ev.Res) {
						fClosed[ev.Args[0]] = true
					}
				case "os.Remove", "os.RemoveAll":
					n := ev.Args[0]
					gone := ev.Defer || !failed(o, ev.Res)
					switch n {
					case srcName:
						ok := false
						for g, f := range gz {
							s := copied[g]
							if s != nil && src[s] == n && gzClosed[g] && fClosed[f] && dst[f] != nil && !badDst {
								ok = true
							}
						}
						r.Ob("source-removed-last", fname(fn), ok, sim.PosOf(ev.Instr), "the log file is removed although its compressed copy may be incomplete (copy, gzip close and file close must all have succeeded)", trace(o)...)
						if succeeded(o, ev.Res) || gone && !failed(o, ev.Res) {
							srcGone = true
						}
					case dstName:
						r.Ob("copy-kept", fname(fn), !srcGone, sim.PosOf(ev.Instr), "both the log file and its compressed copy are removed", trace(o)...)
						dstGone = true
					default:
						r.Ob("source-removed-last", fname(fn)+" other", false, sim.PosOf(ev.Instr), fmt.Sprintf("%v is removed, neither the log file nor its incomplete copy", n), trace(o)...)
					}
				}
			}
			if o.Ret == nil {
				continue
			}
			err := o.Ret
			if err.Op == sim.OTuple {
				err = err.Args[len(err.Args)-1]
			}
			opened := false
			for _, n := range dst {
				opened = opened || n == dstName
			}
			_ = opened
			if o.Facts.IsNil(err) {
				r.Ob("compressed", fname(fn), srcGone && !dstGone, where(p, fn), "the compression reports success without leaving exactly the compressed file", trace(o)...)
			} else {
				r.Ob("failure-reported", fname(fn), !srcGone, where(p, fn), "the compression fails after the log file was removed", trace(o)...)
			}
			_ = T
		}
		r.Absorb(m)
	}
}
