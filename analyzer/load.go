package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Mod is the import path of the analysed module.
const Mod = "github.com/blnkfinance/blnk"

// World is the resolved program of /repo's working tree.
type World struct {
	startedArgs map[*ssa.Function][][]ssa.Value
	Dir         string
	Pkgs        []*packages.Package
	ByPath      map[string]*packages.Package
	Prog        *ssa.Program
	SSA         map[string]*ssa.Package
	Fset        *token.FileSet
	Funcs       []*ssa.Function // every function with a body in the module (closures included)
	Deps        int

	impls             map[string][]*ssa.Function
	loops             map[*ssa.Function]map[*ssa.BasicBlock]bool
	live              map[*ssa.Function]*liveInfo
	refs              map[*ssa.Function][]*ssa.Function
	callers           map[*ssa.Function][]*ssa.Function
	mods              map[*ssa.Function]map[string]bool
	sc                *Schema
	pure              map[*ssa.Function]bool
	gstores           map[*ssa.Global]bool
	sqlFacts          *SQLFacts
	errFlow           *ErrFlow
	life              *LifeFacts
	money             *MoneyFacts
	tx                *TxFacts
	effDirect, effAll map[*ssa.Function]map[WriteEff]bool
	sites             map[*ssa.Function][]ssa.CallInstruction
	routes            []*Route
	extEff            map[*ssa.Function]string
}

// Load type-checks the module from source (test files excluded), using bodies of the
// module's own packages only.
func Load(dir string) (*World, error) {
	w := &World{Dir: dir, ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{},
		impls: map[string][]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		live: map[*ssa.Function]*liveInfo{}}
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
		packages.NeedModule | packages.NeedDeps
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if _, err := os.Stat("/opt/veriftools/go1.25.14/bin/go"); err == nil {
		env = append(env, "GOROOT=/opt/veriftools/go1.25.14", "PATH=/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
		os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
	}
	cfg := &packages.Config{Mode: mode, Dir: dir, Env: env}
	root := filepath.Clean(dir) + string(filepath.Separator)
	cfg.ParseFile = func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
		if strings.HasPrefix(fn, root) {
			return parser.ParseFile(fset, fn, src, parser.SkipObjectResolution|parser.ParseComments)
		}
		f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if f != nil {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					fd.Body = nil
				}
			}
		}
		return f, err
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var bad []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		w.Deps++
		if p.PkgPath == Mod || strings.HasPrefix(p.PkgPath, Mod+"/") {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(bad, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	// dependencies are loaded without function bodies, which leaves only unused-import errors behind
	packages.Visit(ps, nil, func(p *packages.Package) { p.IllTyped = false })
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog, w.Fset, w.Pkgs = prog, prog.Fset, ps
	for i, p := range ps {
		w.ByPath[p.PkgPath] = p
		if sps[i] != nil {
			w.SSA[p.PkgPath] = sps[i]
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if w.InModule(f) && f.Synthetic == "" {
			add(f)
		}
	}
	// functions not reachable per AllFunctions (unused methods of unexported types)
	for _, sp := range w.SSA {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					add(m)
				}
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	w.buildRefs()
	return w, nil
}

// InModule: function belongs to a non-mock package of the module.
func (w *World) InModule(f *ssa.Function) bool {
	p := fnPkg(f)
	if p == nil {
		return false
	}
	return inMod(p.Path())
}

func inMod(path string) bool {
	return (path == Mod || strings.HasPrefix(path, Mod+"/")) && !strings.HasSuffix(path, "/mocks") && !strings.Contains(path, "/tests/")
}

func fnPkg(f *ssa.Function) *types.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		f = f.Parent()
	}
	return nil
}

// short strips the module path from a name.
func short(s string) string {
	s = strings.ReplaceAll(s, Mod+"/", "")
	s = strings.ReplaceAll(s, Mod+".", "blnk.")
	return s
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return short(f.String())
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (w *World) File(p token.Pos) string {
	s := w.Pos(p)
	if i := strings.LastIndex(s, ":"); i > 0 {
		return s[:i]
	}
	return s
}

// Func finds a function by its short name, e.g. "(*database.Datasource).RecordTransaction".
func (w *World) Func(name string) *ssa.Function {
	for _, f := range w.Funcs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// Type finds a named type by package suffix ("" for root, "model", ...) and name.
func (w *World) Type(pkg, name string) *types.Named {
	path := Mod
	if pkg != "" {
		path = Mod + "/" + pkg
	}
	p := w.ByPath[path]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Implementations resolves an interface method to the module's concrete methods (mocks excluded).
func (w *World) Implementations(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(iface, nil) + "." + m.Name()
	if r, ok := w.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, p := range w.Pkgs {
		if !inMod(p.PkgPath) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			var recv types.Type = nt
			if !types.Implements(nt, it) {
				recv = types.NewPointer(nt)
				if !types.Implements(recv, it) {
					continue
				}
			}
			sel := types.NewMethodSet(recv).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			fo, _ := sel.Obj().(*types.Func)
			f := w.Prog.FuncValue(fo)
			if f != nil && f.Blocks != nil {
				out = append(out, f)
			}
		}
	}
	w.impls[key] = out
	return out
}

// StaticTargets resolves a call to the module functions it can reach (static or via interface).
func (w *World) StaticTargets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return w.Implementations(c.Value.Type(), c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{unwrap(f)}
	}
	return nil
}

// unwrap maps synthetic wrappers/thunks/bound methods to the declared method.
func unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if g := f.Prog.FuncValue(fo); g != nil && g.Blocks != nil {
				return g
			}
		}
	}
	return f
}

func (w *World) buildRefs() {
	w.refs = map[*ssa.Function][]*ssa.Function{}
	w.callers = map[*ssa.Function][]*ssa.Function{}
	for _, f := range w.Funcs {
		set := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, t := range w.StaticTargets(c.Common()) {
						set[t] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						set[unwrap(g)] = true
					}
				}
			}
		}
		for g := range set {
			w.refs[f] = append(w.refs[f], g)
			w.callers[g] = append(w.callers[g], f)
		}
		sort.Slice(w.refs[f], func(i, j int) bool { return w.refs[f][i].String() < w.refs[f][j].String() })
	}
	for g := range w.callers {
		c := w.callers[g]
		sort.Slice(c, func(i, j int) bool { return c[i].String() < c[j].String() })
	}
}

// Reaches computes the functions from which some function satisfying pred is reachable.
func (w *World) Reaches(pred func(*ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range w.Funcs {
		if pred(f) {
			out[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range w.callers[f] {
			if !out[c] {
				out[c] = true
				q = append(q, c)
			}
		}
	}
	return out
}

// ReachableFrom computes functions reachable from the given ones.
func (w *World) ReachableFrom(fs ...*ssa.Function) map[*ssa.Function]bool {
	return w.ReachableAvoiding(nil, fs...)
}

// ReachableAvoiding is ReachableFrom on the graph without the functions satisfying avoid.
func (w *World) ReachableAvoiding(avoid func(*ssa.Function) bool, fs ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	q := append([]*ssa.Function{}, fs...)
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if f == nil || out[f] || (avoid != nil && avoid(f)) {
			continue
		}
		out[f] = true
		q = append(q, w.refs[f]...)
	}
	return out
}

// Instrs visits every instruction of a function.
func Instrs(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			visit(in)
		}
	}
}

// inLoop reports the blocks of f that lie on a cycle.
func (w *World) inLoop(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := w.loops[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		q := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			if seen[x] {
				continue
			}
			seen[x] = true
			if x == b {
				m[b] = true
				break
			}
			q = append(q, x.Succs...)
		}
	}
	w.loops[f] = m
	return m
}

type liveInfo struct {
	in     map[*ssa.BasicBlock]map[ssa.Value]bool
	size   map[*ssa.BasicBlock]int
	fields map[*ssa.BasicBlock]map[string]bool // field names loaded in reachable instructions
}

// Live computes live-in values per block and the field names still mentioned from it on.
func (w *World) Live(f *ssa.Function) *liveInfo {
	if l, ok := w.live[f]; ok {
		return l
	}
	l := &liveInfo{size: map[*ssa.BasicBlock]int{}, in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, fields: map[*ssa.BasicBlock]map[string]bool{}}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.fields[b] = map[string]bool{}
		use[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				l.fields[b][fieldName(x.X.Type(), x.Field)] = true
			case *ssa.Field:
				l.fields[b][fieldName(x.X.Type(), x.Field)] = true
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					use[b][*op] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			n := l.size[b]
			for v := range use[b] {
				l.in[b][v] = true
			}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					l.in[b][v] = true
				}
				for v := range l.fields[s] {
					l.fields[b][v] = true
				}
				k := -1
				for j, p := range s.Preds {
					if p == b {
						k = j
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if k >= 0 {
						l.in[b][ph.Edges[k]] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(l.in[b], v)
					}
				}
			}
			if m := len(l.in[b]) + len(l.fields[b]); m != n {
				l.size[b] = m
				ch = true
			}
		}
	}
	w.live[f] = l
	return l
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	s := structOf(t)
	if s == nil || i >= s.NumFields() {
		return "?"
	}
	return s.Field(i).Name()
}

// typeName gives the short name of the (pointed-to) named type.
func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return short(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return short(p.Path()) })
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f, ok := range m {
		if ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}
