package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["X02"] = ruleX02 }

func ruleX02(c *Ctx) {
	c.Rule("guarded", "In a type with a mutex that is locked, every field that changes after construction is read and written only while that mutex is held.")
	c.Rule("globals", "A package variable or map that changes at run time is only accessed while one lock of the package is held.")
	c.Rule("workers", "A variable or map that several running copies of a background function can reach is written by it only under a lock or atomically.")
	c.Rule("overlap", "A variable written by a background function is not used by the code that started it, nor the other way round, until that function has signalled or a lock is held by both.")
	c.Rule("copies", "A transaction, balance or other record that a background function modifies was copied for it, including every map and big number it modifies, and its starter does not use the copy afterwards.")
	c.Rule("stable", "A record handed to a background function is not modified by its starter or its starter's caller afterwards.")
	for r, n := range map[string]int{"guarded": 10, "globals": 1, "workers": 2, "overlap": 3, "copies": 2, "stable": 3} {
		c.Floor(r, n)
	}
	s := &sharing{c: c, w: c.W, locks: map[*ssa.Function]map[ssa.Instruction]map[string]bool{}, muts: map[string]map[string]ssa.Instruction{}, fresh: map[string]bool{}}
	s.signals, _ = c.W.joins()
	s.types()
	s.globals()
	s.background()
}

type sharing struct {
	c       *Ctx
	w       *World
	locks   map[*ssa.Function]map[ssa.Instruction]map[string]bool
	muts    map[string]map[string]ssa.Instruction
	fresh   map[string]bool
	signals map[*ssa.Function]map[ssa.Value]bool
}

// pathOf names the place an address or value comes from within one function.
func pathOf(v ssa.Value, d int) string {
	if d > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return "p:" + x.Name()
	case *ssa.FreeVar:
		return "f:" + x.Name()
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.FieldAddr:
		return pathOf(x.X, d+1) + "." + fieldAddrName(x)
	case *ssa.Field:
		return pathOf(x.X, d+1) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if st := soleStored(a); st != nil {
					return pathOf(st, d+1)
				}
			}
			return pathOf(x.X, d+1) + "*"
		}
	case *ssa.ChangeType:
		return pathOf(x.X, d+1)
	}
	return fmt.Sprintf("v:%p", v)
}

func mutexType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// lockCall: the call locks or unlocks a mutex.
func lockCall(k ssa.CallInstruction) (mu ssa.Value, op string) {
	switch calleeName(k) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		op = "W"
	case "(*sync.RWMutex).RLock":
		op = "R"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		op = "-W"
	case "(*sync.RWMutex).RUnlock":
		op = "-R"
	default:
		return nil, ""
	}
	return k.Common().Args[0], op
}

// held: the locks certainly held before each instruction of the function; "path" for reading, "path!" for writing.
func (s *sharing) held(f *ssa.Function) map[ssa.Instruction]map[string]bool {
	if r, ok := s.locks[f]; ok {
		return r
	}
	r := map[ssa.Instruction]map[string]bool{}
	s.locks[f] = r
	any := false
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(ssa.CallInstruction); ok {
			if _, op := lockCall(k); op != "" {
				any = true
			}
		}
	})
	if !any || len(f.Blocks) == 0 {
		return r
	}
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: {}}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			cur, ok := in[b]
			if !ok {
				continue
			}
			set := map[string]bool{}
			for k := range cur {
				set[k] = true
			}
			for _, i := range b.Instrs {
				h := map[string]bool{}
				for k := range set {
					h[k] = true
				}
				r[i] = h
				k, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				mu, op := lockCall(k)
				if op == "" {
					continue
				}
				p := pathOf(mu, 0)
				switch op {
				case "W":
					set[p], set[p+"!"] = true, true
				case "R":
					set[p] = true
				case "-W":
					delete(set, p)
					delete(set, p+"!")
				case "-R":
					delete(set, p)
				}
			}
			for _, n := range b.Succs {
				old, ok := in[n]
				if !ok {
					cp := map[string]bool{}
					for k := range set {
						cp[k] = true
					}
					in[n] = cp
					changed = true
					continue
				}
				for k := range old {
					if !set[k] {
						delete(old, k)
						changed = true
					}
				}
			}
		}
	}
	return r
}

// ---------------------------------------------------------------- fields guarded by a mutex

type fieldUse struct {
	f     *ssa.Function
	in    ssa.Instruction
	addr  *ssa.FieldAddr
	write bool
}

// localObj: the object was made in this function and is not shared yet.
func localObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if st := soleStored(a); st != nil {
				return localObj(st)
			}
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		return g != nil && inModule(g) && strings.HasPrefix(g.Name(), "New")
	}
	return false
}

// builder: the function configures the object it is called on and gives it back, as part of its construction.
func builder(f *ssa.Function, v ssa.Value) bool {
	if f.Signature.Recv() == nil || len(f.Params) == 0 || v != ssa.Value(f.Params[0]) || f.Signature.Results().Len() != 1 {
		return false
	}
	return returnsOnly(f, v)
}

// accesses of an address: loads, stores, map updates and deletions through what is loaded, and uses that let it escape.
func accesses(a ssa.Value) (reads, writes []ssa.Instruction) {
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == a {
				writes = append(writes, x)
			}
		case *ssa.UnOp:
			reads = append(reads, x)
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				for _, y := range *x.Referrers() {
					switch z := y.(type) {
					case *ssa.MapUpdate:
						if z.Map == ssa.Value(x) {
							writes = append(writes, z)
						}
					case *ssa.Lookup:
						reads = append(reads, z)
					case *ssa.Range:
						reads = append(reads, z)
					case *ssa.Call:
						if b, ok := z.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && z.Call.Args[0] == ssa.Value(x) {
							writes = append(writes, z)
						}
					}
				}
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			r, w := accesses(x.(ssa.Value))
			reads, writes = append(reads, r...), append(writes, w...)
		}
	}
	return
}

func (s *sharing) types() {
	w, c := s.w, s.c
	// the types whose mutex is locked somewhere
	guards := map[string]string{}
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if mu, op := lockCall(k); op == "W" {
				if fa, ok := mu.(*ssa.FieldAddr); ok {
					guards[fa.X.Type().Underlying().(*types.Pointer).Elem().String()] = fieldAddrName(fa)
				}
			}
		})
	}
	uses := map[string][]fieldUse{}
	written := map[string]bool{}
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return
			}
			t := fa.X.Type().Underlying().(*types.Pointer).Elem()
			mu, ok := guards[t.String()]
			if !ok || fieldAddrName(fa) == mu || !strings.Contains(t.String(), Mod) {
				return
			}
			if ft := fa.Type().(*types.Pointer).Elem().String(); strings.HasPrefix(ft, "sync.") || strings.HasPrefix(ft, "sync/atomic.") {
				return
			}
			if localObj(fa.X) || builder(f, fa.X) {
				return
			}
			key := t.String() + "." + fieldAddrName(fa)
			r, wr := accesses(fa)
			for _, i := range r {
				uses[key] = append(uses[key], fieldUse{f, i, fa, false})
			}
			for _, i := range wr {
				uses[key] = append(uses[key], fieldUse{f, i, fa, true})
				written[key] = true
			}
		})
	}
	var keys []string
	for k := range uses {
		if written[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		t := key[:strings.LastIndex(key, ".")]
		for _, u := range uses[key] {
			ok := s.locked(u.f, u.in, u.addr.X, guards[t], u.write, 0)
			what := "read"
			if u.write {
				what = "written"
			}
			c.Check(ok, "guarded", strings.TrimPrefix(strings.TrimPrefix(key, Mod+"."), Mod+"/")+" in "+fnName(u.f), w.Pos(u.in.Pos()), "the field is %s here without holding %s.%s, which guards it", what, t[strings.LastIndex(t, ".")+1:], guards[t])
		}
	}
}

// locked: the object's mutex is held at the instruction, by the function or by all its callers.
func (s *sharing) locked(f *ssa.Function, in ssa.Instruction, obj ssa.Value, mu string, write bool, d int) bool {
	p := pathOf(obj, 0) + "." + mu
	if write {
		p += "!"
	}
	if s.held(f)[in][p] {
		return true
	}
	if d > 3 {
		return false
	}
	switch x := obj.(type) {
	case *ssa.Parameter:
		if token.IsExported(f.Name()) && f.Parent() == nil && f.Signature.Recv() == nil {
			return false
		}
		calls, all := s.w.allCalls(f)
		if !all || len(calls) == 0 {
			return false
		}
		for _, k := range calls {
			if _, isGo := k.(*ssa.Go); isGo {
				return false
			}
			a := argAt(k, paramAt(x))
			if a == nil || !localObj(a) && !s.locked(k.Parent(), k, a, mu, write, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a closure run while the lock is held: only if it is called where it is made
		fv, ok := x.X.(*ssa.FreeVar)
		if !ok {
			return false
		}
		return s.lockedAtMaking(f, fv, mu, write, d)
	case *ssa.FreeVar:
		return s.lockedAtMaking(f, x, mu, write, d)
	}
	return false
}

func (s *sharing) lockedAtMaking(f *ssa.Function, fv *ssa.FreeVar, mu string, write bool, d int) bool {
	ok, n := true, 0
	for _, g := range s.w.Funcs {
		Instrs(g, func(in ssa.Instruction) {
			mc, is := in.(*ssa.MakeClosure)
			if !is || mc.Fn != ssa.Value(f) {
				return
			}
			for _, u := range *mc.Referrers() {
				k, is := u.(*ssa.Call)
				if !is || k.Call.Value != ssa.Value(mc) {
					ok = false
					continue
				}
				n++
				b := bindingOf(mc, fv)
				if a, is := b.(*ssa.Alloc); is {
					if st := soleStored(a); st != nil {
						b = st
					}
				}
				ok = ok && s.locked(g, k, b, mu, write, d+1)
			}
		})
	}
	return ok && n > 0
}

// ---------------------------------------------------------------- package variables

func (s *sharing) globals() {
	w, c := s.w, s.c
	type use struct {
		f     *ssa.Function
		in    ssa.Instruction
		write bool
	}
	uses := map[*ssa.Global][]use{}
	for _, f := range w.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), Mod) || strings.Contains(g.Pkg.Pkg.Path(), "/cmd") {
					continue
				}
				if t := g.Type().(*types.Pointer).Elem().String(); strings.HasPrefix(t, "sync.") || strings.HasPrefix(t, "sync/atomic.") {
					continue
				}
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						uses[g] = append(uses[g], use{f, in, true})
					}
				case *ssa.UnOp:
					uses[g] = append(uses[g], use{f, in, false})
					if _, ok := x.Type().Underlying().(*types.Map); !ok {
						continue
					}
					for _, y := range *x.Referrers() {
						switch z := y.(type) {
						case *ssa.MapUpdate:
							if z.Map == ssa.Value(x) {
								uses[g] = append(uses[g], use{f, z, true})
							}
						case *ssa.Call:
							if b, ok := z.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
								uses[g] = append(uses[g], use{f, z, true})
							}
						}
					}
				}
			}
		})
	}
	var gs []*ssa.Global
	for g, us := range uses {
		for _, u := range us {
			if u.write {
				gs = append(gs, g)
				break
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		// the one lock held at every use
		var common map[string]bool
		for _, u := range uses[g] {
			h := map[string]bool{}
			for k := range s.held(u.f)[u.in] {
				if strings.HasPrefix(k, "g:") && (!u.write || strings.HasSuffix(k, "!")) {
					h[strings.TrimSuffix(k, "!")] = true
				}
			}
			if common == nil {
				common = h
			} else {
				for k := range common {
					if !h[k] {
						delete(common, k)
					}
				}
			}
		}
		name := strings.TrimPrefix(g.String(), Mod+"/")
		at := uses[g][0]
		for _, u := range uses[g] {
			if len(s.held(u.f)[u.in]) == 0 {
				at = u
				break
			}
		}
		ok := len(common) > 0 || s.onceOnly(g)
		c.Check(ok, "globals", name, w.Pos(at.in.Pos()), "the variable changes at run time and %s uses it without the lock its other users hold", fnName(at.f))
	}
}

// onceOnly: all writes of the variable happen in a function run through sync.Once, or in one called only at start-up.
func (s *sharing) onceOnly(g *ssa.Global) bool {
	ok := true
	for _, f := range s.w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			st, is := in.(*ssa.Store)
			if !is || st.Addr != ssa.Value(g) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				return
			}
			once := false
			if f.Parent() != nil {
				Instrs(f.Parent(), func(in ssa.Instruction) {
					k, is := in.(*ssa.Call)
					if !is || calleeName(k) != "(*sync.Once).Do" {
						return
					}
					switch a := k.Call.Args[1].(type) {
					case *ssa.MakeClosure:
						once = once || a.Fn == ssa.Value(f)
					case *ssa.Function:
						once = once || a == f
					}
				})
			}
			ok = ok && (once || s.startup(f, 0, map[*ssa.Function]bool{}))
		})
	}
	return ok
}

// startup: the function is only called from main functions, initialisation, command definitions and constructors, and never in the background.
func (s *sharing) startup(f *ssa.Function, d int, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if d > 6 {
		return false
	}
	if f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), Mod+"/cmd") || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	calls, _ := s.w.allCalls(f)
	if len(calls) == 0 {
		return f.Parent() == nil && !apiFn(f)
	}
	for _, k := range calls {
		if _, isGo := k.(*ssa.Go); isGo || !s.startup(k.Parent(), d+1, seen) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- background functions

// access to a variable (through its address) or a map.
type reach struct {
	in    ssa.Instruction
	write bool
	lock  bool
	onMap bool // of the map, not of the variable that holds it
}

// reaches collects the accesses a function makes through an address or map it was given, itself and in what it calls with it.
func (s *sharing) reaches(f *ssa.Function, v ssa.Value, isMap bool, lockedAbove bool, seen map[ssa.Value]bool, d int) (r []reach) {
	if v.Referrers() == nil || seen[v] || d > 5 {
		return
	}
	seen[v] = true
	held := s.held(f)
	add := func(in ssa.Instruction, write bool) {
		r = append(r, reach{in, write, lockedAbove || len(held[in]) > 0, isMap})
	}
	intoCall := func(k ssa.CallInstruction, v ssa.Value, isMap bool) {
		cc := k.Common()
		if _, isGo := k.(*ssa.Go); isGo {
			return
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if isMap && b.Name() == "delete" && cc.Args[0] == v {
				add(k, true)
			} else if isMap {
				add(k, false)
			}
			return
		}
		for _, g := range s.w.StaticTargets(cc) {
			if g.Blocks == nil || !inModule(g) {
				continue
			}
			for i := range g.Params {
				if argAt(k, i) == v {
					r = append(r, s.reaches(g, g.Params[i], isMap, lockedAbove || len(held[k]) > 0, seen, d+1)...)
				}
			}
		}
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == v && !isMap {
				add(x, true)
			}
		case *ssa.MapUpdate:
			if x.Map == v && isMap {
				add(x, true)
			}
		case *ssa.Lookup:
			if isMap {
				add(x, false)
			}
		case *ssa.Range:
			if isMap {
				add(x, false)
			}
		case *ssa.UnOp:
			if isMap || x.Op != token.MUL {
				continue
			}
			add(x, false)
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				r = append(r, s.reaches(f, x, true, lockedAbove, seen, d)...)
			}
		case *ssa.FieldAddr:
			// a field of a captured struct variable
			if _, ok := x.X.(*ssa.FreeVar); ok && !isMap && !mutexType(x.Type()) {
				r = append(r, s.reaches(f, x, false, lockedAbove, seen, d)...)
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					g := x.Fn.(*ssa.Function)
					r = append(r, s.reaches(g, g.FreeVars[i], isMap, lockedAbove, seen, d+1)...)
				}
			}
		case ssa.CallInstruction:
			intoCall(x, v, isMap)
		}
	}
	return
}

func elemType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func syncType(t types.Type) bool {
	s := t.String()
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "chan ") || strings.HasPrefix(s, "<-chan") || strings.HasPrefix(s, "chan<-")
}

func (s *sharing) background() {
	w := s.w
	for _, f := range w.Funcs {
		if isMock(f) || strings.Contains(f.String(), "/tests/") {
			continue
		}
		for _, b := range w.backgrounds(f) {
			if b.Fn == nil || b.Fn.Blocks == nil || !inModule(b.Fn) {
				continue
			}
			s.cells(b)
			s.records(b)
		}
	}
}

// several: the background function is started once per turn of a loop that the variable outlives.
func several(b background, cell ssa.Value) bool {
	h := loopAround(b.At.Block())
	if h == nil {
		return false
	}
	in, ok := cell.(ssa.Instruction)
	if !ok || in.Parent() != b.In {
		return true
	}
	// made in the same turn
	for l := h; l != nil; {
		if !loopBlocks(l)[in.Block()] {
			return true
		}
		if l.Idom() == nil {
			break
		}
		l = loopAround(l.Idom())
		if l == nil || !loopBlocks(l)[b.At.Block()] {
			break
		}
	}
	return false
}

func (s *sharing) cells(b background) {
	g := b.Fn
	type inst struct {
		cell ssa.Value
		in   ssa.Value
		m    bool
	}
	var list []inst
	add := func(v, in ssa.Value) {
		t := elemType(v.Type())
		if t != nil && syncType(t) {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc:
			list = append(list, inst{x, in, false})
		case *ssa.MakeMap:
			list = append(list, inst{x, in, true})
		case *ssa.FreeVar, *ssa.Parameter:
			if t != nil {
				if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
					list = append(list, inst{v, in, false})
				}
			}
			if _, isMap := v.Type().Underlying().(*types.Map); isMap {
				list = append(list, inst{v, in, true})
			}
		case *ssa.UnOp:
			if _, isMap := x.Type().Underlying().(*types.Map); isMap {
				list = append(list, inst{x, in, true})
			}
		}
	}
	for i, v := range b.Free {
		if i < len(g.FreeVars) {
			add(v, g.FreeVars[i])
		}
	}
	off := len(g.Params) - len(b.Args)
	for i, v := range b.Args {
		if off >= 0 && i+off < len(g.Params) {
			add(v, g.Params[i+off])
		}
	}
	for _, x := range list {
		rs := s.reaches(g, x.in, x.m, false, map[ssa.Value]bool{}, 0)
		for _, kind := range []bool{false, true} {
			s.shared(b, x.cell, x.in, x.m, kind, only(rs, kind))
		}
	}
}

func only(rs []reach, onMap bool) (r []reach) {
	for _, x := range rs {
		if x.onMap == onMap {
			r = append(r, x)
		}
	}
	return
}

// shared checks the accesses of one variable (or of the map it holds) by a background function and its starter.
func (s *sharing) shared(b background, v, in ssa.Value, m, kind bool, rs []reach) {
	c, w, g := s.c, s.w, b.Fn
	writes := false
	for _, r := range rs {
		writes = writes || r.write
	}
	name := fmt.Sprintf("%s %s", fnName(g), in.Name())
	if kind {
		name += "[]"
	}
	if several(b, v) {
		bad := token.NoPos
		for _, r := range rs {
			if writes && !r.lock && (bad == token.NoPos || r.write) {
				bad = r.in.Pos()
			}
		}
		if writes || atomicUse(in, 0) {
			c.Check(bad == token.NoPos, "workers", name, w.Pos(bad), "%s, shared by all the copies of this background function started by %s, is used here without a lock although they write it", in.Name(), fnName(b.In))
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && p.Parent() == b.In {
		s.callersUse(b, p, in, kind, rs, name)
		return
	}
	cell, ok := v.(ssa.Instruction)
	if !ok || cell.Parent() != b.In {
		return
	}
	if p := paramCell(v); p != nil && kind {
		s.callersUse(b, p, in, kind, rs, name)
	}
	after := s.after(b, cell)
	own := only(s.reaches(b.In, v, m, false, map[ssa.Value]bool{}, 3), kind)
	bad := token.NoPos
	n := 0
	for _, o := range own {
		if o.in.Parent() != b.In || !after[o.in] {
			continue
		}
		for _, r := range rs {
			if (r.write || o.write) && !(r.lock && o.lock) {
				bad = o.in.Pos()
			}
		}
		n++
	}
	if writes || n > 0 {
		c.Check(bad == token.NoPos, "overlap", name+" in "+fnName(b.In), w.Pos(bad), "%s is used here while the background function started at %s may be using it, and one of them writes it", in.Name(), w.Pos(b.At.Pos()))
	}
}

// paramCell: the parameter a captured local variable holds.
func paramCell(v ssa.Value) *ssa.Parameter {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	p, _ := soleStored(a).(*ssa.Parameter)
	return p
}

// callersUse: after a call of a function that leaves background work behind, its caller uses what that work writes.
func (s *sharing) callersUse(b background, p *ssa.Parameter, in ssa.Value, kind bool, rs []reach, name string) {
	c, w := s.c, s.w
	running := false
	for i := range s.after(b, nil) {
		if _, ok := i.(*ssa.Return); ok {
			running = true
		}
	}
	if !running {
		return
	}
	calls, _ := w.allCalls(b.In)
	for _, k := range calls {
		a := argAt(k, paramAt(p))
		if a == nil {
			continue
		}
		var own []reach
		_, isMap := a.Type().Underlying().(*types.Map)
		if isMap != kind {
			continue
		}
		own = s.reaches(k.Parent(), a, isMap, false, map[ssa.Value]bool{}, 3)
		made, _ := a.(ssa.Instruction)
		later := laterThan(k, made)
		bad := token.NoPos
		for _, o := range own {
			if o.in.Parent() != k.Parent() || !later[o.in] || o.in == k.(ssa.Instruction) {
				continue
			}
			for _, r := range rs {
				if (r.write || o.write) && !(r.lock && o.lock) {
					bad = o.in.Pos()
				}
			}
		}
		c.Check(bad == token.NoPos, "overlap", name+" in "+fnName(k.Parent()), w.Pos(bad), "%s is used here while the background functions started by %s may be using it, and one of them writes it", in.Name(), fnName(b.In))
	}
}

// atomicUse: the variable is changed atomically.
func atomicUse(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 3 {
		return false
	}
	for _, u := range *v.Referrers() {
		switch k := u.(type) {
		case ssa.CallInstruction:
			if n := calleeName(k); strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
				return true
			}
		case *ssa.MakeClosure:
			for i, b := range k.Bindings {
				if b == v && atomicUse(k.Fn.(*ssa.Function).FreeVars[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

// signalsOf: the channels and wait groups that tell the background function is done, including those of functions that wait for it.
func (s *sharing) signalsOf(b background) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for g := range s.w.calledBy(b.Fn, 2) {
		for o := range s.signals[g] {
			r[o] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, o := range s.w.backgrounds(b.In) {
			if o.Fn == nil || o.At == b.At {
				continue
			}
			waits := false
			for _, g := range append([]*ssa.Function{o.Fn}, closuresOf(o.Fn)...) {
				Instrs(g, func(in ssa.Instruction) {
					for _, v := range waitedFor(in) {
						for x := range s.w.owners(v) {
							waits = waits || r[x]
						}
					}
				})
			}
			if waits {
				for x := range s.signals[o.Fn] {
					if !r[x] {
						r[x] = true
						changed = true
					}
				}
			}
		}
	}
	return r
}

func waitedFor(in ssa.Instruction) (r []ssa.Value) {
	switch x := in.(type) {
	case *ssa.Call:
		switch calleeName(x) {
		case "(*sync.WaitGroup).Wait", "(*golang.org/x/sync/errgroup.Group).Wait":
			r = append(r, x.Call.Args[0])
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			r = append(r, x.X)
		}
	}
	return
}

// after: the instructions of the starter that can run while the background function does, and before the variable is made anew.
func (s *sharing) after(b background, made ssa.Instruction) map[ssa.Instruction]bool {
	sig := s.signalsOf(b)
	joins := func(v ssa.Value) bool {
		for o := range s.w.owners(v) {
			if sig[o] {
				return true
			}
		}
		return false
	}
	r := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int)
	walk = func(bl *ssa.BasicBlock, from int) {
		for _, in := range bl.Instrs[from:] {
			if in == made {
				return // the next one
			}
			for _, v := range waitedFor(in) {
				if joins(v) {
					return
				}
			}
			r[in] = true
		}
		skip := -1
		if iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If); ok {
			if x, ok := iff.Cond.(*ssa.BinOp); ok && x.Op == token.EQL {
				if e, ok := x.X.(*ssa.Extract); ok && e.Index == 0 {
					if sel, ok := e.Tuple.(*ssa.Select); ok {
						if k, ok := x.Y.(*ssa.Const); ok {
							if i, ok := constant.Int64Val(k.Value); ok && int(i) < len(sel.States) && sel.States[i].Dir == types.RecvOnly && joins(sel.States[i].Chan) {
								skip = 0
							}
						}
					}
				}
			}
		}
		for i, n := range bl.Succs {
			if i != skip && !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}
	for i, in := range b.At.Block().Instrs {
		if in == b.At {
			walk(b.At.Block(), i+1)
		}
	}
	return r
}

// ---------------------------------------------------------------- records

// record: a pointer to a record of the model, or a list of them.
func record(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return record(x.Elem())
	case *types.Pointer:
		n, ok := x.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != Mod+"/model" {
			return false
		}
		_, isStruct := n.Underlying().(*types.Struct)
		return isStruct
	}
	return false
}

var bigWrites = map[string]bool{"Add": true, "Sub": true, "Mul": true, "Quo": true, "Div": true, "Set": true, "SetInt64": true, "SetString": true, "Neg": true, "Abs": true, "Exp": true, "Rem": true, "Mod": true, "SetUint64": true, "SetBit": true, "DivMod": true, "QuoRem": true}

// modifies finds what a function changes of a record it is given: "" for the record's own fields, the field's name for a map, list or number the record points to.
func (s *sharing) modifies(f *ssa.Function, v ssa.Value) map[string]ssa.Instruction {
	key := fmt.Sprintf("%s %s", f, v.Name())
	if r, ok := s.muts[key]; ok {
		return r
	}
	r := map[string]ssa.Instruction{}
	s.muts[key] = r
	seen := map[string]bool{}
	var walk func(v ssa.Value, label string, cell bool)
	note := func(label string, in ssa.Instruction) {
		if r[label] == nil {
			r[label] = in
		}
	}
	into := func(g *ssa.Function, p ssa.Value, label string) {
		for l, in := range s.modifies(g, p) {
			if label != "" {
				l = label
			}
			note(l, in)
		}
	}
	// cell: v is the address of a variable holding the record
	walk = func(v ssa.Value, label string, cell bool) {
		k := fmt.Sprintf("%p %s %v", v, label, cell)
		if seen[k] || v.Referrers() == nil {
			return
		}
		seen[k] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr:
				if x.X != v || cell {
					continue
				}
				field := label
				if field == "" {
					field = fieldAddrName(x)
				}
				for _, y := range *x.Referrers() {
					switch z := y.(type) {
					case *ssa.Store:
						if z.Addr == ssa.Value(x) {
							note(label, z)
						}
					case *ssa.UnOp:
						walk(z, field, false)
					case *ssa.FieldAddr, *ssa.IndexAddr:
						walk(z.(ssa.Value), field, false)
					}
				}
			case *ssa.IndexAddr:
				for _, y := range *x.Referrers() {
					switch z := y.(type) {
					case *ssa.Store:
						if z.Addr == ssa.Value(x) {
							note(label, z)
						}
					case *ssa.UnOp:
						walk(z, label, false)
					case *ssa.FieldAddr:
						walk(z, label, false)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if cell {
						walk(x, label, false)
					} else if _, ok := x.Type().Underlying().(*types.Struct); !ok {
						walk(x, label, false)
					}
				}
			case *ssa.Store:
				if x.Addr == v && !cell {
					note(label, x)
				}
				if x.Val == v {
					if a, ok := x.Addr.(*ssa.Alloc); ok {
						walk(a, label, true)
					}
				}
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
				walk(x.(ssa.Value), label, cell)
			case *ssa.MapUpdate:
				if x.Map == v {
					note(label, x)
				}
			case *ssa.Range:
				for _, y := range *x.Referrers() {
					if n, ok := y.(*ssa.Next); ok {
						for _, z := range *n.Referrers() {
							if e, ok := z.(*ssa.Extract); ok && e.Index == 2 {
								walk(e, label, false)
							}
						}
					}
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						g := x.Fn.(*ssa.Function)
						for l, in := range s.modifiesCell(g, g.FreeVars[i]) {
							if label != "" {
								l = label
							}
							note(l, in)
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if cell {
					continue
				}
				if g := cc.StaticCallee(); g != nil && strings.HasPrefix(g.String(), "(*math/big.Int).") {
					if bigWrites[g.Name()] && cc.Args[0] == v {
						note(label, x)
					}
					continue
				}
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "delete" || b.Name() == "clear" {
						note(label, x)
					}
					continue
				}
				for _, g := range s.w.StaticTargets(cc) {
					if g.Blocks == nil || !inModule(g) || isMock(g) {
						continue
					}
					for i := range g.Params {
						if argAt(x, i) == v {
							into(g, g.Params[i], label)
						}
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.FreeVar:
		_, ptr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer)
		_, sl := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
		walk(v, "", ptr || sl)
	default:
		walk(v, "", false)
	}
	return r
}

func (s *sharing) modifiesCell(f *ssa.Function, v *ssa.FreeVar) map[string]ssa.Instruction {
	if v.Type().Underlying() == nil {
		return nil
	}
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return nil
	}
	return s.modifies(f, v)
}

func (s *sharing) records(b background) {
	c, w := s.c, s.w
	g := b.Fn
	check := func(v ssa.Value, in ssa.Value) {
		m := s.modifies(g, in)
		name := fmt.Sprintf("%s %s", fnName(g), in.Name())
		after := s.after(b, nil)
		joined := true
		for i := range after {
			if _, ok := i.(*ssa.Return); ok {
				joined = false
			}
		}
		if joined {
			c.Ok("copies", name, w.Pos(b.At.Pos()))
			return
		}
		var labels []string
		for l := range m {
			labels = append(labels, l)
		}
		sort.Strings(labels)
		if len(labels) > 0 {
			why := s.notFresh(v, labels, map[ssa.Value]bool{}, 0)
			c.Check(why == "", "copies", name, w.Pos(b.At.Pos()), "the background function modifies %s (%s) although %s", in.Name(), w.Pos(m[labels[0]].Pos()), why)
			used := token.NoPos
			for _, u := range usesOf(v) {
				if after[u] {
					used = u.Pos()
					if used == token.NoPos {
						used = b.At.Pos()
					}
				}
			}
			c.Check(used == token.NoPos, "copies", name+" afterwards", w.Pos(used), "the copy made for the background function is used here by its starter as well")
			return
		}
		// only read there: nobody may modify it afterwards
		bad := token.NoPos
		for in := range s.modifiesAfter(b.In, v) {
			if after[in] {
				bad = in.Pos()
			}
		}
		if p, ok := v.(*ssa.Parameter); ok && bad == token.NoPos {
			calls, _ := w.allCalls(b.In)
			for _, k := range calls {
				a := argAt(k, paramAt(p))
				if a == nil {
					continue
				}
				later := laterThan(k, nil)
				for in := range s.modifiesAfter(k.Parent(), a) {
					if later[in] {
						bad = in.Pos()
					}
				}
			}
		}
		c.Check(bad == token.NoPos, "stable", name, w.Pos(bad), "%s is modified here after it was handed to the background function started at %s", in.Name(), w.Pos(b.At.Pos()))
	}
	for i, v := range b.Free {
		if i >= len(g.FreeVars) {
			continue
		}
		if a, ok := v.(*ssa.Alloc); ok {
			if t := elemType(a.Type()); t != nil && record(t) {
				for _, u := range *a.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
						check(st.Val, g.FreeVars[i])
					}
				}
			}
			continue
		}
		if record(v.Type()) {
			check(v, g.FreeVars[i])
		}
	}
	off := len(g.Params) - len(b.Args)
	for i, v := range b.Args {
		if off >= 0 && i+off < len(g.Params) && record(v.Type()) {
			check(v, g.Params[i+off])
		}
	}
}

// modifiesAfter: the instructions of f that change the record v, directly or by handing it to a function that does.
func (s *sharing) modifiesAfter(f *ssa.Function, v ssa.Value) map[ssa.Instruction]bool {
	r := map[ssa.Instruction]bool{}
	vals := []ssa.Value{v}
	if l, ok := v.(*ssa.UnOp); ok {
		if a, ok := l.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if o, ok := u.(*ssa.UnOp); ok {
					vals = append(vals, o)
				}
			}
		}
		if _, ok := l.X.(*ssa.FieldAddr); ok {
			Instrs(f, func(in ssa.Instruction) {
				if o, ok := in.(*ssa.UnOp); ok && o != l && pathOf(o, 0) == pathOf(l, 0) {
					vals = append(vals, o)
				}
			})
		}
	} else if v.Referrers() != nil {
		for _, u := range *v.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Val == v {
				if a, ok := st.Addr.(*ssa.Alloc); ok {
					for _, u := range *a.Referrers() {
						if o, ok := u.(*ssa.UnOp); ok {
							vals = append(vals, o)
						}
					}
				}
			}
		}
	}
	for _, v := range vals {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr:
				_, wr := accesses(x)
				for _, i := range wr {
					r[i] = true
				}
			case *ssa.Call:
				for _, g := range s.w.StaticTargets(&x.Call) {
					if g.Blocks == nil || !inModule(g) || isMock(g) {
						continue
					}
					for i := range g.Params {
						if argAt(x, i) == v && len(s.modifies(g, g.Params[i])) > 0 {
							r[x] = true
						}
					}
				}
			}
		}
	}
	return r
}

// laterThan: what may run after an instruction, up to where the value is made anew.
func laterThan(at, made ssa.Instruction) map[ssa.Instruction]bool {
	r := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, in := range b.Instrs[from:] {
			if in == made {
				return
			}
			r[in] = true
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}
	for i, in := range at.Block().Instrs {
		if in == at {
			walk(at.Block(), i+1)
		}
	}
	return r
}

// usesOf: the uses of a value, also through the local variable it is kept in.
func usesOf(v ssa.Value) (r []ssa.Instruction) {
	if v.Referrers() == nil {
		return
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, y := range *a.Referrers() {
					if l, ok := y.(*ssa.UnOp); ok {
						r = append(r, *l.Referrers()...)
					}
				}
				continue
			}
			r = append(r, x)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			r = append(r, x)
		default:
			r = append(r, u)
		}
	}
	return
}

// notFresh explains why a record, with what it points to under the labels, is not a copy of its own; "" if it is.
func (s *sharing) notFresh(v ssa.Value, labels []string, seen map[ssa.Value]bool, d int) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if d > 12 {
		return "where it comes from cannot be followed"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := s.notFresh(e, labels, seen, d+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		if k, ok := x.Tuple.(*ssa.Call); ok {
			return s.madeFresh(k, x.Index, labels, d)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				if w := s.notFresh(a, labels, seen, d+1); w != "" {
					return w
				}
			}
			return ""
		}
		return s.madeFresh(x, 0, labels, d)
	case *ssa.Slice:
		return s.notFresh(x.X, labels, seen, d+1)
	case *ssa.MakeSlice:
		return s.elements(x, labels, seen, d)
	case *ssa.Alloc:
		t := elemType(x.Type())
		if t != nil && record(types.NewPointer(t)) {
			return s.copyOf(x, labels)
		}
		if _, arr := t.Underlying().(*types.Array); arr {
			return s.elements(x, labels, seen, d)
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if w := s.notFresh(st.Val, labels, seen, d+1); w != "" {
						return w
					}
				}
			}
			return ""
		}
	}
	return "it was not copied for it"
}

func (s *sharing) elements(v ssa.Value, labels []string, seen map[ssa.Value]bool, d int) string {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.IndexAddr:
			for _, y := range *x.Referrers() {
				if st, ok := y.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					if w := s.notFresh(st.Val, labels, seen, d+1); w != "" {
						return w
					}
				}
			}
		case *ssa.Slice:
			if w := s.elements(x, labels, seen, d+1); w != "" {
				return w
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == v {
				return "only the list was copied, not its elements"
			}
		}
	}
	return ""
}

// madeFresh: the call gives a record of its own.
func (s *sharing) madeFresh(k *ssa.Call, i int, labels []string, d int) string {
	ts := s.w.StaticTargets(&k.Call)
	for _, g := range ts {
		if g.Blocks == nil || !inModule(g) || isMock(g) || inPkg(g, Mod+"/database") {
			continue
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				if w := s.notFresh(ret.Results[i], labels, map[ssa.Value]bool{}, d+1); w != "" {
					return w + " (" + fnName(g) + ")"
				}
			}
		}
	}
	return ""
}

// copyOf: a record that starts as a copy of another has its own maps, lists and numbers under the labels.
func (s *sharing) copyOf(a *ssa.Alloc, labels []string) string {
	var from ssa.Value
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			if l, ok := st.Val.(*ssa.UnOp); ok && l.Op == token.MUL {
				from = l.X
			}
		}
	}
	own := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Const, *ssa.Call:
			return true
		case *ssa.Slice:
			_, ok := x.X.(*ssa.Alloc)
			return ok
		}
		return false
	}
	for _, label := range labels {
		if label == "" {
			continue
		}
		isField := func(x ssa.Value) bool {
			fa, ok := x.(*ssa.FieldAddr)
			return ok && fieldAddrName(fa) == label && (fa.X == ssa.Value(a) || fa.X == from)
		}
		if from == nil {
			// built field by field
			for _, u := range *a.Referrers() {
				if fa, ok := u.(*ssa.FieldAddr); ok && fieldAddrName(fa) == label {
					for _, y := range *fa.Referrers() {
						if st, ok := y.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && !own(st.Val) {
							return "its " + label + " is shared"
						}
					}
				}
			}
			continue
		}
		reached := false
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(a) && fieldAddrName(fa) == label && own(x.Val) {
						return
					}
				case *ssa.Return:
					for _, r := range x.Results {
						reached = reached || r == ssa.Value(a)
					}
				case *ssa.Go:
					reached = true
				}
			}
			skip := -1
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if x, ok := iff.Cond.(*ssa.BinOp); ok {
					l, isLoad := x.X.(*ssa.UnOp)
					k, isConst := x.Y.(*ssa.Const)
					if isLoad && isConst && k.IsNil() && isField(l.X) {
						if x.Op == token.EQL {
							skip = 0
						} else if x.Op == token.NEQ {
							skip = 1
						}
					}
				}
			}
			for i, n := range b.Succs {
				if i != skip {
					walk(n)
				}
			}
		}
		walk(a.Block())
		if reached {
			return "the copy shares its " + label + " with the original"
		}
	}
	return ""
}
