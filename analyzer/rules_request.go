package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["X01"] = ruleX01 }

// requestScoped: objects net/http and gin recycle or close when a request ends.
var requestScoped = map[string]bool{
	"github.com/gin-gonic/gin.Context": true, "github.com/gin-gonic/gin.ResponseWriter": true,
	"net/http.Request": true, "net/http.ResponseWriter": true,
	"mime/multipart.File": true, "mime/multipart.Form": true, "mime/multipart.Reader": true,
}

func isCtx(t types.Type) bool { return t != nil && t.String() == "context.Context" }

// background is one place where work is started that goes on by itself.
type background struct {
	In   *ssa.Function
	At   ssa.Instruction
	Fn   *ssa.Function // nil if unknown
	Args []ssa.Value   // bound to the parameters
	Free []ssa.Value   // bound to the captured variables
}

// backgrounds lists the goroutines and timers of a function.
func (w *World) backgrounds(f *ssa.Function) (r []background) {
	add := func(b background, v ssa.Value) {
		fs := w.funcValues(v)
		for _, mc := range fs {
			b2 := b
			switch x := mc.(type) {
			case *ssa.MakeClosure:
				b2.Fn, b2.Free = x.Fn.(*ssa.Function), x.Bindings
			case *ssa.Function:
				b2.Fn = x
			}
			r = append(r, b2)
		}
		if len(fs) == 0 {
			r = append(r, b)
		}
	}
	Instrs(f, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			b := background{In: f, At: in, Args: g.Call.Args}
			if g.Call.IsInvoke() {
				b.Args = append([]ssa.Value{g.Call.Value}, g.Call.Args...)
				if ts := w.StaticTargets(&g.Call); len(ts) > 0 {
					b.Fn = ts[0]
				}
				r = append(r, b)
			} else {
				add(b, g.Call.Value)
			}
		}
		if ci, ok := in.(*ssa.Call); ok {
			if g := ci.Call.StaticCallee(); g != nil && g.String() == "time.AfterFunc" {
				b := background{In: f, At: in}
				add(b, ci.Call.Args[1])
			}
		}
	})
	return
}

// funcValues are the functions and closures a function value may be (nil if one is not known).
func (w *World) funcValues(v ssa.Value) (r []ssa.Value) {
	seen := map[ssa.Value]bool{}
	known := true
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeClosure, *ssa.Function:
			r = append(r, v)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Call:
			ts := w.StaticTargets(&x.Call)
			known = known && len(ts) > 0
			for _, t := range ts {
				if t.Blocks == nil || !w.InModule(t) {
					known = false
				}
				Instrs(t, func(in ssa.Instruction) {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
						rec(ret.Results[0])
					}
				})
			}
		case *ssa.Parameter:
			sites := w.callSites(x.Parent())
			if len(sites) == 0 {
				known = false
			}
			for i, p := range x.Parent().Params {
				for _, c := range sites {
					a := c.Common().Args
					if c.Common().IsInvoke() {
						a = append([]ssa.Value{nil}, a...)
					}
					if p == x && i < len(a) {
						rec(a[i])
					}
				}
			}
		default:
			known = false
		}
	}
	rec(v)
	if !known {
		return nil
	}
	return
}

// origins finds what a context or request-scoped object is derived from: "request", "detached", or neither.
type origins struct {
	w    *World
	seen map[ssa.Value]bool
	req  string // where a request-derived one comes from
	det  bool
}

func (w *World) originOf(v ssa.Value) *origins {
	o := &origins{w: w, seen: map[ssa.Value]bool{}}
	o.walk(v)
	return o
}

func (o *origins) walk(v ssa.Value) {
	if v == nil || o.seen[v] || o.req != "" {
		return
	}
	o.seen[v] = true
	w := o.w
	if requestScoped[typeName(v.Type())] {
		o.req = "a value of type " + typeName(v.Type())
		return
	}
	switch x := v.(type) {
	case *ssa.Call:
		o.call(&x.Call, 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			o.call(&c.Call, x.Index)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			o.walk(e)
		}
	case *ssa.MakeInterface:
		o.walk(x.X)
	case *ssa.ChangeInterface:
		o.walk(x.X)
	case *ssa.TypeAssert:
		o.walk(x.X)
	case *ssa.UnOp:
		o.loads(x.X)
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			o.walk(b)
			o.loads(b)
		}
	case *ssa.Parameter:
		f := x.Parent()
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, c := range w.callSites(f) {
				cc := c.Common()
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				if i < len(args) {
					o.walk(args[i])
				}
			}
		}
	}
}

// loads: what may be stored where the address points.
func (o *origins) loads(a ssa.Value) {
	switch x := a.(type) {
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				o.walk(s.Val)
			}
		}
	case *ssa.FreeVar:
		if o.seen[x] {
			return
		}
		o.seen[x] = true
		for _, b := range freeBindings(x) {
			o.loads(b)
		}
	case *ssa.FieldAddr:
		t, n := typeName(x.X.Type()), fieldName(x.X.Type(), x.Field)
		for _, f := range o.w.Funcs {
			Instrs(f, func(in ssa.Instruction) {
				s, ok := in.(*ssa.Store)
				if !ok || !isCtx(s.Val.Type()) {
					return
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == t && fieldName(fa.X.Type(), fa.Field) == n {
					o.walk(s.Val)
				}
			})
		}
	}
}

func (o *origins) call(cc *ssa.CallCommon, res int) {
	n := ""
	if cc.IsInvoke() {
		n = cc.Method.FullName()
	} else if g := cc.StaticCallee(); g != nil {
		n = g.String()
	}
	switch n {
	case "context.WithoutCancel", "context.Background", "context.TODO":
		o.det = true
		return
	case "(*net/http.Request).Context":
		o.req = "the context of a request"
		return
	}
	if g := cc.StaticCallee(); g != nil && o.w.InModule(g) && g.Blocks != nil {
		Instrs(g, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok && res < len(r.Results) {
				o.walk(r.Results[res])
			}
		})
		return
	}
	// derived from the first context it is given
	args := cc.Args
	if cc.IsInvoke() && isCtx(cc.Value.Type()) {
		o.walk(cc.Value)
		return
	}
	for _, a := range args {
		if isCtx(a.Type()) || requestScoped[typeName(a.Type())] {
			o.walk(a)
			return
		}
	}
}

func freeBindings(fv *ssa.FreeVar) (r []ssa.Value) {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if f.Parent() == nil {
		return nil
	}
	Instrs(f.Parent(), func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && idx < len(mc.Bindings) {
			r = append(r, mc.Bindings[idx])
		}
	})
	return
}

// ctxUse looks for a use of a context that depends on its being alive; "" if there is none.
func (w *World) ctxUse(v ssa.Value, seen map[ssa.Value]bool) (use ssa.Instruction) {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if use != nil {
			return use
		}
		switch x := r.(type) {
		case ssa.CallInstruction:
			cc := x.Common()
			n := ""
			if cc.IsInvoke() {
				n = cc.Method.FullName()
			} else if g := cc.StaticCallee(); g != nil {
				n = g.String()
			}
			switch {
			case n == "context.WithoutCancel", strings.HasSuffix(n, "trace.SpanFromContext"), n == "(context.Context).Value":
				continue
			case strings.HasSuffix(n, "trace.ContextWithSpan"), strings.HasSuffix(n, "trace.Tracer).Start"), strings.HasPrefix(n, "context.With"):
				if val, ok := x.(ssa.Value); ok {
					if isCtx(val.Type()) {
						use = w.ctxUse(val, seen)
					} else if val.Referrers() != nil {
						for _, e := range *val.Referrers() {
							if ex, ok := e.(*ssa.Extract); ok && isCtx(ex.Type()) && use == nil {
								use = w.ctxUse(ex, seen)
							}
						}
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil && w.InModule(g) && g.Blocks != nil && !cc.IsInvoke() {
				for i, a := range cc.Args {
					if a == v && i < len(g.Params) && use == nil && w.ctxUse(g.Params[i], seen) != nil {
						use = x
					}
				}
				continue
			}
			use = x
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				for _, l := range *al.Referrers() {
					if u, ok := l.(*ssa.UnOp); ok && use == nil {
						use = w.ctxUse(u, seen)
					}
					if mc, ok := l.(*ssa.MakeClosure); ok && use == nil {
						use = w.captured(mc, al, seen)
					}
				}
			} else if x.Val == v {
				use = x
			}
		case *ssa.MakeClosure:
			use = w.captured(x, v, seen)
		case *ssa.UnOp: // a captured cell is read
			use = w.ctxUse(x, seen)
		case *ssa.Phi:
			use = w.ctxUse(x, seen)
		case *ssa.ChangeInterface:
			use = w.ctxUse(x, seen)
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			use = w.ctxUse(x, seen)
		default:
			use = r
		}
	}
	return use
}

func (w *World) captured(mc *ssa.MakeClosure, v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	for i, b := range mc.Bindings {
		if b == v {
			if u := w.ctxUse(mc.Fn.(*ssa.Function).FreeVars[i], seen); u != nil {
				return u
			}
		}
	}
	return nil
}

// started: the arguments functions are started in the background with through a function value.
func (w *World) started() map[*ssa.Function][][]ssa.Value {
	if w.startedArgs == nil {
		w.startedArgs = map[*ssa.Function][][]ssa.Value{}
		for _, f := range w.Funcs {
			for _, b := range w.backgrounds(f) {
				if b.Fn != nil && len(b.Args) > 0 {
					g := unwrap(b.Fn)
					w.startedArgs[g] = append(w.startedArgs[g], b.Args)
				}
			}
		}
	}
	return w.startedArgs
}

// owners are the places where a channel or wait group that is used comes from.
func (w *World) owners(v ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeChan, *ssa.Global:
			r[v] = true
		case *ssa.Alloc:
			if _, isCh := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Chan); !isCh {
				r[v] = true
				return
			}
			for _, s := range *x.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == x {
					rec(st.Val)
				}
			}
		case *ssa.UnOp:
			rec(x.X)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.FieldAddr:
			rec(x.X)
		case *ssa.FreeVar:
			for _, b := range freeBindings(x) {
				rec(b)
			}
		case *ssa.Parameter:
			for i, p := range x.Parent().Params {
				if p == x {
					for _, c := range w.callSites(x.Parent()) {
						if a := c.Common().Args; i < len(a) && !c.Common().IsInvoke() {
							rec(a[i])
						}
					}
					for _, a := range w.started()[x.Parent()] {
						if j := i - (len(x.Parent().Params) - len(a)); j >= 0 && j < len(a) {
							rec(a[j])
						}
					}
				}
			}
		}
	}
	rec(v)
	return r
}

// joins collects what is signalled (Done, send, close) and what is waited for (Wait, receive) in the module.
func (w *World) joins() (signals map[*ssa.Function]map[ssa.Value]bool, waits map[ssa.Value][]*ssa.Function) {
	signals, waits = map[*ssa.Function]map[ssa.Value]bool{}, map[ssa.Value][]*ssa.Function{}
	sig := func(f *ssa.Function, v ssa.Value) {
		if signals[f] == nil {
			signals[f] = map[ssa.Value]bool{}
		}
		for o := range w.owners(v) {
			signals[f][o] = true
		}
	}
	wait := func(f *ssa.Function, v ssa.Value) {
		for o := range w.owners(v) {
			waits[o] = append(waits[o], f)
		}
	}
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
					sig(f, cc.Args[0])
				}
				if g := cc.StaticCallee(); g != nil {
					switch g.String() {
					case "(*sync.WaitGroup).Done":
						sig(f, cc.Args[0])
					case "(*sync.WaitGroup).Wait":
						wait(f, cc.Args[0])
					}
				}
			case *ssa.Send:
				sig(f, x.Chan)
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					wait(f, x.X)
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
					wait(f, x.X)
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.RecvOnly {
						wait(f, s.Chan)
					} else {
						sig(f, s.Chan)
					}
				}
			}
		})
	}
	return
}

func ruleX01(c *Ctx) {
	w := c.W
	c.Rule("goroutine", "a goroutine or timer that is not waited for uses no context that is cancelled, and no object that is recycled or closed, when a request ends")
	c.Rule("stored", "no request-scoped object is kept in shared state")
	signals, waits := w.joins()
	n, joined := 0, 0
	for _, f := range w.Funcs {
		if isMock(f) || f.Blocks == nil {
			continue
		}
		for _, b := range w.backgrounds(f) {
			n++
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			name := fnName(top)
			where := w.Pos(b.At.Pos())
			if b.Fn == nil {
				c.Check(false, "goroutine", name+" unresolved", where, "the function started here is not known")
				continue
			}
			// waited for: it signals something that is waited for by code that is not itself background work of no one
			isJoined := false
			bodies := w.calledBy(b.Fn, 3)
			for g := range bodies {
				for o := range signals[g] {
					for _, wf := range waits[o] {
						if !bodies[wf] && ownedBy(o, top, w) {
							isJoined = true
						}
					}
				}
			}
			if isJoined {
				joined++
				c.Ok("goroutine", name, where)
				continue
			}
			bad := ""
			check := func(inner ssa.Value, outer ssa.Value) {
				t := inner.Type()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					if _, isFree := inner.(*ssa.FreeVar); isFree && (isCtx(p.Elem()) || requestScoped[typeName(p.Elem())]) {
						t = p.Elem() // captured by reference
					}
				}
				switch {
				case requestScoped[typeName(t)]:
					if inner.Referrers() == nil || len(*inner.Referrers()) == 0 {
						return
					}
					if copied(outer) {
						// a copy of the gin context may be kept, but not the request in it
						for _, r := range *inner.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Request" {
								bad = "the request of a copied gin context"
							}
						}
						return
					}
					bad = "a captured " + typeName(t)
				case isCtx(t):
					if w.ctxUse(inner, map[ssa.Value]bool{}) == nil {
						return
					}
					o := &origins{w: w, seen: map[ssa.Value]bool{}}
					o.walk(outer)
					o.loads(outer)
					if o.req != "" {
						bad = "a context derived from " + o.req
					}
				}
			}
			for i, p := range b.Fn.Params {
				if i < len(b.Args) {
					check(p, b.Args[i])
				}
			}
			for i, fv := range b.Fn.FreeVars {
				if i < len(b.Free) {
					check(fv, b.Free[i])
				}
			}
			c.Check(bad == "", "goroutine", name, where, "work that goes on after the response uses %s", bad)
		}
		// shared state
		Instrs(f, func(in ssa.Instruction) {
			var val ssa.Value
			where := ""
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.Global:
					val, where = x.Val, "a package variable"
				case *ssa.FieldAddr:
					if _, local := a.X.(*ssa.Alloc); !local {
						val, where = x.Val, "a field"
					}
				}
			case *ssa.Send:
				val, where = x.X, "a channel"
			case *ssa.MapUpdate:
				val, where = x.Value, "a map"
			}
			if val == nil {
				return
			}
			if mi, ok := val.(*ssa.MakeInterface); ok {
				val = mi.X
			}
			if !requestScoped[typeName(val.Type())] {
				return
			}
			if fa, ok := in.(*ssa.Store); ok {
				if a, ok := fa.Addr.(*ssa.FieldAddr); ok && requestScoped[typeName(a.X.Type())] {
					return // within the request itself
				}
			}
			c.Check(false, "stored", fnName(f), w.Pos(in.Pos()), "a %s is kept in %s", typeName(val.Type()), where)
		})
	}
	c.Ok("stored", "module", "")
	// the contexts given to the ledger by handlers are recognised as the request's
	seen := 0
	for _, f := range w.Funcs {
		if inPkg(f, Mod) && f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() && !isMock(f) {
			for _, p := range f.Params {
				if isCtx(p.Type()) && w.originOf(p).req != "" {
					seen++
					break
				}
			}
		}
	}
	c.Check(seen >= 40, "goroutine", "request contexts recognised", "", "only %d ledger methods are seen to be given a request's context", seen)
	c.Check(n >= 25 && joined >= 8, "goroutine", "goroutines recognised", "", "%d goroutines, %d waited for", n, joined)
	c.Floor("goroutine", 27)
}

// closuresOf: the function literals inside a function.
func closuresOf(f *ssa.Function) (r []*ssa.Function) {
	for _, g := range f.AnonFuncs {
		r = append(r, g)
		r = append(r, closuresOf(g)...)
	}
	return
}

// ownedBy: the channel or wait group belongs to a call of the function (or of one of its callers), not to the process.
func ownedBy(o ssa.Value, top *ssa.Function, w *World) bool {
	if _, glob := o.(*ssa.Global); glob || o.Parent() == nil {
		return false
	}
	f := o.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f == top || w.ReachableFrom(f)[top]
}

// calledBy: a function, its literals and what it calls directly, to a depth.
func (w *World) calledBy(f *ssa.Function, depth int) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function, d int)
	rec = func(g *ssa.Function, d int) {
		if g == nil || r[g] || g.Blocks == nil {
			return
		}
		r[g] = true
		for _, a := range g.AnonFuncs {
			rec(a, d)
		}
		if d == 0 {
			return
		}
		Instrs(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, isGo := in.(*ssa.Go); isGo {
					return
				}
				if h := ci.Common().StaticCallee(); h != nil && (w.InModule(h) || h.Synthetic != "") {
					rec(unwrap(h), d-1)
				}
			}
		})
	}
	rec(f, depth)
	return r
}

func copied(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if g := c.Call.StaticCallee(); g != nil {
			return g.String() == "(*github.com/gin-gonic/gin.Context).Copy"
		}
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al && !copied(s.Val) {
				return false
			}
		}
		return true
	}
	return false
}
