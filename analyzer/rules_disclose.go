package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["S06"] = ruleS06 }

var ginWriters = map[string]bool{"JSON": true, "AbortWithStatusJSON": true, "IndentedJSON": true, "PureJSON": true, "SecureJSON": true, "AsciiJSON": true, "JSONP": true, "XML": true, "YAML": true, "String": true, "Data": true, "AbortWithError": true, "Error": true, "Render": true}

// ginWriter: the method of the HTTP context that writes a response, and the status if it is a constant.
func ginWriter(k ssa.CallInstruction) (m string, status int64) {
	n := calleeName(k)
	p := "(*" + ginPkg + ".Context)."
	if !strings.HasPrefix(n, p) || !ginWriters[n[len(p):]] {
		return "", 0
	}
	status = -1
	if as := k.Common().Args; len(as) > 1 {
		if s, ok := constInt(as[1]); ok {
			status = s
		}
	}
	return n[len(p):], status
}

func apiFn(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && strings.HasPrefix(p.Path(), Mod+"/api") && !isMock(f)
}

type disclosure struct {
	c        *Ctx
	w        *World
	io       map[*ssa.Function]bool
	status   map[string]string // code -> HTTP status
	seen     map[string]bool
	raw      map[*ssa.Function]*rawPath
	fields   map[string][]*ssa.Store
	nSinks   int
	nTexts   int
	nDetails int
	rule     string
}

// rawPath: a classifier that passes the text of an error it could not classify, under a code and unless a message its callers choose.
type rawPath struct{ code, message string }

func ruleS06(c *Ctx) {
	w := c.W
	c.Rule("text", "the text of an error produced by work that reaches the database, the cache, a queue, the network or a file is put in a response only after the error was recognised (errors.Is, errors.As, the message table)")
	c.Rule("default", "a handler that lets the classifier answer unrecognised errors with a server error of its own choice gives it a fixed message to answer with")
	c.Rule("object", "no error value is put in a response to be serialised: not as a value, not as the details of an API error")
	c.Rule("sink", "the responses of the API are found")
	c.Rule("typed", "an error that carries a server-error code of its own carries a message that is not the text of a failure of work that reaches the database, the cache, a queue, the network or a file")
	c.Floor("typed", 40)
	c.Floor("text", 20)
	c.Floor("default", 20)
	c.Floor("object", 4)
	c.Floor("sink", 5)
	d := &disclosure{c: c, w: w, rule: "text", seen: map[string]bool{}, raw: map[*ssa.Function]*rawPath{}}
	d.io = w.Reaches(func(f *ssa.Function) bool {
		hit := false
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok || hit {
				return
			}
			n := calleeName(k)
			if k.Common().IsInvoke() {
				n = k.Common().Method.FullName()
			}
			for _, p := range []string{"database/sql", "github.com/redis", "github.com/hibiken/asynq", "github.com/typesense", "net/http.Client)", "os.", "github.com/aws", "net.Dial"} {
				if strings.Contains(n, p) && !strings.HasPrefix(n, "os.Getenv") {
					hit = true
				}
			}
		})
		return hit
	})
	if m := w.Func("internal/apierror.StatusForCode"); m != nil {
		Instrs(m, func(in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok {
				if u, ok := l.X.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						d.status = w.globalMap(g)
					}
				}
			}
		})
	}
	c.Check(len(d.status) > 20, "sink", "statuses", "", "the table of HTTP statuses of the error codes was not found")
	for _, f := range w.Funcs {
		if !apiFn(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			m, status := ginWriter(k)
			if m == "" || status >= 200 && status < 300 {
				return
			}
			c.Ok("sink", fnName(f)+"|"+m+"|"+strconv.FormatInt(status, 10), w.Pos(k.Pos()))
			for _, a := range k.Common().Args[1:] {
				d.body(a, k, f, 0)
			}
		})
	}
	d.defaults()
	d.typed()
}

// typed: the errors with a code of their own, which the classifier answers with their message.
func (d *disclosure) typed() {
	w := d.w
	for _, f := range w.Funcs {
		if apiFn(f) || isMock(f) {
			continue
		}
		nth := map[string]int{}
		server := func(v ssa.Value) bool {
			cs, ok := v.(*ssa.Const)
			if !ok || cs.Value == nil {
				return true
			}
			st, ok := d.status[unq(cs.Value.ExactString())]
			return !ok || st >= "500"
		}
		note := func(code, msg ssa.Value, in ssa.Instruction) {
			if _, isP := code.(*ssa.Parameter); isP || !server(code) { // a constructor: its calls are examined
				return
			}
			if _, isC := msg.(*ssa.Const); isC {
				nth["fixed"]++
				d.c.Ok("typed", fnName(f)+"|fixed#"+strconv.Itoa(nth["fixed"]), w.Pos(in.Pos()))
				return
			}
			d.rule = "typed"
			before := len(d.seen)
			d.text(msg, nil, nil, f, 0)
			d.rule = "text"
			if len(d.seen) > before {
				nth["text"]++
				d.c.Ok("typed", fnName(f)+"|text#"+strconv.Itoa(nth["text"]), w.Pos(in.Pos()))
			}
		}
		Instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || !w.InModule(g) {
					return
				}
				res := g.Signature.Results()
				if res.Len() != 1 || typeName(res.At(0).Type()) != "internal/apierror.APIError" {
					return
				}
				var code, msg ssa.Value
				for _, a := range x.Common().Args {
					if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						if strings.HasSuffix(typeName(a.Type()), "apierror.ErrorCode") {
							code = a
						} else {
							msg = a
						}
					}
				}
				if code != nil && msg != nil {
					note(code, msg, in)
				}
			case *ssa.Alloc:
				if pt, ok := x.Type().(*types.Pointer); !ok || typeName(pt.Elem()) != "internal/apierror.APIError" {
					return
				}
				var code, msg ssa.Value
				for _, r := range *x.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, r := range *fa.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
								switch fieldName(x.Type(), fa.Field) {
								case "Code":
									code = s.Val
								case "Message":
									msg = s.Val
								}
							}
						}
					}
				}
				if code != nil && msg != nil {
					note(code, msg, in)
				}
			}
		})
	}
}

// body: what a response is made of.
func (d *disclosure) body(v ssa.Value, k ssa.CallInstruction, f *ssa.Function, depth int) {
	if depth > 6 {
		return
	}
	w := d.w
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if d.errorType(x.X.Type()) {
			d.c.Check(false, "object", fnName(f)+"|"+typeName(x.X.Type()), w.Pos(k.Pos()), "an error value is serialised into the response")
			return
		}
		d.body(x.X, k, f, depth+1)
	case *ssa.ChangeType:
		d.body(x.X, k, f, depth+1)
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == x {
				d.body(u.Value, k, f, depth+1)
			}
		}
		for _, r := range *x.Referrers() {
			if t, ok := r.(*ssa.ChangeType); ok {
				for _, r := range *t.Referrers() {
					if u, ok := r.(*ssa.MapUpdate); ok {
						d.body(u.Value, k, f, depth+1)
					}
				}
			}
		}
	default:
		if typeName(v.Type()) == "internal/apierror.APIError" {
			d.apiError(v, k, f)
			return
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			d.text(v, nil, k, f, 0)
			return
		}
		if _, ok := v.Type().Underlying().(*types.Interface); ok {
			d.c.Check(d.notErr(v, k.Block(), 0), "object", fnName(f)+"|value", w.Pos(k.Pos()), "a value that may be an error is serialised into the response")
		}
		if d.errorType(v.Type()) {
			d.c.Check(false, "object", fnName(f)+"|error", w.Pos(k.Pos()), "an error is passed to the response")
		}
	}
}

func (d *disclosure) errorType(t types.Type) bool {
	if typeName(t) == "internal/apierror.APIError" {
		return false
	}
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e)
}

// apiError: the details and the message of an API error put in a response.
func (d *disclosure) apiError(v ssa.Value, k ssa.CallInstruction, f *ssa.Function) {
	w := d.w
	name := fnName(f)
	switch x := v.(type) {
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			ok, msg := d.allocDetails(al, x)
			d.c.Check(ok, "object", name+"|details", w.Pos(k.Pos()), "the details of the API error in the response may be the error behind the failure, which is serialised with its fields")
			for _, m := range msg {
				d.text(m, nil, k, f, 0)
			}
			return
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok { // the error of an envelope
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						if call, ok := s.Val.(*ssa.Call); ok {
							d.made(call, k, f)
							return
						}
					}
				}
			}
		}
	case *ssa.Field:
		if call, ok := x.X.(*ssa.Call); ok {
			d.made(call, k, f)
			return
		}
	case *ssa.Call:
		d.made(x, k, f)
		return
	}
	d.c.Check(false, "object", name+"|details", w.Pos(k.Pos()), "the response contains an API error whose details are not known to be free of the error behind the failure")
}

// made: an API error built by a constructor from the arguments.
func (d *disclosure) made(call *ssa.Call, k ssa.CallInstruction, f *ssa.Function) {
	for _, a := range call.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Interface); ok {
			d.c.Check(d.notErr(a, call.Block(), 0), "object", fnName(f)+"|details", d.w.Pos(call.Pos()), "the details of the API error in the response may be the error behind the failure, which is serialised with its fields")
		} else if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !strings.HasSuffix(typeName(a.Type()), "ErrorCode") {
			d.text(a, nil, k, f, 0)
		}
	}
}

// allocDetails: the Details field of a variable, as it is when the variable is read.
func (d *disclosure) allocDetails(al *ssa.Alloc, at ssa.Instruction) (ok bool, msgs []ssa.Value) {
	var whole []*ssa.Store
	var set *ssa.Store
	n := 0
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al {
				whole = append(whole, x)
			}
		case *ssa.FieldAddr:
			for _, r := range *x.Referrers() {
				if s, isS := r.(*ssa.Store); isS && s.Addr == x {
					switch fieldName(al.Type(), x.Field) {
					case "Details":
						n++
						set = s
					case "Message":
						msgs = append(msgs, s.Val)
					}
				}
			}
		}
	}
	if n == 1 && set.Block().Dominates(at.Block()) {
		return d.notErr(set.Val, set.Block(), 0), msgs
	}
	if n == 0 && len(whole) == 0 {
		for _, r := range *al.Referrers() { // filled elsewhere
			switch r.(type) {
			case ssa.CallInstruction, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Phi:
				return false, msgs
			}
		}
		return true, msgs
	}
	if n == 0 && len(whole) == 1 {
		if call, isC := whole[0].Val.(*ssa.Call); isC {
			for _, a := range call.Common().Args {
				if _, isI := a.Type().Underlying().(*types.Interface); isI && !d.notErr(a, call.Block(), 0) {
					return false, msgs
				}
			}
			return true, msgs
		}
	}
	return false, msgs
}

// notErr: the interface value is not an error.
func (d *disclosure) notErr(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 10 {
		return false
	}
	if d.errGuard(v, at) {
		d.spill(v, map[ssa.Value]bool{})
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		if d.errorType(x.X.Type()) || typeName(x.X.Type()) == "internal/apierror.APIError" {
			return false
		}
		d.content(x.X, x, depth+1)
		return true
	case *ssa.ChangeInterface:
		return d.notErr(x.X, at, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !d.notErr(e, x.Block().Preds[i], depth+1) && !d.errGuardEdge(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := d.w.callSites(x.Parent())
		if len(sites) == 0 {
			return false
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, s := range sites {
				if a := s.Common().Args; i < len(a) && !d.notErr(a[i], s.Block(), depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			if al, ok := b.(*ssa.Alloc); ok {
				if !d.stored(al, depth) {
					return false
				}
			} else if !d.notErr(b, nil, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !d.w.InModule(g) || g.Blocks == nil {
			return false
		}
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !d.notErrIn(ret.Results[0], b, x, depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return d.stored(a, depth)
		case *ssa.FreeVar:
			return d.notErr(a, nil, depth+1)
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok && fieldName(a.X.Type(), a.Field) == "Details" {
				r, _ := d.allocDetails(al, x)
				return r
			}
			t := a.X.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); !ok || n.Obj().Exported() {
				return false
			}
			for _, s := range d.storesTo(typeName(t) + "." + fieldName(a.X.Type(), a.Field)) {
				if !d.notErr(s.Val, s.Block(), depth+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// spill: the texts in the values an interface value may hold.
func (d *disclosure) spill(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if !d.errorType(x.X.Type()) {
			d.content(x.X, x, 0)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.spill(e, seen)
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, s := range d.w.callSites(x.Parent()) {
				if a := s.Common().Args; i < len(a) && !isMock(s.Parent()) {
					d.spill(a[i], seen)
				}
			}
		}
	}
}

// content: the texts in a value put in a response.
func (d *disclosure) content(v ssa.Value, at ssa.Instruction, depth int) {
	switch x := v.(type) {
	case *ssa.MakeMap:
		for _, r := range *x.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == x {
				switch t := u.Value.(type) {
				case *ssa.MakeInterface:
					if d.errorType(t.X.Type()) {
						d.c.Check(false, "object", fnName(at.Parent())+"|entry", d.w.Pos(u.Pos()), "an error is part of the details of a response")
					} else if depth < 10 {
						d.content(t.X, at, depth+1)
					}
				case *ssa.ChangeInterface:
					if isErr(t.X.Type()) {
						d.c.Check(false, "object", fnName(at.Parent())+"|entry", d.w.Pos(u.Pos()), "an error is part of the details of a response")
					}
				default:
					d.content(u.Value, at, depth+1)
				}
			}
		}
	case *ssa.ChangeType:
		d.content(x.X, at, depth+1)
	default:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			d.text(v, nil, nil, at.Parent(), 0)
		}
	}
}

// notErrIn: a result of a function, given what it was called with.
func (d *disclosure) notErrIn(v ssa.Value, b *ssa.BasicBlock, call *ssa.Call, depth int) bool {
	if p, ok := v.(*ssa.Parameter); ok && !d.errGuard(v, b) {
		for i, q := range p.Parent().Params {
			if p == q && i < len(call.Common().Args) {
				return d.notErr(call.Common().Args[i], call.Block(), depth)
			}
		}
	}
	return d.notErr(v, b, depth)
}

func (d *disclosure) stored(al *ssa.Alloc, depth int) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al && !d.notErr(s.Val, s.Block(), depth+1) {
			return false
		}
	}
	return true
}

func (d *disclosure) storesTo(name string) []*ssa.Store {
	if d.fields == nil {
		d.fields = map[string][]*ssa.Store{}
		for _, f := range d.w.Funcs {
			Instrs(f, func(in ssa.Instruction) {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						u := fa.X.Type()
						if pt, ok := u.Underlying().(*types.Pointer); ok {
							u = pt.Elem()
						}
						n := typeName(u) + "." + fieldName(fa.X.Type(), fa.Field)
						d.fields[n] = append(d.fields[n], s)
					}
				}
			})
		}
	}
	return d.fields[name]
}

// errGuard: the block is reached only when the value was found not to be an error.
func (d *disclosure) errGuard(v ssa.Value, at *ssa.BasicBlock) bool {
	if at == nil || at.Parent() != v.Parent() {
		return false
	}
	return unreachableWithout(at, func(b *ssa.BasicBlock, iff *ssa.If) (bool, bool) { return d.assertion(iff.Cond, v) })
}

func (d *disclosure) errGuardEdge(v ssa.Value, from, to *ssa.BasicBlock) bool {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	t, e := d.assertion(iff.Cond, v)
	return t && from.Succs[0] == to || e && from.Succs[1] == to
}

func (d *disclosure) assertion(cond, v ssa.Value) (whenTrue, whenFalse bool) {
	x, ok := cond.(*ssa.Extract)
	if !ok || x.Index != 1 {
		return
	}
	ta, ok := x.Tuple.(*ssa.TypeAssert)
	if !ok || !sameText(ta.X, v, 0) {
		return
	}
	if isErr(ta.AssertedType) {
		return false, true
	}
	return !d.errorType(ta.AssertedType) && !types.IsInterface(ta.AssertedType), false
}

// unreachableWithout: the block cannot be reached without taking an edge the test marks.
func unreachableWithout(at *ssa.BasicBlock, mark func(b *ssa.BasicBlock, iff *ssa.If) (whenTrue, whenFalse bool)) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock)
	reach = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		t, e := false, false
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			t, e = mark(b, iff)
		}
		for i, s := range b.Succs {
			if i == 0 && t || i == 1 && e {
				continue
			}
			reach(s)
		}
	}
	reach(at.Parent().Blocks[0])
	return !seen[at]
}

// text follows a text of the response back to the errors it is the text of. site is the last call it was passed through.
func (d *disclosure) text(v ssa.Value, site ssa.CallInstruction, sink ssa.CallInstruction, f *ssa.Function, depth int) {
	if v == nil || depth > 25 {
		return
	}
	key := v.Name() + "@" + f.String()
	if site != nil {
		key += d.w.Pos(site.Pos())
	}
	if d.seen[key] {
		return
	}
	d.seen[key] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		d.text(x.X, site, sink, f, depth+1)
		d.text(x.Y, site, sink, f, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.text(e, site, sink, f, depth+1)
		}
	case *ssa.Convert:
		d.text(x.X, site, sink, f, depth+1)
	case *ssa.ChangeType:
		d.text(x.X, site, sink, f, depth+1)
	case *ssa.MakeInterface:
		if d.errorType(x.X.Type()) { // formatted
			d.failure(x.X, x, site, sink, f)
			return
		}
		d.text(x.X, site, sink, f, depth+1)
	case *ssa.ChangeInterface:
		if isErr(x.X.Type()) {
			d.failure(x.X, x, site, sink, f)
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			d.callText(call, x.Index, site, sink, f, depth)
		}
	case *ssa.Call:
		d.callText(x, 0, site, sink, f, depth)
	case *ssa.Slice:
		for _, e := range variadicElems(x) {
			d.text(e, site, sink, f, depth+1)
		}
		if _, ok := x.X.(*ssa.Alloc); !ok {
			d.text(x.X, site, sink, f, depth+1)
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, s := range d.w.callSites(x.Parent()) {
				if a := s.Common().Args; i < len(a) && !isMock(s.Parent()) {
					d.text(a[i], s, sink, s.Parent(), depth+1)
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			if b.Parent() != nil {
				d.text(b, site, sink, b.Parent(), depth+1)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					d.text(s.Val, site, sink, f, depth+1)
				}
			}
		case *ssa.FieldAddr:
			t := a.X.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			if al, ok := a.X.(*ssa.Alloc); ok { // a local object
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == a.Field {
						for _, r := range *fa.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
								d.text(s.Val, site, sink, f, depth+1)
							}
						}
					}
				}
				return
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() { // the options of a response
				for _, s := range d.storesTo(typeName(t) + "." + fieldName(a.X.Type(), a.Field)) {
					d.text(s.Val, site, sink, s.Parent(), depth+1)
				}
			}
		}
	}
}

func (d *disclosure) callText(x *ssa.Call, res int, site ssa.CallInstruction, sink ssa.CallInstruction, f *ssa.Function, depth int) {
	cc := x.Common()
	if cc.IsInvoke() && cc.Method.Name() == "Error" && isErr(cc.Value.Type()) {
		d.failure(cc.Value, x, site, sink, f)
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		return
	}
	if d.w.InModule(g) && g.Blocks != nil && apiFn(g) {
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && res < len(ret.Results) {
				d.text(ret.Results[res], site, sink, g, depth+1)
			}
		}
		for _, a := range cc.Args {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				d.text(a, site, sink, f, depth+1)
			}
		}
		return
	}
	n := fnName(g)
	if strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "strings.") {
		for _, a := range cc.Args {
			d.text(a, site, sink, f, depth+1)
		}
	}
	if strings.HasSuffix(n, ").Error") && len(cc.Args) == 1 && d.errorType(cc.Args[0].Type()) {
		d.failure(cc.Args[0], x, site, sink, f)
	}
}

// recognised: the condition tells what the error is.
func (d *disclosure) recognised(cond ssa.Value, e ssa.Value) (whenTrue, whenFalse bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, f := d.recognised(x.X, e)
			return f, t
		}
	case *ssa.Call:
		if n := calleeName(x); (n == "errors.Is" || n == "errors.As") && len(x.Common().Args) == 2 && sameText(x.Common().Args[0], e, 0) {
			return true, false
		}
		return d.classified(x, e), false
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok && x.Index > 0 {
			return d.classified(call, e), false
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && sameText(ta.X, e, 0) {
			return true, false
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for i, a := range []ssa.Value{x.X, x.Y} {
				b := []ssa.Value{x.Y, x.X}[i]
				if u, ok := b.(*ssa.UnOp); ok && sameText(a, e, 0) {
					if _, ok := u.X.(*ssa.Global); ok {
						return x.Op == token.EQL, x.Op == token.NEQ
					}
				}
			}
		}
	}
	return
}

// classified: a module function that was asked about the error or its text, through a table of what is known.
func (d *disclosure) classified(call *ssa.Call, e ssa.Value) bool {
	g := call.Common().StaticCallee()
	if g == nil || !d.w.InModule(g) || d.io[g] {
		return false
	}
	for _, a := range call.Common().Args {
		if isErr(a.Type()) && sameText(a, e, 0) {
			return true
		}
		if t, ok := a.(*ssa.Call); ok && t.Common().IsInvoke() && t.Common().Method.Name() == "Error" && sameText(t.Common().Value, e, 0) {
			return true
		}
	}
	return false
}

// failure: the text of an error is put in a response.
func (d *disclosure) failure(e ssa.Value, at ssa.Instruction, site, sink ssa.CallInstruction, f *ssa.Function) {
	w := d.w
	g := at.Parent()
	where := w.Pos(at.Pos())
	if at.Pos() == token.NoPos && site != nil {
		where = w.Pos(site.Pos())
	}
	blk := at.Block()
	guard := func(b *ssa.BasicBlock, e ssa.Value) bool {
		return unreachableWithout(b, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) { return d.recognised(iff.Cond, e) })
	}
	name := fnName(g)
	if guard(blk, e) {
		d.c.Ok(d.rule, name+"|recognised", where)
		return
	}
	if p, ok := e.(*ssa.Parameter); ok && d.classifier(p.Parent()) && site != nil {
		// the classifier itself: under a code and a message its callers choose
		code, msg := d.optionsOf(site, at)
		if code != "" && msg != "" {
			d.raw[g] = &rawPath{code, msg}
			d.c.Ok(d.rule, name+"|default", where)
			return
		}
		d.c.Check(false, d.rule, name+"|unclassified", where, "the text of an error that was not recognised is put in the response")
		return
	}
	why := d.internal(e, blk, map[ssa.Value]bool{}, guard)
	d.c.Check(why == "", d.rule, name+"|"+why, where, "the text of an internal failure (%s) is put in the response without the failure having been recognised", why)
}

// classifier: a function that answers a request with what an error turns out to be.
func (d *disclosure) classifier(f *ssa.Function) bool {
	if !apiFn(f) {
		return false
	}
	ctx, err, opts := false, false, false
	for _, p := range f.Params {
		ctx = ctx || isGinCtx(p.Type())
		err = err || isErr(p.Type())
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			_, fn := s.Elem().Underlying().(*types.Signature)
			opts = opts || fn
		}
	}
	return ctx && err && opts
}

// optionsOf: the fields of the caller's options that give the code the text is answered with, and the message instead of it.
func (d *disclosure) optionsOf(site ssa.CallInstruction, at ssa.Instruction) (code, msg string) {
	optField := func(v ssa.Value) string {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return ""
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return ""
		}
		t := fa.X.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return typeName(t) + "." + fieldName(fa.X.Type(), fa.Field)
	}
	var phis func(v ssa.Value, d int)
	phis = func(v ssa.Value, d int) {
		if p, ok := v.(*ssa.Phi); ok && d < 4 {
			for _, e := range p.Edges {
				if n := optField(e); n != "" {
					msg = n
				}
				phis(e, d+1)
			}
		}
	}
	for _, a := range site.Common().Args {
		if strings.HasSuffix(typeName(a.Type()), "apierror.ErrorCode") {
			code = optField(a)
		}
		phis(a, 0)
	}
	// the text is what remains if there is no message
	if msg != "" {
		ok := false
		Instrs(at.Parent(), func(in ssa.Instruction) {
			if iff, isIf := in.(*ssa.If); isIf {
				if b, isB := iff.Cond.(*ssa.BinOp); isB && optField(b.X) == msg {
					ok = true
				}
			}
		})
		if !ok {
			msg = ""
		}
	}
	if code != "" && msg == "" { // taken apart by control flow
		Instrs(at.Parent(), func(in ssa.Instruction) {
			if iff, isIf := in.(*ssa.If); isIf {
				if b, isB := iff.Cond.(*ssa.BinOp); isB {
					if n := optField(b.X); n != "" && n != code {
						if (b.Op == token.EQL && iff.Block().Succs[0].Dominates(at.Block()) || b.Op == token.NEQ && iff.Block().Succs[1].Dominates(at.Block())) && emptyConst(b.Y) {
							msg = n
						}
					}
				}
			}
		})
	}
	return
}

func emptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == `""`
}

// internal: the work the error may come from that reaches something clients are not to hear of; "" if none.
func (d *disclosure) internal(e ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool, guard func(*ssa.BasicBlock, ssa.Value) bool) string {
	if seen[e] {
		return ""
	}
	seen[e] = true
	w := d.w
	switch x := e.(type) {
	case *ssa.Const:
		return ""
	case *ssa.MakeInterface:
		return d.internal(x.X, at, seen, guard)
	case *ssa.ChangeInterface:
		return d.internal(x.X, at, seen, guard)
	case *ssa.TypeAssert:
		return d.internal(x.X, at, seen, guard)
	case *ssa.Phi:
		for _, v := range x.Edges {
			if r := d.internal(v, at, seen, guard); r != "" {
				return r
			}
		}
		return ""
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return d.internal(t.X, at, seen, guard)
		case *ssa.TypeAssert:
			return d.internal(t.X, at, seen, guard)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				return d.internal(rg.X, at, seen, guard)
			}
		}
		return d.internal(x.Tuple, at, seen, guard)
	case *ssa.Lookup:
		return d.internal(x.X, at, seen, guard)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return ""
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if y := d.internal(s.Val, at, seen, guard); y != "" {
						return y
					}
				}
				if mi, ok := r.(*ssa.MakeInterface); ok { // the target of errors.As
					for _, r := range *mi.Referrers() {
						if k, ok := r.(*ssa.Call); ok && calleeName(k) == "errors.As" {
							if y := d.internal(k.Common().Args[0], at, seen, guard); y != "" {
								return y
							}
						}
					}
				}
			}
			return ""
		case *ssa.IndexAddr:
			return d.internal(a.X, at, seen, guard)
		case *ssa.FieldAddr:
			t := a.X.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
			for _, s := range d.storesTo(typeName(t) + "." + fieldName(a.X.Type(), a.Field)) {
				if y := d.internal(s.Val, s.Block(), seen, guard); y != "" {
					return y
				}
			}
			return ""
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, s := range w.callSites(x.Parent()) {
				if a := s.Common().Args; i < len(a) && !isMock(s.Parent()) && !guard(s.Block(), a[i]) {
					if y := d.internal(a[i], s.Block(), seen, guard); y != "" {
						return y
					}
				}
			}
		}
		return ""
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			if y := d.internal(b, at, seen, guard); y != "" {
				return y
			}
		}
		return ""
	case *ssa.Alloc:
		return ""
	case *ssa.Call:
		cc := x.Common()
		targets := w.StaticTargets(cc)
		for _, g := range targets {
			if w.InModule(g) {
				if d.io[g] && !isMock(g) {
					return fnName(g)
				}
				continue
			}
			n := fnName(g)
			if n == "fmt.Errorf" {
				for _, a := range cc.Args[1:] {
					for _, v := range variadicElems(a) {
						if mi, ok := v.(*ssa.MakeInterface); ok {
							v = mi.X
						}
						if ci, ok := v.(*ssa.ChangeInterface); ok {
							v = ci.X
						}
						if isErr(v.Type()) {
							if y := d.internal(v, at, seen, guard); y != "" {
								return y
							}
						}
					}
				}
				continue
			}
			ok := false
			for _, p := range []string{"errors.", "strconv.", "time.", "net/url.", "encoding/", "(*encoding/", "(*" + ginPkg + ".Context).", "github.com/go-ozzo/", "(github.com/go-ozzo/", "math/big", "(*math/big", "io.", "regexp."} {
				ok = ok || strings.HasPrefix(n, p)
			}
			if !ok {
				return n
			}
		}
		if len(targets) == 0 && cc.IsInvoke() && !strings.Contains(cc.Method.FullName(), "ozzo") {
			return cc.Method.FullName()
		}
		return ""
	}
	return ""
}

// defaults: what the handlers choose for errors that are not recognised.
func (d *disclosure) defaults() {
	w := d.w
	for _, g := range sortedFns(fnSet(d.raw)) {
		rp := d.raw[g]
		setBy := func(v ssa.Value) (field string, arg ssa.Value) { // option constructor: a closure that sets a field to an argument
			call, ok := v.(*ssa.Call)
			if !ok {
				return
			}
			h := call.Common().StaticCallee()
			if h == nil {
				return
			}
			for _, cl := range closuresOf(h) {
				Instrs(cl, func(in ssa.Instruction) {
					s, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok {
						return
					}
					t := fa.X.Type()
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						t = pt.Elem()
					}
					n := typeName(t) + "." + fieldName(fa.X.Type(), fa.Field)
					if n == rp.code || n == rp.message {
						field = n
						if len(call.Common().Args) == 1 {
							arg = call.Common().Args[0]
						}
					}
				})
			}
			return
		}
		nth := map[string]int{}
		for _, s := range w.callSites(g) {
			f := s.Parent()
			if isMock(f) {
				continue
			}
			as := s.Common().Args
			var code, msg ssa.Value
			unknown := false
			last := as[len(as)-1]
			els := variadicElems(last)
			if _, isC := last.(*ssa.Const); !isC && len(els) == 0 {
				unknown = true
			}
			for _, e := range els {
				for {
					if ct, ok := e.(*ssa.ChangeType); ok {
						e = ct.X
						continue
					}
					break
				}
				switch n, a := setBy(e); n {
				case rp.code:
					code = a
				case rp.message:
					msg = a
				}
			}
			name := fnName(f)
			nth[name]++
			if nth[name] > 1 {
				name += "#" + strconv.Itoa(nth[name])
			}
			where := w.Pos(s.Pos())
			if unknown {
				d.c.Check(false, "default", name, where, "the options given to the classifier are not known")
				continue
			}
			if code == nil {
				d.c.Ok("default", name, where)
				continue
			}
			st := "500"
			if cs, ok := code.(*ssa.Const); ok && cs.Value != nil {
				if x, ok := d.status[unq(cs.Value.ExactString())]; ok {
					st = x
				}
			}
			mc, isC := msg.(*ssa.Const)
			fixedMsg := msg != nil && isC && mc.Value != nil && mc.Value.ExactString() != `""`
			d.c.Check(st < "500" || fixedMsg, "default", name, where, "an error that is not recognised is answered with a server error (%s) and its own text", st)
		}
	}
	d.c.Check(len(d.raw) > 0, "default", "classifier", "", "the classifier of errors was not found")
}

func fnSet[V any](m map[*ssa.Function]V) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range m {
		r[f] = true
	}
	return r
}
