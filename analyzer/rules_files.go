package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["R03"] = ruleR03 }

// ruleR03 goes through everything an upload of external data runs: the functions of the import package and the closures in them.
func ruleR03(c *Ctx) {
	c.Rule("failures", "Whatever fails while a file is read, parsed or stored is returned, or sent to or put into the collected errors, on every path; only the end of the input is no failure.")
	c.Rule("records", "Every record read, received or parsed is handed on, put into a batch or stored, and every batch is stored before it is reused or given up.")
	c.Rule("whole", "A batch is stored from its first to its last record.")
	c.Rule("collected", "A channel of errors is received from, to its end, by code that runs while the senders do, and is closed only after all of them are done.")
	c.Rule("outcome", "Once the work is waited for, success is reported only if no error was collected and the upload was not cancelled.")
	c.Rule("stops", "Reading ends at an input that cannot be read on, and a worker goes on receiving until there are no more records or the upload is cancelled.")
	c.Rule("ends", "A list in JSON counts as read only after its end, and the end of the input, were read.")
	c.Rule("size", "An input is not cut off at a size without an error.")
	for r, n := range map[string]int{"failures": 15, "records": 5, "whole": 1, "collected": 1, "outcome": 2, "stops": 2, "ends": 2, "size": 2} {
		c.Floor(r, n)
	}
	w := c.W
	root := w.Func("internal/files.UploadExternalData")
	if root == nil {
		panic("anchor internal/files.UploadExternalData not found")
	}
	q := &ingest{c: c, w: w, in: map[*ssa.Function]bool{}, tell: map[*ssa.Parameter]int{}}
	q.add(root)
	for _, f := range w.Funcs {
		if q.in[f] {
			c.Saw(fnName(f))
			q.function(f)
		}
	}
	q.sizes(root)
}

type ingest struct {
	c    *Ctx
	w    *World
	in   map[*ssa.Function]bool
	tell map[*ssa.Parameter]int
}

func (q *ingest) add(f *ssa.Function) {
	if f == nil || f.Blocks == nil || q.in[f] || !inPkg(f, Mod+"/internal/files") {
		return
	}
	q.in[f] = true
	for _, a := range f.AnonFuncs {
		q.add(a)
	}
	Instrs(f, func(in ssa.Instruction) {
		for _, g := range q.w.callees(in) {
			q.add(g)
		}
	})
}

const extTxn = Mod + "/model.ExternalTransaction"

func isError(t types.Type) bool { return t != nil && t.String() == "error" }

func isExtTxn(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.String() == extTxn
}

// isStore: a call of the function that stores one record.
func isStoreCall(k ssa.CallInstruction) ssa.Value {
	if k.Common().IsInvoke() || k.Common().StaticCallee() != nil {
		return nil
	}
	for _, a := range k.Common().Args {
		if isExtTxn(a.Type()) {
			return a
		}
	}
	return nil
}

// errOf is the error a call results in.
func errOf(k *ssa.Call) (errs []ssa.Value, has bool) {
	res := k.Common().Signature().Results()
	i := ErrIndex(k.Common().Signature())
	if i < 0 {
		return nil, false
	}
	if res.Len() == 1 {
		return []ssa.Value{k}, true
	}
	for _, r := range *k.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			errs = append(errs, e)
		}
	}
	return errs, true
}

func makesError(k ssa.CallInstruction) bool {
	n := calleeName(k)
	return strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "errors.")
}

// aliases are the values that are the error itself.
func aliases(vs []ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if r[v] {
			return
		}
		r[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.ChangeInterface:
				add(x)
			case *ssa.MakeInterface:
				add(x)
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, l := range *al.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && ld.Op == token.MUL {
							add(ld)
						}
					}
				}
			}
		}
	}
	for _, v := range vs {
		add(v)
	}
	return r
}

// made: the value is the error, or an error newly made.
func made(v ssa.Value, al map[ssa.Value]bool, pred, at *ssa.BasicBlock, d int) bool {
	if al[v] {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		return makesError(x) && calleeName(x) != "errors.Unwrap"
	case *ssa.Extract:
		return false
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return made(x.X, al, pred, at, d+1)
	case *ssa.UnOp:
		_, g := x.X.(*ssa.Global)
		return g && x.Op == token.MUL
	case *ssa.Phi:
		for i, e := range x.Edges {
			if x.Block() == at && pred != nil && x.Block().Preds[i] != pred {
				continue
			}
			if !made(e, al, pred, at, d+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

func errSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isError(s.Elem())
}

// isEOF: the value is io.EOF.
func isEOF(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, ok := u.X.(*ssa.Global)
		return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF"
	}
	return false
}

// which edge of a branch an assumption takes: 0, 1, or -1 for both.
type assume func(cond ssa.Value) int

func onCond(cond ssa.Value, f func(b ssa.Value) (want, known bool)) int {
	neg := false
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, neg = u.X, !neg
	}
	want, known := f(cond)
	if !known {
		return -1
	}
	if want != neg {
		return 0
	}
	return 1
}

// failed assumes the error is not nil (and not the end of the input, where that is no failure).
func failed(al map[ssa.Value]bool, eof bool) assume {
	return func(cond ssa.Value) int {
		return onCond(cond, func(b ssa.Value) (bool, bool) {
			switch x := b.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ {
					return false, false
				}
				l, r := x.X, x.Y
				if !al[l] {
					l, r = r, l
				}
				if !al[l] {
					return false, false
				}
				if k, ok := r.(*ssa.Const); ok && k.IsNil() {
					return x.Op == token.NEQ, true
				}
				if isEOF(r) && eof {
					return x.Op == token.NEQ, true
				}
			case *ssa.Call:
				if eof && calleeName(x) == "errors.Is" && al[x.Call.Args[0]] && isEOF(x.Call.Args[1]) {
					return false, true
				}
			}
			return false, false
		})
	}
}

// told: the instruction passes the error on.
func (q *ingest) told(in ssa.Instruction, al map[ssa.Value]bool, pred *ssa.BasicBlock) bool {
	is := func(v ssa.Value) bool { return made(v, al, pred, in.Block(), 0) }
	switch x := in.(type) {
	case *ssa.Send:
		return isError(x.X.Type()) && is(x.X)
	case *ssa.Select:
		if !x.Blocking {
			return false
		}
		for _, s := range x.States {
			if s.Dir == types.SendOnly && isError(s.Send.Type()) && is(s.Send) {
				return true
			}
		}
	case *ssa.Store:
		ia, ok := x.Addr.(*ssa.IndexAddr)
		return ok && isError(x.Val.Type()) && is(x.Val) && errArray(ia.X.Type())
	case *ssa.Call:
		for _, g := range q.w.callees(x) {
			if !q.in[g] {
				continue
			}
			for i, p := range g.Params {
				if isError(p.Type()) {
					if a := argAt(x, i); a != nil && is(a) && q.tells(p) {
						return true
					}
				}
			}
		}
	}
	return false
}

func errArray(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			return isError(a.Elem())
		}
	}
	return errSlice(t)
}

// tells: the function passes the error it is given on.
func (q *ingest) tells(p *ssa.Parameter) bool {
	if v, ok := q.tell[p]; ok {
		return v == 1
	}
	q.tell[p] = 0
	al := aliases([]ssa.Value{p})
	if bad, _ := q.lost(p.Parent().Blocks[0], 0, nil, al, failed(al, false)); bad == "" {
		q.tell[p] = 1
	}
	return q.tell[p] == 1
}

// lost looks for a path on which the error is not passed on.
func (q *ingest) lost(b *ssa.BasicBlock, from int, source ssa.Instruction, al map[ssa.Value]bool, as assume) (string, token.Pos) {
	type node struct{ b, pred *ssa.BasicBlock }
	seen := map[node]bool{}
	var rec func(b, pred *ssa.BasicBlock, from int) (string, token.Pos)
	rec = func(b, pred *ssa.BasicBlock, from int) (string, token.Pos) {
		if from == 0 {
			if seen[node{b, pred}] {
				return "", token.NoPos
			}
			seen[node{b, pred}] = true
		}
		for _, in := range b.Instrs[from:] {
			if in == source {
				return "goes on without passing it on", in.Pos()
			}
			if q.told(in, al, pred) {
				return "", token.NoPos
			}
			switch x := in.(type) {
			case *ssa.Return:
				i := ErrIndex(b.Parent().Signature)
				if i >= 0 && made(x.Results[i], al, pred, b, 0) {
					return "", token.NoPos
				}
				return "ends without passing it on", x.Pos()
			case *ssa.If:
				e := as(x.Cond)
				for i, s := range b.Succs {
					if e < 0 || e == i {
						if bad, pos := rec(s, b, 0); bad != "" {
							return bad, pos
						}
					}
				}
				return "", token.NoPos
			}
		}
		for _, s := range b.Succs {
			if bad, pos := rec(s, b, 0); bad != "" {
				return bad, pos
			}
		}
		return "", token.NoPos
	}
	return rec(b, nil, from)
}

func indexIn(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return 0
}

const decoderTok = "(*encoding/json.Decoder).Token"

// tokensBefore: the tokens certainly read before this call.
func (q *ingest) tokensBefore(k ssa.Instruction, d int) (n int) {
	Instrs(k.Parent(), func(in ssa.Instruction) {
		if o, ok := in.(*ssa.Call); ok && in != k && q.token(o) && before(in, k) {
			n++
		}
	})
	sites := q.w.callSites(k.Parent())
	if len(sites) == 0 || d > 3 {
		return n
	}
	least := -1
	for _, s := range sites {
		if m := q.tokensBefore(s, d+1); least < 0 || m < least {
			least = m
		}
	}
	return n + least
}

// token: the call reads a token, or always ends up reading one unless it fails.
func (q *ingest) token(k *ssa.Call) bool {
	if calleeName(k) == decoderTok {
		return true
	}
	for _, g := range q.w.callees(k) {
		if !q.in[g] || g.Signature.Results().Len() == 0 || isStoreCall(k) != nil {
			return false
		}
		has := false
		r := q.succeeds(g.Blocks[0], 0, nil, func(in ssa.Instruction) bool {
			o, ok := in.(*ssa.Call)
			if ok && calleeName(o) == decoderTok {
				has = true
				return true
			}
			return false
		})
		return has && r == nil
	}
	return false
}

// harmless: an operation that gives up something no longer needed.
func givesUp(n string) bool {
	return n == "(*os.File).Close" || n == "os.Remove" || strings.HasSuffix(n, ".Close")
}

func (q *ingest) function(f *ssa.Function) {
	c, w := q.c, q.w
	n := map[string]int{}
	name := func(what string) string {
		n[what]++
		if n[what] > 1 {
			return fnName(f) + " " + what + " " + itoa(n[what])
		}
		return fnName(f) + " " + what
	}
	Instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Defer, *ssa.Go:
			return
		case *ssa.Call:
			q.call(f, x, name)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				q.received(x, name)
			}
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.RecvOnly && recordType(s.Chan.Type().Underlying().(*types.Chan).Elem()) {
					c.Fail("records", name("selects"), w.Pos(x.Pos()), "a record is received in a select: this is not understood")
				}
			}
		case *ssa.If:
			e := cancelled(x.Cond)
			if e < 0 || ErrIndex(f.Signature) < 0 {
				return
			}
			if r := q.succeeds(x.Block().Succs[e], 0, nil, func(in ssa.Instruction) bool {
				return q.told(in, ctxErrs(f), nil)
			}); r != nil {
				c.Fail("outcome", name("cancelled"), w.Pos(x.Cond.Pos()), "success is reported although the upload was cancelled before everything was stored (%s)", retPos(w, r))
			} else {
				c.Ok("outcome", name("cancelled"), w.Pos(x.Cond.Pos()))
			}
		case *ssa.MakeChan:
			if isError(x.Type().Underlying().(*types.Chan).Elem()) {
				q.collected(f, x, name("error channel"))
			}
		}
	})
}

// ctxErrs are the errors of contexts asked for in the function.
func ctxErrs(f *ssa.Function) map[ssa.Value]bool {
	var vs []ssa.Value
	Instrs(f, func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok && isCtxErr(v) {
			vs = append(vs, v)
		}
	})
	return aliases(vs)
}

func recordType(t types.Type) bool {
	if isExtTxn(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && (isString(s.Elem()) || isExtTxn(s.Elem()))
}

func (q *ingest) call(f *ssa.Function, x *ssa.Call, name func(string) string) {
	c, w := q.c, q.w
	callee := calleeName(x)
	if x.Call.IsInvoke() {
		callee = x.Call.Method.FullName()
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if s, ok := x.Type().Underlying().(*types.Slice); ok && b.Name() == "append" && isExtTxn(s.Elem()) {
			q.keep(x, map[ssa.Value]bool{x: true}, nil, name("batch"))
		}
		return
	}
	if a := isStoreCall(x); a != nil {
		callee = "store"
		q.whole(f, x, a, name)
	}
	es, has := errOf(x)
	if !has || makesError(x) || givesUp(callee) || callee == "(context.Context).Err" && !q.waits(f) {
		return
	}
	if callee == "(context.Context).Err" {
		return
	}
	label := name(callee)
	eof := callee == "(*encoding/csv.Reader).Read" || callee == "(*os.File).Read" || callee == "(io.Reader).Read" || callee == decoderTok && q.tokensBefore(x, 0) >= 2
	al := aliases(es)
	bad, pos := "is dropped", x.Pos()
	if len(es) > 0 {
		bad, pos = q.lost(x.Block(), indexIn(x)+1, x, al, failed(al, eof))
	}
	c.Check(bad == "", "failures", label, w.Pos(x.Pos()), "its failure is lost: the path to %s %s", w.Pos(pos), bad)
	// what a success yields
	good := passedOn(al)
	switch {
	case callee == "(*encoding/csv.Reader).Read":
		q.stopsOn(x, al, label)
		if loopAround(x.Block()) != nil {
			q.keep(x, extracts(x, 0), good, label)
		}
	case callee == "(*encoding/json.Decoder).Decode":
		v := x.Call.Args[1]
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
		}
		c.Check(recordType(v.Type()) || ptrToRecords(v.Type()), "records", label+" target", w.Pos(x.Pos()), "what is decoded is not a record")
		q.keep(x, map[ssa.Value]bool{v: true}, good, label)
	case callee == decoderTok && q.tokensBefore(x, 0) >= 2:
		// the end of the input: anything else is a failure
		b := q.succeeds(x.Block(), indexIn(x)+1, good, nil)
		c.Check(b == nil, "ends", label, w.Pos(x.Pos()), "success is reported although there is more input after the list")
	case callee == "(*encoding/json.Decoder).More":
	default:
		if q.yields(x) {
			q.keep(x, extracts(x, 0), good, label)
		}
	}
}

func ptrToRecords(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && recordType(p.Elem())
}

func (q *ingest) yields(x *ssa.Call) bool {
	res := x.Call.Signature().Results()
	if res.Len() != 2 {
		return false
	}
	t := res.At(0).Type()
	s, ok := t.Underlying().(*types.Slice)
	return isExtTxn(t) || ok && isExtTxn(s.Elem())
}

func extracts(x ssa.Value, i int) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	for _, u := range *x.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == i {
			r[e] = true
		}
	}
	return r
}

// passedOn assumes the error is nil.
func passedOn(al map[ssa.Value]bool) assume {
	return func(cond ssa.Value) int {
		return onCond(cond, func(b ssa.Value) (bool, bool) {
			switch x := b.(type) {
			case *ssa.BinOp:
				l, r := x.X, x.Y
				if !al[l] {
					l, r = r, l
				}
				if !al[l] || x.Op != token.EQL && x.Op != token.NEQ {
					return false, false
				}
				if k, ok := r.(*ssa.Const); ok && k.IsNil() {
					return x.Op == token.EQL, true
				}
				if isEOF(r) {
					return x.Op == token.NEQ, true
				}
			case *ssa.Call:
				if n := calleeName(x); (n == "errors.Is" || n == "errors.As") && al[x.Call.Args[0]] {
					return false, true
				}
			}
			return false, false
		})
	}
}

// succeeds finds a return of success (an error result that is nil, or no such result) under the assumption; stop ends a path.
func (q *ingest) succeeds(b *ssa.BasicBlock, from int, as assume, stop func(ssa.Instruction) bool) *ssa.Return {
	type node struct{ b, pred *ssa.BasicBlock }
	seen := map[node]bool{}
	var rec func(b, pred *ssa.BasicBlock, from int) *ssa.Return
	rec = func(b, pred *ssa.BasicBlock, from int) *ssa.Return {
		if from == 0 {
			if seen[node{b, pred}] {
				return nil
			}
			seen[node{b, pred}] = true
		}
		for _, in := range b.Instrs[from:] {
			if stop != nil && stop(in) {
				return nil
			}
			switch x := in.(type) {
			case *ssa.Return:
				i := ErrIndex(b.Parent().Signature)
				if i < 0 || !made(x.Results[i], nil, pred, b, 0) && !isCtxErr(x.Results[i]) {
					return x
				}
				return nil
			case *ssa.If:
				e := -1
				if as != nil {
					e = as(x.Cond)
				}
				for i, s := range b.Succs {
					if e < 0 || e == i {
						if r := rec(s, b, 0); r != nil {
							return r
						}
					}
				}
				return nil
			}
		}
		for _, s := range b.Succs {
			if r := rec(s, b, 0); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(b, nil, from)
}

func isCtxErr(v ssa.Value) bool {
	k, ok := v.(*ssa.Call)
	return ok && k.Call.IsInvoke() && k.Call.Method.FullName() == "(context.Context).Err"
}

// cancelIndex: the states of a select that receive from a context's Done.
func cancelIndex(s *ssa.Select) map[int64]bool {
	r := map[int64]bool{}
	for i, st := range s.States {
		if k, ok := st.Chan.(*ssa.Call); ok && st.Dir == types.RecvOnly && k.Call.IsInvoke() && k.Call.Method.FullName() == "(context.Context).Done" {
			r[int64(i)] = true
		}
	}
	return r
}

// cancelled tells which edge of a branch is taken when the context is done: 0, 1, or -1.
func cancelled(cond ssa.Value) int {
	return onCond(cond, func(b ssa.Value) (bool, bool) {
		x, ok := b.(*ssa.BinOp)
		if !ok || x.Op != token.EQL && x.Op != token.NEQ {
			return false, false
		}
		if e, ok := x.X.(*ssa.Extract); ok && e.Index == 0 {
			if s, ok := e.Tuple.(*ssa.Select); ok {
				if k, ok := x.Y.(*ssa.Const); ok {
					if n, ok := constant.Int64Val(k.Value); ok && cancelIndex(s)[n] {
						return x.Op == token.EQL, true
					}
				}
			}
		}
		if k, ok := x.X.(*ssa.Call); ok && k.Call.IsInvoke() && k.Call.Method.FullName() == "(context.Context).Err" {
			if z, ok := x.Y.(*ssa.Const); ok && z.IsNil() {
				return x.Op == token.NEQ, true
			}
		}
		return false, false
	})
}

// keep follows what was read or put together until it is handed on; no path may drop it, unless the upload fails or is cancelled.
func (q *ingest) keep(source ssa.Instruction, start map[ssa.Value]bool, as assume, label string) {
	c, w := q.c, q.w
	type node struct {
		b, pred *ssa.BasicBlock
		set     string
	}
	seen := map[node]bool{}
	ids := map[ssa.Value]int{}
	key := func(m map[ssa.Value]bool) string {
		bits := make([]byte, 0, 16)
		for v := range m {
			if ids[v] == 0 {
				ids[v] = len(ids) + 1
			}
		}
		for i := 0; i <= len(ids); i++ {
			bits = append(bits, '0')
		}
		for v := range m {
			bits[ids[v]] = '1'
		}
		return string(bits)
	}
	noErr := func(f *ssa.Function) bool { return ErrIndex(f.Signature) < 0 }
	var rec func(b, pred *ssa.BasicBlock, from int, set map[ssa.Value]bool) (string, token.Pos)
	rec = func(b, pred *ssa.BasicBlock, from int, set map[ssa.Value]bool) (string, token.Pos) {
		cur := map[ssa.Value]bool{}
		for v := range set {
			cur[v] = true
		}
		if from == 0 {
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range p.Edges {
					if b.Preds[i] == pred {
						if set[e] {
							cur[p] = true
						} else {
							delete(cur, p)
						}
					}
				}
			}
			k := node{b, pred, key(cur)}
			if seen[k] {
				return "", token.NoPos
			}
			seen[k] = true
		}
		for _, in := range b.Instrs[from:] {
			uses := false
			for _, op := range in.Operands(nil) {
				if *op != nil && cur[*op] {
					uses = true
				}
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Send:
				if cur[x.X] {
					return "", token.NoPos
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly && cur[s.Send] && x.Blocking {
						return "", token.NoPos
					}
				}
			case *ssa.Store:
				if cur[x.Val] {
					a := x.Addr
					for {
						cur[a] = true
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
						} else if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
						} else {
							break
						}
					}
					uses = false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if uses {
							return "", token.NoPos
						}
					case "copy":
						if cur[x.Call.Args[1]] {
							cur[x.Call.Args[0]] = true
						}
					}
					break
				}
				if uses && (isStoreCall(x) != nil || q.passes(x, cur)) {
					return "", token.NoPos
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if cur[r] {
						return "", token.NoPos
					}
				}
				i := ErrIndex(b.Parent().Signature)
				if i >= 0 && !onlyNil(x.Results[i], pred, b) {
					return "", token.NoPos
				}
				return "ends without it being stored or handed on", x.Pos()
			case *ssa.If:
				e := -1
				if as != nil {
					e = as(x.Cond)
				}
				if n := holdsSome(x.Cond, cur); n >= 0 {
					e = n
				}
				cn := cancelled(x.Cond)
				for i, s := range b.Succs {
					if e >= 0 && e != i || cn == i && noErr(b.Parent()) {
						continue
					}
					if bad, pos := rec(s, b, 0, cur); bad != "" {
						return bad, pos
					}
				}
				return "", token.NoPos
			}
			if v, ok := in.(ssa.Value); ok {
				if in == source {
					return "goes on to the next one although this one was neither stored nor handed on", in.Pos()
				}
				carries := false
				switch x := in.(type) {
				case *ssa.Slice:
					carries = cur[x.X] && !isZero(x.High)
				case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
					carries = uses
				case *ssa.UnOp:
					carries = uses && x.Op == token.MUL
				case *ssa.Extract:
					carries = cur[x]
				case *ssa.Alloc, *ssa.MakeSlice:
					carries = false
				default:
					carries = false
				}
				if carries {
					cur[v] = true
				} else if _, ok := in.(*ssa.Extract); !ok {
					delete(cur, v)
				}
			}
		}
		for _, s := range b.Succs {
			if bad, pos := rec(s, b, 0, cur); bad != "" {
				return bad, pos
			}
		}
		return "", token.NoPos
	}
	bad, pos := rec(source.Block(), nil, indexIn(source)+1, start)
	c.Check(bad == "", "records", label, w.Pos(source.Pos()), "what it yields can be dropped: the path to %s %s", w.Pos(pos), bad)
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && constant.Sign(k.Value) == 0
}

func onlyNil(v ssa.Value, pred, at *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for i, e := range x.Edges {
			if x.Block() == at && pred != nil && at.Preds[i] != pred {
				continue
			}
			if !onlyNil(e, pred, at) {
				return false
			}
		}
		return true
	}
	return false
}

// holdsSome: the edge taken when the carried list is not empty.
func holdsSome(cond ssa.Value, cur map[ssa.Value]bool) int {
	return lenCond(cond, func(v ssa.Value) bool { return cur[v] })
}

func lenCond(cond ssa.Value, is func(ssa.Value) bool) int {
	return onCond(cond, func(b ssa.Value) (bool, bool) {
		x, ok := b.(*ssa.BinOp)
		if !ok {
			return false, false
		}
		l, r, op := x.X, x.Y, x.Op
		if _, ok := l.(*ssa.Const); ok {
			l, r, op = r, l, swapOp(op)
		}
		k, ok := l.(*ssa.Call)
		if !ok {
			return false, false
		}
		if bi, ok := k.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !is(k.Call.Args[0]) {
			return false, false
		}
		z, ok := r.(*ssa.Const)
		if !ok || z.Value == nil {
			return false, false
		}
		n, _ := constant.Int64Val(z.Value)
		switch {
		case op == token.GTR && n == 0, op == token.NEQ && n == 0, op == token.GEQ && n == 1:
			return true, true
		case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
			return false, true
		}
		return false, false
	})
}

// passes: the call hands what is carried to a function of the import that is held to these rules.
func (q *ingest) passes(x *ssa.Call, cur map[ssa.Value]bool) bool {
	for _, g := range q.w.callees(x) {
		if !q.in[g] {
			continue
		}
		for i, p := range g.Params {
			if a := argAt(x, i); a != nil && cur[a] && (recordType(p.Type()) || ptrToRecords(p.Type())) {
				return q.yields(x) || q.stores(g, p, 0)
			}
		}
	}
	return false
}

// stores: the function stores (or hands on) what it is given.
func (q *ingest) stores(g *ssa.Function, p *ssa.Parameter, d int) bool {
	ok := false
	Instrs(g, func(in ssa.Instruction) {
		k, isCall := in.(*ssa.Call)
		if !isCall || d > 4 {
			return
		}
		if a := isStoreCall(k); a != nil && pathOf(a, 0) != "" && strings.HasPrefix(q.base(a), p.Name()) {
			ok = true
		}
		for _, h := range q.w.callees(k) {
			if q.in[h] {
				for i, hp := range h.Params {
					if a := argAt(k, i); a != nil && q.base(a) == p.Name() && q.stores(h, hp, d+1) {
						ok = true
					}
				}
			}
		}
	})
	return ok
}

// base names the parameter a value comes out of.
func (q *ingest) base(v ssa.Value) string {
	for i := 0; i < 12 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Name()
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			v = soleStored(x)
		default:
			return ""
		}
	}
	return ""
}

// whole: a stored element of a list is one of all its elements, in a loop that only a failure leaves.
func (q *ingest) whole(f *ssa.Function, k *ssa.Call, a ssa.Value, name func(string) string) {
	cov := (&vctx{fn: f}).covers(a)
	if cov == nil {
		return
	}
	h := loopAround(k.Block())
	part := false
	var ia *ssa.IndexAddr
	Instrs(f, func(in ssa.Instruction) {
		if x, ok := in.(*ssa.IndexAddr); ok && h != nil && loopBlocks(h)[x.Block()] && recordList(x.X.Type()) {
			ia = x
		}
	})
	if ia != nil {
		sl, ok := ia.X.(*ssa.Slice)
		part = ok && (sl.Low != nil && !isZero(sl.Low) || sl.High != nil)
	}
	ok := h != nil && !part && cov.whole() && eachTurn(h, k.Block()) && leavesOnlyFailing(h)
	q.c.Check(ok, "whole", name("list"), q.w.Pos(k.Pos()), "not every record of the list is stored")
}

// stopsOn: after a read failed for another reason than the text of a row, nothing is read any more.
func (q *ingest) stopsOn(x *ssa.Call, al map[ssa.Value]bool, label string) {
	fail := failed(al, true)
	as := func(cond ssa.Value) int {
		if e := fail(cond); e >= 0 {
			return e
		}
		return onCond(cond, func(b ssa.Value) (bool, bool) {
			switch y := b.(type) {
			case *ssa.Call:
				if calleeName(y) == "errors.As" && al[y.Call.Args[0]] && strings.Contains(typeUnder(y.Call.Args[1]), "encoding/csv.ParseError") {
					return false, true
				}
			case *ssa.Extract:
				if t, ok := y.Tuple.(*ssa.TypeAssert); ok && y.Index == 1 && al[t.X] && strings.Contains(t.AssertedType.String(), "encoding/csv.ParseError") {
					return false, true
				}
			}
			return false, false
		})
	}
	seen := map[*ssa.BasicBlock]bool{}
	again := false
	var rec func(b *ssa.BasicBlock, from int)
	rec = func(b *ssa.BasicBlock, from int) {
		if from == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[from:] {
			if in == x {
				again = true
				return
			}
			if i, ok := in.(*ssa.If); ok {
				e := as(i.Cond)
				for n, s := range b.Succs {
					if e < 0 || e == n {
						rec(s, 0)
					}
				}
				return
			}
		}
		for _, s := range b.Succs {
			rec(s, 0)
		}
	}
	rec(x.Block(), indexIn(x)+1)
	q.c.Check(!again, "stops", label, q.w.Pos(x.Pos()), "an input that cannot be read on is read again and again: only a row that is not well-formed may be passed over")
}

func typeUnder(v ssa.Value) string {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	return v.Type().String()
}

// received: what a channel yields.
func (q *ingest) received(x *ssa.UnOp, name func(string) string) {
	elem := x.X.Type().Underlying().(*types.Chan).Elem()
	if !recordType(elem) {
		return
	}
	c, w := q.c, q.w
	label := name("receives")
	start := map[ssa.Value]bool{x: true}
	okv := map[ssa.Value]bool{}
	if x.CommaOk {
		start = extracts(x, 0)
		okv = extracts(x, 1)
	}
	open := func(cond ssa.Value) int {
		return onCond(cond, func(b ssa.Value) (bool, bool) { return true, okv[b] })
	}
	q.keep(x, start, open, label)
	h := loopAround(x.Block())
	c.Check(h != nil && x.CommaOk, "stops", label, w.Pos(x.Pos()), "records are not received until there are no more")
	if h == nil {
		return
	}
	body := loopBlocks(h)
	bad := token.NoPos
	for b := range body {
		for i, s := range b.Succs {
			if body[s] {
				continue
			}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (open(iff.Cond) == 1-i || cancelled(iff.Cond) == i) {
				continue
			}
			bad = b.Instrs[len(b.Instrs)-1].Pos()
			if !bad.IsValid() {
				bad = x.Pos()
			}
		}
	}
	c.Check(bad == token.NoPos, "stops", label+" on", w.Pos(x.Pos()), "the worker stops receiving (%s) although there may be more records and the upload is not cancelled: they are not stored, or their sender waits for ever", w.Pos(bad))
}

// roots of a channel or wait group.
func (q *ingest) roots(v ssa.Value) map[ssa.Value]bool {
	r := map[ssa.Value]bool{}
	q.w.origins(v, func(o ssa.Value) { r[o] = true })
	return r
}

// waits: the function waits for a group of goroutines.
func (q *ingest) waits(f *ssa.Function) bool { return len(groupCalls(f, "Wait")) > 0 }

func groupCalls(f *ssa.Function, m string) (r []ssa.CallInstruction) {
	Instrs(f, func(in ssa.Instruction) {
		if k, ok := in.(ssa.CallInstruction); ok && calleeName(k) == "(*sync.WaitGroup)."+m {
			r = append(r, k)
		}
	})
	return
}

// within: the functions a started function runs.
func (q *ingest) within(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		if r[g] || !q.in[g] {
			return
		}
		r[g] = true
		Instrs(g, func(in ssa.Instruction) {
			if _, ok := in.(*ssa.Go); ok {
				return
			}
			for _, h := range q.w.callees(in) {
				rec(h)
			}
		})
	}
	rec(f)
	return r
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return indexIn(a) < indexIn(b)
	}
	return a.Block().Dominates(b.Block())
}

func (q *ingest) collected(f *ssa.Function, ch *ssa.MakeChan, label string) {
	c, w := q.c, q.w
	c.Saw(fnName(f))
	where := w.Pos(ch.Pos())
	is := func(v ssa.Value) bool { return q.roots(v)[ch] }
	wait := groupCalls(f, "Wait")
	if len(wait) != 1 {
		c.Fail("collected", label, where, "the senders are not waited for at one place in the function that makes the channel: this is not understood")
		return
	}
	// the goroutines: who sends, who receives
	var gos []*ssa.Go
	Instrs(f, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Go); ok {
			gos = append(gos, g)
		}
	})
	receives := func(g *ssa.Function) (bad string, found bool) {
		Instrs(g, func(in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.ARROW || !is(u.X) {
				return
			}
			found = true
			h := loopAround(u.Block())
			if h == nil || !u.CommaOk {
				bad = "not all errors are received"
				return
			}
			okv := extracts(u, 1)
			al := aliases(values(extracts(u, 0)))
			open := func(cond ssa.Value) int {
				if e := failed(al, false)(cond); e >= 0 {
					return e
				}
				return onCond(cond, func(b ssa.Value) (bool, bool) { return true, okv[b] })
			}
			if s, p := q.lost(u.Block(), indexIn(u)+1, u, al, open); s != "" {
				bad = "a received error is lost at " + w.Pos(p)
			}
			body := loopBlocks(h)
			for b := range body {
				for i, s := range b.Succs {
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !body[s] && (!ok || open(iff.Cond) != 1-i) {
						bad = "receiving ends before the channel is closed"
					}
				}
			}
		})
		return
	}
	concurrent := false
	bad := ""
	closer := map[*ssa.Function]bool{}
	for _, g := range gos {
		for _, t := range w.callees(g) {
			for h := range q.within(t) {
				if b, ok := receives(h); ok {
					concurrent = concurrent || before(g, wait[0])
					if b != "" {
						bad = b
					}
				}
			}
			closer[t] = true
		}
	}
	if b, ok := receives(f); ok && !concurrent {
		bad = "the errors are received only after the senders were waited for: with more errors than the channel holds they wait for ever"
		if b != "" {
			bad = b
		}
	} else if !concurrent {
		bad = "nothing receives the errors while they are sent"
	}
	c.Check(bad == "", "collected", label, where, "%s", bad)
	// closing
	group := q.roots(wait[0].Common().Args[0])
	for g := range q.in {
		Instrs(g, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			if bi, ok := k.Common().Value.(*ssa.Builtin); !ok || bi.Name() != "close" || !is(k.Common().Args[0]) {
				return
			}
			_, deferred := in.(*ssa.Defer)
			c.Check(g == f && (deferred || before(wait[0], in)), "collected", label+" closed", w.Pos(in.Pos()), "the channel is closed before its senders are waited for")
		})
	}
	for _, g := range gos {
		for _, t := range w.callees(g) {
			sends := token.NoPos
			done := false
			for h := range q.within(t) {
				Instrs(h, func(in ssa.Instruction) {
					switch x := in.(type) {
					case *ssa.Send:
						if is(x.Chan) {
							sends = x.Pos()
						}
					case *ssa.Select:
						for _, s := range x.States {
							if s.Dir == types.SendOnly && is(s.Chan) {
								sends = x.Pos()
							}
						}
					}
				})
				for _, d := range groupCalls(h, "Done") {
					if _, ok := d.(*ssa.Defer); ok && meet(q.roots(d.Common().Args[0]), group) {
						done = true
					}
				}
			}
			if !sends.IsValid() {
				continue
			}
			added := false
			for _, a := range groupCalls(f, "Add") {
				added = added || before(a, g) && meet(q.roots(a.Common().Args[0]), group)
			}
			c.Check(done && added, "collected", label+" sender "+fnName(t), w.Pos(sends), "this goroutine sends errors but is not waited for before the channel is closed")
		}
	}
	// the outcome
	filled := func(v ssa.Value) bool { return errSlice(v.Type()) }
	some := func(cond ssa.Value) int { return lenCond(cond, filled) }
	i := indexIn(wait[0])
	r := q.succeeds(wait[0].Block(), i+1, some, nil)
	c.Check(r == nil, "outcome", label+" errors", w.Pos(wait[0].Pos()), "success is reported although there may be collected errors (%s)", retPos(w, r))
	asked := false
	r = q.succeeds(wait[0].Block(), i+1, nil, func(in ssa.Instruction) bool {
		k, ok := in.(*ssa.Call)
		if ok && k.Call.IsInvoke() && k.Call.Method.FullName() == "(context.Context).Err" {
			al := aliases([]ssa.Value{k})
			if s, _ := q.lost(k.Block(), indexIn(k)+1, k, al, failed(al, false)); s == "" {
				asked = true
				return true
			}
		}
		return false
	})
	c.Check(r == nil && asked, "outcome", label+" cancelled", w.Pos(wait[0].Pos()), "success is reported although the upload may have been cancelled before everything was stored (%s)", retPos(w, r))
}

func retPos(w *World, r *ssa.Return) string {
	if r == nil {
		return "-"
	}
	return w.Pos(r.Pos())
}

func meet(a, b map[ssa.Value]bool) bool {
	for v := range a {
		if b[v] {
			return true
		}
	}
	return false
}

func values(m map[ssa.Value]bool) (r []ssa.Value) {
	for v := range m {
		r = append(r, v)
	}
	return
}

// sizes: what is read is not cut off silently, and a list in JSON is read to its end.
func (q *ingest) sizes(root *ssa.Function) {
	c, w := q.c, q.w
	cut := func(v ssa.Value) (at token.Pos) {
		w.origins(v, func(o ssa.Value) {
			if k, ok := o.(*ssa.Call); ok && (calleeName(k) == "io.LimitReader" || strings.Contains(calleeName(k), "SectionReader")) {
				at = k.Pos()
			}
			if strings.Contains(o.Type().String(), "io.LimitedReader") {
				at = o.Pos()
			}
		})
		return
	}
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := calleeName(k)
			if n == fnName(root) || n == "(*blnk.Blnk).UploadExternalData" {
				for i, a := range k.Common().Args {
					if strings.HasSuffix(a.Type().String(), "io.Reader") {
						p := cut(a)
						c.Check(!p.IsValid(), "size", fnName(f)+" "+n+" "+itoa(i), w.Pos(in.Pos()), "the input is cut off at a size without an error (%s): the rest is not read and the upload is reported as complete", w.Pos(p))
					}
				}
			}
			if q.in[f] && (n == "io.CopyN" || n == "io.LimitReader" || n == "io.ReadAtLeast" || n == "io.ReadFull") {
				c.Fail("size", fnName(f)+" "+n, w.Pos(in.Pos()), "only part of the input is read here")
			}
			if call, ok := in.(*ssa.Call); ok && q.in[f] && n == "(*encoding/json.Decoder).More" {
				q.closes(f, call)
			}
		})
	}
}

// closes: after the last element, the end of the list and of the input are read before success.
func (q *ingest) closes(f *ssa.Function, more *ssa.Call) {
	h := loopAround(more.Block())
	if h == nil {
		return
	}
	done := func(cond ssa.Value) int {
		return onCond(cond, func(b ssa.Value) (bool, bool) { return false, b == more })
	}
	var first, second *ssa.Call
	r := q.succeeds(more.Block(), indexIn(more)+1, done, func(in ssa.Instruction) bool {
		k, ok := in.(*ssa.Call)
		if !ok || !q.token(k) || loopAround(k.Block()) != nil {
			return false
		}
		first = k
		return true
	})
	q.c.Check(r == nil && first != nil, "ends", fnName(f)+" list", q.w.Pos(more.Pos()), "success is reported without the end of the list having been read (%s): More also answers no when the input ends early", retPos(q.w, r))
	if first == nil {
		return
	}
	r = q.succeeds(first.Block(), indexIn(first)+1, nil, func(in ssa.Instruction) bool {
		k, ok := in.(*ssa.Call)
		if !ok || !q.token(k) {
			return false
		}
		second = k
		return true
	})
	q.c.Check(r == nil && second != nil, "ends", fnName(f)+" input", q.w.Pos(more.Pos()), "success is reported without the end of the input having been read (%s)", retPos(q.w, r))
}

func recordList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isExtTxn(s.Elem())
}
