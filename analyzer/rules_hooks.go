package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["S07"] = ruleS07 }

const asynqTask = "*github.com/hibiken/asynq.Task"

func ruleS07(c *Ctx) {
	c.Rule("signed", "Where a secret is configured, a delivery carries a hexadecimal HMAC-SHA-2 under that secret over the timestamp it sends along and exactly the bytes it sends as its body.")
	c.Rule("bounded", "A delivery is sent with a client timeout or a deadline.")
	c.Rule("delivered", "A task counts as done only if the answer was found to have a status of 2xx, or there is nowhere to deliver to.")
	c.Rule("queued", "An event counts as announced only if its task was put in the queue, or there is nowhere to deliver it to; the task carries the event itself and may be retried.")
	c.Rule("each", "Every active hook is queued, and one that could not be is told about.")
	c.Rule("registered", "The handler of every kind of delivery is registered with the worker itself, with no wrapper that could swallow its failure.")
	for r, n := range map[string]int{"signed": 2, "bounded": 2, "delivered": 2, "queued": 2, "each": 1, "registered": 2} {
		c.Floor(r, n)
	}
	w := c.W
	sends := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if !isMock(f) && f.Blocks != nil && callsNamed(f, func(n string) bool { return n == "(*net/http.Client).Do" }) && w.deliversTo(f) {
			sends[f] = true
		}
	}
	rs := w.Reaches(func(f *ssa.Function) bool { return sends[f] })
	events := map[string]bool{}
	n := 0
	for _, f := range w.Funcs {
		if isMock(f) || f.Blocks == nil || !rs[f] || f.Synthetic != "" {
			continue
		}
		ps := f.Signature.Params()
		if ps.Len() != 2 || ps.At(1).Type().String() != asynqTask || ErrIndex(f.Signature) != 0 {
			continue
		}
		n++
		c.deliver(f, rs)
		for _, g := range w.closure(f) {
			for _, t := range unmarshalled(g) {
				events[t] = true
			}
		}
		reg := w.registered(f)
		for _, g := range w.Funcs { // what is registered may pass it on: it is judged itself
			if g != f && rs[g] && g.Signature.Params().Len() == 2 && g.Signature.Params().At(1).Type().String() == asynqTask && w.ReachableFrom(g)[f] {
				reg = reg || w.registered(g)
			}
		}
		c.Check(reg, "registered", fnName(f), w.Pos(f.Pos()), "the handler of the delivery is not what is registered with the worker")
	}
	c.Check(n >= 2, "delivered", "handlers", "", "fewer than two handlers that deliver events were found")
	for f := range sends {
		covered := false
		for _, g := range w.Funcs {
			if rs[g] && g.Signature.Params().Len() == 2 && g.Signature.Params().At(1).Type().String() == asynqTask && w.ReachableFrom(g)[f] {
				covered = true
			}
		}
		c.Check(covered, "delivered", "sender "+fnName(f), w.Pos(f.Pos()), "events are sent outside a task that is retried")
	}
	c.announce(events)
}

// deliversTo: the function, or what it is called by with the address, sends to the configured webhook or a registered hook.
func (w *World) deliversTo(f *ssa.Function) bool {
	r := false
	for _, g := range append(w.closure(f), f) {
		Instrs(g, func(in ssa.Instruction) {
			var x types.Type
			var i int
			switch v := in.(type) {
			case *ssa.FieldAddr:
				x, i = v.X.Type(), v.Field
			case *ssa.Field:
				x, i = v.X.Type(), v.Field
			default:
				return
			}
			n, t := fieldName(x, i), structOfNamed(x)
			if strings.EqualFold(n, "url") && (t == Mod+"/internal/hooks.Hook" || strings.HasPrefix(t, Mod+"/config.") && strings.Contains(t, "Webhook")) {
				r = true
			}
		})
	}
	return r
}

// unmarshalled: the types a function decodes JSON into.
func unmarshalled(f *ssa.Function) []string {
	var r []string
	Instrs(f, func(in ssa.Instruction) {
		k, ok := in.(ssa.CallInstruction)
		if !ok || calleeName(k) != "encoding/json.Unmarshal" {
			return
		}
		v := unwrapIface(k.Common().Args[1])
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
				r = append(r, n.Obj().Pkg().Path()+"."+n.Obj().Name())
			}
		}
	})
	return r
}

// registered: the function is given to the worker's mux as it is.
func (w *World) registered(f *ssa.Function) bool {
	r := false
	same := func(g *ssa.Function) bool {
		g = unwrap(g)
		return g == f || g != nil && g.Object() != nil && g.Object() == f.Object()
	}
	for _, g := range w.Funcs {
		Instrs(g, func(in ssa.Instruction) {
			k, ok := in.(ssa.CallInstruction)
			if !ok || !strings.HasSuffix(calleeName(k), "asynq.ServeMux).HandleFunc") {
				return
			}
			v := k.Common().Args[len(k.Common().Args)-1]
			for {
				if x, ok := v.(*ssa.ChangeType); ok {
					v = x.X
					continue
				}
				break
			}
			switch x := v.(type) {
			case *ssa.Function:
				r = r || same(x)
			case *ssa.MakeClosure:
				b := x.Fn.(*ssa.Function)
				r = r || same(b)
				// a bound method of an interface
				if b.Synthetic != "" {
					Instrs(b, func(in ssa.Instruction) {
						if k, ok := in.(ssa.CallInstruction); ok && k.Common().IsInvoke() && k.Common().Method.Name() == f.Name() {
							r = true
						}
					})
				}
			}
		})
	}
	return r
}

func lastField(t *Term) string {
	_, fs := t.Path()
	if len(fs) == 0 {
		return ""
	}
	return fs[len(fs)-1]
}

// timedClient: every client the field is given has a timeout.
func (w *World) timedClient(t *Term) bool {
	t = t.Strip()
	if t.Op != "field" && t.Op != "fieldv" {
		return false
	}
	n, ok := 0, true
	for _, f := range w.Funcs {
		if isMock(f) {
			continue
		}
		Instrs(f, func(in ssa.Instruction) {
			s, isS := in.(*ssa.Store)
			if !isS || s.Val.Type().String() != "*net/http.Client" {
				return
			}
			fa, isF := s.Addr.(*ssa.FieldAddr)
			if !isF || fieldName(fa.X.Type(), fa.Field) != t.Name {
				return
			}
			n++
			ok = ok && timedValue(s.Val, 0)
		})
	}
	return n > 0 && ok
}

func timedValue(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		t := storedField(x.Parent(), x, "Timeout")
		k, ok := t.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) > 0
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil {
			return false
		}
		all, n := true, 0
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				n++
				all = all && timedValue(r.Results[0], d+1)
			}
		}
		return all && n > 0
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !timedValue(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// deliver runs the handler of one kind of delivery.
func (c *Ctx) deliver(root *ssa.Function, rs map[*ssa.Function]bool) {
	w := c.W
	name := fnName(root)
	en := NewEngine(w)
	en.SmallMax, en.MaxDepth = 6, 8
	en.Relevant = map[*ssa.Function]bool{}
	uses := w.Reaches(func(f *ssa.Function) bool {
		return callsNamed(f, func(n string) bool {
			return n == "crypto/hmac.New" || strings.HasPrefix(n, "net/http.NewRequest") || n == "(net/http.Header).Set" || n == "(net/http.Header).Add"
		})
	})
	for f := range w.ReachableFrom(root) {
		if rs[f] || uses[f] && (inPkg(f, fnPkg(root).Path()) || inPkg(f, Mod+"/internal/hooks")) {
			en.Relevant[f] = true
		}
	}
	en.NoInline = func(f *ssa.Function) bool { return inPkg(f, Mod+"/config") || isMock(f) }
	key := func(t *Term) string { return bufKey(t.Strip()) }
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		if cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		statusBound(st, cond, taken)
		x := emptyTest(cond)
		if x == nil || !taken {
			return
		}
		switch lastField(x) {
		case "SecretKey":
			st.Add("no secret")
		case "Url", "URL":
			st.Add("nowhere")
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if k.Kind != "call" {
			return nil, false
		}
		where := w.Pos(k.Site.Pos())
		keep := func(what string, v *Term) ([]*State, bool) {
			en.opaque(k.F, st, k)
			r := key(en.Res(st, k, 0))
			st.Add(what + r)
			st.vals[what+r] = v
			return []*State{st}, true
		}
		switch {
		case k.Is("bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString"):
			return keep("reader:", k.Args[0])
		case k.Is("crypto/hmac.New"):
			h := k.Args[0].Strip()
			good := lastField(k.Args[1]) == "SecretKey" && (strings.Contains(h.String(), "sha256.New") || strings.Contains(h.String(), "sha512.New"))
			if !good {
				c.Fail("signed", name+" key in "+fnName(k.F.Fn), where, "the signature is not an HMAC-SHA-2 under the configured secret")
			}
			return keep("mac:", k.Args[1])
		case k.Method() == "Write" && len(k.Args) == 2 || k.Is("io.WriteString"):
			m := "mac:" + key(k.Args[0])
			if st.vals[m] == nil {
				return nil, false
			}
			n := 0
			for st.vals["data:"+m+":"+itoa(n)] != nil {
				n++
			}
			ok, fail := en.Fork(st, k)
			for _, s := range []*State{ok, fail} {
				s.vals["data:"+m+":"+itoa(n)] = k.Args[1]
				s.Add("data:" + m + ":" + itoa(n))
			}
			fail.Add("failed")
			return []*State{ok}, true
		case k.Method() == "Sum" && len(k.Args) == 2 && st.vals["mac:"+key(k.Args[0])] != nil:
			if k.Args[1].Op != "const" {
				return nil, false
			}
			m := k.Args[0]
			return keep("sum:", m)
		case strings.HasPrefix(k.Name, "net/http.NewRequest"):
			body := k.Args[len(k.Args)-1]
			rd := st.vals["reader:"+key(body)]
			ok, fail := en.Fork(st, k)
			r := key(en.Res(ok, k, 0))
			ok.Add("req:" + r)
			if rd != nil {
				ok.vals["body:"+r] = rd
			}
			if len(k.Args) == 4 {
				ok.vals["ctx:"+r] = k.Args[0]
			}
			return []*State{ok, fail}, true
		case k.Is("(net/http.Header).Set", "(net/http.Header).Add"):
			h := k.Args[0].Strip()
			if h.Op != "field" && h.Op != "fieldv" || h.Name != "Header" {
				return nil, false
			}
			r := key(h.Args[0])
			hn, isC := k.Args[1].Str()
			if !isC {
				return nil, false
			}
			switch {
			case strings.Contains(hn, "Signature"):
				var mac *Term
				deepMention(k.Args[2], func(y *Term) bool {
					if m := st.vals["sum:"+key(y)]; m != nil {
						mac = m
					}
					return mac != nil
				})
				hexed := deepMention(k.Args[2], func(y *Term) bool { return y.Name == "encoding/hex.EncodeToString" })
				if mac != nil && hexed {
					st.Add("sig:" + r)
					st.vals["sig:"+r] = mac
				} else {
					st.Del("sig:" + r)
				}
			case strings.Contains(hn, "Timestamp"):
				st.Add("ts:" + r)
				st.vals["ts:"+r] = k.Args[2]
			}
			return nil, false
		case k.Is("(*net/http.Client).Do"):
			r := key(k.Args[1])
			if !st.Has("req:" + r) {
				c.Fail("signed", name+" request in "+fnName(k.F.Fn), where, "what is sent cannot be told")
			}
			c.Check(st.Has("no secret") || c.signedBody(en, st, r, key), "signed", name+" in "+fnName(k.F.Fn), where,
				"with a secret configured, the event is sent without a signature over the timestamp sent and exactly the body sent")
			cl := k.Args[0].Strip()
			tm := en.field(st, cl, "Timeout")
			n, isConst := tm.Int()
			timed := isConst && n > 0 || w.timedClient(k.Args[0])
			if ctx := st.vals["ctx:"+r]; ctx != nil {
				timed = timed || deepMention(ctx, func(t *Term) bool {
					return strings.Contains(t.Name, "context.WithTimeout") || strings.Contains(t.Name, "context.WithDeadline")
				})
			}
			c.Check(timed, "bounded", name+" in "+fnName(k.F.Fn), where, "the event is sent with neither a deadline nor a client timeout")
			ok, fail := en.Fork(st, k)
			fail.Add("failed")
			ok.Add("sent:" + en.Res(ok, k, 0).unconv().key)
			return []*State{ok, fail}, true
		case k.Iface == "(context.Context).Err":
			en.opaque(k.F, st, k)
			r := en.Res(st, k, 0)
			id := "ctxerr:" + key(k.Args[0])
			if p := st.vals[id]; p != nil && st.Has(id) && en.Kind(st, p) == "nonnil" {
				en.setKind(st, r, "nonnil")
			}
			st.vals[id] = r
			st.Add(id)
			return []*State{st}, true
		}
		return nil, false
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		if en.Kind(st, res[0]) == "nonnil" {
			return
		}
		where := w.Pos(in.Pos())
		if st.Has("nowhere") {
			return
		}
		good := false
		for _, s := range st.Facts() {
			if strings.HasPrefix(s, "sent:") {
				good = st.Has("lo:"+s[5:]) && st.Has("hi:"+s[5:])
			}
		}
		c.Check(good && !st.Has("failed"), "delivered", name, where, "the task counts as done although the event was not answered with a status of 2xx")
	}
	en.Run(root, nil)
	c.Engine(en)
}

// signedBody: the request carries the signature of its own timestamp and body.
func (c *Ctx) signedBody(en *Engine, st *State, r string, key func(*Term) string) bool {
	body, ts, mac := st.vals["body:"+r], st.vals["ts:"+r], st.vals["sig:"+r]
	if body == nil || ts == nil || mac == nil || !st.Has("sig:"+r) {
		return false
	}
	if lastField(st.vals["mac:"+key(mac)]) != "SecretKey" {
		return false
	}
	var parts []Part
	for i := 0; ; i++ {
		d := st.vals["data:mac:"+key(mac)+":"+itoa(i)]
		if d == nil {
			break
		}
		parts = joinParts(parts, en.Text(st, d))
	}
	if len(parts) != 3 || parts[0].Hole == nil || parts[1].Hole != nil || parts[1].Lit == "" || parts[2].Hole == nil {
		return false
	}
	return parts[0].Hole.Strip().key == ts.Strip().key && key(parts[2].Hole) == key(body) &&
		deepMention(ts, func(y *Term) bool { return strings.HasPrefix(y.Name, "time.Now") })
}

// announce: the functions that put events in the queue.
func (c *Ctx) announce(events map[string]bool) {
	w := c.W
	enq := func(n string) bool {
		return n == "(*github.com/hibiken/asynq.Client).EnqueueContext" || n == "(*github.com/hibiken/asynq.Client).Enqueue"
	}
	puts := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if isMock(f) || f.Blocks == nil {
			continue
		}
		m := false
		Instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok && calleeName(k) == "encoding/json.Marshal" {
				if t := structOfNamed(unwrapIface(k.Common().Args[0]).Type()); events[t] {
					m = true
				}
			}
		})
		if m && w.Reaches(func(g *ssa.Function) bool { return callsNamed(g, enq) })[f] {
			puts[f] = true
		}
	}
	for _, f := range sortedFns(puts) {
		f := f
		name := fnName(f)
		en := NewEngine(w)
		en.SmallMax, en.MaxDepth = 6, 5
		re := w.Reaches(func(g *ssa.Function) bool { return callsNamed(g, enq) })
		en.Relevant = map[*ssa.Function]bool{}
		for g := range w.ReachableFrom(f) {
			if re[g] {
				en.Relevant[g] = true
			}
		}
		en.NoInline = func(g *ssa.Function) bool { return inPkg(g, Mod+"/config") || isMock(g) }
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, fr *Frame) {
			if cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if x := emptyTest(cond); x != nil && taken && strings.EqualFold(lastField(x), "url") {
				st.Add("nowhere")
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind != "call" {
				return nil, false
			}
			switch {
			case k.Is("encoding/json.Marshal"):
				arg := k.Args[0]
				if v, ok := k.Site.(*ssa.Call); ok && events[structOfNamed(unwrapIface(v.Call.Args[0]).Type())] {
					ok, fail := en.Fork(st, k)
					id := "event:" + bufKey(en.Res(ok, k, 0).Strip())
					ok.Add(id)
					ok.vals[id] = arg
					return []*State{ok, fail}, true
				}
			case strings.HasSuffix(k.Name, "asynq.NewTask"):
				en.opaque(k.F, st, k)
				id := "task:" + bufKey(en.Res(st, k, 0).Strip())
				if st.Has("event:" + bufKey(k.Args[1].Strip())) {
					st.Add(id)
				}
				return []*State{st}, true
			case strings.HasSuffix(k.Name, "asynq.MaxRetry"):
				n, isC := k.Args[0].Int()
				c.Check(!isC || n > 0, "queued", name+" retries", w.Pos(k.Site.Pos()), "the task is never retried")
			case enq(k.Name) || enq("("+strings.TrimPrefix(k.Name, "(")):
				var task *Term
				for i, a := range k.Args {
					if j := i - 1; j >= 0 && j < k.Sig.Params().Len() && k.Sig.Params().At(j).Type().String() == asynqTask {
						task = a
					}
				}
				good := task != nil && st.Has("task:"+bufKey(task.Strip()))
				c.Check(good, "queued", name+" task", w.Pos(k.Site.Pos()), "what is put in the queue is not the event that was given")
				ok, fail := en.Fork(st, k)
				ok.Add("queued")
				fail.Add("failed")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, fr *Frame) {
			i := ErrIndex(f.Signature)
			if i < 0 {
				c.Fail("queued", name, w.Pos(in.Pos()), "a failure to queue the event cannot be reported")
				return
			}
			if en.Kind(st, res[i]) == "nonnil" || st.Has("nowhere") {
				return
			}
			c.Check(st.Has("queued") && !st.Has("failed"), "queued", name, w.Pos(in.Pos()), "success is reported although the event was not put in the queue")
		}
		en.Run(f, nil)
		c.Engine(en)
		// the lists whose elements are queued one by one
		for _, g := range w.Funcs {
			if isMock(g) {
				continue
			}
			Instrs(g, func(in ssa.Instruction) {
				k, ok := in.(*ssa.Call)
				if !ok || k.Call.StaticCallee() != f {
					return
				}
				if lp := loopAround(in.Block()); lp != nil {
					c.Check(queuedEach(lp, k), "each", fnName(g), w.Pos(in.Pos()), "a turn of the loop can pass without queueing an active hook, or the loop can be left early without a failure")
					c.Check(told(k), "each", "told in "+fnName(g), w.Pos(in.Pos()), "a hook that could not be queued is told to nobody")
				}
			})
		}
	}
}

// queuedEach: within the loop, every way round passes the call unless the element was found inactive.
func queuedEach(h *ssa.BasicBlock, k *ssa.Call) bool {
	in := loopBlocks(h)
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool // the header again, without the call
	reach = func(b *ssa.BasicBlock) bool {
		if b == k.Block() || !in[b] {
			return false
		}
		if b == h && len(seen) > 0 {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for i, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if n := activeTest(iff.Cond); n == 1 && i == 1 || n == -1 && i == 0 {
					continue
				}
			}
			if reach(s) {
				return true
			}
		}
		return false
	}
	return !reach(h) && leavesOnlyFailing(h)
}

// activeTest: 1 if the condition is that the hook is active, -1 for its negation.
func activeTest(v ssa.Value) int {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			return -activeTest(x.X)
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Active" {
			return 1
		}
	case *ssa.Field:
		if fieldName(x.X.Type(), x.Field) == "Active" {
			return 1
		}
	}
	return 0
}

// told: the error of the call is given to the notifier or returned.
func told(k *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Return:
				return true
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && inPkg(f, Mod+"/internal/notification") {
					return true
				}
				if strings.HasPrefix(calleeName(x), "fmt.Errorf") || strings.HasPrefix(calleeName(x), "errors.Join") {
					if rec(x) {
						return true
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if s, ok := r.(*ssa.Slice); ok && rec(s) {
								return true
							}
						}
					}
				}
			case ssa.Value:
				if rec(x) {
					return true
				}
			}
		}
		return false
	}
	return rec(k)
}
