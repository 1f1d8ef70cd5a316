package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["D04"] = ruleD04 }

// resource types and the calls that end them.
var resTypes = map[string]string{
	"*database/sql.Rows": "rows", "*database/sql.Tx": "tx", "*database/sql.Stmt": "stmt", "*database/sql.Conn": "conn",
	"*net/http.Response": "response", "*os.File": "file", "mime/multipart.File": "file",
	"*github.com/lib/pq.Listener": "listener", "*time.Ticker": "ticker",
	"*github.com/hibiken/asynq.Inspector": "inspector",
}

func resKind(t types.Type) string { return resTypes[t.String()] }

type LifeObs struct {
	Fn, Kind, Callee string
	Site             ssa.Instruction
	Leak             string // description of a leaking exit, "" if none
	NoErr            string // rows: a success exit without consulting Err after the loop ended
	Iterated         bool
}

type LifeFacts struct {
	Obs map[string]*LifeObs
	En  *Engine
}

// Lifecycle runs the acquire/release analysis.
func (w *World) Lifecycle() *LifeFacts {
	if w.life != nil {
		return w.life
	}
	L := &LifeFacts{Obs: map[string]*LifeObs{}}
	w.life = L
	en := NewEngine(w)
	L.En = en
	en.SmallMax = 0
	en.MaxDepth = 4
	hasRes := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if resKind(p.Type()) != "" {
				return true
			}
		}
		for _, p := range f.FreeVars {
			if pt, ok := p.Type().(*types.Pointer); ok && resKind(pt.Elem()) != "" {
				return true
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if resKind(f.Signature.Results().At(i).Type()) != "" {
				return true
			}
		}
		return false
	}
	rel := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if hasRes(f) {
			rel[f] = true
		}
	}
	en.Relevant = rel
	// resIdx: index of the resource in the results of an acquiring call
	acq := func(sig *types.Signature) (int, string) {
		for i := 0; i < sig.Results().Len(); i++ {
			if k := resKind(sig.Results().At(i).Type()); k != "" {
				return i, k
			}
		}
		return -1, ""
	}
	isRelease := func(c *Call) bool {
		switch c.Method() {
		case "Close", "Commit", "Rollback", "Stop":
			return len(c.Args) >= 1
		}
		return false
	}
	same := func(a, b *Term) bool {
		for a != nil && a != b && (a.Op == "iface" || a.Op == "conv") {
			a = a.Args[0]
		}
		return a == b
	}
	openOf := func(st *State, t *Term) string {
		for f := range st.facts {
			if strings.HasPrefix(f, "open:") && same(t, st.vals["res:"+f[5:]]) {
				return f[5:]
			}
		}
		return ""
	}
	en.H.Call = func(en *Engine, st *State, c *Call) ([]*State, bool) {
		if isRelease(c) {
			for f := range st.facts {
				if !strings.HasPrefix(f, "open:") {
					continue
				}
				t := st.vals["res:"+f[5:]]
				r := c.Args[0]
				// response bodies: resp.Body.Close()
				if b, fs := r.Path(); len(fs) == 1 && fs[0] == "Body" && same(b, t) {
					st.Del(f)
					continue
				}
				if same(r, t) || (r.Op == "load" && en.Load(st, r.Args[0]) == t) {
					st.Del(f)
				}
			}
			return nil, false
		}
		switch c.Name {
		case "(*database/sql.Rows).Next":
			k := openOf(st, c.Args[0])
			if k == "" {
				k = rowsOf(st, c.Args[0])
			}
			if k == "" {
				return nil, false
			}
			if o := L.Obs[k]; o != nil {
				o.Iterated = true
			}
			en.opaque(c.F, st, c)
			more, end := st, st.Clone()
			t := en.Res(st, c, 0)
			more.known[t.key] = knownRec{"true", t}
			more.Del("ended:" + k)
			end.known[t.key] = knownRec{"false", t}
			end.Add("ended:" + k)
			end.Del("open:" + k) // Next closes the rows when it returns false
			return []*State{more, end}, true
		case "(*database/sql.Rows).Err":
			k := rowsOf(st, c.Args[0])
			if k == "" {
				return nil, false
			}
			ok, fail := en.Fork(st, c)
			ok.Del("ended:" + k)
			// the failing side keeps the obligation: it must not succeed
			fail.Del("ended:" + k)
			fail.Add("rowserr:" + k)
			fail.vals["rowserr:"+k] = en.Res(fail, c, 0)
			return []*State{ok, fail}, true
		}
		i, kind := acq(c.Sig)
		if i < 0 || c.Value == nil {
			return nil, false
		}
		if c.Fn != nil && w.InModule(c.Fn) && c.Fn.Blocks != nil {
			return nil, false // inlined: the acquisition is seen inside
		}
		if c.Name == "(*net/http.Request).Response" || strings.HasSuffix(c.Name, ".LastInsertId") {
			return nil, false
		}
		if c.Name == "(*database/sql.Tx).Stmt" || c.Name == "(*database/sql.Tx).StmtContext" {
			return nil, false
		}
		k := fmt.Sprintf("%d.%d", en.instrID(c.Site), c.F.ID)
		if _, ok := L.Obs[k]; !ok {
			nm := c.Name
			if nm == "" {
				nm = c.Iface
			}
			L.Obs[k] = &LifeObs{Fn: fnName(c.F.Fn), Kind: kind, Callee: nm, Site: c.Site}
		}
		if st.Has("open:" + k) {
			L.Obs[k].Leak = "the same call is reached again (in a loop) while the previous one is still open"
		}
		var ok, fail *State
		if ErrIndex(c.Sig) >= 0 {
			ok, fail = en.Fork(st, c)
		} else {
			en.opaque(c.F, st, c)
			ok = st
		}
		for _, s := range []*State{ok, fail} {
			if s != nil {
				s.Del("open:" + k)
				s.Del("ended:" + k)
				s.Del("rowserr:" + k)
			}
		}
		t := en.Res(ok, c, i)
		ok.known[t.key] = knownRec{"nonnil", t}
		ok.vals["res:"+k] = t
		ok.Add("open:" + k)
		if kind == "stmt" {
			// statements prepared on a transaction end with it
			if strings.HasPrefix(c.Name, "(*database/sql.Tx)") {
				ok.vals["owner:"+k] = c.Args[0]
			}
		}
		out := []*State{ok}
		if fail != nil {
			ft := en.Res(fail, c, i)
			fail.known[ft.key] = knownRec{"nil", ft}
			out = append(out, fail)
		}
		return out, true
	}
	transfer := func(st *State, t *Term) {
		for f := range st.facts {
			if strings.HasPrefix(f, "open:") {
				r := st.vals["res:"+f[5:]]
				if r != nil && t.Mentions(func(x *Term) bool { return x == r }) {
					st.Del(f)
				}
			}
		}
	}
	en.H.Go = func(en *Engine, st *State, c *Call) {
		for _, a := range append(append([]*Term{}, c.Args...), c.Free...) {
			transfer(st, a)
			if a.Op == "alloc" {
				transfer(st, en.Load(st, a))
			}
		}
	}
	en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
		r := addrRoot(addr)
		if r.Op == "param" || r.Op == "global" || r.Op == "free" {
			transfer(st, val)
		}
	}
	en.H.Return = func(en *Engine, st *State, res []*Term, in *ssa.Return, f *Frame) {
		ei := ErrIndex(f.Fn.Signature)
		failing := ei >= 0 && ei < len(res) && en.Kind(st, res[ei]) == "nonnil"
		for _, fct := range st.Facts() {
			k := fct[strings.Index(fct, ":")+1:]
			o := L.Obs[k]
			if o == nil {
				continue
			}
			t := st.vals["res:"+k]
			switch {
			case strings.HasPrefix(fct, "open:"):
				if o.Kind == "stmt" {
					if ow := st.vals["owner:"+k]; ow != nil && openOf(st, ow) == "" && !st.Has("open:"+k+"x") {
						if anyRes(st, ow) {
							continue
						}
					}
				}
				if reachesRes(en, st, res, t) {
					continue
				}
				o.Leak = "a return at " + w.Pos(in.Pos()) + " leaves it open"
			case strings.HasPrefix(fct, "ended:"):
				if failing || reachesRes(en, st, res, t) {
					continue
				}
				o.NoErr = "the return at " + w.Pos(in.Pos()) + " is reached after the rows ended without consulting Err"
			case strings.HasPrefix(fct, "rowserr:"):
				if failing || ei < 0 {
					continue
				}
				if ei < len(res) && mentionsDeep(res[ei], st.vals[fct]) {
					continue
				}
				o.NoErr = "the return at " + w.Pos(in.Pos()) + " reports success although Err returned an error"
			}
		}
	}
	for _, f := range w.Funcs {
		if f.Blocks == nil {
			continue
		}
		own := false
		Instrs(f, func(in ssa.Instruction) {
			if c, ok := in.(ssa.CallInstruction); ok {
				if i, _ := acq(c.Common().Signature()); i >= 0 {
					own = true
				}
			}
		})
		if !own {
			continue
		}
		en.Run(f, nil)
	}
	return L
}

func anyRes(st *State, t *Term) bool {
	for k, v := range st.vals {
		if strings.HasPrefix(k, "res:") && v == t {
			return true
		}
	}
	return false
}

func rowsOf(st *State, t *Term) string {
	t = t.unconv()
	for k, v := range st.vals {
		if strings.HasPrefix(k, "res:") && v == t {
			return k[4:]
		}
	}
	return ""
}

// reachesRes: the resource is handed to the caller through a result.
func reachesRes(en *Engine, st *State, res []*Term, t *Term) bool {
	return reachesResult(st, res, t, false)
}

// reachesResult: through also follows what was computed from the value by a call (an error
// turned into a rejection record, say).
func reachesResult(st *State, res []*Term, t *Term, through bool) bool {
	if t == nil {
		return false
	}
	seen := map[string]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x.key] {
			return false
		}
		seen[x.key] = true
		if x == t {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		if through {
			for _, a := range x.CArg {
				if rec(a) {
					return true
				}
			}
		}
		for _, m := range st.mem {
			if addrRoot(m.addr) == x && rec(m.val) {
				return true
			}
		}
		return false
	}
	for _, r := range res {
		if rec(r) {
			return true
		}
	}
	return false
}

func ruleD04(c *Ctx) {
	L := c.W.Lifecycle()
	c.Engine(L.En)
	c.Rule("release", "every *sql.Rows, *sql.Tx, *sql.Stmt, *http.Response, file or similar obtained from a call is, on every path to an exit of the obtaining code, closed/committed/rolled back (directly, deferred or in a helper), exhausted, returned, or handed to a goroutine")
	c.Floor("release", 55)
	for _, k := range sortedKeys(L.Obs) {
		o := L.Obs[k]
		if strings.HasPrefix(o.Fn, "tests/") {
			continue // load-test tools, not part of the ledger
		}
		c.Saw(o.Fn)
		c.Check(o.Leak == "", "release", o.Fn+" "+o.Kind+" from "+o.Callee, c.W.Pos(o.Site.Pos()), "%s obtained here is not released: %s", o.Kind, o.Leak)
	}
}
