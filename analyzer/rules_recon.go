package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { rules["R01"] = ruleR01; rules["R02"] = ruleR02 }

// runs: the operations that record a new reconciliation and start it, and everything a run reaches.
func (w *World) reconRuns() (starts []*ssa.Function, in map[*ssa.Function]bool) {
	rec := w.touches("INSERT", "reconciliations")
	for _, f := range sortedFns(w.callsOf(rec)) {
		if inPkg(f, Mod) && !isMock(f) {
			starts = append(starts, f)
		}
	}
	in = w.ReachableFrom(starts...)
	return
}

// callsOf: the functions with a call that may go to one of the set.
func (w *World) callsOf(set map[*ssa.Function]bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		Instrs(f, func(in ssa.Instruction) {
			if k, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.StaticTargets(k.Common()) {
					if set[g] && !isMock(g) {
						r[f] = true
					}
				}
			}
		})
	}
	return r
}

var placeNo = regexp.MustCompile(`^\$(\d+)$`)

// paramOf: the parameter of the function a statement's argument is.
func paramIs(f *ssa.Function, t *Term) *ssa.Parameter {
	t = peelText(t)
	if t.Op != "param" {
		return nil
	}
	for i, p := range f.Params {
		if strings.HasSuffix(t.Name, "$"+itoa(i)) && strings.HasPrefix(t.Name, fnName(f)+"$") {
			return p
		}
	}
	return nil
}

func itoa(i int) string {
	if i >= 10 {
		return itoa(i/10) + itoa(i%10)
	}
	return string(rune('0' + i))
}

func ruleR01(c *Ctx) {
	w := c.W
	c.Rule("upload", "Every statement of a run that reads external records is restricted to one upload, given as a parameter.")
	c.Rule("own", "The upload whose records a run reads is the one the run was recorded with, at every call on the way.")
	c.Rule("stored-under", "External records are stored under the upload they are given for; those handed to an immediate run under the upload of that run.")
	c.Rule("page", "The records of an upload are paged by the given size and start, in an order that leaves no ties, so that pages neither repeat nor skip records.")
	c.Rule("key-complete", "What selects the records (upload, grouping, size and start of the page) is part of the key they are cached under.")
	c.Rule("key-shared", "Records are stored in the cache under the key they were looked up under.")
	c.Rule("key-apart", "Keys of different kinds of records begin with different text.")
	c.Floor("upload", 2)
	c.Floor("own", 4)
	c.Floor("stored-under", 2)
	c.Floor("page", 2)
	c.Floor("key-complete", 2)
	c.Floor("key-shared", 2)
	starts, in := w.reconRuns()
	c.Check(len(starts) >= 2, "own", "runs", "", "%d operations start a reconciliation, at least 2 expected", len(starts))

	readers := map[*ssa.Function]*ssa.Parameter{}
	for _, s := range w.CollectSQL().Sites {
		f := s.Fn
		if !in[f] || isMock(f) {
			continue
		}
		for _, e := range s.Events {
			if e.Stmt == nil {
				continue
			}
			for _, q := range e.Stmt.All() {
				if q.Kind != "SELECT" {
					continue
				}
				from := false
				for _, t := range q.From {
					from = from || t.Name == "external_transactions"
				}
				if !from {
					continue
				}
				root := e.Root
				if root == nil {
					root = f
				}
				where := w.Pos(s.Site.Pos())
				arg := func(n string) *Term {
					if m := placeNo.FindStringSubmatch(strings.TrimSpace(n)); m != nil && e.ArgsOK {
						i := 0
						for _, d := range m[1] {
							i = i*10 + int(d-'0')
						}
						if i >= 1 && i <= len(e.Args) {
							return e.Args[i-1]
						}
					}
					return nil
				}
				var own *ssa.Parameter
				for _, x := range q.Where {
					if m := regexp.MustCompile(`^(?:[a-z_]+ ?\. ?)?upload_id = (\$\d+)$`).FindStringSubmatch(plainConj(x)); m != nil && q.WhereOK {
						if t := arg(m[1]); t != nil {
							if p := paramIs(root, t); p != nil && isString(p.Type()) {
								own = p
							}
						}
					}
				}
				c.Check(own != nil, "upload", fnName(root)+" "+orderText(q), where, "external records are read without restricting them to the upload that was asked for")
				if own != nil {
					if o := readers[root]; o != nil && o != own {
						c.Fail("upload", fnName(root), where, "the upload is taken from different parameters")
					}
					readers[root] = own
				}
				c.paging(root, q, e, where, arg)
			}
		}
	}
	for _, f := range sortedFns(fnSetOf(readers)) {
		c.ownUpload(f, readers[f], in)
	}
	c.storedUnder(starts, in)
	c.oneUpload(in)

	gets := w.reachesCacheOp("Get", "Set")
	var reads []*cacheRead
	for _, f := range sortedFns(fnSetOf(readers)) {
		if !gets[f] && !callsDirect(w, f, func(g *ssa.Function) bool { return gets[g] }) {
			continue
		}
		reads = append(reads, c.cacheRead(f, w.ReachableFrom(f), gets)...)
	}
	for _, a := range c.cacheReads() {
		reads = append(reads, a)
	}
	for i, a := range reads {
		for _, b := range reads[i+1:] {
			if readers[a.Root] != nil && a.Root != b.Root {
				clash := strings.HasPrefix(a.Prefix, b.Prefix) || strings.HasPrefix(b.Prefix, a.Prefix)
				c.Check(!clash, "key-apart", a.Prefix+" / "+b.Prefix, w.Pos(a.Root.Pos()), "the keys of %s and %s begin alike", fnName(a.Root), fnName(b.Root))
			}
		}
	}
	c.Floor("key-apart", 2)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func fnSetOf(m map[*ssa.Function]*ssa.Parameter) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for f := range m {
		r[f] = true
	}
	return r
}

// orderText tells the statements of a function apart.
func orderText(q *Stmt) string {
	var b []string
	for _, s := range q.Sel {
		b = append(b, tokStr(s))
	}
	t := strings.ToLower(strings.Join(strings.Fields(strings.Join(b, " ")), " "))
	if i := strings.Index(t, " as group_key"); i >= 0 {
		return t[:i]
	}
	return ""
}

func (c *Ctx) paging(f *ssa.Function, q *Stmt, e *SQLObs, where string, arg func(string) *Term) {
	name := strings.TrimSpace(fnName(f) + " " + orderText(q))
	text := strings.ToLower(strings.Join(strings.Fields(tokStr(q.Toks)), " "))
	m := regexp.MustCompile(`limit (\$ ?\d+) offset (\$ ?\d+)`).FindStringSubmatch(text)
	if m == nil {
		if !strings.Contains(text, "limit") && !strings.Contains(text, "offset") {
			return // all records at once
		}
		c.Fail("page", name, where, "the page is not given by its size and start: %s", text)
		return
	}
	lim, off := arg(strings.ReplaceAll(m[1], " ", "")), arg(strings.ReplaceAll(m[2], " ", ""))
	good := lim != nil && off != nil
	if good {
		a, b := paramIs(f, lim), paramIs(f, off)
		good = a != nil && b != nil && a != b && !isString(a.Type()) && !isString(b.Type())
		if good {
			// the size comes before the start wherever a page is fetched
			ia, ib := -1, -1
			for i, p := range f.Params {
				if p == a {
					ia = i
				}
				if p == b {
					ib = i
				}
			}
			good = ia < ib
		}
	}
	c.Check(good, "page", name+" bounds", where, "size and start of the page are not the ones asked for")
	// the order is total: it contains the record's own identifier
	i := strings.LastIndex(text, "order by ")
	total := false
	if i >= 0 {
		o := text[i+len("order by "):]
		if j := strings.Index(o, " limit "); j >= 0 {
			o = o[:j]
		}
		for _, p := range strings.Split(o, ",") {
			p = strings.TrimSuffix(strings.TrimSuffix(strings.TrimSpace(p), " desc"), " asc")
			p = strings.ReplaceAll(p, " ", "")
			total = total || p == "id" || p == "id::text" || p == "external_transactions.id"
		}
	}
	c.Check(total, "page", name+" order", where, "records that are equal in the order the pages are cut from may be repeated or skipped from page to page")
}

// ownUpload follows the upload of a reader back to the run.
func (c *Ctx) ownUpload(f *ssa.Function, p *ssa.Parameter, in map[*ssa.Function]bool) {
	w := c.W
	seen := map[ssa.Value]bool{}
	var param func(p *ssa.Parameter)
	var val func(v ssa.Value, at string, where string)
	val = func(v ssa.Value, at, where string) {
		if seen[v] {
			return
		}
		if _, isC := v.(*ssa.Const); !isC {
			seen[v] = true
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			param(x)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				val(e, at, where)
			}
			return
		case *ssa.FreeVar:
			bs := freeBindings(x)
			for _, b := range bs {
				val(b, at, where)
			}
			c.Check(len(bs) > 0, "own", at, where, "the upload is not known where it is used")
			return
		case *ssa.Alloc:
			n := 0
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					n++
					val(s.Val, at, where)
				}
			}
			c.Check(n > 0, "own", at, where, "the upload is not known where it is used")
			return
		case *ssa.Field:
			ok := fieldName(x.X.Type(), x.Field) == "UploadID" && strings.HasSuffix(typeName(x.X.Type()), "model.Reconciliation")
			c.Check(ok, "own", at, where, "the records read are those of %s, not of the run's upload", fieldName(x.X.Type(), x.Field))
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					n := fieldName(fa.X.Type(), fa.Field)
					tn := typeName(fa.X.Type())
					if n == "UploadID" && strings.HasSuffix(tn, "model.Reconciliation") {
						c.Ok("own", at, where)
						return
					}
					// a field of something of the run's own: what it is given anywhere
					cnt := 0
					for _, g := range w.Funcs {
						if !in[g] {
							continue
						}
						Instrs(g, func(i ssa.Instruction) {
							if s, ok := i.(*ssa.Store); ok {
								if fb, ok := s.Addr.(*ssa.FieldAddr); ok && fb.Field == fa.Field && types.Identical(fb.X.Type(), fa.X.Type()) {
									cnt++
									val(s.Val, at, w.Pos(s.Pos()))
								}
							}
						})
					}
					c.Check(cnt > 0, "own", at, where, "the records read are those of %s.%s, not of the run's upload", tn, n)
					return
				}
				val(x.X, at, where)
				return
			}
		}
		c.Fail("own", at, where, "the records read are not those of the run's upload")
	}
	param = func(p *ssa.Parameter) {
		g := p.Parent()
		idx := -1
		for i, q := range g.Params {
			if q == p {
				idx = i
			}
		}
		n := 0
		for _, site := range w.callSites(g) {
			h := site.Parent()
			if isMock(h) || !in[h] {
				continue
			}
			n++
			cc := site.Common()
			args := cc.Args
			i := idx
			if cc.IsInvoke() {
				i--
			}
			if i < 0 || i >= len(args) {
				continue
			}
			val(args[i], fnName(h)+" to "+g.Name(), w.Pos(site.Pos()))
		}
		// handed on as a value: whoever runs it passes it the text it was given
		for _, h := range w.Funcs {
			if !in[h] || isMock(h) {
				continue
			}
			Instrs(h, func(i ssa.Instruction) {
				site, ok := i.(ssa.CallInstruction)
				if !ok {
					return
				}
				for ai, a := range site.Common().Args {
					if _, isSig := a.Type().Underlying().(*types.Signature); !isSig {
						continue
					}
					if !funcValueOf(a, g, map[ssa.Value]bool{}) {
						continue
					}
					n++
					at := fnName(h) + " hands on " + g.Name()
					ts := w.StaticTargets(site.Common())
					if len(ts) == 0 {
						c.Fail("own", at, w.Pos(site.Pos()), "it is not known what %s is called with", fnName(g))
					}
					for _, t := range ts {
						off := 0
						if site.Common().IsInvoke() {
							off = 1
						}
						if ai+off >= len(t.Params) {
							continue
						}
						for _, q := range w.passedTo(t.Params[ai+off], idx-recvOf(g), map[*ssa.Parameter]bool{}) {
							switch y := q.v.(type) {
							case *ssa.Parameter:
								if y.Parent() != t {
									c.Fail("own", at, q.where, "what %s is called with is not what it was started with", fnName(g))
									continue
								}
								for pi, tp := range t.Params {
									if tp == y {
										val(site.Common().Args[pi-off], at, w.Pos(site.Pos()))
									}
								}
							default:
								c.Fail("own", at, q.where, "what %s is called with is not what it was started with", fnName(g))
							}
						}
					}
				}
			})
		}
		if g.Object() != nil || n > 0 {
			c.Check(n > 0, "own", "callers of "+fnName(g), w.Pos(g.Pos()), "no call of it is known")
		}
	}
	param(p)
}

func recvOf(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		return 1
	}
	return 0
}

// funcValueOf: the value is (or may be) the function, or one of its methods bound to a receiver.
func funcValueOf(v ssa.Value, g *ssa.Function, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return unwrap(x) == g
	case *ssa.MakeClosure:
		return unwrap(x.Fn.(*ssa.Function)) == g
	case *ssa.ChangeType:
		return funcValueOf(x.X, g, seen)
	case *ssa.MakeInterface:
		return funcValueOf(x.X, g, seen)
	case *ssa.UnOp:
		return funcValueOf(x.X, g, seen)
	case *ssa.Call:
		if h := x.Call.StaticCallee(); h != nil {
			for _, b := range h.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, y := range ret.Results {
						if funcValueOf(y, g, seen) {
							return true
						}
					}
				}
			}
		}
	case *ssa.FreeVar:
		for _, b := range freeBindings(x) {
			if funcValueOf(b, g, seen) {
				return true
			}
		}
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(x) && funcValueOf(s.Val, g, seen) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if funcValueOf(e, g, seen) {
				return true
			}
		}
	}
	return false
}

type passed struct {
	v     ssa.Value
	where string
}

// passedTo: what a function parameter is called with in the given position, in terms of the parameters of its function.
func (w *World) passedTo(p *ssa.Parameter, idx int, seen map[*ssa.Parameter]bool) (r []passed) {
	if seen[p] {
		return
	}
	seen[p] = true
	f := p.Parent()
	vals := map[ssa.Value]bool{p: true}
	var fns []*ssa.Function
	fns = append(fns, f)
	var anon func(g *ssa.Function)
	anon = func(g *ssa.Function) {
		for _, a := range g.AnonFuncs {
			fns = append(fns, a)
			anon(a)
		}
	}
	anon(f)
	lower := func(v ssa.Value) ssa.Value { // in terms of f
		for i := 0; i < 5; i++ {
			switch x := v.(type) {
			case *ssa.FreeVar:
				if bs := freeBindings(x); len(bs) == 1 {
					v = bs[0]
					continue
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if a, ok := x.X.(*ssa.Alloc); ok {
						if s := soleStored(a); s != nil {
							v = s
							continue
						}
					}
					if fv, ok := x.X.(*ssa.FreeVar); ok {
						if bs := freeBindings(fv); len(bs) == 1 {
							if a, ok := bs[0].(*ssa.Alloc); ok {
								if s := soleStored(a); s != nil {
									v = s
									continue
								}
							}
						}
					}
				}
			}
			break
		}
		return v
	}
	for _, g := range fns {
		Instrs(g, func(in ssa.Instruction) {
			site, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := site.Common()
			if !cc.IsInvoke() && vals[lower(cc.Value)] && idx < len(cc.Args) {
				r = append(r, passed{lower(cc.Args[idx]), w.Pos(site.Pos())})
			}
			for ai, a := range cc.Args {
				if !vals[lower(a)] {
					continue
				}
				for _, t := range w.StaticTargets(cc) {
					off := 0
					if cc.IsInvoke() {
						off = 1
					}
					if ai+off >= len(t.Params) {
						continue
					}
					for _, q := range w.passedTo(t.Params[ai+off], idx, seen) {
						if y, ok := q.v.(*ssa.Parameter); ok && y.Parent() == t {
							for pi, tp := range t.Params {
								if tp == y && pi-off >= 0 {
									r = append(r, passed{lower(cc.Args[pi-off]), q.where})
								}
							}
							continue
						}
						r = append(r, q)
					}
				}
			}
		})
	}
	return
}

func soleStored(a *ssa.Alloc) ssa.Value {
	var r ssa.Value
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			if r != nil {
				return nil
			}
			r = s.Val
		}
	}
	return r
}

// storedUnder: external records are inserted under the upload given, and those of an immediate run under the run's.
func (c *Ctx) storedUnder(starts []*ssa.Function, in map[*ssa.Function]bool) {
	w := c.W
	ins := map[*ssa.Function]*ssa.Parameter{}
	for _, s := range w.CollectSQL().Sites {
		if isMock(s.Fn) {
			continue
		}
		for _, e := range s.Events {
			if e.Stmt == nil || e.Stmt.Kind != "INSERT" || e.Stmt.Table != "external_transactions" {
				continue
			}
			root := s.Fn
			var p *ssa.Parameter
			for i, col := range e.Stmt.Cols {
				if col == "upload_id" && e.ArgsOK && len(e.Stmt.Values) > i {
					if m := placeNo.FindStringSubmatch(strings.ReplaceAll(tokStr(e.Stmt.Values[i]), " ", "")); m != nil {
						n := 0
						for _, d := range m[1] {
							n = n*10 + int(d-'0')
						}
						if n >= 1 && n <= len(e.Args) {
							p = paramIs(root, e.Args[n-1])
						}
					}
				}
			}
			c.Check(p != nil, "stored-under", fnName(root), w.Pos(s.Site.Pos()), "an external record is not stored under the upload it is given for")
			if p != nil {
				ins[root] = p
			}
		}
	}
	// immediate runs
	n := 0
	for _, f := range starts {
		lit := w.runUploads(f)
		for g, p := range ins {
			var up func(g *ssa.Function, p *ssa.Parameter, d int)
			up = func(g *ssa.Function, p *ssa.Parameter, d int) {
				idx := -1
				for i, q := range g.Params {
					if q == p {
						idx = i
					}
				}
				for _, site := range w.callSites(g) {
					h := site.Parent()
					if isMock(h) || !w.ReachableFrom(f)[h] || d > 6 {
						continue
					}
					i := idx
					if site.Common().IsInvoke() {
						i--
					}
					v := site.Common().Args[i]
					if h == f {
						n++
						same := len(lit) > 0
						for _, l := range lit {
							same = same && heldValue(l) == heldValue(v)
						}
						c.Check(same, "stored-under", fnName(f), w.Pos(site.Pos()), "records given to an immediate run are not stored under the upload of that run")
						continue
					}
					if q, ok := v.(*ssa.Parameter); ok {
						up(h, q, d+1)
						continue
					}
					c.Fail("stored-under", fnName(h), w.Pos(site.Pos()), "an external record is stored under an upload it was not given for")
				}
			}
			up(g, p, 0)
		}
	}
	c.Check(n > 0, "stored-under", "immediate runs", "", "no run stores the records it is given")
}

// oneUpload: a run's upload is set once, where the run is made.
func (c *Ctx) oneUpload(in map[*ssa.Function]bool) {
	w := c.W
	for _, f := range w.Funcs {
		if !in[f] || isMock(f) {
			continue
		}
		n := 0
		Instrs(f, func(i ssa.Instruction) {
			s, ok := i.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != "UploadID" || !strings.HasSuffix(typeName(fa.X.Type()), "model.Reconciliation") {
				return
			}
			n++
			_, fresh := fa.X.(*ssa.Alloc)
			c.Check(fresh && n == 1, "own", fnName(f)+" makes the run", w.Pos(s.Pos()), "the upload of a run is replaced after the run was made")
		})
	}
}

// heldValue: the value a variable that is set once holds.
func heldValue(v ssa.Value) ssa.Value {
	for i := 0; i < 5; i++ {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			break
		}
		a, ok := u.X.(*ssa.Alloc)
		if !ok {
			break
		}
		s := soleStored(a)
		if s == nil {
			break
		}
		v = s
	}
	return v
}

// runUploads: what the runs made by a function, or by a helper it calls, have for an upload.
func (w *World) runUploads(f *ssa.Function) (r []ssa.Value) {
	made := func(g *ssa.Function) (r []ssa.Value) {
		for _, a := range structLit(g, Mod+"/model.Reconciliation") {
			for _, u := range *a.Referrers() {
				if fa, ok := u.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "UploadID" {
					for _, z := range *fa.Referrers() {
						if s, ok := z.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
							r = append(r, s.Val)
						}
					}
				}
			}
		}
		return
	}
	r = made(f)
	Instrs(f, func(in ssa.Instruction) {
		k, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		g := k.Call.StaticCallee()
		if g == nil || !w.InModule(g) || g.Signature.Results().Len() == 0 || !strings.HasSuffix(typeName(g.Signature.Results().At(0).Type()), "model.Reconciliation") {
			return
		}
		for _, v := range made(g) {
			x := heldValue(v)
			if p, ok := x.(*ssa.Parameter); ok {
				for i, q := range g.Params {
					if q == p {
						r = append(r, k.Call.Args[i])
					}
				}
				continue
			}
			r = append(r, v)
		}
	})
	return
}

const matchList = "[]" + Mod + "/model.Match"

// reconcilerSig: matches and the identifiers of what was not matched.
func reconcilerSig(sig *types.Signature) bool {
	return sig.Results().Len() == 2 && sig.Results().At(0).Type().String() == matchList && sig.Results().At(1).Type().String() == "[]string"
}

func ruleR02(c *Ctx) {
	w := c.W
	c.Rule("dry", "Within a run, every call that stores matches or unmatched records, changes a transaction or another entity, or hands the run to other systems stands where the run is known not to be a dry run.")
	c.Rule("recorded", "A real run stores the matches and the unmatched records that were found for a record before it counts the record as processed, and reports an error if storing fails.")
	c.Rule("each", "Storing results stores every one of them under the run, and reports any that failed.")
	c.Rule("worker", "A record whose processing failed makes the batch report a failure.")
	c.Rule("completed", "A run is marked completed only after processing ended without error; otherwise it is marked failed.")
	c.Rule("validated", "A matching rule is stored only after it was validated.")
	c.Rule("refused", "Validation refuses rules without a name or criteria, criteria whose field or operator the comparison does not know, and drifts that are negative or (amounts) above one.")
	c.Floor("dry", 3)
	c.Floor("recorded", 3)
	c.Floor("each", 2)
	c.Floor("worker", 1)
	c.Floor("completed", 2)
	c.Floor("validated", 2)
	c.Floor("refused", 6)
	starts, in := w.reconRuns()
	c.dryEffects(starts, in)
	c.reconRecorded(in)
	c.reconEach()
	c.reconWorkers(in)
	c.reconOutcome(starts, in)
	c.ruleValidation()
}

// dryCond: whether the condition being true means a dry run, or a real one.
func (w *World) dryCond(v ssa.Value, d int) (dry, notDry bool) {
	if d > 6 {
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			a, b := w.dryCond(x.X, d+1)
			return b, a
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "IsDryRun" {
			return true, false
		}
		if x.Op == token.MUL {
			if h := heldValue(x); h != v {
				return w.dryCond(h, d+1)
			}
		}
	case *ssa.Field:
		if fieldName(x.X.Type(), x.Field) == "IsDryRun" {
			return true, false
		}
	case *ssa.BinOp:
		if k, ok := x.Y.(*ssa.Const); ok && (x.Op == token.EQL || x.Op == token.NEQ) && k.Value != nil {
			a, b := w.dryCond(x.X, d+1)
			if (k.Value.ExactString() == "true") == (x.Op == token.EQL) {
				return a, b
			}
			return b, a
		}
	case *ssa.Parameter:
		// what every caller gives
		f := x.Parent()
		sites := w.callSites(f)
		if len(sites) == 0 {
			return
		}
		dry, notDry = true, true
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, s := range sites {
				if isMock(s.Parent()) {
					continue
				}
				if s.Common().IsInvoke() || i >= len(s.Common().Args) {
					return false, false
				}
				a, b := w.dryCond(s.Common().Args[i], d+1)
				dry, notDry = dry && a, notDry && b
			}
		}
		return
	case *ssa.Phi:
		// a && b: false unless the first holds
		dry, notDry = true, true
		one := false
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
				continue
			}
			one = true
			a, b := w.dryCond(e, d+1)
			p := x.Block().Preds[i]
			na := a || unreachableWithout(p, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) { t, e := w.dryCond(iff.Cond, d+1); return t, e })
			nb := b || unreachableWithout(p, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) { t, e := w.dryCond(iff.Cond, d+1); return e, t })
			dry, notDry = dry && na, notDry && nb
		}
		return dry && one, notDry && one
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || !w.InModule(g) || g.Blocks == nil || g.Signature.Results().Len() != 1 {
			return
		}
		dry, notDry = true, true
		n := 0
		for _, b := range g.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				p, q := w.dryCond(ret.Results[0], d+1)
				dry, notDry = dry && p, notDry && q
			}
		}
		return dry && n > 0, notDry && n > 0
	}
	return
}

// realOnly: the instruction is reached only in a run that is known not to be dry, within its function or at every way into it.
func (w *World) realOnly(at ssa.Instruction, in map[*ssa.Function]bool, d int) bool {
	if unreachableWithout(at.Block(), func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) {
		dry, real := w.dryCond(iff.Cond, 0)
		return real, dry
	}) {
		return true
	}
	if d > 6 {
		return false
	}
	f := at.Parent()
	n := 0
	for _, s := range w.callSites(f) {
		if !in[s.Parent()] || isMock(s.Parent()) {
			continue
		}
		n++
		if !w.realOnly(s, in, d+1) {
			return false
		}
	}
	if f.Parent() != nil {
		ok := true
		Instrs(f.Parent(), func(i ssa.Instruction) {
			if mc, is := i.(*ssa.MakeClosure); is && mc.Fn == f {
				n++
				ok = ok && w.realOnly(mc, in, d+1)
			}
		})
		if !ok {
			return false
		}
	}
	return n > 0
}

// dryEffects: what a run does to anything but itself.
func (c *Ctx) dryEffects(starts []*ssa.Function, in map[*ssa.Function]bool) {
	w := c.W
	own := map[string]bool{"reconciliations": true, "reconciliation_progress": true, "external_transactions": true}
	_, all := w.SQLEffects()
	run := w.ReachableFrom(starts...)
	for _, f := range sortedFns(run) {
		if isMock(f) || !inPkg(f, Mod) {
			continue
		}
		Instrs(f, func(i ssa.Instruction) {
			k, ok := i.(ssa.CallInstruction)
			if !ok {
				return
			}
			eff := ""
			for _, g := range w.StaticTargets(k.Common()) {
				if isMock(g) {
					continue
				}
				if inPkg(g, Mod+"/database") {
					for e := range all[g] {
						if t := strings.ToLower(e.Kind) + " " + e.Table; e.Kind != "SELECT" && !own[e.Table] && t > eff {
							eff = t
						}
					}
				}
				if onQueue(g) && g.Signature.Recv() != nil {
					eff = "handing work to the queue"
				}
			}
			if eff == "" {
				return
			}
			c.Check(w.realOnly(i, in, 0), "dry", fnName(f)+" "+eff, w.Pos(i.Pos()), "a dry run may reach this call (%s)", eff)
		})
	}
}

// reconRecorded: what was found for a record is stored before the record counts as processed.
func (c *Ctx) reconRecorded(in map[*ssa.Function]bool) {
	w := c.W
	mIns, uIns := w.touches("INSERT", "matches"), w.touches("INSERT", "unmatched")
	for _, f := range sortedFns(in) {
		if isMock(f) || !inPkg(f, Mod) || f.Synthetic != "" {
			continue
		}
		calls := false
		Instrs(f, func(i ssa.Instruction) {
			if k, ok := i.(*ssa.Call); ok && !k.Call.IsInvoke() && k.Call.StaticCallee() == nil && reconcilerSig(k.Call.Signature()) {
				calls = true
			}
		})
		if !calls {
			continue
		}
		name := fnName(f)
		ei := ErrIndex(f.Signature)
		c.Check(ei >= 0, "recorded", name, w.Pos(f.Pos()), "what becomes of a record is not reported")
		if ei < 0 {
			continue
		}
		en := NewEngine(w)
		en.Relevant = map[*ssa.Function]bool{}
		for g := range w.ReachableFrom(f) {
			if inPkg(g, Mod) && !isMock(g) && len(g.Blocks) < 12 {
				en.Relevant[g] = true
			}
		}
		check := func(st *State, where, what string) {
			if st.Has("dry") {
				return
			}
			for _, x := range []string{"matches", "unmatched"} {
				done := st.Has("none:"+x) || st.Has("stored:"+x)
				c.Check(done, "recorded", name+" "+x, where, "%s although the %s found were not stored", what, x)
			}
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Fn == nil && k.Iface == "" && k.Sig != nil && reconcilerSig(k.Sig) {
				st.vals["matches"], st.vals["unmatched"] = en.Res(st, k, 0), en.Res(st, k, 1)
				return []*State{st}, true
			}
			for x, set := range map[string]map[*ssa.Function]bool{"matches": mIns, "unmatched": uIns} {
				if !hitsAny(k, set) {
					continue
				}
				given, run := false, false
				for _, a := range k.Args {
					given = given || st.vals[x] != nil && a.Strip() == st.vals[x].Strip()
					if _, fs := a.Strip().Path(); len(fs) > 0 && fs[len(fs)-1] == "ReconciliationID" {
						run = true
					}
				}
				c.Check(given && run, "recorded", name+" stores "+x, w.Pos(k.Site.Pos()), "it is not the %s found that are stored, or not under this run", x)
				ok, fail := en.Fork(st, k)
				ok.Add("stored:" + x)
				fail.Add("lost")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
			for cond.Op == "un" && cond.Name == "!" {
				cond, taken = cond.Args[0], !taken
			}
			if _, fs := cond.Strip().Path(); len(fs) > 0 && fs[len(fs)-1] == "IsDryRun" && taken {
				st.Add("dry")
			}
			for _, x := range []string{"matches", "unmatched"} {
				v := st.vals[x]
				if v == nil {
					continue
				}
				if t, empty := emptiness(cond); t != nil && taken == empty && t.Strip() == v.Strip() {
					st.Add("none:" + x)
				}
			}
		}
		en.H.Store = func(en *Engine, st *State, addr, val *Term, in ssa.Instruction, f *Frame) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "ProcessedCount" {
					check(st, w.Pos(in.Pos()), "the record is counted as processed")
				}
			}
		}
		for _, e := range en.Run(f, nil) {
			if ei < len(e.res) && en.Kind(e.st, e.res[ei]) == "nonnil" {
				continue
			}
			where := w.Pos(f.Pos())
			if e.ret != nil {
				where = w.Pos(e.ret.Pos())
			}
			c.Check(!e.st.Has("lost"), "recorded", name+" failure", where, "no error is reported although storing the results failed")
			check(e.st, where, "the record is done")
		}
		c.Engine(en)
	}
}

// reconEach: storing results goes through all of them.
func (c *Ctx) reconEach() {
	w := c.W
	for _, table := range []string{"matches", "unmatched"} {
		ins := w.touches("INSERT", table)
		for _, f := range sortedFns(ins) {
			var list *ssa.Parameter
			for _, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					list = p
				}
			}
			if list == nil {
				continue
			}
			name := fnName(f)
			found := false
			direct, _ := w.SQLEffects()
			stores := func(k ssa.CallInstruction) bool {
				for _, s := range w.CollectSQL().Sites {
					if s.Site == k.(ssa.Instruction) {
						for _, e := range s.Events {
							if e.Stmt != nil && e.Stmt.Kind == "INSERT" && e.Stmt.Table == table {
								return true
							}
						}
					}
				}
				for _, g := range w.StaticTargets(k.Common()) {
					for e := range direct[g] {
						if e.Kind == "INSERT" && e.Table == table {
							return true
						}
					}
				}
				return false
			}
			Instrs(f, func(i ssa.Instruction) {
				k, ok := i.(ssa.CallInstruction)
				if !ok || !stores(k) {
					return
				}
				found = true
				h := loopAround(i.Block())
				good := h != nil && eachTurn(h, i.Block()) && leavesOnlyFailing(h)
				c.Check(good, "each", name, w.Pos(i.Pos()), "not every result given is stored, or one that failed is passed over")
			})
			c.Check(found, "each", name+" stores", w.Pos(f.Pos()), "results are not stored one by one")
			for _, s := range w.CollectSQL().Sites {
				for _, e := range s.Events {
					if e.Stmt == nil || e.Stmt.Kind != "INSERT" || e.Stmt.Table != table || s.Fn != f && !w.ReachableFrom(f)[s.Fn] {
						continue
					}
					run := false
					for j, col := range e.Stmt.Cols {
						if col == "reconciliation_id" && e.ArgsOK && j < len(e.Args) {
							t := peelText(e.Args[j])
							_, fs := t.Path()
							run = paramIs(s.Fn, t) != nil || len(fs) > 0 && fs[len(fs)-1] == "ReconciliationID"
						}
					}
					c.Check(run, "each", name+" run", w.Pos(s.Site.Pos()), "a result is not stored under the run it was found in")
				}
			}
		}
	}
}

// reconWorkers: a record whose processing failed is reported.
func (c *Ctx) reconWorkers(in map[*ssa.Function]bool) {
	w := c.W
	for _, f := range sortedFns(in) {
		if !inPkg(f, Mod) || isMock(f) || !workerSig(f.Signature) || f.Synthetic != "" {
			continue
		}
		name := fnName(f)
		processes := map[*ssa.Function]bool{}
		Instrs(f, func(i ssa.Instruction) {
			if k, ok := i.(ssa.CallInstruction); ok {
				for _, g := range w.StaticTargets(k.Common()) {
					if in[g] && inPkg(g, Mod) && ErrIndex(g.Signature) >= 0 {
						processes[g] = true
					}
				}
			}
		})
		if len(processes) == 0 || len(processes) > 4 {
			continue
		}
		en := NewEngine(w)
		en.Relevant = map[*ssa.Function]bool{}
		owed := func(st *State, where string) {
			c.Check(!st.Has("owed"), "worker", name, where, "a record whose processing failed is left without a result that says so")
		}
		found := false
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			if k.Kind == "call" && hitsAny(k, processes) {
				found = true
				ok, fail := en.Fork(st, k)
				fail.Add("owed")
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Instr = func(en *Engine, st *State, in ssa.Instruction, f *Frame) {
			if s, ok := in.(*ssa.Send); ok {
				v := en.Eval(st, f, s.X)
				if st2, ok := s.X.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st2.NumFields(); i++ {
						if isErr(st2.Field(i).Type()) {
							if t := en.fieldOf(st, v, st2.Field(i).Name()); t != nil && en.Kind(st, t) == "nonnil" {
								st.Del("owed")
							}
						}
					}
				}
			}
		}
		en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub) {
			if f.Caller == nil && en.isLoopHeader(to) {
				owed(st, w.Pos(from.Instrs[len(from.Instrs)-1].Pos()))
			}
		}
		for _, e := range en.Run(f, nil) {
			if e.ret != nil {
				owed(e.st, w.Pos(e.ret.Pos()))
			}
		}
		if found {
			c.Ok("worker", name+" processing", w.Pos(f.Pos()))
		}
		c.Engine(en)
	}
}

// reconOutcome: the status a run ends with.
func (c *Ctx) reconOutcome(starts []*ssa.Function, in map[*ssa.Function]bool) {
	w := c.W
	upd := w.touches("UPDATE", "reconciliations")
	rec := w.touches("INSERT", "reconciliations")
	batch := map[*ssa.Function]bool{}
	for f := range in {
		if isBatchRunner(f) {
			batch[f] = true
		}
	}
	runsBatch := w.Reaches(func(f *ssa.Function) bool { return batch[f] })
	sets := w.Reaches(func(f *ssa.Function) bool { return upd[f] })
	// where a status is set
	for _, f := range starts {
		name := fnName(f)
		en := NewEngine(w)
		en.Relevant = map[*ssa.Function]bool{}
		for g := range w.ReachableFrom(f) {
			if inPkg(g, Mod) && !isMock(g) && (sets[g] || runsBatch[g]) && !batch[g] && g.Parent() == nil {
				en.Relevant[g] = true
			}
		}
		store := map[*ssa.Function]bool{}
		for g := range w.touches("INSERT", "external_transactions") {
			store[g] = true
		}
		en.NoInline = func(g *ssa.Function) bool { return batch[g] }
		done := func(st *State, where, what string) {
			c.Check(st.Has("failed") || st.Has("completed"), "completed", name+" "+what, where, "a run that was recorded ends without being marked completed or failed")
			c.Check(!st.Has("completed-late"), "completed", name+" "+what, where, "a run is marked completed although processing failed")
		}
		en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
			switch {
			case hitsAny(k, rec):
				ok, fail := en.Fork(st, k)
				ok.Add("run")
				return []*State{ok, fail}, true
			case hitsAny(k, store):
				ok, fail := en.Fork(st, k)
				return []*State{ok, fail}, true
			case k.Fn != nil && batch[k.Fn]:
				// the workers change what they were given
				for _, key := range sortedKeys(st.mem) {
					a := st.mem[key].addr
					if a.Op != "field" || len(a.Args) == 0 || a.Args[0].Op != "alloc" || strings.HasPrefix(typeOfAddr(a.Args[0]), "model.") {
						continue
					}
					if so := structOf(a.Args[0].V.Type()); so != nil {
						for i := 0; i < so.NumFields(); i++ {
							fa := en.mk("field", so.Field(i).Name(), nil, nil, a.Args[0])
							en.SetMem(st, fa, en.mk("out", "workers~"+fa.key, nil, nil))
						}
					}
				}
				ok, fail := en.Fork(st, k)
				ok.Add("processed")
				fail.Add("broken")
				return []*State{ok, fail}, true
			case hitsAny(k, upd):
				ok, fail := en.Fork(st, k)
				status := ""
				for _, a := range k.Args {
					if s, is := a.Strip().Str(); is {
						status = s
					}
				}
				c.Check(status != "", "completed", name+" status", w.Pos(k.Site.Pos()), "a run is given a status that is not known")
				switch status {
				case "completed":
					c.Check(st.Has("processed") && !st.Has("broken"), "completed", name+" after processing", w.Pos(k.Site.Pos()), "a run is marked completed without its processing having ended without error")
					ok.Add("completed")
				case "failed":
					ok.Add("failed")
					fail.Add("failed") // the attempt was made
				}
				return []*State{ok, fail}, true
			}
			return nil, false
		}
		en.H.Go = func(en *Engine, st *State, k *Call) {
			if k.Fn == nil || !runsBatch[k.Fn] {
				return
			}
			st.Add("started")
			for _, e := range en.RunArgs(k.Fn, st.Clone(), k.Args, k.Free) {
				where := w.Pos(k.Fn.Pos())
				if e.ret != nil {
					where = w.Pos(e.ret.Pos())
				}
				done(e.st, where, "processing")
			}
		}
		for _, e := range en.Run(f, nil) {
			if !e.st.Has("run") || e.st.Has("started") {
				continue
			}
			where := w.Pos(f.Pos())
			if e.ret != nil {
				where = w.Pos(e.ret.Pos())
			}
			done(e.st, where, "starting")
		}
		c.Engine(en)
	}
}

// compared: the constants a field of a criterion is compared with where records are compared.
func (w *World) compared(in map[*ssa.Function]bool, field string) map[string]bool {
	r := map[string]bool{}
	isField := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Field:
			return fieldName(x.X.Type(), x.Field) == field && strings.HasSuffix(typeName(x.X.Type()), "MatchingCriteria")
		case *ssa.UnOp:
			fa, ok := x.X.(*ssa.FieldAddr)
			return ok && fieldName(fa.X.Type(), fa.Field) == field && strings.HasSuffix(typeName(fa.X.Type()), "MatchingCriteria")
		}
		return false
	}
	for f := range in {
		if isMock(f) {
			continue
		}
		Instrs(f, func(i ssa.Instruction) {
			b, ok := i.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				return
			}
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if k, ok := p[1].(*ssa.Const); ok && k.Value != nil && isField(p[0]) {
					r[strings.Trim(k.Value.ExactString(), "\"")] = true
				}
			}
		})
	}
	delete(r, "")
	return r
}

// constStrings: the constant elements of a list.
func (w *World) constStrings(v ssa.Value, d int) (r []string, ok bool) {
	if d > 4 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		es := variadicElems(v)
		for _, e := range es {
			k, is := e.(*ssa.Const)
			if !is || k.Value == nil {
				return nil, false
			}
			r = append(r, strings.Trim(k.Value.ExactString(), "\""))
		}
		return r, len(es) > 0
	case *ssa.UnOp:
		if g, is := x.X.(*ssa.Global); is && g.Pkg != nil && !w.storedOutsideInit(g) {
			Instrs(g.Pkg.Func("init"), func(in ssa.Instruction) {
				if st, is := in.(*ssa.Store); is && st.Addr == ssa.Value(g) {
					r, ok = w.constStrings(st.Val, d+1)
				}
			})
			return
		}
		if h := heldValue(v); h != v {
			return w.constStrings(h, d+1)
		}
	}
	return nil, false
}

func isCriterion(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return strings.HasSuffix(typeName(t), "model.MatchingCriteria")
}

// ruleValidation: no rule is stored that was not validated.
func (c *Ctx) ruleValidation() {
	w := c.W
	_, in := w.reconRuns()
	fields, ops := w.compared(in, "Field"), w.compared(in, "Operator")
	c.Check(len(fields) > 0 && len(ops) > 0, "refused", "known", "", "the fields and operators the comparison knows are not found")
	stores := w.touches("INSERT", "matching_rules")
	for f := range w.touches("UPDATE", "matching_rules") {
		stores[f] = true
	}
	for _, f := range sortedFns(w.callsOf(stores)) {
		if isMock(f) || !inPkg(f, Mod) {
			continue
		}
		tops := []*ssa.Function{f}
		if !w.api(f) {
			tops = nil
			for g := range w.topsOf(map[*ssa.Function]bool{f: true}) {
				tops = append(tops, g)
			}
		}
		for _, t := range tops {
			c.ruleStored(t, stores, fields, ops)
		}
	}
}

func (c *Ctx) ruleStored(f *ssa.Function, stores map[*ssa.Function]bool, fields, ops map[string]bool) {
	w := c.W
	name := fnName(f)
	en := NewEngine(w)
	en.MaxDepth = 8
	en.Relevant = map[*ssa.Function]bool{}
	for g := range w.ReachableFrom(f) {
		if !inPkg(g, Mod) || isMock(g) || g == f {
			continue
		}
		for i := 0; i < g.Signature.Params().Len(); i++ {
			t := g.Signature.Params().At(i).Type()
			if isCriterion(t) || strings.Contains(t.String(), "model.MatchingRule") {
				en.Relevant[g] = true
			}
		}
		if ErrIndex(g.Signature) >= 0 && g.Signature.Params().Len() == 1 && isString(g.Signature.Params().At(0).Type()) {
			en.Relevant[g] = true
		}
	}
	last := func(t *Term) string {
		if t == nil {
			return ""
		}
		_, fs := t.Strip().Path()
		if len(fs) == 0 {
			return ""
		}
		return fs[len(fs)-1]
	}
	// a criterion may count as validated
	crit := func(st *State, where string) {
		has := func(x string) bool { return st.Has("c:" + x) }
		c.Check(has("field"), "refused", name+" field", where, "a criterion whose field the comparison does not know is let through (the comparison knows %s)", strings.Join(sortedKeys(fields), ", "))
		c.Check(has("op"), "refused", name+" operator", where, "a criterion whose operator the comparison does not know is let through (the comparison knows %s)", strings.Join(sortedKeys(ops), ", "))
		if st.Has("c:Operator!=equals") {
			return
		}
		if !st.Has("c:Field!=amount") {
			c.Check(has("drift>=0") && has("drift<=1"), "refused", name+" amount drift", where, "a drift for an amount below 0 or above 1 is let through")
		}
		if !st.Has("c:Field!=date") && !st.Has("c:Field=amount") {
			c.Check(has("drift>=0"), "refused", name+" date drift", where, "a negative drift for a date is let through")
		}
	}
	en.H.Call = func(en *Engine, st *State, k *Call) ([]*State, bool) {
		if hitsAny(k, stores) {
			where := w.Pos(k.Site.Pos())
			for _, x := range []string{"Name", "Criteria"} {
				c.Check(st.Has("r:"+x), "refused", name+" "+x, where, "a rule without %s is stored", strings.ToLower(x))
			}
			c.Check(st.Has("each"), "validated", name, where, "a rule is stored without every one of its criteria having been validated")
			return nil, false
		}
		// membership of a fixed list
		ci, ok := k.Site.(ssa.CallInstruction)
		if ok && k.Sig != nil && k.Sig.Results().Len() == 1 && k.Sig.Results().At(0).Type().String() == "bool" && len(k.Args) >= 2 {
			var list []string
			known := false
			var x *Term
			cargs := ci.Common().Args
			for i, a := range cargs {
				if l, is := w.constStrings(a, 0); is {
					list, known = l, true
				} else if i < len(k.Args) {
					if n := last(k.Args[i]); n == "Field" || n == "Operator" {
						x = k.Args[i]
					}
				}
			}
			if known && x != nil && isMembership(k.Fn) {
				want, key := fields, "field"
				if last(x) == "Operator" {
					want, key = ops, "op"
				}
				sub := true
				for _, e := range list {
					sub = sub && want[e]
				}
				yes, no, _ := en.forkBool(st, k)
				if sub {
					yes.Add("c:" + key)
				}
				return []*State{yes, no}, true
			}
		}
		return nil, false
	}
	en.H.Branch = func(en *Engine, st *State, cond *Term, taken bool, in ssa.Instruction, f *Frame) {
		for cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		if t, empty := emptiness(cond); t != nil && taken != empty {
			if n := last(t); n == "Name" || n == "Criteria" {
				st.Add("r:" + n)
			}
		}
		// a map of known names
		if cond.Op == "lookup" || cond.Op == "extract" {
			if iff, ok := in.(*ssa.If); ok {
				if m, key := mapMember(iff.Cond); m != nil && taken {
					x := last(en.Eval(st, f, key))
					want, kind := fields, "field"
					if x == "Operator" {
						want, kind = ops, "op"
					}
					if l, ok := w.constKeys(m); ok && (x == "Field" || x == "Operator") {
						sub := true
						for _, e := range l {
							sub = sub && want[e]
						}
						if sub {
							st.Add("c:" + kind)
						}
					}
				}
			}
		}
		if cond.Op != "bin" {
			return
		}
		for i := 0; i < 2; i++ {
			n := last(cond.Args[i])
			k := cond.Args[1-i]
			switch {
			case cond.Name == "==" && (n == "Field" || n == "Operator"):
				v, ok := k.Str()
				if !ok || v == "" {
					continue
				}
				if taken {
					st.Add("c:" + n + "=" + v)
					if n == "Field" && fields[v] {
						st.Add("c:field")
					}
					if n == "Operator" && ops[v] {
						st.Add("c:op")
					}
				} else {
					st.Add("c:" + n + "!=" + v)
				}
			case n == "AllowableDrift":
				v := strings.TrimSuffix(strings.TrimSuffix(k.String(), ":float64"), ".0")
				zero, one := v == "0", v == "1"
				op := cond.Name
				if i == 1 { // const op drift
					op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
				}
				if !taken {
					op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
				}
				if zero && (op == ">=" || op == ">") {
					st.Add("c:drift>=0")
				}
				if one && (op == "<=" || op == "<") {
					st.Add("c:drift<=1")
				}
			}
		}
	}
	en.H.Header = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame, subs []PhiSub) {
		if loopBlocks(to) == nil || !w.rangesCriteria(f.Fn, to) {
			return
		}
		if to.Dominates(from) {
			crit(st, w.Pos(from.Instrs[len(from.Instrs)-1].Pos()))
			for _, x := range st.Facts() {
				if strings.HasPrefix(x, "c:") {
					st.Del(x)
				}
			}
			return
		}
		st.Add("looping")
	}
	en.H.Edge = func(en *Engine, st *State, from, to *ssa.BasicBlock, f *Frame) {
		if b := loopBlocks(from); b != nil && !b[to] && w.rangesCriteria(f.Fn, from) {
			st.Add("each") // left through its head: every element was seen
		}
	}
	en.Run(f, nil)
	c.Engine(en)
}

// rangesCriteria: a loop over the criteria of a rule from the first to the last.
func (w *World) rangesCriteria(f *ssa.Function, h *ssa.BasicBlock) bool {
	for b := range loopBlocks(h) {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if s, ok := ia.X.Type().Underlying().(*types.Slice); ok && isCriterion(s.Elem()) {
					if lenOf(h, ia.X) {
						return true
					}
				}
			}
		}
	}
	return false
}

// lenOf: the loop's head compares the index with the length of the list.
func lenOf(h *ssa.BasicBlock, list ssa.Value) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS {
		return false
	}
	k, ok := b.Y.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := k.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return false
	}
	// starts before the first and goes up by one
	inc := func(v ssa.Value) bool {
		x, ok := v.(*ssa.BinOp)
		if !ok || x.Op != token.ADD {
			return false
		}
		n, ok := x.Y.(*ssa.Const)
		return ok && n.Value != nil && n.Value.ExactString() == "1"
	}
	switch x := b.X.(type) {
	case *ssa.BinOp: // range: -1, then +1 before the test
		p, ok := x.X.(*ssa.Phi)
		return ok && inc(x) && startsAt(p, h, "-1")
	case *ssa.Phi:
		for i, e := range x.Edges {
			if h.Dominates(h.Preds[i]) && !inc(e) {
				return false
			}
		}
		return startsAt(x, h, "0")
	}
	return false
}

func startsAt(p *ssa.Phi, h *ssa.BasicBlock, want string) bool {
	for i, e := range p.Edges {
		if h.Dominates(h.Preds[i]) {
			continue
		}
		k, ok := e.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.ExactString() != want {
			return false
		}
	}
	return true
}

// isMembership: whether something is one of a list (slices.Contains, or a function of the module that only compares).
func isMembership(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if strings.HasPrefix(f.String(), "slices.Contains") || f.Origin() != nil && strings.HasPrefix(f.Origin().String(), "slices.Contains") {
		return true
	}
	if f.Blocks == nil || len(f.Params) != 2 {
		return false
	}
	// true only where an element was found equal
	ok := true
	for _, b := range f.Blocks {
		ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !is {
			continue
		}
		k, is := ret.Results[0].(*ssa.Const)
		if !is || k.Value == nil {
			if call, is := ret.Results[0].(*ssa.Call); is && isMembership(call.Call.StaticCallee()) {
				continue
			}
			return false
		}
		if k.Value.ExactString() == "true" {
			ok = ok && unreachableWithout(b, func(_ *ssa.BasicBlock, iff *ssa.If) (bool, bool) {
				x, is := iff.Cond.(*ssa.BinOp)
				if !is {
					return false, false
				}
				mine := func(v ssa.Value) bool { p, is := v.(*ssa.Parameter); return is && isString(p.Type()) }
				if !mine(x.X) && !mine(x.Y) {
					return false, false
				}
				return x.Op == token.EQL, x.Op == token.NEQ
			})
		}
	}
	return ok
}

func mapMember(cond ssa.Value) (m, key ssa.Value) {
	if e, ok := cond.(*ssa.Extract); ok && e.Index == 1 {
		cond = e.Tuple
	}
	if l, ok := cond.(*ssa.Lookup); ok {
		return l.X, l.Index
	}
	return nil, nil
}

// constKeys: the keys of a map that is written down in the source.
func (w *World) constKeys(m ssa.Value) (r []string, ok bool) {
	switch x := m.(type) {
	case *ssa.UnOp:
		if g, is := x.X.(*ssa.Global); is {
			gm := w.globalMap(g)
			for k := range gm {
				r = append(r, k)
			}
			return r, gm != nil
		}
	case *ssa.MakeMap:
		for _, u := range *x.Referrers() {
			if mu, is := u.(*ssa.MapUpdate); is && mu.Map == ssa.Value(x) {
				k, is := mu.Key.(*ssa.Const)
				if !is || k.Value == nil {
					return nil, false
				}
				r = append(r, strings.Trim(k.Value.ExactString(), "\""))
			}
		}
		return r, len(r) > 0
	}
	return nil, false
}

// emptiness: the condition tells a text or list is empty, by being the outcome given.
func emptiness(cond *Term) (t *Term, empty bool) {
	if t := emptyTest(cond); t != nil {
		return t, true
	}
	if cond.Op == "bin" && cond.Name == "<" && cond.Args[1].Op == "len" {
		if n, ok := cond.Args[0].Int(); ok && n == 0 {
			return cond.Args[1].Args[0], false
		}
	}
	if cond.Op == "bin" && cond.Name == "<=" && cond.Args[0].Op == "len" {
		if n, ok := cond.Args[1].Int(); ok && n == 0 {
			return cond.Args[0].Args[0], true
		}
	}
	if cond.Op == "bin" && cond.Name == "<=" && cond.Args[1].Op == "len" {
		if n, ok := cond.Args[0].Int(); ok && n == 1 {
			return cond.Args[1].Args[0], false
		}
	}
	return nil, false
}
