package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { rules["D03"] = ruleD03 }

var sqlKeywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields(`select distinct on from where and or not in is null true false as case when then else end between like ilike asc desc by group order having limit offset for update skip locked nowait union all exists interval over partition with values returning set insert into delete conflict do nothing excluded any some array cast extract epoch current_timestamp current_date now using left right inner outer join cross full lateral default at time zone nulls first last similar to escape row rows materialized recursive only filter within share of key fetch next ties window timestamp timestamptz date text varchar numeric bigint integer int float boolean jsonb json char double precision bytea constraint`) {
		sqlKeywords[k] = true
	}
}

// scopeCols returns the tables visible to a statement: alias -> column set (nil = unknown columns).
func (s *Schema) scope(st *Stmt) (map[string]map[string]bool, []string) {
	vis := map[string]map[string]bool{}
	var missing []string
	cte := func(n string) *Stmt {
		for p := st; p != nil; p = p.Parent {
			if c, ok := p.CTEs[n]; ok && c != st {
				return c
			}
		}
		return nil
	}
	colsOf := func(name string) map[string]bool {
		if c := cte(name); c != nil {
			return s.outCols(c)
		}
		t := s.Tables[name]
		if t == nil {
			return nil
		}
		m := map[string]bool{}
		for c := range t.Cols {
			m[c] = true
		}
		return m
	}
	add := func(name, alias string) {
		if name == "" || name == "⟨⟩" {
			vis["?"] = nil
			return
		}
		if cte(name) == nil && s.Tables[name] == nil {
			missing = append(missing, name)
			return
		}
		c := colsOf(name)
		if alias != "" {
			vis[alias] = c
		} else {
			vis[name] = c
		}
	}
	if st.Table != "" {
		add(st.Table, st.Alias)
		if st.Kind == "INSERT" {
			vis["excluded"] = colsOf(st.Table)
		}
	}
	for _, r := range st.From {
		switch {
		case r.Sub != nil:
			if len(r.Sub.Cols) > 0 {
				m := map[string]bool{}
				for _, c := range r.Sub.Cols {
					m[c] = true
				}
				vis[r.Alias] = m
			} else {
				vis[r.Alias] = s.outCols(r.Sub)
			}
		case r.Func:
			if r.Alias != "" {
				vis[r.Alias] = nil
			} else {
				vis[r.Name] = nil
			}
		default:
			add(r.Name, r.Alias)
		}
	}
	return vis, missing
}

func (s *Schema) outCols(st *Stmt) map[string]bool {
	if st.Kind == "VALUES" {
		return nil
	}
	o := st.Outputs()
	if o == nil {
		return nil
	}
	m := map[string]bool{}
	for _, c := range o {
		if c == "" {
			return nil
		}
		m[c] = true
	}
	return m
}

// checkColumns verifies every column reference of one statement (not its nested ones).
func (s *Schema) checkColumns(st *Stmt, report func(kind, what string), ok func(int)) {
	vis, missing := s.scope(st)
	for _, m := range missing {
		report("table", m)
	}
	all := []map[string]map[string]bool{vis}
	for p := st.Parent; p != nil; p = p.Parent {
		v, _ := s.scope(p)
		all = append(all, v)
	}
	outs := map[string]bool{}
	for _, o := range st.Outputs() {
		outs[o] = true
	}
	n := 0
	look := func(q, col string, allowOut bool) {
		n++
		if allowOut && outs[col] {
			return
		}
		for _, v := range all {
			if q != "" {
				if cs, ok := v[q]; ok {
					if cs != nil && !cs[col] {
						report("column", q+"."+col)
					}
					return
				}
				continue
			}
			for _, cs := range v {
				if cs == nil || cs[col] {
					return
				}
			}
		}
		if q != "" {
			if q == "blnk" {
				return
			}
			report("alias", q)
			return
		}
		report("column", col)
	}
	walk := func(ts []Tok, allowOut bool) {
		for i := 0; i < len(ts); i++ {
			t := ts[i]
			if t.op("(") && i+1 < len(ts) && (ts[i+1].is("SELECT") || ts[i+1].is("WITH")) {
				i = matchParen(ts, i)
				continue
			}
			if t.op("::") {
				i++
				for i+1 < len(ts) && (ts[i+1].op("[") || ts[i+1].op("]")) {
					i++
				}
				continue
			}
			if t.is("AS") {
				i++
				continue
			}
			if t.is("INTERVAL") || t.is("EXTRACT") && i+2 < len(ts) {
				if t.is("EXTRACT") {
					i += 2
				}
				continue
			}
			if t.K != "w" {
				continue
			}
			if i+1 < len(ts) && ts[i+1].op("(") {
				continue // function
			}
			if i+2 < len(ts) && ts[i+1].op(".") {
				if i+3 < len(ts) && ts[i+3].op("(") {
					i += 2
					continue
				}
				if i+4 < len(ts) && ts[i+3].op(".") { // schema.table.col
					look(strings.ToLower(ts[i+2].S), strings.ToLower(ts[i+4].S), false)
					i += 4
					continue
				}
				if ts[i+2].K == "w" {
					look(strings.ToLower(t.S), strings.ToLower(ts[i+2].S), false)
				}
				i += 2
				continue
			}
			if sqlKeywords[strings.ToLower(t.S)] && s.noColumn(vis, strings.ToLower(t.S)) {
				continue
			}
			look("", strings.ToLower(t.S), allowOut)
		}
	}
	switch st.Kind {
	case "INSERT", "COPY":
		if cs := vis[st.Table]; cs != nil {
			for _, c := range st.Cols {
				n++
				if strings.Contains(c, "⟨") {
					continue
				}
				if !cs[c] {
					report("column", c)
				}
			}
			t := s.Tables[st.Table]
			have := map[string]bool{}
			for _, c := range st.Cols {
				have[c] = true
			}
			for _, c := range t.Order {
				col := t.Cols[c]
				if col != nil && col.NotNull && col.Default == "" && !strings.Contains(col.Type, "SERIAL") && !have[c] && len(st.Cols) > 0 {
					report("required column missing", c)
				}
			}
		}
		if len(st.Values) > 0 && len(st.Cols) > 0 && len(st.Values) != len(st.Cols) {
			report("arity", fmt.Sprintf("%d columns, %d values", len(st.Cols), len(st.Values)))
		}
		// conflict target must be covered by a unique index
		if len(st.Conflict) > 1 && st.Conflict[1].is("CONFLICT") && len(st.Conflict) > 2 && st.Conflict[2].op("(") {
			tgt := identList(st.Conflict[3:matchParen(st.Conflict, 2)])
			if !s.UniqueOn(st.Table, tgt) {
				report("conflict target without unique index", strings.Join(tgt, ","))
			}
		}
	case "UPDATE":
		for c, e := range st.Set {
			look("", c, false)
			walk(e, false)
		}
	}
	for _, it := range st.Sel {
		walk(it, false)
	}
	for _, it := range st.Ret {
		walk(it, false)
	}
	for _, c := range st.Where {
		walk(c, false)
	}
	if st.Kind == "SELECT" && st.Tail != "" {
		walk(lexSQL(strings.Split(" "+st.Tail, " UNION ")[0]), true)
	}
	ok(n)
}

func (s *Schema) noColumn(vis map[string]map[string]bool, w string) bool {
	for _, cs := range vis {
		if cs[w] {
			return false
		}
	}
	return true
}

// UniqueOn: a full (non-partial) uniqueness guarantee exists on exactly these columns.
func (s *Schema) UniqueOn(table string, cols []string) bool {
	t := s.Tables[table]
	if t == nil {
		return false
	}
	want := strings.Join(cols, ",")
	for _, u := range t.Uniques {
		if strings.Join(u, ",") == want {
			return true
		}
	}
	for _, ix := range s.Indexes {
		if ix.Unique && ix.Table == table && ix.Where == "" {
			c := append([]string{}, ix.Cols...)
			if len(c) == len(cols) && strings.Join(sortStr(c), ",") == want {
				return true
			}
		}
	}
	return false
}

func sortStr(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

func normName(s string) string { return strings.ReplaceAll(strings.ToLower(s), "_", "") }

// fieldTerm: the struct field a bound argument reads (or a scan destination addresses), "" if none.
func fieldTerm(t *Term) (owner, field string) {
	for t != nil {
		switch t.Op {
		case "load", "conv", "iface":
			t = t.Args[0]
			continue
		case "pure", "call":
			a := t.Args
			if t.Op == "call" {
				a = t.CArg
			}
			// single-operand wrappers: bigIntToString(x.F), nullString(&x.F), x.F.String()
			var cand *Term
			n := 0
			for _, y := range a {
				if _, f := fieldTerm(y); f != "" {
					cand = y
					n++
				}
			}
			if n == 1 {
				t = cand
				continue
			}
			return "", ""
		case "res":
			t = t.Args[0]
			continue
		case "field", "fieldv":
			if t.Args[0] != nil {
				if strings.HasPrefix(t.Name, "Null") || t.Name == "String" || t.Name == "Time" || t.Name == "Valid" {
					t = t.Args[0]
					continue
				}
			}
			return "", t.Name
		}
		return "", ""
	}
	return "", ""
}

// swapped reports whether a field named f bound to column col is really meant for another listed column.
func swapped(f, col string, cols []string) string {
	nf := normName(f)
	if nf == "" || nf == normName(col) {
		return ""
	}
	for _, c := range cols {
		if c != col && normName(c) == nf && c != "" {
			return c
		}
	}
	return ""
}

func ruleD03(c *Ctx) {
	w := c.W
	s := w.Schema()
	F := w.CollectSQL()
	c.Engine(F.En)
	c.Rule("names", "every table, column and alias used by every statement text (folded per path, nested statements included) exists in the schema obtained by folding all Up migrations; ON CONFLICT targets have a unique index; required columns are supplied")
	c.Rule("arity", "INSERT column and value counts agree; highest placeholder equals the number of bound arguments; selected columns equal scan destinations")
	c.Rule("order", "no bound argument or scan destination that is a struct field named after one column is bound to another column of the same statement")
	for _, u := range s.Unknown {
		c.Fail("migration", u, "", "migration statement not understood")
	}
	c.Check(s.Files >= 30, "migration", "sql/*.sql", "sql", "only %d migrations found", s.Files)
	for _, site := range F.Sites {
		fn := fnName(site.Fn)
		c.Saw(fn)
		if p := fnPkg(site.Fn); p != nil && p.Path() == Mod+"/cmd" {
			continue // local sqlite key/value store
		}
		for _, o := range site.Events {
			if o.Stmt == nil || o.Text == "" {
				c.Fail("names", fn+" "+site.Op, w.Pos(site.Site.Pos()), "statement text could not be determined")
				continue
			}
			key := fn + " " + o.Stmt.Kind + " " + o.Stmt.Table
			if len(o.Stmt.From) > 0 {
				key += o.Stmt.From[0].Name
			}
			if o.Stmt.Kind == "OTHER" && !strings.HasPrefix(strings.TrimSpace(o.Text), "⟨") {
				c.Ok("names", key+" "+firstWords(o.Text), w.Pos(site.Site.Pos()))
				continue
			}
			if strings.TrimSpace(o.Text) == "⟨⟩" {
				c.Fail("names", key, w.Pos(site.Site.Pos()), "statement text is not determined by the source")
				continue
			}
			bad := false
			for _, st := range o.Stmt.All() {
				if st.Kind == "OTHER" || st.Kind == "VALUES" {
					continue
				}
				s.checkColumns(st, func(kind, what string) {
					bad = true
					c.Fail("names", key+": "+kind+" "+what, w.Pos(site.Site.Pos()), "statement refers to %s %s, which the schema does not define: %s", kind, what, oneLine(o.Text))
				}, func(n int) {})
				// order of bound values in INSERT
				for i, v := range st.Values {
					if i >= len(st.Cols) || len(v) != 1 || v[0].K != "p" || !o.ArgsOK {
						continue
					}
					c.bound(o, v[0].S, st.Cols[i], st.Cols, key, w.Pos(site.Site.Pos()))
				}
				if st.Kind == "COPY" && site.Recv != "Stmt" {
					continue
				}
				if st.Kind == "COPY" && o.ArgsOK && o.NArgs > 0 {
					for i, col := range st.Cols {
						if i < len(o.Args) {
							c.bound(o, fmt.Sprint(i+1), col, st.Cols, key, w.Pos(site.Site.Pos()))
						}
					}
					c.Check(o.NArgs == len(st.Cols), "arity", key, w.Pos(site.Site.Pos()), "COPY has %d columns but %d values are supplied", len(st.Cols), o.NArgs)
				}
				if st.Kind == "UPDATE" && o.ArgsOK {
					var cols []string
					for col := range st.Set {
						cols = append(cols, col)
					}
					for col, e := range st.Set {
						if len(e) == 1 && e[0].K == "p" {
							c.bound(o, e[0].S, col, cols, key, w.Pos(site.Site.Pos()))
						}
					}
				}
			}
			if !bad {
				c.Ok("names", key, w.Pos(site.Site.Pos()))
			}
			if o.ArgsOK && o.Stmt.Kind != "COPY" {
				m, hole := MaxParam(o.Stmt.Toks)
				if !hole {
					c.Check(m == o.NArgs, "arity", key, w.Pos(site.Site.Pos()), "statement uses placeholders up to $%d but %d values are bound: %s", m, o.NArgs, oneLine(o.Text))
				}
			}
		}
	}
	for _, sc := range F.Scans {
		fn := fnName(sc.Fn)
		key := fn + " scan " + firstWords(sc.Text)
		outs := sc.Stmt.Outputs()
		if outs == nil || !sc.OK {
			c.Ok("scan-unresolved", key, w.Pos(sc.Site.Pos()))
			continue
		}
		c.Check(len(outs) == len(sc.Dests), "arity", key, w.Pos(sc.Site.Pos()), "%d columns are selected but %d destinations are scanned: %s", len(outs), len(sc.Dests), oneLine(sc.Text))
		if len(outs) != len(sc.Dests) {
			continue
		}
		for i, d := range sc.Dests {
			_, f := fieldTerm(d)
			if f == "" {
				continue
			}
			if dupes(outs) {
				continue
			}
			if x := swapped(f, outs[i], outs); x != "" {
				c.Fail("order", key+" "+f, w.Pos(sc.Site.Pos()), "column %s is scanned into field %s, which names column %s of the same statement", outs[i], f, x)
			} else {
				c.Ok("order", key+" "+f, w.Pos(sc.Site.Pos()))
			}
		}
	}
	for _, f := range F.Flows {
		if len(f.Cols) != 1 || dupes(f.All) {
			continue
		}
		key := fnName(f.Fn) + " " + f.Type + "." + f.Field
		if x := swapped(f.Field, f.Cols[0], f.All); x != "" {
			c.Fail("order", key, w.Pos(f.Site.Pos()), "column %s ends up in field %s.%s, which names column %s of the same statement", f.Cols[0], f.Type, f.Field, x)
		} else {
			c.Ok("order", key, w.Pos(f.Site.Pos()))
		}
	}
	c.Floor("names", 100)
	c.Floor("arity", 150)
	c.Floor("order", 300)
}

func dupes(xs []string) bool {
	m := map[string]bool{}
	for _, x := range xs {
		if x != "" && m[x] {
			return true
		}
		m[x] = true
	}
	return false
}

func (c *Ctx) bound(o *SQLObs, param, col string, cols []string, key, pos string) {
	var n int
	fmt.Sscanf(param, "%d", &n)
	if n < 1 || n > len(o.Args) {
		return
	}
	_, f := fieldTerm(o.Args[n-1])
	if f == "" {
		return
	}
	if x := swapped(f, col, cols); x != "" {
		c.Fail("order", key+" "+col, pos, "field %s is bound to column %s although the statement also writes column %s", f, col, x)
		return
	}
	c.Ok("order", key+" "+col, pos)
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 220 {
		s = s[:220] + "…"
	}
	return s
}

func firstWords(s string) string {
	f := strings.Fields(s)
	st := parseSQL(s)
	k := st.Kind + " " + st.Table
	if len(st.From) > 0 {
		k += st.From[0].Name
	}
	if st.Kind == "OTHER" && len(f) > 0 {
		k = f[0]
	}
	return fmt.Sprintf("%s/%d", strings.TrimSpace(k), len(st.Sel)+len(st.Ret))
}

var _ = types.Universe
