package main

import (
	"sort"
	"strings"
)

func init() { rules["T12"] = ruleT12 }

// kept are the columns of a recorded transaction that never change.
var kept = []string{"transaction_id", "source", "destination", "amount", "precise_amount", "precision", "currency", "reference", "status", "hash", "description", "created_at", "scheduled_for"}

// amendable are the columns the ledger may amend.
var amendable = map[string]bool{"meta_data": true, "chain_seq": true, "chain_prev_hash": true, "chain_hash": true}

// tri is a set of truth values of SQL's three-valued logic.
type tri struct{ t, f, n bool }

var triAny = tri{true, true, true}

func (a tri) not() tri { return tri{a.f, a.t, a.n} }
func (a tri) and(b tri) tri {
	return tri{a.t && b.t, a.f || b.f, a.n && (b.n || b.t) || b.n && (a.n || a.t)}
}
func (a tri) or(b tri) tri { return a.not().and(b.not()).not() }

// rowChange says what is assumed about each column's old and new value: "diff" (both there, different), "set" (was NULL), "unset" (becomes NULL), "same", "any".
type rowChange func(col string) string

// trigEval follows the body of a row trigger and collects how it may end.
type trigEval struct {
	ch  rowChange
	out map[string]bool // raise, new, old, null, other
}

// endsWith runs the statements; false if control does not get past them.
func (e *trigEval) block(ts []Tok, i, end int) bool {
	for i < end {
		j := i
		switch {
		case ts[i].is("IF"):
			// IF c THEN .. [ELSIF c THEN ..] [ELSE ..] END IF
			through := false
			live := true
			for live {
				th := nextWord(ts, i+1, end, "THEN")
				if th < 0 {
					e.out["other"] = true
					return false
				}
				c := e.cond(ts[i+1 : th])
				k := th + 1
				stop := e.branchEnd(ts, k, end)
				if c.t && e.block(ts, k, stop) {
					through = true
				}
				live = c.f || c.n
				i = stop
				if i >= end {
					e.out["other"] = true
					return false
				}
				if ts[i].is("ELSIF") || ts[i].is("ELSEIF") {
					if !live {
						i = e.skipIf(ts, i, end)
						break
					}
					continue
				}
				if ts[i].is("ELSE") {
					stop = e.branchEnd(ts, i+1, end)
					if live && e.block(ts, i+1, stop) {
						through = true
					}
					i = stop
					live = false
					break
				}
				break // END IF
			}
			if live {
				through = true
			}
			for i < end && !ts[i].op(";") {
				i++
			}
			i++
			if !through {
				return false
			}
			continue
		case ts[i].is("RAISE"):
			for j < end && !ts[j].op(";") {
				j++
			}
			lvl := strings.ToUpper(ts[min(i+1, end-1)].S)
			if ts[min(i+1, end-1)].K != "w" {
				lvl = "EXCEPTION"
			}
			switch lvl {
			case "NOTICE", "WARNING", "INFO", "LOG", "DEBUG":
			default:
				e.out["raise"] = true
				return false
			}
		case ts[i].is("RETURN"):
			w := strings.ToLower(ts[min(i+1, end-1)].S)
			if w != "new" && w != "old" && w != "null" {
				w = "other"
			}
			e.out[w] = true
			return false
		case ts[i].is("NULL"):
			for j < end && !ts[j].op(";") {
				j++
			}
		default:
			// assignments and anything else: not understood
			e.out["other"] = true
			return false
		}
		i = j + 1
	}
	return true
}

func (e *trigEval) skipIf(ts []Tok, i, end int) int {
	d := 0
	for ; i < end; i++ {
		if ts[i].is("IF") && !(i > 0 && ts[i-1].is("END")) {
			d++
		}
		if ts[i].is("END") && i+1 < end && ts[i+1].is("IF") {
			if d == 0 {
				return i
			}
			d--
		}
	}
	return end
}

func nextWord(ts []Tok, i, end int, w string) int {
	for ; i < end; i++ {
		if ts[i].is(w) {
			return i
		}
	}
	return -1
}

// branchEnd: where the statements of a branch end (ELSE, ELSIF or END IF of the same IF).
func (e *trigEval) branchEnd(ts []Tok, i, end int) int {
	d := 0
	for ; i < end; i++ {
		switch {
		case ts[i].is("IF") && !ts[i-1].is("END"):
			d++
		case ts[i].is("END") && i+1 < end && ts[i+1].is("IF"):
			if d == 0 {
				return i
			}
			d--
		case d == 0 && (ts[i].is("ELSE") || ts[i].is("ELSIF") || ts[i].is("ELSEIF")):
			return i
		}
	}
	return end
}

// cond evaluates a condition to the truth values it may have.
func (e *trigEval) cond(ts []Tok) tri {
	if parts := splitTop(ts, func(t Tok) bool { return t.is("OR") }); len(parts) > 1 {
		r := tri{f: true}
		for _, p := range parts {
			r = r.or(e.cond(p))
		}
		return r
	}
	if parts := splitTop(ts, func(t Tok) bool { return t.is("AND") }); len(parts) > 1 {
		r := tri{t: true}
		for _, p := range parts {
			r = r.and(e.cond(p))
		}
		return r
	}
	if len(ts) > 0 && ts[0].is("NOT") {
		return e.cond(ts[1:]).not()
	}
	if len(ts) > 1 && ts[0].op("(") && matchParen(ts, 0) == len(ts)-1 {
		return e.cond(ts[1 : len(ts)-1])
	}
	if len(ts) == 1 && ts[0].is("TRUE") {
		return tri{t: true}
	}
	if len(ts) == 1 && ts[0].is("FALSE") {
		return tri{f: true}
	}
	if len(ts) == 3 && ts[0].is("TG_OP") && ts[1].op("=") {
		return tri{t: strings.EqualFold(ts[2].S, "UPDATE"), f: !strings.EqualFold(ts[2].S, "UPDATE")}
	}
	// NEW IS DISTINCT FROM OLD
	side := func(ts []Tok) (row string, cols []string) {
		if len(ts) > 0 && ts[0].is("ROW") {
			ts = ts[1:]
		}
		if len(ts) > 1 && ts[0].op("(") && matchParen(ts, 0) == len(ts)-1 {
			ts = ts[1 : len(ts)-1]
		}
		for _, p := range splitTop(ts, comma) {
			if len(p) == 1 && (p[0].is("NEW") || p[0].is("OLD")) {
				return strings.ToUpper(p[0].S), []string{"*"}
			}
			if len(p) != 3 || !p[1].op(".") || !(p[0].is("NEW") || p[0].is("OLD")) || row != "" && !p[0].is(row) {
				return "", nil
			}
			row = strings.ToUpper(p[0].S)
			cols = append(cols, strings.ToLower(p[2].S))
		}
		return
	}
	isAt := findTop(ts, 0, func(t Tok) bool { return t.is("IS") })
	if isAt > 0 && isAt < len(ts) {
		neg := false
		k := isAt + 1
		if k < len(ts) && ts[k].is("NOT") {
			neg = true
			k++
		}
		if k < len(ts) && ts[k].is("NULL") {
			row, cols := side(ts[:isAt])
			if len(cols) != 1 || cols[0] == "*" {
				return triAny
			}
			r := tri{t: true, f: true}
			switch c := e.ch(cols[0]); {
			case c == "diff":
				r = tri{f: true}
			case c == "set" && row == "OLD", c == "unset" && row == "NEW":
				r = tri{t: true}
			case c == "set", c == "unset":
				r = tri{f: true}
			}
			if neg {
				r = r.not()
			}
			return r
		}
		if k+1 < len(ts) && ts[k].is("DISTINCT") && ts[k+1].is("FROM") {
			r1, c1 := side(ts[:isAt])
			r2, c2 := side(ts[k+2:])
			if r1 == "" || r2 == "" || r1 == r2 || strings.Join(c1, ",") != strings.Join(c2, ",") {
				return triAny
			}
			r := tri{f: true}
			for _, c := range c1 {
				switch e.ch(c) {
				case "diff", "set", "unset":
					r = r.or(tri{t: true})
				case "any":
					r = r.or(tri{t: true, f: true})
				}
			}
			if neg {
				r = r.not()
			}
			return r
		}
		return triAny
	}
	for _, o := range []string{"=", "<>", "!="} {
		at := findTop(ts, 0, func(t Tok) bool { return t.op(o) })
		if at <= 0 || at >= len(ts) {
			continue
		}
		r1, c1 := side(ts[:at])
		r2, c2 := side(ts[at+1:])
		if r1 == "" || r2 == "" || r1 == r2 || len(c1) != 1 || len(c2) != 1 || c1[0] != c2[0] || c1[0] == "*" {
			return triAny
		}
		r := triAny
		switch e.ch(c1[0]) {
		case "diff":
			r = tri{f: true}
		case "set", "unset":
			r = tri{n: true}
		case "same":
			r = tri{t: true, n: true}
		}
		if o != "=" {
			r = r.not()
		}
		return r
	}
	return triAny
}

// trigRun: how the trigger function may end for the change.
func trigRun(f *SQLFunc, ch rowChange) map[string]bool {
	e := &trigEval{ch: ch, out: map[string]bool{}}
	ts := lexSQL(f.Body)
	b := nextWord(ts, 0, len(ts), "BEGIN")
	end := -1
	for i := range ts {
		if ts[i].is("END") && (i+1 == len(ts) || ts[i+1].op(";")) {
			end = i
		}
	}
	if b < 0 || end < 0 || nextWord(ts, 0, len(ts), "EXCEPTION") >= 0 && func() bool {
		k := nextWord(ts, 0, len(ts), "EXCEPTION")
		for k >= 0 {
			if !ts[k-1].is("RAISE") {
				return true
			}
			k = nextWord(ts, k+1, len(ts), "EXCEPTION")
		}
		return false
	}() {
		e.out["other"] = true
		return e.out
	}
	if e.block(ts, b+1, end) {
		e.out["other"] = true
	}
	return e.out
}

func outNames(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func ruleT12(c *Ctx) {
	w := c.W
	c.Rule("refused", "after all migrations a row trigger before updates of the transactions table ends in an exception whenever the column changes, whatever else changes and whichever of the values are NULL")
	c.Rule("amendable", "the trigger lets a change of metadata and hash-chain columns alone through")
	c.Rule("untouched", "no other trigger of the transactions table alters the row, and no migration that follows the trigger changes, deletes or unprotects transactions")
	c.Rule("statement", "every UPDATE of transactions in the program assigns only metadata and hash-chain columns of rows it selects, and none deletes, truncates, overwrites on conflict or unprotects them")
	c.Floor("refused", len(kept))
	c.Floor("amendable", 1)
	c.Floor("untouched", 1)
	c.Floor("statement", 3)
	s := w.Schema()
	var guards []*Trigger
	var keys []string
	for k := range s.Triggers {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	since := ""
	for _, k := range keys {
		tr := s.Triggers[k]
		if tr.Table != "transactions" {
			continue
		}
		fn := s.Funcs[tr.Func]
		upd := false
		for _, e := range tr.Events {
			upd = upd || e == "UPDATE"
		}
		if tr.When == "BEFORE" && upd && tr.Row && tr.Cond == "" && fn != nil {
			guards = append(guards, tr)
		}
		if fn != nil {
			ts := lexSQL(fn.Body)
			for i := 0; i+3 < len(ts); i++ {
				assigns := ts[i].is("NEW") && ts[i+1].op(".") && (ts[i+3].op(":=") || ts[i+3].op("=") && i > 0 && (ts[i-1].op(";") || ts[i-1].is("BEGIN") || ts[i-1].is("THEN") || ts[i-1].is("ELSE")))
				if assigns && tr.When == "BEFORE" {
					c.Fail("untouched", k, fn.File, "the trigger %s assigns a column of the row", tr.Name)
				}
			}
		}
		c.Ok("untouched", k, tr.File)
	}
	tb := s.Tables["transactions"]
	if tb == nil {
		c.Fail("refused", "transactions", "sql/", "the transactions table was not found in the migrations")
		return
	}
	for _, col := range kept {
		if tb.Cols[col] == nil {
			c.Fail("refused", col, "sql/", "the transactions table has no column %s", col)
			continue
		}
		why := "no unconditional row trigger before updates guards the table"
		where := "sql/"
		ok := false
		for _, tr := range guards {
			fn := s.Funcs[tr.Func]
			good := true
			for _, how := range []string{"diff", "set", "unset"} {
				if how != "diff" && tb.Cols[col].NotNull {
					continue
				}
				out := trigRun(fn, func(x string) string {
					if x == col || x == "*" {
						return how
					}
					return "any"
				})
				if !(len(out) == 1 && out["raise"]) {
					good = false
					why, where = "changing it ("+how+") may end in "+outNames(out), fn.File
				}
			}
			if good {
				ok = true
				where = fn.File
				if tr.File > since {
					since = tr.File
				}
				break
			}
		}
		c.Check(ok, "refused", col, where, "the database does not refuse every change of transactions.%s: %s", col, why)
	}
	for _, tr := range guards {
		fn := s.Funcs[tr.Func]
		out := trigRun(fn, func(x string) string {
			if amendable[x] || x == "*" {
				return "any"
			}
			return "same"
		})
		c.Check(len(out) == 1 && out["new"], "amendable", tr.Name, fn.File, "amending only metadata or chain columns may end in %s", outNames(out))
	}
	// what follows in the migrations
	off := func(t string) bool {
		u := strings.ToUpper(strings.Join(strings.Fields(t), " "))
		return strings.Contains(u, "DISABLE TRIGGER") || strings.Contains(u, "SESSION_REPLICATION_ROLE") || strings.Contains(u, "DROP TRIGGER") || strings.Contains(u, "DROP FUNCTION")
	}
	for _, d := range s.DML {
		if d.File < since {
			continue
		}
		st := parseSQL(d.Text)
		bad := off(d.Text)
		if st != nil {
			for _, q := range st.Writes("transactions") {
				switch q.Kind {
				case "INSERT", "COPY":
				case "UPDATE":
					bad = bad || q.SetHole
					for _, col := range kept {
						if _, ok := q.Set[col]; ok {
							bad = true
						}
					}
				default:
					bad = true
				}
			}
		}
		c.Check(!bad, "untouched", d.File, d.File, "a migration changes or unprotects recorded transactions: %s", d.Text)
	}
	for _, u := range s.Unknown {
		c.Check(!off(u) && !strings.Contains(strings.ToUpper(u), "RULE"), "untouched", u, "sql/", "a migration unprotects recorded transactions: %s", u)
	}
	for _, st := range w.CollectSQL().Sites {
		for _, e := range st.Events {
			name := fnName(st.Fn)
			where := w.Pos(st.Site.Pos())
			up := strings.ToUpper(e.Text)
			if off(e.Text) || strings.Contains(up, "TRUNCATE") || strings.Contains(up, "ALTER TABLE") {
				c.Fail("statement", name, where, "a statement of the program changes the schema or its protection: %s", e.Text)
			}
			if e.Stmt == nil {
				continue
			}
			for _, q := range e.Stmt.Writes("transactions") {
				switch q.Kind {
				case "UPDATE":
					var cols []string
					ok := !q.SetHole && len(q.Set) > 0
					for col := range q.Set {
						cols = append(cols, col)
						ok = ok && amendable[col]
					}
					sort.Strings(cols)
					c.Check(ok, "statement", name+"|"+strings.Join(cols, ","), where, "an UPDATE of transactions assigns %s", strings.Join(cols, ", "))
					c.Check(q.WhereOK && len(q.Where) > 0, "statement", name+"|where", where, "an UPDATE of transactions selects no rows in particular")
				case "INSERT", "COPY":
					over := strings.ToUpper(tokStr(q.Conflict))
					c.Check(!strings.Contains(over, "DO UPDATE"), "statement", name+"|insert", where, "an INSERT of transactions overwrites on conflict")
				default:
					c.Fail("statement", name+"|"+q.Kind, where, "a statement of the program issues %s on transactions", q.Kind)
				}
			}
		}
	}
}
