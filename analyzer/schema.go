package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Column is a column of the folded schema.
type Column struct {
	Name    string
	Type    string
	NotNull bool
	Default string
	Where   string // migration file that last defined it
}

// Table is a table after folding every Up migration.
type Table struct {
	Name    string
	Cols    map[string]*Column
	Order   []string
	Uniques [][]string // UNIQUE/PRIMARY KEY constraints (not partial)
	Checks  []string
	FKs     []string
}

// Index is a secondary index.
type Index struct {
	Name, Table string
	Unique      bool
	Cols        []string
	Where       string
	File        string
}

// Trigger binds a function to a table event.
type Trigger struct {
	Name, Table, When, Func string
	Events                  []string
	Row                     bool
	Cond                    string
	File                    string
}

// SQLFunc is a stored function.
type SQLFunc struct {
	Name, Body, File string
	Ret              string
}

// Schema is the state of the database after all Up migrations.
type Schema struct {
	Tables   map[string]*Table
	Indexes  map[string]*Index
	Triggers map[string]*Trigger // by table.name
	Funcs    map[string]*SQLFunc
	Files    int
	Stmts    int
	Unknown  []string
	DML      []struct{ File, Text string }
}

// Schema folds /repo/sql/*.sql.
func (w *World) Schema() *Schema {
	if w.sc != nil {
		return w.sc
	}
	s := &Schema{Tables: map[string]*Table{}, Indexes: map[string]*Index{}, Triggers: map[string]*Trigger{}, Funcs: map[string]*SQLFunc{}}
	w.sc = s
	fs, _ := filepath.Glob(filepath.Join(w.Dir, "sql", "*.sql"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			s.Unknown = append(s.Unknown, f+": "+err.Error())
			continue
		}
		s.Files++
		base := "sql/" + filepath.Base(f)
		for _, st := range splitMigration(string(b)) {
			s.apply(base, st)
		}
	}
	return s
}

var migDir = regexp.MustCompile(`(?m)^\s*--\s*\+migrate\s+(\w+).*$`)

// splitMigration returns the statements of the Up section.
func splitMigration(src string) []string {
	var out []string
	up, blk := false, false
	var cur strings.Builder
	flush := func() {
		t := strings.TrimSpace(cur.String())
		cur.Reset()
		if t != "" && len(lexSQL(t)) > 0 {
			out = append(out, t)
		}
	}
	for _, ln := range strings.Split(src, "\n") {
		if m := migDir.FindStringSubmatch(ln); m != nil {
			switch m[1] {
			case "Up":
				up = true
			case "Down":
				flush()
				up = false
			case "StatementBegin":
				flush()
				blk = true
			case "StatementEnd":
				flush()
				blk = false
			}
			continue
		}
		if !up {
			continue
		}
		cur.WriteString(ln + "\n")
		if !blk && endsStatement(cur.String()) {
			flush()
		}
	}
	flush()
	return out
}

// endsStatement: the text ends (outside strings, comments and dollar quotes) with ';'.
func endsStatement(s string) bool {
	if strings.Count(s, "$$")%2 == 1 {
		return false
	}
	ts := lexSQL(s)
	return len(ts) > 0 && ts[len(ts)-1].op(";")
}

func (s *Schema) unknown(file, t string) {
	s.Unknown = append(s.Unknown, file+": "+strings.Join(strings.Fields(t), " "))
}

func (s *Schema) apply(file, text string) {
	ts := lexSQL(text)
	for len(ts) > 0 && ts[len(ts)-1].op(";") {
		ts = ts[:len(ts)-1]
	}
	// several statements in one block
	if parts := splitTop(ts, func(t Tok) bool { return t.op(";") }); len(parts) > 1 {
		for _, p := range parts {
			if len(p) > 0 {
				s.applyToks(file, p)
			}
		}
		return
	}
	s.applyToks(file, ts)
}

func skipIf(ts []Tok, i int) int {
	if i < len(ts) && ts[i].is("IF") {
		i++
		for i < len(ts) && (ts[i].is("NOT") || ts[i].is("EXISTS")) {
			i++
		}
	}
	return i
}

func (s *Schema) applyToks(file string, ts []Tok) {
	s.Stmts++
	if len(ts) == 0 {
		return
	}
	at := func(i int, w string) bool { return i < len(ts) && ts[i].is(w) }
	i := 1
	switch {
	case ts[0].is("CREATE"):
		if at(i, "OR") {
			i += 2
		}
		unique := false
		if at(i, "UNIQUE") {
			unique = true
			i++
		}
		switch {
		case at(i, "SCHEMA"), at(i, "EXTENSION"):
		case at(i, "TABLE"):
			i = skipIf(ts, i+1)
			var name string
			i, name = qname(ts, i)
			if i < len(ts) && ts[i].op("(") {
				if s.Tables[name] == nil {
					t := &Table{Name: name, Cols: map[string]*Column{}}
					s.Tables[name] = t
					for _, d := range splitTop(ts[i+1:matchParen(ts, i)], comma) {
						t.define(file, d)
					}
				}
			} else {
				s.unknown(file, tokStr(ts))
			}
		case at(i, "INDEX"):
			i++
			if at(i, "CONCURRENTLY") {
				i++
			}
			i = skipIf(ts, i)
			var name, tbl string
			if !at(i, "ON") {
				i, name = qname(ts, i)
			}
			if at(i, "ON") {
				i, tbl = qname(ts, i+1)
			}
			if at(i, "USING") {
				i += 2
			}
			ix := &Index{Name: name, Table: tbl, Unique: unique, File: file}
			if i < len(ts) && ts[i].op("(") {
				e := matchParen(ts, i)
				for _, c := range splitTop(ts[i+1:e], comma) {
					ix.Cols = append(ix.Cols, strings.ToLower(tokStr(c)))
				}
				i = e + 1
			}
			for i < len(ts) && !ts[i].is("WHERE") {
				i++
			}
			if at(i, "WHERE") {
				ix.Where = tokStr(ts[i+1:])
			}
			if s.Indexes[name] == nil {
				s.Indexes[name] = ix
			}
		case at(i, "FUNCTION"):
			var name string
			i, name = qname(ts, i+1)
			f := &SQLFunc{Name: name, File: file}
			for k := i; k < len(ts); k++ {
				if ts[k].K == "b" {
					f.Body = ts[k].S
				}
				if ts[k].is("RETURNS") && k+1 < len(ts) {
					f.Ret = strings.ToLower(ts[k+1].S)
				}
			}
			if f.Body == "" {
				for k := i; k < len(ts); k++ {
					if ts[k].is("AS") && k+1 < len(ts) && ts[k+1].K == "s" {
						f.Body = ts[k+1].S
					}
				}
			}
			s.Funcs[name] = f
		case at(i, "TRIGGER"):
			tr := &Trigger{File: file}
			i, tr.Name = qname(ts, i+1)
			if i < len(ts) {
				tr.When = strings.ToUpper(ts[i].S)
				i++
			}
			for i < len(ts) && !ts[i].is("ON") {
				if word("INSERT", "UPDATE", "DELETE", "TRUNCATE")(ts[i]) {
					tr.Events = append(tr.Events, strings.ToUpper(ts[i].S))
				}
				if ts[i].is("OF") {
					tr.Cond += "OF "
				}
				i++
			}
			i, tr.Table = qname(ts, i+1)
			for i < len(ts) && !ts[i].is("EXECUTE") {
				if ts[i].is("ROW") {
					tr.Row = true
				}
				if ts[i].is("WHEN") {
					tr.Cond += tokStr(ts[i+1 : min(len(ts), matchParen(ts, i+1)+1)])
				}
				i++
			}
			_, tr.Func = qname(ts, i+2)
			s.Triggers[tr.Table+"."+tr.Name] = tr
		default:
			s.unknown(file, tokStr(ts))
		}
	case ts[0].is("ALTER") && at(1, "TABLE"):
		i = skipIf(ts, 2)
		if at(i, "ONLY") {
			i++
		}
		var name string
		i, name = qname(ts, i)
		t := s.Tables[name]
		if t == nil {
			s.unknown(file, tokStr(ts))
			return
		}
		for _, a := range splitTop(ts[i:], comma) {
			s.alter(file, t, a)
		}
	case ts[0].is("DROP"):
		what := strings.ToUpper(ts[1].S)
		i = 2
		if at(i, "CONCURRENTLY") {
			i++
		}
		i = skipIf(ts, i)
		for i < len(ts) {
			var name string
			i, name = qname(ts, i)
			switch what {
			case "TABLE":
				delete(s.Tables, name)
			case "INDEX":
				delete(s.Indexes, name)
			case "FUNCTION":
				delete(s.Funcs, name)
			case "TRIGGER":
				if at(i, "ON") {
					_, tb := qname(ts, i+1)
					delete(s.Triggers, tb+"."+name)
				}
			default:
				s.unknown(file, tokStr(ts))
			}
			if what == "FUNCTION" || what == "TRIGGER" || i >= len(ts) || !ts[i].op(",") {
				break
			}
			i++
		}
	case word("UPDATE", "INSERT", "DELETE", "SELECT", "COMMENT", "SET", "WITH")(ts[0]):
		s.DML = append(s.DML, struct{ File, Text string }{file, tokStr(ts)})
	case ts[0].is("DO"):
		s.DML = append(s.DML, struct{ File, Text string }{file, tokStr(ts)})
		for _, t := range ts {
			if t.K == "b" {
				s.doBlock(file, t.S)
			}
		}
	default:
		s.unknown(file, tokStr(ts))
	}
}

// doBlock applies DDL that appears as plain statements inside a DO block.
func (s *Schema) doBlock(file, body string) {
	ts := lexSQL(body)
	for _, st := range splitTop(ts, func(t Tok) bool { return t.op(";") }) {
		for k := range st {
			if st[k].is("ALTER") && k+1 < len(st) && st[k+1].is("TABLE") || st[k].is("CREATE") && k > 0 {
				s.applyToks(file, st[k:])
				break
			}
		}
	}
}

func identList(ts []Tok) []string {
	var out []string
	for _, c := range splitTop(ts, comma) {
		out = append(out, strings.ToLower(tokStr(c)))
	}
	sort.Strings(out)
	return out
}

func (t *Table) constraint(d []Tok) bool {
	i := 0
	if len(d) > 1 && d[0].is("CONSTRAINT") {
		i = 2
	}
	if i >= len(d) {
		return false
	}
	switch {
	case d[i].is("PRIMARY"), d[i].is("UNIQUE"):
		for k := i; k < len(d); k++ {
			if d[k].op("(") {
				t.Uniques = append(t.Uniques, identList(d[k+1:matchParen(d, k)]))
				break
			}
		}
		return true
	case d[i].is("FOREIGN"):
		t.FKs = append(t.FKs, tokStr(d))
		return true
	case d[i].is("CHECK"):
		t.Checks = append(t.Checks, tokStr(d[i:]))
		return true
	case d[i].is("EXCLUDE"):
		return true
	}
	return i == 2
}

func (t *Table) define(file string, d []Tok) {
	if len(d) == 0 || t.constraint(d) {
		return
	}
	c := &Column{Name: strings.ToLower(d[0].S), Where: file}
	c.setType(d[1:])
	for k := 1; k < len(d); k++ {
		switch {
		case d[k].is("PRIMARY"):
			c.NotNull = true
			t.Uniques = append(t.Uniques, []string{c.Name})
		case d[k].is("UNIQUE"):
			t.Uniques = append(t.Uniques, []string{c.Name})
		case d[k].is("NULL") && d[k-1].is("NOT"):
			c.NotNull = true
		case d[k].is("DEFAULT") && k+1 < len(d):
			c.Default = tokStr(d[k+1 : min(len(d), k+4)])
		case d[k].is("REFERENCES"):
			t.FKs = append(t.FKs, c.Name+" "+tokStr(d[k:]))
		case d[k].is("CHECK"):
			t.Checks = append(t.Checks, tokStr(d[k:]))
		}
	}
	if t.Cols[c.Name] == nil {
		t.Order = append(t.Order, c.Name)
	}
	t.Cols[c.Name] = c
}

func (c *Column) setType(d []Tok) {
	var p []Tok
	depth := 0
	for _, x := range d {
		if depth == 0 && word("NOT", "NULL", "DEFAULT", "PRIMARY", "UNIQUE", "REFERENCES", "CHECK", "CONSTRAINT", "USING", "GENERATED", "COLLATE")(x) {
			break
		}
		if x.op("(") {
			depth++
		} else if x.op(")") {
			depth--
		}
		p = append(p, x)
	}
	c.Type = strings.ToUpper(strings.ReplaceAll(strings.ReplaceAll(tokStr(p), " (", "("), "( ", "("))
	c.Type = strings.ReplaceAll(c.Type, " )", ")")
}

func (s *Schema) alter(file string, t *Table, a []Tok) {
	at := func(i int, w string) bool { return i < len(a) && a[i].is(w) }
	switch {
	case at(0, "ADD") && (at(1, "CONSTRAINT") || at(1, "UNIQUE") || at(1, "PRIMARY") || at(1, "FOREIGN") || at(1, "CHECK")):
		if at(3, "UNIQUE") && at(4, "USING") {
			if ix := s.Indexes[strings.ToLower(a[len(a)-1].S)]; ix != nil {
				t.Uniques = append(t.Uniques, ix.Cols)
			}
			return
		}
		t.constraint(a[1:])
	case at(0, "ADD"):
		i := 1
		if at(i, "COLUMN") {
			i++
		}
		i = skipIf(a, i)
		if i < len(a) && t.Cols[strings.ToLower(a[i].S)] != nil {
			return
		}
		t.define(file, a[i:])
	case at(0, "DROP") && at(1, "CONSTRAINT"):
		// names are not tracked for unnamed constraints; record removal of uniqueness conservatively
		name := strings.ToLower(a[len(a)-1].S)
		var keep [][]string
		for _, u := range t.Uniques {
			if strings.Contains(name, strings.Join(u, "_")) && (strings.Contains(name, "key") || strings.Contains(name, "uniq")) {
				continue
			}
			keep = append(keep, u)
		}
		t.Uniques = keep
	case at(0, "DROP"):
		i := 1
		if at(i, "COLUMN") {
			i++
		}
		i = skipIf(a, i)
		if i < len(a) {
			delete(t.Cols, strings.ToLower(a[i].S))
		}
	case at(0, "ALTER"):
		i := 1
		if at(i, "COLUMN") {
			i++
		}
		if i >= len(a) {
			return
		}
		c := t.Cols[strings.ToLower(a[i].S)]
		if c == nil {
			s.unknown(file, tokStr(a))
			return
		}
		i++
		switch {
		case at(i, "TYPE"):
			c.setType(a[i+1:])
			c.Where = file
		case at(i, "SET") && at(i+1, "DATA"):
			c.setType(a[i+3:])
			c.Where = file
		case at(i, "SET") && at(i+1, "NOT"):
			c.NotNull = true
		case at(i, "DROP") && at(i+1, "NOT"):
			c.NotNull = false
		case at(i, "SET") && at(i+1, "DEFAULT"):
			c.Default = tokStr(a[i+2:])
		case at(i, "DROP") && at(i+1, "DEFAULT"):
			c.Default = ""
		default:
			s.unknown(file, tokStr(a))
		}
	case at(0, "RENAME") && at(1, "COLUMN") && len(a) >= 5:
		o, n := strings.ToLower(a[2].S), strings.ToLower(a[4].S)
		if c := t.Cols[o]; c != nil {
			delete(t.Cols, o)
			c.Name = n
			t.Cols[n] = c
		}
	case at(0, "ENABLE"), at(0, "DISABLE"):
		s.unknown(file, tokStr(a))
	default:
		s.unknown(file, tokStr(a))
	}
}

func (s *Schema) String() string {
	var b strings.Builder
	for _, n := range sortedKeys(s.Tables) {
		t := s.Tables[n]
		fmt.Fprintf(&b, "TABLE %s\n", n)
		for _, c := range sortedKeys(t.Cols) {
			fmt.Fprintf(&b, "  %s %s notnull=%v default=%s\n", c, t.Cols[c].Type, t.Cols[c].NotNull, t.Cols[c].Default)
		}
		fmt.Fprintf(&b, "  uniques %v checks %v\n", t.Uniques, t.Checks)
	}
	for _, n := range sortedKeys(s.Indexes) {
		if x := s.Indexes[n]; x.Unique {
			fmt.Fprintf(&b, "UNIQUE %s ON %s %v WHERE %s\n", n, x.Table, x.Cols, x.Where)
		}
	}
	for _, n := range sortedKeys(s.Triggers) {
		t := s.Triggers[n]
		fmt.Fprintf(&b, "TRIGGER %s %s %v row=%v cond=%q -> %s\n", n, t.When, t.Events, t.Row, t.Cond, t.Func)
	}
	for _, u := range s.Unknown {
		fmt.Fprintf(&b, "UNKNOWN %s\n", u)
	}
	for _, u := range s.DML {
		fmt.Fprintf(&b, "DML %s %s\n", u.File, u.Text)
	}
	return b.String()
}
