package main

import (
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	_ "github.com/mattn/go-sqlite3"
)

// ---- abstract SQLite schemas ----

type liteCol struct {
	Name, Type string
	Opts       []string // constraint clauses in file order
	Addable    bool     // ALTER TABLE ADD COLUMN can add it
	Pinned     bool     // may not be dropped (keys, references, ...)
	Num        bool
	Refs       string // the table that its REFERENCES names
}

// refer gives a column REFERENCES to another table, with or without the column of its key.
func (s *liteSchema) refer(g *rand.Rand, t *liteTable, c *liteCol) {
	for _, o := range s.Tables {
		if o != t && o.Name != t.Name && c.Refs == "" && o.Cols[0].Pinned && chance(g, 1, 3) {
			c.Refs, c.Pinned = o.Name, true
			r := "REFERENCES " + quoteLite(g, o.Name)
			if chance(g, 1, 2) {
				r += pickN(g, " ", "") + "(" + quoteLite(g, o.Cols[0].Name) + ")"
			}
			c.Opts = append(c.Opts, r)
		}
	}
}

type liteTable struct {
	Name  string
	Cols  []liteCol
	Extra []string
	Tail  string
	Gone  map[string]bool // column names that existed before (never reused with another definition)
}

type liteView struct {
	Name, Body string
	Uses       map[string]bool // table or table.column
}

type liteSchema struct {
	Tables []*liteTable
	Views  []*liteView
	gone   map[string]bool // table names dropped in the last step
	n      int
}

func (s *liteSchema) clone() *liteSchema {
	c := &liteSchema{n: s.n, gone: map[string]bool{}}
	for _, t := range s.Tables {
		u := *t
		u.Cols = append([]liteCol{}, t.Cols...)
		u.Gone = map[string]bool{}
		for k := range t.Gone {
			u.Gone[k] = true
		}
		c.Tables = append(c.Tables, &u)
	}
	for _, v := range s.Views {
		u := *v
		c.Views = append(c.Views, &u)
	}
	return c
}

var liteNames = []string{"users", "posts", "items", "user_groups", "Accounts", "t1", "x", "sqlite", "order", "group", "my table", "tag-list", "naïve", "select", "UPPER", "index", "a b c", "日本"}
var liteColNames = []string{"id", "name", "age", "user_id", "created_at", "Title", "body", "c1", "c2", "c3", "x", "order", "group", "my col", "e-mail", "é", "key", "desc", "from", "Value", "status", "type", "primary"}

func pick(g *rand.Rand, xs []string) string   { return xs[g.Intn(len(xs))] }
func chance(g *rand.Rand, num, den int) bool  { return g.Intn(den) < num }
func pickN(g *rand.Rand, xs ...string) string { return xs[g.Intn(len(xs))] }
func plainLower(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return len(s) > 0
}

var reservedish = map[string]bool{"order": true, "group": true, "select": true, "index": true, "key": true, "desc": true, "from": true, "primary": true, "type": true, "status": true, "value": true, "text": true, "date": true, "time": true, "x": false, "name": false, "user": true, "level": true, "data": false, "position": false, "tables": true, "session": true, "names": true, "comment": true, "language": true, "columns": true, "database": true}

// quoteLite writes an identifier, quoted when it has to be.
func quoteLite(g *rand.Rand, n string) string {
	if plainLower(n) && !reservedish[strings.ToLower(n)] && !chance(g, 1, 4) {
		return n
	}
	if chance(g, 1, 2) {
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	}
	return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
}

var liteStrings = []string{"abc", "", "it is", "x y", "100%", "tab\there", "été", "a,b(c)", "--no", "/* c */", "DEFAULT", "a;b", "it's", "'", "`q`", `"dq"`, "drop table", "two\n-- lines\n", "\n--", "a\\b", "\\", "\\n", "\\'", "'\\"}

func sqlStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (s *liteSchema) newCol(g *rand.Rand, t *liteTable, mustAdd bool) liteCol {
	c := liteCol{Addable: true}
	for {
		c.Name = pick(g, liteColNames)
		if chance(g, 1, 6) {
			s.n++
			c.Name = fmt.Sprintf("%s_%d", pick(g, []string{"col", "f", "Z"}), s.n)
		}
		dup := t.Gone[strings.ToLower(c.Name)]
		for _, d := range t.Cols {
			if strings.EqualFold(d.Name, c.Name) {
				dup = true
			}
		}
		if !dup {
			break
		}
	}
	c.Type = pick(g, []string{"integer", "INTEGER", "int", "bigint", "smallint", "text", "TEXT", "varchar(20)", "VARCHAR(255)", "char(3)", "real", "numeric", "decimal(10,2)", "numeric(5)", "boolean", "date", "datetime", "timestamp", "blob", "float", "double precision", "mediumint", "tinyint(1)", "character varying(30)", "json", "nvarchar(10)", "time", "double"})
	low := strings.ToLower(c.Type)
	c.Num = strings.Contains(low, "int") || strings.HasPrefix(low, "real") || strings.HasPrefix(low, "num") || strings.HasPrefix(low, "dec") || strings.HasPrefix(low, "float") || strings.HasPrefix(low, "double")
	def := ""
	if chance(g, 1, 2) {
		switch g.Intn(9) {
		case 0:
			def = "NULL"
		case 1, 2:
			def = pickN(g, "0", "1", "42", "-7", "1000000")
		case 3:
			def = pickN(g, "1.5", "0.25", "-2.75", "1e3", "0.1234567891")
		case 4:
			def = pickN(g, "true", "false")
		case 5:
			if !mustAdd {
				def = pickN(g, "CURRENT_TIMESTAMP", "CURRENT_DATE", "current_time")
				c.Addable = false
				break
			}
			fallthrough
		default:
			def = sqlStr(pick(g, liteStrings))
		}
		if chance(g, 1, 8) && def != "true" && def != "false" {
			def = "(" + def + ")"
			if strings.HasPrefix(def, "(CURR") || strings.HasPrefix(def, "(curr") {
				c.Addable = false
			}
		}
	}
	notnull := ""
	switch g.Intn(4) {
	case 0:
		if def != "" && !strings.Contains(def, "NULL") {
			notnull = "NOT NULL"
		} else if !mustAdd {
			notnull = "NOT NULL"
			c.Addable = false
		}
	case 1:
		if chance(g, 1, 3) {
			notnull = "NULL"
		}
	}
	if strings.HasPrefix(low, "text") || strings.HasPrefix(low, "varchar") {
		if chance(g, 1, 6) {
			c.Opts = append(c.Opts, "COLLATE "+pickN(g, "nocase", "RTRIM", "binary_"))
			if strings.HasSuffix(c.Opts[0], "binary_") {
				c.Opts = nil
			}
		}
	}
	if notnull != "" {
		c.Opts = append(c.Opts, notnull)
	}
	if def != "" {
		c.Opts = append(c.Opts, pickN(g, "DEFAULT ", "default ")+def)
	}
	if len(c.Opts) > 0 && chance(g, 1, 6) && !strings.HasPrefix(c.Opts[0], "COLLATE") && len(c.Opts) > 1 {
		c.Opts[0], c.Opts[1] = c.Opts[1], c.Opts[0]
	}
	if c.Num && chance(g, 1, 6) {
		c.Opts = append(c.Opts, fmt.Sprintf("CHECK (%s > %d)", quoteLite(g, c.Name), -100000-g.Intn(50)))
	}
	clock := strings.Contains(strings.ToUpper(def), "CURRENT") // two rows differ only when the second has passed
	if !mustAdd && !clock && chance(g, 1, 12) {
		c.Opts = append(c.Opts, "UNIQUE")
		c.Addable = false
		c.Pinned = true
	}
	return c
}

func (s *liteSchema) newTable(g *rand.Rand) *liteTable {
	t := &liteTable{Gone: map[string]bool{}}
	for {
		t.Name = pick(g, liteNames)
		if chance(g, 1, 4) {
			s.n++
			t.Name = fmt.Sprintf("%s_%d", pick(g, []string{"tbl", "log", "Rel", "sqlitex"}), s.n)
		}
		dup := s.gone[strings.ToLower(t.Name)]
		for _, u := range s.Tables {
			dup = dup || strings.EqualFold(u.Name, t.Name)
		}
		for _, u := range s.Views {
			dup = dup || strings.EqualFold(u.Name, t.Name)
		}
		if !dup {
			break
		}
	}
	n := 1 + g.Intn(6)
	switch g.Intn(4) {
	case 0:
		t.Cols = append(t.Cols, liteCol{Name: "id", Type: "integer", Opts: []string{"PRIMARY KEY"}, Pinned: true, Num: true})
		if chance(g, 1, 2) {
			t.Cols[0].Opts = append(t.Cols[0].Opts, "AUTOINCREMENT")
		}
	case 1:
		t.Cols = append(t.Cols, liteCol{Name: "id", Type: "bigint", Opts: []string{"NOT NULL", "PRIMARY KEY"}, Pinned: true, Num: true})
	}
	for i := 0; i < n; i++ {
		t.Cols = append(t.Cols, s.newCol(g, t, false))
		if chance(g, 1, 12) {
			s.refer(g, t, &t.Cols[len(t.Cols)-1])
		}
	}
	if t.Cols[0].Name != "id" || t.Cols[0].Opts == nil {
		if chance(g, 1, 3) {
			k := 1 + g.Intn(min(2, len(t.Cols)))
			var names []string
			for i := 0; i < k; i++ {
				t.Cols[i].Pinned = true
				names = append(names, quoteLite(g, t.Cols[i].Name))
			}
			if chance(g, 1, 2) {
				t.Extra = append(t.Extra, "PRIMARY KEY ("+strings.Join(names, ", ")+")")
			} else {
				t.Extra = append(t.Extra, "CONSTRAINT pk_"+fmt.Sprint(g.Intn(99))+" PRIMARY KEY ("+strings.Join(names, ", ")+")")
			}
		}
	}
	if len(s.Tables) > 0 && chance(g, 1, 5) {
		o := s.Tables[g.Intn(len(s.Tables))]
		c := &t.Cols[len(t.Cols)-1]
		oc := &o.Cols[0]
		if o.Cols[0].Pinned {
			c.Pinned = true
			s.n++
			t.Extra = append(t.Extra, fmt.Sprintf("CONSTRAINT fk_%d FOREIGN KEY (%s) REFERENCES %s (%s)%s", s.n, quoteLite(g, c.Name), quoteLite(g, o.Name), quoteLite(g, oc.Name), pickN(g, "", " ON DELETE CASCADE", " ON UPDATE SET NULL", " ON DELETE SET NULL ON UPDATE CASCADE")))
		}
	}
	return t
}

func (t *liteTable) sql(g *rand.Rand) string {
	var items []string
	for _, c := range t.Cols {
		it := quoteLite(g, c.Name) + pickN(g, " ", "  ", "\t") + c.Type
		for _, o := range c.Opts {
			it += " " + o
		}
		items = append(items, it)
	}
	items = append(items, t.Extra...)
	sep, open, close := ",\n  ", "(\n  ", "\n)"
	switch g.Intn(4) {
	case 0:
		sep, open, close = ", ", "(", ")"
	case 1:
		sep, open, close = ",", "( ", " )"
	}
	ine := ""
	if chance(g, 1, 8) {
		ine = "IF NOT EXISTS "
	}
	return pickN(g, "CREATE TABLE ", "create table ", "Create  Table ") + ine + quoteLite(g, t.Name) + pickN(g, " ", "") + open + strings.Join(items, sep) + close + t.Tail
}

// selGen writes SELECT statements in the part of SQL whose printed form means the same to SQLite.
type selGen struct {
	g    *rand.Rand
	uses map[string]bool
	n    int
}

type relCol struct {
	q   string // qualified reference
	num bool
}

func (x *selGen) rels(ts []*liteTable) ([]relCol, string) {
	g := x.g
	var cols []relCol
	from := ""
	k := 1
	if len(ts) > 1 && chance(g, 1, 3) {
		k = 2
	}
	for i := 0; i < k; i++ {
		t := ts[g.Intn(len(ts))]
		x.uses[t.Name] = true
		x.n++
		al := fmt.Sprintf("a%d", x.n)
		ref := quoteLite(g, t.Name) + pickN(g, " AS ", " as ", " ") + al
		if i == 0 && chance(g, 1, 3) && k == 1 {
			ref = quoteLite(g, t.Name)
			al = ""
		}
		var mine []relCol
		for _, c := range t.Cols {
			x.uses[t.Name+"."+c.Name] = true
			q := quoteLite(g, c.Name)
			if al != "" {
				q = al + "." + q
			}
			mine = append(mine, relCol{q, c.Num})
		}
		if i == 0 {
			from = ref
		} else {
			from += pickN(g, " JOIN ", " INNER JOIN ", " LEFT JOIN ", " left outer join ") + ref + " ON " + cols[g.Intn(len(cols))].q + " = " + mine[g.Intn(len(mine))].q
		}
		cols = append(cols, mine...)
	}
	return cols, from
}

func (x *selGen) lit() string {
	g := x.g
	if chance(g, 1, 2) {
		return pickN(g, "0", "1", "2", "10", "3.5", "100")
	}
	return sqlStr(pick(g, []string{"a", "abc", "x y", "okay", "%a%", "été"}))
}

func (x *selGen) val(cols []relCol, d int) string {
	g := x.g
	if d <= 0 || chance(g, 1, 2) {
		if chance(g, 2, 3) {
			return cols[g.Intn(len(cols))].q
		}
		return x.lit()
	}
	switch g.Intn(9) {
	case 0, 1:
		return x.val(cols, d-1) + pickN(g, " + ", " - ", " * ", " / ") + x.val(cols, d-1)
	case 2:
		return "(" + x.val(cols, d-1) + pickN(g, " + ", " - ", " * ") + x.val(cols, d-1) + ")"
	case 3:
		return pickN(g, "lower", "upper", "length", "abs", "coalesce", "LOWER", "max") + "(" + x.val(cols, d-1) + ", " + x.val(cols, d-1) + ")"
	case 4:
		return "CASE WHEN " + x.cond(cols, d-1) + " THEN " + x.val(cols, d-1) + " ELSE " + x.val(cols, d-1) + " END"
	case 5:
		return "case " + x.val(cols, 0) + " when " + x.lit() + " then " + x.val(cols, d-1) + " end"
	case 6:
		return "length(" + x.val(cols, d-1) + ")"
	case 7:
		return "upper(" + cols[g.Intn(len(cols))].q + ")"
	default:
		return "coalesce(" + x.val(cols, d-1) + ", " + x.lit() + ")"
	}
}

func fixArity(s string) string {
	for _, f := range []string{"lower", "upper", "length", "abs", "LOWER"} {
		s = strings.ReplaceAll(s, f+"2(", f+"(")
	}
	return s
}

func (x *selGen) cond(cols []relCol, d int) string {
	g := x.g
	if d > 0 && chance(g, 1, 2) {
		switch g.Intn(4) {
		case 0:
			return x.cond(cols, d-1) + pickN(g, " AND ", " and ") + x.cond(cols, d-1)
		case 1:
			return x.cond(cols, d-1) + pickN(g, " OR ", " or ") + x.cond(cols, d-1)
		case 2:
			return "(" + x.cond(cols, d-1) + pickN(g, " AND ", " OR ") + x.cond(cols, d-1) + ")"
		default:
			return "NOT (" + x.cond(cols, d-1) + ")"
		}
	}
	v := x.val(cols, 0)
	c := cols[g.Intn(len(cols))].q
	switch g.Intn(8) {
	case 0:
		return c + pickN(g, " IS NULL", " IS NOT NULL", " is null")
	case 1:
		return c + pickN(g, " IN (", " NOT IN (", " in (") + x.lit() + ", " + x.lit() + ")"
	case 2:
		return c + pickN(g, " BETWEEN ", " NOT BETWEEN ", " between ") + x.lit() + " AND " + x.lit()
	case 3:
		return c + pickN(g, " LIKE ", " NOT LIKE ", " like ") + sqlStr(pickN(g, "%a%", "a%", "_b", "x"))
	default:
		return c + pickN(g, " = ", " < ", " > ", " <= ", " >= ", " <> ", " != ", "=", ">") + v
	}
}

func (x *selGen) core(ts []*liteTable, ncols int, names []string) string {
	g := x.g
	cols, from := x.rels(ts)
	var items []string
	group := chance(g, 1, 6) && ncols >= 2
	gcol := cols[g.Intn(len(cols))].q
	for i := 0; i < ncols; i++ {
		e := x.val(cols, 2)
		if group {
			if i == 0 {
				e = gcol
			} else {
				e = pickN(g, "count(*)", "max(", "min(", "COUNT(", "count(distinct ", "sum(")
				if strings.HasSuffix(e, "(") || strings.HasSuffix(e, " ") {
					e += cols[g.Intn(len(cols))].q + ")"
				}
			}
		}
		items = append(items, e+pickN(g, " AS ", " as ")+names[i])
	}
	q := pickN(g, "select ", "SELECT ")
	if !group && chance(g, 1, 8) {
		q += "distinct "
	}
	q += strings.Join(items, pickN(g, ", ", ",", ",\n ")) + pickN(g, " from ", " FROM ", "\nFROM ") + from
	if chance(g, 2, 3) {
		q += pickN(g, " where ", " WHERE ", "\n where ") + x.cond(cols, 2)
	}
	if group {
		q += " group by " + gcol
		if chance(g, 1, 3) {
			q += " having count(*) " + pickN(g, ">", ">=", "<") + " 1"
		}
	}
	return q
}

func (x *selGen) sel(ts []*liteTable) string {
	g := x.g
	n := 1 + g.Intn(3)
	names := []string{"r1", "r2", "r3"}
	q := x.core(ts, n, names)
	if chance(g, 1, 6) {
		q += pickN(g, " union ", " UNION ALL ", " union all ") + x.core(ts, n, names)
	} else if chance(g, 1, 6) {
		q += " order by " + names[0] + pickN(g, "", " desc", " ASC")
		if chance(g, 1, 3) {
			q += fmt.Sprintf(" limit %d", 1+g.Intn(5))
		}
	}
	return q
}

func (s *liteSchema) newView(g *rand.Rand) *liteView {
	v := &liteView{Uses: map[string]bool{}}
	for {
		s.n++
		v.Name = fmt.Sprintf("%s_%d", pick(g, []string{"v", "view", "user_view", "my view", "sqlitev"}), s.n)
		break
	}
	s.viewBody(g, v)
	return v
}

func (s *liteSchema) viewBody(g *rand.Rand, v *liteView) {
	x := &selGen{g: g, uses: map[string]bool{}}
	v.Body = x.sel(s.Tables)
	v.Uses = x.uses
}

func liteSQL(g *rand.Rand, s *liteSchema) string {
	var b strings.Builder
	for _, t := range s.Tables {
		noise(g, &b)
		b.WriteString(t.sql(g) + pickN(g, ";\n", ";", " ;\n\n"))
	}
	for i, v := range s.Views {
		noise(g, &b)
		b.WriteString(pickN(g, "CREATE VIEW ", "create view ") + quoteLite(g, v.Name) + pickN(g, " AS ", " as ", "\nAS\n") + v.Body)
		if i < len(s.Views)-1 || !chance(g, 1, 4) {
			b.WriteString(";\n")
		}
	}
	return b.String()
}

func noise(g *rand.Rand, b *strings.Builder) {
	if chance(g, 1, 5) {
		b.WriteString(pickN(g, "-- a comment\n", "/* block */ ", "\n\n", "  ", "-- it's; tricky \"\n", "/* ; */\n"))
	}
}

// mutate applies supported changes.
func (s *liteSchema) mutate(g *rand.Rand) *liteSchema {
	c := s.clone()
	n := 1 + g.Intn(4)
	dropsCol := false
	for i := 0; i < n; i++ {
		switch g.Intn(8) {
		case 0:
			if len(c.Tables) < 6 {
				c.Tables = append(c.Tables, c.newTable(g))
			}
		case 1: // drop a table nobody uses afterwards
			if len(c.Tables) > 1 && !dropsCol {
				k := g.Intn(len(c.Tables))
				name := c.Tables[k].Name
				if !c.referenced(name) {
					c.dropViewsUsing(name)
					c.gone[strings.ToLower(name)] = true
					c.Tables = append(c.Tables[:k], c.Tables[k+1:]...)
				}
			}
		case 2, 3:
			if len(c.Tables) > 0 {
				t := c.Tables[g.Intn(len(c.Tables))]
				col := c.newCol(g, t, true)
				if chance(g, 1, 5) {
					c.refer(g, t, &col)
				}
				p := len(t.Cols)
				if chance(g, 1, 3) {
					p = g.Intn(len(t.Cols) + 1)
				}
				t.Cols = append(t.Cols[:p], append([]liteCol{col}, t.Cols[p:]...)...)
			}
		case 4: // drop a column that no view (old or new) uses
			if len(c.Tables) > 0 && len(c.Tables) == len(s.Tables) && len(c.Views) >= len(s.Views) {
				t := c.Tables[g.Intn(len(c.Tables))]
				k := g.Intn(len(t.Cols))
				if !t.Cols[k].Pinned && len(t.Cols) > 1 && !c.viewUsesTable(t.Name) && !s.viewUsesTable(t.Name) {
					ok := true
					for j, u := range t.Cols { // at least one stays that was there
						if j != k && s.hasCol(t.Name, u.Name) {
							ok = ok && true
						}
					}
					if ok && s.keepsOne(t, k) {
						t.Gone[strings.ToLower(t.Cols[k].Name)] = true
						t.Cols = append(t.Cols[:k], t.Cols[k+1:]...)
						dropsCol = true
					}
				}
			}
		case 5:
			if len(c.Tables) > 0 && len(c.Views) < 5 {
				c.Views = append(c.Views, c.newView(g))
			}
		case 6:
			if len(c.Views) > 0 && len(c.Tables) > 0 {
				c.viewBody(g, c.Views[g.Intn(len(c.Views))])
			}
		case 7:
			if len(c.Views) > 0 && !dropsCol {
				k := g.Intn(len(c.Views))
				c.Views = append(c.Views[:k], c.Views[k+1:]...)
			}
		}
	}
	if chance(g, 1, 3) {
		g.Shuffle(len(c.Views), func(i, j int) { c.Views[i], c.Views[j] = c.Views[j], c.Views[i] })
	}
	return c
}

func (s *liteSchema) keepsOne(t *liteTable, k int) bool {
	for j, u := range t.Cols {
		if j != k && s.hasCol(t.Name, u.Name) {
			return true
		}
	}
	return false
}

func (s *liteSchema) hasCol(t, c string) bool {
	for _, u := range s.Tables {
		if u.Name == t {
			for _, d := range u.Cols {
				if d.Name == c {
					return true
				}
			}
		}
	}
	return false
}

func (s *liteSchema) referenced(name string) bool {
	for _, t := range s.Tables {
		for _, c := range t.Cols {
			if c.Refs == name && t.Name != name {
				return true
			}
		}
		for _, e := range t.Extra {
			if t.Name != name && strings.Contains(e, "REFERENCES") && (strings.Contains(e, name+" (") || strings.Contains(e, name+"` (") || strings.Contains(e, name+`" (`)) {
				return true
			}
		}
	}
	return false
}

func (s *liteSchema) viewUsesTable(name string) bool {
	for _, v := range s.Views {
		if v.Uses[name] {
			return true
		}
	}
	return false
}

func (s *liteSchema) dropViewsUsing(name string) {
	var keep []*liteView
	for _, v := range s.Views {
		if !v.Uses[name] {
			keep = append(keep, v)
		}
	}
	s.Views = keep
}

func newLite(g *rand.Rand) *liteSchema {
	s := &liteSchema{}
	for i, n := 0, g.Intn(4); i < n; i++ {
		s.Tables = append(s.Tables, s.newTable(g))
	}
	if len(s.Tables) > 0 {
		for i, n := 0, g.Intn(3); i < n; i++ {
			s.Views = append(s.Views, s.newView(g))
		}
	}
	return s
}

// ---- observing a SQLite database ----

type liteDB struct{ *sql.DB }

func openLite(path string) liteDB {
	db, err := sql.Open("sqlite3", path)
	if err != nil {
		panic(err)
	}
	db.SetMaxOpenConns(1)
	return liteDB{db}
}

func (d liteDB) rows(q string, a ...interface{}) ([][]interface{}, []string, error) {
	rs, err := d.Query(q, a...)
	if err != nil {
		return nil, nil, err
	}
	defer rs.Close()
	cols, _ := rs.Columns()
	var out [][]interface{}
	for rs.Next() {
		v := make([]interface{}, len(cols))
		p := make([]interface{}, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		if err := rs.Scan(p...); err != nil {
			return nil, nil, err
		}
		for i := range v {
			if b, ok := v[i].([]byte); ok {
				v[i] = string(b)
			}
		}
		out = append(out, v)
	}
	return out, cols, rs.Err()
}

func q1(n string) string { return `"` + strings.ReplaceAll(n, `"`, `""`) + `"` }

// liteTokens gives a canonical token list of SQL text: lower-cased words, unquoted names, literals verbatim.
func liteTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return out
			}
			i += j + 4
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			var b strings.Builder
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if c == '\'' {
				out = append(out, "'"+b.String())
			} else {
				out = append(out, strings.ToLower(b.String()))
			}
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' || s[j] == 'e' || s[j] == 'E') {
				j++
			}
			out = append(out, numCanon(s[i:j]))
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= 0x80 || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, strings.ToLower(s[i:j]))
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func numCanon(s string) string {
	var f float64
	if _, err := fmt.Sscanf(s, "%g", &f); err == nil {
		return fmt.Sprintf("%g", f)
	}
	return s
}

// liteItems splits the stored CREATE TABLE text into column definitions and table constraints.
func liteItems(sqlText string) (map[string]string, []string) {
	toks := liteTokens(sqlText)
	cols := map[string]string{}
	var extra []string
	depth := 0
	var cur []string
	flush := func() {
		if len(cur) == 0 {
			return
		}
		switch {
		case cur[0] == "constraint" && len(cur) > 2, cur[0] == "foreign" && cur[1] == "key", cur[0] == "primary" && len(cur) > 2 && cur[1] == "key" && cur[2] == "(":
			extra = append(extra, strings.Join(cur, " "))
		default:
			rest := append([]string{}, cur[1:]...)
			// the clauses of a column definition may come in any order
			var drop []string
			for i := 0; i < len(rest); i++ {
				if (rest[i] == "(" || rest[i] == ")") || rest[i] == "null" && (i == 0 || rest[i-1] != "not" && rest[i-1] != "default") {
					continue
				}
				drop = append(drop, rest[i])
			}
			sort.Strings(drop)
			cols[cur[0]] = strings.Join(drop, " ")
		}
		cur = nil
	}
	for _, t := range toks {
		switch t {
		case "(":
			depth++
			if depth == 1 {
				continue
			}
		case ")":
			depth--
			if depth == 0 {
				flush()
				continue
			}
		case ",":
			if depth == 1 {
				flush()
				continue
			}
		}
		if depth >= 1 {
			cur = append(cur, t)
		}
	}
	sort.Strings(extra)
	return cols, extra
}

// schemaOf observes the schema of a SQLite database.
func (d liteDB) schemaOf() (map[string]string, error) {
	m := map[string]string{}
	rs, _, err := d.rows(`select type, name, tbl_name, sql from sqlite_master`)
	if err != nil {
		return nil, err
	}
	for _, r := range rs {
		typ, name, tbl := r[0].(string), r[1].(string), r[2].(string)
		text, _ := r[3].(string)
		if strings.HasPrefix(name, "sqlite_") {
			continue
		}
		switch typ {
		case "table":
			m["table "+name] = ""
			cols, extra := liteItems(text)
			m["table "+name] = strings.Join(extra, " ; ")
			ti, _, err := d.rows("select name, type, \"notnull\", dflt_value, pk, hidden from pragma_table_xinfo(?)", tbl)
			if err != nil {
				return nil, err
			}
			for _, c := range ti {
				dv := "-"
				if c[3] != nil {
					var ev []([]interface{})
					ev, _, err = d.rows("select quote(" + c[3].(string) + ")")
					if err != nil {
						dv = "expr " + strings.ToLower(c[3].(string))
					} else if strings.Contains(strings.ToLower(c[3].(string)), "current_") {
						dv = "now " + strings.ToLower(strings.Trim(c[3].(string), "()"))
					} else {
						dv = fmt.Sprint(ev[0][0])
						if dv == "NULL" {
							dv = "-"
						}
					}
				}
				n := c[0].(string)
				m["column "+name+"."+n] = fmt.Sprintf("type=%s notnull=%v default=%s pk=%v", strings.ToLower(strings.Join(liteTokens(fmt.Sprint(c[1])), "")), c[2], dv, c[4])
				def, ok := cols[strings.ToLower(n)]
				if ok {
					m["column "+name+"."+n] += " def=" + stripDefault(def)
				}
			}
			fk, _, err := d.rows(`select "table", "from", "to", on_update, on_delete from pragma_foreign_key_list(?)`, tbl)
			if err != nil {
				return nil, err
			}
			for _, f := range fk {
				m["fk "+name+fmt.Sprint(f)] = "fk"
			}
		case "view":
			m["view "+name] = "view"
		default:
			m[typ+" "+name] = strings.Join(liteTokens(text), " ")
		}
	}
	return m, nil
}

// stripDefault removes the default clause: it is compared by value.
func stripDefault(def string) string {
	var out []string
	for _, w := range strings.Split(def, " ") {
		if w == "default" || strings.HasPrefix(w, "'") || w == "-" || w != "" && w[0] >= '0' && w[0] <= '9' || w == "true" || w == "false" || strings.HasPrefix(w, "current_") || w == "null" {
			continue
		}
		out = append(out, w)
	}
	return strings.Join(out, " ")
}

func mapDiff(got, want map[string]string) []string {
	var out []string
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			out = append(out, "missing "+k+" ("+v+")")
		} else if g != v {
			out = append(out, fmt.Sprintf("%s is %q, want %q", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "extra "+k+" ("+v+")")
		}
	}
	sort.Strings(out)
	return out
}

// contents reads all rows of all tables keyed by column name.
func (d liteDB) contents() (map[string][]string, error) {
	out := map[string][]string{}
	rs, _, err := d.rows(`select name from sqlite_master where type='table' and name not like 'sqlite\_%' escape '\'`)
	if err != nil {
		return nil, err
	}
	for _, r := range rs {
		n := r[0].(string)
		rows, cols, err := d.rows("select * from " + q1(n))
		if err != nil {
			return nil, err
		}
		for _, c := range cols {
			out[n+"."+c] = []string{}
		}
		for _, row := range rows {
			for i, c := range cols {
				out[n+"."+c] = append(out[n+"."+c], fmt.Sprintf("%T:%v", row[i], row[i]))
			}
		}
	}
	return out, nil
}

// probe inserts the same rows into both databases and compares acceptance, contents and view results.
// What the clock has to do with it (defaults like CURRENT_TIMESTAMP) only counts when no second has passed.
func liteProbe(g *rand.Rand, a, b liteDB, tables map[string][]string, views []string) []string {
	seed := g.Int63()
	var diffs []string
	for i := 0; i < 20; i++ {
		t := time.Now().Unix()
		diffs = liteProbeOnce(rand.New(rand.NewSource(seed)), a, b, tables, views)
		if len(diffs) == 0 || time.Now().Unix() == t {
			return diffs
		}
	}
	return nil // too slow a machine to tell
}

func liteProbeOnce(g *rand.Rand, a, b liteDB, tables map[string][]string, views []string) []string {
	var diffs []string
	names := make([]string, 0, len(tables))
	for n := range tables {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a.Exec("delete from " + q1(n))
		b.Exec("delete from " + q1(n))
		a.Exec("delete from sqlite_sequence")
		b.Exec("delete from sqlite_sequence")
		for k := 0; k < 6; k++ {
			var cs, vs []string
			for _, c := range tables[n] {
				if chance(g, 3, 4) {
					cs = append(cs, q1(c))
					vs = append(vs, pickN(g, "NULL", fmt.Sprint(g.Intn(5)), fmt.Sprint(-g.Intn(100)), "'a'", "'abc'", "'x y'", "1.5", "'A'", "-200000", "10", "'2020-01-02'"))
				}
			}
			ins := "insert into " + q1(n) + " default values"
			if len(cs) > 0 {
				ins = fmt.Sprintf("insert into %s (%s) values (%s)", q1(n), strings.Join(cs, ","), strings.Join(vs, ","))
			}
			_, e1 := a.Exec(ins)
			_, e2 := b.Exec(ins)
			if (e1 == nil) != (e2 == nil) {
				diffs = append(diffs, fmt.Sprintf("%s: migrated database says %v, desired schema says %v", ins, e1, e2))
			}
		}
	}
	if len(diffs) == 0 {
		ca, e1 := a.contents()
		cb, e2 := b.contents()
		if e1 != nil || e2 != nil {
			return []string{fmt.Sprint("contents: ", e1, e2)}
		}
		for k := range cb {
			x, y := ca[k], cb[k]
			for i := range y {
				if i < len(x) && x[i] != y[i] && !clockRe.MatchString(y[i]) { // current_* defaults differ by the clock
					diffs = append(diffs, fmt.Sprintf("after the same inserts %s row %d is %s, want %s", k, i, x[i], y[i]))
				}
			}
			if len(x) != len(y) {
				diffs = append(diffs, fmt.Sprintf("%s has %d rows, want %d", k, len(x), len(y)))
			}
		}
	}
	for _, v := range views {
		ra, ca, e1 := a.rows("select * from " + q1(v))
		rb, cb, e2 := b.rows("select * from " + q1(v))
		if (e1 == nil) != (e2 == nil) {
			diffs = append(diffs, fmt.Sprintf("view %s: %v vs %v", v, e1, e2))
			continue
		}
		if fmt.Sprint(ca) != fmt.Sprint(cb) {
			diffs = append(diffs, fmt.Sprintf("view %s has columns %v, want %v", v, ca, cb))
		}
		sa, sb := sortedRows(ra), sortedRows(rb)
		if !clockRe.MatchString(strings.Join(sb, "")) && strings.Join(sa, "\n") != strings.Join(sb, "\n") {
			diffs = append(diffs, fmt.Sprintf("view %s gives %v, want %v", v, sa, sb))
		}
	}
	return diffs
}

func sortedRows(rs [][]interface{}) []string {
	var out []string
	for _, r := range rs {
		out = append(out, fmt.Sprint(r))
	}
	sort.Strings(out)
	return out
}

func copyFile(a, b string) {
	buf, err := os.ReadFile(a)
	if err != nil {
		if os.IsNotExist(err) {
			return
		}
		panic(err)
	}
	if err := os.WriteFile(b, buf, 0o644); err != nil {
		panic(err)
	}
}

// reference builds a fresh SQLite database by running the desired file through SQLite itself.
func liteReference(dir, name, script string) (liteDB, error) {
	p := filepath.Join(dir, name)
	os.Remove(p)
	d := openLite(p)
	_, err := d.Exec(script)
	return d, err
}

// clockRe matches values CURRENT_* produced.
var clockRe = regexp.MustCompile(`\b20[2-9]\d-\d\d-\d\d|\d\d:\d\d:\d\d`)

const nothingModified = "-- Nothing is modified --\n"

func init() { register("C01", "exploration", checkC01) }

func checkC01(r *Run) {
	r.rule = "A case is a chain of 2-4 generated schema files applied one after another with the real sqlite3def to a real SQLite file; non-trivial if at least one step issued DDL. After each step the schema SQLite stores (table_xinfo, foreign keys, stored definitions), the acceptance of random rows, and the rows the views return are compared with a fresh SQLite database built directly from the file; then the tool is run again and must report nothing and leave the file unchanged."
	r.assume = []string{"the SQLite library linked into sqlite3def (3.35) is the reference for what a file means", "changes SQLite cannot make (altering a column or key) are outside the supported set and not generated"}
	r.minEvals = 100
	r.Cases("chain", r.N(700, 8000), func(id string, g *rand.Rand) { c01Chain(r, id, g) })
	r.CaseList(namesOf("probe", liteProbes), func(id string, g *rand.Rand) { c01Probe(r, id, g) })
}

func namesOf(p string, m map[string][2]string) []string {
	var o []string
	for k := range m {
		o = append(o, p+":"+k)
	}
	sort.Strings(o)
	return o
}

// liteProbes are before/after files for situations the random generator leaves out.
var liteProbes = map[string][2]string{
	"view-literal-case":  {"CREATE TABLE t (a text); CREATE VIEW v AS select a from t where a = 'a'", "CREATE TABLE t (a text); CREATE VIEW v AS select a from t where a = 'A'"},
	"view-concat":        {"CREATE TABLE t (a text, b text); CREATE VIEW v AS select a from t", "CREATE TABLE t (a text, b text); CREATE VIEW v AS select a || b as c from t"},
	"view-name-case":     {"CREATE TABLE t (a text, b text); CREATE VIEW MyView AS select a from t", "CREATE TABLE t (a text, b text); CREATE VIEW MyView AS select b from t"},
	"view-literal-quote": {"CREATE TABLE t (a text, b text); CREATE VIEW v AS select a from t", "CREATE TABLE t (a text, b text); CREATE VIEW v AS select a from t where a = 'o''k'"},
	"drop-view-and-col":  {"CREATE TABLE t (a text, b text); CREATE VIEW v AS select b from t", "CREATE TABLE t (a text)"},
	"table-like-sqlite_": {"CREATE TABLE sqliteXyz (a text)", "CREATE TABLE sqliteXyz (a text, b text)"},
}

func c01Probe(r *Run, id string, g *rand.Rand) {
	p := liteProbes[strings.TrimPrefix(id, "probe:")]
	dir := r.TempDir()
	defer os.RemoveAll(dir)
	db := filepath.Join(dir, "db")
	r.Eval(id, true)
	for i, f := range []string{p[0], p[1]} {
		if problems := liteStep(r, g, dir, db, f, nil); len(problems) > 0 {
			if !r.Known(id, problems[0]) {
				r.Violation("probe", id, fmt.Sprintf("step %d: %s", i, strings.Join(problems, " | ")), map[string]interface{}{"files": p})
			}
			return
		}
	}
}

// liteStep applies one file and returns what is wrong.
func liteStep(r *Run, g *rand.Rand, dir, db, file string, modified *bool) []string {
	ref, err := liteReference(dir, "ref", file)
	defer ref.Close()
	if err != nil {
		return []string{"INVALID-CASE " + err.Error()}
	}
	sql := filepath.Join(dir, "schema.sql")
	os.WriteFile(sql, []byte(file), 0o644)
	var o Out
	if chance(g, 1, 5) {
		o = r.Tool("sqlite3def", []string{db}, file, nil, dir)
	} else {
		o = r.Tool("sqlite3def", []string{"-f", sql, db}, "", nil, dir)
	}
	if o.Code != 0 {
		return []string{"applying failed: " + o.String()}
	}
	if modified != nil && o.Stdout != nothingModified {
		*modified = true
		r.Count("statements applied", strings.Count(o.Stdout, ";\n"))
	}
	d := openLite(db)
	defer d.Close()
	got, err := d.schemaOf()
	if err != nil {
		return []string{err.Error()}
	}
	want, err := ref.schemaOf()
	if err != nil {
		return []string{err.Error()}
	}
	for k, v := range want {
		r.State("column and object definitions", k+v)
	}
	if df := mapDiff(got, want); len(df) > 0 {
		return append([]string{"schema differs from the file: "}, append(df, "output: "+o.Stdout)...)
	}
	// probe copies
	copyFile(db, filepath.Join(dir, "pa"))
	pa := openLite(filepath.Join(dir, "pa"))
	defer pa.Close()
	tables := map[string][]string{}
	var views []string
	for k := range want {
		switch {
		case strings.HasPrefix(k, "table "):
			n := k[6:]
			ti, _, _ := ref.rows("select name from pragma_table_xinfo(?)", n)
			for _, c := range ti {
				tables[n] = append(tables[n], c[0].(string))
			}
		case strings.HasPrefix(k, "view "):
			views = append(views, k[5:])
		}
	}
	sort.Strings(views)
	if df := liteProbe(g, pa, ref, tables, views); len(df) > 0 {
		return append([]string{"behaves differently from the file: "}, append(df, "output: "+o.Stdout)...)
	}
	r.Count("rows and views probed", 6*len(tables)+len(views))
	// second run
	before, _ := os.ReadFile(db)
	o2 := r.Tool("sqlite3def", []string{db, "-f", sql}, "", nil, dir)
	after, _ := os.ReadFile(db)
	if o2.Code != 0 || o2.Stdout != nothingModified {
		return []string{"second run: " + o2.String()}
	}
	if string(before) != string(after) {
		return []string{"the second run changed the database file"}
	}
	return nil
}

func c01Chain(r *Run, id string, g *rand.Rand) {
	dir := r.TempDir()
	defer os.RemoveAll(dir)
	db := filepath.Join(dir, "db")
	s := newLite(g)
	var files []string
	modified := false
	steps := 2 + g.Intn(3)
	for i := 0; i < steps; i++ {
		f := liteSQL(g, s)
		files = append(files, f)
		if i == 0 && chance(g, 1, 3) { // a database that was not made by the tool
			d := openLite(db)
			_, err := d.Exec(f)
			d.Close()
			if err != nil {
				r.Count("generated cases SQLite itself refuses", 1)
				break
			}
		}
		if p := liteStep(r, g, dir, db, f, &modified); len(p) > 0 {
			if strings.HasPrefix(p[0], "INVALID-CASE") {
				r.Count("generated cases SQLite itself refuses", 1)
				break
			}
			r.Violation("sqlite", id, fmt.Sprintf("step %d: %s", i, strings.Join(p, " | ")), map[string]interface{}{"files": files})
			break
		}
		s = s.mutate(g)
	}
	r.Eval(strings.Join(files, "\x00"), modified)
	if modified {
		r.Sample(map[string]interface{}{"case": id, "files": files})
	}
}
