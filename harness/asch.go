package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verifharness/minidb"
)

// Abstract schemas of the server databases. They are rendered to SQL, either
// plainly or with random spelling, and changed by random edits.

type aCol struct {
	ID        int
	Name      string
	Type      string // as written
	NotNull   bool
	Null      bool   // explicit NULL
	Default   string // as written, "" for none
	DefName   string // SQL Server
	AutoInc   bool
	OnUpdate  string
	Charset   string
	Collate   string
	Unique    bool // declared in the column
	PK        bool // declared in the column
	Check     string
	CheckName string
	NoInherit bool
	NotRepl   bool
	Identity  string // PG: ALWAYS / BY DEFAULT, MSSQL: seed,increment
	IdOpts    string
	Refs      string // PG: column level REFERENCES (written after the name)
}

type aIdx struct {
	Name      string
	Cols      []string
	Len       []string
	Desc      []bool
	Unique    bool
	Kind      string // fulltext
	Where     string
	Incl      []string
	Clustered bool
	Opts      string // WITH (...) / USING / COMMENT, as written
	Method    string
	Part      string // SQL Server: partition scheme or file group; "()" stands for its first column
	Form      int    // how it is written by default
}

type aFK struct {
	Name               string
	Cols, RefCols      []string
	Ref                *aTable
	OnDelete, OnUpdate string
	NotRepl            bool
	IdxName            string
}

type aPolicy struct {
	Name, Perm, Cmd, Using, Check string
	Roles                         []string
}

type aTable struct {
	Schema, Name string
	Cols         []*aCol
	PK           []string
	PKName       string
	PKClustered  int // 0 unsaid, 1 clustered, 2 nonclustered
	PKOpts       string
	Idx          []*aIdx
	FKs          []*aFK
	Pol          []*aPolicy
	Tail         string
	goneCols     map[string]bool
}

type aView struct {
	Schema     string // when it is not the default one
	Name, Body string
	Uses       map[string]bool // table, table.column
	replace    bool
}

type aTrig struct {
	Name, Time, Event string
	T                 *aTable
	Body              string
	Uses              map[string]bool
}

type aSchema struct {
	D     minidb.Dialect
	DB    string
	T     []*aTable
	V     []*aView
	G     []*aTrig
	n     int
	gone  map[string]bool // names not to reuse
	taken map[string]bool // names of indexes there have been
	fixed bool            // no edits of existing parts
	V8    bool            // MySQL 8: no display widths
}

func (s *aSchema) clone() *aSchema {
	c := &aSchema{D: s.D, DB: s.DB, n: s.n, V8: s.V8, gone: map[string]bool{}, taken: map[string]bool{}}
	for k := range s.taken {
		c.taken[k] = true
	}
	for _, t := range s.T {
		for _, x := range t.Idx {
			c.taken[s.idxKey(t, x.Name)] = true
		}
		for _, x := range t.FKs {
			c.taken["fk "+t.key()+"."+x.Name] = true
		}
		for _, x := range t.Pol {
			c.taken["policy "+t.key()+"."+x.Name] = true
		}
	}
	for k := range s.gone {
		c.gone[k] = true
	}
	m := map[*aTable]*aTable{}
	for _, t := range s.T {
		u := *t
		m[t] = &u
		u.Cols = nil
		for _, x := range t.Cols {
			y := *x
			u.Cols = append(u.Cols, &y)
		}
		u.PK = append([]string(nil), t.PK...)
		u.Idx = nil
		for _, x := range t.Idx {
			y := *x
			u.Idx = append(u.Idx, &y)
		}
		u.Pol = nil
		for _, x := range t.Pol {
			y := *x
			u.Pol = append(u.Pol, &y)
		}
		u.goneCols = map[string]bool{}
		for k := range t.goneCols {
			u.goneCols[k] = true
		}
		c.T = append(c.T, &u)
	}
	for i, t := range s.T {
		c.T[i].FKs = nil
		for _, x := range t.FKs {
			y := *x
			y.Ref = m[x.Ref]
			c.T[i].FKs = append(c.T[i].FKs, &y)
		}
	}
	for _, v := range s.V {
		y := *v
		c.V = append(c.V, &y)
	}
	for _, v := range s.G {
		y := *v
		y.T = m[v.T]
		c.G = append(c.G, &y)
	}
	return c
}

func (t *aTable) col(n string) *aCol {
	for _, c := range t.Cols {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// fkCols are columns that a foreign key of any table uses on this table.
func (s *aSchema) fkUse(t *aTable) map[string]bool {
	m := map[string]bool{}
	for _, o := range s.T {
		for _, f := range o.FKs {
			if o == t {
				for _, c := range f.Cols {
					m[c] = true
				}
			}
			if f.Ref == t {
				for _, c := range f.RefCols {
					m[c] = true
				}
			}
		}
	}
	for _, o := range s.T {
		for _, c := range o.Cols {
			if c.Refs != "" && o == t {
				m[c.Name] = true
			}
			if c.Refs == t.Name {
				for _, k := range t.PK {
					m[k] = true
				}
				for _, k := range t.Cols {
					m[k.Name] = m[k.Name] || k.PK
				}
			}
		}
	}
	return m
}

func (s *aSchema) viewUse(key string) bool {
	for _, v := range s.V {
		if v.Uses[key] {
			return true
		}
	}
	for _, v := range s.G {
		if v.Uses[key] {
			return true
		}
	}
	return false
}

func (v *aView) key() string {
	if v.Schema == "" {
		return v.Name
	}
	return v.Schema + "." + v.Name
}

func (t *aTable) key() string {
	if t.Schema == "" {
		return t.Name
	}
	return t.Schema + "." + t.Name
}

func (s *aSchema) table(key string) *aTable {
	for _, t := range s.T {
		if t.key() == key {
			return t
		}
	}
	return nil
}

func (s *aSchema) uid() int { s.n++; return s.n }

// order sorts tables so that referenced ones come first.
func (s *aSchema) order() []*aTable {
	var out []*aTable
	done := map[*aTable]bool{}
	var visit func(t *aTable)
	visit = func(t *aTable) {
		if done[t] {
			return
		}
		done[t] = true
		for _, f := range t.FKs {
			visit(f.Ref)
		}
		for _, c := range t.Cols {
			if u := s.refOf(c); u != nil {
				visit(u)
			}
		}
		out = append(out, t)
	}
	for _, t := range s.T {
		visit(t)
	}
	return out
}

// refOf is the table that a column's REFERENCES names.
func (s *aSchema) refOf(c *aCol) *aTable {
	for _, u := range s.T {
		if c.Refs != "" && u.Name == c.Refs && (u.Schema == "public" || u.Schema == "dbo") {
			return u
		}
	}
	return nil
}

// reachable says whether following foreign keys from a leads to b.
func (s *aSchema) reaches(a, b *aTable) bool {
	seen := map[*aTable]bool{}
	var visit func(t *aTable) bool
	visit = func(t *aTable) bool {
		if t == b {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, f := range t.FKs {
			if visit(f.Ref) {
				return true
			}
		}
		for _, c := range t.Cols {
			if u := s.refOf(c); u != nil && visit(u) {
				return true
			}
		}
		return false
	}
	return visit(a)
}

// ---- spelling ----

// spell writes keywords, names and gaps; with a nil generator plainly.
type spell struct {
	d       minidb.Dialect
	g       *rand.Rand
	ordered bool // keep the order of statements
}

func (sp spell) vary(num, den int) bool { return sp.g != nil && chance(sp.g, num, den) }

func (sp spell) kw(s string) string {
	if sp.g == nil {
		return s
	}
	switch sp.g.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if chance(sp.g, 1, 2) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func (sp spell) id(n string) string {
	simple := plainLower(n) && !reservedish[strings.ToLower(n)] && !reservedWord(n)
	if sp.d == minidb.PG && n != strings.ToLower(n) {
		simple = false
	}
	if simple && (sp.g == nil || chance(sp.g, 2, 3)) {
		return n
	}
	switch sp.d {
	case minidb.MySQL:
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	case minidb.PG:
		return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
	}
	if sp.g != nil && chance(sp.g, 1, 3) {
		return `"` + strings.ReplaceAll(n, `"`, `""`) + `"`
	}
	return "[" + strings.ReplaceAll(n, "]", "]]") + "]"
}

var reservedWords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range sqlWords {
		m[w] = true
	}
	return m
}()

func reservedWord(n string) bool { return reservedWords[strings.ToLower(n)] }

func (sp spell) ids(n []string) string {
	var o []string
	for _, x := range n {
		o = append(o, sp.id(x))
	}
	return strings.Join(o, sp.comma())
}

func (sp spell) comma() string {
	if sp.g == nil {
		return ", "
	}
	return pickN(sp.g, ",", ", ", " , ", ",\n  ")
}

// gap is white space, sometimes with a comment.
func (sp spell) gap() string {
	if sp.g == nil {
		return " "
	}
	switch sp.g.Intn(10) {
	case 0:
		return "  "
	case 1:
		return "\n"
	case 2:
		return "\t "
	}
	return " "
}

func (sp spell) comment() string {
	if sp.g == nil || !chance(sp.g, 1, 4) {
		return ""
	}
	if chance(sp.g, 1, 3) {
		if sp.d == minidb.MySQL && chance(sp.g, 1, 3) {
			return pickN(sp.g, "# note\n", "# it's; a `b\n", "#\n", "# DROP TABLE users;\n")
		}
		return pickN(sp.g, "/* note */\n", "/**/ ", "/* it's; a \"b\n -- c */\n", "/* a **/", "/***/", "/* DROP TABLE users; */")
	}
	return pickN(sp.g, "-- note\n", "-- it's; a \"comment\"\n", "--\n", "-- DROP TABLE users;\n", "\n", "-- été `x`\n")
}

// script joins statements.
func (sp spell) script(stmts []string) string {
	var b strings.Builder
	for i, s := range stmts {
		b.WriteString(sp.comment())
		b.WriteString(s)
		if i == len(stmts)-1 && sp.vary(1, 3) {
			break
		}
		b.WriteString(";")
		if sp.g == nil {
			b.WriteString("\n")
		} else {
			b.WriteString(pickN(sp.g, "\n", "\n\n", " \n", "\n\t\n"))
		}
	}
	return b.String()
}

func (t *aTable) sqlName(sp spell) string {
	if t.Schema != "" && (t.Schema != "public" && t.Schema != "dbo" || sp.vary(1, 4)) {
		return sp.id(t.Schema) + "." + sp.id(t.Name)
	}
	return sp.id(t.Name)
}

// Script renders the schema.
func (s *aSchema) Script(g *rand.Rand) string {
	sp := spell{d: s.D, g: g}
	return sp.script(s.Statements(sp))
}

// aStmt is one statement with what must come before it.
type aStmt struct {
	SQL   string
	Key   string
	Needs []string
}

// Statements renders the schema as a list of statements; with a generator in any
// order that respects what depends on what.
func (s *aSchema) Statements(sp spell) []string {
	var l []aStmt
	switch s.D {
	case minidb.MySQL:
		l = s.mysqlStatements(sp)
	case minidb.PG:
		l = s.pgStatements(sp)
	default:
		l = s.msStatements(sp)
	}
	var out []string
	have := map[string]bool{}
	for len(l) > 0 {
		k := 0
		if sp.g != nil && !sp.ordered {
			k = sp.g.Intn(len(l))
		}
		for n := 0; n < len(l); n++ {
			ok := true
			for _, d := range l[k].Needs {
				ok = ok && have[d]
			}
			if ok {
				break
			}
			k = (k + 1) % len(l)
		}
		out = append(out, l[k].SQL)
		if l[k].Key != "" {
			have[l[k].Key] = true
		}
		l = append(l[:k:k], l[k+1:]...)
	}
	return out
}

// needs of a view or trigger: the tables (and views) it uses.
func (s *aSchema) usedRels(uses map[string]bool) []string {
	var o []string
	for _, t := range s.T {
		if uses[t.key()] {
			o = append(o, t.key())
		}
	}
	for _, v := range s.V {
		if uses[v.key()] {
			o = append(o, v.key())
		}
	}
	sort.Strings(o)
	return o
}

func (s *aSchema) refNeeds(t *aTable) []string {
	var o []string
	for _, f := range t.FKs {
		if f.Ref != t {
			o = append(o, f.Ref.key())
		}
	}
	for _, c := range t.Cols {
		if c.Refs != "" && c.Refs != t.Name {
			for _, u := range s.T {
				if u.Name == c.Refs {
					o = append(o, u.key())
				}
			}
		}
	}
	return o
}

// reference runs the plain script on a fresh database.
func (s *aSchema) reference() (*minidb.DB, error) {
	db := minidb.New(s.D, s.DB)
	db.V8 = s.V8
	for _, st := range s.Statements(spell{d: s.D}) {
		if _, err := db.Exec(st); err != nil {
			return db, fmt.Errorf("%v in: %s", err, st)
		}
	}
	return db, nil
}

func newSchema(d minidb.Dialect, g *rand.Rand) *aSchema {
	s := &aSchema{D: d, DB: "testdb", gone: map[string]bool{}}
	s.V8 = d == minidb.MySQL && chance(g, 1, 3)
	n := 1 + g.Intn(4)
	if chance(g, 1, 20) {
		n += 4 + g.Intn(6)
	}
	for ; n > 0; n-- {
		s.edit(g, "add table")
	}
	for n := g.Intn(4); n > 0; n-- {
		s.edit(g, pickN(g, "add index", "add fk", "add view", "add trigger", "add policy"))
	}
	if d == minidb.PG && chance(g, 1, 3) {
		s.edit(g, "add policy")
		s.edit(g, "add policy")
	}
	return s
}

// mutateSchema returns a changed copy together with the edits that were made.
func (s *aSchema) mutate(g *rand.Rand, edits int) (*aSchema, []string) {
	c := s.clone()
	var done []string
	for tries := 0; len(done) < edits && tries < edits*12; tries++ {
		op := s.pickEdit(g)
		save := c.clone()
		if !c.editFrom(g, op, s) {
			c = save
			continue
		}
		if _, err := c.reference(); err != nil || !c.supported(s) {
			c = save
			continue
		}
		done = append(done, op)
	}
	return c, done
}

func (s *aSchema) edit(g *rand.Rand, op string) bool { return s.editFrom(g, op, nil) }

func (s *aSchema) pickEdit(g *rand.Rand) string {
	ops := []string{"add table", "drop table", "add column", "add column", "add column", "drop column", "drop column", "type", "type", "null", "default", "default", "pk", "replace key", "add index", "add index", "drop index", "change index", "add fk", "drop fk", "change fk", "add view", "drop view", "change view", "unique"}
	switch s.D {
	case minidb.MySQL:
		ops = append(ops, "autoinc", "autoinc", "move column", "charset", "on update", "add trigger", "change trigger")
	case minidb.PG:
		ops = append(ops, "identity", "check", "check", "add policy", "drop policy", "change policy", "change policy")
	case minidb.MSSQL:
		ops = append(ops, "identity", "check", "check", "add trigger", "change trigger")
	}
	return pick(g, ops)
}
