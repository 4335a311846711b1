package minidb

import (
	"fmt"
	"strconv"
	"strings"
)

// Effect is what one executed statement did.
type Effect struct {
	Verb    string            // "create table", "alter table", "drop table", ...
	Target  string            // object key the statement names ("table public.a", "view v", ...)
	Touched []string          // object keys named as subject of a change
	Before  map[string]string // objects before
	After   map[string]string
	Lost    []string // SQL Server: default constraints there were before and are not after
}

// Dropped lists objects that existed before and do not after.
func (e *Effect) Dropped() []string {
	var o []string
	for k := range e.Before {
		if _, ok := e.After[k]; !ok {
			o = append(o, k)
		}
	}
	return o
}

type execErr struct{ error }

func fail(format string, a ...interface{}) { panic(execErr{fmt.Errorf(format, a...)}) }

func check(err error) {
	if err != nil {
		panic(execErr{err})
	}
}

// Exec runs one DDL statement. On error nothing has changed.
func (db *DB) Exec(sql string) (eff *Effect, err error) {
	save := db.Clone()
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(execErr)
			if !ok {
				panic(r)
			}
			*db = *save
			eff, err = nil, e.error
		}
	}()
	before, defaults := db.Objects(), db.Defaults()
	p, err := newParser(db.D, sql)
	if err != nil {
		return nil, err
	}
	x := &executor{parser: p, db: db, eff: &Effect{}}
	x.statement(sql)
	for p.op(";") {
	}
	if p.cur().k != tEOF {
		fail("syntax error near %s", p.cur())
	}
	db.checkInvariants()
	db.Version++
	x.eff.Before, x.eff.After = before, db.Objects()
	if left := db.Defaults(); len(left) < len(defaults) {
		for k := range defaults {
			if !left[k] {
				x.eff.Lost = append(x.eff.Lost, k)
			}
		}
	}
	return x.eff, nil
}

// Defaults are the columns that have a default constraint (SQL Server only).
func (db *DB) Defaults() map[string]bool {
	m := map[string]bool{}
	for _, t := range db.Tables {
		for _, c := range t.Cols {
			if db.D == MSSQL && c.Default != nil && c.DefName != "" {
				m["default constraint of "+t.Key()+"."+c.Name] = true
			}
		}
	}
	return m
}

// ExecScript splits on top-level semicolons and runs everything.
func (db *DB) ExecScript(sql string) error {
	stmts, err := SplitScript(db.D, sql)
	if err != nil {
		return err
	}
	for _, s := range stmts {
		if _, err := db.Exec(s); err != nil {
			return fmt.Errorf("%v in: %s", err, s)
		}
	}
	return nil
}

// SplitScript splits a script into statements.
func SplitScript(d Dialect, sql string) ([]string, error) {
	toks, err := lex(d, sql)
	if err != nil {
		return nil, err
	}
	var out []string
	start, blank := 0, true
	for _, t := range toks {
		switch {
		case t.k == tEOF:
			if !blank {
				out = append(out, strings.TrimSpace(sql[start:]))
			}
		case t.op(";"):
			if !blank {
				out = append(out, strings.TrimSpace(sql[start:t.pos]))
			}
			start, blank = t.end, true
		default:
			blank = false
		}
	}
	return out, nil
}

type executor struct {
	*parser
	db  *DB
	eff *Effect
}

func (x *executor) touch(k string) { x.eff.Touched = append(x.eff.Touched, k) }

func (x *executor) id() string {
	s, err := x.ident()
	check(err)
	return s
}

// tableKey turns a parsed qualified name into schema, name.
func (x *executor) objName() (string, string) {
	n, err := x.qname()
	check(err)
	return x.split(n)
}
func (x *executor) split(n []string) (string, string) {
	switch x.d {
	case MySQL:
		if len(n) == 2 {
			if n[0] != x.db.Name {
				fail("unknown database '%s'", n[0])
			}
			return "", n[1]
		}
		if len(n) != 1 {
			fail("bad name")
		}
		return "", n[0]
	default:
		if len(n) == 1 {
			return x.db.DefaultSchema(), n[0]
		}
		if len(n) != 2 {
			fail("bad name")
		}
		return n[0], n[1]
	}
}
func join(s, n string) string {
	if s == "" {
		return n
	}
	return s + "." + n
}

func (x *executor) mustTable() *Table {
	s, n := x.objName()
	t := x.db.Table(join(s, n))
	if t == nil {
		fail("table %s does not exist", join(s, n))
	}
	return t
}

func (x *executor) statement(sql string) {
	switch {
	case x.kw("create"):
		switch {
		case x.kw("table"):
			x.createTable()
		case x.isKw("unique") || x.isKw("index") || x.isKw("clustered") || x.isKw("nonclustered") || x.isKw("fulltext"):
			x.createIndex()
		case x.isKw("view") || x.isKw("or", "replace", "view"):
			x.createView(sql)
		case x.kw("policy"):
			x.createPolicy()
		case x.isKw("trigger") || x.isKw("or", "alter", "trigger"):
			x.createTrigger(sql)
		case x.kw("schema"):
			x.id()
		default:
			check(x.errf("unsupported CREATE"))
		}
	case x.kw("alter", "table"):
		x.alterTable()
	case x.kw("drop"):
		switch {
		case x.kw("table"):
			x.dropTable()
		case x.kw("index"):
			x.dropIndex()
		case x.kw("view"):
			x.dropView()
		case x.kw("policy"):
			n := x.id()
			check(x.needKw("on"))
			t := x.mustTable()
			x.eff.Verb, x.eff.Target = "drop policy", "policy "+t.Key()+"."+n
			x.touch(x.eff.Target)
			for i, p := range t.Policies {
				if p.Name == n {
					t.Policies = append(append([]*Policy(nil), t.Policies[:i]...), t.Policies[i+1:]...)
					return
				}
			}
			fail("policy %s for table %s does not exist", n, t.Key())
		case x.kw("trigger"):
			n := x.id()
			x.eff.Verb, x.eff.Target = "drop trigger", "trigger "+n
			x.touch(x.eff.Target)
			for i, t := range x.db.Triggers {
				if strings.EqualFold(t.Name, n) {
					x.db.Triggers = append(append([]*Trigger(nil), x.db.Triggers[:i]...), x.db.Triggers[i+1:]...)
					return
				}
			}
			fail("trigger %s does not exist", n)
		default:
			check(x.errf("unsupported DROP"))
		}
	default:
		check(x.errf("unsupported statement"))
	}
}

// ---- CREATE TABLE ----------------------------------------------------------

func (x *executor) createTable() {
	ine := x.kw("if", "not", "exists")
	if ine && x.d == MSSQL {
		check(x.errf("IF NOT EXISTS"))
	}
	s, n := x.objName()
	t := &Table{ID: x.db.id(), Schema: s, Name: n}
	x.eff.Verb, x.eff.Target = "create table", "table "+t.Key()
	x.touch(x.eff.Target)
	if x.db.Table(t.Key()) != nil || x.db.View(t.Key()) != nil {
		fail("relation %s already exists", t.Key())
	}
	var fks []func()
	check(x.needOp("("))
	for {
		x.tableItem(t, &fks)
		if !x.op(",") {
			break
		}
	}
	check(x.needOp(")"))
	if x.d == MySQL {
		x.tableOptions(t)
		if t.Charset == "" {
			t.Charset = "utf8mb4"
		}
		if t.Options == "" {
			t.Options = " ENGINE=InnoDB DEFAULT CHARSET=" + t.Charset
		}
		for _, c := range t.Cols {
			if c.Collate == "binary" {
				c.Collate = t.Charset + "_bin"
			}
		}
	}
	if len(t.Cols) == 0 {
		fail("a table must have at least one column")
	}
	x.db.Tables = append(x.db.Tables, t)
	for _, f := range fks {
		f()
	}
}

func (x *executor) tableOptions(t *Table) {
	engine, collate, extra := "InnoDB", "", ""
	for x.cur().k == tWord {
		x.kw("default")
		name := strings.ToLower(x.next().s)
		if name == "character" {
			check(x.needKw("set"))
			name = "charset"
		}
		x.op("=")
		v := x.next()
		if v.k != tWord && v.k != tStr && v.k != tNum && v.k != tQuoted {
			check(x.errf("bad table option"))
		}
		switch name {
		case "engine":
			engine = v.s
		case "charset":
			t.Charset = strings.ToLower(v.s)
		case "collate":
			collate = strings.ToLower(v.s)
		case "auto_increment":
			extra += ""
		case "row_format":
			extra += " ROW_FORMAT=" + strings.ToUpper(v.s)
		case "comment":
			extra += " COMMENT=" + mystr(v.s)
		default:
			check(x.errf("unknown table option %q", name))
		}
		x.op(",")
	}
	if t.Charset == "" {
		t.Charset = "utf8mb4"
	}
	t.Options = " ENGINE=" + engine + " DEFAULT CHARSET=" + t.Charset
	if collate != "" {
		t.Options += " COLLATE=" + collate
	}
	t.Options += extra
}

func (x *executor) tableItem(t *Table, later *[]func()) {
	// constraint or key definitions first
	if x.isKw("constraint") || x.isKw("primary", "key") || x.isKw("foreign", "key") || x.keyItemAhead() || x.isKw("check") {
		x.tableConstraint(t, later)
		return
	}
	x.columnDef(t, -1, nil, later)
}

func (x *executor) keyItemAhead() bool {
	if x.isKw("unique") || (x.isKw("fulltext") || x.isKw("spatial")) && x.d == MySQL {
		return true
	}
	if x.isKw("key") && x.d == MySQL || x.isKw("index") && x.d != PG {
		// "key varchar(10)" is not a valid column in MySQL anyway
		return true
	}
	return false
}

// tableConstraint parses [CONSTRAINT n] <constraint or key>; it is used in CREATE TABLE and after ADD.
func (x *executor) tableConstraint(t *Table, later *[]func()) {
	cname := ""
	if x.kw("constraint") {
		if !(x.d == MySQL && (x.isKw("foreign") || x.isKw("unique") || x.isKw("primary"))) {
			cname = x.id()
		}
	}
	switch {
	case x.kw("primary", "key"):
		clustered := true
		if x.d == MSSQL {
			if x.kw("nonclustered") {
				clustered = false
			} else {
				x.kw("clustered")
			}
		}
		idx := &Index{Name: cname, Cols: x.indexCols(), Primary: true, Unique: true, Clustered: clustered}
		x.indexTail(idx)
		x.addPK(t, idx)
	case x.kw("foreign", "key"):
		iname := ""
		if !x.cur().op("(") {
			if x.d != MySQL {
				check(x.errf("index name in FOREIGN KEY"))
			}
			iname = x.id()
		}
		f := &FK{Name: cname, Cols: x.nameList()}
		check(x.needKw("references"))
		rs, rn := x.objName()
		f.RefTable = join(rs, rn)
		if x.cur().op("(") {
			f.RefCols = x.nameList()
		}
		x.fkActions(f)
		if x.kw("not", "for", "replication") {
			if x.d != MSSQL {
				check(x.errf("NOT FOR REPLICATION"))
			}
			f.NotRepl = true
		}
		add := func() { x.addFK(t, f, iname) }
		if later != nil {
			*later = append(*later, add)
		} else {
			add()
		}
	case x.kw("check"):
		if x.d == MySQL {
			check(x.errf("table check not modelled"))
		}
		x.checkTail(t, cname, "")
	case x.d == MSSQL && x.isKw("default"):
		x.kw("default")
		v := x.defaultValue()
		check(x.needKw("for"))
		cn := x.id()
		c := t.Col(x.db, cn)
		if c == nil {
			fail("column %s does not exist in %s", cn, t.Key())
		}
		x.touch("column " + t.Key() + "." + c.Name)
		x.setDefault(t, c, cname, v)
	default:
		x.keyDef(t, cname)
	}
}

func (x *executor) nameList() []string {
	check(x.needOp("("))
	var o []string
	for {
		o = append(o, x.id())
		if !x.op(",") {
			break
		}
	}
	check(x.needOp(")"))
	return o
}

func (x *executor) fkActions(f *FK) {
	for x.isKw("on", "delete") || x.isKw("on", "update") {
		x.next()
		which := strings.ToLower(x.next().s)
		act := ""
		switch {
		case x.kw("restrict"):
			act = "RESTRICT"
			if x.d == MSSQL {
				check(x.errf("RESTRICT"))
			}
		case x.kw("cascade"):
			act = "CASCADE"
		case x.kw("set", "null"):
			act = "SET NULL"
		case x.kw("set", "default"):
			act = "SET DEFAULT"
		case x.kw("no", "action"):
			act = "NO ACTION"
		default:
			check(x.errf("bad referential action"))
		}
		if which == "delete" {
			if f.OnDelete != "" {
				check(x.errf("repeated ON DELETE"))
			}
			f.OnDelete = act
		} else {
			if f.OnUpdate != "" {
				check(x.errf("repeated ON UPDATE"))
			}
			f.OnUpdate = act
		}
	}
}

func (x *executor) checkTail(t *Table, name, col string) {
	nr := false
	if x.d == MSSQL && x.kw("not", "for", "replication") {
		nr = true
	}
	check(x.needOp("("))
	e, err := x.expr()
	check(err)
	check(x.needOp(")"))
	c := &Check{Name: name, Col: col, E: e, NotRepl: nr}
	if x.d == PG && x.kw("no", "inherit") {
		c.NoInherit = true
	}
	x.addCheck(t, c)
}

func (x *executor) exprCols(t *Table, e *Expr) []string {
	var cols []string
	e.walk(func(n *Expr) {
		if n.Op == "col" && n.Sel == nil {
			name := n.Name[len(n.Name)-1]
			c := t.Col(x.db, name)
			if c == nil {
				fail("column %q does not exist", name)
			}
			cols = append(cols, c.Name)
		}
	})
	return cols
}

func (x *executor) addCheck(t *Table, c *Check) {
	if x.d == MSSQL && c.Col == "" {
		// SQL Server keeps a check of a single column with that column
		one := ""
		many := false
		c.E.walk(func(n *Expr) {
			if n.Op == "col" && n.Sel == nil {
				k := n.Name[len(n.Name)-1]
				many = many || one != "" && !strings.EqualFold(one, k)
				one = k
			}
		})
		if !many && one != "" {
			if k := t.Col(x.db, one); k != nil {
				one = k.Name
			}
			c.Col = one
		}
	}
	if x.d == MSSQL && strings.EqualFold(c.Name, t.Name+"_"+c.Col+"_check") {
		c.AutoName = true // the name the tool gives to a check without one
	}
	if c.Name == "" {
		c.AutoName = true
		base := t.Name
		if c.Col != "" {
			base += "_" + c.Col
		}
		base += "_check"
		if x.d == MSSQL {
			base = fmt.Sprintf("CK__%s__%s__%X", cut(t.Name, 9), cut(c.Col, 5), 0x24927208+x.db.id())
		}
		c.Name = base
		for i := 1; x.constraintExists(t, c.Name); i++ {
			c.Name = fmt.Sprintf("%s%d", base, i)
		}
		if x.d == PG {
			c.AutoName = false // the name is predictable and visible
		}
	} else if x.constraintExists(t, c.Name) {
		fail("constraint %q for relation %q already exists", c.Name, t.Key())
	}
	t.Checks = append(t.Checks, c)
	x.touch("check " + t.Key() + "." + c.Name)
	x.exprColsLater(t, c.E)
}

// in CREATE TABLE a column check may name a later column
func (x *executor) exprColsLater(t *Table, e *Expr) {
	if x.eff.Verb != "create table" {
		x.exprCols(t, e)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (x *executor) constraintExists(t *Table, n string) bool {
	scope := []*Table{t}
	if x.d == MSSQL { // constraint names share the schema-wide object namespace
		for _, o := range x.db.Tables {
			if strings.EqualFold(o.Schema, t.Schema) && o != t {
				scope = append(scope, o)
			}
		}
	}
	for _, t := range scope {
		if t.PK != nil && t.PK.Name == n {
			return true
		}
		for _, c := range t.Checks {
			if c.Name == n {
				return true
			}
		}
		for _, c := range t.FKs {
			if c.Name == n {
				return true
			}
		}
		for _, c := range t.Idx {
			if c.ForConstr != "" && c.Name == n {
				return true
			}
		}
		for _, c := range t.Cols {
			if c.DefName == n {
				return true
			}
		}
	}
	return false
}

func (x *executor) indexCols() []IdxCol {
	check(x.needOp("("))
	var o []IdxCol
	for {
		c := IdxCol{Name: x.id()}
		if x.d == MySQL && x.cur().op("(") {
			a, err := x.args(1, 1)
			check(err)
			c.Len = a[0]
		}
		if x.kw("desc") {
			c.Desc = true
		} else {
			x.kw("asc")
		}
		for _, e := range o {
			if e.Name == c.Name {
				fail("duplicate column name '%s' in key", c.Name)
			}
		}
		o = append(o, c)
		if !x.op(",") {
			break
		}
	}
	check(x.needOp(")"))
	return o
}

var mssqlOpts = map[string]string{"pad_index": "OFF", "fillfactor": "0", "ignore_dup_key": "OFF", "statistics_norecompute": "OFF", "statistics_incremental": "OFF", "allow_row_locks": "ON", "allow_page_locks": "ON"}

func (x *executor) indexTail(idx *Index) {
	switch x.d {
	case MSSQL:
		idx.Opts = map[string]string{}
		for k, v := range mssqlOpts {
			idx.Opts[k] = v
		}
		if x.kw("include") {
			idx.Incl = x.nameList()
		}
		if x.kw("where") {
			e, err := x.expr()
			check(err)
			idx.Where = e
		}
		if x.kw("with") {
			check(x.needOp("("))
			for {
				n := x.next()
				k := strings.ToLower(n.s)
				if _, ok := mssqlOpts[k]; !ok {
					check(x.errf("unknown index option %s", n.s))
				}
				check(x.needOp("="))
				v := x.next()
				if k == "fillfactor" {
					if v.k != tNum {
						check(x.errf("fillfactor"))
					}
					idx.Opts[k] = v.s
				} else {
					if !v.is("on") && !v.is("off") {
						check(x.errf("%s must be ON or OFF, not %s", k, v))
					}
					idx.Opts[k] = strings.ToUpper(v.s)
				}
				if !x.op(",") {
					break
				}
			}
			check(x.needOp(")"))
		}
		if x.kw("on") {
			idx.Part = x.id()
			if x.op("(") {
				c := x.id()
				if len(idx.Cols) == 0 {
					check(x.errf("partition column"))
				}
				idx.Part += "(" + c + ")"
				check(x.needOp(")"))
			}
		}
	case MySQL:
		for {
			switch {
			case x.kw("using"):
				m := x.next()
				if !m.is("btree") && !m.is("hash") {
					check(x.errf("index type"))
				}
				idx.Method = strings.ToLower(m.s)
			case x.kw("key_block_size"):
				x.op("=")
				v := x.next()
				if v.k != tNum {
					check(x.errf("key_block_size"))
				}
				x.setOpt(idx, "key_block_size", v.s)
			case x.kw("comment"):
				v := x.next()
				if v.k != tStr {
					check(x.errf("comment must be a string"))
				}
				idx.Comment = v.s
			case x.isKw("with", "parser"):
				x.next()
				x.next()
				x.setOpt(idx, "parser", x.id())
			default:
				return
			}
		}
	case PG:
		if x.kw("where") {
			e, err := x.expr()
			check(err)
			idx.Where = e
		}
	}
}
func (x *executor) setOpt(idx *Index, k, v string) {
	if idx.Opts == nil {
		idx.Opts = map[string]string{}
	}
	idx.Opts[k] = v
}

// keyDef parses UNIQUE/KEY/INDEX/FULLTEXT/SPATIAL definitions inside CREATE TABLE or after ADD.
func (x *executor) keyDef(t *Table, cname string) {
	idx := &Index{}
	switch {
	case x.kw("unique"):
		idx.Unique = true
		if x.d == MySQL {
			_ = x.kw("key") || x.kw("index")
		}
		if x.d == MSSQL {
			x.kw("clustered")
			x.kw("nonclustered")
		}
		idx.ForConstr = "u"
		if x.d == MySQL {
			idx.ForConstr = ""
		}
	case x.d == MySQL && (x.isKw("fulltext") || x.isKw("spatial")):
		idx.Kind = strings.ToLower(x.next().s)
		_ = x.kw("key") || x.kw("index")
	case x.d == MySQL && (x.kw("key") || x.kw("index")):
	case x.d == MSSQL && x.kw("index"):
	default:
		check(x.errf("unsupported table element"))
	}
	idx.Name = cname
	if x.cur().k == tWord && !x.cur().is("using") || x.cur().k == tQuoted {
		n := x.id()
		if cname == "" {
			idx.Name = n
		}
	}
	if x.d == MSSQL && idx.ForConstr == "" {
		if x.kw("unique") {
			idx.Unique = true
		}
		if x.kw("clustered") {
			idx.Clustered = true
		} else {
			x.kw("nonclustered")
		}
	}
	if x.d == MySQL && x.isKw("using") {
		x.indexTail(idx)
	}
	idx.Cols = x.indexCols()
	x.indexTail(idx)
	x.addIndex(t, idx)
}

func (x *executor) autoIndexName(t *Table, idx *Index) string {
	base := idx.Cols[0].Name
	if x.d == PG {
		var n []string
		for _, c := range idx.Cols {
			n = append(n, c.Name)
		}
		base = t.Name + "_" + strings.Join(n, "_") + "_key"
	}
	if x.d == MSSQL {
		return fmt.Sprintf("UQ__%s__%016X", cut(t.Name, 8), x.db.id())
	}
	n := base
	for i := 2; t.Index(x.db, n) != nil; i++ {
		n = fmt.Sprintf("%s_%d", base, i)
	}
	return n
}

func (x *executor) pgRelExists(schema, name string) bool {
	for _, t := range x.db.Tables {
		if t.Schema != schema {
			continue
		}
		if t.Name == name || t.PK != nil && t.PK.Name == name || t.Index(x.db, name) != nil {
			return true
		}
	}
	return x.db.View(join(schema, name)) != nil
}

func (x *executor) addIndex(t *Table, idx *Index) {
	if idx.Name == "" {
		idx.Name = x.autoIndexName(t, idx)
		idx.AutoName = true
	}
	if x.d == MySQL && strings.EqualFold(idx.Name, "primary") {
		fail("incorrect index name 'PRIMARY'")
	}
	if x.d == PG && (x.pgRelExists(t.Schema, idx.Name) || t.Name == idx.Name || t.Index(x.db, idx.Name) != nil) {
		fail("relation %q already exists", idx.Name)
	}
	if t.Index(x.db, idx.Name) != nil || x.d == MSSQL && t.PK != nil && strings.EqualFold(t.PK.Name, idx.Name) {
		// MySQL: an explicit key of that name replaces nothing, it is an error,
		// unless the existing one was only created for a foreign key.
		old := t.Index(x.db, idx.Name)
		if x.d == MySQL && old != nil && old.Implicit {
			x.removeIndex(t, old)
		} else {
			fail("duplicate key name '%s'", idx.Name)
		}
	}
	for i := range idx.Cols {
		c := t.Col(x.db, idx.Cols[i].Name)
		if c == nil {
			fail("key column '%s' doesn't exist in table %s", idx.Cols[i].Name, t.Key())
		}
		idx.Cols[i].Name = c.Name
		if x.d == MySQL {
			cl := c.Type.Name
			if (strings.HasSuffix(cl, "text") || strings.HasSuffix(cl, "blob")) && idx.Cols[i].Len == "" && idx.Kind == "" {
				fail("BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
			}
			if idx.Cols[i].Len != "" && c.Type.class() != "str" && c.Type.class() != "bin" {
				fail("incorrect prefix key on '%s'", c.Name)
			}
			if idx.Kind == "fulltext" && c.Type.class() != "str" {
				fail("column '%s' cannot be part of FULLTEXT index", c.Name)
			}
		}
	}
	for _, n := range idx.Incl {
		if t.Col(x.db, n) == nil {
			fail("included column %s does not exist", n)
		}
	}
	if idx.Where != nil {
		x.exprCols(t, idx.Where)
	}
	if x.d == MSSQL {
		if idx.Opts == nil {
			idx.Opts = map[string]string{}
			for k, v := range mssqlOpts {
				idx.Opts[k] = v
			}
		}
		if idx.Clustered {
			x.oneClustered(t)
		}
	}
	t.Idx = append(t.Idx, idx)
	x.touch("index " + t.Key() + "." + idx.Name)
	if x.d == MySQL { // an explicit key makes a covering implicit one redundant
		for _, o := range append([]*Index(nil), t.Idx...) {
			if o.Implicit && o != idx && idx.Kind == "" && prefixOf(o.Cols, idx.Cols) {
				x.removeIndex(t, o)
			}
		}
	}
}

func (x *executor) oneClustered(t *Table) {
	if t.PK != nil && t.PK.Clustered {
		fail("cannot create more than one clustered index on table '%s'", t.Key())
	}
	for _, o := range t.Idx {
		if o.Clustered {
			fail("cannot create more than one clustered index on table '%s'", t.Key())
		}
	}
}

func prefixOf(a, b []IdxCol) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].Name != b[i].Name || b[i].Len != "" {
			return false
		}
	}
	return true
}

func (x *executor) removeIndex(t *Table, idx *Index) {
	for i, o := range t.Idx {
		if o == idx {
			t.Idx = append(append([]*Index(nil), t.Idx[:i]...), t.Idx[i+1:]...)
			return
		}
	}
}

func (x *executor) addPK(t *Table, idx *Index) {
	if t.PK != nil {
		fail("multiple primary keys for table %s", t.Key())
	}
	switch x.d {
	case MySQL:
		idx.Name = "PRIMARY"
	case PG:
		if idx.Name == "" {
			idx.Name = t.Name + "_pkey"
		}
		if x.pgRelExists(t.Schema, idx.Name) || t.Index(x.db, idx.Name) != nil {
			fail("relation %q already exists", idx.Name)
		}
	case MSSQL:
		if idx.Name == "" {
			idx.Name = fmt.Sprintf("PK__%s__%016X", cut(t.Name, 8), x.db.id())
			idx.AutoName = true
		} else if x.constraintExists(t, idx.Name) {
			fail("there is already an object named '%s'", idx.Name)
		}
		if idx.Opts == nil {
			idx.Opts = map[string]string{}
			for k, v := range mssqlOpts {
				idx.Opts[k] = v
			}
		}
		if idx.Clustered {
			for _, o := range t.Idx {
				if o.Clustered {
					if !idx.AutoName && false {
						break
					}
					fail("cannot create more than one clustered index on table '%s'", t.Key())
				}
			}
		}
	}
	for i := range idx.Cols {
		c := t.Col(x.db, idx.Cols[i].Name)
		if c == nil {
			if x.eff.Verb == "create table" {
				fail("key column '%s' doesn't exist in table", idx.Cols[i].Name)
			}
			fail("column %q named in key does not exist", idx.Cols[i].Name)
		}
		idx.Cols[i].Name = c.Name
		if x.d == MSSQL && x.eff.Verb != "create table" && !c.NotNull {
			fail("cannot define PRIMARY KEY constraint on nullable column in table '%s'", t.Key())
		}
		c.NotNull = true
	}
	t.PK = idx
	x.touch("pk " + t.Key())
}

func (x *executor) refIndexed(t *Table, cols []string) bool {
	all := append([]*Index(nil), t.Idx...)
	if t.PK != nil {
		all = append(all, t.PK)
	}
	for _, i := range all {
		if i.Kind != "" {
			continue
		}
		if x.d != MySQL && (!i.Unique || i.Where != nil) {
			continue
		}
		if len(cols) > len(i.Cols) || x.d != MySQL && len(cols) != len(i.Cols) {
			continue
		}
		ok := true
		if x.d == MySQL {
			for j, c := range cols {
				if i.Cols[j].Name != c || i.Cols[j].Len != "" {
					ok = false
				}
			}
		} else {
			for _, c := range cols {
				f := false
				for _, ic := range i.Cols {
					f = f || ic.Name == c
				}
				ok = ok && f
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (x *executor) addFK(t *Table, f *FK, iname string) {
	rt := x.db.Table(f.RefTable)
	if rt == nil {
		fail("foreign key of %s references missing table %s", t.Key(), f.RefTable)
	}
	f.RefTable = rt.Key()
	if len(f.RefCols) == 0 {
		if rt.PK == nil {
			fail("there is no primary key for referenced table %s", rt.Key())
		}
		for _, c := range rt.PK.Cols {
			f.RefCols = append(f.RefCols, c.Name)
		}
	}
	if len(f.RefCols) != len(f.Cols) {
		fail("number of referencing and referenced columns for foreign key disagree")
	}
	for i := range f.Cols {
		a, b := t.Col(x.db, f.Cols[i]), rt.Col(x.db, f.RefCols[i])
		if a == nil || b == nil {
			fail("foreign key column missing: %s.%s -> %s.%s", t.Key(), f.Cols[i], rt.Key(), f.RefCols[i])
		}
		f.Cols[i], f.RefCols[i] = a.Name, b.Name
		if x.d == MySQL && (a.Type.Name != b.Type.Name || a.Type.Unsigned != b.Type.Unsigned) ||
			x.d == MSSQL && a.Type.String() != b.Type.String() ||
			x.d == PG && a.Type.class() != b.Type.class() {
			fail("foreign key column types incompatible: %s.%s %s -> %s.%s %s", t.Key(), a.Name, a.Type, rt.Key(), b.Name, b.Type)
		}
		if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && a.NotNull && x.d != PG {
			fail("column '%s' cannot be NOT NULL: needed in a foreign key constraint SET NULL", a.Name)
		}
	}
	if !x.refIndexed(rt, f.RefCols) {
		fail("there is no unique constraint/index matching given keys for referenced table %s", rt.Key())
	}
	named := f.Name != ""
	if !named {
		switch x.d {
		case MySQL:
			for i := 1; ; i++ {
				f.Name = fmt.Sprintf("%s_ibfk_%d", t.Name, i)
				if !x.fkNameUsed(f.Name) {
					break
				}
			}
		case PG:
			f.Name = t.Name + "_" + strings.Join(f.Cols, "_") + "_fkey"
			for i := 1; x.constraintExists(t, f.Name); i++ {
				f.Name = fmt.Sprintf("%s_%s_fkey%d", t.Name, strings.Join(f.Cols, "_"), i)
			}
		default:
			f.Name = fmt.Sprintf("FK__%s__%s__%08X", cut(t.Name, 9), cut(f.Cols[0], 5), x.db.id())
			f.AutoName = true
		}
	} else if x.constraintExists(t, f.Name) || x.d == MySQL && x.fkNameUsed(f.Name) {
		fail("duplicate foreign key constraint name '%s'", f.Name)
	}
	t.FKs = append(t.FKs, f)
	x.touch("fk " + t.Key() + "." + f.Name)
	if x.d == MySQL && !x.fkOwnIndexed(t, f.Cols) {
		idx := &Index{Name: f.Name, Implicit: true}
		if !named { // else the constraint's name goes before the one for the index
			idx.Name = iname
			for i := 2; idx.Name == "" || iname == "" && t.Index(x.db, idx.Name) != nil; i++ {
				idx.Name = f.Cols[0]
				if t.Index(x.db, idx.Name) != nil {
					idx.Name = fmt.Sprintf("%s_%d", f.Cols[0], i)
				}
			}
		}
		for _, c := range f.Cols {
			idx.Cols = append(idx.Cols, IdxCol{Name: c})
		}
		if t.Index(x.db, idx.Name) != nil {
			fail("duplicate key name '%s'", idx.Name)
		}
		t.Idx = append(t.Idx, idx)
	}
}

func (x *executor) fkNameUsed(n string) bool {
	for _, t := range x.db.Tables {
		for _, f := range t.FKs {
			if strings.EqualFold(f.Name, n) {
				return true
			}
		}
	}
	return false
}

// fkOwnIndexed: some key starts with the foreign key's columns
func (x *executor) fkOwnIndexed(t *Table, cols []string) bool { return x.refIndexed(t, cols) }

// checkInvariants verifies what the server enforces after every statement.
func (db *DB) checkInvariants() {
	x := &executor{parser: &parser{d: db.D}, db: db, eff: &Effect{}}
	for _, t := range db.Tables {
		if db.D == MySQL {
			auto := 0
			for _, c := range t.Cols {
				if !c.AutoInc {
					continue
				}
				auto++
				ok := t.PK != nil && t.PK.Cols[0].Name == c.Name
				for _, i := range t.Idx {
					ok = ok || i.Kind == "" && i.Cols[0].Name == c.Name
				}
				if !ok {
					fail("incorrect table definition: there can be only one auto column and it must be defined as a key (%s.%s)", t.Key(), c.Name)
				}
			}
			if auto > 1 {
				fail("incorrect table definition: there can be only one auto column (%s)", t.Key())
			}
		}
		for _, f := range t.FKs {
			rt := db.Table(f.RefTable)
			if rt == nil {
				fail("cannot drop table %s: referenced by foreign key %s", f.RefTable, f.Name)
			}
			if db.D == MySQL && !x.fkOwnIndexed(t, f.Cols) {
				fail("cannot drop index: needed in a foreign key constraint %s", f.Name)
			}
			for i := range f.Cols {
				if t.Col(db, f.Cols[i]) == nil || rt.Col(db, f.RefCols[i]) == nil {
					fail("cannot drop column: needed in a foreign key constraint %s", f.Name)
				}
			}
			if !x.refIndexed(rt, f.RefCols) {
				fail("cannot drop index/constraint on %s: needed by foreign key %s", rt.Key(), f.Name)
			}
		}
		if db.D == MSSQL {
			// nothing may reference a missing column
			for _, c := range t.Checks {
				c.E.walk(func(n *Expr) {
					if n.Op == "col" && t.Col(db, n.Name[len(n.Name)-1]) == nil {
						fail("the object '%s' is dependent on column '%s'", c.Name, n.Name[len(n.Name)-1])
					}
				})
			}
		}
	}
	if db.D == PG {
		for _, v := range db.Views {
			if msg := db.viewProblem(v); msg != "" {
				fail("cannot drop because view %s depends on it: %s", v.Key(), msg)
			}
		}
	}
}

// ---- columns ----------------------------------------------------------------

// columnDef parses one column definition. old != nil: CHANGE COLUMN of that column.
func (x *executor) columnDef(t *Table, pos int, old *Column, later *[]func()) *Column {
	c := &Column{Name: x.id()}
	if old != nil {
		c.ID = old.ID
		c.Comment = ""
	} else {
		c.ID = x.db.id()
	}
	if o := t.Col(x.db, c.Name); o != nil && o != old {
		fail("duplicate column name '%s'", c.Name)
	}
	ty, err := x.typeName()
	check(err)
	c.Type = ty
	if ty.Serial != "" {
		c.NotNull = true
	}
	var pk, uniq bool
	var chk []func()
	pkClustered := true
	nullSet := ""
	for {
		switch {
		case x.isKw("not", "for", "replication"):
			if x.d != MSSQL || c.Identity == nil {
				check(x.errf("NOT FOR REPLICATION"))
			}
			x.i += 3
			c.Identity.NotRepl = true
		case x.kw("not", "null"):
			if nullSet == "null" {
				fail("conflicting NULL/NOT NULL declarations")
			}
			nullSet = "not null"
			c.NotNull = true
		case x.kw("null"):
			if nullSet == "not null" {
				fail("conflicting NULL/NOT NULL declarations for column %s", c.Name)
			}
			nullSet = "null"
		case x.kw("default"):
			if c.Default != nil || c.Type.Serial != "" {
				fail("multiple default values specified for column %s", c.Name)
			}
			v := x.defaultValue()
			x.setDefault(t, c, "", v)
		case x.d == MySQL && x.kw("auto_increment"):
			c.AutoInc = true
		case x.d == MySQL && x.kw("on", "update"):
			e, err := x.primary()
			check(err)
			if e.Op != "sysfn" || e.Name[0] != "current_timestamp" {
				check(x.errf("ON UPDATE"))
			}
			c.OnUpdate = e.Canon()
		case x.kw("primary", "key"):
			pk = true
			if x.d == MSSQL {
				if x.kw("nonclustered") {
					pkClustered = false
				} else {
					x.kw("clustered")
				}
			}
		case x.kw("unique"):
			if x.d == MySQL {
				x.kw("key")
			}
			uniq = true
		case x.d == MySQL && (x.isKw("character", "set") || x.isKw("charset")):
			if x.kw("character", "set") {
			} else {
				x.next()
			}
			if c.Type.class() != "str" && c.Type.class() != "enum" {
				check(x.errf("CHARACTER SET on a non-string column"))
			}
			c.Charset = strings.ToLower(x.next().s)
		case x.d == MySQL && x.isKw("binary") && c.Type.class() == "str":
			x.next()
			c.Collate = "binary"
		case x.kw("collate"):
			if c.Type.class() != "str" && c.Type.class() != "enum" {
				check(x.errf("COLLATE on a non-string column"))
			}
			c.Collate = x.next().s
		case x.d == MySQL && x.kw("comment"):
			v := x.next()
			if v.k != tStr {
				check(x.errf("comment"))
			}
			c.Comment = v.s
		case x.d == MySQL && (x.isKw("unsigned")) && (c.Type.class() == "int" || c.Type.class() == "dec" || c.Type.class() == "float"):
			x.next()
			c.Type.Unsigned = true
		case x.d == MySQL && x.isKw("zerofill") && c.Type.class() == "int":
			x.next()
			c.Type.Zerofill, c.Type.Unsigned = true, true
		case x.d != MySQL && x.isKw("check"):
			x.next()
			chk = append(chk, x.captureCheck(t, "", c.Name))
		case x.d == PG && x.isKw("references"), x.d == MSSQL && x.isKw("references"):
			x.next()
			f := &FK{Cols: []string{c.Name}}
			s, n := x.objName()
			f.RefTable = join(s, n)
			if x.cur().op("(") {
				f.RefCols = x.nameList()
			}
			x.fkActions(f)
			if later != nil {
				*later = append(*later, func() { x.addFK(t, f, "") })
			} else {
				chk = append(chk, func() { x.addFK(t, f, "") })
			}
		case x.d == PG && x.kw("generated"):
			b := ""
			if x.kw("always") {
				b = "ALWAYS"
			} else if x.kw("by", "default") {
				b = "BY DEFAULT"
			} else {
				check(x.errf("GENERATED"))
			}
			check(x.needKw("as", "identity"))
			c.Identity = x.identitySeq(b)
			x.identityOK(c)
			c.NotNull = true
		case x.d == MSSQL && x.kw("identity"):
			c.Identity = &Identity{Start: "1", Incr: "1"}
			if x.cur().op("(") {
				x.next()
				c.Identity.Start = x.signedNum()
				check(x.needOp(","))
				c.Identity.Incr = x.signedNum()
				check(x.needOp(")"))
			}
			if c.Type.class() != "int" && c.Type.class() != "dec" {
				fail("identity column '%s' must be of an integer type", c.Name)
			}
			c.NotNull = true
			for _, o := range t.Cols {
				if o.Identity != nil && o != old {
					fail("multiple identity columns specified for table '%s'", t.Key())
				}
			}
		case x.isKw("constraint") && x.d != MySQL:
			x.next()
			n := x.id()
			switch {
			case x.d == MSSQL && x.kw("default"):
				x.setDefault(t, c, n, x.defaultValue())
			case x.kw("check"):
				chk = append(chk, x.captureCheck(t, n, c.Name))
			default:
				check(x.errf("unsupported column constraint"))
			}
		default:
			goto done
		}
	}
done:
	if pk && nullSet == "null" {
		fail("column %s: primary key cannot be NULL", c.Name)
	}
	if c.Identity != nil && (nullSet == "null" || c.Default != nil && x.d == PG) {
		fail("conflicting declarations for identity column %s", c.Name)
	}
	if x.d == MySQL {
		if c.AutoInc {
			c.NotNull = true
			if c.Default != nil {
				fail("invalid default value for '%s'", c.Name)
			}
			if cl := c.Type.class(); cl != "int" && cl != "float" {
				fail("incorrect column specifier for column '%s'", c.Name)
			}
		}
		if c.NotNull && c.Default != nil && c.Default.Kind == "null" {
			fail("invalid default value for '%s'", c.Name)
		}
		if c.Default != nil && c.Default.Kind != "null" && noDefault(c.Type) {
			fail("BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", c.Name)
		}
		if c.Collate == "binary" {
			cs := c.Charset
			if cs == "" {
				cs = t.Charset
			}
			if cs != "" { // else the table's options have not been read yet
				c.Collate = cs + "_bin"
			}
		}
		if c.OnUpdate != "" && c.Type.Name != "datetime" && c.Type.Name != "timestamp" {
			fail("invalid ON UPDATE clause for '%s' column", c.Name)
		}
		if c.OnUpdate != "" && fraction(c.OnUpdate) != strings.Join(c.Type.Args, "") {
			fail("invalid ON UPDATE clause for '%s' column", c.Name)
		}
		if d := c.Default; d != nil && d.Kind == "fn" && strings.HasPrefix(d.S, "current_timestamp") && fraction(d.S) != strings.Join(c.Type.Args, "") {
			fail("invalid default value for '%s'", c.Name)
		}
	}
	if old != nil {
		for i, o := range t.Cols {
			if o == old {
				t.Cols[i] = c
			}
		}
	} else if pos < 0 {
		t.Cols = append(t.Cols, c)
	} else {
		t.Cols = append(t.Cols[:pos:pos], append([]*Column{c}, t.Cols[pos:]...)...)
	}
	x.touch("column " + t.Key() + "." + c.Name)
	if pk {
		x.addPK(t, &Index{Cols: []IdxCol{{Name: c.Name}}, Primary: true, Unique: true, Clustered: pkClustered})
	}
	if uniq {
		idx := &Index{Cols: []IdxCol{{Name: c.Name}}, Unique: true, ForConstr: "u"}
		if x.d == MySQL {
			idx.ForConstr = ""
		}
		x.addIndex(t, idx)
	}
	for _, f := range chk {
		f()
	}
	if x.d == MySQL && t.PK != nil {
		for _, pc := range t.PK.Cols {
			if pc.Name == c.Name {
				if nullSet == "null" {
					fail("all parts of a PRIMARY KEY must be NOT NULL")
				}
				c.NotNull = true
			}
		}
	}
	return c
}

func noDefault(t ColType) bool {
	n := t.Name
	return strings.HasSuffix(n, "text") || strings.HasSuffix(n, "blob") || t.class() == "json" || t.class() == "other"
}

func (x *executor) captureCheck(t *Table, name, col string) func() {
	nr := false
	if x.d == MSSQL && x.kw("not", "for", "replication") {
		nr = true
	}
	check(x.needOp("("))
	e, err := x.expr()
	check(err)
	check(x.needOp(")"))
	c := &Check{Name: name, Col: col, E: e, NotRepl: nr}
	if x.d == PG && x.kw("no", "inherit") {
		c.NoInherit = true
	}
	return func() { x.addCheck(t, c) }
}

func (x *executor) signedNum() string {
	s := ""
	if x.op("-") {
		s = "-"
	}
	t := x.next()
	if t.k != tNum {
		check(x.errf("number expected"))
	}
	return s + t.s
}

func (x *executor) identityOK(c *Column) {
	if c.Type.class() != "int" || c.Type.Array {
		fail("identity column type must be smallint, integer, or bigint")
	}
	if c.Type.Serial != "" || c.Default != nil {
		fail("column %s cannot have both default and identity", c.Name)
	}
}

func (x *executor) identitySeq(b string) *Identity {
	id := &Identity{Behavior: b, Start: "1", Incr: "1"}
	if !x.op("(") {
		return id
	}
	opts := map[string]string{}
	once := func(k, v string) string {
		if _, ok := opts[k]; ok {
			fail("conflicting or redundant options")
		}
		opts[k] = v
		return v
	}
	for !x.op(")") {
		switch {
		case x.kw("start"):
			x.kw("with")
			id.Start = once("start", x.signedNum())
		case x.kw("increment"):
			x.kw("by")
			id.Incr = once("incr", x.signedNum())
		case x.kw("minvalue"):
			once("min", x.signedNum())
		case x.kw("maxvalue"):
			once("max", x.signedNum())
		case x.kw("cache"):
			once("cache", x.signedNum())
		case x.kw("no", "minvalue"):
			once("min", "")
		case x.kw("no", "maxvalue"):
			once("max", "")
		case x.kw("no", "cycle"):
			once("cycle", "")
		case x.kw("cycle"):
			once("cycle", "yes")
		case x.kw("sequence", "name"):
			x.qname()
		default:
			check(x.errf("sequence option"))
		}
	}
	down := strings.HasPrefix(id.Incr, "-")
	min, max := "1", ""
	if down {
		min, max = "", "-1"
	}
	if v := opts["min"]; v != "" {
		min = v
	}
	if v := opts["max"]; v != "" {
		max = v
	}
	if _, ok := opts["start"]; !ok {
		if id.Start = min; down {
			id.Start = max
		}
	}
	num := func(s string) int {
		n, _ := strconv.Atoi(s)
		return n
	}
	if min != "" && max != "" && num(min) >= num(max) {
		fail("MINVALUE (%s) must be less than MAXVALUE (%s)", min, max)
	}
	if min != "" && num(id.Start) < num(min) || max != "" && num(id.Start) > num(max) {
		fail("START value (%s) is out of range", id.Start)
	}
	for _, k := range []string{"min", "max", "cache", "cycle"} {
		if v := opts[k]; v != "" && !(k == "min" && v == "1" && !down || k == "max" && v == "-1" && down) && !(k == "cache" && v == "1") {
			id.Opts += k + "=" + v + ";"
		}
	}
	return id
}

func (x *executor) defaultValue() *Value {
	// a parenthesised default (SQL Server, newer MySQL) unwraps
	e, err := x.unary()
	check(err)
	return x.toValue(e)
}

func (x *executor) toValue(e *Expr) *Value {
	switch e.Op {
	case "num":
		return &Value{Kind: "num", S: e.Val}
	case "str":
		return &Value{Kind: "str", S: e.Val}
	case "bit":
		return &Value{Kind: "bit", S: e.Val}
	case "hex":
		return &Value{Kind: "hex", S: e.Val}
	case "null":
		return &Value{Kind: "null"}
	case "true", "false":
		if x.d == MSSQL {
			fail("the name %q is not permitted in this context", e.Op)
		}
		return &Value{Kind: "bool", S: e.Op}
	case "sysfn":
		if e.Name[0] == "current_timestamp" && x.d == MSSQL {
			return &Value{Kind: "fn", S: "getdate()"}
		}
		return &Value{Kind: "fn", S: e.Canon()}
	case "fn":
		n := e.Name[0]
		ok := map[Dialect]map[string]bool{
			MySQL: set("now current_timestamp uuid"),
			PG:    set("now nextval gen_random_uuid uuid_generate_v4"),
			MSSQL: set("getdate newid sysdatetime"),
		}[x.d][n]
		if !ok {
			fail("unknown function %s in default", n)
		}
		if x.d == MySQL && n == "now" {
			return &Value{Kind: "fn", S: "current_timestamp"}
		}
		return &Value{Kind: "fn", S: e.Canon()}
	case "cast":
		return x.toValue(e.Kids[0])
	}
	fail("unsupported default expression %s", e.Canon())
	return nil
}

func (x *executor) setDefault(t *Table, c *Column, name string, v *Value) {
	if v.Kind == "null" && x.d != MSSQL {
		c.Default = v
		if x.d == PG {
			c.Default = nil
		}
		return
	}
	cl := c.Type.class()
	bad := func() { fail("invalid default value for '%s'", c.Name) }
	switch {
	case v.Kind == "fn":
		if x.d != PG && cl != "time" && !(v.S == "uuid()" || v.S == "newid()") {
			bad()
		}
	case cl == "int":
		if v.Kind == "bit" || v.Kind == "str" && !looksInt(v.S) || v.Kind == "bool" && x.d == PG {
			bad()
		}
	case cl == "dec" || cl == "float":
		if v.Kind == "str" && !looksNum(v.S) || v.Kind == "bit" || v.Kind == "bool" && x.d == PG {
			bad()
		}
	case cl == "bool":
		if v.Kind == "num" || v.Kind == "bit" {
			bad()
		}
	case cl == "bit" && x.d == MySQL:
		if v.Kind != "bit" && v.Kind != "num" {
			bad()
		}
	case cl == "bit" && x.d == PG:
		if v.Kind == "num" || v.Kind == "bool" {
			bad()
		}
	case cl == "str" || cl == "enum":
		if v.Kind == "bit" || v.Kind == "num" && x.d == PG || v.Kind == "bool" && x.d == PG {
			if x.d != MySQL {
				bad()
			}
		}
		if cl == "enum" && c.Type.Name == "enum" && v.Kind == "str" {
			ok := false
			for _, e := range c.Type.Enum {
				ok = ok || strings.EqualFold(e, v.S)
			}
			if !ok {
				bad()
			}
		}
		if len(c.Type.Args) == 1 && v.Kind == "str" && x.d == MySQL {
			if n := atoi(c.Type.Args[0]); n > 0 && len([]rune(v.S)) > n {
				bad()
			}
		}
	case cl == "time":
		if v.Kind == "bit" || v.Kind == "num" || v.Kind == "bool" {
			bad()
		}
	}
	if c.Type.Serial != "" {
		fail("column %s already has a default", c.Name)
	}
	c.Default = v
	if x.d == MSSQL {
		if c.DefName != "" {
			fail("column already has a DEFAULT bound to it (%s.%s)", t.Key(), c.Name)
		}
		if c.Identity != nil {
			fail("defaults cannot be created on columns with an IDENTITY attribute")
		}
		if name == "" {
			c.DefName, c.DefAuto = fmt.Sprintf("DF__%s__%s__%08X", cut(t.Name, 9), cut(c.Name, 5), 0x300000+x.db.id()), true
		} else {
			if x.constraintExists(t, name) {
				fail("there is already an object named '%s'", name)
			}
			c.DefName, c.DefAuto = name, false
		}
	}
}

// fraction gives n of current_timestamp(n).
func fraction(s string) string {
	if i := strings.IndexByte(s, '('); i >= 0 {
		return strings.TrimSuffix(strings.Trim(s[i:], "()"), "0")
	}
	return ""
}

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}
func looksInt(s string) bool {
	s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	return s != "" && atoi(s) >= 0
}
func looksNum(s string) bool {
	s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	if s == "" {
		return false
	}
	return strings.Trim(s, "0123456789.") == "" && strings.Count(s, ".") < 2
}
