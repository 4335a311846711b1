package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/minidb"
)

var myStr = []string{"'abc'", "''", "'it''s'", "'a b'", "'100%'", "'été'", "'-- x'", "'a;b'", "'drop'", "'DROP it'", "'\"q\"'", "'0'", "'a\\\\b'", "'\\\\'", "'x\\ny'"}
var myInt = []string{"0", "1", "42", "'7'", "-5", "'0'", "NULL"}

var myTypes = []typeDef{
	{"int(11)", "int", myInt, true},
	{"int(10) unsigned", "int", []string{"0", "1", "'7'"}, true},
	{"bigint(20)", "int", myInt, true},
	{"bigint(20) unsigned", "int", []string{"0", "99"}, true},
	{"smallint(6)", "int", myInt, true},
	{"mediumint(9)", "int", myInt, true},
	{"tinyint(1)", "int", []string{"0", "1", "true", "FALSE"}, true},
	{"tinyint(4)", "int", []string{"0", "1", "-1"}, true},
	{"decimal(10,2)", "dec", []string{"0.00", "1.50", "'3.25'", "-2.75", "10.10", "0", "1.5", "7", "'8'", ".5", "100"}, true},
	{"decimal(10,4)", "dec", []string{"0.0000", "1.5"}, true},
	{"decimal(10,0)", "dec", []string{"0", "15"}, true},
	{"decimal(12,4)", "dec", []string{"0.0000", "1.5000", "1.5", "0.0", "20", "-3.0"}, true},
	{"float", "float", []string{"1.5", "0.25", "0.0", "2", "3.50", "-100"}, false},
	{"double", "float", []string{"1.5", "-0.5", "0", "4.0", ".5"}, false},
	{"varchar(20)", "str", myStr, true},
	{"varchar(40)", "str", myStr, true},
	{"varchar(191)", "str", myStr, true},
	{"char(1)", "str", []string{"'a'", "''"}, true},
	{"char(10)", "str", []string{"'abc'", "''"}, true},
	{"char(36)", "str", []string{"'abc'", "''"}, true},
	{"text", "text", nil, false},
	{"mediumtext", "text", nil, false},
	{"longtext", "text", nil, false},
	{"tinytext", "text", nil, false},
	{"blob", "bin", nil, false},
	{"varbinary(100)", "bin", nil, true},
	{"binary(16)", "bin", nil, true},
	{"binary(1)", "bin", nil, true},
	{"date", "date", []string{"'2020-01-02'", "NULL"}, true},
	{"datetime", "time", []string{"'2020-01-02 03:04:05'", "CURRENT_TIMESTAMP", "NULL", "NOW()"}, true},
	{"timestamp", "time", []string{"CURRENT_TIMESTAMP", "'2020-01-02 03:04:05'"}, true},
	{"datetime(6)", "time", []string{"CURRENT_TIMESTAMP(6)", "NULL"}, true},
	{"timestamp(3)", "time", []string{"CURRENT_TIMESTAMP(3)"}, true},
	{"time", "date", []string{"'03:04:05'"}, true},
	{"time(3)", "date", nil, true},
	{"json", "json", nil, false},
	{"tinyint(3) unsigned", "int", []string{"0", "200"}, true},
	{"smallint(5) unsigned", "int", []string{"0"}, true},
	{"mediumint(8) unsigned", "int", []string{"3"}, true},
	{"double unsigned", "float", []string{"1.5"}, false},
	{"longblob", "bin", nil, false},
	{"varchar(255)", "str", myStr, true},
	{"bit(1)", "bit", []string{"b'0'", "b'1'"}, false},
	{"bit(8)", "bit", []string{"b'101'"}, false},
	{"enum('a','b')", "enum", []string{"'a'", "'b'"}, true},
	{"enum('x','y z','it''s')", "enum", []string{"'x'", "'y z'"}, true},
	{"set('p','q')", "enum", []string{"'p'"}, false},
	{"set('p','q','r')", "enum", []string{"'q'"}, false},
}

func (s *aSchema) myTimestamp(g *rand.Rand, c *aCol) {
	if !strings.HasPrefix(c.Type, "timestamp") {
		return
	}
	// the implied properties of TIMESTAMP depend on server settings: say everything
	if c.NotNull || chance(g, 1, 2) {
		c.NotNull, c.Null = true, false
		if c.Default == "" || c.Default == "NULL" {
			c.Default = "CURRENT_TIMESTAMP" + strings.TrimPrefix(c.Type, "timestamp")
		}
	} else {
		c.NotNull, c.Null = false, true
		if c.Default == "" {
			c.Default = "NULL"
		}
	}
}

func (s *aSchema) myColExtra(g *rand.Rand, t *aTable, c *aCol, ty *typeDef) {
	if c.NotNull && c.Default == "NULL" {
		c.Default = ""
	}
	s.myTimestamp(g, c)
	if strings.HasPrefix(ty.T, "datetime") || strings.HasPrefix(ty.T, "timestamp") {
		if strings.HasPrefix(c.Default, "CURRENT_TIMESTAMP") && chance(g, 1, 2) {
			c.OnUpdate = c.Default
		}
	}
	if (ty.Class == "str" || ty.Class == "text") && chance(g, 1, 6) {
		s.myCharset(g, c)
	}
	if ty.Key && !c.Unique && chance(g, 1, 14) {
		c.Unique = true
	}
}

func (s *aSchema) myCharset(g *rand.Rand, c *aCol) {
	switch g.Intn(4) {
	case 0:
		c.Charset, c.Collate = "ascii", ""
	case 1:
		c.Charset, c.Collate = "utf8mb4", "utf8mb4_bin"
	case 2:
		c.Charset, c.Collate = "latin1", "latin1_bin"
	default:
		c.Charset, c.Collate = "utf8mb4", "utf8mb4_unicode_ci"
	}
}

// typeChangeOK leaves out changes the planner is known not to see.
func (s *aSchema) typeChangeOK(from *aCol, to *typeDef) bool {
	base := func(t string) string {
		if i := strings.IndexAny(t, "( "); i > 0 {
			return t[:i]
		}
		return t
	}
	switch s.D {
	case minidb.MySQL:
		// a width that is left out hides a change of the width
		return !(strings.HasPrefix(from.Type, "tinyint") && strings.HasPrefix(to.T, "tinyint"))
	case minidb.PG:
		return pgTypeChangeOK(from.Type, to.T)
	}
	return base(from.Type) == to.T && false // SQL Server: not supported
}

func (s *aSchema) dropOK(bt *aTable, bc *aCol) bool {
	switch s.D {
	case minidb.PG:
		return pgDropOK(bt, bc)
	case minidb.MSSQL:
		return msDropOK(bt, bc)
	}
	return true
}

// slash is a literal with a backslash.
func (s *aSchema) slash() string {
	if s.D == minidb.MySQL {
		return "'a\\\\b'"
	}
	return "'a\\b'"
}

func (s *aSchema) myIdxExtra(g *rand.Rand, t *aTable, x *aIdx) {
	for i, n := range x.Cols {
		c := t.col(n)
		if s.typeOf(c).Class == "str" && strings.HasPrefix(c.Type, "varchar") && chance(g, 1, 5) {
			x.Len[i] = pickN(g, "5", "10")
		}
	}
	if chance(g, 1, 6) {
		for _, c := range t.Cols {
			if k := s.typeOf(c); k.Class == "text" && !x.Unique {
				x.Kind, x.Cols, x.Len, x.Desc, x.Form = "FULLTEXT", []string{c.Name}, []string{""}, []bool{false}, 0
				return
			}
		}
	}
	switch g.Intn(12) {
	case 0:
		x.Opts = " USING BTREE"
	case 1:
		x.Opts = " COMMENT 'it''s'"
	case 2:
		x.Opts = " COMMENT 'plain'"
	}
	if x.Opts != "" {
		x.Form = 0
	}
}

func (s *aSchema) mysqlCol(sp spell, c *aCol) string {
	b := sp.id(c.Name) + sp.gap() + sp.kwType(c.Type)
	var opts []string
	if c.Charset != "" {
		b += " " + sp.kw("CHARACTER SET") + " " + c.Charset
	}
	if c.Collate != "" {
		b += " " + sp.kw("COLLATE") + " " + c.Collate
	}
	if c.NotNull {
		opts = append(opts, sp.kw("NOT NULL"))
	} else if c.Null {
		opts = append(opts, sp.kw("NULL"))
	}
	if c.Default != "" {
		d := c.Default
		if !strings.ContainsAny(d, "'") {
			d = sp.kw(d)
		}
		opts = append(opts, sp.kw("DEFAULT")+" "+d)
	}
	if c.AutoInc {
		opts = append(opts, sp.kw("AUTO_INCREMENT"))
	}
	if c.OnUpdate != "" {
		opts = append(opts, sp.kw("ON UPDATE")+" "+sp.kw(c.OnUpdate))
	}
	if c.PK {
		opts = append(opts, sp.kw("PRIMARY KEY"))
	}
	if c.Unique {
		opts = append(opts, sp.kw(pick2(sp, "UNIQUE", "UNIQUE KEY")))
	}
	for _, o := range opts {
		b += sp.gap() + o
	}
	return b
}

func pick2(sp spell, a ...string) string {
	if sp.g == nil {
		return a[0]
	}
	return a[sp.g.Intn(len(a))]
}

// kwType varies the letter case of a type but not of its literals.
func (sp spell) kwType(t string) string {
	if sp.g == nil {
		return t
	}
	if i := strings.IndexByte(t, '('); i > 0 && strings.Contains(t, "'") {
		return sp.kw(t[:i]) + t[i:]
	}
	switch sp.d {
	case minidb.MySQL:
		if chance(sp.g, 1, 2) {
			switch t { // display widths and spelled-out names
			case "int(11)":
				t = pickN(sp.g, "int", "integer", "integer(11)")
			case "bigint(20)":
				t = "bigint"
			case "smallint(6)":
				t = "smallint"
			case "mediumint(9)":
				t = "mediumint"
			case "tinyint(4)":
				t = "tinyint"
			case "tinyint(1)":
				t = pickN(sp.g, "bool", "boolean")
			case "int(10) unsigned":
				t = pickN(sp.g, "int unsigned", "integer unsigned")
			case "bigint(20) unsigned":
				t = "bigint unsigned"
			case "year(4)":
				t = "year"
			case "decimal(10,2)":
				t = "decimal(10, 2)"
			case "decimal(10,0)":
				t = pickN(sp.g, "decimal", "decimal(10)", "numeric", "numeric(10)")
			case "bit(1)":
				t = "bit"
			case "char(1)":
				t = "char"
			case "binary(1)":
				t = "binary"
			case "double":
				t = pickN(sp.g, "double precision", "real")
			case "tinyint(3) unsigned":
				t = "tinyint unsigned"
			case "smallint(5) unsigned":
				t = "smallint unsigned"
			case "mediumint(8) unsigned":
				t = "mediumint unsigned"
			default:
				if strings.HasPrefix(t, "decimal(") {
					t = "numeric" + t[7:]
				}
			}
		}
	}
	return sp.kw(t)
}

func (s *aSchema) mysqlIdxCols(sp spell, x *aIdx) string {
	var o []string
	for i, n := range x.Cols {
		c := sp.id(n)
		if x.Len[i] != "" {
			c += "(" + x.Len[i] + ")"
		}
		if sp.vary(1, 10) {
			c += " " + sp.kw("ASC")
		}
		o = append(o, c)
	}
	return "(" + strings.Join(o, sp.comma()) + ")"
}

func (s *aSchema) mysqlFK(sp spell, f *aFK) string {
	b := sp.kw("CONSTRAINT") + " " + sp.id(f.Name) + " " + sp.kw("FOREIGN KEY") + " "
	if f.IdxName != "" {
		b += sp.id(f.IdxName) + " "
	}
	b += "(" + sp.ids(f.Cols) + ") " + sp.kw("REFERENCES") + " " + sp.id(f.Ref.Name) + " (" + sp.ids(f.RefCols) + ")"
	d, u := "", ""
	if f.OnDelete != "" {
		d = " " + sp.kw("ON DELETE") + " " + sp.kw(f.OnDelete)
	}
	if f.OnUpdate != "" {
		u = " " + sp.kw("ON UPDATE") + " " + sp.kw(f.OnUpdate)
	}
	if sp.vary(1, 2) {
		d, u = u, d
	}
	return b + d + u
}

func (s *aSchema) mysqlStatements(sp spell) []aStmt {
	var out []aStmt
	for _, t := range s.order() {
		var items, after []string
		for _, c := range t.Cols {
			items = append(items, s.mysqlCol(sp, c))
		}
		if len(t.PK) > 0 {
			items = append(items, sp.kw("PRIMARY KEY")+pick2(sp, " ", "")+"("+sp.ids(t.PK)+")")
		}
		var keys []string
		for _, x := range t.Idx {
			form := x.Form
			if sp.g != nil && x.Opts == "" && x.Kind == "" {
				form = sp.g.Intn(3)
			}
			if c := t.col(x.Cols[0]); c != nil && c.AutoInc { // such a column needs its key at once
				form = 0
			}
			u := ""
			if x.Unique {
				u = "UNIQUE "
			}
			switch {
			case x.Kind != "":
				keys = append(keys, sp.kw(x.Kind+pick2(sp, " KEY", " INDEX"))+" "+sp.id(x.Name)+" "+s.mysqlIdxCols(sp, x)+x.Opts)
			case form == 0:
				keys = append(keys, sp.kw(u+pick2(sp, "KEY", "INDEX"))+" "+sp.id(x.Name)+" "+s.mysqlIdxCols(sp, x)+x.Opts)
			case form == 1:
				after = append(after, sp.kw("CREATE "+u+"INDEX")+" "+sp.id(x.Name)+" "+sp.kw("ON")+" "+sp.id(t.Name)+pick2(sp, " ", "")+s.mysqlIdxCols(sp, x))
			default:
				after = append(after, sp.kw("ALTER TABLE")+" "+sp.id(t.Name)+" "+sp.kw("ADD "+u+pick2(sp, "INDEX", "KEY"))+" "+sp.id(x.Name)+" "+s.mysqlIdxCols(sp, x))
			}
		}
		if sp.g != nil {
			sp.g.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		}
		items = append(items, keys...)
		for _, f := range t.FKs {
			items = append(items, s.mysqlFK(sp, f))
		}
		out = append(out, aStmt{sp.list(sp.kw("CREATE TABLE")+" "+sp.id(t.Name), items) + sp.kwTail(t.Tail), t.key(), s.refNeeds(t)})
		for _, a := range after {
			out = append(out, aStmt{a, "", []string{t.key()}})
		}
	}
	for _, v := range s.V {
		out = append(out, aStmt{sp.kw("CREATE VIEW") + " " + sp.id(v.Name) + " " + sp.kw("AS") + " " + v.Body, v.Name, s.usedRels(v.Uses)})
	}
	for _, tr := range s.G {
		out = append(out, aStmt{sp.kw("CREATE TRIGGER") + " " + sp.id(tr.Name) + " " + sp.kw(tr.Time) + " " + sp.kw(tr.Event) + " " + sp.kw("ON") + " " + sp.id(tr.T.Name) + " " + sp.kw("FOR EACH ROW") + " " + tr.Body, "", append(s.usedRels(tr.Uses), tr.T.key())})
	}
	return out
}

func (sp spell) kwTail(t string) string { return t }

func (sp spell) list(head string, items []string) string {
	if sp.g == nil {
		return head + " (\n  " + strings.Join(items, ",\n  ") + "\n)"
	}
	switch sp.g.Intn(4) {
	case 0:
		return head + "(" + strings.Join(items, ", ") + ")"
	case 1:
		return head + " ( " + strings.Join(items, ",") + " )"
	case 2:
		return head + " (\n  " + strings.Join(items, ", -- it's a note; \"quoted\"\n  ") + "\n)"
	}
	return head + " (\n\t" + strings.Join(items, ",\n\t") + "\n)"
}

func (s *aSchema) editPK(g *rand.Rand, t, bt *aTable, anyUse func(string) bool, base *aSchema) bool {
	old := append([]string(nil), t.PK...)
	for _, c := range t.Cols {
		if c.PK {
			old = append(old, c.Name)
		}
	}
	for _, n := range old {
		if anyUse(n) {
			return false
		}
	}
	switch s.D {
	case minidb.PG:
		return s.pgEditPK(g, t, bt, old, anyUse)
	case minidb.MSSQL:
		return s.msEditPK(g, t, bt, old, anyUse)
	}
	for _, n := range old {
		c := t.col(n)
		c.PK = false
		c.NotNull, c.Null = true, false
		if c.AutoInc {
			return false
		}
	}
	t.PK = nil
	if len(old) > 0 && chance(g, 1, 3) {
		return true
	}
	if !s.setPK(g, t) {
		return false
	}
	return strings.Join(old, "\x00") != strings.Join(t.PK, "\x00")
}

func (s *aSchema) changeIdx(g *rand.Rand, t *aTable, x *aIdx, bt *aTable) bool {
	n := s.newIdx(g, t)
	if n == nil {
		return false
	}
	switch g.Intn(3) {
	case 0:
		x.Unique = !x.Unique
		return x.Kind == ""
	case 1:
		if strings.Join(x.Cols, "\x00") == strings.Join(n.Cols, "\x00") {
			return false
		}
		if x.Kind != "" || n.Kind != "" {
			return false
		}
		x.Cols, x.Len, x.Desc = n.Cols, n.Len, n.Desc
		return true
	}
	switch s.D {
	case minidb.PG:
		return s.pgChangeIdx(g, t, x, n)
	case minidb.MSSQL:
		return s.msChangeIdx(g, t, x, n)
	}
	return false
}

func (s *aSchema) addFK(g *rand.Rand, t *aTable, base *aSchema) bool {
	ref := s.T[g.Intn(len(s.T))]
	if ref != t && s.reaches(ref, t) {
		return false
	}
	if ref == t && s.D == minidb.MSSQL {
		return false
	}
	pks := append([]string(nil), ref.PK...)
	for _, c := range ref.Cols {
		if c.PK {
			pks = []string{c.Name}
		}
	}
	if len(pks) == 0 || len(pks) > 3 || len(pks) > 1 && ref == t {
		return false
	}
	f := &aFK{Name: fmt.Sprintf("fk_%d", s.uid()), Ref: ref, RefCols: pks}
	if s.D == minidb.PG && chance(g, 1, 3) { // the name of another table's constraint
		f.Name = pickN(g, "fk_owner", "fk_ref")
		for _, o := range t.FKs {
			if o.Name == f.Name {
				return false
			}
		}
		if s.taken["fk "+t.key()+"."+f.Name] {
			return false
		}
	}
	for _, pk := range pks {
		rc := ref.col(pk)
		want := rc.Type
		switch want {
		case "serial":
			want = "integer"
		case "bigserial":
			want = "bigint"
		}
		if base != nil && base.table(ref.key()) != nil && base.table(ref.key()).col(pk) == nil {
			return false
		}
		var c *aCol
		for _, k := range t.Cols {
			if k.Type == want && k.Charset == rc.Charset && k.Collate == rc.Collate && k != rc && k.Identity == "" && !inList(f.Cols, k.Name) {
				c = k
			}
		}
		if c == nil || chance(g, 1, 2) {
			var bt *aTable
			if base != nil {
				bt = base.table(t.key())
			}
			c = &aCol{ID: s.uid(), Name: s.newColName(g, t, bt), Type: want, Charset: rc.Charset, Collate: rc.Collate}
			if chance(g, 1, 3) && bt == nil {
				c.NotNull = true
			}
			t.Cols = append(t.Cols, c)
		}
		if s.D == minidb.MSSQL && s.fkUse(t)[c.Name] {
			return false
		}
		f.Cols = append(f.Cols, c.Name)
	}
	s.fkActions(g, t, f)
	if s.D == minidb.MySQL && chance(g, 1, 4) {
		f.IdxName = fmt.Sprintf("fk_idx_%d", s.uid())
	}
	if s.D == minidb.MySQL && chance(g, 1, 2) {
		x := &aIdx{Name: s.idxNameFor(g, t), Form: 0}
		for _, n := range f.Cols {
			x.Cols, x.Len, x.Desc = append(x.Cols, n), append(x.Len, ""), append(x.Desc, false)
		}
		t.Idx = append(t.Idx, x)
	}
	t.FKs = append(t.FKs, f)
	return true
}

// ---- views ----

func (s *aSchema) qcol(q, n string) string {
	switch s.D {
	case minidb.MySQL:
		return q + ".`" + strings.ReplaceAll(n, "`", "``") + "`"
	}
	return q + "." + spell{d: s.D}.id(n)
}

func (s *aSchema) newViewName(g *rand.Rand, base *aSchema) string {
	for {
		n := fmt.Sprintf("%s_%d", pick(g, []string{"view", "v", "active"}), s.uid())
		if !s.nameUsed(n) && (base == nil || !base.nameUsed(n)) {
			return n
		}
	}
}

func (s *aSchema) addView(g *rand.Rand, base *aSchema) bool {
	v := &aView{Name: s.newViewName(g, base)}
	if s.D != minidb.MySQL && chance(g, 1, 5) {
		v.Schema = pickN(g, "app", "s2")
		for _, o := range s.V { // two of the same name
			if o.Schema != v.Schema && chance(g, 1, 3) && s.freeIn(v.Schema, o.Name, base) {
				v.Name = o.Name
				break
			}
		}
	}
	if !s.viewBody(g, v) {
		return false
	}
	s.V = append(s.V, v)
	return true
}

func (s *aSchema) changeView(g *rand.Rand, v *aView, base *aSchema) bool {
	old := v.Body
	switch s.D {
	case minidb.MySQL:
		s.viewBody(g, v)
	case minidb.PG:
		return s.pgChangeView(g, v)
	default:
		s.msViewBody(g, v)
	}
	return v.Body != old
}

func bqt(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

func (s *aSchema) viewBody(g *rand.Rand, v *aView) bool {
	switch s.D {
	case minidb.PG:
		return s.pgViewBody(g, v)
	case minidb.MSSQL:
		return s.msViewBody(g, v)
	}
	v.Uses = map[string]bool{}
	t := s.T[g.Intn(len(s.T))]
	u := s.T[g.Intn(len(s.T))]
	db := bqt(s.DB)
	q, from := db+"."+bqt(t.Name), db+"."+bqt(t.Name)
	var items []string
	cols := map[string]bool{}
	add := func(t *aTable, q string) {
		v.Uses[t.key()] = true
		for n := 1 + g.Intn(3); n > 0; n-- {
			c := t.Cols[g.Intn(len(t.Cols))]
			al := c.Name
			if chance(g, 1, 3) {
				al = fmt.Sprintf("x%d", g.Intn(9))
			}
			if cols[strings.ToLower(al)] {
				continue
			}
			cols[strings.ToLower(al)] = true
			v.Uses[t.key()+"."+c.Name] = true
			items = append(items, s.qcol(q, c.Name)+" AS "+bqt(al))
		}
	}
	join := chance(g, 1, 3)
	if join {
		q = "`a`"
		k1, k2 := t.Cols[g.Intn(len(t.Cols))], u.Cols[g.Intn(len(u.Cols))]
		v.Uses[t.key()+"."+k1.Name], v.Uses[u.key()+"."+k2.Name] = true, true
		from = "(" + db + "." + bqt(t.Name) + " `a` " + pickN(g, "join", "left join") + " " + db + "." + bqt(u.Name) + " `b` on((" + s.qcol("`a`", k1.Name) + " = " + s.qcol("`b`", k2.Name) + ")))"
		add(u, "`b`")
	}
	add(t, q)
	v.Body = "select " + pickN(g, "", "", "distinct ") + strings.Join(items, ",") + " from " + from
	if chance(g, 1, 2) {
		c := t.Cols[g.Intn(len(t.Cols))]
		v.Uses[t.key()+"."+c.Name] = true
		lit := pickN(g, "1", "20", "300")
		if cl := s.typeOf(c).Class; cl != "int" {
			lit = pickN(g, "'a'", "'b c'", "'it''s'", s.slash())
		}
		cond := "(" + s.qcol(q, c.Name) + pickN(g, " = ", " > ", " <= ", " <> ") + lit + ")"
		if chance(g, 1, 3) {
			cond = "(" + cond + pickN(g, " and ", " or ") + "(" + s.qcol(q, c.Name) + " is not null))"
		}
		v.Body += " where " + cond
	}
	return true
}

// ---- triggers ----

// trigBody gives the trigger another body. Those of SQL Server may have several statements.
func (s *aSchema) trigBody(g *rand.Rand, tr *aTrig) bool {
	if s.D == minidb.MSSQL && chance(g, 1, 2) {
		if l := strings.Split(tr.Body, "\n"); len(l) > 1 && chance(g, 1, 2) {
			tr.Body = strings.Join(l[:len(l)-1], "\n") // without the last one
			return true
		}
		old, uses := tr.Body, tr.Uses
		s.trigStmt(g, tr)
		if old == "" || len(old) > 300 {
			old, uses = tr.Body, tr.Uses
			s.trigStmt(g, tr)
		}
		for k := range uses {
			tr.Uses[k] = true
		}
		tr.Body = old + "\n" + tr.Body
		return true
	}
	return s.trigStmt(g, tr)
}

func (s *aSchema) trigStmt(g *rand.Rand, tr *aTrig) bool {
	o := s.T[g.Intn(len(s.T))]
	c := o.Cols[g.Intn(len(o.Cols))]
	sp := spell{d: s.D}
	tr.Uses = map[string]bool{o.key(): true, o.key() + "." + c.Name: true}
	lit := pickN(g, "1", "2", "'a'", "'x y'", "'it''s'", s.slash())
	switch g.Intn(3) {
	case 0:
		tr.Body = "insert into " + sp.id(o.Name) + "(" + sp.id(c.Name) + ") values (" + lit + ")"
	case 1:
		tr.Body = "update " + sp.id(o.Name) + " set " + sp.id(c.Name) + " = " + lit + " where " + sp.id(c.Name) + " = " + pickN(g, "0", "9")
	default:
		tr.Body = "delete from " + sp.id(o.Name) + " where " + sp.id(c.Name) + " = " + lit
	}
	return true
}

func (s *aSchema) editTrigger(g *rand.Rand, op string, t *aTable, base *aSchema) bool {
	if op == "add trigger" {
		if len(s.G) > 3 {
			return false
		}
		tr := &aTrig{Name: fmt.Sprintf("%s_%d", pick(g, []string{"trg", "after_change"}), s.uid()), T: t}
		tr.Time, tr.Event = pickN(g, "BEFORE", "AFTER"), pickN(g, "INSERT", "UPDATE", "DELETE")
		if s.D == minidb.MSSQL {
			tr.Time = "AFTER"
		}
		if s.nameUsed(tr.Name) || !s.trigBody(g, tr) {
			return false
		}
		s.G = append(s.G, tr)
		return true
	}
	if len(s.G) == 0 {
		return false
	}
	tr := s.G[g.Intn(len(s.G))]
	old := tr.Time + tr.Event + tr.Body
	switch g.Intn(3) {
	case 0:
		if s.D == minidb.MySQL {
			tr.Time = pickN(g, "BEFORE", "AFTER")
		}
	case 1:
		tr.Event = pickN(g, "INSERT", "UPDATE", "DELETE")
	default:
		s.trigBody(g, tr)
	}
	return old != tr.Time+tr.Event+tr.Body
}

func (s *aSchema) myEdit(g *rand.Rand, op string, t, bt *aTable, base *aSchema, anyUse, viewUse func(string) bool) bool {
	c := t.Cols[g.Intn(len(t.Cols))]
	switch op {
	case "add trigger", "change trigger":
		return s.editTrigger(g, op, t, base)
	case "autoinc":
		if anyUse(c.Name) {
			return false
		}
		if c.AutoInc {
			c.AutoInc = false
			return true
		}
		for _, o := range t.Cols {
			if o.AutoInc {
				o.AutoInc = false
			}
		}
		if s.typeOf(c).Class != "int" || strings.HasPrefix(c.Type, "tinyint") {
			return false
		}
		c.AutoInc, c.NotNull, c.Null, c.Default = true, true, false, ""
		ok := c.PK || len(t.PK) > 0 && t.PK[0] == c.Name || c.Unique
		for _, x := range t.Idx {
			ok = ok || x.Cols[0] == c.Name
		}
		if !ok {
			t.Idx = append(t.Idx, &aIdx{Name: s.newIdxName(g), Cols: []string{c.Name}, Len: []string{""}, Desc: []bool{false}, Form: 0})
		}
		return true
	case "move column":
		i, j := g.Intn(len(t.Cols)), g.Intn(len(t.Cols))
		m := t.Cols[i]
		rest := append(t.Cols[:i:i], t.Cols[i+1:]...)
		t.Cols = append(rest[:j:j], append([]*aCol{m}, rest[j:]...)...)
		return i != j
	case "charset":
		if k := s.typeOf(c).Class; k != "str" && k != "text" || anyUse(c.Name) {
			return false
		}
		a := c.Charset + c.Collate
		s.myCharset(g, c)
		return a != c.Charset+c.Collate
	case "on update":
		now := map[string]string{"datetime": "CURRENT_TIMESTAMP", "timestamp": "CURRENT_TIMESTAMP", "datetime(6)": "CURRENT_TIMESTAMP(6)", "timestamp(3)": "CURRENT_TIMESTAMP(3)"}[c.Type]
		if now == "" {
			return false
		}
		if c.OnUpdate != "" {
			c.OnUpdate = ""
		} else {
			c.OnUpdate, c.Default = now, now
		}
		return true
	}
	return false
}

func (x *aIdx) def() string {
	return fmt.Sprint(x.Cols, x.Len, x.Desc, x.Unique, x.Kind, x.Where, x.Incl, x.Clustered, x.Opts, x.Method)
}

// supported leaves out migrations with known defects (each has a probe of its own).
func (s *aSchema) supported(base *aSchema) bool {
	switch s.D {
	case minidb.PG:
		return s.pgSupported(base)
	case minidb.MSSQL:
		return s.msSupported(base)
	}
	for _, t := range s.T {
		bt := base.table(t.key())
		if s.D != minidb.MySQL {
			continue
		}
		for _, x := range t.Idx {
			if c := t.col(x.Cols[0]); x.Unique && len(x.Cols) == 1 && c != nil && c.Unique {
				return false // taken for the index of the column option
			}
		}
		if bt == nil {
			continue
		}
		for _, x := range bt.Idx {
			if c := t.col(x.Cols[0]); x.Unique && len(x.Cols) == 1 && c != nil && c.Unique {
				return false
			}
		}
		if !s.fkIndexOK(t, bt) || !s.typeIndexOK(t, bt) {
			return false
		}
		for _, c := range t.Cols {
			bc := bt.col(c.Name)
			if bc == nil || !c.AutoInc || !bc.AutoInc {
				continue
			}
			kept := c.PK && bc.PK || len(t.PK) > 0 && len(bt.PK) > 0 && t.PK[0] == c.Name && strings.Join(t.PK, "\x00") == strings.Join(bt.PK, "\x00")
			kept = kept || c.Unique && bc.Unique
			changed := false
			for _, x := range t.Idx {
				for _, y := range bt.Idx {
					if x.Name == y.Name && y.Cols[0] == c.Name {
						if x.def() == y.def() {
							kept = true
						} else {
							changed = true
						}
					}
				}
			}
			if !c.PK && (bc.PK || len(bt.PK) > 0 && bt.PK[0] == c.Name) {
				changed = true
			}
			if changed && !kept {
				return false // the key of an AUTO_INCREMENT column is dropped first
			}
		}
	}
	return true
}

// fkIndexOK: indexes that MySQL itself makes or needs for foreign keys must not
// be affected, that is one group of known defects.
func (s *aSchema) fkIndexOK(t, bt *aTable) bool {
	covers := func(u *aTable, col string) map[string]string {
		m := map[string]string{}
		for _, x := range u.Idx {
			if x.Cols[0] == col && x.Kind == "" {
				m[x.Name] = x.def()
			}
		}
		if len(u.PK) > 0 && u.PK[0] == col {
			m["PRIMARY"] = strings.Join(u.PK, "\x00")
		}
		if c := u.col(col); c != nil && c.PK {
			m["PRIMARY"] = col
		} else if c != nil && c.Unique {
			m[col] = "unique"
		}
		return m
	}
	seen := map[string]string{}
	for _, u := range []*aTable{t, bt} {
		for _, f := range u.FKs {
			// columns change before foreign keys do
			if c := t.col(f.Cols[0]); f.OnDelete+f.OnUpdate != "" && strings.Contains(f.OnDelete+f.OnUpdate, "SET NULL") && c != nil && (c.NotNull || c.PK || inList(t.PK, c.Name)) {
				return false
			}
			if n, ok := seen[f.Cols[0]]; ok && n != f.Name {
				return false
			}
			seen[f.Cols[0]] = f.Name
			before, after := covers(bt, f.Cols[0]), covers(t, f.Cols[0])
			both := u == t
			if both {
				both = false
				for _, o := range bt.FKs {
					both = both || o.Name == f.Name
				}
			}
			if u == t {
				if len(before) == 0 && (len(after) == 0 || !both) {
					continue
				}
				ok := false
				for k, v := range before {
					ok = ok || after[k] == v
				}
				if !ok {
					return false
				}
			}
			if u == bt && len(before) == 0 && len(after) > 0 {
				return false
			}
		}
	}
	return true
}

// typeIndexOK: the type of a column must not change together with an index on it
// that goes away or changes (the column is changed while the old index exists).
func (s *aSchema) typeIndexOK(t, bt *aTable) bool {
	for _, c := range t.Cols {
		bc := bt.col(c.Name)
		if bc == nil || bc.Type == c.Type {
			continue
		}
		for _, y := range bt.Idx {
			if !inList(y.Cols, c.Name) {
				continue
			}
			kept := false
			for _, x := range t.Idx {
				kept = kept || x.Name == y.Name && x.def() == y.def()
			}
			if !kept {
				return false
			}
		}
		if inList(bt.PK, c.Name) && strings.Join(bt.PK, "\x00") != strings.Join(t.PK, "\x00") || bc.Unique && !c.Unique {
			return false
		}
	}
	return true
}
