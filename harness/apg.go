package main

import (
	"fmt"
	"math/rand"
	"strings"
	"verifharness/minidb"
)

var pgStr = []string{"'abc'", "''", "'it''s'", "'a b'", "'100%'", "'été'", "'-- x'", "'a;b'", "'drop'", "'DROP it'", "'\"q\"'", "'0'", "'{}'", "'日本'", "'x\n-- y\nz'", "'a\\b'", "'\\'"}

var pgTypes = []typeDef{
	{"integer", "int", []string{"0", "1", "42", "NULL"}, true},
	{"bigint", "int", []string{"0", "99", "12345678901"}, true},
	{"smallint", "int", []string{"0", "7"}, true},
	{"numeric", "dec", []string{"0", "1.5", "10.25"}, true},
	{"numeric(10,2)", "dec", []string{"0.00", "1.50"}, true},
	{"numeric(10,4)", "dec", []string{"0.0000", "1.50"}, true},
	{"numeric(10,0)", "dec", []string{"0", "15"}, true},
	{"real", "float", []string{"1.5"}, true},
	{"double precision", "float", []string{"1.5", "0.25"}, true},
	{"text", "str", pgStr, true},
	{"character varying(20)", "str", pgStr, true},
	{"character varying(40)", "str", pgStr, true},
	{"character varying", "str", pgStr, true},
	{"character(10)", "str", []string{"'abc'", "''"}, true},
	{"character(3)", "str", []string{"'JPN'"}, true},
	{"character(1)", "str", []string{"'J'", "''"}, true},
	{"boolean", "bool", []string{"true", "false"}, true},
	{"date", "date", []string{"CURRENT_DATE"}, true},
	{"timestamp", "time", []string{"CURRENT_TIMESTAMP", "now()", "NULL"}, true},
	{"timestamp with time zone", "time", []string{"CURRENT_TIMESTAMP", "now()"}, true},
	{"timestamp(6)", "time", []string{"CURRENT_TIMESTAMP"}, true},
	{"time", "time", []string{"CURRENT_TIME"}, true},
	{"time with time zone", "time", nil, true},
	{"json", "json", nil, false},
	{"jsonb", "json", nil, false},
	{"uuid", "other", nil, true},
	{"integer[]", "array", nil, false},
	{"text[]", "array", nil, false},
	{"bit(2)", "bit", nil, true},
	{"citext", "other", nil, true},
}

// pgSpell gives other spellings of a type.
func pgSpell(sp spell, t string) string {
	if sp.g == nil {
		return t
	}
	if chance(sp.g, 1, 2) {
		switch {
		case t == "integer":
			t = "int"
		case t == "boolean":
			t = "bool"
		case strings.HasPrefix(t, "character varying("):
			t = "varchar" + strings.TrimPrefix(t, "character varying")
		case t == "character varying":
			t = "varchar"
		case t == "character(1)":
			t = pickN(sp.g, "char", "character", "char(1)")
		case t == "numeric(10,0)":
			t = pickN(sp.g, "numeric(10)", "decimal(10)", "decimal(10, 0)")
		case strings.HasPrefix(t, "character("):
			t = "char" + strings.TrimPrefix(t, "character")
		case t == "integer[]":
			t = pickN(sp.g, "int[]", "integer array")
		case strings.HasPrefix(t, "numeric("):
			t = "decimal" + t[7:]
		case t == "numeric":
			t = "decimal"
		case t == "double precision":
			t = "float"
		case t == "timestamp":
			t = "timestamp without time zone"
		case t == "time":
			t = "time without time zone"
		}
	}
	return sp.kw(t)
}

func pgPlain(n string) bool {
	return n == strings.ToLower(n) && plainLower(n) && !reservedish[n] && !reservedWord(n)
}

func (s *aSchema) pgColExtra(g *rand.Rand, t *aTable, c *aCol, ty *typeDef) {
	if c.NotNull && c.Default == "NULL" {
		c.Default = ""
	}
	if ty.Key && chance(g, 1, 14) && ty.Class != "bool" {
		c.Unique = true
	}
	if ty.Class == "int" && c.Default == "" && chance(g, 1, 8) {
		c.Identity = pickN(g, "ALWAYS", "BY DEFAULT")
		c.Null, c.Unique = false, false
		if chance(g, 2, 3) {
			c.IdOpts = sequenceOptions(g)
		}
	}
	if ty.Class == "int" && c.Identity == "" && chance(g, 1, 6) && pgPlain(c.Name) && pgPlain(t.Name) && t.Schema == "public" {
		s.pgCheck(g, c)
	}
}

// sequenceOptions of an identity column, in any order.
func sequenceOptions(g *rand.Rand) string {
	down := chance(g, 1, 5)
	var o []string
	add := func(in int, l ...string) {
		if chance(g, in, 5) {
			o = append(o, pick(g, l))
		}
	}
	if down {
		o = append(o, pickN(g, "INCREMENT BY -1", "INCREMENT -2"))
		add(2, "MINVALUE -900", "NO MINVALUE")
		add(2, "MAXVALUE -1", "NO MAXVALUE")
		add(3, "START WITH -5", "START -20")
	} else {
		add(3, "START WITH 5", "START WITH 10", "START 7", "START WITH 100")
		add(3, "INCREMENT BY 2", "INCREMENT 3", "INCREMENT BY 10")
		add(3, "MINVALUE 1", "MINVALUE 0", "MINVALUE -10", "NO MINVALUE", "NO MINVALUE")
		add(3, "MAXVALUE 900", "MAXVALUE 32000", "NO MAXVALUE", "NO MAXVALUE")
	}
	add(1, "CACHE 5", "CACHE 20")
	add(2, "CYCLE", "NO CYCLE")
	g.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return strings.Join(o, " ")
}

func (s *aSchema) pgCheck(g *rand.Rand, c *aCol) {
	c.Check = c.Name + pickN(g, " > ", " >= ", " < ", " <> ") + pickN(g, "0", "1", "20", "100")
	c.NoInherit = chance(g, 1, 4)
}

func (s *aSchema) pgIdxExtra(g *rand.Rand, t *aTable, x *aIdx) {
	if chance(g, 1, 5) {
		for _, c := range t.Cols {
			if s.typeOf(c).Class == "int" && pgPlain(c.Name) && !strings.Contains(c.Type, "serial") {
				x.Where = c.Name + pickN(g, " > ", " = ", " <= ") + pickN(g, "0", "20")
				break
			}
		}
	}
	if chance(g, 1, 6) {
		x.Method = "btree"
	}
}

func (s *aSchema) pgCol(sp spell, c *aCol) string {
	b := sp.id(c.Name) + sp.gap() + pgSpell(sp, c.Type)
	var opts []string
	if c.NotNull {
		opts = append(opts, sp.kw("NOT NULL"))
	} else if c.Null {
		opts = append(opts, sp.kw("NULL"))
	}
	if c.Default != "" {
		d := c.Default
		if !strings.Contains(d, "'") {
			d = sp.kw(d)
		} else if sp.vary(1, 3) {
			switch {
			case c.Type == "text":
				d += "::text"
			case strings.HasPrefix(c.Type, "character varying"):
				d += "::character varying"
			case strings.HasPrefix(c.Type, "character("):
				d += "::bpchar"
			}
		}
		opts = append(opts, sp.kw("DEFAULT")+" "+d)
	}
	if c.Identity != "" {
		o := sp.kw("GENERATED " + c.Identity + " AS IDENTITY")
		if c.IdOpts != "" {
			o += " (" + sp.kw(c.IdOpts) + ")"
		}
		opts = append(opts, o)
	}
	if c.PK {
		opts = append(opts, sp.kw("PRIMARY KEY"))
	}
	if c.Unique {
		opts = append(opts, sp.kw("UNIQUE"))
	}
	if c.Refs != "" {
		o := sp.kw("REFERENCES") + " " + sp.id(c.Refs)
		if p := keyOf(s.refOf(c)); len(p) == 1 && sp.vary(1, 2) {
			o += sp.gap() + "(" + sp.id(p[0]) + ")"
		}
		opts = append(opts, o)
	}
	if c.Check != "" {
		o := sp.kw("CHECK") + " (" + c.Check + ")"
		if c.NoInherit {
			o += " " + sp.kw("NO INHERIT")
		}
		opts = append(opts, o)
	}
	for _, o := range opts {
		b += sp.gap() + o
	}
	return b
}

func (s *aSchema) pgFK(sp spell, f *aFK) string {
	b := sp.kw("CONSTRAINT") + " " + sp.id(f.Name) + " " + sp.kw("FOREIGN KEY") + " (" + sp.ids(f.Cols) + ") " + sp.kw("REFERENCES") + " " + f.Ref.sqlName(sp) + " (" + sp.ids(f.RefCols) + ")"
	d, u := "", ""
	if f.OnDelete != "" {
		d = " " + sp.kw("ON DELETE") + " " + sp.kw(f.OnDelete)
	}
	if f.OnUpdate != "" {
		u = " " + sp.kw("ON UPDATE") + " " + sp.kw(f.OnUpdate)
	}
	if sp.vary(1, 2) {
		d, u = u, d
	}
	return b + d + u
}

func (s *aSchema) pgStatements(sp spell) []aStmt {
	var out []aStmt
	for _, t := range s.order() {
		var items []string
		for _, c := range t.Cols {
			items = append(items, s.pgCol(sp, c))
		}
		if len(t.PK) > 0 {
			items = append(items, sp.kw("PRIMARY KEY")+pick2(sp, " ", "")+"("+sp.ids(t.PK)+")")
		}
		var after []aStmt
		needs := s.refNeeds(t)
		for _, f := range t.FKs {
			// a separate statement of a foreign key can also come much later
			form := 0
			if sp.g != nil && chance(sp.g, 1, 3) {
				form = 1
			}
			if form == 0 {
				items = append(items, s.pgFK(sp, f))
			} else {
				after = append(after, aStmt{sp.kw("ALTER TABLE ONLY") + " " + t.sqlName(sp) + " " + sp.kw("ADD") + " " + s.pgFK(sp, f), "", []string{t.key(), f.Ref.key()}})
			}
		}
		for _, x := range t.Idx {
			u := ""
			if x.Unique {
				u = "UNIQUE "
			}
			b := sp.kw("CREATE "+u+"INDEX") + " " + sp.id(x.Name) + " " + sp.kw("ON") + " " + t.sqlName(sp)
			if x.Method != "" {
				b += " " + sp.kw("USING") + " " + x.Method
			}
			var cols []string
			for _, n := range x.Cols {
				c := sp.id(n)
				if sp.vary(1, 10) {
					c += " " + sp.kw("ASC")
				}
				cols = append(cols, c)
			}
			b += pick2(sp, " ", "") + "(" + strings.Join(cols, sp.comma()) + ")"
			if x.Where != "" {
				b += " " + sp.kw("WHERE") + " " + x.Where
			}
			after = append(after, aStmt{b, "", []string{t.key()}})
		}
		for _, p := range t.Pol {
			b := sp.kw("CREATE POLICY") + " " + sp.id(p.Name) + " " + sp.kw("ON") + " " + t.sqlName(sp)
			if p.Perm != "" {
				b += " " + sp.kw("AS") + " " + sp.kw(p.Perm)
			}
			if p.Cmd != "" {
				b += " " + sp.kw("FOR") + " " + sp.kw(p.Cmd)
			}
			if len(p.Roles) > 0 {
				b += " " + sp.kw("TO") + " " + strings.Join(p.Roles, sp.comma())
			}
			if p.Using != "" {
				b += " " + sp.kw("USING") + " " + parens(sp, p.Using)
			}
			if p.Check != "" {
				b += " " + sp.kw("WITH CHECK") + " " + parens(sp, p.Check)
			}
			after = append(after, aStmt{b, "", []string{t.key()}})
		}
		out = append(out, aStmt{sp.list(sp.kw("CREATE TABLE")+" "+t.sqlName(sp), items), t.key(), needs})
		out = append(out, after...)
	}
	for _, v := range s.V {
		n := sp.id(v.Name)
		if v.Schema != "" {
			n = v.Schema + "." + n
		} else if sp.vary(1, 4) {
			n = "public." + n
		}
		out = append(out, aStmt{sp.kw("CREATE VIEW") + " " + n + " " + sp.kw("AS") + " " + v.Body, v.key(), s.usedRels(v.Uses)})
	}
	return out
}

func pgTypeChangeOK(a, b string) bool {
	if a == b {
		return false
	}
	// what PostgreSQL converts by itself
	ok := map[string]string{
		"smallint": "integer bigint numeric text", "integer": "bigint numeric text", "bigint": "numeric numeric(10,2) text",
		"text": "vc20 vc40 vc", "vc20": "vc40 text vc", "vc40": "vc20 text vc", "vc": "text vc20",
		"real": "dp", "date": "timestamp", "character(10)": "text", "character(3)": "character(10) character(1)", "character(1)": "character(3)",
		"timestamp": "tz", "timestamp(6)": "tz", "tz": "timestamp", "time": "time_with_time_zone", "numeric(10,2)": "numeric(10,4) numeric", "numeric(10,4)": "numeric(10,2)",
		"numeric(10,0)": "numeric(10,2)",
		"json":          "jsonb", "jsonb": "json", "boolean": "text",
	}
	k := func(t string) string {
		t = strings.Replace(t, "character varying(20)", "vc20", 1)
		t = strings.Replace(t, "character varying(40)", "vc40", 1)
		t = strings.Replace(t, "character varying", "vc", 1)
		t = strings.Replace(t, "timestamp with time zone", "tz", 1)
		t = strings.Replace(t, "time with time zone", "time_with_time_zone", 1)
		return strings.Replace(t, "double precision", "dp", 1)
	}
	return inList(strings.Fields(ok[k(a)]), k(b))
}

func pgDropOK(bt *aTable, bc *aCol) bool { return !bc.Unique }

func (s *aSchema) pgEditPK(g *rand.Rand, t, bt *aTable, old []string, anyUse func(string) bool) bool {
	for _, n := range old {
		c := t.col(n)
		c.PK = false
		c.NotNull, c.Null = true, false
	}
	t.PK = nil
	if len(old) > 0 && chance(g, 1, 3) {
		return true
	}
	if !s.setPK(g, t) {
		return false
	}
	return strings.Join(old, "\x00") != strings.Join(t.PK, "\x00")
}

func (s *aSchema) pgChangeIdx(g *rand.Rand, t *aTable, x, n *aIdx) bool {
	if x.Where == n.Where {
		return false
	}
	x.Where = n.Where
	return true
}

// ---- views ----

func (s *aSchema) pgViewBody(g *rand.Rand, v *aView) bool {
	sp := spell{d: s.D}
	v.Uses = map[string]bool{}
	t := s.T[g.Intn(len(s.T))]
	u := s.T[g.Intn(len(s.T))]
	if !pgPlain(t.Name) || !pgPlain(u.Name) {
		return false
	}
	cols := map[string]bool{}
	var items []string
	q := sp.id(t.Name)
	from := t.sqlName(sp)
	add := func(t *aTable, q string) {
		v.Uses[t.key()] = true
		for n := 1 + g.Intn(3); n > 0; n-- {
			c := t.Cols[g.Intn(len(t.Cols))]
			al := c.Name
			if chance(g, 1, 3) {
				al = fmt.Sprintf("x%d", g.Intn(9))
			}
			if cols[al] || !pgPlain(c.Name) {
				continue
			}
			cols[al] = true
			v.Uses[t.key()+"."+c.Name] = true
			it := q + "." + sp.id(c.Name)
			if al != c.Name {
				it += " AS " + al
			}
			items = append(items, it)
		}
	}
	if chance(g, 1, 3) {
		k1, k2 := t.Cols[g.Intn(len(t.Cols))], u.Cols[g.Intn(len(u.Cols))]
		if s.typeOf(k1).Class != s.typeOf(k2).Class || k1.Type != k2.Type || !pgPlain(k1.Name) || !pgPlain(k2.Name) || s.typeOf(k1).Class == "json" {
			return false
		}
		q = "a"
		v.Uses[t.key()+"."+k1.Name], v.Uses[u.key()+"."+k2.Name] = true, true
		from = "(" + t.sqlName(sp) + " a " + pickN(g, "JOIN", "LEFT JOIN") + " " + u.sqlName(sp) + " b ON ((a." + sp.id(k1.Name) + " = b." + sp.id(k2.Name) + ")))"
		add(u, "b")
	}
	add(t, q)
	if len(items) == 0 {
		return false
	}
	v.Body = "SELECT " + pickN(g, "", "", "DISTINCT ") + strings.Join(items, ", ") + " FROM " + from
	if strings.Contains(v.Body, "DISTINCT") {
		for _, c := range append(append([]*aCol(nil), t.Cols...), u.Cols...) {
			if s.typeOf(c).Class == "json" {
				v.Body = strings.Replace(v.Body, "DISTINCT ", "", 1)
			}
		}
	}
	if chance(g, 1, 2) {
		for _, c := range t.Cols {
			if s.typeOf(c).Class == "int" && pgPlain(c.Name) {
				v.Uses[t.key()+"."+c.Name] = true
				v.Body += s.pgWhere(g, q+"."+c.Name)
				break
			}
		}
	}
	return true
}

func (s *aSchema) pgWhere(g *rand.Rand, col string) string {
	cond := "(" + col + pickN(g, " = ", " > ", " <= ", " <> ") + pickN(g, "1", "20", "300") + ")"
	if chance(g, 1, 3) {
		cond = "(" + cond + pickN(g, " AND ", " OR ") + "(" + col + " IS NOT NULL))"
	}
	return " WHERE " + cond
}

// pgChangeView changes the condition or adds a column at the end: nothing else
// can be done with CREATE OR REPLACE VIEW.
func (s *aSchema) pgChangeView(g *rand.Rand, v *aView) bool {
	old := v.Body
	i := strings.Index(v.Body, " WHERE ")
	if i > 0 {
		col := strings.TrimLeft(v.Body[i+7:], "(")
		col = col[:strings.IndexByte(col, ' ')]
		v.Body = v.Body[:i]
		if chance(g, 2, 3) {
			v.Body += s.pgWhere(g, col)
		}
		return v.Body != old
	}
	// the table without an alias
	for _, t := range s.T {
		if !v.Uses[t.key()] || strings.Contains(v.Body, " JOIN ") {
			continue
		}
		for _, c := range t.Cols {
			if s.typeOf(c).Class != "int" || !pgPlain(c.Name) {
				continue
			}
			v.Uses[t.key()+"."+c.Name] = true
			q := spell{d: s.D}.id(t.Name) + "." + c.Name
			if chance(g, 1, 2) {
				v.Body += s.pgWhere(g, q)
				return true
			}
			j := strings.Index(v.Body, " FROM ")
			al := fmt.Sprintf("y%d", s.uid())
			v.Body = v.Body[:j] + ", " + q + " AS " + al + v.Body[j:]
			return true
		}
	}
	return false
}

// ---- policies, identities, checks ----

// parens puts an expression in parentheses, sometimes in two pairs.
func parens(sp spell, e string) string {
	if sp.vary(1, 3) {
		return "((" + e + "))"
	}
	return "(" + e + ")"
}

func (s *aSchema) pgPolicy(g *rand.Rand, t *aTable) *aPolicy {
	var c *aCol
	for _, k := range t.Cols {
		if s.typeOf(k).Class == "int" && pgPlain(k.Name) {
			c = k
		}
	}
	if c == nil {
		return nil
	}
	p := &aPolicy{Name: fmt.Sprintf("p_%d", s.uid())}
	if len(s.T) > 0 && chance(g, 1, 2) {
		u, n := s.T[g.Intn(len(s.T))], p.Name // the name of another table's policy
		if len(u.Pol) > 0 {
			n = u.Pol[0].Name
		}
		dup := s.taken["policy "+t.key()+"."+n]
		for _, o := range t.Pol {
			dup = dup || o.Name == n
		}
		if !dup {
			p.Name = n
		}
	}
	p.Perm = pickN(g, "", "PERMISSIVE", "RESTRICTIVE")
	p.Cmd = pickN(g, "", "ALL", "SELECT", "INSERT", "UPDATE", "DELETE")
	p.Roles = [][]string{{"public"}, {"postgres"}, {"app", "postgres"}, {"postgres", "app"}}[g.Intn(4)]
	cond := func() string {
		return pickN(g, c.Name+" = 1", c.Name+" > 20", "true")
	}
	if p.Cmd != "INSERT" {
		p.Using = cond()
	}
	if p.Cmd != "SELECT" && p.Cmd != "DELETE" && (p.Cmd == "INSERT" || chance(g, 1, 2)) {
		p.Check = cond()
	}
	return p
}

func (s *aSchema) pgEdit(g *rand.Rand, op string, t, bt *aTable, base *aSchema, anyUse, viewUse func(string) bool) bool {
	c := t.Cols[g.Intn(len(t.Cols))]
	var bc *aCol
	if bt != nil {
		bc = bt.col(c.Name)
	}
	switch op {
	case "add policy":
		if len(t.Pol) > 2 {
			return false
		}
		p := s.pgPolicy(g, t)
		if p == nil {
			return false
		}
		t.Pol = append(t.Pol, p)
		return true
	case "drop policy", "change policy":
		if len(t.Pol) == 0 {
			return false
		}
		i := g.Intn(len(t.Pol))
		if op == "drop policy" {
			t.Pol = append(t.Pol[:i:i], t.Pol[i+1:]...)
			return true
		}
		p := s.pgPolicy(g, t)
		if p == nil {
			return false
		}
		p.Name = t.Pol[i].Name
		if old := t.Pol[i]; chance(g, 3, 4) { // one thing only
			n := *old
			switch g.Intn(5) {
			case 0:
				n.Perm = p.Perm
			case 1:
				n.Roles = p.Roles
			case 2:
				if (old.Using == "") != (p.Using == "") || (old.Check != "") && (p.Cmd == "SELECT" || p.Cmd == "DELETE") {
					return false
				}
				n.Cmd = p.Cmd
			case 3:
				if (old.Using == "") != (p.Using == "") {
					return false
				}
				n.Using = p.Using
			case 4:
				if old.Cmd == "SELECT" || old.Cmd == "DELETE" || old.Cmd == "INSERT" && p.Check == "" {
					return false
				}
				n.Check = p.Check
			}
			p = &n
		}
		t.Pol[i] = p
		return true
	case "identity":
		if strings.Contains(c.Type, "serial") || s.typeOf(c).Class != "int" || c.Unique {
			return false
		}
		switch {
		case c.Identity == "":
			if c.Default != "" || bc != nil && (bc.Default != "" || bc.Identity != "") {
				return false
			}
			c.Identity, c.NotNull, c.Null = pickN(g, "ALWAYS", "BY DEFAULT"), true, false
			if chance(g, 2, 3) && (bc == nil || bc.Identity == "") {
				c.IdOpts = sequenceOptions(g)
			}
		case chance(g, 1, 2):
			if bc == nil {
				return false
			}
			c.Identity, c.IdOpts, c.NotNull = "", "", true
		default:
			if c.Identity == "ALWAYS" {
				c.Identity = "BY DEFAULT"
			} else {
				c.Identity = "ALWAYS"
			}
		}
		return true
	case "check":
		if s.typeOf(c).Class != "int" || !pgPlain(c.Name) || !pgPlain(t.Name) || t.Schema != "public" || strings.Contains(c.Type, "serial") {
			return false
		}
		if c.Check != "" && chance(g, 1, 3) {
			c.Check, c.NoInherit = "", false
			return true
		}
		s.pgCheck(g, c)
		return true
	}
	return false
}

// keyFor is the type of a column that can refer to the key of u, "" when none can with REFERENCES alone.
func (s *aSchema) keyFor(u *aTable) string {
	k := keyOf(u)
	def, plain := "public", pgPlain
	if s.D == minidb.MSSQL {
		def, plain = "dbo", msPlain
	}
	if u.Schema != def || !plain(u.Name) || len(k) != 1 {
		return ""
	}
	ty := map[string]string{"serial": "integer", "bigserial": "bigint", "smallserial": "smallint"}[u.col(k[0]).Type]
	if ty == "" {
		ty = u.col(k[0]).Type
	}
	return ty
}

func (s *aSchema) canRefer(t *aTable, c *aCol) bool {
	if t.Schema != "public" && t.Schema != "dbo" || c.Refs != "" || c.Check != "" || c.Identity != "" {
		return false
	}
	for _, f := range t.FKs {
		if inList(f.Cols, c.Name) {
			return false
		}
	}
	if s.D == minidb.MSSQL {
		return msPlain(t.Name) && msPlain(c.Name)
	}
	return pgPlain(t.Name) && pgPlain(c.Name)
}

// tableRefs makes columns of a new table refer to the keys of other tables.
func (s *aSchema) tableRefs(g *rand.Rand, t *aTable) {
	for _, u := range s.T {
		ty := s.keyFor(u)
		if u == t || ty == "" || !chance(g, 1, 4) {
			continue
		}
		n := 1 + g.Intn(2)
		for _, c := range t.Cols {
			if n > 0 && c.Type == ty && s.canRefer(t, c) {
				c.Refs = u.Name
				n--
			}
		}
	}
}

// colRefs makes a new column of an existing table refer to the key of another.
func (s *aSchema) colRefs(g *rand.Rand, t *aTable, c *aCol) {
	for _, u := range s.T {
		ty := s.keyFor(u)
		if u == t || ty == "" || s.reaches(u, t) || !s.canRefer(t, c) || !chance(g, 1, 3) {
			continue
		}
		if c.Type != ty {
			c.Type, c.Default, c.DefName = ty, "", ""
		}
		c.Refs = u.Name
	}
}

// pgSupported leaves out migrations with known defects.
func (s *aSchema) pgSupported(base *aSchema) bool {
	for _, x := range []*aSchema{s, base} {
		for _, t := range x.T {
			for _, i := range t.Idx {
				if c := t.col(i.Cols[0]); i.Unique && len(i.Cols) == 1 && c != nil && c.Unique {
					return false // taken for the index of the column option
				}
			}
		}
	}
	for _, t := range s.T {
		bt := base.table(t.key())
		if bt == nil {
			continue
		}
		for _, c := range t.Cols {
			bc := bt.col(c.Name)
			if bc == nil {
				continue
			}
			if c.Unique != bc.Unique || c.Refs != bc.Refs && c.Refs != "" {
				return false
			}
		}
	}
	return true
}
