package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/minidb"
)

var msStr = []string{"'abc'", "''", "'it''s'", "'a b'", "'100%'", "'-- x'", "'a;b'", "'drop'", "'DROP it'", "'\"q\"'", "'0'", "'[x]'", "'JPN'", "'x\n-- y\nz'", "'a\\b'", "'\\'"}

var msTypes = []typeDef{
	{"int", "int", []string{"0", "1", "42", "NULL"}, true},
	{"bigint", "int", []string{"0", "99", "12345678901"}, true},
	{"smallint", "int", []string{"0", "7"}, true},
	{"tinyint", "int", []string{"0", "7"}, true},
	{"bit", "bit", []string{"0", "1"}, true},
	{"decimal(10,2)", "dec", []string{"0", "1.5", "10.25"}, true},
	{"numeric(12,4)", "dec", []string{"0", "1.5"}, true},
	{"decimal(18,0)", "dec", []string{"0"}, true},
	{"float", "float", []string{"1.5", "0.25"}, true},
	{"real", "float", []string{"1.5"}, true},
	{"money", "money", nil, true},
	{"smallmoney", "money", nil, true},
	{"varchar(20)", "str", msStr, true},
	{"varchar(40)", "str", msStr, true},
	{"nvarchar(30)", "str", msStr, true},
	{"char(10)", "str", []string{"'abc'", "''"}, true},
	{"nchar(3)", "str", []string{"'JPN'"}, true},
	{"text", "text", nil, false},
	{"ntext", "text", nil, false},
	{"binary(3)", "bin", nil, true},
	{"varbinary(10)", "bin", nil, true},
	{"date", "date", []string{"getdate()"}, true},
	{"datetime", "time", []string{"getdate()", "CURRENT_TIMESTAMP", "NULL"}, true},
	{"datetime2", "time", []string{"getdate()"}, true},
	{"smalldatetime", "time", nil, true},
	{"datetimeoffset", "time", []string{"getdate()"}, true},
	{"datetimeoffset(3)", "time", nil, true},
	{"time", "time", nil, true},
	{"time(3)", "time", nil, true},
}

// msPlain: names that the tool writes without brackets in some statements.
func msPlain(n string) bool { return plainLower(n) && !reservedish[n] && !reservedWord(n) }

// msSpell gives other spellings of a type.
func msSpell(sp spell, t string) string {
	if sp.g == nil {
		return t
	}
	if t == "int" && chance(sp.g, 1, 3) {
		t = "integer"
	}
	if i := strings.IndexByte(t, ','); i > 0 && chance(sp.g, 1, 3) {
		t = t[:i] + ", " + t[i+1:]
	}
	if t == "decimal(18,0)" && chance(sp.g, 1, 2) {
		t = "decimal(18)"
	}
	return sp.kw(t)
}

func (s *aSchema) msColExtra(g *rand.Rand, t *aTable, c *aCol, ty *typeDef) {
	if c.NotNull && c.Default == "NULL" {
		c.Default, c.DefName = "", ""
	}
	hasID := false
	for _, k := range t.Cols {
		hasID = hasID || k.Identity != ""
	}
	if ty.Class == "int" && ty.T != "tinyint" && c.Default == "" && !hasID && chance(g, 1, 14) {
		c.Identity = pickN(g, "1,1", "10,5")
		c.NotRepl = chance(g, 1, 3)
		c.Null = false
		if chance(g, 1, 2) {
			c.NotNull = true
		}
	}
	if ty.Class == "int" && c.Identity == "" && chance(g, 1, 6) && msPlain(c.Name) && msPlain(t.Name) {
		s.msCheck(g, c)
	}
}

func (s *aSchema) msCheck(g *rand.Rand, c *aCol) {
	c.Check = "[" + c.Name + "]" + pickN(g, ">", ">=", "<", "<>") + pickN(g, "(0)", "(1)", "(20)", "(100)")
	c.CheckName = ""
	if chance(g, 1, 2) {
		c.CheckName = fmt.Sprintf("ck_%d", s.uid())
	}
	if c.Identity == "" {
		c.NotRepl = chance(g, 1, 4)
	}
}

func (s *aSchema) clustered(t *aTable, but *aIdx) bool {
	if len(t.PK) > 0 && t.PKClustered != 2 {
		return true
	}
	for _, c := range t.Cols {
		if c.PK {
			return true
		}
	}
	for _, x := range t.Idx {
		if x.Clustered && x != but {
			return true
		}
	}
	return false
}

func (s *aSchema) msIdxExtra(g *rand.Rand, t *aTable, x *aIdx) {
	for i := range x.Desc {
		x.Desc[i] = chance(g, 1, 4)
	}
	if chance(g, 1, 8) && !s.clustered(t, nil) {
		x.Clustered = true
	}
	x.Form = pickN2(g, 0, 0, 1)
	if !x.Clustered && chance(g, 1, 3) {
		for _, c := range t.Cols {
			if k := s.typeOf(c).Class; k != "text" && !inList(x.Cols, c.Name) && len(x.Incl) < 2 && chance(g, 1, 3) {
				x.Incl = append(x.Incl, c.Name)
				x.Form = 0 // INCLUDE is written in CREATE INDEX only
			}
		}
	}
	x.Opts = msOpts(g, x.Unique)
	if chance(g, 1, 6) {
		x.Part = pickN(g, "PRIMARY", "fg 1", "ps_1()", "ps()")
	}
}

// msPart writes where an index is stored.
func msPart(sp spell, x *aIdx) string {
	if x.Part == "" {
		return ""
	}
	b := " " + sp.kw("ON") + " "
	if n := strings.TrimSuffix(x.Part, "()"); n != x.Part {
		return b + sp.id(n) + pick2(sp, "", " ") + "(" + sp.id(x.Cols[0]) + ")"
	}
	return b + sp.id(x.Part)
}

func pickN2(g *rand.Rand, n ...int) int { return n[g.Intn(len(n))] }

func msOpts(g *rand.Rand, unique bool) string {
	if !chance(g, 1, 3) {
		return ""
	}
	l := []string{"PAD_INDEX = ON", "FILLFACTOR = 10", "FILLFACTOR = 80", "STATISTICS_NORECOMPUTE = ON", "ALLOW_ROW_LOCKS = OFF", "ALLOW_PAGE_LOCKS = OFF", "PAD_INDEX = OFF", "ALLOW_ROW_LOCKS = ON", "STATISTICS_INCREMENTAL = OFF"}
	if unique {
		l = append(l, "IGNORE_DUP_KEY = ON")
	}
	var o []string
	seen := map[string]bool{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		x := pick(g, l)
		if k := strings.Fields(x)[0]; !seen[k] {
			seen[k] = true
			o = append(o, x)
		}
	}
	return strings.Join(o, ", ")
}

func (s *aSchema) msCol(sp spell, c *aCol) string {
	b := sp.id(c.Name) + sp.gap() + msSpell(sp, c.Type)
	repl := func() string {
		if c.NotRepl {
			return " " + sp.kw("NOT FOR REPLICATION")
		}
		return ""
	}
	var opts []string
	if c.NotNull {
		opts = append(opts, sp.kw("NOT NULL"))
	} else if c.Null {
		opts = append(opts, sp.kw("NULL"))
	}
	if c.Default != "" {
		d := c.Default
		if !strings.Contains(d, "'") {
			d = sp.kw(d)
		}
		switch {
		case sp.vary(1, 4):
			d = "(" + d + ")"
		case sp.vary(1, 4) && !strings.ContainsAny(d, "'("):
			d = "((" + d + "))"
		}
		o := sp.kw("DEFAULT") + " " + d
		if c.DefName != "" {
			o = sp.kw("CONSTRAINT") + " " + sp.id(c.DefName) + " " + o
		}
		opts = append(opts, o)
	}
	if c.Identity != "" {
		opts = append(opts, sp.kw("IDENTITY")+"("+c.Identity+")"+repl())
	}
	if c.PK {
		opts = append(opts, sp.kw("PRIMARY KEY"))
	}
	if c.Refs != "" {
		o := sp.kw("REFERENCES") + " " + sp.id(c.Refs)
		if p := keyOf(s.refOf(c)); len(p) == 1 && sp.vary(1, 2) {
			o += sp.gap() + "(" + sp.id(p[0]) + ")"
		}
		opts = append(opts, o)
	}
	if c.Check != "" {
		o := ""
		if c.CheckName != "" {
			o = sp.kw("CONSTRAINT") + " " + sp.id(c.CheckName) + " "
		}
		ck := c.Check
		if sp.vary(1, 3) {
			ck = strings.NewReplacer("[", "", "]", "").Replace(ck)
		}
		if c.Identity == "" {
			o += sp.kw("CHECK") + repl() + " (" + ck + ")"
		} else {
			o += sp.kw("CHECK") + " (" + ck + ")"
		}
		opts = append(opts, o)
	}
	for _, o := range opts {
		b += sp.gap() + o
	}
	return b
}

func (s *aSchema) msIdxCols(sp spell, x *aIdx) string {
	var cols []string
	for i, n := range x.Cols {
		c := sp.id(n)
		if x.Desc[i] {
			c += " " + sp.kw("DESC")
		} else if sp.vary(1, 8) {
			c += " " + sp.kw("ASC")
		}
		cols = append(cols, c)
	}
	return "(" + strings.Join(cols, sp.comma()) + ")"
}

func (s *aSchema) msFK(sp spell, f *aFK) string {
	b := sp.kw("CONSTRAINT") + " " + sp.id(f.Name) + " " + sp.kw("FOREIGN KEY") + " (" + sp.ids(f.Cols) + ") " + sp.kw("REFERENCES") + " " + f.Ref.sqlName(sp) + " (" + sp.ids(f.RefCols) + ")"
	d, u := "", ""
	if f.OnDelete != "" {
		d = " " + sp.kw("ON DELETE") + " " + sp.kw(f.OnDelete)
	}
	if f.OnUpdate != "" {
		u = " " + sp.kw("ON UPDATE") + " " + sp.kw(f.OnUpdate)
	}
	if sp.vary(1, 2) {
		d, u = u, d
	}
	b += d + u
	if f.NotRepl {
		b += " " + sp.kw("NOT FOR REPLICATION")
	}
	return b
}

// msOpts: IGNORE_DUP_KEY is for unique indexes only
func (x *aIdx) msOpts() string {
	if x.Unique {
		return x.Opts
	}
	return strings.TrimPrefix(strings.Replace(", "+x.Opts, ", IGNORE_DUP_KEY = ON", "", 1), ", ")
}

func (s *aSchema) msOptions(sp spell, o string) string {
	if o == "" {
		return ""
	}
	return " " + sp.kw("WITH") + " (" + o + ")"
}

func (s *aSchema) msStatements(sp spell) []aStmt {
	var out []aStmt
	for _, t := range s.order() {
		var items []string
		for _, c := range t.Cols {
			items = append(items, s.msCol(sp, c))
		}
		if len(t.PK) > 0 {
			b := sp.kw("PRIMARY KEY")
			if t.PKName != "" {
				b = sp.kw("CONSTRAINT") + " " + sp.id(t.PKName) + " " + b
			}
			switch t.PKClustered {
			case 1:
				b += " " + sp.kw("CLUSTERED")
			case 2:
				b += " " + sp.kw("NONCLUSTERED")
			}
			items = append(items, b+" ("+sp.ids(t.PK)+")"+s.msOptions(sp, t.PKOpts))
		}
		var after []aStmt
		for _, x := range t.Idx {
			form := x.Form
			if sp.g != nil && len(x.Incl) == 0 {
				form = sp.g.Intn(2)
			}
			u, k := "", ""
			if x.Unique {
				u = "UNIQUE "
			}
			if x.Clustered {
				k = "CLUSTERED "
			} else if sp.vary(1, 3) {
				k = "NONCLUSTERED "
			}
			if form == 1 {
				items = append(items, sp.kw("INDEX")+" "+sp.id(x.Name)+" "+sp.kw(u+k)+s.msIdxCols(sp, x)+s.msOptions(sp, x.msOpts())+msPart(sp, x))
				continue
			}
			b := sp.kw("CREATE "+u+k+"INDEX") + " " + sp.id(x.Name) + " " + sp.kw("ON") + " " + t.sqlName(sp) + " " + s.msIdxCols(sp, x)
			if len(x.Incl) > 0 {
				b += " " + sp.kw("INCLUDE") + pick2(sp, " ", "") + "(" + sp.ids(x.Incl) + ")"
			}
			after = append(after, aStmt{b + s.msOptions(sp, x.msOpts()) + msPart(sp, x), "", []string{t.key()}})
		}
		for _, f := range t.FKs {
			items = append(items, s.msFK(sp, f))
		}
		out = append(out, aStmt{sp.list(sp.kw("CREATE TABLE")+" "+t.sqlName(sp), items), t.key(), s.refNeeds(t)})
		out = append(out, after...)
	}
	for _, v := range s.V {
		sc := v.Schema
		if sc == "" {
			sc = "dbo"
		}
		out = append(out, aStmt{sp.kw("CREATE VIEW") + " [" + sc + "].[" + v.Name + "] " + sp.kw("AS") + " " + v.Body, v.key(), s.usedRels(v.Uses)})
	}
	for _, tr := range s.G {
		out = append(out, aStmt{sp.kw("CREATE TRIGGER") + " " + sp.id(tr.Name) + " " + sp.kw("ON") + " " + tr.T.sqlName(sp) + " " + sp.kw(tr.Time) + " " + sp.kw(tr.Event) + " " + sp.kw("AS") + pick2(sp, " ", "\n\t") + tr.Body, "", append(s.usedRels(tr.Uses), tr.T.key())})
	}
	return out
}

// a column with a check cannot be dropped (known finding)
func msDropOK(bt *aTable, bc *aCol) bool { return bc.Check == "" }

func (s *aSchema) msEditPK(g *rand.Rand, t, bt *aTable, old []string, anyUse func(string) bool) bool {
	if len(old) > 0 {
		for _, n := range old {
			c := t.col(n)
			c.PK = false
			c.NotNull, c.Null = true, false
		}
		t.PK, t.PKName, t.PKOpts, t.PKClustered = nil, "", "", 0
		if chance(g, 1, 2) {
			return true
		}
	}
	// only columns that are NOT NULL already can become a primary key
	var ks []*aCol
	for _, c := range s.keyCols(t) {
		if bt == nil || bt.col(c.Name) != nil && bt.col(c.Name).NotNull && c.NotNull {
			ks = append(ks, c)
		}
	}
	if len(ks) == 0 {
		return false
	}
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	for _, c := range ks[:1+g.Intn(len(ks))%3] {
		if c.Default == "NULL" {
			c.Default, c.DefName = "", ""
		}
		c.NotNull, c.Null = true, false
		t.PK = append(t.PK, c.Name)
	}
	if bt != nil && bt.PKName != "" && chance(g, 1, 2) {
		t.PKName = bt.PKName
	} else if chance(g, 1, 3) {
		t.PKName, t.PKClustered, t.PKOpts = "", 0, ""
	} else {
		t.PKName = fmt.Sprintf("pk_%d", s.uid())
	}
	t.PKClustered = 2
	if !s.clustered(t, nil) {
		t.PKClustered = g.Intn(3)
		if t.PKName == "" {
			t.PKClustered = 0 // no CLUSTERED without a name
		}
	} else if t.PKName == "" {
		t.PKName = fmt.Sprintf("pk_%d", s.uid())
	}
	return true
}

func (s *aSchema) msChangeIdx(g *rand.Rand, t *aTable, x, n *aIdx) bool {
	switch g.Intn(3) {
	case 0:
		x.Incl = nil
		if x.Clustered {
			return false
		}
		for _, c := range n.Incl {
			if !inList(x.Cols, c) {
				x.Incl = append(x.Incl, c)
			}
		}
		if len(x.Incl) > 0 {
			x.Form = 0
		}
	case 1:
		x.Opts = msOpts(g, x.Unique)
	default:
		if !x.Clustered && (s.clustered(t, x) || len(x.Incl) > 0) {
			return false
		}
		x.Clustered = !x.Clustered
	}
	return true
}

func (s *aSchema) msViewBody(g *rand.Rand, v *aView) bool {
	sp := spell{d: s.D}
	v.Uses = map[string]bool{}
	t, u := s.T[g.Intn(len(s.T))], s.T[g.Intn(len(s.T))]
	name := func(t *aTable) string {
		if chance(g, 1, 2) {
			return "[" + t.Schema + "].[" + t.Name + "]"
		}
		return t.Schema + "." + sp.id(t.Name)
	}
	var items []string
	cols := map[string]bool{}
	add := func(t *aTable, q string) {
		v.Uses[t.key()] = true
		for n := 1 + g.Intn(3); n > 0; n-- {
			c := t.Cols[g.Intn(len(t.Cols))]
			al := c.Name
			if chance(g, 1, 3) {
				al = fmt.Sprintf("x%d", g.Intn(9))
			}
			if cols[strings.ToLower(al)] {
				continue
			}
			cols[strings.ToLower(al)] = true
			v.Uses[t.key()+"."+c.Name] = true
			it := q + sp.id(c.Name)
			if al != c.Name {
				it += " as " + al
			}
			items = append(items, it)
		}
	}
	q, from := "", name(t)
	if chance(g, 1, 3) {
		k1, k2 := t.Cols[g.Intn(len(t.Cols))], u.Cols[g.Intn(len(u.Cols))]
		if s.typeOf(k1).Class != s.typeOf(k2).Class || s.typeOf(k1).Class == "text" {
			return false
		}
		v.Uses[t.key()+"."+k1.Name], v.Uses[u.key()+"."+k2.Name] = true, true
		q = "a."
		from = name(t) + " as a " + pickN(g, "join", "left join") + " " + name(u) + " as b on a." + sp.id(k1.Name) + " = b." + sp.id(k2.Name)
		add(u, "b.")
	}
	add(t, q)
	if len(items) == 0 {
		return false
	}
	v.Body = "select " + strings.Join(items, ", ") + " from " + from
	if chance(g, 1, 2) {
		for _, c := range t.Cols {
			if s.typeOf(c).Class == "int" {
				v.Uses[t.key()+"."+c.Name] = true
				v.Body += " where " + q + sp.id(c.Name) + pickN(g, " = ", " > ", " <= ", " <> ") + pickN(g, "1", "20", "300")
				break
			}
		}
	}
	return true
}

func (s *aSchema) msEdit(g *rand.Rand, op string, t, bt *aTable, base *aSchema, anyUse, viewUse func(string) bool) bool {
	c := t.Cols[g.Intn(len(t.Cols))]
	switch op {
	case "add trigger", "change trigger":
		return s.editTrigger(g, op, t, base)
	case "check":
		if s.typeOf(c).Class != "int" || !msPlain(c.Name) || !msPlain(t.Name) {
			return false
		}
		if c.Check != "" && chance(g, 1, 3) {
			c.Check, c.CheckName = "", ""
			if c.Identity == "" {
				c.NotRepl = false
			}
			return true
		}
		s.msCheck(g, c)
		return true
	}
	return false
}

// msSupported leaves out migrations with known defects.
func (s *aSchema) msSupported(base *aSchema) bool {
	for _, t := range s.T {
		bt := base.table(t.key())
		if bt == nil {
			continue
		}
		for _, c := range t.Cols {
			bc := bt.col(c.Name)
			if bc == nil {
				continue
			}
			// the name of an unchanged default or check is not compared
			norm := func(d string) string {
				return strings.Replace(strings.ToLower(d), "current_timestamp", "getdate()", 1)
			}
			if norm(c.Default) == norm(bc.Default) || c.Default+bc.Default == "NULL" {
				c.Default, c.DefName = bc.Default, bc.DefName
			}
			if c.Check == bc.Check && c.NotRepl == bc.NotRepl {
				c.CheckName = bc.CheckName
			}
		}
		if strings.Join(keyOf(t), ",") == strings.Join(keyOf(bt), ",") {
			t.PKClustered, t.PKOpts = bt.PKClustered, bt.PKOpts // not compared
			t.PKName = bt.PKName
		}
		// the new clustered index would be created before the current one is dropped
		if a, b := msClusteredBy(bt), msClusteredBy(t); a != "" && b != "" && a != b {
			return false
		}
		for _, x := range t.Idx {
			var bx *aIdx
			for _, k := range bt.Idx {
				if k.Name == x.Name {
					bx = k
				}
			}
			if bx == nil {
				continue
			}
			x.Part = bx.Part // not compared
			// an option that is no longer listed is not reset
			for _, o := range strings.Split(bx.Opts, ", ") {
				if o != "" && !strings.Contains(x.Opts, strings.Fields(o)[0]) {
					if x.Opts != "" {
						x.Opts += ", "
					}
					x.Opts += o
				}
			}
		}
	}
	return true
}

func keyOf(t *aTable) []string {
	for _, c := range t.Cols {
		if c.PK {
			return []string{c.Name}
		}
	}
	return t.PK
}

func msClusteredBy(t *aTable) string {
	if len(t.PK) > 0 && t.PKClustered != 2 {
		return "pk"
	}
	for _, c := range t.Cols {
		if c.PK {
			return "pk"
		}
	}
	for _, x := range t.Idx {
		if x.Clustered {
			return "index " + x.Name
		}
	}
	return ""
}

var _ = minidb.MSSQL
