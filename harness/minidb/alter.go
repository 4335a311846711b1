package minidb

import (
	"fmt"
	"regexp"
	"strings"
)

func (x *executor) createIndex() {
	idx := &Index{}
	if x.kw("unique") {
		idx.Unique = true
	}
	if x.d == MSSQL {
		if x.kw("clustered") {
			idx.Clustered = true
		} else {
			x.kw("nonclustered")
		}
	}
	if x.d == MySQL && x.kw("fulltext") {
		idx.Kind = "fulltext"
	}
	check(x.needKw("index"))
	idx.Name = x.id()
	if x.d == MySQL && x.kw("using") {
		idx.Method = strings.ToLower(x.next().s)
	}
	check(x.needKw("on"))
	t := x.mustTable()
	x.eff.Verb, x.eff.Target = "create index", "index "+t.Key()+"."+idx.Name
	if x.d == PG && x.kw("using") {
		idx.Method = strings.ToLower(x.id())
		switch idx.Method {
		case "btree", "hash", "gin", "gist", "brin":
		default:
			fail("access method %q does not exist", idx.Method)
		}
	}
	idx.Cols = x.indexCols()
	x.indexTail(idx)
	x.addIndex(t, idx)
}

func (x *executor) alterTable() {
	if x.kw("only") {
		if x.d != PG {
			check(x.errf("ONLY"))
		}
	}
	t := x.mustTable()
	x.eff.Verb, x.eff.Target = "alter table", "table "+t.Key()
	for {
		x.alterAction(t)
		if x.d == MSSQL || !x.op(",") {
			return
		}
	}
}

func (x *executor) mustCol(t *Table, n string) *Column {
	c := t.Col(x.db, n)
	if c == nil {
		fail("column %q of relation %q does not exist", n, t.Key())
	}
	return c
}

func (x *executor) position(t *Table, self *Column) int {
	if x.d != MySQL {
		return -1
	}
	if x.kw("first") {
		return 0
	}
	if x.kw("after") {
		n := x.id()
		for i, c := range t.Cols {
			if strings.EqualFold(c.Name, n) {
				if c == self {
					fail("unknown column '%s' in '%s'", n, t.Key())
				}
				return i + 1
			}
		}
		fail("unknown column '%s' in '%s' (AFTER)", n, t.Key())
	}
	return -1
}

func (t *Table) moveTo(c *Column, pos int) {
	if pos < 0 {
		return
	}
	cur := -1
	for i, o := range t.Cols {
		if o == c {
			cur = i
		}
	}
	rest := append(append([]*Column(nil), t.Cols[:cur]...), t.Cols[cur+1:]...)
	if pos > cur {
		pos--
	}
	t.Cols = append(rest[:pos:pos], append([]*Column{c}, rest[pos:]...)...)
}

func (x *executor) alterAction(t *Table) {
	k := t.Key()
	switch {
	case x.kw("add"):
		if x.d == MSSQL && x.isKw("default") {
			x.tableConstraint(t, nil)
			return
		}
		if x.d != MSSQL && x.kw("column") {
			c := x.columnDef(t, -1, nil, nil)
			t.moveTo(c, x.position(t, c))
			return
		}
		if x.isKw("constraint") || x.isKw("primary", "key") || x.isKw("foreign", "key") || x.keyItemAhead() || x.isKw("check") {
			x.tableConstraint(t, nil)
			return
		}
		if x.d == MSSQL || x.d == MySQL || x.d == PG {
			c := x.columnDef(t, -1, nil, nil)
			t.moveTo(c, x.position(t, c))
			return
		}
	case x.d == MySQL && x.kw("change"):
		x.kw("column")
		n := x.id()
		old := x.mustCol(t, n)
		x.touch("column " + k + "." + old.Name)
		oldType := old.Type.String()
		oldName := old.Name
		c := x.columnDef(t, -1, old, nil)
		t.moveTo(c, x.position(t, c))
		if c.Name != oldName {
			x.renameInKeys(t, oldName, c.Name)
		}
		if oldType != c.Type.String() && x.inFK(t, c.Name) {
			fail("cannot change column '%s': used in a foreign key constraint", c.Name)
		}
		for _, i := range append(append([]*Index(nil), t.Idx...), t.PK) {
			if i == nil {
				continue
			}
			for _, ic := range i.Cols {
				if ic.Name != c.Name {
					continue
				}
				if noDefault(c.Type) && ic.Len == "" && i.Kind == "" {
					fail("BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
				}
				if ic.Len != "" && c.Type.class() != "str" && c.Type.class() != "bin" {
					fail("incorrect prefix key")
				}
			}
		}
		for _, f := range t.FKs {
			for _, fc := range f.Cols {
				if fc == c.Name && c.NotNull && (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") {
					fail("column '%s' cannot be NOT NULL: needed in a foreign key constraint", c.Name)
				}
			}
		}
	case x.kw("drop"):
		x.alterDrop(t)
	case x.kw("alter"):
		x.kw("column")
		x.alterColumn(t)
	default:
		check(x.errf("unsupported ALTER TABLE action"))
	}
}

func (x *executor) renameInKeys(t *Table, a, b string) {
	for _, i := range append(append([]*Index(nil), t.Idx...), t.PK) {
		if i != nil {
			for j := range i.Cols {
				if i.Cols[j].Name == a {
					i.Cols[j].Name = b
				}
			}
		}
	}
}

func (x *executor) inFK(t *Table, col string) bool {
	for _, o := range x.db.Tables {
		for _, f := range o.FKs {
			for i := range f.Cols {
				if o == t && f.Cols[i] == col || f.RefTable == t.Key() && f.RefCols[i] == col {
					return true
				}
			}
		}
	}
	return false
}

func (x *executor) dropColumn(t *Table, n string) {
	c := x.mustCol(t, n)
	k := t.Key()
	x.touch("column " + k + "." + c.Name)
	if x.inFK(t, c.Name) && x.d != PG {
		fail("cannot drop column '%s': needed in a foreign key constraint", c.Name)
	}
	in := func(i *Index) bool {
		for _, ic := range i.Cols {
			if ic.Name == c.Name {
				return true
			}
		}
		for _, n := range i.Incl {
			if strings.EqualFold(n, c.Name) {
				return true
			}
		}
		hit := false
		i.Where.walk(func(e *Expr) { hit = hit || e.Op == "col" && e.Name[len(e.Name)-1] == c.Name })
		return hit
	}
	switch x.d {
	case MySQL:
		strip := func(i *Index) bool {
			var o []IdxCol
			for _, ic := range i.Cols {
				if ic.Name != c.Name {
					o = append(o, ic)
				}
			}
			i.Cols = o
			return len(o) > 0
		}
		var keep []*Index
		for _, i := range t.Idx {
			if strip(i) {
				keep = append(keep, i)
			}
		}
		t.Idx = keep
		if t.PK != nil && !strip(t.PK) {
			t.PK = nil
		}
	case PG:
		for _, o := range x.db.Tables {
			for _, f := range o.FKs {
				for i := range f.RefCols {
					if f.RefTable == k && f.RefCols[i] == c.Name && o != t {
						fail("cannot drop column %s of table %s because other objects depend on it", c.Name, k)
					}
				}
			}
		}
		var fks []*FK
		for _, f := range t.FKs {
			hit := false
			for i, fc := range f.Cols {
				hit = hit || fc == c.Name || f.RefTable == k && f.RefCols[i] == c.Name
			}
			if !hit {
				fks = append(fks, f)
			}
		}
		t.FKs = fks
		var keep []*Index
		for _, i := range t.Idx {
			if !in(i) {
				keep = append(keep, i)
			}
		}
		t.Idx = keep
		if t.PK != nil && in(t.PK) {
			t.PK = nil
		}
		var cs []*Check
		for _, ch := range t.Checks {
			hit := false
			ch.E.walk(func(e *Expr) { hit = hit || e.Op == "col" && e.Name[len(e.Name)-1] == c.Name })
			if !hit {
				cs = append(cs, ch)
			}
		}
		t.Checks = cs
		for _, p := range t.Policies {
			hit := false
			for _, e := range []*Expr{p.Using, p.WithCheck} {
				e.walk(func(e *Expr) { hit = hit || e.Op == "col" && e.Name[len(e.Name)-1] == c.Name })
			}
			if hit {
				fail("cannot drop column %s because policy %s depends on it", c.Name, p.Name)
			}
		}
	case MSSQL:
		if c.DefName != "" {
			fail("the object '%s' is dependent on column '%s'", c.DefName, c.Name)
		}
		for _, i := range t.Idx {
			if in(i) {
				fail("the index '%s' is dependent on column '%s'", i.Name, c.Name)
			}
		}
		if t.PK != nil && in(t.PK) {
			fail("the object '%s' is dependent on column '%s'", t.PK.Name, c.Name)
		}
	}
	if len(t.Cols) == 1 && x.d != PG {
		fail("can't delete all columns of %s", k)
	}
	for i, o := range t.Cols {
		if o == c {
			t.Cols = append(append([]*Column(nil), t.Cols[:i]...), t.Cols[i+1:]...)
		}
	}
}

func (x *executor) alterDrop(t *Table) {
	k := t.Key()
	switch {
	case x.kw("column"):
		x.dropColumn(t, x.id())
	case x.d == MySQL && x.kw("primary", "key"):
		if t.PK == nil {
			fail("can't DROP 'PRIMARY'; check that column/key exists")
		}
		x.touch("pk " + k)
		t.PK = nil
	case x.d == MySQL && (x.kw("index") || x.kw("key")):
		n := x.id()
		if strings.EqualFold(n, "primary") && t.PK != nil {
			t.PK = nil
			x.touch("pk " + k)
			return
		}
		i := t.Index(x.db, n)
		if i == nil {
			fail("can't DROP '%s'; check that column/key exists", n)
		}
		x.touch("index " + k + "." + i.Name)
		x.removeIndex(t, i)
	case x.d == MySQL && x.kw("foreign", "key"):
		x.dropFK(t, x.id())
	case x.d != MySQL && x.kw("constraint"):
		x.dropConstraint(t, x.id())
	default:
		check(x.errf("unsupported DROP"))
	}
}

func (x *executor) dropFK(t *Table, n string) {
	for i, f := range t.FKs {
		if f.Name == n || x.d != PG && strings.EqualFold(f.Name, n) {
			x.touch("fk " + t.Key() + "." + f.Name)
			t.FKs = append(append([]*FK(nil), t.FKs[:i]...), t.FKs[i+1:]...)
			if x.d == MySQL { // the server-made index stays as an ordinary one
				for _, ix := range t.Idx {
					if ix.Implicit {
						ix.Implicit = false
					}
				}
			}
			return
		}
	}
	fail("can't DROP '%s'; check that foreign key exists", n)
}

func (x *executor) dropConstraint(t *Table, n string) {
	eq := func(a string) bool { return a == n || x.d == MSSQL && strings.EqualFold(a, n) }
	if t.PK != nil && eq(t.PK.Name) {
		x.touch("pk " + t.Key())
		t.PK = nil
		return
	}
	for _, f := range t.FKs {
		if eq(f.Name) {
			x.dropFK(t, n)
			return
		}
	}
	for i, c := range t.Checks {
		if eq(c.Name) {
			x.touch("check " + t.Key() + "." + c.Name)
			t.Checks = append(append([]*Check(nil), t.Checks[:i]...), t.Checks[i+1:]...)
			return
		}
	}
	for _, c := range t.Cols {
		if c.DefName != "" && eq(c.DefName) {
			x.touch("column " + t.Key() + "." + c.Name)
			c.DefName, c.DefAuto, c.Default = "", false, nil
			return
		}
	}
	for _, i := range t.Idx {
		if i.ForConstr != "" && eq(i.Name) {
			x.touch("index " + t.Key() + "." + i.Name)
			x.removeIndex(t, i)
			return
		}
	}
	fail("constraint %q of relation %q does not exist", n, t.Key())
}

func (x *executor) alterColumn(t *Table) {
	if x.d != PG {
		check(x.errf("ALTER COLUMN not modelled"))
	}
	c := x.mustCol(t, x.id())
	x.touch("column " + t.Key() + "." + c.Name)
	switch {
	case x.kw("type"), x.kw("set", "data", "type"):
		ty, err := x.typeName()
		check(err)
		if ty.Serial != "" {
			fail("type %q does not exist", ty.Serial)
		}
		if ty.Array != c.Type.Array || !castable(c.Type, ty) {
			fail("column %q cannot be cast automatically to type %s", c.Name, ty)
		}
		if c.Identity != nil && ty.class() != "int" {
			fail("identity column type must be smallint, integer, or bigint")
		}
		for _, v := range x.db.Views {
			if x.db.viewUses(v, t, c) {
				fail("cannot alter type of a column used by a view or rule (%s)", v.Key())
			}
		}
		ser := c.Type.Serial
		c.Type = ty
		if ser != "" {
			c.Type.Serial = ser // the default stays
		}
	case x.kw("set", "not", "null"):
		c.NotNull = true
	case x.kw("drop", "not", "null"):
		if t.PK != nil {
			for _, p := range t.PK.Cols {
				if p.Name == c.Name {
					fail("column %q is in a primary key", c.Name)
				}
			}
		}
		if c.Identity != nil {
			fail("column %q of relation %q is an identity column", c.Name, t.Key())
		}
		c.NotNull = false
	case x.kw("set", "default"):
		if c.Identity != nil {
			fail("column %q of relation %q is an identity column", c.Name, t.Key())
		}
		c.Type.Serial = ""
		x.setDefault(t, c, "", x.defaultValue())
	case x.kw("drop", "default"):
		if c.Identity != nil {
			fail("column %q is an identity column", c.Name)
		}
		c.Default = nil
		c.Type.Serial = ""
	case x.kw("add", "generated"):
		b := ""
		if x.kw("always") {
			b = "ALWAYS"
		} else if x.kw("by", "default") {
			b = "BY DEFAULT"
		} else {
			check(x.errf("GENERATED"))
		}
		check(x.needKw("as", "identity"))
		if c.Identity != nil {
			fail("column %q is already an identity column", c.Name)
		}
		if !c.NotNull {
			fail("column %q must be declared NOT NULL before identity can be added", c.Name)
		}
		id := x.identitySeq(b)
		x.identityOK(c)
		c.Identity = id
	case x.kw("set", "generated"):
		if c.Identity == nil {
			fail("column %q is not an identity column", c.Name)
		}
		if x.kw("always") {
			c.Identity.Behavior = "ALWAYS"
		} else if x.kw("by", "default") {
			c.Identity.Behavior = "BY DEFAULT"
		} else {
			check(x.errf("GENERATED"))
		}
	case x.kw("drop", "identity"):
		ie := x.kw("if", "exists")
		if c.Identity == nil && !ie {
			fail("column %q is not an identity column", c.Name)
		}
		c.Identity = nil
	default:
		check(x.errf("unsupported ALTER COLUMN"))
	}
}

func castable(a, b ColType) bool {
	ca, cb := a.class(), b.class()
	if ca == cb {
		if ca == "other" {
			return a.Name == b.Name
		}
		if ca == "time" {
			at, bt := strings.HasPrefix(a.Name, "time "), strings.HasPrefix(b.Name, "time ")
			if bt {
				return true
			}
			return !at
		}
		return true
	}
	if cb == "str" {
		return true
	}
	num := map[string]bool{"int": true, "dec": true, "float": true}
	return num[ca] && num[cb]
}

func (x *executor) dropTable() {
	x.eff.Verb = "drop table"
	s, n := x.objName()
	t := x.db.Table(join(s, n))
	if t == nil {
		fail("table %s does not exist", join(s, n))
	}
	k := t.Key()
	x.eff.Target = "table " + k
	x.touch(x.eff.Target)
	for _, o := range x.db.Tables {
		if o == t {
			continue
		}
		for _, f := range o.FKs {
			if f.RefTable == k {
				fail("cannot drop table %s referenced by foreign key constraint %s on table %s", k, f.Name, o.Key())
			}
		}
	}
	for i, o := range x.db.Tables {
		if o == t {
			x.db.Tables = append(append([]*Table(nil), x.db.Tables[:i]...), x.db.Tables[i+1:]...)
			break
		}
	}
	var tr []*Trigger
	for _, g := range x.db.Triggers {
		if g.Table != k {
			tr = append(tr, g)
		}
	}
	x.db.Triggers = tr
}

func (x *executor) dropIndex() {
	x.eff.Verb = "drop index"
	switch x.d {
	case PG:
		n, err := x.qname()
		check(err)
		schema := "public"
		name := n[len(n)-1]
		if len(n) == 2 {
			schema = n[0]
		}
		for _, t := range x.db.Tables {
			if t.Schema != schema {
				continue
			}
			if t.PK != nil && t.PK.Name == name {
				fail("cannot drop index %s because constraint requires it", name)
			}
			if i := t.Index(x.db, name); i != nil {
				if i.ForConstr != "" {
					fail("cannot drop index %s because constraint %s on table %s requires it", name, name, t.Key())
				}
				x.eff.Target = "index " + t.Key() + "." + name
				x.touch(x.eff.Target)
				x.removeIndex(t, i)
				return
			}
		}
		fail("index %q does not exist", name)
	default:
		n := x.id()
		check(x.needKw("on"))
		t := x.mustTable()
		i := t.Index(x.db, n)
		if i == nil {
			fail("cannot drop the index '%s.%s', because it does not exist", t.Key(), n)
		}
		if i.ForConstr != "" && x.d == MSSQL {
			fail("an explicit DROP INDEX is not allowed on index '%s': it enforces a constraint", n)
		}
		x.eff.Target = "index " + t.Key() + "." + i.Name
		x.touch(x.eff.Target)
		x.removeIndex(t, i)
	}
}

// ---- views -------------------------------------------------------------------

func (x *executor) createView(sql string) {
	replace := false
	if x.kw("or", "replace") {
		replace = true
		if x.d == MSSQL {
			check(x.errf("OR REPLACE"))
		}
	}
	check(x.needKw("view"))
	s, n := x.objName()
	v := &View{Schema: s, Name: n, Text: sql}
	x.eff.Verb, x.eff.Target = "create view", "view "+v.Key()
	x.touch(x.eff.Target)
	check(x.needKw("as"))
	sel, err := x.selectStmt()
	check(err)
	v.Sel = sel
	if x.db.Table(v.Key()) != nil {
		fail("relation %s already exists", v.Key())
	}
	x.db.resolveSelect(sel)
	v.Cols = x.db.selectCols(sel)
	seen := map[string]bool{}
	for _, c := range v.Cols {
		if seen[c] {
			fail("column %q specified more than once in view %s", c, v.Key())
		}
		seen[c] = true
	}
	if msg := x.db.viewProblem(v); msg != "" {
		fail("view %s: %s", v.Key(), msg)
	}
	if old := x.db.View(v.Key()); old != nil {
		if !replace {
			fail("relation %s already exists", v.Key())
		}
		if x.d == PG {
			if len(v.Cols) < len(old.Cols) {
				fail("cannot drop columns from view")
			}
			for i := range old.Cols {
				if old.Cols[i] != v.Cols[i] {
					fail("cannot change name of view column %q to %q", old.Cols[i], v.Cols[i])
				}
			}
		}
		v.ID = old.ID
		for i, o := range x.db.Views {
			if o == old {
				x.db.Views = append([]*View(nil), x.db.Views...)
				x.db.Views[i] = v
			}
		}
		return
	}
	v.ID = x.db.id()
	x.db.Views = append(x.db.Views, v)
}

func (x *executor) dropView() {
	x.eff.Verb = "drop view"
	s, n := x.objName()
	v := x.db.View(join(s, n))
	if v == nil {
		fail("view %s does not exist", join(s, n))
	}
	x.eff.Target = "view " + v.Key()
	x.touch(x.eff.Target)
	var o []*View
	for _, w := range x.db.Views {
		if w != v {
			o = append(o, w)
		}
	}
	x.db.Views = o
}

func (db *DB) relCols(name []string) (string, []string, bool) {
	s, n := "", name[len(name)-1]
	if db.D != MySQL {
		s = db.DefaultSchema()
	}
	if len(name) == 2 {
		if db.D == MySQL {
			if name[0] != db.Name {
				return "", nil, false
			}
		} else {
			s = name[0]
		}
	}
	if t := db.Table(join(s, n)); t != nil {
		var c []string
		for _, x := range t.Cols {
			c = append(c, x.Name)
		}
		return t.Key(), c, true
	}
	if v := db.View(join(s, n)); v != nil {
		return v.Key(), v.Cols, true
	}
	return "", nil, false
}

type scopeRel struct {
	alias string
	full  []string
	cols  []string
	key   string
}

func (db *DB) scope(s *Select) ([]scopeRel, string) {
	var rels []scopeRel
	msg := ""
	var wf func(f *From)
	wf = func(f *From) {
		if f == nil {
			return
		}
		if f.Join != "" {
			wf(f.L)
			wf(f.R)
			return
		}
		key, cols, ok := db.relCols(f.Name)
		if !ok {
			msg = fmt.Sprintf("relation %s does not exist", strings.Join(f.Name, "."))
			return
		}
		a := f.Alias
		if a == "" {
			a = f.Name[len(f.Name)-1]
		}
		rels = append(rels, scopeRel{a, f.Name, cols, key})
	}
	wf(s.From)
	return rels, msg
}

// viewProblem reports why the view's body is not valid against the current schema.
func (db *DB) viewProblem(v *View) string {
	msg := ""
	var chk func(s *Select, outer []scopeRel)
	chk = func(s *Select, outer []scopeRel) {
		if s == nil || msg != "" {
			return
		}
		rels, m := db.scope(s)
		if m != "" {
			msg = m
			return
		}
		all := append(rels, outer...)
		var ex func(e *Expr)
		ex = func(e *Expr) {
			if e == nil || msg != "" {
				return
			}
			if e.Op == "col" {
				n := e.Name[len(e.Name)-1]
				hits := 0
				for i, r := range all {
					if len(e.Name) > 1 {
						q := e.Name[len(e.Name)-2]
						if q != r.alias {
							continue
						}
						if len(e.Name) == 3 && db.D == MySQL && e.Name[0] != db.Name {
							continue
						}
					}
					for _, c := range r.cols {
						if c == n || db.D != PG && strings.EqualFold(c, n) {
							hits++
						}
					}
					if hits > 0 && i >= len(rels) {
						break
					}
				}
				if hits == 0 {
					msg = fmt.Sprintf("column %s does not exist", strings.Join(e.Name, "."))
				} else if hits > 1 {
					msg = fmt.Sprintf("column %s is ambiguous", strings.Join(e.Name, "."))
				}
			}
			for _, k := range e.Kids {
				ex(k)
			}
			if e.Sel != nil {
				chk(e.Sel, all)
			}
		}
		for _, it := range s.Items {
			ex(it.E)
		}
		var jf func(f *From)
		jf = func(f *From) {
			if f != nil {
				jf(f.L)
				jf(f.R)
				ex(f.On)
			}
		}
		jf(s.From)
		ex(s.Where)
		for _, g := range s.GroupBy {
			ex(g)
		}
		for _, g := range s.OrderBy {
			if g.Op == "num" {
				continue
			}
			ex(g)
		}
		chk(s.Union, outer)
	}
	chk(v.Sel, nil)
	return msg
}

func (db *DB) resolveSelect(s *Select) {}

func (db *DB) selectCols(s *Select) []string {
	var o []string
	rels, _ := db.scope(s)
	for _, it := range s.Items {
		switch {
		case it.Star:
			for _, r := range rels {
				o = append(o, r.cols...)
			}
		case it.Alias != "":
			o = append(o, it.Alias)
		case it.E.Op == "col":
			o = append(o, it.E.Name[len(it.E.Name)-1])
		case it.E.Op == "fn":
			o = append(o, it.E.Name[0])
		default:
			if db.D == MSSQL {
				fail("create view failed because no column name was specified for column %d", len(o)+1)
			}
			o = append(o, "?column?")
		}
	}
	return o
}

func (db *DB) viewUses(v *View, t *Table, c *Column) bool {
	uses := false
	v.Sel.tables(func(n []string) {
		if k, _, ok := db.relCols(n); ok && k == t.Key() {
			uses = true
		}
	})
	if !uses {
		return false
	}
	hit := false
	v.Sel.walk(func(e *Expr) { hit = hit || e.Op == "col" && e.Name[len(e.Name)-1] == c.Name })
	for _, it := range v.Sel.Items {
		hit = hit || it.Star
	}
	return hit
}

// ---- policies and triggers ------------------------------------------------------

func (x *executor) createPolicy() {
	if x.d != PG {
		check(x.errf("POLICY"))
	}
	p := &Policy{Name: x.id(), Permissive: "PERMISSIVE", Cmd: "ALL", Roles: []string{"public"}}
	check(x.needKw("on"))
	t := x.mustTable()
	x.eff.Verb, x.eff.Target = "create policy", "policy "+t.Key()+"."+p.Name
	x.touch(x.eff.Target)
	if x.kw("as") {
		if x.kw("restrictive") {
			p.Permissive = "RESTRICTIVE"
		} else {
			check(x.needKw("permissive"))
		}
	}
	if x.kw("for") {
		t := x.next()
		switch strings.ToLower(t.s) {
		case "all", "select", "insert", "update", "delete":
			p.Cmd = strings.ToUpper(t.s)
		default:
			check(x.errf("policy command"))
		}
	}
	if x.kw("to") {
		p.Roles = nil
		for {
			if x.cur().is("current_user") || x.cur().is("session_user") {
				p.Roles = append(p.Roles, strings.ToLower(x.next().s))
			} else {
				p.Roles = append(p.Roles, x.id())
			}
			if !x.op(",") {
				break
			}
		}
	}
	if x.kw("using") {
		check(x.needOp("("))
		e, err := x.expr()
		check(err)
		check(x.needOp(")"))
		p.Using = e
		x.exprCols(t, e)
	}
	if x.kw("with", "check") {
		check(x.needOp("("))
		e, err := x.expr()
		check(err)
		check(x.needOp(")"))
		p.WithCheck = e
		x.exprCols(t, e)
	}
	if p.Cmd == "INSERT" && p.Using != nil {
		fail("only WITH CHECK expression allowed for INSERT")
	}
	if (p.Cmd == "SELECT" || p.Cmd == "DELETE") && p.WithCheck != nil {
		fail("WITH CHECK cannot be applied to SELECT or DELETE")
	}
	for _, o := range t.Policies {
		if o.Name == p.Name {
			fail("policy %q for table %q already exists", p.Name, t.Key())
		}
	}
	t.Policies = append(append([]*Policy(nil), t.Policies...), p)
}

func (x *executor) createTrigger(sql string) {
	replace := x.kw("or", "alter")
	check(x.needKw("trigger"))
	g := &Trigger{Text: sql}
	if x.d == MSSQL && replace { // what it keeps is the text of a CREATE
		g.Text = regexp.MustCompile(`(?i)^(\s*create\s+)or\s+alter\s+`).ReplaceAllString(sql, "$1  ")
	}
	g.Name = x.id()
	x.eff.Verb, x.eff.Target = "create trigger", "trigger "+g.Name
	x.touch(x.eff.Target)
	timeEvent := func() {
		switch {
		case x.kw("before"):
			if x.d == MSSQL {
				check(x.errf("BEFORE"))
			}
			g.Time = "before"
		case x.kw("after"):
			g.Time = "after"
		default:
			check(x.errf("trigger time"))
		}
		switch {
		case x.kw("insert"):
			g.Event = "insert"
		case x.kw("update"):
			g.Event = "update"
		case x.kw("delete"):
			g.Event = "delete"
		default:
			check(x.errf("trigger event"))
		}
	}
	switch x.d {
	case MySQL:
		if replace {
			check(x.errf("OR ALTER"))
		}
		timeEvent()
		check(x.needKw("on"))
		g.Table = x.mustTable().Key()
		check(x.needKw("for", "each", "row"))
	case MSSQL:
		check(x.needKw("on"))
		g.Table = x.mustTable().Key()
		timeEvent()
		check(x.needKw("as"))
	default:
		check(x.errf("triggers not modelled"))
	}
	start := x.cur().pos
	end := start
	var words []string
	last := ""
	for x.cur().k != tEOF && !x.cur().op(";") {
		t := x.next()
		end = t.end
		switch t.k {
		case tStr:
			words = append(words, quoteStr(t.s))
		case tQuoted:
			words = append(words, strings.ToLower(t.s))
		default:
			words = append(words, strings.ToLower(t.s))
		}
		last = t.s
	}
	_ = last
	if len(words) == 0 {
		check(x.errf("empty trigger body"))
	}
	switch words[0] {
	case "insert", "update", "delete":
	default:
		check(x.errf("trigger body"))
	}
	g.Raw = x.sv[start:end]
	g.Body = strings.Join(words, " ")
	if old := x.db.Trigger(g.Name); old != nil {
		if !replace {
			fail("trigger %s already exists", g.Name)
		}
		if old.Table != g.Table {
			fail("trigger %s belongs to another table", g.Name)
		}
		g.ID = old.ID
		for i, o := range x.db.Triggers {
			if o == old {
				x.db.Triggers = append([]*Trigger(nil), x.db.Triggers...)
				x.db.Triggers[i] = g
			}
		}
		return
	}
	g.ID = x.db.id()
	x.db.Triggers = append(x.db.Triggers, g)
}
