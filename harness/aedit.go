package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/minidb"
)

var aTableNames = []string{"users", "posts", "items", "accounts", "user_groups", "t1", "orders2", "order", "group", "my table", "tag-list", "naïve", "Upper", "index", "日本", "a.b", "table", "x"}
var aColNames = []string{"id", "name", "age", "user_id", "created_at", "body", "c1", "c2", "c3", "order", "group", "my col", "e-mail", "é", "key", "desc", "from", "status", "type", "value", "Title", "primary", "a'b", "x y"}

func (s *aSchema) newTableName(g *rand.Rand, base *aSchema) string {
	for {
		n := pick(g, aTableNames)
		if chance(g, 1, 3) {
			n = fmt.Sprintf("%s_%d", pick(g, []string{"tbl", "log", "rel"}), s.uid())
		}
		if chance(g, 1, 30) {
			n = pickN(g, "a`b", `a"b`, "a]b", "a%b")
		}
		fold := true
		if chance(g, 1, 6) { // like another one
			var o []string
			for _, t := range s.T {
				o = append(o, t.Name)
			}
			if base != nil {
				for _, t := range base.T {
					o = append(o, t.Name)
				}
			}
			if len(o) > 0 {
				n = similar(g, pick(g, o), s.D == minidb.PG)
				fold = s.D != minidb.PG
			}
		}
		if strings.Contains(n, ".") && s.D != minidb.MySQL {
			continue // schema-qualified names are split at the first dot
		}
		if s.D == minidb.MSSQL && (strings.ContainsAny(n, `"]`) || n != strings.ToLower(n) && false) {
			continue
		}
		if s.D == minidb.PG && strings.ContainsAny(n, "\"`") {
			continue
		}
		if !s.used(n, fold) && (base == nil || !base.used(n, fold)) {
			return n
		}
	}
}

// similar makes a name that is easily taken for another one.
func similar(g *rand.Rand, n string, cases bool) string {
	r := []rune(n)
	switch g.Intn(4) {
	case 0:
		return n + pickN(g, "s", "2", "_x")
	case 1:
		if o := string(r[:max(len(r)-1, 0)]); len(r) > 2 && strings.TrimSpace(o) == o && !inList(sqlWords, strings.ToLower(o)) {
			return o
		}
	case 2:
		return pickN(g, "a", "my_", "t") + n
	case 3:
		if cases {
			if n == strings.ToLower(n) {
				return strings.ToUpper(string(r[:1])) + string(r[1:])
			}
			return strings.ToLower(n)
		}
	}
	return n + "_2"
}

// freeIn tells whether a name of another schema can be used in this one as well.
func (s *aSchema) freeIn(schema, n string, base *aSchema) bool {
	for _, x := range []*aSchema{s, base} {
		if x == nil {
			continue
		}
		if x.gone[strings.ToLower(n)] {
			return false
		}
		for _, t := range x.T {
			if t.Schema == schema && strings.EqualFold(t.Name, n) {
				return false
			}
		}
		for _, v := range x.V {
			if v.Schema == schema && strings.EqualFold(v.Name, n) {
				return false
			}
		}
	}
	return true
}

func (s *aSchema) nameUsed(n string) bool { return s.used(n, true) }

func (s *aSchema) used(n string, fold bool) bool {
	if s.gone[strings.ToLower(n)] {
		return true
	}
	eq := func(o string) bool { return o == n || fold && strings.EqualFold(o, n) }
	for _, t := range s.T {
		if eq(t.Name) {
			return true
		}
		for _, x := range t.Idx {
			if s.D != minidb.MySQL && eq(x.Name) {
				return true
			}
		}
	}
	for _, v := range s.V {
		if strings.EqualFold(v.Name, n) {
			return true
		}
	}
	for _, v := range s.G {
		if strings.EqualFold(v.Name, n) {
			return true
		}
	}
	return false
}

func (s *aSchema) newColName(g *rand.Rand, t *aTable, bt *aTable) string {
	for {
		n := pick(g, aColNames)
		if chance(g, 1, 4) {
			n = fmt.Sprintf("%s_%d", pick(g, []string{"col", "f", "z"}), s.uid())
		}
		fold := true
		if t != nil && len(t.Cols) > 0 && chance(g, 1, 8) {
			n = similar(g, t.Cols[g.Intn(len(t.Cols))].Name, s.D == minidb.PG)
			fold = s.D != minidb.PG
		}
		if s.D == minidb.PG && strings.Contains(n, "'") {
			continue
		}
		dup := false
		chk := func(u *aTable) {
			if u == nil {
				return
			}
			for _, c := range u.Cols {
				dup = dup || c.Name == n || fold && strings.EqualFold(c.Name, n)
			}
			dup = dup || u.goneCols[strings.ToLower(n)]
		}
		chk(t)
		chk(bt)
		if !dup {
			return n
		}
	}
}

// typeDef is one type with what may follow it.
type typeDef struct {
	T     string
	Class string   // int dec float str text bin time date bool bit json enum other
	Def   []string // defaults as written
	Key   bool     // may be indexed without a length
}

func (s *aSchema) types() []typeDef {
	switch s.D {
	case minidb.MySQL:
		return myTypes
	case minidb.PG:
		return pgTypes
	}
	return msTypes
}

func (s *aSchema) typeOf(c *aCol) *typeDef {
	for i := range s.types() {
		if s.types()[i].T == c.Type {
			return &s.types()[i]
		}
	}
	return &typeDef{T: c.Type, Class: "other"}
}

func (s *aSchema) pickType(g *rand.Rand) *typeDef { return &s.types()[g.Intn(len(s.types()))] }

func (s *aSchema) newCol(g *rand.Rand, t, bt *aTable) *aCol {
	c := &aCol{ID: s.uid(), Name: s.newColName(g, t, bt)}
	ty := s.pickType(g)
	c.Type = ty.T
	if chance(g, 1, 3) {
		c.NotNull = true
	} else if chance(g, 1, 6) {
		c.Null = true
	}
	if len(ty.Def) > 0 && chance(g, 1, 2) {
		s.setDefault(g, t, c, ty)
	}
	switch s.D {
	case minidb.MySQL:
		s.myColExtra(g, t, c, ty)
	case minidb.PG:
		s.pgColExtra(g, t, c, ty)
	case minidb.MSSQL:
		s.msColExtra(g, t, c, ty)
	}
	return c
}

func (s *aSchema) setDefault(g *rand.Rand, t *aTable, c *aCol, ty *typeDef) {
	c.Default = pick(g, ty.Def)
	if s.D == minidb.MSSQL {
		c.DefName = ""
		if chance(g, 1, 2) {
			c.DefName = fmt.Sprintf("df_%d", s.uid())
		}
	}
}

func (s *aSchema) newIdxName(g *rand.Rand) string {
	n := fmt.Sprintf("%s_%d", pick(g, []string{"idx", "ix_users", "key", "by"}), s.uid())
	if chance(g, 1, 12) && s.D != minidb.PG {
		n = fmt.Sprintf("my idx %d", s.uid())
	}
	return n
}

// idxNameFor is a name for an index of the table: it may be that of another table's index.
func (s *aSchema) idxNameFor(g *rand.Rand, t *aTable) string {
	if chance(g, 1, 4) {
		var o []string
		for _, u := range s.T {
			for _, x := range u.Idx {
				if x.Name == "" {
					continue
				}
				if s.D == minidb.PG {
					o = append(o, similar(g, x.Name, true))
				} else if u != t {
					o = append(o, x.Name, x.Name)
				} else {
					o = append(o, similar(g, x.Name, false))
				}
			}
		}
		if len(o) > 0 {
			if n := pick(g, o); !s.idxNameTaken(t, n) && !s.taken[s.idxKey(t, n)] {
				return n
			}
		}
	}
	return s.newIdxName(g)
}

func (s *aSchema) idxKey(t *aTable, n string) string {
	if s.D == minidb.PG {
		return n
	}
	return t.key() + "." + strings.ToLower(n)
}

func (s *aSchema) idxNameTaken(t *aTable, n string) bool {
	if s.D == minidb.PG {
		return s.used(n, false)
	}
	for _, x := range t.Idx {
		if strings.EqualFold(x.Name, n) {
			return true
		}
	}
	return false
}

// keyable columns
func (s *aSchema) keyCols(t *aTable) []*aCol {
	var o []*aCol
	for _, c := range t.Cols {
		if s.typeOf(c).Key {
			o = append(o, c)
		}
	}
	return o
}

func (s *aSchema) newIdx(g *rand.Rand, t *aTable) *aIdx {
	ks := s.keyCols(t)
	if len(ks) == 0 {
		return nil
	}
	x := &aIdx{Name: s.idxNameFor(g, t), Form: g.Intn(3)}
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	n := 1
	if chance(g, 1, 3) {
		n = 2
	}
	if chance(g, 1, 8) {
		n = 3
	}
	if s.D != minidb.MySQL && chance(g, 1, 12) {
		n = 6
	}
	for i := 0; i < n && i < len(ks); i++ {
		x.Cols = append(x.Cols, ks[i].Name)
		x.Len = append(x.Len, "")
		x.Desc = append(x.Desc, false)
	}
	x.Unique = chance(g, 1, 3)
	if c := t.col(x.Cols[0]); len(x.Cols) == 1 && s.D != minidb.MSSQL && c.Unique {
		x.Unique = false // taken for the index of the column option
	}
	switch s.D {
	case minidb.MySQL:
		s.myIdxExtra(g, t, x)
	case minidb.PG:
		s.pgIdxExtra(g, t, x)
	case minidb.MSSQL:
		s.msIdxExtra(g, t, x)
	}
	return x
}

func (s *aSchema) addTable(g *rand.Rand, base *aSchema) *aTable {
	t := &aTable{goneCols: map[string]bool{}}
	t.Name = s.newTableName(g, base)
	switch s.D {
	case minidb.PG:
		t.Schema = "public"
	case minidb.MSSQL:
		t.Schema = "dbo"
	}
	if s.D != minidb.MySQL && chance(g, 1, 6) {
		t.Schema = pickN(g, "app", "app", "s2")
		for _, o := range s.T { // two of the same name
			if o.Schema != t.Schema && chance(g, 1, 3) && s.freeIn(t.Schema, o.Name, base) {
				t.Name = o.Name
				break
			}
		}
	}
	s.T = append(s.T, t)
	if chance(g, 2, 3) {
		id := &aCol{ID: s.uid(), Name: "id", NotNull: true}
		switch s.D {
		case minidb.MySQL:
			id.Type = pickN(g, "bigint(20)", "int(11)", "int(10) unsigned", "bigint(20) unsigned")
			id.AutoInc = chance(g, 1, 2)
		case minidb.PG:
			id.Type = pickN(g, "bigint", "integer")
			if chance(g, 1, 4) {
				id.Type = pickN(g, "serial", "bigserial")
				id.NotNull = chance(g, 1, 2)
			} else if chance(g, 1, 4) {
				id.Identity = pickN(g, "ALWAYS", "BY DEFAULT")
				id.NotNull = chance(g, 1, 2)
			}
		case minidb.MSSQL:
			id.Type = pickN(g, "bigint", "int")
			if chance(g, 1, 3) {
				id.Identity = pickN(g, "1,1", "10,5")
			}
		}
		t.Cols = append(t.Cols, id)
		switch g.Intn(3) {
		case 0:
			id.PK = true
			if s.D == minidb.MySQL {
				id.NotNull = chance(g, 1, 2)
			}
		default:
			t.PK = []string{"id"}
		}
	}
	n := 1 + g.Intn(5)
	if chance(g, 1, 12) { // a wide one
		n += 5 + g.Intn(12)
	}
	for ; n > 0; n-- {
		t.Cols = append(t.Cols, s.newCol(g, t, nil))
	}
	if !s.hasPK(t) && chance(g, 1, 3) {
		s.setPK(g, t)
	}
	if s.D == minidb.MSSQL && len(t.PK) > 0 {
		if !chance(g, 1, 3) {
			t.PKName = fmt.Sprintf("pk_%d", s.uid())
			t.PKClustered = g.Intn(3)
		}
	}
	for n := g.Intn(3); n > 0; n-- {
		if x := s.newIdx(g, t); x != nil {
			t.Idx = append(t.Idx, x)
		}
	}
	if s.D != minidb.MySQL {
		s.tableRefs(g, t)
	}
	if s.D == minidb.MySQL {
		t.Tail = pickN(g, "", "", " ENGINE=InnoDB", " ENGINE=InnoDB DEFAULT CHARSET=utf8mb4", " DEFAULT CHARSET=latin1", " ENGINE=InnoDB DEFAULT CHARSET=utf8")
	}
	return t
}

func (s *aSchema) hasPK(t *aTable) bool {
	if len(t.PK) > 0 {
		return true
	}
	for _, c := range t.Cols {
		if c.PK {
			return true
		}
	}
	return false
}

func (s *aSchema) setPK(g *rand.Rand, t *aTable) bool {
	ks := s.keyCols(t)
	if len(ks) == 0 {
		return false
	}
	g.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	n := 1
	if len(ks) > 1 && chance(g, 1, 3) {
		n = 2
		if len(ks) > 2 && chance(g, 1, 2) {
			n = 3
			if len(ks) > 3 && s.D != minidb.MySQL && chance(g, 1, 2) {
				n = 4
			}
		}
	}
	t.PK = nil
	for _, c := range ks[:n] {
		if c.Default == "NULL" {
			c.Default = ""
		}
		c.NotNull, c.Null = true, false
		t.PK = append(t.PK, c.Name)
	}
	return true
}

func inList(l []string, n string) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func (t *aTable) indexUses(n string) bool {
	for _, x := range t.Idx {
		if inList(x.Cols, n) || inList(x.Incl, n) || x.Where != "" && strings.Contains(x.Where, n) {
			return true
		}
	}
	return inList(t.PK, n)
}

// editFrom changes s; base is the schema the migration starts from (nil: none).
func (s *aSchema) editFrom(g *rand.Rand, op string, base *aSchema) bool {
	if len(s.T) == 0 && op != "add table" {
		return false
	}
	var t, bt *aTable
	if len(s.T) > 0 {
		t = s.T[g.Intn(len(s.T))]
		if base != nil {
			bt = base.table(t.key())
		}
	}
	anyUse := func(n string) bool { // foreign keys of either schema
		if s.fkUse(t)[n] {
			return true
		}
		return bt != nil && base.fkUse(bt)[n]
	}
	viewUse := func(n string) bool {
		k := t.key() + "." + n
		return s.viewUse(k) || base != nil && base.viewUse(k)
	}
	randCol := func() *aCol { return t.Cols[g.Intn(len(t.Cols))] }
	isBase := func(c *aCol) bool { return bt != nil && bt.col(c.Name) != nil }
	switch op {
	case "add table":
		if len(s.T) > 6 {
			return false
		}
		s.addTable(g, base)
		return true
	case "drop table":
		if len(s.T) < 2 {
			return false
		}
		refd := func(x *aSchema, t *aTable) bool {
			if x == nil || t == nil {
				return false
			}
			for _, o := range x.T {
				for _, f := range o.FKs {
					if f.Ref == t && o != t {
						return true
					}
				}
				for _, c := range o.Cols {
					if c.Refs == t.Name && o != t {
						return true
					}
				}
			}
			return false
		}
		if refd(s, t) || refd(base, bt) || s.viewUse(t.key()) || base != nil && base.viewUse(t.key()) {
			return false
		}
		var keep []*aTrig
		for _, tr := range s.G {
			if tr.T == t {
				s.gone[strings.ToLower(tr.Name)] = true
			} else {
				keep = append(keep, tr)
			}
		}
		s.G = keep
		for i := range s.T {
			if s.T[i] == t {
				s.T = append(s.T[:i:i], s.T[i+1:]...)
				break
			}
		}
		s.gone[strings.ToLower(t.Name)] = true
		return true
	case "add column":
		c := s.newCol(g, t, bt)
		if s.D != minidb.MySQL && bt != nil && c.NotNull && c.Default == "" && c.Identity == "" && !strings.Contains(c.Type, "serial") {
			c.NotNull = false // cannot be added to a table with rows
		}
		i := len(t.Cols)
		if s.D == minidb.MySQL || bt == nil {
			i = g.Intn(len(t.Cols) + 1)
		}
		if s.D != minidb.MySQL && chance(g, 1, 4) {
			s.colRefs(g, t, c)
		}
		t.Cols = append(t.Cols[:i:i], append([]*aCol{c}, t.Cols[i:]...)...)
		return true
	case "drop column":
		c := randCol()
		if len(t.Cols) < 2 || anyUse(c.Name) || viewUse(c.Name) || c.PK || inList(t.PK, c.Name) || t.indexUses(c.Name) {
			return false
		}
		if bt != nil {
			k := 0
			for _, o := range t.Cols {
				if o != c && isBase(o) {
					k++
				}
			}
			if k == 0 {
				return false
			}
			if bc := bt.col(c.Name); bc != nil && !s.dropOK(bt, bc) {
				return false
			}
		}
		for i := range t.Cols {
			if t.Cols[i] == c {
				t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
				break
			}
		}
		t.goneCols[strings.ToLower(c.Name)] = true
		return true
	case "type":
		c := randCol()
		ty := s.pickType(g)
		for k := 0; k < 20 && (ty.T == c.Type || isBase(c) && !s.typeChangeOK(bt.col(c.Name), ty)); k++ {
			ty = s.pickType(g)
		}
		if anyUse(c.Name) || viewUse(c.Name) || c.PK || inList(t.PK, c.Name) || t.indexUses(c.Name) && !ty.Key || c.Identity != "" || c.AutoInc || c.Check != "" || ty.T == c.Type {
			return false
		}
		if isBase(c) {
			bc := bt.col(c.Name)
			if bt.indexUses(c.Name) && !ty.Key || bc.AutoInc || bc.Identity != "" || bc.PK || bc.Check != "" {
				return false
			}
			if !s.typeChangeOK(bc, ty) {
				return false
			}
		}
		for _, x := range t.Idx {
			for i := range x.Len {
				if x.Len[i] != "" && x.Cols[i] == c.Name {
					return false
				}
			}
		}
		old := *c
		c.Type = ty.T
		c.Charset, c.Collate, c.OnUpdate = "", "", ""
		if s.D == minidb.MSSQL || s.D == minidb.PG {
			if old.Default != "" && (s.D != minidb.PG || s.typeOf(&old).Class != "int" || ty.Class != "int") {
				return false
			}
		} else {
			c.Default = ""
			if len(ty.Def) > 0 && chance(g, 1, 2) {
				s.setDefault(g, t, c, ty)
			}
		}
		if c.Unique && !ty.Key {
			return false
		}
		if s.D == minidb.MySQL {
			s.myTimestamp(g, c)
		}
		return true
	case "null":
		c := randCol()
		if s.D == minidb.MSSQL || c.PK || inList(t.PK, c.Name) || anyUse(c.Name) || c.Identity != "" || c.AutoInc || strings.Contains(c.Type, "serial") {
			return false
		}
		if isBase(c) {
			bc := bt.col(c.Name)
			if bc.PK || inList(bt.PK, c.Name) || bc.AutoInc || bc.Identity != "" {
				return false
			}
		}
		if strings.HasPrefix(c.Type, "timestamp") && s.D == minidb.MySQL {
			return false
		}
		c.NotNull = !c.NotNull
		c.Null = false
		if c.Default == "NULL" {
			c.Default = ""
		}
		return true
	case "default":
		c := randCol()
		ty := s.typeOf(c)
		if len(ty.Def) == 0 || c.Identity != "" || c.AutoInc || strings.Contains(c.Type, "serial") || isBase(c) && bt.col(c.Name).Identity != "" {
			return false
		}
		if c.OnUpdate != "" {
			return false
		}
		if c.Default != "" && chance(g, 1, 3) && !(s.D == minidb.MySQL && strings.HasPrefix(c.Type, "timestamp")) {
			c.Default, c.DefName = "", ""
			return true
		}
		s.setDefault(g, t, c, ty)
		if (c.NotNull || c.PK || inList(t.PK, c.Name)) && c.Default == "NULL" {
			c.Default, c.DefName = "", ""
		}
		return true
	case "pk":
		return s.editPK(g, t, bt, anyUse, base)
	case "replace key":
		return s.replaceKey(g, t, bt, anyUse, viewUse)
	case "add index":
		x := s.newIdx(g, t)
		if x == nil || len(t.Idx) > 3 {
			return false
		}
		t.Idx = append(t.Idx, x)
		return true
	case "drop index", "change index":
		if len(t.Idx) == 0 {
			return false
		}
		i := g.Intn(len(t.Idx))
		x := t.Idx[i]
		for _, c := range x.Cols {
			if anyUse(c) {
				return false
			}
		}
		if op == "drop index" {
			t.Idx = append(t.Idx[:i:i], t.Idx[i+1:]...)
			return true
		}
		return s.changeIdx(g, t, x, bt)
	case "unique":
		if s.D != minidb.MySQL {
			return false
		}
		c := randCol()
		if c.PK || inList(t.PK, c.Name) || anyUse(c.Name) || !s.typeOf(c).Key || t.indexUses(c.Name) || bt != nil && bt.indexUses(c.Name) {
			return false
		}
		c.Unique = !c.Unique
		return true
	case "add fk":
		return s.addFK(g, t, base)
	case "drop fk", "change fk":
		if len(t.FKs) == 0 || s.D != minidb.MySQL && chance(g, 1, 3) {
			for _, c := range t.Cols {
				if c.Refs != "" {
					c.Refs = ""
					return true
				}
			}
			if len(t.FKs) == 0 {
				return false
			}
		}
		i := g.Intn(len(t.FKs))
		if op == "drop fk" {
			t.FKs = append(t.FKs[:i:i], t.FKs[i+1:]...)
			return true
		}
		f := t.FKs[i]
		d, u, r := f.OnDelete, f.OnUpdate, f.NotRepl
		if r || s.D == minidb.MSSQL && chance(g, 1, 4) {
			f.NotRepl = !r
			return true
		}
		s.fkActions(g, t, f)
		return d != f.OnDelete || u != f.OnUpdate || r != f.NotRepl
	case "add view":
		if len(s.V) > 3 {
			return false
		}
		return s.addView(g, base)
	case "drop view":
		if len(s.V) == 0 {
			return false
		}
		i := g.Intn(len(s.V))
		if s.viewUse(s.V[i].key()) {
			return false
		}
		s.gone[strings.ToLower(s.V[i].Name)] = true
		s.V = append(s.V[:i:i], s.V[i+1:]...)
		return true
	case "change view":
		if len(s.V) == 0 {
			return false
		}
		return s.changeView(g, s.V[g.Intn(len(s.V))], base)
	}
	switch s.D {
	case minidb.MySQL:
		return s.myEdit(g, op, t, bt, base, anyUse, viewUse)
	case minidb.PG:
		return s.pgEdit(g, op, t, bt, base, anyUse, viewUse)
	}
	return s.msEdit(g, op, t, bt, base, anyUse, viewUse)
}

// replaceKey removes the column of the primary key; another one may take its place.
func (s *aSchema) replaceKey(g *rand.Rand, t, bt *aTable, anyUse, viewUse func(string) bool) bool {
	var key *aCol
	for _, c := range t.Cols {
		if c.PK || len(t.PK) == 1 && t.PK[0] == c.Name {
			key = c
		}
	}
	if key == nil || len(t.PK) > 1 || len(t.Cols) < 2 || anyUse(key.Name) || viewUse(key.Name) {
		return false
	}
	uses := func(u *aTable) bool {
		for _, x := range u.Idx {
			if inList(x.Cols, key.Name) || inList(x.Incl, key.Name) || x.Where != "" && strings.Contains(x.Where, key.Name) {
				return true
			}
		}
		return len(u.PK) > 1 && inList(u.PK, key.Name)
	}
	if uses(t) || bt != nil && uses(bt) {
		return false
	}
	if bt != nil {
		k := 0
		for _, o := range t.Cols {
			if o != key && bt.col(o.Name) != nil {
				k++
			}
		}
		if k == 0 {
			return false
		}
		if bc := bt.col(key.Name); bc != nil && !s.dropOK(bt, bc) {
			return false
		}
	}
	for i := range t.Cols {
		if t.Cols[i] == key {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			break
		}
	}
	t.goneCols[strings.ToLower(key.Name)] = true
	t.PK, t.PKName, t.PKOpts, t.PKClustered = nil, "", "", 0
	if chance(g, 1, 3) {
		return true
	}
	if s.D == minidb.MSSQL {
		s.msEditPK(g, t, bt, nil, anyUse)
		return true
	}
	s.setPK(g, t)
	return true
}

func (s *aSchema) fkActions(g *rand.Rand, t *aTable, f *aFK) {
	acts := []string{"", "", "CASCADE", "SET NULL"}
	if s.D != minidb.MySQL {
		acts = append(acts, "NO ACTION")
	}
	if s.D == minidb.PG {
		acts = append(acts, "RESTRICT")
	}
	if s.D == minidb.MySQL && chance(g, 1, 3) {
		acts = append(acts, "RESTRICT", "RESTRICT")
	}
	f.OnDelete, f.OnUpdate = pick(g, acts), pick(g, acts)
	f.NotRepl = s.D == minidb.MSSQL && chance(g, 1, 3)
	for _, n := range f.Cols {
		if c := t.col(n); c != nil && (c.NotNull || c.PK || inList(t.PK, n)) {
			if f.OnDelete == "SET NULL" {
				f.OnDelete = "CASCADE"
			}
			if f.OnUpdate == "SET NULL" {
				f.OnUpdate = "CASCADE"
			}
		}
	}
}
