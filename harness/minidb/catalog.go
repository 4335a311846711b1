package minidb

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// CatTable is one relation of the system catalog. Names may be qualified.
type CatTable struct {
	Name string
	Cols string // comma separated
	Rows [][]interface{}
}

// Catalog is the system catalog of a database together with the results of the
// catalog functions.
type Catalog struct {
	Tables []*CatTable
	// Objects by name and the other way round (SQL Server), constraint
	// definitions and formatted types (PostgreSQL).
	IDs    map[string]int    // schema.name -> object id
	Names  map[int]string    // object id -> name
	Defs   map[int]string    // object id -> definition
	Cols   map[string]string // objectid/columnid -> column name
	Types  map[int]string    // type id -> formatted
	Schema map[int]string    // schema id -> name
}

func (c *Catalog) table(name, cols string) *CatTable {
	t := &CatTable{Name: name, Cols: cols}
	c.Tables = append(c.Tables, t)
	return t
}
func (t *CatTable) add(v ...interface{}) {
	if len(v) != strings.Count(t.Cols, ",")+1 {
		panic(fmt.Sprintf("catalog %s: %d values for (%s)", t.Name, len(v), t.Cols))
	}
	t.Rows = append(t.Rows, v)
}

// Catalog builds the system catalog.
func (db *DB) Catalog() *Catalog {
	c := &Catalog{IDs: map[string]int{}, Names: map[int]string{}, Defs: map[int]string{}, Cols: map[string]string{}, Types: map[int]string{}, Schema: map[int]string{}}
	switch db.D {
	case MySQL:
		db.myCatalog(c)
	case PG:
		db.pgCatalog(c)
	case MSSQL:
		db.msCatalog(c)
	}
	return c
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func yesno(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func (db *DB) myCatalog(c *Catalog) {
	v := c.table("information_schema.VIEWS", "TABLE_CATALOG,TABLE_SCHEMA,TABLE_NAME,VIEW_DEFINITION,CHECK_OPTION,IS_UPDATABLE,DEFINER,SECURITY_TYPE,CHARACTER_SET_CLIENT,COLLATION_CONNECTION")
	t := c.table("information_schema.TABLES", "TABLE_CATALOG,TABLE_SCHEMA,TABLE_NAME,TABLE_TYPE")
	// another database of the same server has views of the same names
	for _, x := range db.Views {
		v.add("def", "another", x.Name, "select 1 AS `other`", "NONE", "NO", "root@localhost", "DEFINER", "utf8mb4", "utf8mb4_general_ci")
	}
	for _, x := range db.Views {
		v.add("def", db.Name, x.Name, db.ViewDefinition(x), "NONE", "YES", "root@localhost", "DEFINER", "utf8mb4", "utf8mb4_general_ci")
		t.add("def", db.Name, x.Name, "VIEW")
	}
	for _, x := range db.Tables {
		t.add("def", db.Name, x.Name, "BASE TABLE")
		t.add("def", "another", x.Name, "BASE TABLE")
	}
	g := c.table("information_schema.TRIGGERS", "TRIGGER_SCHEMA,TRIGGER_NAME,EVENT_MANIPULATION,EVENT_OBJECT_TABLE,ACTION_STATEMENT,ACTION_TIMING")
	for _, x := range db.Triggers {
		g.add(db.Name, x.Name, strings.ToUpper(x.Event), x.Table, x.Raw, strings.ToUpper(x.Time))
	}
}

// ---- PostgreSQL ----

func (t ColType) pgDataType() (string, interface{}) {
	if t.Array {
		return "ARRAY", nil
	}
	switch t.Name {
	case "citext", "hstore", "geometry":
		return "USER-DEFINED", nil
	case "character varying", "character", "bit", "bit varying":
		if len(t.Args) > 0 {
			return t.Name, t.Args[0]
		}
		if t.Name == "character" || t.Name == "bit" {
			return t.Name, "1"
		}
		return t.Name, nil
	}
	return t.Name, nil
}

func (db *DB) pgDefault(t *Table, c *Column) interface{} {
	if c.Type.Serial != "" {
		return "nextval(" + quoteStr(pgIdent(t.Name+"_"+c.Name+"_seq")) + "::regclass)"
	}
	v := c.Default
	if v == nil || v.Kind == "null" {
		return nil
	}
	ty := c.Type.Name
	if c.Type.Array {
		ty += "[]"
	}
	cast := map[string]string{"character": "bpchar"}[ty]
	if cast == "" {
		cast = ty
	}
	switch v.Kind {
	case "fn":
		if strings.HasSuffix(v.S, "()") {
			return v.S
		}
		return strings.ToUpper(v.S)
	case "bool":
		return v.S
	case "num", "str":
		cl := c.Type.class()
		if cl == "bool" {
			return strings.TrimPrefix(v.canon(c.Type), "bool:")
		}
		if cl == "int" {
			n := normInt(v.S)
			if strings.HasPrefix(n, "-") {
				return quoteStr(n) + "::integer"
			}
			return n
		}
		if cl == "dec" || cl == "float" {
			if v.Kind == "str" {
				return quoteStr(v.S) + "::" + cast
			}
			if strings.HasPrefix(v.S, "-") {
				return quoteStr(v.S) + "::numeric"
			}
			return v.S
		}
		return quoteStr(v.S) + "::" + cast
	}
	return quoteStr(v.S) + "::" + cast
}

func (db *DB) pgConstraintDef(ck *Check) string {
	s := "CHECK (" + ck.E.print(stPGPretty, true) + ")"
	if ck.NoInherit {
		s += " NO INHERIT"
	}
	return s
}

func (db *DB) pgIndexDef(t *Table, x *Index) string {
	s := "CREATE "
	if x.Unique || x.Primary || x.ForConstr != "" {
		s += "UNIQUE "
	}
	m := x.Method
	if m == "" {
		m = "btree"
	}
	s += "INDEX " + pgIdent(x.Name) + " ON " + pgIdent(t.Schema) + "." + pgIdent(t.Name) + " USING " + m + " ("
	for i, k := range x.Cols {
		if i > 0 {
			s += ", "
		}
		s += pgIdent(k.Name)
		if k.Desc {
			s += " DESC"
		}
	}
	s += ")"
	if x.Where != nil {
		s += " WHERE " + x.Where.print(stPGFull, false)
	}
	return s
}

func (db *DB) pgCatalog(c *Catalog) {
	tabs := c.table("information_schema.tables", "table_catalog,table_schema,table_name,table_type")
	views := c.table("pg_catalog.pg_views", "schemaname,viewname,viewowner,definition")
	tables := c.table("pg_catalog.pg_tables", "schemaname,tablename,tableowner")
	class := c.table("pg_catalog.pg_class", "oid,relname,relkind,relnamespace")
	attr := c.table("pg_catalog.pg_attribute", "attrelid,attname,atttypid,atttypmod,attnum,attnotnull,attisdropped")
	typ := c.table("pg_catalog.pg_type", "oid,typname")
	attrdef := c.table("pg_catalog.pg_attrdef", "oid,adrelid,adnum")
	nsp := c.table("pg_catalog.pg_namespace", "oid,nspname")
	con := c.table("pg_catalog.pg_constraint", "oid,conname,conrelid,contype,conkey,connamespace,confrelid,confkey,confupdtype,confdeltype")
	cols := c.table("information_schema.columns", "table_schema,table_name,column_name,ordinal_position,column_default,is_nullable,data_type,character_maximum_length,is_identity,identity_generation,udt_name")
	idx := c.table("pg_catalog.pg_indexes", "schemaname,tablename,indexname,tablespace,indexdef")
	tc := c.table("information_schema.table_constraints", "constraint_catalog,constraint_schema,constraint_name,table_schema,table_name,constraint_type")
	kcu := c.table("information_schema.key_column_usage", "constraint_schema,constraint_name,table_schema,table_name,column_name,ordinal_position,position_in_unique_constraint")
	ccu := c.table("information_schema.constraint_column_usage", "table_schema,table_name,column_name,constraint_schema,constraint_name")
	rc := c.table("information_schema.referential_constraints", "constraint_schema,constraint_name,unique_constraint_schema,unique_constraint_name,update_rule,delete_rule")
	pol := c.table("pg_catalog.pg_policies", "schemaname,tablename,policyname,permissive,roles,cmd,qual,with_check")

	ns := map[string]int{}
	nsID := func(s string) int {
		if ns[s] == 0 {
			ns[s] = 2200 + len(ns)
			nsp.add(ns[s], s)
		}
		return ns[s]
	}
	nsID("public")
	nsID("pg_catalog")
	nsID("information_schema")
	types := map[string]int{}
	typeID := func(t ColType) int {
		s := t.String()
		if types[s] == 0 {
			types[s] = 20000 + len(types)
			typ.add(types[s], t.Name)
			c.Types[types[s]] = s
		}
		return types[s]
	}
	oid := 30000
	next := func() int { oid++; return oid }
	// relations of the system itself and of an extension
	tabs.add(db.Name, "pg_catalog", "pg_class", "BASE TABLE")
	tabs.add(db.Name, "information_schema", "sql_features", "BASE TABLE")
	tabs.add(db.Name, "pg_catalog", "pg_views", "VIEW")
	views.add("pg_catalog", "pg_views", "postgres", " SELECT n.nspname AS schemaname\n   FROM pg_namespace n;")
	tabs.add(db.Name, "public", "pg_buffercache", "VIEW")
	views.add("public", "pg_buffercache", "postgres", " SELECT p.bufferid\n   FROM pg_buffercache_pages() p;")
	for _, t := range db.Tables {
		rel := t.ID
		tabs.add(db.Name, t.Schema, t.Name, "BASE TABLE")
		tables.add(t.Schema, t.Name, "postgres")
		class.add(rel, t.Name, "r", nsID(t.Schema))
		attr.add(rel, "ctid", typeID(ColType{Name: "tid"}), -1, -1, 1, 0)
		num := map[string]int{}
		for i, k := range t.Cols {
			num[k.Name] = i + 1
			nn := k.NotNull || k.Identity != nil || k.Type.Serial != ""
			if t.PK != nil {
				for _, p := range t.PK.Cols {
					nn = nn || p.Name == k.Name
				}
			}
			attr.add(rel, k.Name, typeID(k.Type), -1, i+1, b2i(nn), 0)
			dt, ml := k.Type.pgDataType()
			def := db.pgDefault(t, k)
			if def != nil {
				attrdef.add(next(), rel, i+1)
			}
			var ig interface{}
			if k.Identity != nil {
				ig = strings.ToUpper(k.Identity.Behavior)
			}
			cols.add(t.Schema, t.Name, k.Name, i+1, def, yesno(!nn), dt, ml, yesno(k.Identity != nil), ig, k.Type.Name)
		}
		// what a dropped column leaves behind
		attr.add(rel, "........pg.dropped.99........", 0, -1, len(t.Cols)+1, 0, 1)
		key := func(ic []IdxCol) string {
			var o []string
			for _, k := range ic {
				o = append(o, strconv.Itoa(num[k.Name]))
			}
			return "{" + strings.Join(o, ",") + "}"
		}
		uniq := func(x *Index, kind, ct string) {
			con.add(next(), x.Name, rel, ct, key(x.Cols), nsID(t.Schema), 0, nil, " ", " ")
			tc.add(db.Name, t.Schema, x.Name, t.Schema, t.Name, kind)
			for i, k := range x.Cols {
				kcu.add(t.Schema, x.Name, t.Schema, t.Name, k.Name, i+1, nil)
				ccu.add(t.Schema, t.Name, k.Name, t.Schema, x.Name)
			}
		}
		if t.PK != nil {
			uniq(t.PK, "PRIMARY KEY", "p")
			idx.add(t.Schema, t.Name, t.PK.Name, nil, db.pgIndexDef(t, t.PK))
		}
		for _, x := range t.Idx {
			if x.ForConstr != "" {
				uniq(x, "UNIQUE", "u")
			}
			idx.add(t.Schema, t.Name, x.Name, nil, db.pgIndexDef(t, x))
		}
		for _, ck := range t.Checks {
			o := next()
			ks := map[string]bool{}
			ck.E.walk(func(e *Expr) {
				if e.Op == "col" {
					ks[e.Name[len(e.Name)-1]] = true
				}
			})
			var nums []string
			for _, k := range t.Cols {
				if ks[k.Name] {
					nums = append(nums, strconv.Itoa(num[k.Name]))
					ccu.add(t.Schema, t.Name, k.Name, t.Schema, ck.Name)
				}
			}
			con.add(o, ck.Name, rel, "c", "{"+strings.Join(nums, ",")+"}", nsID(t.Schema), 0, nil, " ", " ")
			tc.add(db.Name, t.Schema, ck.Name, t.Schema, t.Name, "CHECK")
			c.Defs[o] = db.pgConstraintDef(ck)
		}
		for _, f := range t.FKs {
			rt := db.Table(f.RefTable)
			var nums []string
			for _, k := range f.Cols {
				nums = append(nums, strconv.Itoa(num[k]))
			}
			var rnums []string
			pos := map[string]int{}
			for _, k := range f.RefCols {
				for i, rk := range rt.Cols {
					if rk.Name == k {
						rnums = append(rnums, strconv.Itoa(i+1))
					}
				}
			}
			var uname interface{}
			for _, x := range append([]*Index{rt.PK}, rt.Idx...) {
				if x == nil || x != rt.PK && !x.Unique || len(x.Cols) != len(f.RefCols) || uname != nil {
					continue
				}
				p := map[string]int{}
				for i, k := range x.Cols {
					p[k.Name] = i + 1
				}
				ok := true
				for _, k := range f.RefCols {
					ok = ok && p[k] > 0
				}
				if ok {
					pos = p
					if x == rt.PK || x.ForConstr != "" {
						uname = x.Name
					}
				}
			}
			act := func(a string) string {
				return map[string]string{"NO ACTION": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}[a]
			}
			con.add(next(), f.Name, rel, "f", "{"+strings.Join(nums, ",")+"}", nsID(t.Schema), rt.ID, "{"+strings.Join(rnums, ",")+"}", act(db.fkAct(f.OnUpdate)), act(db.fkAct(f.OnDelete)))
			tc.add(db.Name, t.Schema, f.Name, t.Schema, t.Name, "FOREIGN KEY")
			for i, k := range f.Cols {
				kcu.add(t.Schema, f.Name, t.Schema, t.Name, k, i+1, pos[f.RefCols[i]])
				ccu.add(rt.Schema, rt.Name, f.RefCols[i], t.Schema, f.Name)
			}
			rc.add(t.Schema, f.Name, rt.Schema, uname, db.fkAct(f.OnUpdate), db.fkAct(f.OnDelete))
		}
		for _, p := range t.Policies {
			roles := append([]string(nil), p.Roles...)
			var q, w interface{}
			if p.Using != nil {
				q = p.Using.print(stPGFull, false)
				if !strings.HasPrefix(q.(string), "(") && p.Using.Op != "true" && p.Using.Op != "false" {
					q = "(" + q.(string) + ")"
				}
			}
			if p.WithCheck != nil {
				w = p.WithCheck.print(stPGFull, false)
			}
			pol.add(t.Schema, t.Name, p.Name, strings.ToUpper(p.Permissive), "{"+strings.Join(roles, ",")+"}", strings.ToUpper(p.Cmd), q, w)
		}
	}
	for _, v := range db.Views {
		tabs.add(db.Name, v.Schema, v.Name, "VIEW")
		views.add(v.Schema, v.Name, "postgres", db.ViewDefinition(v))
		class.add(v.ID, v.Name, "v", nsID(v.Schema))
	}
}

// ---- SQL Server ----

func (t ColType) msPrecision() int {
	switch t.Name {
	case "decimal", "numeric":
		n, _ := strconv.Atoi(t.Args[0])
		return n
	case "bigint":
		return 19
	case "int":
		return 10
	case "smallint":
		return 5
	case "tinyint":
		return 3
	case "float":
		return 53
	case "real":
		return 24
	case "money":
		return 19
	case "time":
		return 16
	case "datetime2":
		return 27
	case "datetimeoffset":
		return 34
	case "datetime":
		return 23
	}
	return 0
}

func (t ColType) msScale() int {
	i := -1
	switch t.Name {
	case "decimal", "numeric":
		i = 1
	case "datetime2", "datetimeoffset", "time":
		i = 0
	case "datetime":
		return 3
	case "money", "smallmoney":
		return 4
	}
	if i < 0 || i >= len(t.Args) {
		return 0
	}
	n, _ := strconv.Atoi(t.Args[i])
	return n
}

func (t ColType) msMaxLength() int {
	n := 1
	if len(t.Args) > 0 {
		if strings.EqualFold(t.Args[0], "max") {
			return -1
		}
		n, _ = strconv.Atoi(t.Args[0])
	}
	switch t.Name {
	case "char", "varchar", "binary", "varbinary":
		return n
	case "nchar", "nvarchar":
		return 2 * n
	case "int", "real", "smalldatetime", "smallmoney":
		return 4
	case "bigint", "datetime", "float", "money", "datetime2":
		return 8
	case "smallint":
		return 2
	case "tinyint", "bit":
		return 1
	case "decimal", "numeric":
		return 9
	case "date":
		return 3
	case "time":
		return 5
	case "uniqueidentifier", "text", "ntext", "image":
		return 16
	}
	return 8
}

func (db *DB) msDefault(c *Column) string {
	v := c.Default
	switch v.Kind {
	case "num":
		return "((" + v.S + "))"
	case "str":
		return "(" + quoteStr(v.S) + ")"
	case "null":
		return "(NULL)"
	case "fn":
		return "(" + v.S + ")"
	}
	return "(" + v.S + ")"
}

var msActions = map[string]string{"NO ACTION": "NO_ACTION", "CASCADE": "CASCADE", "SET NULL": "SET_NULL", "SET DEFAULT": "SET_DEFAULT"}

// The built-in types of SQL Server, of which some share the identifier of the
// system type they are made of: sysname is an nvarchar, hierarchyid, geometry
// and geography are of the same system type.
var msTypes = map[string]int{
	"image": 34, "text": 35, "uniqueidentifier": 36, "date": 40, "time": 41, "datetime2": 42, "datetimeoffset": 43,
	"tinyint": 48, "smallint": 52, "int": 56, "smalldatetime": 58, "real": 59, "money": 60, "datetime": 61, "float": 62,
	"sql_variant": 98, "ntext": 99, "bit": 104, "decimal": 106, "numeric": 108, "smallmoney": 122, "bigint": 127,
	"hierarchyid": 128, "geometry": 129, "geography": 130, "varbinary": 165, "varchar": 167, "binary": 173, "char": 175,
	"timestamp": 189, "nvarchar": 231, "nchar": 239, "xml": 241, "sysname": 256,
}

func msSystemType(id int) int {
	switch id {
	case 128, 129, 130:
		return 240
	case 256:
		return 231
	}
	return id
}

func (db *DB) msCatalog(c *Catalog) {
	obj := c.table("sys.objects", "object_id,name,schema_id,parent_object_id,type,type_desc")
	tables := c.table("sys.tables", "object_id,name,schema_id")
	sch := c.table("sys.schemas", "schema_id,name")
	cols := c.table("sys.columns", "object_id,column_id,name,user_type_id,system_type_id,max_length,precision,scale,is_nullable,is_identity,default_object_id")
	typ := c.table("sys.types", "user_type_id,system_type_id,name")
	cc := c.table("sys.check_constraints", "object_id,name,parent_object_id,parent_column_id,definition,is_not_for_replication")
	idc := c.table("sys.identity_columns", "object_id,column_id,name,seed_value,increment_value,is_not_for_replication")
	dc := c.table("sys.default_constraints", "object_id,name,parent_object_id,parent_column_id,definition")
	ind := c.table("sys.indexes", "object_id,index_id,name,type,type_desc,is_unique,is_primary_key,is_unique_constraint,is_padded,fill_factor,ignore_dup_key,allow_row_locks,allow_page_locks,has_filter,filter_definition")
	st := c.table("sys.stats", "object_id,stats_id,name,auto_created,no_recompute,is_incremental")
	ic := c.table("sys.index_columns", "object_id,index_id,index_column_id,column_id,key_ordinal,is_descending_key,is_included_column")
	fk := c.table("sys.foreign_keys", "object_id,name,parent_object_id,referenced_object_id,update_referential_action_desc,delete_referential_action_desc,is_not_for_replication")
	fkc := c.table("sys.foreign_key_columns", "constraint_object_id,constraint_column_id,parent_object_id,parent_column_id,referenced_object_id,referenced_column_id")
	views := c.table("sys.views", "object_id,name,schema_id")
	mod := c.table("sys.sql_modules", "object_id,definition")
	amod := c.table("sys.all_sql_modules", "object_id,definition")
	trg := c.table("sys.triggers", "object_id,name,parent_id,type,is_disabled")

	sch.add(1, "dbo")
	sch.add(3, "INFORMATION_SCHEMA")
	sch.add(4, "sys")
	c.Schema[1], c.Schema[3], c.Schema[4] = "dbo", "INFORMATION_SCHEMA", "sys"
	schemas := map[string]int{"dbo": 1}
	sid := func(n string) int {
		if n == "" {
			n = "dbo"
		}
		k := strings.ToLower(n)
		if schemas[k] == 0 {
			schemas[k] = 4 + len(schemas)
			sch.add(schemas[k], n)
			c.Schema[schemas[k]] = n
		}
		return schemas[k]
	}
	oid := 900000
	next := func() int { oid++; return oid }
	types := map[string]int{}
	for _, n := range sortedKeys(msTypes) {
		types[n] = msTypes[n]
		typ.add(msTypes[n], msSystemType(msTypes[n]), n)
	}
	typeID := func(t ColType) int {
		if types[t.Name] == 0 {
			types[t.Name] = 300 + len(types)
			typ.add(types[t.Name], types[t.Name], t.Name)
		}
		return types[t.Name]
	}
	// objects of other kinds
	obj.add(next(), "sysrscols", 4, 0, "S", "SYSTEM_TABLE")
	amod.add(next(), "CREATE VIEW sys.all_objects AS SELECT 1")
	tid := map[string]int{}
	for _, t := range db.Tables {
		tid[t.Key()] = t.ID
	}
	for _, t := range db.Tables {
		id := t.ID
		c.IDs[strings.ToLower(t.Schema+"."+t.Name)] = id
		c.Names[id] = t.Name
		sc := sid(t.Schema)
		c.Schema[-id] = c.Schema[sc] // for OBJECT_SCHEMA_NAME
		obj.add(id, t.Name, sc, 0, "U", "USER_TABLE")
		tables.add(id, t.Name, sc)
		num := map[string]int{}
		for i, k := range t.Cols {
			num[strings.ToLower(k.Name)] = i + 1
			c.Cols[fmt.Sprintf("%d/%d", id, i+1)] = k.Name
			nn := k.NotNull || k.Identity != nil
			if t.PK != nil {
				for _, p := range t.PK.Cols {
					nn = nn || strings.EqualFold(p.Name, k.Name)
				}
			}
			did := 0
			if k.Default != nil && k.DefName != "" {
				did = next()
				c.Names[did], c.Defs[did] = k.DefName, db.msDefault(k)
				obj.add(did, k.DefName, sc, id, "D", "DEFAULT_CONSTRAINT")
				dc.add(did, k.DefName, id, i+1, db.msDefault(k))
			}
			cols.add(id, i+1, k.Name, typeID(k.Type), msSystemType(typeID(k.Type)), k.Type.msMaxLength(), k.Type.msPrecision(), k.Type.msScale(), b2i(!nn), b2i(k.Identity != nil), did)
			if k.Identity != nil {
				idc.add(id, i+1, k.Name, k.Identity.Start, k.Identity.Incr, b2i(k.Identity.NotRepl))
			}
		}
		index := func(x *Index, iid int) {
			td := "NONCLUSTERED"
			ty := 2
			if x.Clustered {
				td, ty = "CLUSTERED", 1
			}
			on := func(k string) int { return b2i(strings.EqualFold(x.Opts[k], "on")) }
			ff := x.Opts["fillfactor"]
			if ff == "" {
				ff = "0"
			}
			row := b2i(!strings.EqualFold(x.Opts["allow_row_locks"], "off"))
			page := b2i(!strings.EqualFold(x.Opts["allow_page_locks"], "off"))
			var fd interface{}
			if x.Where != nil {
				fd = "(" + x.Where.print(stMSSQL, true) + ")"
			}
			ind.add(id, iid, x.Name, ty, td, b2i(x.Unique || x.Primary), b2i(x.Primary), b2i(x.ForConstr == "u"), on("pad_index"), ff, on("ignore_dup_key"), row, page, b2i(x.Where != nil), fd)
			st.add(id, iid, x.Name, 0, on("statistics_norecompute"), on("statistics_incremental"))
			n := 0
			for i, k := range x.Cols {
				n++
				ic.add(id, iid, n, num[strings.ToLower(k.Name)], i+1, b2i(k.Desc), 0)
			}
			for _, k := range x.Incl {
				n++
				ic.add(id, iid, n, num[strings.ToLower(k)], 0, 0, 1)
			}
		}
		clustered := t.PK != nil && t.PK.Clustered
		for _, x := range t.Idx {
			clustered = clustered || x.Clustered
		}
		if !clustered {
			ind.add(id, 0, nil, 0, "HEAP", 0, 0, 0, 0, 0, 0, 1, 1, 0, nil)
		}
		iid := 2
		put := func(x *Index) {
			if x.Clustered {
				index(x, 1)
				return
			}
			index(x, iid)
			iid++
		}
		if t.PK != nil {
			put(t.PK)
			k := next()
			obj.add(k, t.PK.Name, sc, id, "PK", "PRIMARY_KEY_CONSTRAINT")
		}
		for _, x := range t.Idx {
			put(x)
		}
		// statistics the server made on its own
		st.add(id, 77, "_WA_Sys_00000001", 1, 0, 0)
		for _, ck := range t.Checks {
			o := next()
			def := "(" + ck.E.print(stMSSQL, true) + ")"
			c.Names[o], c.Defs[o] = ck.Name, def
			obj.add(o, ck.Name, sc, id, "C", "CHECK_CONSTRAINT")
			cc.add(o, ck.Name, id, num[strings.ToLower(ck.Col)], def, b2i(ck.NotRepl))
		}
		for _, f := range t.FKs {
			o := next()
			c.Names[o] = f.Name
			obj.add(o, f.Name, sc, id, "F", "FOREIGN_KEY_CONSTRAINT")
			fk.add(o, f.Name, id, tid[f.RefTable], msActions[db.fkAct(f.OnUpdate)], msActions[db.fkAct(f.OnDelete)], b2i(f.NotRepl))
			rt := db.Table(f.RefTable)
			for i, k := range f.Cols {
				rn := 0
				for j, q := range rt.Cols {
					if strings.EqualFold(q.Name, f.RefCols[i]) {
						rn = j + 1
					}
				}
				fkc.add(o, i+1, id, num[strings.ToLower(k)], tid[f.RefTable], rn)
			}
		}
	}
	for _, v := range db.Views {
		c.IDs[strings.ToLower(v.Schema+"."+v.Name)] = v.ID
		c.Names[v.ID], c.Defs[v.ID] = v.Name, v.Text
		obj.add(v.ID, v.Name, sid(v.Schema), 0, "V", "VIEW")
		views.add(v.ID, v.Name, sid(v.Schema))
		mod.add(v.ID, v.Text)
		amod.add(v.ID, v.Text)
	}
	for _, g := range db.Triggers {
		o := g.ID
		if o == 0 {
			o = next()
		}
		c.Names[o], c.Defs[o] = g.Name, g.Text
		obj.add(o, g.Name, 1, tid[g.Table], "TR", "SQL_TRIGGER")
		trg.add(o, g.Name, tid[g.Table], "TR", 0)
		mod.add(o, g.Text)
		amod.add(o, g.Text)
	}
	_ = sort.Strings
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
