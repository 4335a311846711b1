package minidb

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type ColType struct {
	Name     string // canonical base name
	Args     []string
	Unsigned bool
	Zerofill bool
	TZ       bool
	Array    bool
	Enum     []string
	Serial   string // PG: serial kind as written ("serial", ...)
}

func (t ColType) String() string {
	s := t.Name
	if len(t.Enum) > 0 {
		var q []string
		for _, e := range t.Enum {
			q = append(q, quoteStr(e))
		}
		s += "(" + strings.Join(q, ",") + ")"
	} else if len(t.Args) > 0 {
		if strings.HasSuffix(s, " time zone") { // timestamp(3) without time zone
			i := strings.IndexByte(s, ' ')
			s = s[:i] + "(" + strings.Join(t.Args, ",") + ")" + s[i:]
		} else {
			s += "(" + strings.Join(t.Args, ",") + ")"
		}
	}
	if t.Unsigned {
		s += " unsigned"
	}
	if t.Zerofill {
		s += " zerofill"
	}
	if t.Array {
		s += "[]"
	}
	return s
}

func (t ColType) class() string {
	switch t.Name {
	case "tinyint", "smallint", "mediumint", "int", "integer", "bigint", "year":
		return "int"
	case "decimal", "numeric", "money", "smallmoney":
		return "dec"
	case "float", "double", "double precision", "real":
		return "float"
	case "char", "character", "varchar", "character varying", "nchar", "nvarchar", "tinytext", "text", "mediumtext", "longtext", "ntext", "citext":
		return "str"
	case "binary", "varbinary", "tinyblob", "blob", "mediumblob", "longblob":
		return "bin"
	case "date", "time", "datetime", "timestamp", "datetime2", "datetimeoffset", "smalldatetime",
		"timestamp without time zone", "timestamp with time zone", "time without time zone", "time with time zone":
		return "time"
	case "boolean":
		return "bool"
	case "bit":
		return "bit"
	case "enum", "set":
		return "enum"
	case "json", "jsonb":
		return "json"
	}
	return "other"
}

func (p *parser) args(min, max int) ([]string, error) {
	if !p.op("(") {
		if min > 0 {
			return nil, p.errf("length required")
		}
		return nil, nil
	}
	var a []string
	for {
		t := p.next()
		if t.is("max") && p.d == MSSQL {
			a = append(a, "max")
		} else if t.k == tNum && !strings.ContainsAny(t.s, ".eE") {
			a = append(a, t.s)
		} else {
			return nil, p.errf("bad length")
		}
		if !p.op(",") {
			break
		}
	}
	if len(a) > max {
		return nil, p.errf("too many type arguments")
	}
	return a, p.needOp(")")
}

func (p *parser) typeName() (ColType, error) {
	t := p.next()
	var ty ColType
	if t.k != tWord && !(t.k == tQuoted && p.d == MSSQL) {
		return ty, p.errf("expected a type, got %s", t)
	}
	w := strings.ToLower(t.s)
	var err error
	simple := func(n string) { ty.Name = n }
	withLen := func(n, def string, max int) {
		ty.Name = n
		ty.Args, err = p.args(0, max)
		if len(ty.Args) == 0 && def != "" {
			ty.Args = []string{def}
		}
	}
	switch p.d {
	case MySQL:
		switch w {
		case "bool", "boolean":
			ty.Name, ty.Args = "tinyint", []string{"1"}
		case "tinyint", "smallint", "mediumint", "int", "bigint", "integer":
			def := map[string]string{"tinyint": "4", "smallint": "6", "mediumint": "9", "int": "11", "bigint": "20"}
			n := w
			if n == "integer" {
				n = "int"
			}
			ty.Name = n
			ty.Args, err = p.args(0, 1)
			for {
				if p.kw("unsigned") {
					ty.Unsigned = true
				} else if p.kw("zerofill") {
					ty.Zerofill, ty.Unsigned = true, true
				} else if p.kw("signed") {
				} else {
					break
				}
			}
			if len(ty.Args) == 0 {
				d := def[n]
				if ty.Unsigned {
					d = map[string]string{"tinyint": "3", "smallint": "5", "mediumint": "8", "int": "10", "bigint": "20"}[n]
				}
				ty.Args = []string{d}
			}
		case "decimal", "numeric", "dec", "fixed":
			ty.Name = "decimal"
			ty.Args, err = p.args(0, 2)
			if len(ty.Args) == 0 {
				ty.Args = []string{"10", "0"}
			} else if len(ty.Args) == 1 {
				ty.Args = append(ty.Args, "0")
			}
			ty.Unsigned = p.kw("unsigned")
		case "float", "double", "real":
			if w == "double" {
				p.kw("precision")
			}
			ty.Name = w
			if w == "real" {
				ty.Name = "double"
			}
			ty.Args, err = p.args(0, 2)
			ty.Unsigned = p.kw("unsigned")
		case "char", "character":
			if w == "character" && p.kw("varying") {
				ty.Name = "varchar"
				ty.Args, err = p.args(1, 1)
			} else {
				withLen("char", "1", 1)
			}
		case "varchar", "varbinary":
			ty.Name = w
			ty.Args, err = p.args(1, 1)
		case "binary", "bit":
			withLen(w, "1", 1)
		case "year":
			withLen("year", "4", 1)
		case "datetime", "timestamp", "time":
			withLen(w, "", 1)
			if len(ty.Args) == 1 && ty.Args[0] == "0" {
				ty.Args = nil
			}
		case "date", "tinytext", "text", "mediumtext", "longtext", "tinyblob", "blob", "mediumblob", "longblob", "json",
			"geometry", "point", "linestring", "polygon", "geometrycollection", "multipoint", "multilinestring", "multipolygon":
			simple(w)
		case "enum", "set":
			ty.Name = w
			if err = p.needOp("("); err != nil {
				return ty, err
			}
			for {
				v := p.next()
				if v.k != tStr {
					return ty, p.errf("enum values must be strings")
				}
				ty.Enum = append(ty.Enum, v.s)
				if !p.op(",") {
					break
				}
			}
			err = p.needOp(")")
		default:
			return ty, p.errf("unknown type %q", w)
		}
	case PG:
		switch w {
		case "smallint", "int2":
			simple("smallint")
		case "int", "integer", "int4":
			simple("integer")
		case "bigint", "int8":
			simple("bigint")
		case "smallserial", "serial2":
			ty.Name, ty.Serial = "smallint", "smallserial"
		case "serial", "serial4":
			ty.Name, ty.Serial = "integer", "serial"
		case "bigserial", "serial8":
			ty.Name, ty.Serial = "bigint", "bigserial"
		case "bool", "boolean":
			simple("boolean")
		case "text", "uuid", "json", "jsonb", "date", "citext", "money", "bytea", "point", "polygon", "name", "regclass":
			simple(w)
		case "varchar":
			withLen("character varying", "", 1)
		case "char":
			withLen("character", "1", 1)
		case "bpchar":
			simple("character")
		case "character":
			if p.kw("varying") {
				withLen("character varying", "", 1)
			} else {
				withLen("character", "1", 1)
			}
		case "decimal", "numeric":
			withLen("numeric", "", 2)
			if len(ty.Args) == 1 {
				ty.Args = append(ty.Args, "0")
			}
		case "real", "float4":
			simple("real")
		case "double":
			if err = p.needKw("precision"); err != nil {
				return ty, err
			}
			simple("double precision")
		case "float", "float8":
			simple("double precision")
			p.args(0, 1)
		case "timestamp", "time":
			a, e := p.args(0, 1)
			err = e
			ty.Args = a
			if p.kw("with", "time", "zone") {
				ty.TZ = true
			} else {
				p.kw("without", "time", "zone")
			}
		case "timestamptz":
			w = "timestamp"
			ty.TZ = true
		case "bit":
			withLen("bit", "1", 1)
		default:
			return ty, p.errf("type %q does not exist", w)
		}
		if w == "timestamp" || w == "time" {
			ty.Name = w + " without time zone"
			if ty.TZ {
				ty.Name = w + " with time zone"
			}
		}
		if err == nil {
			if p.op("[") {
				err = p.needOp("]")
				ty.Array = true
			} else if p.kw("array") {
				ty.Array = true
			}
		}
	case MSSQL:
		switch w {
		case "int", "integer":
			simple("int")
		case "tinyint", "smallint", "bigint", "bit", "money", "smallmoney", "date", "datetime", "smalldatetime", "text", "ntext", "real", "uniqueidentifier", "image", "xml":
			simple(w)
		case "float":
			p.args(0, 1)
			simple("float")
		case "double":
			if err = p.needKw("precision"); err != nil {
				return ty, err
			}
			simple("float")
		case "decimal", "numeric", "dec":
			n := w
			if n == "dec" {
				n = "decimal"
			}
			withLen(n, "18", 2)
			if len(ty.Args) == 1 {
				ty.Args = append(ty.Args, "0")
			}
		case "char", "character", "nchar", "binary":
			if w == "character" && p.kw("varying") {
				withLen("varchar", "1", 1)
				break
			}
			n := w
			if n == "character" {
				n = "char"
			}
			withLen(n, "1", 1)
		case "varchar", "nvarchar", "varbinary":
			withLen(w, "1", 1)
		case "datetime2", "datetimeoffset", "time":
			withLen(w, "7", 1)
		default:
			return ty, p.errf("Column: Cannot find data type %s", w)
		}
	}
	return ty, err
}

// Value is a column default.
type Value struct {
	Kind string // num str bool bit null fn hex expr
	S    string
}

func (v *Value) canon(t ColType) string {
	if v == nil || v.Kind == "null" {
		return "none"
	}
	cl := t.class()
	switch {
	case v.Kind == "fn":
		return "fn:" + v.S
	case cl == "int" && (v.Kind == "num" || v.Kind == "str" || v.Kind == "bool"):
		return "num:" + normInt(boolNum(v))
	case cl == "bool":
		if f := strings.ToLower(v.S); f == "t" || f == "true" || f == "1" {
			return "bool:true"
		}
		return "bool:false"
	case cl == "dec" || cl == "float":
		if f, err := strconv.ParseFloat(boolNum(v), 64); err == nil {
			if cl == "dec" && len(t.Args) == 2 {
				n, _ := strconv.Atoi(t.Args[1])
				return "num:" + strconv.FormatFloat(f, 'f', n, 64)
			}
			return "num:" + strconv.FormatFloat(f, 'g', 12, 64)
		}
		return "num?" + v.S
	case cl == "bit":
		s := v.S
		if v.Kind == "num" || v.Kind == "str" || v.Kind == "bit" {
			s = strings.TrimLeft(s, "0")
		}
		return "bit:" + s
	}
	if v.Kind == "num" || v.Kind == "str" {
		return "str:" + v.S
	}
	return v.Kind + ":" + v.S
}

func boolNum(v *Value) string {
	if v.Kind == "bool" {
		if v.S == "true" {
			return "1"
		}
		return "0"
	}
	return v.S
}

func normInt(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "+")
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = s[:i]
	}
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	if neg {
		return "-" + s
	}
	return s
}

type Identity struct {
	Behavior string // PG: ALWAYS / BY DEFAULT
	Start    string
	Incr     string
	Opts     string
	NotRepl  bool
}

type Column struct {
	ID       int
	Name     string
	Type     ColType
	NotNull  bool
	Default  *Value
	DefName  string // SQL Server default constraint name
	DefAuto  bool   // ... generated by the server
	AutoInc  bool
	OnUpdate string
	Charset  string
	Collate  string
	Comment  string
	Identity *Identity
}

type IdxCol struct {
	Name string
	Len  string
	Desc bool
}

type Index struct {
	Name      string
	Cols      []IdxCol
	Unique    bool
	Kind      string // "", fulltext, spatial (MySQL)
	Method    string
	Where     *Expr
	Incl      []string
	Clustered bool
	Opts      map[string]string
	Part      string // SQL Server: partition scheme or file group
	ForConstr string // "", "u": backs a UNIQUE constraint
	Implicit  bool   // MySQL: created for a foreign key
	Primary   bool
	AutoName  bool
	Comment   string
}

type FK struct {
	Name     string
	Cols     []string
	RefTable string // table key
	RefCols  []string
	OnDelete string
	OnUpdate string
	NotRepl  bool
	AutoName bool // the server made the name
}

type Check struct {
	Name      string
	Col       string
	E         *Expr
	NoInherit bool
	NotRepl   bool
	AutoName  bool
}

type Policy struct {
	Name       string
	Permissive string
	Cmd        string
	Roles      []string
	Using      *Expr
	WithCheck  *Expr
}

type Table struct {
	ID       int
	Schema   string
	Name     string
	Cols     []*Column
	PK       *Index
	Idx      []*Index
	FKs      []*FK
	Checks   []*Check
	Policies []*Policy
	Options  string // as dumped
	Charset  string
}

type View struct {
	ID     int
	Schema string
	Name   string
	Sel    *Select
	Text   string // as written (SQL Server keeps the text)
	Cols   []string
}

type Trigger struct {
	ID    int
	Name  string
	Table string
	Time  string
	Event string
	Body  string // canonical
	Raw   string // body as written
	Text  string // whole statement as written
}

type DB struct {
	D        Dialect
	Name     string
	V8       bool // MySQL: no display widths
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
	nextID   int
	Version  int
}

func New(d Dialect, name string) *DB { return &DB{D: d, Name: name, nextID: 16384} }

func (db *DB) id() int { db.nextID++; return db.nextID }

func (db *DB) DefaultSchema() string {
	switch db.D {
	case PG:
		return "public"
	case MSSQL:
		return "dbo"
	}
	return ""
}

func (t *Table) Key() string {
	if t.Schema == "" {
		return t.Name
	}
	return t.Schema + "." + t.Name
}

func (db *DB) fold(s string) string {
	if db.D == MSSQL {
		return strings.ToLower(s)
	}
	return s
}

func (db *DB) Table(key string) *Table {
	for _, t := range db.Tables {
		if db.fold(t.Key()) == db.fold(key) {
			return t
		}
	}
	return nil
}

// column names are case-insensitive in MySQL and SQL Server, exact in PG (after folding)
func (t *Table) Col(db *DB, name string) *Column {
	for _, c := range t.Cols {
		if c.Name == name || db.D != PG && strings.EqualFold(c.Name, name) {
			return c
		}
	}
	return nil
}

func (t *Table) Index(db *DB, name string) *Index {
	for _, x := range t.Idx {
		if x.Name == name || db.D != PG && strings.EqualFold(x.Name, name) {
			return x
		}
	}
	return nil
}

func (db *DB) View(key string) *View {
	for _, v := range db.Views {
		if db.fold(v.Key()) == db.fold(key) {
			return v
		}
	}
	return nil
}
func (v *View) Key() string {
	if v.Schema == "" {
		return v.Name
	}
	return v.Schema + "." + v.Name
}

func (db *DB) Trigger(name string) *Trigger {
	for _, t := range db.Triggers {
		if t.Name == name || db.D != PG && strings.EqualFold(t.Name, name) {
			return t
		}
	}
	return nil
}

// Clone copies everything that Exec may change.
func (db *DB) Clone() *DB {
	n := *db
	n.Tables = nil
	for _, t := range db.Tables {
		n.Tables = append(n.Tables, t.clone())
	}
	n.Views = append([]*View(nil), db.Views...)
	n.Triggers = append([]*Trigger(nil), db.Triggers...)
	return &n
}

func (t *Table) clone() *Table {
	n := *t
	n.Cols = nil
	for _, c := range t.Cols {
		x := *c
		if c.Identity != nil {
			i := *c.Identity
			x.Identity = &i
		}
		n.Cols = append(n.Cols, &x)
	}
	if t.PK != nil {
		x := *t.PK
		x.Cols = append([]IdxCol(nil), t.PK.Cols...)
		n.PK = &x
	}
	n.Idx = nil
	for _, i := range t.Idx {
		x := *i
		x.Cols = append([]IdxCol(nil), i.Cols...)
		n.Idx = append(n.Idx, &x)
	}
	n.FKs = nil
	for _, f := range t.FKs {
		x := *f
		n.FKs = append(n.FKs, &x)
	}
	n.Checks = nil
	for _, f := range t.Checks {
		x := *f
		n.Checks = append(n.Checks, &x)
	}
	n.Policies = append([]*Policy(nil), t.Policies...)
	return &n
}

func (x *Index) colsCanon() string {
	var o []string
	for _, c := range x.Cols {
		s := c.Name
		if c.Len != "" {
			s += "(" + c.Len + ")"
		}
		if c.Desc {
			s += " desc"
		}
		o = append(o, s)
	}
	return strings.Join(o, ",")
}

func (x *Index) canon(db *DB) string {
	s := "(" + x.colsCanon() + ")"
	if x.Unique {
		s = "unique " + s
	}
	if x.Kind != "" {
		s = x.Kind + " " + s
	}
	if x.ForConstr != "" {
		s += " constraint"
	}
	if x.Where != nil {
		s += " where " + x.Where.Canon()
	}
	if len(x.Incl) > 0 {
		s += " include(" + strings.Join(x.Incl, ",") + ")"
	}
	if db.D == MSSQL {
		if x.Clustered {
			s = "clustered " + s
		}
		var ks []string
		for k, v := range x.Opts {
			ks = append(ks, k+"="+v)
		}
		sort.Strings(ks)
		s += " with " + strings.Join(ks, ",")
		if x.Part != "" {
			s += " on " + x.Part
		}
	}
	if db.D == PG && x.Method != "" && x.Method != "btree" {
		s += " using " + x.Method
	}
	if db.D == MySQL {
		for _, k := range []string{"key_block_size", "parser"} {
			if v := x.Opts[k]; v != "" {
				s += " " + k + "=" + v
			}
		}
		if x.Comment != "" {
			s += " comment " + x.Comment
		}
		if x.Method != "" && x.Method != "btree" {
			s += " using " + x.Method
		}
	}
	return s
}

// Objects describes the whole schema as object key -> definition.
func (db *DB) Objects() map[string]string {
	m := map[string]string{}
	for _, t := range db.Tables {
		db.tableObjects(t, m)
	}
	for _, v := range db.Views {
		m["view "+v.Key()] = v.Sel.Canon()
	}
	for _, t := range db.Triggers {
		m["trigger "+t.Name] = fmt.Sprintf("%s %s on %s: %s", t.Time, t.Event, t.Table, t.Body)
	}
	return m
}

func (db *DB) tableObjects(t *Table, m map[string]string) {
	k := t.Key()
	m["table "+k] = "exists"
	for _, c := range t.Cols {
		s := c.Type.String()
		if db.D == MySQL && db.V8 && c.Type.class() == "int" && len(c.Type.Args) > 0 && !(c.Type.Name == "tinyint" && c.Type.Args[0] == "1") {
			ty := c.Type
			ty.Args = nil
			s = ty.String()
		}
		if c.Charset != "" && c.Charset != t.Charset {
			s += " charset " + c.Charset
		}
		if c.Collate != "" {
			s += " collate " + c.Collate
		}
		if c.NotNull {
			s += " not null"
		}
		s += " default " + c.Default.canon(c.Type)
		if db.D == MSSQL && c.DefName != "" && !c.DefAuto {
			s += " [" + c.DefName + "]"
		}
		if c.Type.Serial != "" {
			s += " " + c.Type.Serial
		}
		if c.AutoInc {
			s += " auto_increment"
		}
		if c.OnUpdate != "" {
			s += " on update " + c.OnUpdate
		}
		if c.Comment != "" {
			s += " comment " + c.Comment
		}
		if c.Identity != nil {
			s += fmt.Sprintf(" identity %s %s,%s %s", c.Identity.Behavior, c.Identity.Start, c.Identity.Incr, c.Identity.Opts)
			if c.Identity.NotRepl {
				s += " not for replication"
			}
		}
		m["column "+k+"."+c.Name] = s
	}
	if t.PK != nil {
		m["pk "+k] = t.PK.canon(db)
		if db.D == MSSQL && !t.PK.AutoName {
			m["pk "+k] += " [" + t.PK.Name + "]"
		}
	}
	for _, x := range t.Idx {
		m["index "+k+"."+x.Name] = x.canon(db)
	}
	for _, f := range t.FKs {
		s := fmt.Sprintf("(%s) references %s(%s) delete %s update %s", strings.Join(f.Cols, ","), f.RefTable, strings.Join(f.RefCols, ","), db.fkAct(f.OnDelete), db.fkAct(f.OnUpdate))
		if f.NotRepl {
			s += " not for replication"
		}
		n := f.Name
		if f.AutoName {
			n = "(auto " + strings.Join(f.Cols, ",") + ")"
		}
		m["fk "+k+"."+n] = s
	}
	for _, c := range t.Checks {
		n := c.Name
		if c.AutoName {
			n = "(auto " + c.Col + ")"
		}
		s := c.E.Canon()
		if c.NoInherit {
			s += " no inherit"
		}
		if c.NotRepl {
			s += " not for replication"
		}
		m["check "+k+"."+n] = s
	}
	for _, p := range t.Policies {
		r := append([]string(nil), p.Roles...)
		sort.Strings(r)
		m["policy "+k+"."+p.Name] = fmt.Sprintf("%s %s to %s using %s check %s", p.Permissive, p.Cmd, strings.Join(r, ","), p.Using.Canon(), p.WithCheck.Canon())
	}
}

func (db *DB) fkAct(a string) string {
	if a == "" {
		if db.D == MySQL {
			return "RESTRICT"
		}
		return "NO ACTION"
	}
	if db.D == MySQL && a == "NO ACTION" {
		return "RESTRICT"
	}
	return a
}

// ColumnOrder returns the column names of every table, in order.
func (db *DB) ColumnOrder() map[string]string {
	m := map[string]string{}
	for _, t := range db.Tables {
		var n []string
		for _, c := range t.Cols {
			n = append(n, c.Name)
		}
		m[t.Key()] = strings.Join(n, ",")
	}
	return m
}

// Diff lists the differences between two object maps.
func Diff(got, want map[string]string) []string {
	var out []string
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			out = append(out, "missing "+k+" ("+w+")")
		} else if g != w {
			out = append(out, fmt.Sprintf("%s is %q, should be %q", k, g, w))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "extra "+k)
		}
	}
	sort.Strings(out)
	return out
}

// Named gives a copy in which names chosen by the server count like given ones, without
// what no export can tell.
func (db *DB) Named() *DB {
	n := db.Clone()
	if n.D != MSSQL {
		return n
	}
	for _, t := range n.Tables {
		for _, c := range t.Cols {
			c.DefAuto = false
		}
		for _, c := range t.Checks {
			c.AutoName = false
		}
		for _, f := range t.FKs {
			f.AutoName = false
		}
		if t.PK != nil {
			t.PK.AutoName = false
		}
		for _, x := range t.Idx {
			x.AutoName = false
			x.Part = "" // no export tells it
		}
	}
	return n
}
