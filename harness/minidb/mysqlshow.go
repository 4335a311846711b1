package minidb

import (
	"sort"
	"strings"
)

func bq(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

// mystr prints a string literal as SHOW CREATE TABLE does.
func mystr(s string) string {
	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\", "\n", "\\n", "\r", "\\r", "\x00", "\\0").Replace(s) + "'"
}

// myViewStr prints a string literal as the definition of a view does.
func myViewStr(s string) string {
	return "'" + strings.NewReplacer("'", "\\'", "\\", "\\\\", "\n", "\\n", "\r", "\\r", "\x00", "\\0", "\x1a", "\\Z").Replace(s) + "'"
}

func (v *Value) mysqlShow(t ColType) string {
	switch v.Kind {
	case "null":
		return "NULL"
	case "fn":
		return strings.ToUpper(v.S)
	case "bit":
		return "b'" + v.S + "'"
	case "bool":
		return mystr(boolNum(v))
	}
	switch t.class() {
	case "int":
		return mystr(normInt(v.S))
	case "dec", "float":
		c := v.canon(t)
		return mystr(strings.TrimPrefix(c, "num:"))
	case "bit":
		return "b'" + v.S + "'"
	}
	return mystr(v.S)
}

var mysqlDefaultCollation = map[string]string{"utf8mb4": "utf8mb4_general_ci", "utf8": "utf8_general_ci", "latin1": "latin1_swedish_ci", "binary": "binary", "ascii": "ascii_general_ci"}

// ShowCreateTable renders the table like MySQL's SHOW CREATE TABLE.
func (db *DB) ShowCreateTable(t *Table) string {
	var b strings.Builder
	b.WriteString("CREATE TABLE " + bq(t.Name) + " (\n")
	var parts []string
	for _, c := range t.Cols {
		ty := c.Type
		if db.V8 && ty.class() == "int" && !(ty.Name == "tinyint" && len(ty.Args) > 0 && ty.Args[0] == "1") && !ty.Zerofill {
			ty.Args = nil
		}
		s := "  " + bq(c.Name) + " " + ty.String()
		if cl := ty.class(); cl == "str" || cl == "enum" {
			cs := c.Charset
			if cs == "" && c.Collate != "" {
				cs = c.Collate
				if i := strings.IndexByte(cs, '_'); i > 0 {
					cs = cs[:i]
				}
			}
			if cs == "" {
				cs = t.Charset
			}
			if cs != t.Charset || c.Collate != "" && c.Collate != mysqlDefaultCollation[cs] {
				s += " CHARACTER SET " + cs
			}
			if c.Collate != "" && c.Collate != mysqlDefaultCollation[cs] {
				s += " COLLATE " + c.Collate
			}
		}
		if c.NotNull {
			s += " NOT NULL"
		} else if ty.Name == "timestamp" {
			s += " NULL"
		}
		switch {
		case c.Default != nil && c.Default.Kind != "null":
			s += " DEFAULT " + c.Default.mysqlShow(ty)
		case !c.NotNull && !noDefault(ty) && !c.AutoInc:
			s += " DEFAULT NULL"
		}
		if c.OnUpdate != "" {
			s += " ON UPDATE " + strings.ToUpper(c.OnUpdate)
		}
		if c.AutoInc {
			s += " AUTO_INCREMENT"
		}
		if c.Comment != "" {
			s += " COMMENT " + mystr(c.Comment)
		}
		parts = append(parts, s)
	}
	cols := func(x *Index) string {
		var o []string
		for _, c := range x.Cols {
			s := bq(c.Name)
			if c.Len != "" {
				s += "(" + c.Len + ")"
			}
			if c.Desc && db.V8 {
				s += " DESC"
			}
			o = append(o, s)
		}
		return "(" + strings.Join(o, ",") + ")"
	}
	tail := func(x *Index) string {
		s := ""
		if v := x.Opts["key_block_size"]; v != "" {
			s += " KEY_BLOCK_SIZE=" + v
		}
		if x.Method != "" {
			s += " USING " + strings.ToUpper(x.Method)
		}
		if x.Comment != "" {
			s += " COMMENT " + mystr(x.Comment)
		}
		if v := x.Opts["parser"]; v != "" {
			s += " /*!50100 WITH PARSER `" + v + "` */ "
		}
		return s
	}
	if t.PK != nil {
		parts = append(parts, "  PRIMARY KEY "+cols(t.PK)+tail(t.PK))
	}
	rank := func(x *Index) int {
		if x.Kind != "" {
			return 3
		}
		if !x.Unique {
			return 2
		}
		for _, c := range x.Cols {
			if k := t.Col(db, c.Name); k != nil && !k.NotNull {
				return 1
			}
		}
		return 0
	}
	for r := 0; r < 4; r++ {
		for _, x := range t.Idx {
			if rank(x) != r {
				continue
			}
			k := "KEY"
			if x.Unique {
				k = "UNIQUE KEY"
			}
			if x.Kind != "" {
				k = strings.ToUpper(x.Kind) + " KEY"
			}
			parts = append(parts, "  "+k+" "+bq(x.Name)+" "+cols(x)+tail(x))
		}
	}
	for _, f := range t.FKs {
		s := "  CONSTRAINT " + bq(f.Name) + " FOREIGN KEY (" + bqList(f.Cols) + ") REFERENCES " + bq(f.RefTable) + " (" + bqList(f.RefCols) + ")"
		if a := f.OnDelete; a != "" && a != map[bool]string{true: "NO ACTION", false: "RESTRICT"}[db.V8] {
			s += " ON DELETE " + a
		}
		if a := f.OnUpdate; a != "" && a != map[bool]string{true: "NO ACTION", false: "RESTRICT"}[db.V8] {
			s += " ON UPDATE " + a
		}
		parts = append(parts, s)
	}
	b.WriteString(strings.Join(parts, ",\n") + "\n)" + t.Options)
	return b.String()
}

func bqList(n []string) string {
	var o []string
	for _, x := range n {
		o = append(o, bq(x))
	}
	return strings.Join(o, ",")
}

// ViewDefinition renders a view as INFORMATION_SCHEMA.VIEWS does.
func (db *DB) ViewDefinition(v *View) string {
	switch db.D {
	case MySQL:
		return v.Sel.print(stMySQL)
	case PG:
		return v.Sel.print(stPGFull) + ";"
	}
	return v.Text
}

// Identities maps tables and columns to the identity of their data: an object
// that is dropped and created again has lost its rows or values.
func (db *DB) Identities() map[string]int {
	m := map[string]int{}
	for _, t := range db.Tables {
		m["table "+t.Key()] = t.ID
		for _, c := range t.Cols {
			m["column "+t.Key()+"."+c.Name] = c.ID
		}
	}
	return m
}

// Dump lists the objects, for reports.
func (db *DB) Dump() []string {
	var o []string
	for k, v := range db.Objects() {
		o = append(o, k+": "+v)
	}
	sort.Strings(o)
	return o
}
