package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"

	"verifharness/minidb"
)

// The stand-in servers answer catalog queries by running them on an in-memory
// SQLite database that holds the catalog tables, after rewriting the few
// constructs SQLite lacks.
type catalog struct {
	db      *sql.DB
	version int
	cat     *minidb.Catalog
	made    bool
}

// what a catalog function returns for NULL: the driver has no other way
const sqlNull = "\x01NULL\x01"

type catConnector struct {
	d *sqlite3.SQLiteDriver
}

func (c catConnector) Connect(context.Context) (driver.Conn, error) { return c.d.Open(":memory:") }
func (c catConnector) Driver() driver.Driver                        { return c.d }

func newCatalog(d minidb.Dialect, name string) *catalog {
	k := &catalog{version: -1}
	str := func(v interface{}) string {
		switch v := v.(type) {
		case nil:
			return ""
		case []byte:
			return string(v)
		}
		return fmt.Sprint(v)
	}
	num := func(v interface{}) int {
		n, _ := strconv.Atoi(str(v))
		return n
	}
	opt := func(s string, ok bool) string {
		if !ok {
			return sqlNull
		}
		return s
	}
	dr := &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		if _, err := c.Exec("PRAGMA automatic_index = OFF", nil); err != nil {
			return err
		}
		for _, s := range []string{"information_schema", "sys", "pg_catalog"} {
			if _, err := c.Exec("ATTACH ':memory:' AS "+s, nil); err != nil {
				return err
			}
		}
		fns := map[string]interface{}{
			"any_eq": func(a, b interface{}) bool {
				for _, x := range strings.Split(strings.Trim(str(b), "{}"), ",") {
					if b != nil && x == str(a) {
						return true
					}
				}
				return false
			},
			"array_position": func(a, b interface{}) string {
				for i, x := range strings.Split(strings.Trim(str(a), "{}"), ",") {
					if a != nil && x == str(b) {
						return fmt.Sprintf("%04d", i+1)
					}
				}
				return sqlNull
			},
			"format_type": func(a, b interface{}) string { s, ok := k.cat.Types[num(a)]; return opt(s, ok) },
			"pg_get_constraintdef": func(a ...interface{}) string {
				s, ok := k.cat.Defs[num(a[0])]
				return opt(s, ok)
			},
			"current_schema":   func() string { return "public" },
			"current_database": func() string { return name },
			"object_id": func(a ...interface{}) int {
				p := splitBracketed(str(a[0]))
				if len(p) == 1 {
					p = []string{"dbo", p[0]}
				}
				if id, ok := k.cat.IDs[strings.ToLower(strings.Join(p, "."))]; ok {
					return id
				}
				return -1
			},
			"object_schema_name": func(a interface{}) string { s, ok := k.cat.Schema[-num(a)]; return opt(s, ok) },
			"object_name":        func(a interface{}) string { s, ok := k.cat.Names[num(a)]; return opt(s, ok) },
			"object_definition":  func(a interface{}) string { s, ok := k.cat.Defs[num(a)]; return opt(s, ok) },
			"col_name": func(a, b interface{}) string {
				s, ok := k.cat.Cols[str(a)+"/"+str(b)]
				return opt(s, ok)
			},
			"schema_name": func(a ...interface{}) string {
				if len(a) == 0 {
					return "dbo"
				}
				s, ok := k.cat.Schema[num(a[0])]
				return opt(s, ok)
			},
			"quote_ident": func(a string) string { return `"` + strings.ReplaceAll(a, `"`, `""`) + `"` },
			"quotename":   func(a string) string { return "[" + strings.ReplaceAll(a, "]", "]]") + "]" },
		}
		if d == minidb.MySQL {
			fns["database"] = func() string { return name }
			fns["schema"] = func() string { return name }
		}
		for n, f := range fns {
			if err := c.RegisterFunc(n, f, false); err != nil {
				return fmt.Errorf("%s: %v", n, err)
			}
		}
		return nil
	}}
	k.db = sql.OpenDB(catConnector{dr})
	k.db.SetMaxOpenConns(1)
	k.db.SetMaxIdleConns(1)
	k.db.SetConnMaxLifetime(0)
	return k
}

// splitBracketed splits a possibly quoted dotted name.
func splitBracketed(s string) []string {
	var out []string
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[', '"':
			q := byte(']')
			if s[i] == '"' {
				q = '"'
			}
			for i++; i < len(s); i++ {
				if s[i] == q {
					if i+1 < len(s) && s[i+1] == q {
						i++
					} else {
						break
					}
				}
				b.WriteByte(s[i])
			}
		case '.':
			out = append(out, b.String())
			b.Reset()
		default:
			b.WriteByte(s[i])
		}
	}
	return append(out, b.String())
}

func (k *catalog) refresh(db *minidb.DB) error {
	if k.version == db.Version {
		return nil
	}
	k.cat = db.Catalog()
	tx, err := k.db.Begin()
	if err != nil {
		return err
	}
	defer tx.Rollback()
	for _, t := range k.cat.Tables {
		cols := strings.Split(t.Cols, ",")
		for i := range cols {
			cols[i] = `"` + cols[i] + `"`
		}
		if !k.made {
			decl := append([]string(nil), cols...)
			if db.D != minidb.PG { // names compare without regard to case
				for i := range decl {
					decl[i] += " COLLATE NOCASE"
				}
			}
			if _, err := tx.Exec("CREATE TABLE " + t.Name + " (" + strings.Join(decl, ",") + ")"); err != nil {
				return fmt.Errorf("%s: %v", t.Name, err)
			}
		} else if _, err := tx.Exec("DELETE FROM " + t.Name); err != nil {
			return err
		}
		if len(t.Rows) == 0 {
			continue
		}
		st, err := tx.Prepare("INSERT INTO " + t.Name + " VALUES (?" + strings.Repeat(",?", len(cols)-1) + ")")
		if err != nil {
			return err
		}
		for _, r := range t.Rows {
			if _, err := st.Exec(r...); err != nil {
				return err
			}
		}
		st.Close()
	}
	if err := tx.Commit(); err != nil {
		return err
	}
	k.made, k.version = true, db.Version
	return nil
}

var (
	rePGCast   = regexp.MustCompile(`::\s*"?[a-zA-Z_]+"?(\[\])?`)
	rePGAny    = regexp.MustCompile(`(?i)([\w.]+)\s*=\s*any\s*\(\s*([\w.]+)\s*\)`)
	rePGArg    = regexp.MustCompile(`\$(\d+)`)
	rePGAs     = regexp.MustCompile(`(?i)\bas\s+(check|default|primary|unique|table|index|order|group)\b`)
	reMSHint   = regexp.MustCompile(`(?i)\bwith\s*\(\s*nolock\s*\)`)
	reMSAlias  = regexp.MustCompile(`(?m)^(\s*)(\[\w+\]|\w+)\s*=\s*([^\n]*?)(,?)[ \t]*$`)
	reMSJoin   = regexp.MustCompile(`(?i)\bINNER\s+JOIN\b`)
	reMSNStr   = regexp.MustCompile(`\bN'`)
	reFromWord = regexp.MustCompile(`(?i)\bfrom\b`)
)

func rewriteCatalogSQL(d minidb.Dialect, q string) string {
	q = strings.TrimRight(strings.TrimSpace(q), ";")
	switch d {
	case minidb.PG:
		q = rePGCast.ReplaceAllString(q, "")
		q = rePGAny.ReplaceAllString(q, "any_eq($1, $2)")
		q = rePGArg.ReplaceAllString(q, "?$1")
		q = rePGAs.ReplaceAllString(q, `AS "$1"`)
	case minidb.MSSQL:
		q = reMSHint.ReplaceAllString(q, "")
		q = reMSNStr.ReplaceAllString(q, "'")
		// the rows come in the order of the system tables
		q = reMSJoin.ReplaceAllString(q, "CROSS JOIN")
		if loc := reFromWord.FindStringIndex(q); loc != nil {
			q = reMSAlias.ReplaceAllString(q[:loc[0]], "$1$3 AS $2$4") + q[loc[0]:]
		}
	}
	return q
}

// catalogQuery evaluates a catalog query; what it cannot evaluate is noted, so
// that the case is not judged.
func (s *Server) catalogQuery(db *minidb.DB, q string, args []interface{}) (*resultSet, error) {
	if s.cat == nil {
		s.cat = newCatalog(s.D, db.Name)
	}
	fail := func(err error) (*resultSet, error) {
		s.unknown = append(s.unknown, fmt.Sprintf("%v in %s", err, q))
		return nil, fmt.Errorf("stand-in server: %v", err)
	}
	if err := s.cat.refresh(db); err != nil {
		return fail(err)
	}
	rows, err := s.cat.db.Query(rewriteCatalogSQL(s.D, q), args...)
	if err != nil {
		return fail(err)
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return fail(err)
	}
	rs := &resultSet{cols: cols}
	for rows.Next() {
		r := make([]interface{}, len(cols))
		p := make([]interface{}, len(cols))
		for i := range r {
			p[i] = &r[i]
		}
		if err := rows.Scan(p...); err != nil {
			return fail(err)
		}
		for i := range r {
			if b, ok := r[i].([]byte); ok {
				r[i] = string(b)
			}
			if r[i] == sqlNull {
				r[i] = nil
			}
		}
		rs.rows = append(rs.rows, r)
	}
	if err := rows.Err(); err != nil {
		return fail(err)
	}
	return rs, nil
}

func sortFold(n []string) {
	sort.Slice(n, func(i, j int) bool {
		a, b := strings.ToLower(n[i]), strings.ToLower(n[j])
		if a != b {
			return a < b
		}
		return n[i] < n[j]
	})
}
