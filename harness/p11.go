package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"verifharness/minidb"
)

// C11: files that must be refused before anything is changed.

// broken makes one thing wrong with a valid file given as statements. names are
// quoted names: a desired table, one of its columns, and a table that only the
// database has ("" if there is none).
type broken struct {
	lang             string // mysql, postgres, mssql, sqlite
	stmts            []string
	table, col, gone string
	gaps             func(string) []int
	pg               bool
	kept             [][2]string // tables the database has already, with one of their columns
}

// statements nobody's schema file may contain; %T and %C stand for a table and a column.
var notSchema = []string{
	"INSERT INTO %T VALUES (1)", "INSERT INTO %T (%C) SELECT %C FROM %T", "UPDATE %T SET %C = 1", "DELETE FROM %T", "DELETE FROM %T WHERE %C = 1",
	"SELECT 1", "SELECT * FROM %T", "select %C from %T union select 1", "DROP TABLE %T", "DROP TABLE IF EXISTS %T", "DROP VIEW zz_view", "DROP INDEX zz_index ON %T",
	"drop table %T", "ALTER TABLE %T DROP COLUMN %C", "ALTER TABLE %T RENAME TO zz_new", "ALTER TABLE %T ADD COLUMN zz_new int", "ALTER TABLE %T DROP INDEX zz_index",
	"TRUNCATE TABLE %T", "SET @zz = 1", "SET NAMES utf8", "USE zz_db", "SHOW TABLES", "BEGIN", "COMMIT", "ROLLBACK", "START TRANSACTION",
	"CREATE DATABASE zz_db", "DROP DATABASE zz_db", "GRANT ALL ON %T TO zz_user", "CREATE FUNCTION zz_f() RETURNS int BEGIN RETURN 1 END", "CREATE PROCEDURE zz_p() SELECT 1",
	"CREATE SEQUENCE zz_seq", "EXPLAIN SELECT 1", "CALL zz_p()", "CREATE USER zz_user", "LOCK TABLES %T WRITE", "COMMENT ON TABLE %T IS 'x'", "ANALYZE TABLE %T", "ANALYZE %T", "VACUUM", "PRAGMA foreign_keys = 1",
	"ALTER TABLE %T ADD PRIMARY KEY (%C)", "CREATE TABLE zz_copy LIKE %T", "CREATE TABLE zz_copy AS SELECT * FROM %T", "CREATE EXTENSION zz_ext", "CREATE TYPE zz_type AS ENUM ('a')", "CREATE SCHEMA zz_schema",
	"RENAME TABLE %T TO zz_new", "REPLACE INTO %T VALUES (1)", "EXEC zz_p", "DECLARE @x int", "IF 1 = 1 DROP TABLE %T", "CREATE ROLE zz_role", "REVOKE ALL ON %T FROM zz_user", "MERGE INTO %T", "WITH x AS (SELECT 1) SELECT * FROM x",
	"ALTER TABLE %T MODIFY %C int", "ALTER TABLE %T ALTER COLUMN %C TYPE text", "ALTER TABLE %T CHANGE %C zz_new int", "ALTER TABLE %T DROP PRIMARY KEY", "ALTER TABLE %T ENGINE = InnoDB", "ALTER VIEW zz_view AS SELECT 1",
	"ALTER DATABASE zz_db CHARACTER SET utf8", "CREATE EVENT zz_e ON SCHEDULE EVERY 1 HOUR DO DELETE FROM %T", "OPTIMIZE TABLE %T", "KILL 1", "FLUSH TABLES", "REPAIR TABLE %T",
}

// text that means nothing in any dialect
var nonsense = []string{
	"foo bar baz", "CREATE", "CREATE TABLE", "CREATE TABLE zz_t", "CREATE TABLE zz_t (", "CREATE TABLE zz_t ()", "CREATE TABLE zz_t (a int", "CREATE TABLE zz_t (a int))",
	"CREATE TABLE zz_t (a int,)", "CREATE TABLE zz_t (, a int)", "CREATE TABLE zz_t (a foo)", "CREATE TABLE zz_t (a)x", "CREATE TABLE zz_t (a int b int)", "CREATE TABLE zz_t (a int) (b int)",
	"CREATE INDEX ON", "CREATE INDEX zz_i ON %T", "CREATE INDEX zz_i %T (%C)", "CREATE INDEX zz_i ON %T ()", "CREATE INDEX zz_i ON %T (%C", "CREATE VIEW zz_v", "CREATE VIEW zz_v AS", "CREATE VIEW zz_v AS 1",
	"CREATE VIEW zz_v AS SELECT", "CREATE VIEW zz_v AS SELECT 1 FROM", "CREATE VIEW zz_v AS DELETE FROM %T", "CREATE TABLE zz_t (a int DEFAULT)", "CREATE TABLE zz_t (a varchar(x))", "CREATE TABLE zz_t (a int NOT)",
	"CREATE TABLE zz_t (a int, PRIMARY KEY)", "CREATE TABLE zz_t (a int, PRIMARY KEY ())", "CREATE TABLE zz_t (a int, CONSTRAINT c FOREIGN KEY (a))", "CREATE TABLE zz_t (a int, CONSTRAINT c FOREIGN KEY (a) REFERENCES)",
	"(", ")", "1", "%", "$$", "CREATE TABEL zz_t (a int)", "CREATE TABLE zz_t (a int) CREATE TABLE zz_u (a int)", "\xff\xfe", "été", "CREATE UNIQUE zz_i ON %T (%C)",
	"ALTER TABLE %T", "ALTER TABLE %T ADD", "ALTER TABLE %T ADD INDEX", "ALTER %T ADD INDEX zz_i (%C)", "CREATE TRIGGER zz_trg", "CREATE TRIGGER zz_trg AFTER INSERT ON %T", "CREATE TRIGGER zz_trg AFTER INSERT ON %T FOR EACH ROW", "CREATE POLICY zz_p", "= 1", ",", "CREATE TABLE 'zz_t' ('a' int)",
	"CREATE TABLE zz_t (a int, b)", "CREATE TABLE zz_t a int", "CREATE TABLE zz_t (a int DEFAULT 1 2)", "CREATE TABLE zz_t (a varchar(10) DEFAULT 'it's')",
}

// oneOf makes the file wrong in one way and says how.
func (b *broken) oneOf(g *rand.Rand) (string, string) {
	fill := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "%T", b.table), "%C", b.col)
	}
	put := func(s string) string {
		k := g.Intn(len(b.stmts) + 1)
		l := append(append(append([]string(nil), b.stmts[:k]...), s), b.stmts[k:]...)
		sep := pickN(g, ";\n", ";", " ;\n\n", ";\n-- next\n")
		return strings.Join(l, sep) + pickN(g, "", ";", ";\n")
	}
	for {
		switch g.Intn(13) {
		case 12: // no name
			if b.table == "zz_nosuch" || b.lang == "sqlite" {
				continue
			}
			if len(b.kept) > 0 && chance(g, 1, 2) {
				k := b.kept[g.Intn(len(b.kept))]
				l := append([]string(nil), b.stmts...)
				for i, s := range l {
					if strings.HasPrefix(s, "CREATE TABLE "+k[0]+" (") {
						if e := closing(s, b.gaps(s)); e > 0 {
							f := "CONSTRAINT FOREIGN KEY (" + k[1] + ") REFERENCES " + b.table + " (" + b.col + ")"
							l[i] = strings.TrimRight(s[:e], " \n") + ", " + f + s[e:]
							return strings.Join(l, ";\n"), "without a name: in the table: " + l[i]
						}
					}
				}
			}
			s := "ALTER TABLE " + pickN(g, "", "ONLY ") + b.table + " ADD CONSTRAINT " + "FOREIGN KEY (" + b.col + ") REFERENCES " + b.table + " (" + b.col + ")" + pickN(g, "", " ON DELETE CASCADE")
			return strings.Join(append(append([]string(nil), b.stmts...), s), ";\n") + pickN(g, "", ";"), "without a name: " + s
		case 0, 1, 2:
			s := fill(pick(g, notSchema))
			return put(s), "unsupported statement: " + s
		case 3, 4, 5:
			s := fill(pick(g, nonsense))
			return put(s), "nonsense: " + s
		case 6: // the same once more
			if len(b.stmts) == 0 {
				continue
			}
			k := g.Intn(len(b.stmts))
			s := b.stmts[k]
			l := append(append([]string(nil), b.stmts...), "")
			at := k + 1 + g.Intn(len(b.stmts)-k)
			copy(l[at+1:], l[at:])
			l[at] = s
			return strings.Join(l, ";\n") + ";\n", "twice: " + s
		case 7, 8: // an extra or missing bracket
			if len(b.stmts) == 0 {
				continue
			}
			k := g.Intn(len(b.stmts))
			s := b.stmts[k]
			gaps := b.gaps(s)
			if len(gaps) == 0 {
				continue
			}
			p := gaps[g.Intn(len(gaps))]
			var t string
			if br := strings.IndexAny(s[p:], "()"); br >= 0 && chance(g, 1, 3) {
				// the bracket must be a token
				at := p + br
				tok := false
				for _, q := range gaps {
					tok = tok || q == at
				}
				if !tok {
					continue
				}
				t = s[:at] + " " + s[at+1:]
			} else {
				t = s[:p] + pickN(g, " ( ", " ) ") + s[p:]
			}
			l := append([]string(nil), b.stmts...)
			l[k] = t
			return strings.Join(l, ";\n") + ";\n", "bracket: " + t
		case 9: // about a table that is not in the file
			no := "zz_nosuch"
			if b.gone != "" && chance(g, 1, 2) {
				no = b.gone
			}
			c := []string{"CREATE INDEX zz_i ON " + no + " (zz_c)", "CREATE UNIQUE INDEX zz_i ON " + no + " (zz_c)"}
			if b.lang != "sqlite" {
				c = append(c, "ALTER TABLE "+no+" ADD CONSTRAINT zz_fk FOREIGN KEY (zz_c) REFERENCES "+b.table+" ("+b.col+")", "ALTER TABLE "+no+" ADD INDEX zz_i (zz_c)")
			}
			if b.lang == "postgres" {
				c = append(c, "CREATE POLICY zz_p ON "+no+" FOR SELECT USING (true)")
			}
			s := pick(g, c)
			return put(s), "undefined table: " + s
		case 10: // before its table
			if b.table == "zz_nosuch" {
				continue
			}
			c := []string{"CREATE INDEX zz_i ON " + b.table + " (" + b.col + ")", "ALTER TABLE " + b.table + " ADD INDEX zz_i (" + b.col + ")", "ALTER TABLE " + b.table + " ADD CONSTRAINT zz_fk FOREIGN KEY (" + b.col + ") REFERENCES " + b.table + " (" + b.col + ")"}
			s := pick(g, c)
			return s + ";\n" + strings.Join(b.stmts, ";\n"), "before its table: " + s
		case 11: // what does not end
			s := pickN(g, "CREATE TABLE zz_t (a varchar(9) DEFAULT 'x)", "CREATE TABLE zz_t (a int /* )", "CREATE VIEW zz_v AS SELECT 'a FROM "+b.table, "CREATE TABLE \"zz_t (a int)", "CREATE TABLE `zz_t (a int)")
			if b.lang == "mssql" && chance(g, 1, 3) {
				s = "CREATE TABLE [zz_t (a int)"
			}
			return strings.Join(append(append([]string(nil), b.stmts...), s), ";\n"), "not closed: " + s
		}
	}
}

// closing finds the bracket that closes the first one.
func closing(s string, gaps []int) int {
	depth := 0
	for _, p := range gaps {
		switch s[p] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return p
			}
		}
	}
	return -1
}

func (x *rig) broken(m *move) *broken {
	b := &broken{lang: dname[x.d], table: "zz_nosuch", col: "zz_c", gaps: func(s string) []int { return minidb.Gaps(x.d, s) }}
	sp := spell{d: x.d}
	b.stmts = m.to.Statements(sp)
	if len(m.to.T) > 0 {
		t := m.to.T[0]
		b.table = t.sqlName(sp)
		b.col = sp.id(t.Cols[0].Name)
	}
	for _, t := range m.to.T {
		if m.cur.Table(t.key()) != nil && m.from.table(t.key()) != nil {
			b.kept = append(b.kept, [2]string{t.sqlName(sp), sp.id(t.Cols[0].Name)})
		}
	}
	for _, t := range m.from.T {
		if m.to.table(t.key()) == nil {
			b.gone = t.sqlName(sp)
		}
	}
	return b
}

// breakText makes a file wrong.
func (x *rig) breakText(g *rand.Rand, m *move) string {
	t, _ := x.broken(m).oneOf(g)
	return t
}

func (x *rig) refused(id string, g *rand.Rand) {
	m := randomMove(x.d, g, g.Intn(4))
	if m == nil {
		return
	}
	if chance(g, 1, 8) {
		m.cur = minidb.New(x.d, "testdb")
	}
	b := x.broken(m)
	for k := 0; k < 6; k++ {
		text, how := b.oneOf(g)
		x.set(m.cur)
		v := x.state().Version
		var opts []string
		switch g.Intn(5) {
		case 0:
			opts = append(opts, "--dry-run")
		case 1:
			opts = append(opts, "--skip-drop")
		}
		o, ob := x.run(text, nil, opts...)
		x.r.Eval(text, true)
		kind := how[:strings.Index(how, ":")]
		x.r.Count("refused: "+kind, 1)
		x.r.State("kinds of broken files", how)
		data := map[string]interface{}{"desired": text, "wrong": how, "before": m.cur.Dump(), "output": o.String(), "events": ob.log()}
		if x.trouble(id, o, ob, data) {
			return
		}
		if bad := notRefused(o); bad != "" || len(ob.execs()) > 0 || ob.Version != v {
			if bad == "" {
				bad = fmt.Sprintf("the file is refused after %q was executed", sqls(ob.execs()))
			}
			if x.r.Known("accepted:"+how, bad) {
				continue
			}
			x.r.Violation("accepted", id, how+": "+bad, data)
			return
		}
		for _, e := range ob.Events {
			if e.Kind == "begin" {
				x.r.Violation("transaction", id, how+": a transaction is started for a file that is refused", data)
				return
			}
		}
	}
}

func notRefused(o Out) string {
	switch {
	case o.Code == 0:
		return "the file is accepted: " + o.String()
	case strings.TrimSpace(o.Stderr) == "":
		return "no error message: " + o.String()
	case strings.Contains(o.Stdout, hdrApply) || strings.Contains(o.Stdout, hdrDry) || strings.Contains(o.Stdout, hdrNothing):
		return "the file is refused after its migration has begun: " + o.String()
	}
	return ""
}

// ---- SQLite ----

func liteGaps(s string) []int {
	var o []int
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '\'' || c == '"' || c == '`':
			o = append(o, i)
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return o
			}
			i += j + 2
		case strings.HasPrefix(s[i:], "--") || strings.HasPrefix(s[i:], "/*"):
			return o
		case c == '(' || c == ')':
			o = append(o, i)
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == ',':
			i++
		default:
			o = append(o, i)
			for i < len(s) && !strings.ContainsRune(" \n\t,()'\"`", rune(s[i])) {
				i++
			}
			if i < len(s) && strings.ContainsRune("'\"`", rune(s[i])) && len(o) > 0 {
				continue
			}
		}
	}
	return o
}

func (r *Run) liteRefused(id string, g *rand.Rand) {
	l := r.lite()
	defer l.close()
	s := newLite(g)
	if !l.create(g, s) {
		return
	}
	to := s.mutate(g)
	b := &broken{lang: "sqlite", table: "zz_nosuch", col: "zz_c", gaps: liteGaps}
	for _, t := range to.Tables {
		b.stmts = append(b.stmts, t.sql(g))
	}
	for _, v := range to.Views {
		b.stmts = append(b.stmts, "CREATE VIEW "+quoteLite(g, v.Name)+" AS "+v.Body)
	}
	if len(to.Tables) > 0 {
		b.table, b.col = quoteLite(g, to.Tables[0].Name), quoteLite(g, to.Tables[0].Cols[0].Name)
	}
	before, _ := os.ReadFile(l.db)
	for k := 0; k < 4; k++ {
		text, how := b.oneOf(g)
		opts := []string{}
		if chance(g, 1, 4) {
			opts = append(opts, pickN(g, "--dry-run", "--skip-drop"))
		}
		o := l.run(text, opts...)
		r.Eval(text, true)
		r.Count("refused: "+how[:strings.Index(how, ":")], 1)
		r.State("kinds of broken files", how)
		after, _ := os.ReadFile(l.db)
		data := map[string]interface{}{"desired": text, "wrong": how, "output": o.String()}
		bad := notRefused(o)
		if o.Crashed() || o.Hung {
			bad = "crashed: " + o.String()
		}
		if bad == "" && string(before) != string(after) {
			bad = "the file is refused, but the database was changed"
		}
		if bad != "" {
			if r.Known("accepted:"+how, bad) {
				continue
			}
			r.Violation("accepted", id, how+": "+bad, data)
			return
		}
	}
}

// lite runs sqlite3def on a database file of its own.
type liteRig struct {
	r       *Run
	dir, db string
}

func (r *Run) lite() *liteRig {
	d := r.TempDir()
	return &liteRig{r, d, filepath.Join(d, "db")}
}

func (l *liteRig) close() { os.RemoveAll(l.dir) }

// create makes the database without the tool.
func (l *liteRig) create(g *rand.Rand, s *liteSchema) bool {
	d := openLite(l.db)
	defer d.Close()
	_, err := d.Exec(liteSQL(g, s) + ";")
	if err != nil {
		l.r.Count("generated cases SQLite itself refuses", 1)
		return false
	}
	d.Exec("pragma user_version = 7")
	return true
}

func (l *liteRig) run(text string, opts ...string) Out {
	return l.r.Tool("sqlite3def", append(append([]string(nil), opts...), l.db), text, nil, l.dir)
}
