package main

import (
	"math/rand"
	"sort"
	"strings"

	"verifharness/minidb"
)

// dbProbes are single migrations (current script, desired file) for situations
// that the random generator leaves out or meets too rarely.
var dbProbes = map[minidb.Dialect]map[string][2]string{
	minidb.MySQL: {
		"plain":                  {"CREATE TABLE t (id bigint NOT NULL)", "CREATE TABLE t (id bigint NOT NULL, name varchar(20))"},
		"year":                   {"CREATE TABLE t (id bigint NOT NULL, y year)", "CREATE TABLE t (id bigint NOT NULL, y year, z int)"},
		"tinyint-width":          {"CREATE TABLE t (id bigint NOT NULL, b tinyint(1))", "CREATE TABLE t (id bigint NOT NULL, b tinyint)"},
		"bit-width":              {"CREATE TABLE t (id bigint NOT NULL, b bit(8))", "CREATE TABLE t (id bigint NOT NULL, b bit)"},
		"unique-over-inline":     {"CREATE TABLE t (id bigint NOT NULL, c int UNIQUE, UNIQUE KEY x (c, id))", "CREATE TABLE t (id bigint NOT NULL, c int UNIQUE)"},
		"autoinc-key-changed":    {"CREATE TABLE t (id bigint NOT NULL AUTO_INCREMENT, c int, KEY k (id))", "CREATE TABLE t (id bigint NOT NULL AUTO_INCREMENT, c int, KEY k (id, c))"},
		"autoinc-pk-to-key":      {"CREATE TABLE t (id bigint NOT NULL AUTO_INCREMENT, c int, PRIMARY KEY (id))", "CREATE TABLE t (id bigint NOT NULL AUTO_INCREMENT, c int, KEY k (id))"},
		"implicit-fk-index":      {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint)"},
		"fk-index-changed":       {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id, id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))"},
		"fk-added-index-dropped": {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id))", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))"},
		"fk-reference-changed":   {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE q (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE q (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES q (id))"},
		"fk-set-null-not-null":   {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id) ON DELETE SET NULL)", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint NOT NULL, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id) ON DELETE CASCADE)"},
		"drop-tables-with-fk":    {"CREATE TABLE keep (id bigint NOT NULL); CREATE TABLE a (id bigint NOT NULL PRIMARY KEY); CREATE TABLE b (id bigint NOT NULL, a_id bigint, KEY k (a_id), CONSTRAINT f FOREIGN KEY (a_id) REFERENCES a (id))", "CREATE TABLE keep (id bigint NOT NULL)"},
		"type-and-drop-index":    {"CREATE TABLE t (id bigint NOT NULL, c varchar(20), KEY k (c))", "CREATE TABLE t (id bigint NOT NULL, c text)"},
		"column-comment":         {"CREATE TABLE t (id bigint NOT NULL, c int COMMENT 'x')", "CREATE TABLE t (id bigint NOT NULL, c int COMMENT 'y')"},
		"column-comment-kept":    {"CREATE TABLE t (id bigint NOT NULL, c int COMMENT 'x')", "CREATE TABLE t (id bigint NOT NULL, c bigint COMMENT 'x')"},
		"add-column-comment":     {"CREATE TABLE t (id bigint NOT NULL)", "CREATE TABLE t (id bigint NOT NULL, c bigint COMMENT 'x')"},
		"datetime-precision":     {"CREATE TABLE t (id bigint NOT NULL, c datetime(6))", "CREATE TABLE t (id bigint NOT NULL, c datetime)"},
		"decimal-scale":          {"CREATE TABLE t (id bigint NOT NULL, c decimal(10,2))", "CREATE TABLE t (id bigint NOT NULL, c decimal(10,4))"},
		"index-length":           {"CREATE TABLE t (id bigint NOT NULL, c varchar(20), KEY k (c))", "CREATE TABLE t (id bigint NOT NULL, c varchar(20), KEY k (c(5)))"},
		"leaving-pk":             {"CREATE TABLE t (id bigint PRIMARY KEY, c bigint NOT NULL)", "CREATE TABLE t (id bigint, c bigint NOT NULL, PRIMARY KEY (c))"},
		"table-pk-nullable":      {"CREATE TABLE t (id bigint, c bigint NOT NULL, PRIMARY KEY (id))", "CREATE TABLE t (id bigint, c bigint NOT NULL, d int, PRIMARY KEY (id))"},
		"trigger-dropped":        {"CREATE TABLE t (id bigint NOT NULL); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW insert into t(id) values (1)", "CREATE TABLE t (id bigint NOT NULL)"},
		"charset-prefix":         {"CREATE TABLE t (id bigint NOT NULL, c varchar(10) CHARACTER SET ascii COLLATE ascii_bin) DEFAULT CHARSET=ascii", "CREATE TABLE t (id bigint NOT NULL, c varchar(10) binary, d int) DEFAULT CHARSET=ascii"},
		"default-now-kept":       {"CREATE TABLE t (id bigint NOT NULL, c datetime DEFAULT CURRENT_TIMESTAMP)", "CREATE TABLE t (id bigint NOT NULL, c datetime DEFAULT now( ))"},
		"zerofill":               {"CREATE TABLE t (id bigint NOT NULL, c int(5))", "CREATE TABLE t (id bigint NOT NULL, c int(5) zerofill)"},
		"fk-restrict":            {"CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id))", "CREATE TABLE p (id bigint NOT NULL PRIMARY KEY); CREATE TABLE t (id bigint NOT NULL, p_id bigint, KEY k (p_id), CONSTRAINT f FOREIGN KEY (p_id) REFERENCES p (id) ON DELETE RESTRICT)"},
		"table-twice":            {"", "CREATE TABLE t (id bigint NOT NULL); CREATE TABLE t (id bigint NOT NULL, c int)"},
		"default-now":            {"CREATE TABLE t (id bigint NOT NULL)", "CREATE TABLE t (id bigint NOT NULL, c datetime DEFAULT NOW())"},
		"rename-case-of-default": {"CREATE TABLE t (id bigint NOT NULL, c varchar(10) DEFAULT 'a')", "CREATE TABLE t (id bigint NOT NULL, c varchar(10) DEFAULT 'A')"},
		"trigger-literal-case":   {"CREATE TABLE t (id varchar(9)); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW delete from t where id = 'a'", "CREATE TABLE t (id varchar(9)); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW delete from t where id = 'A'"},
		"trigger-literal-space":  {"CREATE TABLE t (id varchar(9)); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW delete from t where id = 'a b'", "CREATE TABLE t (id varchar(9)); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW delete from t where id = 'ab'"},
	},
}

func probeNames(d minidb.Dialect) []string {
	var o []string
	for n := range dbProbes[d] {
		o = append(o, "probe:"+n)
	}
	sort.Strings(o)
	return o
}

// dbProbe runs one of them.
func (r *Run) dbProbe(d minidb.Dialect, id string, g *rand.Rand) {
	p := dbProbes[d][strings.TrimPrefix(id, "probe:")]
	x := r.rig(d)
	defer x.close()
	cur := minidb.New(d, "testdb")
	if err := cur.ExecScript(p[0]); err != nil {
		r.Inconclusive("%s: %v", id, err)
		return
	}
	x.set(cur)
	r.Eval(id, true)
	ref := minidb.New(d, "testdb")
	err := ref.ExecScript(p[1])
	bad, data := x.judge(p[1], ref, err, false)
	if bad == "" {
		return
	}
	if !r.Known(id, bad) {
		r.Violation(strings.Replace(id, ":", "-", 1), id, bad, data)
	}
}
