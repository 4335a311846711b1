package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
)

// C22: the query inspection helpers agree with the parsed statement.

func init() { register("C22", "exploration", checkC22) }

func checkC22(r *Run) {
	r.rule = "a case is one generated statement (or SET statement, or comment list) in one spelling; it counts when the helpers' answers were compared with the statement, distinct by text"
	r.assume = []string{"expressions that are values without identity (true, false, null) cannot be told apart by ReplaceExpr", "an impossible query has an unsatisfiable condition in every select; an aggregate over no rows still yields one row"}
	n := r.N(20000, 700000)
	r.minEvals = n
	r.Cases("statement", n, r.previewCase)
	r.Cases("walk", n, r.walkCase)
	r.Cases("replace", n/2, r.replaceCase)
	r.Cases("impossible", n/2, r.impossibleCase)
	r.Cases("directive", n/2, r.directiveCase)
	r.Cases("margin", n/2, r.marginCase)
	r.Cases("set", n/2, r.setCase)
	r.Cases("plan", n/2, r.planValueCase)
	r.otherStatements()
}

var kindNames = map[int]string{sp.StmtSelect: "SELECT", sp.StmtStream: "STREAM", sp.StmtInsert: "INSERT", sp.StmtReplace: "REPLACE", sp.StmtUpdate: "UPDATE", sp.StmtDelete: "DELETE", sp.StmtDDL: "DDL", sp.StmtBegin: "BEGIN", sp.StmtCommit: "COMMIT", sp.StmtRollback: "ROLLBACK", sp.StmtSet: "SET", sp.StmtShow: "SHOW", sp.StmtUse: "USE", sp.StmtOther: "OTHER", sp.StmtUnknown: "UNKNOWN", sp.StmtComment: "UNKNOWN"}

// kindOf is the kind of a parsed statement.
func kindOf(st sp.Statement) int {
	switch x := st.(type) {
	case *sp.Select, *sp.Union, *sp.ParenSelect:
		return sp.StmtSelect
	case *sp.Stream:
		return sp.StmtStream
	case *sp.Insert:
		if x.Action == "replace" {
			return sp.StmtReplace
		}
		return sp.StmtInsert
	case *sp.Update:
		return sp.StmtUpdate
	case *sp.Delete:
		return sp.StmtDelete
	case *sp.Set:
		return sp.StmtSet
	case *sp.DDL, *sp.DBDDL:
		return sp.StmtDDL
	case *sp.Show:
		return sp.StmtShow
	case *sp.Use:
		return sp.StmtUse
	case *sp.Begin:
		return sp.StmtBegin
	case *sp.Commit:
		return sp.StmtCommit
	case *sp.Rollback:
		return sp.StmtRollback
	case *sp.OtherRead, *sp.OtherAdmin:
		return sp.StmtOther
	}
	return sp.StmtUnknown
}

// a comment or blank that may stand before a statement
func leadIn(g *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < g.Intn(4); i++ {
		switch g.Intn(6) {
		case 0:
			b.WriteString("/*" + strings.ReplaceAll(strings.TrimLeft(pick(g, commentBodies), "!"), "*/", "") + "*/")
		case 1:
			b.WriteString("-- " + pick(g, []string{"", "select", "it's", "/*", "*/", ";"}) + "\n")
		case 2:
			b.WriteString("#" + pick(g, []string{"", "delete", "\"", "/*"}) + "\n")
		case 3:
			b.WriteString("// " + pick(g, []string{"", "update"}) + "\n")
		default:
			b.WriteString(pick(g, []string{" ", "\n", "\t", "\r\n", "  "}))
		}
	}
	return b.String()
}

func (r *Run) previewCase(id string, g *rand.Rand) {
	q := newQ(g)
	kind := q.statement()
	lead := leadIn(g)
	body := q.t.Spell(g, spellOpt{comments: true})
	switch kind {
	case "begin", "commit", "rollback":
		body = q.t.Spell(g, spellOpt{})
		if q.t[0].s == "begin" {
			body = randCase(g, pick(g, []string{"begin", "start transaction"}))
		}
		body += strings.Repeat(" /* x */ ", g.Intn(2))
	default:
		if strings.HasPrefix(q.t.Canon(), "(") {
			body = q.t.Canon() // a comment after the parenthesis would hide the first word
		}
	}
	text := lead + body
	data := map[string]interface{}{"input": text}
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		r.Violation("parse", id, fmt.Sprint(err, pan, " ", text), data)
		return
	}
	want := kindOf(st)
	var got int
	if pan := guard(func() { got = sp.Preview(text) }); pan != "" {
		r.Violation("preview-panic", id, pan, data)
		return
	}
	if got != want {
		r.Violation("preview", id, fmt.Sprintf("%s is taken for %s, it parses as %s", text, sp.StmtType(got), sp.StmtType(want)), data)
		return
	}
	if sp.StmtType(got) != kindNames[got] {
		r.Violation("type-name", id, fmt.Sprintf("kind %d is called %s", got, sp.StmtType(got)), data)
	}
	dml := want == sp.StmtInsert || want == sp.StmtReplace || want == sp.StmtUpdate || want == sp.StmtDelete
	if sp.IsDML(text) != dml {
		r.Violation("dml", id, fmt.Sprintf("IsDML is %v for %s", !dml, text), data)
	}
	// stripping what is before the statement keeps the statement
	rest := sp.StripLeadingComments(text)
	st2, err, pan := parse1(rest)
	if !strings.HasSuffix(strings.TrimSpace(text), rest) || err != nil || pan != "" || diffTree(st, st2) != "" {
		r.Violation("strip", id, fmt.Sprintf("stripping the leading comments leaves %q", rest), data)
	}
	r.Count("kind "+sp.StmtType(got), 1)
	r.Eval("pv"+text, true)
}

func (r *Run) otherStatements() {
	for _, w := range []string{"describe t", "desc t", "explain select 1", "repair table t", "optimize table t", "alter table t add column a int", "create table t (a int)", "drop view v", "drop table t", "rename table a to b", "truncate table t", "create index i on t (a)", "create unique index i on t (a)", "drop index i on t", "show tables", "use db", "stream * from t"} {
		for _, lead := range []string{"", " ", "/* c */", "-- c\n", "#c\n", "/* a */ /* b */ \n"} {
			for _, s := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:]} {
				text := lead + s
				var st sp.Statement
				var err error
				pan := guard(func() { st, err = sp.Parse(text) })
				if err != nil || pan != "" {
					r.Violation("other-parse", "other:"+text, fmt.Sprint(err, pan), nil)
					continue
				}
				if got, want := sp.Preview(text), kindOf(st); got != want {
					r.Violation("preview", "other:"+text, fmt.Sprintf("%s is taken for %s, it parses as %s", text, sp.StmtType(got), sp.StmtType(want)), nil)
				}
				r.Eval("other"+text, true)
			}
		}
	}
	if got := sp.Preview("analyze table t"); got != kindOf(mustParse("analyze table t")) && !r.Known("probe:analyze", "") {
		r.Violation("preview", "probe:analyze", "analyze table t is taken for "+sp.StmtType(got), nil)
	}
	for sql, want := range map[string]int{"/*! select 1 */": sp.StmtSelect, "/*!50000 grant x */": sp.StmtComment, "begin junk": sp.StmtUnknown, "": sp.StmtUnknown, "grant x": sp.StmtUnknown, "selectx 1": sp.StmtUnknown, "select_ 1": sp.StmtUnknown, "commit;x": sp.StmtUnknown, "select": sp.StmtSelect, "insert2": sp.StmtUnknown, "--": sp.StmtUnknown, "/*": sp.StmtUnknown, "#": sp.StmtUnknown} {
		if got := sp.Preview(sql); got != want {
			r.Violation("preview", "fixed:"+sql, fmt.Sprintf("%q is taken for %s", sql, sp.StmtType(got)), nil)
		}
		r.Eval("fixed"+sql, true)
	}
	for _, c := range []struct{ sql, version, inner string }{{"/*!50708 sql here */", "50708", "sql here"}, {"/*! a */", "", "a"}, {"/*!*/", "", ""}, {"/*!50708*/", "50708", ""}, {"/*!5 a b */", "5", "a b"}, {"/*!50708a */", "50708", "a"}, {"/*!507081 a */", "50708", "1 a"}, {"/*!50708   x\n*/", "50708", "x"}} {
		v, in := sp.ExtractMysqlComment(c.sql)
		if v != c.version || in != c.inner {
			r.Violation("mysql-comment", "fixed:"+c.sql, fmt.Sprintf("%q gives %q %q", c.sql, v, in), nil)
		}
		r.Eval("mc"+c.sql, true)
	}
}

// exprsByReflection lists every expression of a statement.
func exprsByReflection(n interface{}) (all []sp.Expr) {
	skip := map[interface{}]bool{}
	visitAll(n, func(v reflect.Value) {
		if !v.CanInterface() {
			return
		}
		x := v.Interface()
		if c, ok := x.(*sp.ConvertType); ok {
			for _, s := range []*sp.SQLVal{c.Length, c.Scale} {
				if s != nil {
					skip[s] = true
				}
			}
		}
		e, ok := x.(sp.Expr)
		if !ok || v.Kind() == reflect.Struct {
			return
		}
		if s, ok := x.(*sp.SQLVal); ok && skip[s] {
			return
		}
		if _, ok := x.(*sp.BoolVal); ok {
			return
		}
		all = append(all, e)
	})
	return
}

func isNilNode(n sp.SQLNode) bool {
	v := reflect.ValueOf(n)
	return !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil()
}

// ident is a key for the occurrence of a node, "" when it has none.
func ident(n sp.SQLNode) string {
	v := reflect.ValueOf(n)
	switch v.Kind() {
	case reflect.Ptr:
		if v.Elem().Type().Size() == 0 {
			return ""
		}
		return fmt.Sprintf("%T%x", n, v.Pointer())
	case reflect.Slice:
		if v.Len() == 0 {
			return ""
		}
		return fmt.Sprintf("%T%x", n, v.Pointer())
	}
	return ""
}

func exprKey(e sp.SQLNode) string {
	return fmt.Sprintf("%T %s", e, sp.String(e))
}

func (r *Run) walkCase(id string, g *rand.Rand) {
	q := newQ(g)
	q.args = true
	if g.Intn(10) == 0 {
		q.set()
	} else {
		q.query()
	}
	text := q.t.Spell(g, spellOpt{comments: true})
	data := map[string]interface{}{"input": text}
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		r.Violation("parse", id, fmt.Sprint(err, pan, " ", text), data)
		return
	}
	var nodes []sp.SQLNode
	seen := map[string]int{}
	var got []string
	werr := error(nil)
	before := sp.String(st)
	if pan := guard(func() {
		werr = sp.Walk(func(n sp.SQLNode) (bool, error) {
			nodes = append(nodes, n)
			if isNilNode(n) {
				return true, nil
			}
			if k := ident(n); k != "" {
				seen[k]++
			}
			if e, ok := n.(sp.Expr); ok {
				got = append(got, exprKey(e))
			}
			return true, nil
		}, st)
	}); pan != "" || werr != nil {
		r.Violation("walk-panic", id, fmt.Sprint(pan, werr), data)
		return
	}
	var want []string
	for _, e := range exprsByReflection(st) {
		want = append(want, exprKey(e))
		if k := ident(e); k != "" && seen[k] != 1 {
			r.Violation("walk-count", id, fmt.Sprintf("%s is visited %d times in %s", exprKey(e), seen[k], before), data)
			return
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		r.Violation("walk-set", id, fmt.Sprintf("visited %q, the statement has %q", got, want), data)
		return
	}
	// names of columns and tables, as often as the statement has them
	names := map[string]int{}
	visitAll(st, func(v reflect.Value) {
		if !v.CanInterface() {
			return
		}
		if ps, ok := v.Interface().(sp.Partitions); ok { // walked only where a statement, not a table, has them
			for _, p := range ps {
				names["?"+nameNode(p)]++
			}
		}
		if v.Kind() == reflect.Struct {
			if n := nameNode(v.Interface()); n != "" {
				names[n]++
			}
		}
	})
	for _, n := range nodes {
		if s := nameNode(n); s != "" {
			names[s]--
		}
	}
	for n, c := range names {
		if !strings.HasPrefix(n, "?") && (c < 0 || c > names["?"+n]) {
			r.Violation("walk-names", id, fmt.Sprintf("%s is visited %d times too few in %s", n, c, before), data)
			return
		}
	}
	// stopping with an error
	k := g.Intn(len(nodes))
	stop := errors.New("stop")
	c := 0
	err = sp.Walk(func(n sp.SQLNode) (bool, error) {
		c++
		if c == k+1 {
			return true, stop
		}
		return true, nil
	}, st)
	if err != stop || c != k+1 {
		r.Violation("walk-stop", id, fmt.Sprintf("stopped at node %d, %d visited, error %v", k+1, c, err), data)
		return
	}
	// not descending
	want2 := map[string]bool{}
	var cut sp.SQLNode = nodes[k]
	if !isNilNode(cut) && ident(cut) != "" {
		for _, e := range exprsByReflection(cut) {
			if i := ident(e); i != "" && i != ident(cut) {
				want2[i] = true
			}
		}
		c, bad := 0, ""
		err = sp.Walk(func(n sp.SQLNode) (bool, error) {
			c++
			if isNilNode(n) {
				return true, nil
			}
			if want2[ident(n)] {
				bad = exprKey(n)
			}
			return ident(n) != ident(cut), nil
		}, st)
		if err != nil || bad != "" {
			r.Violation("walk-descend", id, fmt.Sprintf("not told to descend into %s, still visited %s", exprKey(cut), bad), data)
			return
		}
		// everything outside is still visited
		inside := 0
		sp.Walk(func(n sp.SQLNode) (bool, error) { inside++; return true, nil }, cut)
		if c != len(nodes)-inside+1 {
			r.Violation("walk-rest", id, fmt.Sprintf("without %s (%d nodes) %d of %d nodes were visited", exprKey(cut), inside, c, len(nodes)), data)
			return
		}
	}
	if sp.String(st) != before {
		r.Violation("walk-changes", id, "walking changed the statement", data)
	}
	r.Count("nodes visited", len(nodes))
	r.Eval("walk"+before, len(want) > 2)
}

func nameNode(x interface{}) string {
	switch x := x.(type) {
	case sp.ColIdent:
		if x.String() != "" {
			return "column name " + x.String()
		}
	case sp.TableIdent:
		if x.String() != "" {
			return "table name " + x.String()
		}
	}
	return ""
}

// slots lists the places of an expression that hold an expression, outside subqueries.
func slots(v reflect.Value, out *[]reflect.Value, d int) {
	if !v.IsValid() || d > 300 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == reflect.TypeOf((*sp.Expr)(nil)).Elem() && v.CanSet() {
			*out = append(*out, v)
		}
		slots(v.Elem(), out, d+1)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if _, ok := v.Interface().(*sp.Subquery); ok {
			return
		}
		slots(v.Elem(), out, d+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				slots(v.Field(i), out, d+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			slots(v.Index(i), out, d+1)
		}
	}
}

func (r *Run) replaceCase(id string, g *rand.Rand) {
	q := newQ(g)
	q.args = true
	q.kw("select")
	q.sp()
	q.expr(0)
	q.sp()
	q.kw("from")
	q.sp()
	q.add(tkID, "t")
	text := q.t.Canon()
	data := map[string]interface{}{"input": text}
	root := func() sp.Expr {
		st, err, _ := parse1(text)
		if err != nil {
			return nil
		}
		return st.(*sp.Select).SelectExprs[0].(*sp.AliasedExpr).Expr
	}
	a := root()
	if a == nil {
		r.Violation("parse", id, text, data)
		return
	}
	marker := sp.NewValArg([]byte(":the_new_one"))
	var sl []reflect.Value
	slots(reflect.ValueOf(a), &sl, 0)
	for t := 0; t < 4; t++ {
		k := g.Intn(len(sl) + 1)
		a, b := root(), root()
		var sa, sb []reflect.Value
		slots(reflect.ValueOf(a), &sa, 0)
		slots(reflect.ValueOf(b), &sb, 0)
		if len(sa) != len(sl) || len(sb) != len(sl) {
			r.Violation("parse-differs", id, "parsing twice gives different statements", data)
			return
		}
		var from sp.Expr
		want := ""
		if k == len(sl) {
			from, want = a, sp.String(marker)
		} else {
			from = sa[k].Interface().(sp.Expr)
			sb[k].Set(reflect.ValueOf(marker))
			want = sp.String(b)
		}
		if ident(from) == "" {
			continue
		}
		shown := exprKey(from)
		var res sp.Expr
		if pan := guard(func() { res = sp.ReplaceExpr(a, from, marker) }); pan != "" {
			r.Violation("replace-panic", id, pan, data)
			return
		}
		if got := sp.String(res); got != want {
			r.Violation("replace", id, fmt.Sprintf("replacing %s in %s gives\n%s\ninstead of\n%s", shown, text, got, want), data)
			return
		}
		// an expression that does not occur is not replaced
		c := root()
		other := sp.NewStrVal([]byte("elsewhere"))
		if got := sp.String(sp.ReplaceExpr(c, other, marker)); got != sp.String(root()) {
			r.Violation("replace-foreign", id, "replacing a foreign expression gives "+got, data)
			return
		}
		r.Count("occurrences replaced", 1)
		r.State("kinds of expressions replaced", fmt.Sprintf("%T", from))
		r.Eval(fmt.Sprint("repl", k, text), true)
	}
}

func (r *Run) impossibleCase(id string, g *rand.Rand) {
	q := newQ(g)
	q.args = true
	q.selectStmt(true)
	text := q.t.Spell(g, spellOpt{comments: true})
	data := map[string]interface{}{"input": text}
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		r.Violation("parse", id, fmt.Sprint(err, pan, " ", text), data)
		return
	}
	st2, _, _ := parse1(text)
	before := sp.String(st)
	var pq *sp.ParsedQuery
	if pan := guard(func() {
		buf := sp.NewTrackedBuffer(sp.FormatImpossibleQuery)
		buf.Myprintf("%v", st)
		pq = buf.ParsedQuery()
	}); pan != "" {
		r.Violation("impossible-panic", id, pan, data)
		return
	}
	if sp.String(st) != before {
		r.Violation("impossible-changes", id, "the statement was changed", data)
		return
	}
	// the model: every select keeps its columns, tables and grouping, and nothing else
	n := 0
	visitAll(st2, func(v reflect.Value) {
		if !v.CanInterface() {
			return
		}
		switch x := v.Interface().(type) {
		case *sp.Select:
			n++
			*x = sp.Select{SelectExprs: x.SelectExprs, From: x.From, GroupBy: x.GroupBy,
				Where: sp.NewWhere("where", &sp.ComparisonExpr{Operator: "!=", Left: sp.NewIntVal([]byte("1")), Right: sp.NewIntVal([]byte("1"))})}
		case *sp.Union:
			x.OrderBy, x.Limit, x.Lock = nil, nil, ""
		}
	})
	want := sp.String(st2)
	if pq.Query != want {
		r.Violation("impossible", id, fmt.Sprintf("got\n%s\nexpected\n%s", pq.Query, want), data)
		return
	}
	if _, err, pan := parse1(pq.Query); err != nil || pan != "" {
		r.Violation("impossible-parse", id, fmt.Sprint(err, pan, " ", pq.Query), data)
		return
	}
	if c := strings.Count(pq.Query, "where 1 != 1"); c < n && n > 0 && c == 0 {
		r.Violation("impossible-rows", id, pq.Query, data)
		return
	}
	r.Count("selects made impossible", n)
	r.Eval("imp"+before, true)
}

func (r *Run) directiveCase(id string, g *rand.Rand) {
	keys := []string{"A", "SKIP_QUERY_PLAN_CACHE", "QUERY_TIMEOUT_MS", "MULTI_SHARD_AUTOCOMMIT", "x", "K_1"}
	want := map[string]interface{}{}
	var comments []string
	any := false
	for i := 0; i < 1+g.Intn(3); i++ {
		if g.Intn(4) == 0 {
			comments = append(comments, pick(g, []string{"/* A=5 */", "/*vt A=5 */", "/* vt+ A=1 */", "/**/", "/*+ x */"}))
			continue
		}
		any = true
		c := "/*vt+"
		for j := 0; j < g.Intn(4); j++ {
			k := pick(g, keys)
			c += pick(g, []string{" ", "  ", "\n", "\t"})
			switch g.Intn(6) {
			case 0:
				c += k
				want[k] = true
			case 1:
				n := g.Intn(2000) - 1000
				c += fmt.Sprintf("%s=%d", k, n)
				want[k] = n
			case 2:
				c += k + "=1"
				want[k] = 1
			case 3:
				b := g.Intn(2) == 0
				c += fmt.Sprintf("%s=%v", k, b)
				want[k] = b
			case 4:
				s := pick(g, []string{"abc", "1a", "a=b", "", "x-y", "'q'", "1.5"})
				c += k + "=" + s
				want[k] = s
			case 5:
				s := pick(g, []string{"T", "f", "TRUE", "False"})
				c += k + "=" + s
				want[k] = s == "T" || s == "TRUE"
			}
		}
		comments = append(comments, c+pick(g, []string{" ", "\n", "  "})+"*/")
	}
	verb, rest := "select", " a from t"
	switch g.Intn(5) {
	case 0:
		verb, rest = "insert", " into t values (1)"
	case 1:
		verb, rest = "update", " t set a = 1"
	case 2:
		verb, rest = "delete", " from t"
	case 3:
		verb, rest = "set", " a = 1"
	}
	text := randCase(g, verb) + " " + strings.Join(comments, pick(g, []string{" ", "", "\n"})) + rest
	data := map[string]interface{}{"input": text}
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		r.Violation("parse", id, fmt.Sprint(err, pan, " ", text), data)
		return
	}
	plain := mustParse(verb + rest)
	var cs sp.Comments
	switch x := st.(type) {
	case *sp.Select:
		cs, x.Comments = x.Comments, nil
	case *sp.Insert:
		cs, x.Comments = x.Comments, nil
	case *sp.Update:
		cs, x.Comments = x.Comments, nil
	case *sp.Delete:
		cs, x.Comments = x.Comments, nil
	case *sp.Set:
		cs, x.Comments = x.Comments, nil
	}
	if d := diffTree(st, plain); d != "" {
		r.Violation("comment-changes", id, "comments change the statement: "+d, data)
	}
	var gc []string
	for _, c := range cs {
		gc = append(gc, string(c))
	}
	if strings.Join(gc, "|") != strings.Join(comments, "|") {
		r.Violation("comments", id, fmt.Sprintf("comments %q, expected %q", gc, comments), data)
		return
	}
	got := sp.ExtractCommentDirectives(cs)
	if (got == nil) != !any || len(got) != len(want) {
		r.Violation("directives", id, fmt.Sprintf("%v instead of %v for %q", got, want, text), data)
		return
	}
	for k, v := range want {
		if got[k] != v {
			r.Violation("directives", id, fmt.Sprintf("%s is %v instead of %v for %q", k, got[k], v, text), data)
			return
		}
	}
	for _, k := range append(keys, "nope") {
		if set := want[k] == true || want[k] == 1; got.IsSet(k) != set {
			r.Violation("isset", id, fmt.Sprintf("IsSet(%s) is %v for %q", k, !set, text), data)
		}
	}
	st2, _, _ := parse1(text)
	w := verb != "set" && (want["SKIP_QUERY_PLAN_CACHE"] == true || want["SKIP_QUERY_PLAN_CACHE"] == 1)
	if sp.SkipQueryPlanCacheDirective(st2) != w {
		r.Violation("skip-cache", id, fmt.Sprintf("%v for %q", !w, text), data)
	}
	r.Eval("dir"+text, any)
}

func (r *Run) marginCase(id string, g *rand.Rand) {
	ws := func() string {
		return pick(g, []string{"", "", " ", "\n", "\t ", "\u00a0", "\u2003"})
	}
	cm := func() string {
		return "/*" + pick(g, []string{"", " c ", "x", " it's ", "*", " ** ", " \" ", "日", "-- ", "!50000 x", "vt+ A=1 "}) + "*/"
	}
	lead, trail := "", ""
	for i := 0; i < g.Intn(3); i++ {
		lead += cm() + ws()
	}
	for i := 0; i < g.Intn(3); i++ {
		trail += ws() + cm()
	}
	body := pick(g, []string{"select 1", "a", "select '/*' from t", "select \"*/\"", "select /* in */ 1", "", "select 1 -- x", "select 'é'", "/ * x", "a*/b"})
	text := ws() + lead + ws() + body + trail + ws()
	var query string
	var mc sp.MarginComments
	if pan := guard(func() { query, mc = sp.SplitMarginComments(text) }); pan != "" {
		r.Violation("margin-panic", id, pan, map[string]interface{}{"input": text})
		return
	}
	fields := func(s string) string { return strings.Join(strings.Fields(s), "") }
	data := map[string]interface{}{"input": text}
	if body == "" {
		if fields(mc.Leading+query+mc.Trailing) != fields(text) {
			r.Violation("margin-lost", id, fmt.Sprintf("%q is split into %q %q %q", text, mc.Leading, query, mc.Trailing), data)
		}
		r.Eval("mar"+text, true)
		return
	}
	if query != body || fields(mc.Leading) != fields(lead) || fields(mc.Trailing) != fields(trail) {
		r.Violation("margin", id, fmt.Sprintf("%q is split into %q %q %q", text, mc.Leading, query, mc.Trailing), data)
		return
	}
	r.Eval("mar"+text, lead+trail != "")
}

func (r *Run) setCase(id string, g *rand.Rand) {
	type kv struct {
		k sp.SetKey
		v interface{}
	}
	var parts []string
	want := map[sp.SetKey]interface{}{}
	scopeKw := ""
	if g.Intn(3) == 0 {
		scopeKw = pick(g, []string{"session", "global"})
	}
	bad := ""
	for i := 0; i < 1+g.Intn(4); i++ {
		name := pick(g, []string{"autocommit", "sql_mode", "Wait_Timeout", "charset", "a1", "net_write_timeout"})
		lk := strings.ToLower(name)
		key := sp.SetKey{Key: lk, Scope: "session"}
		lhs := name
		switch g.Intn(8) {
		case 0:
			lhs = "@@" + name
		case 1:
			lhs = "@@session." + name
		case 2:
			lhs = "@@global." + name
			key.Scope = "global"
		case 3:
			lhs = "@@GLOBAL." + strings.ToUpper(name)
			key.Scope = "global"
		case 4:
			lhs = "@@session.`" + name + "`"
		}
		if strings.HasPrefix(lhs, "@@") && scopeKw != "" {
			bad = "mixed scopes"
		}
		if name == "charset" && !strings.HasPrefix(lhs, "@@") {
			lhs = "`charset`"
		}
		var rhs string
		var val interface{}
		switch g.Intn(9) {
		case 0:
			s := pick(g, []string{"", "ABC", "Strict_All", "it's", "a;b"})
			rhs, val = spellStr(g, s), strings.ToLower(s)
		case 1:
			n := g.Int63() - g.Int63()
			if n < 0 {
				n = -n
			}
			rhs, val = strconv.FormatInt(n, 10), n
		case 2:
			rhs, val = "true", int64(1)
		case 3:
			rhs, val = "FALSE", int64(0)
		case 4:
			rhs, val = "null", nil
		case 5:
			rhs, val = "default", "default"
		case 6:
			rhs, val = "Abc", "Abc"
		case 7:
			rhs, val = fmt.Sprint(-5), int64(-5)
		case 8:
			rhs = pick(g, []string{"1.5", "a + 1", "x'41'", ":v", "(select 1 from t)", "99999999999999999999"})
			bad = "value"
		}
		if bad == "" && g.Intn(12) == 0 && scopeKw == "" && !strings.HasPrefix(lhs, "@@") {
			rhs, val = "on", "on"
			if g.Intn(2) == 0 {
				rhs, val = "off", "off"
			}
		}
		want[key] = val
		parts = append(parts, lhs+pick(g, []string{" = ", "=", " =\n"})+rhs)
	}
	sep := ""
	if scopeKw != "" {
		sep = scopeKw + " "
	}
	text := leadIn(g) + randCase(g, "set") + " " + sep + strings.Join(parts, ", ")
	data := map[string]interface{}{"input": text}
	got, scope, err := map[sp.SetKey]interface{}(nil), "", error(nil)
	if pan := guard(func() { got, scope, err = sp.ExtractSetValues(text) }); pan != "" {
		r.Violation("set-panic", id, pan, data)
		return
	}
	if bad != "" {
		// an unusable value or a mix of scopes is an error, unless a later one replaced it
		if err == nil {
			r.Violation("set-accepts", id, fmt.Sprintf("%s: %q gives %v", bad, text, got), data)
		}
		r.Eval("setbad"+text, true)
		return
	}
	if err != nil || scope != scopeKw || !reflect.DeepEqual(got, want) {
		r.Violation("set", id, fmt.Sprintf("%q gives %v %q %v, expected %v %q", text, got, scope, err, want, scopeKw), data)
		return
	}
	r.Eval("set"+text, true)
}

// planValueCase: NewPlanValue, IsValue, IsNull, IsSimpleTuple, IsColName, ExprFromValue, GetTableName.
func (r *Run) planValueCase(id string, g *rand.Rand) {
	type ex struct {
		sql               string
		value, null, name bool
		plan              string // "" when too complex
	}
	one := func() ex {
		switch g.Intn(10) {
		case 0:
			s := hostileBytes(g)
			return ex{canonStr(s), true, false, false, fmt.Sprintf("V%v:%q", qp.Type_VARBINARY, s)}
		case 1:
			n := g.Int63()
			return ex{fmt.Sprint(n), true, false, false, fmt.Sprintf("V%v:\"%d\"", qp.Type_INT64, n)}
		case 2:
			return ex{"18446744073709551615", true, false, false, fmt.Sprintf("V%v:\"18446744073709551615\"", qp.Type_UINT64)}
		case 3:
			return ex{"99999999999999999999", true, false, false, ""}
		case 4:
			return ex{":v1", true, false, false, "K:v1"}
		case 5:
			return ex{"x'4142'", true, false, false, fmt.Sprintf("V%v:\"AB\"", qp.Type_VARBINARY)}
		case 6:
			return ex{"null", false, true, false, "N"}
		case 7:
			return ex{pick(g, []string{"a", "t.a", "`x`"}), false, false, true, ""}
		case 8:
			return ex{pick(g, []string{"1.5", "a + 1", "f(1)", "b'1'", "true", "-a", "not 1", "(1)"}), false, false, false, ""}
		}
		return ex{"-5", true, false, false, fmt.Sprintf("V%v:\"-5\"", qp.Type_INT64)}
	}
	show := func(pv sqltypes.PlanValue) string {
		var f func(pv sqltypes.PlanValue) string
		f = func(pv sqltypes.PlanValue) string {
			switch {
			case pv.Key != "":
				return "K:" + pv.Key
			case pv.ListKey != "":
				return "L:" + pv.ListKey
			case pv.Values != nil:
				var ss []string
				for _, v := range pv.Values {
					ss = append(ss, f(v))
				}
				return "T(" + strings.Join(ss, "|") + ")"
			case pv.Value.IsNull():
				return "N"
			}
			return fmt.Sprintf("V%v:%q", pv.Value.Type(), pv.Value.Raw())
		}
		return f(pv)
	}
	check := func(sql string, e sp.Expr, w ex) bool {
		data := map[string]interface{}{"expression": sql}
		pv, err := sqltypes.PlanValue{}, error(nil)
		if pan := guard(func() { pv, err = sp.NewPlanValue(e) }); pan != "" {
			r.Violation("plan-panic", id, pan, data)
			return false
		}
		if (err == nil) != (w.plan != "") || err == nil && show(pv) != w.plan {
			r.Violation("plan-value", id, fmt.Sprintf("%s gives %s %v, expected %s", sql, show(pv), err, w.plan), data)
			return false
		}
		if sp.IsValue(e) != w.value || sp.IsNull(e) != w.null || sp.IsColName(e) != w.name {
			r.Violation("is-value", id, fmt.Sprintf("%s: value %v null %v column %v", sql, sp.IsValue(e), sp.IsNull(e), sp.IsColName(e)), data)
			return false
		}
		return true
	}
	w := one()
	e := mustParse("select " + w.sql).(*sp.Select).SelectExprs[0].(*sp.AliasedExpr).Expr
	if !check(w.sql, e, w) {
		return
	}
	if sp.IsSimpleTuple(e) {
		r.Violation("simple-tuple", id, w.sql+" is taken for a tuple", nil)
	}
	// tuples
	n := 1 + g.Intn(4)
	var ss, ps []string
	simple, ok := true, true
	for i := 0; i < n; i++ {
		x := one()
		ss = append(ss, x.sql)
		simple = simple && x.value
		ok = ok && x.plan != ""
		ps = append(ps, x.plan)
	}
	wt := ex{plan: "T(" + strings.Join(ps, "|") + ")"}
	if !ok {
		wt.plan = ""
	}
	sql := "(" + strings.Join(ss, ", ") + ")"
	switch g.Intn(6) {
	case 0:
		sql, wt, simple = "::list", ex{plan: "L:list"}, true
	case 1:
		sql, wt, simple = "((1, 2), (3, 4))", ex{}, false
	}
	e = mustParse("select 1 from t where a in " + sql).(*sp.Select).Where.Expr.(*sp.ComparisonExpr).Right
	if !check(sql, e, wt) {
		return
	}
	if sp.IsSimpleTuple(e) != simple {
		r.Violation("simple-tuple", id, fmt.Sprintf("%s: %v", sql, !simple), nil)
		return
	}
	// a typed value as an expression
	t, raw, enc := randScalar(g)
	v := sqltypes.MakeTrusted(t, raw)
	ev, err := sp.ExprFromValue(v)
	if err != nil || sp.String(ev) != enc {
		r.Violation("expr-from-value", id, fmt.Sprintf("%v gives %v %v", v, ev, err), nil)
		return
	}
	if _, err := sp.ExprFromValue(sqltypes.MakeTrusted(qp.Type_EXPRESSION, []byte("a"))); err == nil {
		r.Violation("expr-from-value", id, "an expression value is accepted", nil)
	}
	// table names
	for sql, want := range map[string]string{"t1": "t1", "d.t1": "", "(select 1 from t2) as x": "", "`a b`": "a b"} {
		f := mustParse("select 1 from " + sql).(*sp.Select).From[0].(*sp.AliasedTableExpr)
		if got := sp.GetTableName(f.Expr).String(); got != want {
			r.Violation("table-name", id, fmt.Sprintf("%s gives %q", sql, got), nil)
		}
	}
	if !sp.StringIn("a", "b", "a") || sp.StringIn("a") || sp.StringIn("a", "A", "ab", "") {
		r.Violation("string-in", id, "StringIn", nil)
	}
	r.Eval("pl"+w.sql+sql+enc, true)
}
