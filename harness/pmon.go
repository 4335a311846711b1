package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"verifharness/minidb"
)

// Monitors that hold for every server database: C05 - C11 and C21.

// dialects under test
var serverDialects = []minidb.Dialect{minidb.MySQL, minidb.PG, minidb.MSSQL}

var dname = map[minidb.Dialect]string{minidb.MySQL: "mysql", minidb.PG: "postgres", minidb.MSSQL: "mssql"}

// move is one migration: where it starts, where it should end.
type move struct {
	from, to *aSchema
	cur, ref *minidb.DB
	text     string
	edits    []string
}

// randomMove makes a migration after a short random history.
func randomMove(d minidb.Dialect, g *rand.Rand, edits int) *move {
	s := newSchema(d, g)
	for n := g.Intn(3); n > 0; n-- {
		s, _ = s.mutate(g, 1+g.Intn(4))
	}
	m := &move{from: s}
	m.to, m.edits = s.mutate(g, edits)
	var err error
	if m.cur, err = s.reference(); err != nil {
		return nil
	}
	if m.ref, err = m.to.reference(); err != nil {
		return nil
	}
	var sg *rand.Rand
	if chance(g, 1, 2) {
		sg = g
	}
	m.text = m.to.Script(sg)
	return m
}

func (m *move) data(o Out, ob *observation) map[string]interface{} {
	x := map[string]interface{}{"desired": m.text, "before": m.cur.Dump(), "edits": m.edits, "output": o.String()}
	if ob != nil {
		x["events"] = ob.log()
	}
	return x
}

// perDialect runs a family of cases for every server database.
func (r *Run) perDialect(name string, quick, thorough int, f func(x *rig, id string, g *rand.Rand)) {
	for _, d := range serverDialects {
		d := d
		r.Cases(dname[d]+"-"+name, r.N(quick, thorough), func(id string, g *rand.Rand) {
			x := r.rig(d)
			defer x.close()
			f(x, id, g)
		})
	}
}

// trouble reports what makes a run unusable for judging, or a crash.
func (x *rig) trouble(id string, o Out, ob *observation, data map[string]interface{}) bool {
	if len(ob.Unknown) > 0 {
		x.r.Inconclusive("%s: %s", id, ob.Unknown[0])
		return true
	}
	if o.Crashed() && !o.Hung && x.d == minidb.MSSQL && strings.HasPrefix(o.Stderr, "panic: driver.ErrBadConn in checkBadConn. This should not happen.\n") {
		for _, e := range ob.Events {
			// go-mssqldb ends the process itself when the connection is lost during a
			// statement: the run is judged like any other that fails
			if e.Faulted && x.r.Known("driver-panic-on-lost-connection", "") {
				return false
			}
		}
	}
	if o.Crashed() || o.Hung {
		x.r.Violation("crash", id, "the tool crashed or hung: "+o.String(), data)
		return true
	}
	return false
}

func sqls(evs []Event) []string {
	var o []string
	for _, e := range evs {
		o = append(o, e.SQL)
	}
	return o
}

// align reads a printed body as the plan with some statements marked as skipped.
func align(body string, plan []string) ([]bool, bool) {
	var fl []bool
	for _, p := range plan {
		switch {
		case strings.HasPrefix(body, p+";\n"):
			fl = append(fl, false)
			body = body[len(p)+2:]
		case strings.HasPrefix(body, "-- Skipped: "+p+";\n"):
			fl = append(fl, true)
			body = body[len(p)+14:]
		default:
			return fl, false
		}
	}
	return fl, body == ""
}

// bodyOf cuts the header off.
func bodyOf(o Out, hdr string) (string, bool) {
	if !strings.HasPrefix(o.Stdout, hdr+"\n") {
		return "", false
	}
	return o.Stdout[len(hdr)+1:], true
}

// ---- C05 ----

func (x *rig) respell(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 0)
	if m == nil {
		return
	}
	x.set(m.cur)
	for k := 0; k < 3; k++ {
		text := m.from.Script(g)
		x.r.Eval(text, true)
		x.r.State("spellings", text)
		opts := [][]string{nil, {"--dry-run"}, {"--skip-drop"}}[k]
		o, ob := x.run(text, nil, opts...)
		data := map[string]interface{}{"desired": text, "plain": m.from.Script(nil), "output": o.String(), "events": ob.log()}
		if x.trouble(id, o, ob, data) {
			return
		}
		if !isNothing(o) || len(ob.execs()) > 0 {
			x.r.Violation("respelling", id, "a file that says what the database has is not without effect: "+o.String(), data)
			return
		}
	}
	// the server's own spelling
	e, ob := x.run("", nil, "--export")
	if x.trouble(id, e, ob, nil) || e.Code != 0 {
		return
	}
	text := e.Stdout
	x.r.Eval(text, true)
	o, ob := x.run(text, nil)
	if !isNothing(o) || len(ob.execs()) > 0 {
		x.r.Violation("server-spelling", id, "the server's own spelling of its schema is not without effect: "+o.String(), map[string]interface{}{"desired": text, "events": ob.log()})
	}
}

// ---- C06 ----

// moved gives the MySQL columns that are to change places: those on the other side of some
// column that exists before and after as well.
func moved(cur, want *minidb.DB) map[string]bool {
	m := map[string]bool{}
	for _, t := range cur.Tables {
		for _, w := range want.Tables {
			if w.Key() != t.Key() {
				continue
			}
			pos := map[string]int{}
			for i, c := range w.Cols {
				pos[c.Name] = i
			}
			for i, a := range t.Cols {
				for _, b := range t.Cols[i+1:] {
					p, ok := pos[a.Name]
					q, ok2 := pos[b.Name]
					if ok && ok2 && p > q {
						m["column "+t.Key()+"."+a.Name] = true
						m["column "+t.Key()+"."+b.Name] = true
					}
				}
			}
		}
	}
	return m
}

func (x *rig) onlyDiffers(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 1+g.Intn(4))
	if m == nil {
		return
	}
	x.set(m.cur)
	idsBefore := m.cur.Identities()
	var opts []string
	if chance(g, 1, 4) {
		opts = []string{"--skip-drop"}
	}
	o, ob := x.run(m.text, nil, opts...)
	x.r.Eval(m.text, len(ob.execs()) > 0)
	for _, e := range m.edits {
		x.r.Count("edit: "+e, 1)
	}
	data := m.data(o, ob)
	if x.trouble(id, o, ob, data) {
		return
	}
	before, want := m.cur.Objects(), m.ref.Objects()
	move := moved(m.cur, m.ref)
	same := func(k string) bool {
		w, ok := want[k]
		b, had := before[k]
		return ok && had && w == b
	}
	for _, e := range ob.execs() {
		if e.Eff == nil {
			continue
		}
		x.r.Count("executed statements judged", 1)
		for _, k := range e.Eff.Touched {
			if !same(k) {
				continue
			}
			if x.d == minidb.MySQL && move[k] {
				x.r.Count("columns moved", 1)
				continue
			}
			x.r.Violation("untouched-object-changed", id, fmt.Sprintf("edits %v: %s is the same in both schemas but is the subject of %q", m.edits, k, e.SQL), data)
			return
		}
		for _, k := range e.Eff.Dropped() {
			if same(k) && !x.implicit(e, k) {
				x.r.Violation("untouched-object-dropped", id, fmt.Sprintf("edits %v: %s is the same in both schemas but is gone after %q", m.edits, k, e.SQL), data)
				return
			}
			if _, ok := want[k]; ok && e.Eff.Verb == "drop table" {
				x.r.Violation("table-dropped", id, fmt.Sprintf("edits %v: %s is wanted but was dropped by %q", m.edits, k, e.SQL), data)
				return
			}
		}
	}
	// tables and columns (hence their rows and values) that exist before and after are the same ones
	for k, v := range idsBefore {
		if _, ok := want[k]; !ok {
			continue
		}
		x.r.Count("surviving tables and columns checked", 1)
		if ob.IDs[k] != v {
			x.r.Violation("data-lost", id, fmt.Sprintf("edits %v: %s exists before and after but is not the same one: its data is lost", m.edits, k), data)
			return
		}
	}
}

// implicit: MySQL itself drops an index it made for a foreign key once it is covered.
func (x *rig) implicit(e Event, k string) bool {
	return x.d == minidb.MySQL && strings.HasPrefix(k, "index ") && !strings.Contains(strings.ToUpper(e.SQL), "DROP")
}

// ---- C07 ----

func (x *rig) dryRun(id string, g *rand.Rand) {
	m := randomMove(x.d, g, g.Intn(6))
	if m == nil {
		return
	}
	if chance(g, 1, 6) { // files that are refused
		m.text = x.breakText(g, m)
	}
	var base []string
	if chance(g, 1, 2) {
		base = []string{"--skip-drop"}
	}
	x.set(m.cur)
	v := x.state().Version
	dry, ob := x.run(m.text, nil, append([]string{"--dry-run"}, base...)...)
	x.r.Eval(m.text, !isNothing(dry))
	data := m.data(dry, ob)
	if x.trouble(id, dry, ob, data) {
		return
	}
	if n := len(ob.execs()); n > 0 || ob.Version != v {
		x.r.Violation("dry-run-executes", id, fmt.Sprintf("--dry-run sent %q", sqls(ob.execs())), data)
		return
	}
	app, oa := x.run(m.text, nil, base...)
	data["apply"], data["apply events"] = app.String(), oa.log()
	if x.trouble(id, app, oa, data) {
		return
	}
	if isNothing(dry) || isNothing(app) {
		if !isNothing(dry) || !isNothing(app) || len(oa.execs()) > 0 {
			x.r.Violation("dry-run-differs", id, "only one of dry run and apply says that nothing is modified", data)
		}
		return
	}
	db, ok1 := bodyOf(dry, hdrDry)
	ab, ok2 := bodyOf(app, hdrApply)
	if !ok1 || !ok2 {
		if ok1 || ok2 || dry.Code == 0 || app.Code == 0 || dry.Stderr != app.Stderr || dry.Stdout != app.Stdout {
			x.r.Violation("dry-run-differs", id, "dry run and apply end differently: "+dry.String()+" / "+app.String(), data)
		} else {
			x.r.Count("refused files compared", 1)
		}
		return
	}
	if dry.Code != 0 || dry.Stderr != "" {
		x.r.Violation("dry-run-fails", id, "a dry run that prints its statements fails: "+dry.String(), data)
		return
	}
	if app.Code == 0 && db != ab || app.Code != 0 && !strings.HasPrefix(db, ab) {
		x.r.Violation("dry-run-differs", id, "the dry run prints other statements than the apply run", data)
		return
	}
	x.r.Count("plans compared", 1)
	// printed as executed
	rest := ab
	for _, e := range oa.execs() {
		for strings.HasPrefix(rest, "-- Skipped: ") && !strings.HasPrefix(rest, e.SQL+";\n") {
			if !x.skipOne(&rest) {
				break
			}
		}
		if !strings.HasPrefix(rest, e.SQL+";\n") {
			x.r.Violation("printed-not-executed", id, fmt.Sprintf("executed %q, but printed next is %q", e.SQL, cutText(rest, 200)), data)
			return
		}
		rest = rest[len(e.SQL)+2:]
	}
	for strings.HasPrefix(rest, "-- Skipped: ") && x.skipOne(&rest) {
	}
	if rest != "" {
		x.r.Violation("printed-not-executed", id, fmt.Sprintf("printed but never executed: %q", cutText(rest, 200)), data)
	}
}

func cutText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// skipOne removes one skipped statement (which drops something, so it has no ";\n" inside).
func (x *rig) skipOne(rest *string) bool {
	i := strings.Index(*rest, ";\n")
	if i < 0 {
		return false
	}
	*rest = (*rest)[i+2:]
	return true
}

// ---- C08 ----

var dropWord = regexp.MustCompile(`(?i)\bdrop\b`)

// mentionsDrop says whether DROP is a word of the statement itself.
func mentionsDrop(d minidb.Dialect, sql string) bool {
	return dropWord.MatchString(minidb.Bare(d, sql))
}

func (x *rig) skipDrop(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 1+g.Intn(6))
	if m == nil {
		return
	}
	x.set(m.cur)
	full, of := x.run(m.text, nil)
	data := m.data(full, of)
	if x.trouble(id, full, of, data) {
		return
	}
	if full.Code != 0 {
		x.r.Count("plans refused by the database", 1)
		return
	}
	plan := of.execs()
	x.set(m.cur)
	o, ob := x.run(m.text, nil, "--skip-drop")
	x.r.Eval(m.text, len(plan) > 0)
	data["skip-drop"], data["skip-drop events"] = o.String(), ob.log()
	if x.trouble(id, o, ob, data) {
		return
	}
	if len(plan) == 0 {
		if !isNothing(o) || len(ob.execs()) > 0 {
			x.r.Violation("skip-drop-differs", id, "--skip-drop does something when there is nothing to do", data)
		}
		return
	}
	body, ok := bodyOf(o, hdrApply)
	flags, all := align(body, sqls(plan))
	if !ok || !all && o.Code == 0 {
		x.r.Violation("skip-drop-differs", id, fmt.Sprintf("--skip-drop does not print the plan: statement %d of %d", len(flags), len(plan)), data)
		return
	}
	var want []string
	for i, sk := range flags {
		e := plan[i]
		drops := false
		for _, k := range e.Eff.Dropped() {
			drops = drops || !x.implicit(e, k)
		}
		drops = drops || len(e.Eff.Lost) > 0
		if sk {
			x.r.Count("withheld statements", 1)
		} else {
			want = append(want, e.SQL)
		}
		if drops && !sk {
			x.r.Violation("drop-executed", id, fmt.Sprintf("--skip-drop executes %q, which drops %v", e.SQL, append(e.Eff.Dropped(), e.Eff.Lost...)), data)
			return
		}
		if sk && !mentionsDrop(x.d, e.SQL) {
			x.r.Violation("withheld", id, fmt.Sprintf("--skip-drop withholds %q, which drops nothing", e.SQL), data)
			return
		}
	}
	got := ob.execs()
	if strings.Join(sqls(got), "\x00") != strings.Join(want, "\x00") {
		x.r.Violation("skip-drop-differs", id, fmt.Sprintf("--skip-drop executed %q instead of %q", sqls(got), want), data)
		return
	}
	failed := ""
	for _, e := range got {
		if e.Err != "" {
			failed = e.Err
		}
		if e.Eff == nil {
			continue
		}
		for _, k := range e.Eff.Dropped() {
			if !x.implicit(e, k) {
				x.r.Violation("drop-executed", id, fmt.Sprintf("--skip-drop executes %q, which drops %s", e.SQL, k), data)
				return
			}
		}
	}
	if (failed != "") != (o.Code != 0) {
		x.r.Violation("exit-status", id, fmt.Sprintf("exit %d, but the database said %q", o.Code, failed), data)
		return
	}
	if failed != "" {
		x.r.Count("plans that need a withheld drop", 1)
	}
	for _, e := range got {
		if e.Eff != nil && len(e.Eff.Lost) > 0 {
			x.r.Violation("drop-executed", id, fmt.Sprintf("--skip-drop executes %q, which drops the %v", e.SQL, e.Eff.Lost), data)
			return
		}
	}
	after := ob.Objects
	for k := range m.cur.Objects() {
		if _, ok := after[k]; !ok && !(x.d == minidb.MySQL && strings.HasPrefix(k, "index ")) {
			x.r.Violation("object-gone", id, k+" is gone after --skip-drop", data)
			return
		}
	}
	for k, v := range m.cur.Identities() {
		if ob.IDs[k] != v {
			x.r.Violation("data-lost", id, k+" is not the same one after --skip-drop", data)
			return
		}
	}
}

// ---- C09 ----

func (x *rig) faults(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 1+g.Intn(5))
	if m == nil {
		return
	}
	var opts []string
	if chance(g, 1, 4) {
		opts = []string{"--skip-drop"}
	}
	x.set(m.cur)
	clean, oc := x.run(m.text, nil, opts...)
	if x.trouble(id, clean, oc, m.data(clean, oc)) {
		return
	}
	if !x.judgeFault(id, m, clean, oc, nil, len(oc.execs()), clean.Code == 0) {
		return
	}
	if clean.Code != 0 {
		x.r.Count("plans refused by the database itself", 1)
		return
	}
	n := map[string]int{}
	for _, e := range oc.Events {
		n[e.Kind]++
	}
	var fs []*Fault
	add := func(kind string, i int, how ...string) {
		for _, h := range how {
			fs = append(fs, &Fault{Kind: kind, N: i, How: h})
		}
	}
	for i := 0; i < n["exec"]; i++ {
		add("exec", i, "error", "drop", "drop-after")
	}
	if n["begin"] > 0 {
		add("begin", 0, "error", "drop", "drop-after")
		add("commit", 0, "error", "drop", "drop-after")
	}
	for i := 0; i < n["query"]; i++ {
		add("query", i, "error", "drop", "rows", "rows-drop")
	}
	add("login", 0, "error", "drop")
	// every kind of fault, but not every one of them each time
	g.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	seen := map[string]int{}
	for _, f := range fs {
		k := f.Kind + "/" + f.How
		if seen[k]++; seen[k] > 2 {
			continue
		}
		x.set(m.cur)
		o, ob := x.run(m.text, f, opts...)
		if x.trouble(id, o, ob, m.data(o, ob)) {
			return
		}
		hit := false
		for _, e := range ob.Events {
			hit = hit || e.Faulted
		}
		x.r.Eval(m.text+fmt.Sprint(*f), hit)
		if hit {
			x.r.Count("injected: "+k, 1)
			x.r.State("fault points", fmt.Sprint(k, f.N))
		}
		if !x.judgeFault(id, m, o, ob, f, len(oc.execs()), true) {
			return
		}
	}
}

// judgeFault checks one apply run with an injected failure (or none).
func (x *rig) judgeFault(id string, m *move, o Out, ob *observation, f *Fault, planned int, wantOK bool) bool {
	data := m.data(o, ob)
	fail := func(kind, what string) bool {
		if f != nil {
			what = fmt.Sprintf("with %v: %s", *f, what)
			data["fault"] = fmt.Sprint(*f)
		}
		x.r.Violation(kind, id, what, data)
		return false
	}
	evs := ob.Events
	firstBad, committed, began := -1, false, false
	hit := false
	for i, e := range evs {
		if e.Faulted {
			hit = true
		}
		switch e.Kind {
		case "begin":
			began = began || e.Err == "" && !e.Faulted
		case "exec":
			if !e.InTx {
				return fail("outside-transaction", fmt.Sprintf("%q was executed outside a transaction", e.SQL))
			}
			if firstBad >= 0 {
				return fail("continues", fmt.Sprintf("%q was executed after the failing %q", e.SQL, evs[firstBad].SQL))
			}
		case "commit":
			if firstBad >= 0 {
				return fail("commits", "the transaction was committed after a failure")
			}
			committed = e.Err == "" && !(e.Faulted && f.How == "drop")
		}
		if (e.Err != "" || e.Faulted) && (e.Kind == "exec" || e.Kind == "commit") && firstBad < 0 {
			firstBad = i
		}
	}
	if o.Code == 0 {
		if o.Stderr != "" {
			return fail("stderr", "exit 0 with an error message: "+o.Stderr)
		}
		if firstBad >= 0 {
			return fail("exit-zero", fmt.Sprintf("exit 0 although %s failed", evs[firstBad]))
		}
		// a driver may ask again after a lost connection: then the plan has to be complete
		if hit && (f.Kind == "query" || f.Kind == "login") && !strings.HasSuffix(f.How, "drop") {
			return fail("exit-zero", "exit 0 although "+f.Kind+" failed")
		}
		if n := len(ob.execs()); n != planned {
			return fail("incomplete", fmt.Sprintf("exit 0 after %d of %d statements", n, planned))
		}
		if planned > 0 && !committed {
			return fail("not-committed", "exit 0 without a commit")
		}
		if d := minidb.Diff(ob.Objects, m.ref.Objects()); f != nil && planned > 0 && len(d) > 0 && !strings.Contains(o.Stdout, "-- Skipped") {
			return fail("incomplete", "exit 0, but "+strings.Join(d, "; "))
		}
		return true
	}
	if strings.TrimSpace(o.Stderr) == "" {
		return fail("silent", fmt.Sprintf("exit %d without an error message", o.Code))
	}
	if f != nil && !hit {
		return fail("exit-status", fmt.Sprintf("exit %d although nothing failed: %s", o.Code, o.Stderr))
	}
	// what was done must have been rolled back
	if f != nil && (f.Kind == "query" || f.Kind == "login" || f.Kind == "begin") && len(ob.execs()) > 0 {
		return fail("continues", fmt.Sprintf("statements were executed although %s failed", f.Kind))
	}
	if f != nil && f.Kind == "commit" && f.How == "drop-after" {
		return true // really committed
	}
	if firstBad >= 0 && evs[firstBad].Kind == "exec" && (f == nil || f.How == "error") {
		rolled := false
		for _, e := range evs[firstBad:] {
			rolled = rolled || e.Kind == "rollback" && e.Err == ""
		}
		if !rolled {
			return fail("no-rollback", fmt.Sprintf("%q failed, but there was no rollback", evs[firstBad].SQL))
		}
		x.r.Count("rollbacks seen", 1)
	}
	if x.d != minidb.MySQL {
		if d := minidb.Diff(ob.Objects, m.cur.Objects()); len(d) > 0 {
			return fail("not-rolled-back", "after the failure "+strings.Join(d, "; "))
		}
	}
	return true
}

// ---- C10 ----

func (x *rig) export(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 0)
	if m == nil {
		return
	}
	if x.d == minidb.PG { // each of these has a probe
		for _, t := range m.from.T {
			for _, c := range t.Cols {
				c.Unique, c.IdOpts = false, ""
				if c.Type == "timestamp(6)" {
					c.Type = "timestamp"
				}
			}
		}
		var err error
		if m.cur, err = m.from.reference(); err != nil {
			x.r.Count("discarded schemas", 1)
			return
		}
	}
	if chance(g, 1, 15) {
		m.cur = minidb.New(x.d, "testdb")
	}
	x.set(m.cur)
	v := x.state().Version
	args := []string{"--export"}
	if chance(g, 1, 4) {
		args = append(args, pickN(g, "--dry-run", "--skip-drop"))
	}
	o, ob := x.run(pickN(g, "", "", "this is no schema"), nil, args...)
	x.r.Eval(strings.Join(m.cur.Dump(), "\n"), true)
	x.r.Count("objects exported", len(m.cur.Objects()))
	data := map[string]interface{}{"database": m.cur.Dump(), "export": o.Stdout, "stderr": o.Stderr, "events": ob.log()}
	if x.trouble(id, o, ob, data) {
		return
	}
	if o.Code != 0 || o.Stderr != "" {
		x.r.Violation("export-fails", id, "the export fails: "+o.String(), data)
		return
	}
	if len(ob.execs()) > 0 || ob.Version != v {
		x.r.Violation("export-changes", id, fmt.Sprintf("the export changed the database: %q", sqls(ob.execs())), data)
		return
	}
	if len(m.cur.Objects()) == 0 {
		if o.Stdout != hdrEmpty+"\n" {
			x.r.Violation("export-empty", id, "an empty database is exported as "+o.String(), data)
		}
		return
	}
	re := minidb.New(x.d, "testdb")
	re.V8 = m.cur.V8
	text, moved, err := reorder(re, o.Stdout)
	if moved { // probe:export-order is about that
		x.r.Count("exports that need another order of statements", 1)
	}
	if err != nil {
		x.r.Violation("export-invalid", id, "the exported script is not accepted on an empty database: "+err.Error(), data)
		return
	}
	if d := minidb.Diff(re.Named().Objects(), m.cur.Named().Objects()); len(d) > 0 {
		x.r.Violation("export-wrong", id, "the exported script makes another schema: "+strings.Join(d, "; "), data)
		return
	}
	if x.d == minidb.MySQL {
		if d := minidb.Diff(re.ColumnOrder(), m.cur.ColumnOrder()); len(d) > 0 {
			x.r.Violation("export-order", id, "the exported script orders columns differently: "+strings.Join(d, "; "), data)
			return
		}
	}
	// as the desired file
	o2, ob2 := x.run(o.Stdout, nil)
	if !isNothing(o2) || len(ob2.execs()) > 0 {
		x.r.Violation("export-reapply", id, "the exported script as desired file is not without effect: "+o2.String(), data)
		return
	}
	// through the tool itself into an empty database
	x.set(minidb.New(x.d, "testdb"))
	x.srv.mu.Lock()
	x.srv.db.V8 = m.cur.V8
	x.srv.mu.Unlock()
	o3, _ := x.run(text, nil)
	data["created"] = o3.String()
	if o3.Code != 0 {
		x.r.Violation("export-create", id, "creating the exported schema fails: "+o3.String(), data)
		return
	}
	if d := minidb.Diff(x.state().Named().Objects(), m.cur.Named().Objects()); len(d) > 0 {
		x.r.Violation("export-create", id, "creating the exported schema makes another one: "+strings.Join(d, "; "), data)
	}
}

// reorder runs a script, putting off what needs something that comes later.
func reorder(db *minidb.DB, text string) (string, bool, error) {
	l, err := minidb.SplitScript(db.D, text)
	if err != nil {
		return text, false, err
	}
	var order []string
	moved := false
	for len(l) > 0 {
		var later []string
		for _, st := range l {
			if _, e := db.Exec(st); e != nil {
				later = append(later, st)
				err = fmt.Errorf("%v in: %s", e, st)
			} else {
				moved = moved || len(later) > 0
				order = append(order, st)
			}
		}
		if len(later) == len(l) {
			return text, moved, err
		}
		l = later
	}
	if !moved {
		return text, false, nil
	}
	return strings.Join(order, ";\n\n") + ";\n", true, nil
}

// exportProbe is about what exports get wrong by their order.
func (r *Run) exportProbe(d minidb.Dialect, id, script string) {
	x := r.rig(d)
	defer x.close()
	cur := minidb.New(d, "testdb")
	if err := cur.ExecScript(script); err != nil {
		r.Inconclusive("%s: %v", id, err)
		return
	}
	x.set(cur)
	o, ob := x.run("", nil, "--export")
	r.Eval(id, true)
	bad := ""
	re := minidb.New(d, "testdb")
	if o.Code != 0 {
		bad = "the export fails: " + o.String()
	} else if err := re.ExecScript(o.Stdout); err != nil {
		bad = "the exported script is not accepted on an empty database: " + err.Error()
	} else if df := minidb.Diff(re.Named().Objects(), cur.Named().Objects()); len(df) > 0 {
		bad = "the exported script makes another schema: " + strings.Join(df, "; ")
	} else if o2, _ := x.run(o.Stdout, nil); !isNothing(o2) {
		bad = "the exported script as desired file is not without effect: " + o2.String()
	}
	if bad != "" && !r.Known(id, bad) {
		r.Violation(strings.Replace(id, ":", "-", 1), id, bad, map[string]interface{}{"script": script, "export": o.Stdout, "events": ob.log()})
	}
}

var exportProbes = map[minidb.Dialect]map[string]string{
	minidb.MySQL: {
		"order":        "CREATE TABLE z (id bigint NOT NULL PRIMARY KEY); CREATE TABLE a (id bigint NOT NULL, z_id bigint, KEY k (z_id), CONSTRAINT f FOREIGN KEY (z_id) REFERENCES z (id))",
		"view-order":   "CREATE TABLE t (id bigint NOT NULL PRIMARY KEY); CREATE VIEW z AS SELECT id FROM t; CREATE VIEW a AS SELECT id FROM z",
		"two-triggers": "CREATE TABLE t (id bigint NOT NULL); CREATE TRIGGER g AFTER INSERT ON t FOR EACH ROW insert into t(id) values (1); CREATE TRIGGER h BEFORE INSERT ON t FOR EACH ROW delete from t",
	},
	minidb.PG: {
		"order":               "CREATE TABLE z (id bigint PRIMARY KEY); CREATE TABLE a (id bigint, z_id bigint, CONSTRAINT f FOREIGN KEY (z_id) REFERENCES z (id))",
		"view-order":          "CREATE TABLE t (id bigint); CREATE VIEW z AS SELECT t.id FROM t; CREATE VIEW a AS SELECT z.id FROM z",
		"unique-column":       "CREATE TABLE t (id bigint UNIQUE)",
		"timestamp-precision": "CREATE TABLE t (id timestamp(3))",
		"identity-options":    "CREATE TABLE t (id bigint GENERATED ALWAYS AS IDENTITY (START WITH 5 INCREMENT BY 2))",
		"composite-fk":        "CREATE TABLE p (a int, b int, PRIMARY KEY (a, b)); CREATE TABLE t (x int, y int, CONSTRAINT f FOREIGN KEY (x, y) REFERENCES p (a, b))",
		"index-desc":          "CREATE TABLE t (id bigint); CREATE INDEX i ON t (id DESC)",
		"pkey-index":          "CREATE TABLE t (id bigint); CREATE INDEX my_pkey ON t (id)",
		"negative-default":    "CREATE TABLE t (id bigint DEFAULT -5)",
		"other-schema":        "CREATE TABLE s.t (id bigint NOT NULL); CREATE INDEX i ON s.t (id)",
		"quoted-names":        "CREATE TABLE \"A b\" (\"C\" bigint, \"d\"\"e\" int); CREATE INDEX \"I j\" ON \"A b\" (\"C\"); CREATE VIEW \"V w\" AS SELECT 1 AS x FROM \"A b\"",
		"views-two-schemas":   "CREATE TABLE t (id bigint, n int); CREATE VIEW v AS SELECT t.id FROM t; CREATE VIEW s.v AS SELECT t.n FROM t",
		"policy-roles":        "CREATE TABLE t (id bigint); CREATE POLICY p ON t FOR ALL TO public, app USING (id = 1) WITH CHECK (id > 1)",
	},
	minidb.MSSQL: {
		"order":         "CREATE TABLE z (id bigint NOT NULL PRIMARY KEY); CREATE TABLE a (id bigint, z_id bigint, CONSTRAINT f FOREIGN KEY (z_id) REFERENCES z (id))",
		"view-order":    "CREATE TABLE t (id bigint); CREATE VIEW z AS SELECT id FROM t; CREATE VIEW a AS SELECT id FROM z",
		"composite-fk":  "CREATE TABLE p (a int NOT NULL, b int NOT NULL, PRIMARY KEY (a, b)); CREATE TABLE t (x int, y int, CONSTRAINT f FOREIGN KEY (x, y) REFERENCES p (a, b))",
		"other-schema":  "CREATE TABLE s.t (id bigint NOT NULL)",
		"view-schemas":  "CREATE TABLE t (id bigint, n int); CREATE VIEW v AS SELECT id FROM t; CREATE VIEW s.v AS SELECT n FROM t",
		"quoted-names":  "CREATE TABLE [A b] ([C] bigint, [d]]e] int)",
		"index-desc":    "CREATE TABLE t (id bigint, INDEX i (id DESC))",
		"identity":      "CREATE TABLE t (id bigint IDENTITY(5,2) NOT NULL)",
		"filtered":      "CREATE TABLE t (id bigint); CREATE UNIQUE INDEX i ON t (id) WHERE id > 5",
		"include":       "CREATE TABLE t (id bigint, a int, b int); CREATE INDEX i ON t (id) INCLUDE (b, a)",
		"named-default": "CREATE TABLE t (id bigint CONSTRAINT d DEFAULT -5)",
	},
}

func exportProbeRun(r *Run) {
	var names []string
	for d, m := range exportProbes {
		for n := range m {
			names = append(names, "probe:"+dname[d]+"-"+n)
		}
	}
	sort.Strings(names)
	r.CaseList(names, func(id string, g *rand.Rand) {
		for d, m := range exportProbes {
			if n := strings.TrimPrefix(id, "probe:"+dname[d]+"-"); n != id {
				r.exportProbe(d, id, m[n])
			}
		}
	})
}

// ---- C21 ----

func (x *rig) listingOrder(id string, g *rand.Rand) {
	m := randomMove(x.d, g, 1+g.Intn(5))
	if m == nil {
		return
	}
	x.set(m.cur)
	base, ob := x.run(m.text, nil)
	data := m.data(base, ob)
	if x.trouble(id, base, ob, data) {
		return
	}
	if base.Code != 0 {
		x.r.Count("plans refused by the database", 1)
		return
	}
	plan := sqls(ob.execs())
	x.r.Eval(m.text, len(plan) > 0)
	sorted := func(p []string) string {
		q := append([]string(nil), p...)
		sort.Strings(q)
		return strings.Join(q, "\n")
	}
	for k := 0; k < 3; k++ {
		x.set(m.cur)
		x.srv.mu.Lock()
		x.srv.shuffle = rand.New(rand.NewSource(g.Int63()))
		x.srv.mu.Unlock()
		o, ob := x.run(m.text, nil)
		x.srv.mu.Lock()
		x.srv.shuffle = nil
		x.srv.mu.Unlock()
		d2 := m.data(o, ob)
		d2["usual order"] = plan
		if x.trouble(id, o, ob, d2) {
			return
		}
		x.r.Count("shuffled listings", 1)
		x.r.State("listing orders", strings.Join(plan, "\n")+fmt.Sprint(k))
		if o.Code != 0 {
			x.r.Violation("order-refused", id, "with another listing order the migration fails: "+o.String(), d2)
			return
		}
		got := sqls(ob.execs())
		if sorted(got) != sorted(plan) {
			x.r.Violation("order-matters", id, fmt.Sprintf("with another listing order other statements result: %q instead of %q", got, plan), d2)
			return
		}
		if d := minidb.Diff(ob.Objects, m.ref.Objects()); len(d) > 0 {
			x.r.Violation("order-result", id, "with another listing order the result differs: "+strings.Join(d, "; "), d2)
			return
		}
	}
	// the same unrelated tables on both sides
	a, b := m.from.clone(), m.to.clone()
	b.n = maxInt(a.n, b.n) + 100
	for n := 1 + g.Intn(3); n > 0; n-- {
		t := b.addTable(g, a)
		for _, c := range t.Cols {
			if c.Refs != "" {
				c.Refs = ""
			}
		}
		a.T = append(a.T, t)
		if chance(g, 1, 2) { // at another place of the file
			k := g.Intn(len(b.T))
			b.T = append(b.T[:len(b.T)-1:len(b.T)-1], nil)
			copy(b.T[k+1:], b.T[k:])
			b.T[k] = t
		}
	}
	cur, err := a.reference()
	if err != nil {
		return
	}
	if _, err := b.reference(); err != nil {
		return
	}
	x.set(cur)
	text := b.Script(nil)
	o, ob2 := x.run(text, nil)
	d3 := map[string]interface{}{"desired": text, "desired without": m.text, "before": cur.Dump(), "plan without": plan, "output": o.String(), "events": ob2.log()}
	if x.trouble(id, o, ob2, d3) {
		return
	}
	// the plain spelling of the smaller file, for the texts of CREATE statements
	x.set(m.cur)
	_, ob4 := x.run(m.to.Script(nil), nil)
	x.r.Count("unrelated tables added", 1)
	if got, want := sorted(sqls(ob2.execs())), sorted(sqls(ob4.execs())); got != want {
		x.r.Violation("unrelated-tables", id, fmt.Sprintf("tables that are the same on both sides change the plan from %q to %q", want, got), d3)
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	reg := func(id, family string, quick, thorough int, f func(x *rig, id string, g *rand.Rand), lite func(l *liteRig, id string, g *rand.Rand), rule string, extra ...func(r *Run)) {
		register(id, map[bool]string{true: "fault_enumeration", false: "exploration"}[id == "C09"], func(r *Run) {
			r.rule = rule
			r.perDialect(family, quick, thorough, f)
			if lite != nil {
				r.liteCases(family, quick/2, thorough/2, lite)
			}
			for _, e := range extra {
				e(r)
			}
			r.minEvals = 100
		})
	}
	reg("C05", "respell", 400, 6000, (*rig).respell, (*liteRig).respell, "a case is one spelling of the schema the database has; all are non-trivial")
	reg("C06", "differs", 800, 12000, (*rig).onlyDiffers, (*liteRig).onlyDiffers, "a case is one applied migration; non-trivial if it executes statements")
	reg("C07", "dry", 500, 8000, (*rig).dryRun, (*liteRig).dryRun, "a case is one dry run followed by the apply run; non-trivial unless nothing is to be modified")
	reg("C08", "skip", 500, 8000, (*rig).skipDrop, (*liteRig).skipDrop, "a case is one migration run fully and with --skip-drop; non-trivial if the plan has statements")
	reg("C09", "fault", 60, 1200, (*rig).faults, nil, "a case is one apply run with one injected failure; non-trivial if the failure was hit", func(r *Run) {
		r.liteCases("fault", 120, 2500, (*liteRig).faults)
		r.liteCases("locked", 16, 64, (*liteRig).locked)
		r.liteCases("killed", 300, 6000, (*liteRig).killed)
	})
	reg("C10", "export", 400, 6000, (*rig).export, (*liteRig).export, "a case is one exported database", exportProbeRun)
	reg("C11", "refuse", 150, 2500, (*rig).refused, nil, "a case is one file with one thing wrong in it; all are non-trivial", func(r *Run) {
		r.Cases("sqlite-refuse", r.N(120, 2000), r.liteRefused)
	})
	reg("C21", "order", 200, 3000, (*rig).listingOrder, (*liteRig).listingOrder, "a case is one migration under several listing orders; non-trivial if it has statements")
}
