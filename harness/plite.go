package main

import (
	"database/sql"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// SQLite's part of C05 - C11 and C21: the real sqlite3def on real files.

// liteState is everything a database holds.
type liteState struct {
	schema map[string]string
	rows   map[string][]string
	bytes  string
}

func (l *liteRig) state() (*liteState, error) {
	b, _ := os.ReadFile(l.db)
	st := &liteState{bytes: string(b)}
	d := openLite(l.db)
	defer d.Close()
	var err error
	if st.schema, err = d.full(); err != nil {
		return nil, err
	}
	st.rows, err = d.contents()
	return st, err
}

// full is schemaOf plus the definitions of views.
func (d liteDB) full() (map[string]string, error) {
	m, err := d.schemaOf()
	if err != nil {
		return nil, err
	}
	rs, _, err := d.rows("select name, sql from sqlite_master where type = 'view'")
	for _, r := range rs {
		m["view "+r[0].(string)] = "view " + strings.Join(liteTokens(fmt.Sprint(r[1])), " ")
	}
	return m, err
}

// fill puts rows into every table.
func (l *liteRig) fill(g *rand.Rand) {
	d := openLite(l.db)
	defer d.Close()
	ts, _, _ := d.rows(`select name from sqlite_master where type='table' and name not like 'sqlite\_%' escape '\'`)
	for _, t := range ts {
		n := t[0].(string)
		ti, _, _ := d.rows("select name from pragma_table_xinfo(?) where hidden = 0", n)
		for k := 0; k < 4; k++ {
			var cs, vs []string
			for _, c := range ti {
				cs = append(cs, q1(c[0].(string)))
				vs = append(vs, pickN(g, fmt.Sprint(g.Intn(1000)), "'x'", "'it''s'", "2.5", fmt.Sprint(-g.Intn(9))))
			}
			if _, err := d.Exec(fmt.Sprintf("insert into %s (%s) values (%s)", q1(n), strings.Join(cs, ","), strings.Join(vs, ","))); err == nil {
				l.r.Count("rows put into tables", 1)
			}
		}
	}
}

// move makes a filled database and a file to migrate it to.
func (l *liteRig) move(g *rand.Rand) (from, to *liteSchema, text string, ok bool) {
	from = newLite(g)
	for n := g.Intn(3); n > 0; n-- {
		from = from.mutate(g)
	}
	if !l.create(g, from) {
		return nil, nil, "", false
	}
	l.fill(g)
	to = from.mutate(g)
	text = liteSQL(g, to)
	ref, err := liteReference(l.dir, "ref", text)
	ref.Close()
	if err != nil {
		l.r.Count("generated cases SQLite itself refuses", 1)
		return nil, nil, "", false
	}
	return from, to, text, true
}

func (l *liteRig) refState(text string) map[string]string {
	ref, err := liteReference(l.dir, "ref", text)
	defer ref.Close()
	if err != nil {
		return nil
	}
	m, _ := ref.full()
	return m
}

func (l *liteRig) bad(o Out) string {
	if o.Crashed() || o.Hung {
		return "the tool crashed or hung: " + o.String()
	}
	return ""
}

// replay runs printed statements on a copy of a database.
func (l *liteRig) replay(before []byte, script string) (map[string]string, map[string][]string, error) {
	p := filepath.Join(l.dir, "replay")
	os.Remove(p)
	os.WriteFile(p, before, 0o644)
	d := openLite(p)
	defer d.Close()
	if _, err := d.Exec(script); err != nil {
		return nil, nil, err
	}
	m, err := d.full()
	if err != nil {
		return nil, nil, err
	}
	c, err := d.contents()
	return m, c, err
}

func (r *Run) liteCases(name string, quick, thorough int, f func(l *liteRig, id string, g *rand.Rand)) {
	r.Cases("sqlite-"+name, r.N(quick, thorough), func(id string, g *rand.Rand) {
		l := r.lite()
		defer l.close()
		f(l, id, g)
	})
}

// C05
func (l *liteRig) respell(id string, g *rand.Rand) {
	s := newLite(g)
	for n := g.Intn(3); n > 0; n-- {
		s = s.mutate(g)
	}
	if !l.create(g, s) {
		return
	}
	before, _ := os.ReadFile(l.db)
	for k := 0; k < 3; k++ {
		text := liteSQL(g, s)
		l.r.Eval(text, true)
		l.r.State("spellings", text)
		o := l.run(text, [][]string{nil, {"--dry-run"}, {"--skip-drop"}}[k]...)
		after, _ := os.ReadFile(l.db)
		if !isNothing(o) || string(before) != string(after) {
			l.r.Violation("respelling", id, "a file that says what the database has is not without effect: "+o.String(), map[string]interface{}{"desired": text, "output": o.String()})
			return
		}
	}
	e := l.run("", "--export")
	if e.Code != 0 || len(s.Tables) == 0 {
		return
	}
	o := l.run(e.Stdout)
	after, _ := os.ReadFile(l.db)
	l.r.Eval(e.Stdout, true)
	if !isNothing(o) || string(before) != string(after) {
		l.r.Violation("server-spelling", id, "the database's own spelling of its schema is not without effect: "+o.String(), map[string]interface{}{"desired": e.Stdout})
	}
}

// liteSubject is what a statement is about.
func liteSubject(st string) (verb, key string) {
	t := liteTokens(st)
	if len(t) < 3 {
		return "", ""
	}
	i := 2
	if len(t) > 5 && t[2] == "if" {
		for i < len(t) && t[i] != "exists" {
			i++
		}
		i++
	}
	name := t[i]
	switch t[0] + " " + t[1] {
	case "create table", "drop table":
		return t[0] + " " + t[1], "table " + name
	case "create view", "drop view":
		return t[0] + " " + t[1], "view " + name
	case "alter table":
		if len(t) > 5 && t[4] == "column" {
			return "alter table " + t[3], "column " + name + "." + t[5]
		}
	}
	return t[0] + " " + t[1], ""
}

func lowerKeys(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[strings.ToLower(k)] = v
	}
	return o
}

// C06
func (l *liteRig) onlyDiffers(id string, g *rand.Rand) {
	_, _, text, ok := l.move(g)
	if !ok {
		return
	}
	before, err := l.state()
	if err != nil {
		return
	}
	want := l.refState(text)
	o := l.run(text)
	after, err := l.state()
	l.r.Eval(text, !isNothing(o))
	data := map[string]interface{}{"desired": text, "before": before.schema, "output": o.String()}
	if b := l.bad(o); b != "" || err != nil {
		l.r.Violation("crash", id, b+fmt.Sprint(err), data)
		return
	}
	for k, rows := range before.rows {
		now, ok := after.rows[k]
		if _, kept := want["column "+k]; !kept {
			continue
		}
		l.r.Count("surviving columns checked", 1)
		if !ok || strings.Join(rows, "\x00") != strings.Join(now, "\x00") {
			l.r.Violation("data-lost", id, fmt.Sprintf("the values of %s were %v and are now %v", k, rows, now), data)
			return
		}
	}
	bl, wl := lowerKeys(before.schema), lowerKeys(want)
	body, _ := bodyOf(o, hdrApply)
	for _, st := range liteSplit(body) {
		verb, key := liteSubject(st)
		if key == "" {
			l.r.Violation("unknown-statement", id, "a statement of an unknown kind was executed: "+st, data)
			return
		}
		l.r.Count("executed statements judged", 1)
		b, had := bl[key]
		w, wanted := wl[key]
		if had && wanted && b == w {
			l.r.Violation("untouched-object-changed", id, fmt.Sprintf("%s is the same in both schemas but is the subject of %q", key, st), data)
			return
		}
		if strings.HasPrefix(verb, "drop table") && wanted {
			l.r.Violation("table-dropped", id, fmt.Sprintf("%s is wanted but was dropped", key), data)
			return
		}
	}
}

// liteSplit splits printed statements.
func liteSplit(s string) []string {
	var out []string
	start := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\'', '"', '`':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return out
			}
			i += j + 1
		case '-':
			if strings.HasPrefix(s[i:], "--") {
				for i < len(s) && s[i] != '\n' {
					i++
				}
			}
		case '/':
			if strings.HasPrefix(s[i:], "/*") {
				j := strings.Index(s[i+2:], "*/")
				if j < 0 {
					return out
				}
				i += j + 3
			}
		case ';':
			if t := strings.TrimSpace(s[start:i]); t != "" {
				out = append(out, t)
			}
			start = i + 1
		}
	}
	if t := strings.TrimSpace(s[start:]); t != "" && len(liteTokens(t)) > 0 {
		out = append(out, t)
	}
	return out
}

// C07
func (l *liteRig) dryRun(id string, g *rand.Rand) {
	_, _, text, ok := l.move(g)
	if !ok {
		return
	}
	var base []string
	if chance(g, 1, 2) {
		base = []string{"--skip-drop"}
	}
	before, _ := os.ReadFile(l.db)
	dry := l.run(text, append([]string{"--dry-run"}, base...)...)
	mid, _ := os.ReadFile(l.db)
	app := l.run(text, base...)
	l.r.Eval(text, !isNothing(dry))
	data := map[string]interface{}{"desired": text, "dry run": dry.String(), "apply": app.String(), "options": base}
	if b := l.bad(dry) + l.bad(app); b != "" {
		l.r.Violation("crash", id, b, data)
		return
	}
	if string(before) != string(mid) {
		l.r.Violation("dry-run-executes", id, "the dry run changed the database", data)
		return
	}
	if isNothing(dry) || isNothing(app) {
		now, _ := os.ReadFile(l.db)
		if !isNothing(dry) || !isNothing(app) || string(now) != string(before) {
			l.r.Violation("dry-run-differs", id, "only one of dry run and apply says that nothing is modified", data)
		}
		return
	}
	db, ok1 := bodyOf(dry, hdrDry)
	ab, ok2 := bodyOf(app, hdrApply)
	if !ok1 || !ok2 || dry.Code != 0 || app.Code == 0 && db != ab || app.Code != 0 && !strings.HasPrefix(db, ab) {
		l.r.Violation("dry-run-differs", id, "the dry run prints something else than the apply run", data)
		return
	}
	if app.Code != 0 {
		return
	}
	l.r.Count("plans compared", 1)
	// what was printed is what was done
	m, c, err := l.replay(before, ab)
	if err != nil {
		l.r.Violation("printed-not-executed", id, "the printed statements fail: "+err.Error(), data)
		return
	}
	now, err := l.state()
	if err != nil {
		return
	}
	if d := mapDiff(now.schema, m); len(d) > 0 {
		l.r.Violation("printed-not-executed", id, "the database differs from what the printed statements make: "+strings.Join(d, "; "), data)
		return
	}
	if d := rowDiff(now.rows, c); d != "" {
		l.r.Violation("printed-not-executed", id, d, data)
	}
}

func rowDiff(got, want map[string][]string) string {
	for k, w := range want {
		if strings.Join(got[k], "\x00") != strings.Join(w, "\x00") && !clockRe.MatchString(strings.Join(w, " ")) {
			return fmt.Sprintf("%s is %v instead of %v", k, got[k], w)
		}
	}
	return ""
}

// C08
func (l *liteRig) skipDrop(id string, g *rand.Rand) {
	_, _, text, ok := l.move(g)
	if !ok {
		return
	}
	before, err := l.state()
	if err != nil {
		return
	}
	plan := l.run(text, "--dry-run")
	o := l.run(text, "--skip-drop")
	after, err := l.state()
	l.r.Eval(text, !isNothing(plan))
	data := map[string]interface{}{"desired": text, "before": before.schema, "plan": plan.String(), "skip-drop": o.String()}
	if b := l.bad(o); b != "" || err != nil {
		l.r.Violation("crash", id, b+fmt.Sprint(err), data)
		return
	}
	if isNothing(plan) {
		if !isNothing(o) || after.bytes != before.bytes {
			l.r.Violation("skip-drop-differs", id, "--skip-drop does something when there is nothing to do", data)
		}
		return
	}
	pb, _ := bodyOf(plan, hdrDry)
	stmts := liteSplit(pb)
	body, ok := bodyOf(o, hdrApply)
	flags, all := align(body, stmts)
	if !ok || !all && o.Code == 0 {
		l.r.Violation("skip-drop-differs", id, fmt.Sprintf("--skip-drop does not print the plan %q", stmts), data)
		return
	}
	var run []string
	for i, sk := range flags {
		verb, _ := liteSubject(stmts[i])
		drops := strings.Contains(verb, "drop")
		if sk != drops {
			l.r.Violation("withheld", id, fmt.Sprintf("%q is withheld: %v", stmts[i], sk), data)
			return
		}
		if sk {
			l.r.Count("withheld statements", 1)
		} else {
			run = append(run, stmts[i])
		}
	}
	for k := range before.schema {
		if _, ok := after.schema[k]; !ok {
			l.r.Violation("object-gone", id, k+" is gone after --skip-drop", data)
			return
		}
	}
	for k, v := range before.rows {
		if strings.Join(after.rows[k], "\x00") != strings.Join(v, "\x00") {
			l.r.Violation("data-lost", id, "the values of "+k+" changed with --skip-drop", data)
			return
		}
	}
	if o.Code == 0 {
		m, _, err := l.replay([]byte(before.bytes), strings.Join(run, ";\n"))
		if err != nil {
			l.r.Violation("skip-drop-differs", id, "the other statements cannot have been executed: "+err.Error(), data)
		} else if d := mapDiff(after.schema, m); len(d) > 0 {
			l.r.Violation("skip-drop-differs", id, "the other statements were not all executed: "+strings.Join(d, "; "), data)
		}
	}
}

// C09
func (l *liteRig) faults(id string, g *rand.Rand) {
	from, to, text, ok := l.move(g)
	if !ok || len(to.Tables) == 0 {
		return
	}
	// a statement SQLite refuses, anywhere in the plan
	how := "refused statement"
	var victim *liteTable
	for _, t := range to.Tables {
		for _, f := range from.Tables {
			if f.Name == t.Name && (victim == nil || chance(g, 1, 2)) {
				victim = t
			}
		}
	}
	if victim == nil {
		return
	}
	victim.Cols = append(victim.Cols, liteCol{Name: "zz_bad", Type: "integer", Opts: []string{pickN(g, "not null", "not null default null", "primary key", "unique", "default (random())")}})
	for _, o := range victim.Cols[:len(victim.Cols)-1] {
		for _, x := range o.Opts {
			if strings.Contains(strings.ToLower(x), "primary") {
				victim.Cols[len(victim.Cols)-1].Opts = []string{"unique"}
			}
		}
	}
	bad := liteSQL(g, to)
	if _, err := liteReference(l.dir, "ref2", bad); err != nil {
		return
	}
	l.fill(g)
	before, err := l.state()
	if err != nil {
		return
	}
	o := l.run(bad)
	after, err := l.state()
	l.r.Eval(bad, o.Code != 0)
	data := map[string]interface{}{"desired": bad, "before": before.schema, "output": o.String(), "fault": how}
	if b := l.bad(o); b != "" || err != nil {
		l.r.Violation("crash", id, b+fmt.Sprint(err), data)
		return
	}
	if o.Code == 0 {
		// then it must all be there
		if d := mapDiff(after.schema, l.refState(bad)); len(d) > 0 {
			l.r.Violation("exit-zero", id, "exit 0, but "+strings.Join(d, "; "), data)
		}
		return
	}
	l.r.Count("injected: refused statement", 1)
	if strings.TrimSpace(o.Stderr) == "" {
		l.r.Violation("silent", id, "exit without an error message", data)
		return
	}
	if d := mapDiff(after.schema, before.schema); len(d) > 0 {
		l.r.Violation("not-rolled-back", id, "after the failure "+strings.Join(d, "; "), data)
		return
	}
	if d := rowDiff(after.rows, before.rows); d != "" {
		l.r.Violation("not-rolled-back", id, d, data)
		return
	}
	// the failing statement is the last one
	if body, ok := bodyOf(o, hdrApply); ok {
		st := liteSplit(body)
		if n := len(st); n > 0 {
			if m, _, err := l.replay([]byte(before.bytes), strings.Join(st, ";\n")); err == nil && m != nil {
				l.r.Violation("continues", id, "the printed statements all succeed, but the run failed: "+o.Stderr, data)
			}
			if _, _, err := l.replay([]byte(before.bytes), strings.Join(st[:n-1], ";\n")); err != nil {
				l.r.Violation("continues", id, "statements are printed after the failing one", data)
			}
		}
	}
	_ = text
}

// locked: the database cannot be read or the transaction cannot be committed.
func (l *liteRig) locked(id string, g *rand.Rand) {
	_, _, text, ok := l.move(g)
	if !ok {
		return
	}
	before, err := l.state()
	if err != nil {
		return
	}
	if plan := l.run(text, "--dry-run"); isNothing(plan) || plan.Code != 0 {
		return
	}
	c, err := sql.Open("sqlite3", l.db)
	if err != nil {
		return
	}
	defer c.Close()
	c.SetMaxOpenConns(1)
	how := pickN(g, "exclusive", "reader", "reader")
	lock := []string{"begin exclusive"}
	if how == "reader" {
		lock = []string{"begin", "select count(*) from sqlite_master"}
	}
	for _, q := range lock {
		rs, err := c.Query(q)
		if err != nil {
			return
		}
		for rs.Next() {
		}
		rs.Close()
	}
	t := time.Now()
	o := l.run(text)
	c.Exec("rollback")
	c.Close()
	after, err := l.state()
	l.r.Eval(text+how, true)
	l.r.Count("injected: "+how+" lock", 1)
	data := map[string]interface{}{"desired": text, "output": o.String(), "fault": how, "seconds": time.Since(t).Seconds()}
	if b := l.bad(o); b != "" || err != nil {
		l.r.Violation("crash", id, b+fmt.Sprint(err), data)
		return
	}
	if o.Code == 0 {
		l.r.Violation("exit-zero", id, "exit 0 although another process keeps the database locked ("+how+")", data)
		return
	}
	if strings.TrimSpace(o.Stderr) == "" {
		l.r.Violation("silent", id, "exit without an error message", data)
		return
	}
	if d := mapDiff(after.schema, before.schema); len(d) > 0 {
		l.r.Violation("not-rolled-back", id, "after the failure "+strings.Join(d, "; "), data)
	}
}

// killed: the tool is ended by SIGKILL while it applies; what the file holds is all or nothing.
func (l *liteRig) killed(id string, g *rand.Rand) {
	_, _, text, ok := l.move(g)
	if !ok {
		return
	}
	before, err := l.state()
	if err != nil {
		return
	}
	plan := l.run(text, "--dry-run")
	body, ok := bodyOf(plan, hdrDry)
	if plan.Code != 0 || !ok {
		return
	}
	n := len(liteSplit(body))
	wait := g.Intn(n + 1) // statements printed before the signal, n: after the last one
	delay := time.Duration(g.Intn(1500)) * time.Microsecond
	if chance(g, 1, 3) {
		delay = 0
	}
	c := exec.Command(filepath.Join(l.r.Bin, "sqlite3def"), l.db)
	c.Dir, c.Env = l.dir, []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC"}
	c.Stdin = strings.NewReader(text)
	out, err := c.StdoutPipe()
	if err != nil || c.Start() != nil {
		l.r.Inconclusive("%s: cannot start the tool", id)
		return
	}
	var seen strings.Builder
	buf := make([]byte, 4096)
	for {
		k, err := out.Read(buf)
		seen.Write(buf[:k])
		if b := strings.TrimPrefix(seen.String(), hdrApply+"\n"); b != seen.String() && len(liteSplit(b)) > wait || err != nil {
			break
		}
	}
	time.Sleep(delay)
	c.Process.Kill()
	c.Wait()
	dead := !c.ProcessState.Exited()
	after, err := l.state()
	l.r.Eval(fmt.Sprint(text, wait), dead)
	data := map[string]interface{}{"desired": text, "before": before.schema, "plan": body, "printed": seen.String(), "after statements": wait}
	if err != nil {
		l.r.Violation("killed-unreadable", id, "the file cannot be read after the tool was killed: "+err.Error(), data)
		return
	}
	want, _, err := l.replay([]byte(before.bytes), body)
	if err != nil { // C01 judges that
		return
	}
	undone, done := mapDiff(after.schema, before.schema), mapDiff(after.schema, want)
	switch {
	case len(undone) == 0 && rowDiff(after.rows, before.rows) == "":
		if !dead && c.ProcessState.ExitCode() == 0 && len(done) > 0 {
			l.r.Violation("exit-zero", id, "exit 0, but "+strings.Join(done, "; "), data)
			return
		}
		if dead {
			l.r.Count("killed: nothing applied", 1)
		}
	case len(done) == 0:
		if dead {
			l.r.Count("killed: everything applied", 1)
		}
	default:
		l.r.Violation("half-applied", id, fmt.Sprintf("killed after %d of %d statements, the file is neither as before nor as wanted: %s", wait, n, strings.Join(undone, "; ")), data)
	}
}

// C10
func (l *liteRig) export(id string, g *rand.Rand) {
	s := newLite(g)
	for n := g.Intn(3); n > 0; n-- {
		s = s.mutate(g)
	}
	if !l.create(g, s) {
		return
	}
	l.fill(g)
	st, err := l.state()
	if err != nil {
		return
	}
	args := []string{"--export"}
	if chance(g, 1, 4) {
		args = append(args, pickN(g, "--dry-run", "--skip-drop"))
	}
	o := l.run(pickN(g, "", "this is no schema"), args...)
	l.r.Eval(st.bytes, true)
	l.r.Count("objects exported", len(st.schema))
	data := map[string]interface{}{"database": st.schema, "export": o.String()}
	if b := l.bad(o); b != "" || o.Code != 0 || o.Stderr != "" {
		l.r.Violation("export-fails", id, "the export fails: "+o.String(), data)
		return
	}
	if b, _ := os.ReadFile(l.db); string(b) != st.bytes {
		l.r.Violation("export-changes", id, "the export changed the database", data)
		return
	}
	if len(st.schema) == 0 {
		if o.Stdout != hdrEmpty+"\n" {
			l.r.Violation("export-empty", id, "an empty database is exported as "+o.String(), data)
		}
		return
	}
	want := l.refState(o.Stdout)
	if want == nil {
		l.r.Violation("export-invalid", id, "SQLite does not accept the exported script", data)
		return
	}
	if d := mapDiff(want, st.schema); len(d) > 0 {
		l.r.Violation("export-wrong", id, "the exported script makes another schema: "+strings.Join(d, "; "), data)
		return
	}
	if o2 := l.run(o.Stdout); !isNothing(o2) {
		l.r.Violation("export-reapply", id, "the exported script as desired file is not without effect: "+o2.String(), data)
	}
	os.Rename(l.db, l.db+".old")
	o3 := l.run(o.Stdout)
	now, err := l.state()
	if o3.Code != 0 || err != nil {
		l.r.Violation("export-create", id, "creating the exported schema fails: "+o3.String(), data)
		return
	}
	if d := mapDiff(now.schema, st.schema); len(d) > 0 {
		l.r.Violation("export-create", id, "creating the exported schema makes another one: "+strings.Join(d, "; "), data)
	}
}

// C21
func (l *liteRig) listingOrder(id string, g *rand.Rand) {
	from := newLite(g)
	for n := g.Intn(2); n > 0; n-- {
		from = from.mutate(g)
	}
	to := from.mutate(g)
	var tabs, views []string
	for _, t := range from.Tables {
		tabs = append(tabs, t.sql(g))
	}
	for _, v := range from.Views {
		views = append(views, "CREATE VIEW "+quoteLite(g, v.Name)+" AS "+v.Body)
	}
	text := liteSQL(g, to)
	want := l.refState(text)
	if want == nil {
		return
	}
	var extra []string // the same unrelated tables on both sides
	for n := g.Intn(3); n > 0; n-- {
		extra = append(extra, fmt.Sprintf("CREATE TABLE zz_extra%d (id integer, name text DEFAULT 'x')", n))
	}
	var first string
	for k := 0; k < 4; k++ {
		os.Remove(l.db)
		ts, vs := append([]string(nil), tabs...), append([]string(nil), views...)
		file := text
		if k > 0 {
			g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
			g.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		}
		if k == 3 {
			ts = append(append([]string(nil), extra...), ts...)
			file = strings.Join(append(append([]string(nil), extra...), ""), ";\n") + text
		}
		d := openLite(l.db)
		_, err := d.Exec("CREATE TABLE IF NOT EXISTS zz_dummy (a); DROP TABLE zz_dummy; " + strings.Join(append(ts, vs...), ";\n"))
		d.Close()
		if err != nil {
			l.r.Count("generated cases SQLite itself refuses", 1)
			return
		}
		o := l.run(file)
		data := map[string]interface{}{"desired": file, "created": append(ts, vs...), "output": o.String(), "usual plan": first}
		if b := l.bad(o); b != "" || o.Code != 0 {
			l.r.Violation("order-refused", id, "with this listing order the migration fails: "+o.String(), data)
			return
		}
		body, _ := bodyOf(o, hdrApply)
		p := liteSplit(body)
		sort.Strings(p)
		plan := strings.Join(p, "\n")
		if k == 0 {
			first = plan
			l.r.Eval(text, plan != "")
			continue
		}
		l.r.Count("listing orders tried", 1)
		if plan != first {
			l.r.Violation("order-matters", id, fmt.Sprintf("with another listing order or unrelated tables the plan is %q instead of %q", plan, first), data)
			return
		}
		st, err := l.state()
		if err != nil {
			return
		}
		for n := range extra {
			for key := range st.schema {
				if strings.Contains(key, fmt.Sprintf("zz_extra%d", n+1)) {
					delete(st.schema, key)
				}
			}
		}
		for _, m := range []map[string]string{st.schema, want} { // views are printed anew
			for k := range m {
				if strings.HasPrefix(k, "view ") {
					m[k] = "view"
				}
			}
		}
		if d := mapDiff(st.schema, want); len(d) > 0 {
			l.r.Violation("order-result", id, strings.Join(d, "; "), data)
			return
		}
	}
}
