package main

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"verifharness/minidb"
)

// rig drives one real command line tool against a stand-in server.
type rig struct {
	r    *Run
	d    minidb.Dialect
	srv  *Server
	tool string
	env  []string
	args []string
	dir  string
}

func toolName(d minidb.Dialect) string {
	return [...]string{"mysqldef", "psqldef", "mssqldef"}[d]
}

func (r *Run) rig(d minidb.Dialect) *rig {
	x := &rig{r: r, d: d, tool: toolName(d), dir: r.TempDir()}
	x.srv = NewServer(d, "testdb", "")
	switch d {
	case minidb.MySQL:
		x.args = []string{"-u", "root", "-h", "127.0.0.1", "-P", fmt.Sprint(x.srv.Port)}
	case minidb.PG:
		x.args = []string{"-U", "postgres", "-h", "127.0.0.1", "-p", fmt.Sprint(x.srv.Port)}
		x.env = []string{"PGSSLMODE=disable"}
	case minidb.MSSQL:
		x.args = []string{"-U", "SA", "-P", "Passw0rd", "-h", "127.0.0.1", "-p", fmt.Sprint(x.srv.Port)}
	}
	return x
}

func (x *rig) close() { x.srv.Close() }

// set makes db the current state.
func (x *rig) set(db *minidb.DB) {
	x.srv.mu.Lock()
	v := x.srv.db.Version
	*x.srv.db = *db.Clone()
	x.srv.db.Version = v + 1
	x.srv.mu.Unlock()
}

func (x *rig) state() *minidb.DB {
	x.srv.mu.Lock()
	defer x.srv.mu.Unlock()
	return x.srv.db.Clone()
}

// run starts the tool with the schema on stdin and observes it to its end.
func (x *rig) run(stdin string, fault *Fault, extra ...string) (Out, *observation) {
	x.srv.reset(fault)
	args := append(append(append([]string(nil), x.args...), extra...), "testdb")
	o := x.r.Tool(x.tool, args, stdin, x.env, x.dir)
	ob := x.srv.observe()
	x.r.Count("requests seen by the stand-in server", len(ob.Events))
	for _, e := range ob.Events {
		if e.Kind == "exec" {
			x.r.Count("schema statements executed", 1)
			if e.Eff != nil {
				x.r.State("statement shapes", e.Eff.Verb+"/"+shape(e.SQL))
			}
		}
	}
	return o, ob
}

// shape reduces a statement to its keywords.
func shape(sql string) string {
	var b strings.Builder
	for _, w := range strings.FieldsFunc(sql, func(r rune) bool { return !(r >= 'A' && r <= 'Z') }) {
		if len(w) > 1 {
			b.WriteString(w + " ")
		}
	}
	s := b.String()
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// printed splits the tool's output into its statements (as printed, without the
// header) and which of them are marked as skipped.
func printed(o Out, header string) (stmts []string, skipped []bool, ok bool) {
	out := o.Stdout
	if !strings.HasPrefix(out, header+"\n") {
		return nil, nil, false
	}
	return []string{out[len(header)+1:]}, nil, true
}

const (
	hdrApply   = "-- Apply --"
	hdrDry     = "-- dry run --"
	hdrNothing = "-- Nothing is modified --"
	hdrEmpty   = "-- No table exists --"
)

func wantPrinted(header string, evs []Event) string {
	var b strings.Builder
	b.WriteString(header + "\n")
	for _, e := range evs {
		b.WriteString(e.SQL + ";\n")
	}
	return b.String()
}

func isNothing(o Out) bool { return o.Code == 0 && o.Stdout == hdrNothing+"\n" && o.Stderr == "" }

// judge runs one migration and says what is wrong with it ("" if nothing).
func (x *rig) judge(text string, ref *minidb.DB, refErr error, order bool) (string, map[string]interface{}) {
	before := x.state()
	o, ob := x.run(text, nil)
	data := map[string]interface{}{"desired": text, "before": before.Dump(), "events": ob.log(), "output": o.String()}
	if len(ob.Unknown) > 0 {
		x.r.Inconclusive("%s", ob.Unknown[0])
		return "", data
	}
	if o.Crashed() || o.Hung {
		return "crash: the tool crashed: " + o.Stderr, data
	}
	if refErr != nil {
		if o.Code == 0 {
			return "accepted: a file the database refuses (" + refErr.Error() + ") was applied", data
		}
		return "", data
	}
	for _, e := range ob.execs() {
		if e.Err != "" {
			return fmt.Sprintf("statement-rejected: the database refused %q: %s", e.SQL, e.Err), data
		}
	}
	if o.Code != 0 {
		return fmt.Sprintf("refused: exit %d: %s", o.Code, o.Stderr), data
	}
	if d := minidb.Diff(ob.Objects, ref.Objects()); len(d) > 0 {
		return "wrong-result: after the migration " + strings.Join(d, "; "), data
	}
	if order {
		if d := minidb.Diff(ob.Order, ref.ColumnOrder()); len(d) > 0 {
			return "column-order: columns in the wrong order: " + strings.Join(d, "; "), data
		}
	}
	o2, ob2 := x.run(text, nil)
	if !isNothing(o2) || len(ob2.execs()) > 0 {
		data["second output"] = o2.String()
		return "not-idempotent: the second run was not without effect: " + o2.String(), data
	}
	return "", data
}

// migrate runs one migration and judges it: C02, C03, C04.
func (x *rig) migrate(id string, desired *aSchema, text string, edits []string) bool {
	ref, err := desired.reference()
	if err != nil {
		x.r.Inconclusive("%s: the reference rejects the desired schema: %v", id, err)
		return false
	}
	bad, data := x.judge(text, ref, nil, x.d == minidb.MySQL)
	if bad == "" {
		return true
	}
	data["edits"] = edits
	i := strings.Index(bad, ": ")
	x.r.Violation(bad[:i], id, fmt.Sprintf("edits %v: %s", edits, bad[i+2:]), data)
	return false
}

// chainCase follows one database through a series of schema files.
func (r *Run) chainCase(d minidb.Dialect, id string, g *rand.Rand, steps int) {
	x := r.rig(d)
	defer x.close()
	s := newSchema(d, g)
	x.srv.db.V8 = s.V8
	if _, err := s.reference(); err != nil {
		r.Count("discarded start schemas", 1)
		return
	}
	ed := []string{"create"}
	for i := 0; i <= steps; i++ {
		var sg *rand.Rand
		if chance(g, 1, 3) {
			sg = g
		}
		text := s.Script(sg)
		before := x.state()
		r.Eval(text, len(before.Tables) > 0 || i == 0)
		if i > 0 {
			for _, e := range ed {
				r.Count("edit: "+e, 1)
			}
		}
		r.State("schemas", text)
		if !x.migrate(id, s, text, ed) {
			ref, err := s.reference()
			if err != nil {
				return
			}
			x.set(ref)
		}
		s, ed = s.mutate(g, 1+g.Intn(5))
		if len(ed) == 0 {
			return
		}
	}
}

func chainCheck(d minidb.Dialect) checkFn {
	return func(r *Run) {
		r.rule = "a case is one migration step (current schema, desired file) judged after the tool has ended; non-trivial steps start from a non-empty database or create one"
		r.CaseList(probeNames(d), func(id string, g *rand.Rand) { r.dbProbe(d, id, g) })
		r.Cases("chain", r.N(800, 10000), func(id string, g *rand.Rand) { r.chainCase(d, id, g, 5) })
		r.minEvals = 200
	}
}

func init() {
	register("C02", "exploration", chainCheck(minidb.MySQL))
	register("C03", "exploration", chainCheck(minidb.PG))
	register("C04", "exploration", chainCheck(minidb.MSSQL))
}

var _ = filepath.Join
