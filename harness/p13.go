package main

import (
	"fmt"
	"math/rand"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// C13: printing a parsed statement and parsing it again gives the same statement.

func init() { register("C13", "exploration", checkC13) }

func checkC13(r *Run) {
	r.rule = "a case is one generated statement in one spelling; it counts when its printed form, grouping and re-parsed tree were all compared and the statement has at least one expression or name, distinct by the generated canonical text"
	r.assume = []string{"the canonical text of a statement is built by the generator, not by the printer", "statements printed only in summary form (ALTER TABLE, CREATE INDEX/TABLE options and the like) are outside the property"}
	n := r.N(40000, 1200000)
	r.minEvals = n
	r.Cases("stmt", n, func(id string, g *rand.Rand) { r.roundTrip(id, g) })
	r.Cases("table", r.N(8000, 200000), func(id string, g *rand.Rand) {
		q := newQ(g)
		canon, text := q.createTable()
		r.compareStmt(id, "create table", canon, text.Spell(g, spellOpt{comments: true}))
	})
	r.exprTriples()
	r.nameLiteralSweep()
	r.probesC13()
}

// roundTrip parses a spelling of a generated statement and compares what the tool prints.
func (r *Run) roundTrip(id string, g *rand.Rand) {
	q := newQ(g)
	kind := q.statement()
	if g.Intn(8) == 0 {
		q.t = q.t.positional()
		r.compareStmt(id, kind, q.t, q.t.Spell(g, spellOpt{comments: true, special: true, pos: true}))
		return
	}
	r.compareStmt(id, kind, q.t, q.t.Spell(g, spellOpt{comments: true, special: true}))
}

func (r *Run) compareStmt(id, kind string, t toks, text string) {
	canon := t.Canon()
	data := map[string]interface{}{"input": text, "canonical": canon}
	st, err, pan := parse1(text)
	if pan != "" {
		r.Violation("parse-panic", id, pan, data)
		return
	}
	if err != nil {
		r.Violation("parse-error", id, fmt.Sprintf("a statement of the grammar is rejected: %v\n%s", err, text), data)
		return
	}
	var got string
	if pan := guard(func() { got = sp.String(st) }); pan != "" {
		r.Violation("print-panic", id, pan, data)
		return
	}
	data["printed"] = got
	if got != canon {
		r.Violation("print", id, fmt.Sprintf("printed\n%s\ninstead of\n%s\nfor\n%s", got, canon, text), data)
		return
	}
	if gr := grouped(st); gr != t.Grouped() {
		data["grouping"], data["expected grouping"] = gr, t.Grouped()
		r.Violation("grouping", id, fmt.Sprintf("grouped as\n%s\ninstead of\n%s", gr, t.Grouped()), data)
		return
	}
	st2, err, pan := parse1(got)
	if err != nil || pan != "" {
		r.Violation("reparse", id, fmt.Sprintf("printed form is rejected: %v %s\n%s", err, pan, got), data)
		return
	}
	if d := diffTree(st, st2); d != "" {
		r.Violation("retree", id, "printed form parses to another statement: "+d, data)
		return
	}
	if again := sp.String(st2); again != got {
		r.Violation("reprint", id, "printing again gives "+again, data)
		return
	}
	nodes := r.nodeTypes(st)
	r.Count("syntax nodes compared", nodes)
	r.Count("statements of kind "+kind, 1)
	r.Eval(canon, nodes > 2)
	if strings.Contains(id, "#1") {
		r.Sample(map[string]interface{}{"input": text, "printed": got})
	}
}
