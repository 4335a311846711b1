package main

import (
	"fmt"
	"math/rand"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// etree is an expression with explicit structure, printed with the fewest parentheses.
type etree struct {
	op   eop
	kids []*etree
}

type eop struct {
	pr   int      // precedence
	form []string // "" = operand, anything else keyword text
	min  []int    // precedence needed by each operand
}

var eops []eop

func init() {
	bin := func(pr int, ops ...string) {
		for _, o := range ops {
			eops = append(eops, eop{pr, []string{"", " " + o + " ", ""}, []int{pr, pr + 1}})
		}
	}
	bin(1, "or")
	bin(2, "and")
	eops = append(eops, eop{3, []string{"not ", ""}, []int{3}})
	for _, o := range []string{"=", "<", ">", "<=", ">=", "!=", "<=>", "like", "not like", "regexp", "not regexp"} {
		eops = append(eops, eop{5, []string{"", " " + o + " ", ""}, []int{6, 6}})
	}
	eops = append(eops,
		eop{5, []string{"", " between ", "", " and ", ""}, []int{6, 6, 6}},
		eop{5, []string{"", " not between ", "", " and ", ""}, []int{6, 6, 6}},
		eop{5, []string{"", " like ", "", " escape ", ""}, []int{6, 6, 6}})
	for _, o := range []string{"is null", "is not null", "is true", "is not true", "is false", "is not false"} {
		eops = append(eops, eop{5, []string{"", " " + o}, []int{5}})
	}
	bin(6, "|")
	bin(7, "&")
	bin(8, "<<", ">>")
	bin(9, "+", "-")
	bin(10, "*", "/", "div", "%")
	bin(11, "^")
	for _, o := range []string{"-", "+", "~", "!"} {
		eops = append(eops, eop{12, []string{o, ""}, []int{12}})
	}
	for _, o := range []string{"binary ", "_binary "} {
		eops = append(eops, eop{12, []string{o, ""}, []int{12}})
	}
	eops = append(eops, eop{13, []string{"", " collate utf8mb4_bin"}, []int{13}})
	eops = append(eops, eop{15, []string{"interval ", "", " day_x"}, []int{6}})
}

var leafNames = []string{"a", "b", "c1", "foo", "x", "t1"}

func (e *etree) emit(t *toks, min int, leaf *int) {
	if e == nil {
		*t = append(*t, tok{k: tkID, s: leafNames[*leaf%len(leafNames)]})
		*leaf++
		return
	}
	put := func() {
		*t = append(*t, tok{k: tkOpen})
		k := 0
		for _, f := range e.op.form {
			if f == "" {
				if e.op.pr == 12 && k == 0 && len(e.kids) == 1 && e.kids[0] != nil && e.kids[0].op.pr == 12 && len(e.op.form) == 2 && !strings.HasSuffix(e.op.form[0], " ") {
					*t = append(*t, tok{k: tkSp})
				} else if e.op.pr == 12 && k == 0 && e.kids[0] != nil && e.kids[0].op.pr == 12 {
					*t = append(*t, tok{k: tkSp})
				}
				e.kids[k].emit(t, e.op.min[k], leaf)
				k++
				continue
			}
			for i, w := range strings.SplitAfter(f, " ") {
				if w == " " && i == 0 {
					*t = append(*t, tok{k: tkSp})
					continue
				}
				if w == "" {
					continue
				}
				kind := byte(tkKw)
				switch u := strings.TrimSpace(w); {
				case u == "day_x" || u == "utf8mb4_bin":
					kind = tkID
					*t = append(*t, tok{k: kind, s: u, raw: true})
				case u[0] >= 'a' && u[0] <= 'z' || u[0] == '_':
					*t = append(*t, tok{k: kind, s: u})
				default:
					*t = append(*t, tok{k: tkP, s: u})
				}
				if strings.HasSuffix(w, " ") {
					*t = append(*t, tok{k: tkSp})
				}
			}
		}
		*t = append(*t, tok{k: tkClose})
	}
	if e.op.pr < min {
		*t = append(*t, tok{k: tkOpen}, tok{k: tkP, s: "("})
		put()
		*t = append(*t, tok{k: tkP, s: ")"}, tok{k: tkClose})
		return
	}
	put()
}

func newTree(o eop) *etree { return &etree{op: o, kids: make([]*etree, len(o.min))} }

// exprTriples: every pair of operators in every nesting, and sampled deeper ones, each written
// with the fewest parentheses, must be grouped by the documented precedences.
func (r *Run) exprTriples() {
	var ids []string
	for i := range eops {
		for j := range eops {
			for k := range eops[i].min {
				ids = append(ids, fmt.Sprintf("pair#%d.%d.%d", i, j, k))
			}
		}
	}
	run := func(id string, g *rand.Rand, root *etree) {
		var body toks
		leaf := 0
		root.emit(&body, 1, &leaf)
		t := append(toks{{k: tkKwC, s: "select"}, {k: tkSp}}, body...)
		t = append(t, tok{k: tkSp}, tok{k: tkKw, s: "from"}, tok{k: tkSp}, tok{k: tkID, s: "t"})
		r.compareStmt(id, "operator nesting", t, t.Canon())
		r.compareStmt(id, "operator nesting", t, t.Spell(g, spellOpt{comments: true}))
	}
	r.CaseList(ids, func(id string, g *rand.Rand) {
		var i, j, k int
		fmt.Sscanf(id, "pair#%d.%d.%d", &i, &j, &k)
		root := newTree(eops[i])
		root.kids[k] = newTree(eops[j])
		run(id, g, root)
	})
	r.Cases("triple", r.N(6000, 150000), func(id string, g *rand.Rand) {
		root := newTree(eops[g.Intn(len(eops))])
		for n := 2 + g.Intn(5); n > 0; n-- {
			e := root
			for {
				k := g.Intn(len(e.kids))
				if e.kids[k] == nil {
					e.kids[k] = newTree(eops[g.Intn(len(eops))])
					break
				}
				e = e.kids[k]
			}
		}
		run(id, g, root)
	})
}

// nameLiteralSweep: every keyword and every byte as a name of every kind, every byte in a literal.
func (r *Run) nameLiteralSweep() {
	id := func(s string) tok { return tok{k: tkID, s: s} }
	p := func(s string) tok { return tok{k: tkP, s: s} }
	kw := func(s string) tok { return tok{k: tkKw, s: s} }
	sps := tok{k: tkSp}
	places := func(n string) []toks {
		q := id(n)
		return []toks{
			{kw("select"), sps, q, sps, kw("from"), sps, id("t")},
			{kw("select"), sps, id("a"), sps, kw("as"), sps, q, sps, kw("from"), sps, id("t")},
			{kw("select"), sps, q, p("."), id("a"), sps, kw("from"), sps, q},
			{kw("select"), sps, id("t"), p("."), q, sps, kw("from"), sps, id("t"), sps, kw("as"), sps, q},
			{kw("select"), sps, p("*"), sps, kw("from"), sps, q, p("."), q},
			{kw("select"), sps, q, p("."), p("*"), sps, kw("from"), sps, id("t"), sps, kw("use"), sps, kw("index"), sps, p("("), q, p(")")},
			{kw("insert"), sps, kw("into"), sps, q, sps, kw("partition"), sps, p("("), q, p(")"), p("("), q, p(","), sps, id("b"), p(")"), sps, kw("values"), sps, tok{k: tkOpen}, p("("), tok{k: tkInt, s: "1"}, p(","), sps, kw("default"), p("("), q, p(")"), p(")"), tok{k: tkClose}},
			{kw("select"), sps, p("*"), sps, kw("from"), sps, tok{k: tkOpen}, id("t"), sps, kw("join"), sps, id("x"), sps, kw("using"), sps, p("("), q, p(")"), tok{k: tkClose}},
			{kw("use"), sps, q},
			{kw("drop"), sps, kw("table"), sps, q, p("."), q},
			{kw("update"), sps, q, sps, kw("set"), sps, q, sps, p("="), sps, tok{k: tkInt, s: "1"}},
			{kw("select"), sps, tok{k: tkOpen}, q, p("."), id("f"), p("("), q, p(")"), tok{k: tkClose}, sps, kw("from"), sps, id("t")},
			{kw("select"), sps, tok{k: tkOpen}, id("a"), sps, kw("collate"), sps, id("b"), tok{k: tkClose}, sps, kw("from"), sps, id("t"), sps, kw("order"), sps, kw("by"), sps, q, sps, kw("desc")},
			{kw("create"), sps, kw("view"), sps, id("v"), sps, kw("as"), sps, kw("select"), sps, q, sps, kw("from"), sps, q},
			{kw("show"), sps, kw("tables"), sps, kw("from"), sps, q},
			{kw("rename"), sps, kw("table"), sps, q, sps, kw("to"), sps, q},
		}
	}
	var names []string
	names = append(names, sqlWords...)
	for _, w := range sqlWords {
		names = append(names, strings.ToUpper(w[:1])+w[1:])
	}
	for b := 1; b < 256; b++ {
		names = append(names, string([]byte{byte(b)})+"q", "q"+string([]byte{byte(b)}), "q"+string([]byte{byte(b)})+"q")
	}
	ids := make([]string, len(names))
	for i := range names {
		ids[i] = fmt.Sprintf("name#%d", i)
	}
	r.CaseList(ids, func(cid string, g *rand.Rand) {
		var i int
		fmt.Sscanf(cid, "name#%d", &i)
		n := names[i]
		for k, t := range places(n) {
			// Which words and bytes a name may have without quotes is the tool's choice here;
			// it must keep to it: quoted in the input, the statement must survive.
			text := t.Map(func(x tok) (string, bool) { return quoteID(x.s), x.k == tkID && x.s == n })
			r.survive(fmt.Sprintf("%s/%d", cid, k), text, n)
		}
	})
	var lits []string
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		lits = append(lits, c, c+c, c+"a", "a"+c, "\\"+c, c+"\\", "'"+c, c+"'", c+"\""+c)
	}
	ids = make([]string, len(lits))
	for i := range lits {
		ids[i] = fmt.Sprintf("lit#%d", i)
	}
	r.CaseList(ids, func(cid string, g *rand.Rand) {
		var i int
		fmt.Sscanf(cid, "lit#%d", &i)
		s := tok{k: tkStr, s: lits[i]}
		for _, t := range []toks{
			{kw("select"), sps, s, sps, kw("from"), sps, id("t"), sps, kw("where"), sps, tok{k: tkOpen}, id("a"), sps, kw("like"), sps, s, sps, kw("escape"), sps, s, tok{k: tkClose}},
			{kw("select"), sps, tok{k: tkOpen}, kw("group_concat"), p("("), id("a"), sps, kw("separator"), sps, s, p(")"), tok{k: tkClose}, sps, kw("from"), sps, id("t")},
			{kw("show"), sps, kw("tables"), sps, kw("like"), sps, s},
		} {
			if t[0].s == "select" && len(t) > 4 && t[3].s == "group_concat" && lits[i] == "" {
				continue
			}
			r.compareStmt(cid, "literal bytes", t, t.Canon())
			r.compareStmt(cid, "literal bytes", t, t.Spell(g, spellOpt{}))
		}
	})
}

// survive checks that a statement with a quoted name keeps it through printing and parsing.
func (r *Run) survive(id, text, name string) {
	data := map[string]interface{}{"input": text, "name": name}
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		r.Violation("name-rejected", id, fmt.Sprintf("quoted name %q is rejected: %v %s\n%s", name, err, pan, text), data)
		return
	}
	want := strings.Count(text, quoteID(name))
	out := sp.String(st)
	data["printed"] = out
	st2, err, pan := parse1(out)
	if err != nil || pan != "" {
		r.Violation("name-reparse", id, fmt.Sprintf("name %q: printed form is rejected: %v %s\n%s", name, err, pan, out), data)
		return
	}
	if d := diffTree(st, st2); d != "" {
		r.Violation("name-retree", id, fmt.Sprintf("name %q: printed form parses to another statement: %s\n%s", name, d, out), data)
		return
	}
	if got := countName(st2, name); got < want {
		r.Violation("name-lost", id, fmt.Sprintf("name %q occurs %d times in the statement but %d in the parsed printed form %s", name, want, got, out), data)
		return
	}
	r.Eval("name "+text, true)
	r.Count("names printed and read back", want)
}

var c13Probes = map[string][2]string{
	// id: input, expected meaning
	"cast-int":            {"select cast(a as signed) from t", ""},
	"func-keyword":        {"select `select`(1) from t", ""},
	"set-names-collate":   {"set names utf8 collate foo", "collate"},
	"drop-database-exist": {"drop database if exists x", "exists"},
	"collate-empty":       {"select a collate '' from t", ""},
	"alias-empty":         {"select a as '' from t", ""},
	"pg-cast":             {"select a::int from t", ""},
}

func (r *Run) probesC13() {
	for name, p := range c13Probes {
		mode := sp.ParserModeMysql
		if strings.HasPrefix(name, "pg-") {
			mode = sp.ParserModePostgres
		}
		st, err := sp.ParseStrictDDLWithMode(p[0], mode)
		if err != nil {
			r.Count("probe statements not accepted", 1)
			continue
		}
		out := sp.String(st)
		st2, err := sp.ParseStrictDDLWithMode(out, mode)
		bad := ""
		switch {
		case err != nil:
			bad = fmt.Sprintf("%s is printed as %s, which is rejected", p[0], out)
		case diffTree(st, st2) != "":
			bad = fmt.Sprintf("%s is printed as %s, another statement", p[0], out)
		case p[1] != "" && !strings.Contains(out, p[1]):
			bad = fmt.Sprintf("%s is printed as %s", p[0], out)
		}
		r.Eval("probe "+name, true)
		if bad != "" && !r.Known("probe:"+name, bad) {
			r.Violation("probe-"+name, "probe:"+name, bad, map[string]interface{}{"input": p[0], "printed": out})
		}
	}
}
