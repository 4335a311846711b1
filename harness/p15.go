package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
)

// C15: normalizing and redacting replace every literal, and only literals.

func init() { register("C15", "exploration", checkC15) }

func checkC15(r *Run) {
	r.rule = "a case is one generated query with literals; it counts when it has at least one literal and the normalized tree, its variables, the substituted text and the redacted text were all compared, distinct by canonical text and prefix"
	r.assume = []string{"literals are strings, integers of up to 64 bits and floats; hexadecimal and bit literals, type lengths and the separator of GROUP_CONCAT are not values in the sense of the property"}
	n := r.N(40000, 900000)
	r.minEvals = n * 9 / 10
	r.Cases("query", n, func(id string, g *rand.Rand) { r.normalizeCase(id, g) })
	r.probesC15()
}

var prefixes = []string{"bv", "redacted", "v", "a", "abc_", "list", "vtg", "x"}

func argsOf(t toks) map[string]bool {
	m := map[string]bool{}
	for _, k := range t {
		if k.k == tkArg || k.k == tkList {
			m[k.s] = true
		}
	}
	return m
}

func litCount(t toks) (n int, vals []string) {
	for _, k := range t {
		if k.k == tkStr || k.k == tkInt || k.k == tkFloat {
			n++
			vals = append(vals, k.s)
		}
	}
	return
}

func literalOf(typ qp.Type, val []byte) string {
	switch typ {
	case qp.Type_INT64, qp.Type_FLOAT64:
		return string(val)
	case qp.Type_VARBINARY:
		return canonStr(string(val))
	}
	return fmt.Sprintf("<%v>", typ)
}

func (r *Run) normalizeCase(id string, g *rand.Rand) {
	q := newQ(g)
	q.nolit = true // no literal that is not an expression
	kind := "set"
	if g.Intn(12) == 0 {
		q.set()
	} else {
		kind = q.query()
	}
	t := q.t
	for _, k := range t {
		if k.k == tkAlt && strings.Contains(k.s, " = ") {
			return // settings written with words
		}
	}
	canon := t.Canon()
	prefix := pick(g, prefixes)
	args := argsOf(t)
	nlit, _ := litCount(t)
	text := t.Spell(g, spellOpt{comments: true})
	data := map[string]interface{}{"input": text, "canonical": canon, "prefix": prefix}
	fail := func(k, w string) { r.Violation(k, id, w+"\nfor "+canon, data) }
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		fail("parse", fmt.Sprint(err, pan))
		return
	}
	// the caller's own variables must stay as they are
	bv := map[string]*qp.BindVariable{}
	own := &qp.BindVariable{Type: qp.Type_VARCHAR, Value: []byte("own")}
	for a := range args {
		bv[a] = own
	}
	if pan := guard(func() { sp.Normalize(st, bv, prefix) }); pan != "" {
		fail("normalize-panic", pan)
		return
	}
	norm := sp.String(st)
	data["normalized"] = norm
	for a := range args {
		if bv[a] != own {
			fail("captured", "bind variable :"+a+" of the query was taken for a literal: "+norm)
			return
		}
	}
	// nothing is left
	left := ""
	inConv := map[*sp.SQLVal]bool{}
	visitAll(st, func(v reflect.Value) {
		if !v.CanInterface() {
			return
		}
		switch x := v.Interface().(type) {
		case *sp.ConvertType:
			inConv[x.Length], inConv[x.Scale] = true, true
		case *sp.SQLVal:
			if !inConv[x] && (x.Type == sp.StrVal || x.Type == sp.IntVal || x.Type == sp.FloatVal) {
				left += fmt.Sprintf(" %q", x.Val)
			}
		}
	})
	if left != "" {
		fail("literal-left", "literals remain after normalizing:"+left+"\n"+norm)
		return
	}
	// substituting back
	used := map[string]string{}
	bad := ""
	sub := func(buf *sp.TrackedBuffer, node sp.SQLNode) {
		switch x := node.(type) {
		case *sp.SQLVal:
			if x.Type == sp.ValArg {
				name := string(x.Val[1:])
				if b, ok := bv[name]; ok && b != own {
					lit := literalOf(b.Type, b.Value)
					used[name] += "v"
					buf.WriteString(lit)
					return
				}
				if !args[name] {
					bad = "variable " + string(x.Val) + " has no value"
				}
			}
		case sp.ListArg:
			name := string(x[2:])
			if b, ok := bv[name]; ok && b != own {
				used[name] += "l"
				var vs []string
				for _, v := range b.Values {
					vs = append(vs, literalOf(v.Type, v.Value))
				}
				if b.Type != qp.Type_TUPLE {
					bad = "list variable " + name + " is no tuple"
				}
				buf.WriteString("⟪" + strings.Join(vs, ", ") + "⟫")
				return
			}
			if !args[name] {
				bad = "list variable " + string(x) + " has no value"
			}
		}
		node.Format(buf)
	}
	buf := sp.NewTrackedBuffer(sub)
	sub(buf, st)
	back := buf.String()
	want := t.Map(func(k tok) (string, bool) { return "", false })
	if strings.NewReplacer("⟪", "(", "⟫", ")").Replace(strings.ReplaceAll(back, "--2.5", "- -2.5")) != want {
		fail("substitute", "substituting the values back gives\n"+back)
		return
	}
	if bad != "" {
		fail("no-value", bad)
		return
	}
	for name, b := range bv {
		if b != own && used[name] == "" {
			fail("extra-variable", "a value is returned for "+name+", which the normalized query does not use")
			return
		}
	}
	// normalizing again changes nothing
	before := len(bv)
	sp.Normalize(st, bv, prefix)
	if sp.String(st) != norm || len(bv) != before {
		fail("again", "normalizing a normalized query changed it to "+sp.String(st))
		return
	}
	// the generated query has the values as data
	vals := mergeArgs(bv, args, t)
	if vals == nil {
		vals = map[string]*qp.BindVariable{}
	}
	gen, err := sp.NewParsedQuery(st).GenerateQuery(vals, nil)
	if len(vals) == 0 && len(bv) > 0 {
	} else if err != nil {
		fail("generate", err.Error())
		return
	}
	if st2, err, pan := parse1(string(gen)); gen != nil && (err != nil || pan != "") {
		fail("generate-parse", fmt.Sprintf("generated query %s: %v %s", gen, err, pan))
		return
	} else {
		_ = st2
	}
	// get the variables
	st3, _, _ := parse1(text)
	var names []string
	for n := range sp.GetBindvars(st3) {
		names = append(names, n)
	}
	sort.Strings(names)
	var wantNames []string
	for n := range args {
		wantNames = append(wantNames, n)
	}
	sort.Strings(wantNames)
	if strings.Join(names, ",") != strings.Join(wantNames, ",") {
		fail("getbindvars", fmt.Sprintf("bind variables %v, expected %v", names, wantNames))
		return
	}
	if kind != "set" && !r.redactCase(id, t, text, data) {
		return
	}
	r.Count("literals replaced", nlit)
	r.Count("variables made", len(bv)-len(args))
	r.Count("variables of the query kept", len(args))
	r.Eval(prefix+canon, nlit > 0)
	if g.Intn(2000) == 0 {
		r.Sample(map[string]interface{}{"query": canon, "normalized": norm})
	}
}

// mergeArgs gives values to the query's own variables.
func mergeArgs(bv map[string]*qp.BindVariable, args map[string]bool, t toks) map[string]*qp.BindVariable {
	m := map[string]*qp.BindVariable{}
	for k, v := range bv {
		m[k] = v
	}
	list := map[string]bool{}
	for _, k := range t {
		if k.k == tkList {
			list[k.s] = true
		}
	}
	for a := range args {
		m[a] = &qp.BindVariable{Type: qp.Type_INT64, Value: []byte("7")}
		if list[a] {
			m[a] = &qp.BindVariable{Type: qp.Type_TUPLE, Values: []*qp.Value{{Type: qp.Type_INT64, Value: []byte("7")}}}
		}
	}
	// a name used both as a value and as a list cannot get one
	for _, k := range t {
		if k.k == tkArg && list[k.s] {
			return nil
		}
	}
	return m
}

// redactCase compares the redacted text with the query: only literals differ.
func (r *Run) redactCase(id string, t toks, text string, data map[string]interface{}) bool {
	lead, trail := "", ""
	red, err := "", error(nil)
	if pan := guard(func() { red, err = sp.RedactSQLQuery(text) }); pan != "" {
		r.Violation("redact-panic", id, pan, data)
		return false
	}
	if err != nil {
		r.Violation("redact-error", id, err.Error(), data)
		return false
	}
	_, cm := sp.SplitMarginComments(text)
	lead, trail = cm.Leading, cm.Trailing
	body := strings.TrimSuffix(strings.TrimPrefix(red, lead), trail)
	args := argsOf(t)
	vals := map[string]string{}
	rest := body
	skip := false
	var list []string
	next := func(pre string) (string, bool) {
		if !strings.HasPrefix(rest, pre) {
			return "", false
		}
		s := rest[len(pre):]
		n := 0
		for n < len(s) && (s[n] >= 'a' && s[n] <= 'z' || s[n] >= 'A' && s[n] <= 'Z' || s[n] >= '0' && s[n] <= '9' || s[n] == '_' || s[n] == '.') {
			n++
		}
		rest = s[n:]
		return s[:n], true
	}
	bad := func(want string) bool {
		data["redacted"] = red
		r.Violation("redact", id, fmt.Sprintf("redacted query differs from the query beyond its literals: expected %s at ...%.60q in\n%s\nfor %s", want, rest, red, t.Canon()), data)
		return false
	}
	bind := func(name, val string) bool {
		if name == "" || args[name] {
			return false
		}
		if old, ok := vals[name]; ok && old != val {
			return false
		}
		vals[name] = val
		return true
	}
	for i, k := range t {
		if k.k == tkSp && i > 0 && t[i-1].s == "-" && t[i-1].k == tkP && t[i+1].k == tkFloat && t[i+1].s == "-2.5" && !strings.HasPrefix(rest, " ") {
			continue // "- -2.5" needs the space, "-:redacted1" does not
		}
		switch {
		case k.k == tkInO:
			skip, list = true, nil
		case k.k == tkInC:
			skip = false
			name, ok := next("::")
			if !ok || !bind(name, "("+strings.Join(list, ",")+")") {
				return bad("a list variable")
			}
		case skip:
			if k.k == tkStr || k.k == tkInt || k.k == tkFloat {
				list = append(list, k.canon())
			}
		case k.k == tkStr || k.k == tkInt || k.k == tkFloat:
			name, ok := next(":")
			if !ok || !bind(name, k.canon()) {
				return bad("a variable")
			}
		default:
			c := k.canon()
			if !strings.HasPrefix(rest, c) {
				return bad(fmt.Sprintf("%q", c))
			}
			rest = rest[len(c):]
		}
	}
	if rest != "" {
		return bad("the end")
	}
	r.Count("redacted queries compared", 1)
	return true
}

func (r *Run) probesC15() {
	for name, sql := range map[string]string{
		"separator": "select group_concat(a separator 'secret') from t",
		"hex":       "select X'736563726574' from t where a = 0x736563726574",
		"bigint":    "select 99999999999999999999 from t",
	} {
		red, err := sp.RedactSQLQuery(sql)
		r.Eval("probe "+name, true)
		if err == nil && !strings.Contains(red, "secret") && !strings.Contains(red, "736563726574") && !strings.Contains(red, "99999999999999999999") {
			continue
		}
		if !r.Known("probe:"+name, red) {
			r.Violation("probe-"+name, "probe:"+name, "redacting leaves a literal: "+red, map[string]interface{}{"input": sql})
		}
	}
}
