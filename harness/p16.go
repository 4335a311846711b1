package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
)

// C16: substituted values stay data.

func init() { register("C16", "exploration", checkC16) }

// category of every type, written down from the documentation of the types
type tcat int

const (
	catNull tcat = iota
	catSigned
	catUnsigned
	catFloat
	catDecimal
	catQuoted
	catExpr
	catTuple
)

type typeInfo struct {
	t            qp.Type
	cat          tcat
	text, binary bool
}

var typeTable = []typeInfo{
	{qp.Type_NULL_TYPE, catNull, false, false},
	{qp.Type_INT8, catSigned, false, false}, {qp.Type_UINT8, catUnsigned, false, false},
	{qp.Type_INT16, catSigned, false, false}, {qp.Type_UINT16, catUnsigned, false, false},
	{qp.Type_INT24, catSigned, false, false}, {qp.Type_UINT24, catUnsigned, false, false},
	{qp.Type_INT32, catSigned, false, false}, {qp.Type_UINT32, catUnsigned, false, false},
	{qp.Type_INT64, catSigned, false, false}, {qp.Type_UINT64, catUnsigned, false, false},
	{qp.Type_FLOAT32, catFloat, false, false}, {qp.Type_FLOAT64, catFloat, false, false},
	{qp.Type_TIMESTAMP, catQuoted, false, false}, {qp.Type_DATE, catQuoted, false, false},
	{qp.Type_TIME, catQuoted, false, false}, {qp.Type_DATETIME, catQuoted, false, false},
	{qp.Type_YEAR, catUnsigned, false, false}, {qp.Type_DECIMAL, catDecimal, false, false},
	{qp.Type_TEXT, catQuoted, true, false}, {qp.Type_BLOB, catQuoted, false, true},
	{qp.Type_VARCHAR, catQuoted, true, false}, {qp.Type_VARBINARY, catQuoted, false, true},
	{qp.Type_CHAR, catQuoted, true, false}, {qp.Type_BINARY, catQuoted, false, true},
	{qp.Type_BIT, catQuoted, false, false}, {qp.Type_ENUM, catQuoted, false, false},
	{qp.Type_SET, catQuoted, false, false}, {qp.Type_TUPLE, catTuple, false, false},
	{qp.Type_GEOMETRY, catQuoted, false, false}, {qp.Type_JSON, catQuoted, false, false},
	{qp.Type_EXPRESSION, catExpr, false, false},
}

var hostile = []string{"", "'", "''", "\\", "\\'", "'; drop table t; --", "' or 1=1 -- ", "\"", "`", "\x00", "a\x00b", "\x1a", "\n", "\r\n", "\t", "\b", "%", "_", "\\%", "\xff", "\xbf'", "\xbf\\'", "é", "日本", "\U0001F600", "*/", "/*", "--", "#", ";", ":v1", "::list", "?", "null", "NULL", "0", "0x41", "true", "\u2028", "a b", "\\\\", "\\0", "\\Z", "x'41'", "\xc3\x28", "{}", "⟦", "%a", "%v", "\\x"}

func hostileBytes(g *rand.Rand) string {
	switch g.Intn(4) {
	case 0:
		return pick(g, hostile)
	case 1:
		return pick(g, hostile) + pick(g, hostile) + pick(g, hostile)
	case 2:
		n := g.Intn(12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		return string(b)
	}
	return pick(g, []string{"abc", "x", "2020-01-01", "12:00:00", "a'b", "{\"a\":1}"})
}

func randNumber(g *rand.Rand, cat tcat) string {
	switch cat {
	case catSigned:
		switch g.Intn(4) {
		case 0:
			return pick(g, []string{"0", "-1", "1", "-9223372036854775808", "9223372036854775807", "-0", "007", "2147483648"})
		}
		return strconv.FormatInt(int64(g.Uint64())>>uint(g.Intn(64)), 10)
	case catUnsigned:
		switch g.Intn(4) {
		case 0:
			return pick(g, []string{"0", "1", "18446744073709551615", "9223372036854775808", "00"})
		}
		return strconv.FormatUint(g.Uint64()>>uint(g.Intn(64)), 10)
	case catDecimal:
		return pick(g, []string{"0", "-0.0", "1.50", "-12345678901234567890.123456789", "0.001", "99"})
	}
	switch g.Intn(3) {
	case 0:
		return pick(g, []string{"0", "-2.5", "1e10", "1E-5", ".5", "-0.0", "3.", "1.7976931348623157e308", "5e-324"})
	}
	return strconv.FormatFloat(g.NormFloat64()*1e3, 'g', -1, 64)
}

// randScalar returns a type, its raw bytes and the text one expects in SQL.
func randScalar(g *rand.Rand) (qp.Type, []byte, string) {
	for {
		ti := typeTable[g.Intn(len(typeTable))]
		switch ti.cat {
		case catNull:
			return ti.t, nil, "null"
		case catQuoted:
			s := hostileBytes(g)
			return ti.t, []byte(s), canonStr(s)
		case catExpr, catTuple:
			continue
		default:
			s := randNumber(g, ti.cat)
			return ti.t, []byte(s), s
		}
	}
}

func checkC16(r *Run) {
	r.rule = "a case is a template with bind variables and one set of values; it counts when the generated text and its parse were compared with the template and the values, distinct by template and values"
	r.assume = []string{"values are those that the library's own ValidateBindVariable accepts; expressions and nested tuples are refused by it"}
	n := r.N(40000, 900000)
	r.minEvals = n / 2
	r.Cases("template", n, func(id string, g *rand.Rand) { r.bindCase(id, g) })
	r.Cases("encodable", n/10, func(id string, g *rand.Rand) { r.encodableCase(id, g) })
	r.Cases("build", n/10, func(id string, g *rand.Rand) { r.buildParsed(id, g) })
	r.probesC16()
}

func (r *Run) bindCase(id string, g *rand.Rand) {
	q := newQ(g)
	q.args = true
	q.mustOn = true
	if g.Intn(12) == 0 {
		q.set()
	} else {
		q.query()
	}
	t := q.t
	scalar, list := map[string]bool{}, map[string]bool{}
	for _, k := range t {
		if k.k == tkArg {
			scalar[k.s] = true
		}
		if k.k == tkList {
			list[k.s] = true
		}
	}
	for a := range scalar {
		if list[a] {
			return
		}
	}
	if len(scalar)+len(list) == 0 {
		return
	}
	canon := t.Canon()
	text := t.Spell(g, spellOpt{comments: true})
	data := map[string]interface{}{"input": text, "canonical": canon}
	fail := func(k, w string) { r.Violation(k, id, w+"\nfor "+canon, data) }
	st, err, pan := parse1(text)
	if err != nil || pan != "" {
		fail("parse", fmt.Sprint(err, pan))
		return
	}
	var pq *sp.ParsedQuery
	if pan := guard(func() { pq = sp.NewParsedQuery(st) }); pan != "" {
		fail("template-panic", pan)
		return
	}
	if pq.Query != canon {
		fail("template", "the template reads "+pq.Query)
		return
	}
	for round := 0; round < 2; round++ {
		vals := map[string]*qp.BindVariable{}
		enc, shown := map[string]string{}, map[string]string{}
		var names []string
		for _, k := range t {
			if k.k != tkArg && k.k != tkList || vals[k.s] != nil {
				continue
			}
			names = append(names, k.s)
			if k.k == tkArg {
				ty, v, e := randScalar(g)
				vals[k.s] = &qp.BindVariable{Type: ty, Value: v}
				enc[k.s] = e
				r.State("types substituted", ty.String())
				continue
			}
			bv := &qp.BindVariable{Type: qp.Type_TUPLE}
			var es []string
			for i := 0; i <= g.Intn(4); i++ {
				ty, v, e := randScalar(g)
				bv.Values = append(bv.Values, &qp.Value{Type: ty, Value: v})
				es = append(es, e)
				r.State("types substituted", ty.String())
			}
			vals[k.s] = bv
			shown[k.s] = "(⟨" + strings.Join(es, "⟩, ⟨") + "⟩)"
			enc[k.s] = "(" + strings.Join(es, ", ") + ")"
		}
		extra := &qp.BindVariable{Type: qp.Type_INT64, Value: []byte("1")}
		vals["not_in_the_query"] = extra
		if err := sqltypes.ValidateBindVariables(vals); err != nil {
			fail("validate", "values refused: "+err.Error())
			return
		}
		// wrong shapes
		victim := pick(g, names)
		save := vals[victim]
		bads := map[string]*qp.BindVariable{"missing": nil}
		if scalar[victim] {
			bads["tuple"] = &qp.BindVariable{Type: qp.Type_TUPLE, Values: []*qp.Value{{Type: qp.Type_INT64, Value: []byte("1")}}}
		} else {
			bads["scalar"] = &qp.BindVariable{Type: qp.Type_INT64, Value: []byte("1")}
			bads["empty"] = &qp.BindVariable{Type: qp.Type_TUPLE}
			bads["null"] = &qp.BindVariable{}
		}
		for what, b := range bads {
			delete(vals, victim)
			if b != nil {
				vals[victim] = b
			}
			var out []byte
			var err error
			pan := guard(func() { out, err = pq.GenerateQuery(vals, nil) })
			if pan != "" || err == nil {
				fail("shape-"+what, fmt.Sprintf("a %s value for %s gives %q %s", what, victim, out, pan))
				return
			}
			r.Count("wrongly shaped values refused", 1)
		}
		vals[victim] = save
		// right shapes
		var gen []byte
		pan := guard(func() { gen, err = pq.GenerateQuery(vals, nil) })
		if pan != "" || err != nil {
			fail("generate", fmt.Sprint(err, pan))
			return
		}
		var want strings.Builder
		for _, k := range t {
			switch k.k {
			case tkArg, tkList:
				e := enc[k.s]
				if strings.HasSuffix(want.String(), "-") && e[0] == '-' {
					want.WriteByte(' ')
				}
				want.WriteString(e)
			default:
				want.WriteString(k.canon())
			}
		}
		data["values"], data["generated"], data["expected"] = enc, string(gen), want.String()
		if string(gen) != want.String() {
			fail("text", fmt.Sprintf("generated\n%s\nexpected\n%s", gen, want.String()))
			return
		}
		if pq.Query != canon {
			fail("template-changed", "generating changed the template")
			return
		}
		st2, err, pan := parse1(string(gen))
		if err != nil || pan != "" {
			fail("reparse", fmt.Sprintf("generated query is not accepted: %v %s\n%s", err, pan, gen))
			return
		}
		// the generated query has the template's structure: same nodes, values in place
		negative := false
		for _, e := range enc {
			negative = negative || e[0] == '-' || strings.HasPrefix(e, "(-") || strings.Contains(e, ", -")
		}
		if negative {
			r.Count("sets of values with negative numbers (text compared, structure not)", 1)
		} else if d := sameButValues(st, st2, enc, shown); d != "" {
			fail("structure", d+"\n"+string(gen))
			return
		}
		r.Count("values substituted", len(names))
		r.Eval(want.String(), true)
	}
	if g.Intn(2000) == 0 {
		r.Sample(data)
	}
}

// sameButValues compares the template with the generated statement, both printed with every
// literal and variable shown by its value and every operator grouped.
func sameButValues(a, b sp.Statement, enc, shown map[string]string) string {
	show := func(n sp.SQLNode) string {
		var f sp.NodeFormatter
		f = func(buf *sp.TrackedBuffer, node sp.SQLNode) {
			switch x := node.(type) {
			case *sp.SQLVal:
				switch x.Type {
				case sp.ValArg:
					buf.WriteString("⟨" + enc[string(x.Val[1:])] + "⟩")
					return
				case sp.StrVal:
					buf.WriteString("⟨" + canonStr(string(x.Val)) + "⟩")
					return
				case sp.IntVal, sp.FloatVal:
					buf.WriteString("⟨" + string(x.Val) + "⟩")
					return
				}
			case *sp.NullVal:
				buf.WriteString("⟨null⟩")
				return
			case sp.ListArg:
				buf.WriteString("⟦" + shown[string(x[2:])] + "⟧")
				return
			}
			if u, ok := node.(*sp.UnaryExpr); ok && u.Operator == "-" {
				if v, ok := u.Expr.(*sp.SQLVal); ok && v.Type != sp.StrVal {
					node.Format(buf)
					return
				}
			}
			if composite(node) {
				buf.WriteString("⟦")
				node.Format(buf)
				buf.WriteString("⟧")
				return
			}
			node.Format(buf)
		}
		buf := sp.NewTrackedBuffer(f)
		f(buf, n)
		return buf.String()
	}
	x, y := show(a), show(b)
	// the sign of a number is folded into the literal by the parser
	// and NULL has no order
	norm := strings.NewReplacer("⟨-", "-⟨", "⟨null⟩ asc", "⟨null⟩", "⟨null⟩ desc", "⟨null⟩")
	x, y = norm.Replace(x), norm.Replace(y)
	if x != y {
		return fmt.Sprintf("structure differs:\n%s\n%s", x, y)
	}
	return ""
}

func (r *Run) encodableCase(id string, g *rand.Rand) {
	nc, nr := 1+g.Intn(4), 1+g.Intn(4)
	var rows [][]sqltypes.Value
	var enc [][]string
	for i := 0; i < nr; i++ {
		var row []sqltypes.Value
		var e []string
		for j := 0; j < nc; j++ {
			ty, v, s := randScalar(g)
			row = append(row, sqltypes.MakeTrusted(ty, v))
			e = append(e, s)
		}
		rows, enc = append(rows, row), append(enc, e)
	}
	var cols []sp.ColIdent
	var names []string
	for _, n := range someOf(g, append(append([]string{}, plainNames...), quotedNames...), nc) {
		cols = append(cols, sp.NewColIdent(n))
		names = append(names, canonID(n))
	}
	key := fmt.Sprint(names, enc)
	var tuples, eqs, ins []string
	for _, e := range enc {
		tuples = append(tuples, "("+strings.Join(e, ", ")+")")
		ins = append(ins, e[0])
		var ps []string
		for j, n := range names {
			ps = append(ps, n+" = "+e[j])
		}
		eqs = append(eqs, "("+strings.Join(ps, " and ")+")")
	}
	wantI := "insert into t values " + strings.Join(tuples, ", ")
	wantE := "select a from t where " + strings.Join(eqs, " or ")
	if nc == 1 {
		wantE = "select a from t where " + names[0] + " in (" + strings.Join(ins, ", ") + ")"
	}
	data := map[string]interface{}{"columns": names, "rows": enc}
	for _, c := range []struct {
		pq   *sp.ParsedQuery
		e    sp.Encodable
		want string
	}{
		{sp.BuildParsedQuery("insert into t values %a", ":vals"), sp.InsertValues(rows), wantI},
		{sp.BuildParsedQuery("select a from t where %a", ":vals"), &sp.TupleEqualityList{Columns: cols, Rows: rows}, wantE},
	} {
		var out []byte
		var err error
		pan := guard(func() { out, err = c.pq.GenerateQuery(nil, map[string]sp.Encodable{"vals": c.e}) })
		if pan != "" || err != nil || string(out) != c.want {
			r.Violation("encodable", id, fmt.Sprintf("%s %v: got\n%s\nexpected\n%s", pan, err, out, c.want), data)
			return
		}
		st, err, pan := parse1(string(out))
		if err != nil || pan != "" {
			r.Violation("encodable-parse", id, fmt.Sprintf("%v %s for %s", err, pan, out), data)
			return
		}
		want, _, _ := parse1(c.want)
		if d := diffTree(st, want); d != "" {
			r.Violation("encodable-tree", id, d, data)
			return
		}
		if s, ok := st.(*sp.Select); ok {
			n := 0
			visitExprs(s.Where, func(e sp.Expr) {
				if x, ok := e.(*sp.SQLVal); ok && x != nil {
					n++
				}
				if _, ok := e.(*sp.NullVal); ok {
					n++
				}
			})
			if w := nr * nc; n != w {
				r.Violation("encodable-count", id, fmt.Sprintf("%d values in the condition, expected %d: %s", n, w, out), data)
				return
			}
		}
	}
	r.Eval("enc"+key, true)
}

func (r *Run) buildParsed(id string, g *rand.Rand) {
	// a hand-assembled template: fixed text, nodes and variables interleaved
	var format string
	var args []interface{}
	var want, tmpl strings.Builder
	vals := map[string]*qp.BindVariable{}
	put := func(s string) { format += s; want.WriteString(s); tmpl.WriteString(s) }
	put("select ")
	n := 1 + g.Intn(6)
	for i := 0; i < n; i++ {
		if i > 0 {
			put(", ")
		}
		switch g.Intn(5) {
		case 0:
			s := pick(g, []string{"a", "b.c", "count(*)"})
			format += "%s"
			args = append(args, s)
			want.WriteString(s)
			tmpl.WriteString(s)
		case 1:
			nm := pick(g, append(append([]string{}, plainNames...), quotedNames...))
			format += "%v"
			args = append(args, sp.NewColIdent(nm))
			want.WriteString(canonID(nm))
			tmpl.WriteString(canonID(nm))
		default:
			nm := fmt.Sprintf("v%d", g.Intn(4))
			if g.Intn(2) == 0 {
				put("-")
			}
			if vals[nm] == nil {
				ty, v, _ := randScalar(g)
				vals[nm] = &qp.BindVariable{Type: ty, Value: v}
			}
			b := vals[nm]
			e := encText(b.Type, b.Value)
			format += "%a"
			args = append(args, ":"+nm)
			if strings.HasSuffix(want.String(), "-") && e[0] == '-' {
				want.WriteByte(' ')
			}
			want.WriteString(e)
			tmpl.WriteString(":" + nm)
		}
	}
	pq := sp.BuildParsedQuery(format, args...)
	out, err := pq.GenerateQuery(vals, nil)
	if pq.Query != tmpl.String() || err != nil || string(out) != want.String() {
		r.Violation("assembled", id, fmt.Sprintf("%v: template %q (expected %q), got %q, expected %q", err, pq.Query, tmpl.String(), out, want.String()), nil)
		return
	}
	if _, err, pan := parse1(string(out)); err != nil || pan != "" {
		r.Violation("assembled-parse", id, fmt.Sprint(err, pan, " ", string(out)), nil)
		return
	}
	r.Eval("asm"+want.String(), true)
}

func encText(t qp.Type, v []byte) string {
	for _, ti := range typeTable {
		if ti.t == t {
			switch ti.cat {
			case catNull:
				return "null"
			case catQuoted:
				return canonStr(string(v))
			}
		}
	}
	return string(v)
}

// visitExprs collects expressions by reflection.
func visitExprs(n interface{}, f func(e sp.Expr)) {
	visitAll(n, func(v reflectValue) {
		if v.CanInterface() {
			if e, ok := v.Interface().(sp.Expr); ok {
				f(e)
			}
		}
	})
}

func (r *Run) probesC16() {
	// every single byte, and every pair with quote-like bytes, as a value of each quoted type
	pq := sp.NewParsedQuery(mustParse("select a from t where b = :v and c = 'k'"))
	check := func(s string, ty qp.Type) bool {
		out, err := pq.GenerateQuery(map[string]*qp.BindVariable{"v": {Type: ty, Value: []byte(s)}}, nil)
		want := "select a from t where b = " + canonStr(s) + " and c = 'k'"
		if err != nil || string(out) != want {
			r.Violation("bytes", fmt.Sprintf("bytes:%x", s), fmt.Sprintf("%v: got %q, expected %q", err, out, want), nil)
			return false
		}
		st, err, pan := parse1(string(out))
		if err != nil || pan != "" {
			r.Violation("bytes-parse", fmt.Sprintf("bytes:%x", s), fmt.Sprint(err, pan), nil)
			return false
		}
		var got []string
		visitExprs(st, func(e sp.Expr) {
			if x, ok := e.(*sp.SQLVal); ok {
				got = append(got, string(x.Val))
			}
		})
		if len(got) != 2 || got[0] != s || got[1] != "k" {
			r.Violation("bytes-value", fmt.Sprintf("bytes:%x", s), fmt.Sprintf("values read back: %q", got), nil)
			return false
		}
		r.Eval("bytes"+s+ty.String(), true)
		return true
	}
	for _, ti := range typeTable {
		if ti.cat != catQuoted {
			continue
		}
		for i := 0; i < 256; i++ {
			if !check(string([]byte{byte(i)}), ti.t) {
				break
			}
		}
	}
	for _, a := range []byte{0, '\'', '"', '\\', '\n', 26, 0xbf, 0xff, 'n', 'Z', '0', '%', 'b'} {
		for i := 0; i < 256; i++ {
			if !check(string([]byte{a, byte(i)}), qp.Type_VARCHAR) || !check(string([]byte{byte(i), a, byte(i)}), qp.Type_BLOB) {
				break
			}
		}
	}
	// numbers that are no SQL literals
	for name, bv := range map[string]*qp.BindVariable{
		"nan":        {Type: qp.Type_FLOAT64, Value: []byte("NaN")},
		"inf":        {Type: qp.Type_FLOAT64, Value: []byte("Inf")},
		"underscore": {Type: qp.Type_INT64, Value: []byte("1_000")},
	} {
		r.Eval("probe "+name, true)
		if sqltypes.ValidateBindVariable(bv) != nil {
			continue
		}
		var buf bytes.Buffer
		sp.EncodeValue(&buf, bv)
		st, err, _ := parse1("select " + buf.String())
		ok := err == nil
		if ok {
			visitExprs(st, func(e sp.Expr) {
				if _, isCol := e.(*sp.ColName); isCol {
					ok = false
				}
			})
		}
		if ok {
			continue
		}
		if !r.Known("probe:"+name, buf.String()) {
			r.Violation("probe-"+name, "probe:"+name, "the valid value "+string(bv.Value)+" is inserted as "+buf.String()+", which is no literal", nil)
		}
	}
}

func mustParse(s string) sp.Statement {
	st, err, pan := parse1(s)
	if err != nil || pan != "" {
		panic(refused(fmt.Sprint(s, ": ", err, pan)))
	}
	return st
}

// someOf picks n different names.
func someOf(g *rand.Rand, xs []string, n int) []string {
	var out []string
	for _, i := range g.Perm(len(xs))[:n] {
		out = append(out, xs[i])
	}
	return out
}
