package main

// C12: parsing and planning never crash, hang, end the process or depend on anything but the input.
//
// The library runs in worker processes, because a violation may end the process. A worker announces each
// case before it starts it; a watchdog inside the worker ends it when one case uses too much processor
// time or memory. The parent knows from the announcements which case a dead worker was in.

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/k0kubun/sqldef/schema"
	sp "github.com/k0kubun/sqldef/sqlparser"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
)

//go:embed corpus.json
var corpusJSON []byte

var corpus []string

func init() {
	if err := json.Unmarshal(corpusJSON, &corpus); err != nil {
		panic(err)
	}
	register("C12", "exploration", checkC12)
	subcommands["c12"] = worker12
}

var parserModes = []sp.ParserMode{sp.ParserModeMysql, sp.ParserModePostgres, sp.ParserModeSQLite3, sp.ParserModeMssql}
var plannerModes = []schema.GeneratorMode{schema.GeneratorModeMysql, schema.GeneratorModePostgres, schema.GeneratorModeSQLite3, schema.GeneratorModeMssql}

const (
	batch12    = 250
	cpuLimit12 = 20 * time.Second
	memLimit12 = 6 << 30
)

func checkC12(r *Run) {
	r.rule = "a case is one text (generated statement, corpus statement, mutated or spliced one, words, bytes, deep nesting) given to every parsing entry point, and with a second text to the planner in all four dialects, each twice; it counts when every call returned, distinct by text"
	r.assume = []string{"a call that uses 20 s of processor time or 6 GiB of memory for one small text does not end"}
	n := r.N(120, 1400)
	r.minEvals = n * batch12
	if r.OnlyCase != "" { // batch#i or batch#i/j
		b, j := r.OnlyCase, -1
		if k := strings.Index(b, "/"); k >= 0 {
			j, _ = strconv.Atoi(b[k+1:])
			b = b[:k]
		}
		r.batchC12(b, j)
		return
	}
	r.Cases("batch", n, func(id string, g *rand.Rand) { r.batchC12(id, -1) })
	r.probesC12()
}

type rep12 struct {
	Case   int
	Start  bool
	Inputs []string `json:",omitempty"`
	Digest uint64
	Kinds  map[string]int `json:",omitempty"`
	Bad    []string       `json:",omitempty"`
	Limit  string         `json:",omitempty"`
	Done   bool
}

func (r *Run) batchC12(id string, only int) {
	from, to := 0, batch12
	if only >= 0 {
		from, to = only, only+1
	}
	for from < to {
		o := runProc(os.Args[0], []string{"c12", strconv.FormatInt(r.Seed, 10), id, strconv.Itoa(from), strconv.Itoa(to), "run"}, "", nil, r.Scratch, 800*time.Second)
		var cur rep12
		done := false
		cur.Case = from - 1
		sc := bufio.NewScanner(strings.NewReader(o.Stdout))
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			if !strings.HasPrefix(sc.Text(), "{\"Case") {
				continue // text printed by the library
			}
			var x rep12
			if json.Unmarshal(sc.Bytes(), &x) != nil {
				continue
			}
			if x.Limit != "" {
				cur.Limit = x.Limit
				continue
			}
			if x.Done {
				done = true
				continue
			}
			if !x.Start && len(x.Inputs) == 0 {
				x.Inputs = cur.Inputs
			}
			cur = x
			if x.Start {
				continue
			}
			r.State("results", fmt.Sprint(x.Digest))
			r.Eval(strings.Join(x.Inputs, "\x00"), true)
			if x.Case == 7 {
				r.Sample(map[string]interface{}{"case": fmt.Sprintf("%s/%d", id, x.Case), "inputs": x.Inputs})
			}
			for k, v := range x.Kinds {
				r.Count(k, v)
			}
			for _, b := range x.Bad {
				kind := "crash"
				if m := frameRe.FindStringSubmatch(b); m != nil {
					kind += "-" + m[1] + "-" + m[2]
				}
				if strings.HasPrefix(b, "not deterministic") {
					kind = "nondeterministic"
				} else if strings.HasPrefix(b, "input") {
					kind = "input-changed"
				}
				r.Violation(kind, fmt.Sprintf("%s/%d", id, x.Case), b, map[string]interface{}{"inputs": x.Inputs})
			}
		}
		if done {
			return
		}
		if cur.Case < from {
			r.Inconclusive("worker for %s died before its first case: %s", id, o)
			return
		}
		what := "the process ended: " + oneLine(o.Stderr, 800)
		if cur.Limit != "" {
			what = "does not end: " + cur.Limit
		} else if o.Signal != "" {
			what = "killed by " + o.Signal + ": " + oneLine(o.Stderr, 800)
		} else if o.Hung {
			what = "no answer within 800 s"
		}
		r.Violation("ended", fmt.Sprintf("%s/%d", id, cur.Case), what, map[string]interface{}{"inputs": cur.Inputs, "stderr": o.Stderr})
		from = cur.Case + 1
	}
}

func worker12(a []string) {
	seed, _ := strconv.ParseInt(a[0], 10, 64)
	id := a[1]
	from, _ := strconv.Atoi(a[2])
	to, _ := strconv.Atoi(a[3])
	r := &Run{ID: "C12", Seed: seed}
	runtime.GOMAXPROCS(2)
	out := os.NewFile(uintptr(dup(1)), "out")
	os.Stdout = os.Stderr // what the library prints does not mix with the reports
	enc := json.NewEncoder(out)
	var started atomic.Int64
	cpu := func() time.Duration {
		var u syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &u)
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	started.Store(int64(cpu()))
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var lim string
			if c := cpu() - time.Duration(started.Load()); c > cpuLimit12 {
				lim = fmt.Sprintf("%v of processor time used", c)
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit12 {
				lim = fmt.Sprintf("%d bytes of memory used", m.HeapAlloc)
			}
			if lim != "" {
				json.NewEncoder(out).Encode(map[string]interface{}{"Case": -1, "Limit": lim})
				os.Exit(98)
			}
		}
	}()
	for i := from; i < to; i++ {
		started.Store(int64(cpu()))
		g := r.Rng(fmt.Sprintf("%s/%d", id, i))
		x, y := input12(g)
		enc.Encode(rep12{Case: i, Start: true, Inputs: []string{x, y}})
		rep := rep12{Case: i, Kinds: map[string]int{}}
		c1 := exercise12(x, y, &rep)
		c2 := exercise12(x, y, &rep)
		for k := range c1.by {
			if c1.by[k] != c2.by[k] {
				rep.Bad = append(rep.Bad, "not deterministic: "+k+" gave "+oneLine(c1.by[k], 300)+" and then "+oneLine(c2.by[k], 300))
			}
		}
		if len(rep.Bad) > 0 {
			rep.Inputs = []string{x, y}
		}
		rep.Digest = c1.digest()
		enc.Encode(rep)
	}
	enc.Encode(rep12{Case: -1, Done: true})
}

func dup(fd int) int {
	n, err := syscall.Dup(fd)
	if err != nil {
		panic(err)
	}
	return n
}

var frameRe = regexp.MustCompile(`/repo/(?:\w+/)*(\w+)\.(?:go|y):(\d+)`)

type trace12 struct{ by map[string]string }

func (t trace12) digest() uint64 {
	h := fnv.New64a()
	var ks []string
	for k := range t.by {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		io.WriteString(h, k+t.by[k])
	}
	return h.Sum64()
}

// addresses in messages are not part of the result.
var addrRe = regexp.MustCompile(`0xc[0-9a-f]{6,}|0x[0-9a-f]{6,}`)

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + addrRe.ReplaceAllString(err.Error(), "ADDR")
}

// guarded is a copy of s that has no capacity to spare: it lies at the end of its allocation.
func guarded(s string) string {
	b := append([]byte(nil), s...)
	if len(b) == 0 {
		return ""
	}
	return unsafe.String(&b[0], len(b))
}

// exercise12 gives x (and, for planning, y) to everything that accepts text.
func exercise12(x, y string, rep *rep12) trace12 {
	t := trace12{by: map[string]string{}}
	xs, ys := guarded(x), guarded(y)
	call := func(name string, f func() string) {
		var res string
		pan := guard(func() { res = f() })
		if pan != "" {
			if len(rep.Bad) < 5 {
				rep.Bad = append(rep.Bad, name+": "+pan)
			}
			res = "panic"
		}
		if xs != x || ys != y {
			rep.Bad = append(rep.Bad, "input changed by "+name)
			xs, ys = guarded(x), guarded(y)
		}
		t.by[name] = res
		rep.Kinds["calls"]++
		if strings.HasPrefix(res, "ok") {
			rep.Kinds["calls that succeeded: "+strings.SplitN(name, " ", 2)[0]]++
		}
	}
	stmt := func(st sp.Statement, err error) string {
		s := errText(err)
		if st != nil {
			s += " " + sp.String(st)
		}
		return s
	}
	after := func(name string, parse func() sp.Statement) {
		call("Normalize "+name, func() string {
			st := parse()
			if st == nil {
				return "-"
			}
			bv := map[string]*qp.BindVariable{}
			sp.Normalize(st, bv, "bv")
			var ks []string
			for k, v := range bv {
				ks = append(ks, k+"="+v.String())
			}
			sort.Strings(ks)
			return "ok " + sp.String(st) + strings.Join(ks, ",")
		})
		call("tree "+name, func() string {
			st := parse()
			if st == nil {
				return "-"
			}
			var b strings.Builder
			n := 0
			sp.Walk(func(sp.SQLNode) (bool, error) { n++; return true, nil }, st)
			fmt.Fprint(&b, "ok ", n, len(sp.GetBindvars(st)))
			buf := sp.NewTrackedBuffer(nil)
			buf.Myprintf("%v", st)
			q, err := buf.ParsedQuery().GenerateQuery(nil, nil)
			fmt.Fprint(&b, errText(err), string(q))
			if s, ok := st.(sp.SelectStatement); ok {
				buf := sp.NewTrackedBuffer(sp.FormatImpossibleQuery)
				sp.FormatImpossibleQuery(buf, s)
				b.WriteString(buf.String())
			}
			switch s := st.(type) {
			case *sp.Select:
				fmt.Fprint(&b, sp.ExtractCommentDirectives(s.Comments), sp.SkipQueryPlanCacheDirective(st))
			case *sp.Insert:
				fmt.Fprint(&b, sp.ExtractCommentDirectives(s.Comments), sp.SkipQueryPlanCacheDirective(st))
			}
			return b.String()
		})
	}
	call("Parse", func() string { return stmt(sp.Parse(xs)) })
	call("ParseStrictDDL", func() string { return stmt(sp.ParseStrictDDL(xs)) })
	for i, m := range parserModes {
		call(fmt.Sprint("ParseStrictDDLWithMode ", i), func() string { return stmt(sp.ParseStrictDDLWithMode(xs, m)) })
	}
	after("Parse", func() sp.Statement { st, _ := sp.Parse(xs); return st })
	if len(x) > 0 {
		after("strict", func() sp.Statement { st, _ := sp.ParseStrictDDLWithMode(xs, parserModes[len(x)%4]); return st })
	}
	next := func(tk *sp.Tokenizer) string {
		var b strings.Builder
		for i := 0; i <= len(x)+2; i++ {
			st, err := sp.ParseNext(tk)
			if err == io.EOF {
				return fmt.Sprint("ok ", b.String())
			}
			b.WriteString(stmt(st, err) + ";")
			if err != nil && !strings.Contains(err.Error(), "syntax error") && i > 40 {
				return b.String()
			}
		}
		panic("ParseNext does not reach the end of the text")
	}
	call("ParseNext string", func() string { return next(sp.NewStringTokenizer(xs, parserModes[len(x)%4])) })
	call("ParseNext reader", func() string { return next(sp.NewTokenizer(bytes.NewReader([]byte(xs)))) })
	call("ParseNext onebyte", func() string { return next(sp.NewTokenizer(&oneByte{s: xs})) })
	call("Scan", func() string {
		tk := sp.NewStringTokenizer(xs, parserModes[len(x)%4])
		var b strings.Builder
		for i := 0; ; i++ {
			typ, val := tk.Scan()
			fmt.Fprintf(&b, "%d%q ", typ, val)
			if typ == 0 {
				return "ok " + b.String()
			}
			if i > 2*len(x)+10 {
				panic("Scan does not reach the end of the text")
			}
		}
	})
	call("SplitStatement", func() string { a, b, err := sp.SplitStatement(xs); return errText(err) + fmt.Sprintf("%q %q", a, b) })
	call("SplitStatementToPieces", func() string { a, err := sp.SplitStatementToPieces(xs); return errText(err) + fmt.Sprintf("%q", a) })
	call("Preview", func() string { return fmt.Sprint("ok ", sp.Preview(xs)) })
	call("SplitMarginComments", func() string { a, b := sp.SplitMarginComments(xs); return fmt.Sprintf("ok %q %q", a, b) })
	call("StripLeadingComments", func() string { return "ok " + sp.StripLeadingComments(xs) })
	call("ExtractMysqlComment", func() string { a, b := sp.ExtractMysqlComment("/*!" + xs + "*/"); return fmt.Sprintf("ok %q %q", a, b) })
	call("ExtractCommentDirectives", func() string {
		return fmt.Sprint("ok ", sp.ExtractCommentDirectives(sp.Comments{[]byte(xs), []byte("/*vt+ " + xs + " */")}))
	})
	call("IsDML", func() string { return fmt.Sprint("ok ", sp.IsDML(xs)) })
	call("RedactSQLQuery", func() string { s, err := sp.RedactSQLQuery(xs); return errText(err) + s })
	call("ExtractSetValues", func() string { m, s, err := sp.ExtractSetValues(xs); return errText(err) + fmt.Sprint(m, s) })
	call("KeywordString", func() string { return "ok " + sp.KeywordString(len(xs)+57344) })
	for i, m := range plannerModes {
		plan := func(name, desired, current string) {
			call(fmt.Sprint("plan ", i, " ", name), func() string {
				ds, err := schema.GenerateIdempotentDDLs(m, desired, current)
				if err == nil && len(ds) > 0 {
					rep.Kinds["plans with statements"]++
				}
				return errText(err) + fmt.Sprintf("%q", ds)
			})
		}
		plan("from nothing", xs, "")
		plan("to nothing", "", xs)
		plan("change", xs, ys)
		plan("change back", ys, xs)
		plan("same", xs, xs)
	}
	return t
}

type oneByte struct {
	s string
	i int
}

func (o *oneByte) Read(p []byte) (int, error) {
	if o.i >= len(o.s) {
		return 0, io.EOF
	}
	p[0] = o.s[o.i]
	o.i++
	return 1, nil
}

// input12 makes a text, and a second one that is often a variation of it.
func input12(g *rand.Rand) (string, string) {
	if g.Intn(3) == 0 { // two schemas of one dialect
		m := g.Intn(4)
		x, y := coherent12(g, m), coherent12(g, m)
		switch g.Intn(6) {
		case 0:
			y = mutate12(g, x)
		case 1, 2, 3: // the same schema with longer or shorter lists
			y = x
			for i := 0; i <= g.Intn(4); i++ {
				y = listEdit12(g, y)
			}
		}
		return x, y
	}
	x := text12(g)
	switch g.Intn(4) {
	case 0:
		return x, text12(g)
	case 1:
		return x, x
	default:
		y := x
		for i := 0; i <= g.Intn(3); i++ {
			y = mutate12(g, y)
		}
		return x, y
	}
}

// listEdit12 drops, doubles, swaps or adds an element of a list in parentheses.
func listEdit12(g *rand.Rand, s string) string {
	type group struct{ seps []int }
	var open []*group
	var all []*group
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\'':
			for i++; i < len(s) && s[i] != '\''; i++ {
			}
		case '(':
			open = append(open, &group{[]int{i}})
		case ',':
			if n := len(open); n > 0 {
				open[n-1].seps = append(open[n-1].seps, i)
			}
		case ')':
			if n := len(open); n > 0 {
				open[n-1].seps = append(open[n-1].seps, i)
				all = append(all, open[n-1])
				open = open[:n-1]
			}
		}
	}
	if len(all) == 0 {
		return s
	}
	p := all[g.Intn(len(all))].seps
	var el []string
	for i := 0; i+1 < len(p); i++ {
		el = append(el, strings.TrimSpace(s[p[i]+1:p[i+1]]))
	}
	k := g.Intn(len(el))
	switch g.Intn(4) {
	case 0:
		j := g.Intn(len(el))
		el[k], el[j] = el[j], el[k]
	case 1:
		el = append(el, el[k])
	case 2:
		el = append(el, pick(g, []string{"a", "b", "c", "id", "name", "1", "'x'"}))
	default:
		if len(el) > 1 {
			el = append(el[:k:k], el[k+1:]...)
		}
	}
	return s[:p[0]+1] + strings.Join(el, ", ") + s[p[len(p)-1]:]
}

func text12(g *rand.Rand) string {
	var s string
	switch k := g.Intn(20); {
	case k < 3:
		q := newQ(g)
		q.statement()
		s = q.t.Spell(g, spellOpt{comments: true, special: g.Intn(2) == 0, ansi: g.Intn(4) == 0})
	case k < 5:
		_, text := newQ(g).createTable()
		s = text.Spell(g, spellOpt{comments: g.Intn(2) == 0})
	case k < 9:
		s = pick(g, corpus)
	case k < 15:
		if g.Intn(4) == 0 {
			s = ddl12(g)
		} else {
			s = coherent12(g, g.Intn(4))
		}
	case k < 16:
		s = hostileText(g)
	case k < 17:
		for i := 0; i < g.Intn(25); i++ {
			s += pick(g, sqlWords) + pick(g, []string{" ", " ", " (", ") ", ", ", "\n", ";"})
		}
	case k < 18 && g.Intn(6) == 0:
		s = deep12(g)
	default:
		a, b := words12(pick(g, corpus)), words12(pick(g, corpus))
		s = strings.Join(a[:g.Intn(len(a)+1)], "") + strings.Join(b[g.Intn(len(b)+1):], "")
	}
	if g.Intn(3) > 0 {
		for i := 0; i < 1+g.Intn(3); i++ {
			s = mutate12(g, s)
		}
	}
	if g.Intn(5) == 0 {
		s += ";" + pick(g, []string{"\n", " ", "", ";"}) + ddl12(g)
	}
	return s
}

var wordRe = regexp.MustCompile(`[A-Za-z_0-9]+|\s+|'[^']*'|[^A-Za-z_0-9\s]`)

func words12(s string) []string { return wordRe.FindAllString(s, -1) }

var punct12 = []string{"(", ")", ",", ";", "'", "\"", "`", "[", "]", ".", "*", "/*", "*/", "--", "-", "+", "=", ":", "::", ":a", "::a", "?", "@", "@@x", "#", "\\", "\x00", "\xff", "é", "1", "0", "-1", "1.5", "'x'", "x'4'", "x'41'", "0x", "0x1", "b'1'", "b'2'", "null", "true", "/*!1 a*/", "/*!40000", "\n", " ", "  ", "{", "}", "$1", "~", "!", "<", ">", "|", "&", "^", "%"}

func mutate12(g *rand.Rand, s string) string {
	if len(s) == 0 {
		return pick(g, punct12)
	}
	w := words12(s)
	if len(w) == 0 {
		w = []string{s}
	}
	i := g.Intn(len(w))
	join := func(xs ...[]string) string {
		var b strings.Builder
		for _, x := range xs {
			for _, y := range x {
				b.WriteString(y)
			}
		}
		return b.String()
	}
	switch g.Intn(12) {
	case 0:
		return join(w[:i], w[i+1:])
	case 1:
		return join(w[:i], []string{w[g.Intn(len(w))]}, w[i+1:])
	case 2:
		return join(w[:i], []string{" ", pick(g, sqlWords), " "}, w[i:])
	case 3:
		return join(w[:i], []string{pick(g, sqlWords)}, w[i+1:])
	case 4:
		return join(w[:i], []string{pick(g, punct12)}, w[i:])
	case 5:
		return join(w[:i], []string{pick(g, punct12)}, w[i+1:])
	case 6:
		j := i + g.Intn(len(w)-i+1)
		return join(w[:j], w[i:])
	case 7:
		j := i + g.Intn(len(w)-i+1)
		return join(w[:i], w[j:])
	case 8:
		return s[:g.Intn(len(s)+1)]
	case 9:
		k := g.Intn(len(s))
		return s[:k] + string([]byte{byte(g.Intn(256))}) + s[k+g.Intn(2):]
	case 10:
		return join(w[:i], []string{pick(g, hostile)}, w[i:])
	default:
		o := words12(pick(g, corpus))
		if len(o) == 0 {
			return s
		}
		a := g.Intn(len(o))
		b := a + g.Intn(len(o)-a)
		if b > a+8 {
			b = a + 8
		}
		return join(w[:i], []string{" "}, o[a:b], []string{" "}, w[i:])
	}
}

func deep12(g *rand.Rand) string {
	n := 200 + g.Intn(3000)
	switch g.Intn(10) {
	case 0:
		return "select " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n)
	case 1:
		return "select 1" + strings.Repeat(" union select 1", n)
	case 2:
		return "select " + strings.Repeat("not ", n) + "a from t"
	case 3:
		return "select " + strings.Repeat("- ", n) + "1"
	case 4:
		return "select * from " + strings.Repeat("(select * from ", n/4) + "t" + strings.Repeat(") a", n/4)
	case 5:
		return "create table t (" + strings.Repeat("c int, ", n/15) + "d int)"
	case 6:
		return strings.Repeat("(", n)
	case 7:
		return strings.Repeat("select 1;", n)
	case 8:
		return "select case" + strings.Repeat(" when a then case", n/4) + strings.Repeat(" when 1 then 2 end", n/4)
	default:
		return "create view v as select " + strings.Repeat("a + ", n) + "1 from t where " + strings.Repeat("f(", n/2) + "1" + strings.Repeat(")", n/2)
	}
}

var names12 = []string{"a", "b", "t", "t", "u", "users", "public.t", "dbo.t", "s.t", "`t`", "\"t\"", "[t]", "[dbo].[t]", "\"public\".\"t\"", "id", "name", "x.y.z", "`a``b`", "[a]]b]", "\"a.b\"", "[a.b]"}
var types12 = []string{"int", "integer", "bigint", "bigint unsigned", "varchar(10)", "varchar", "varchar(max)", "nvarchar(10)", "character varying(5)", "char(2)", "text", "timestamp", "timestamp with time zone", "timestamptz", "datetime", "datetime(6)", "date", "time", "decimal(10,2)", "decimal(3)", "numeric", "float", "double", "double precision", "real", "bool", "boolean", "bit", "bit(1)", "tinyint(1)", "enum('a','b')", "set('a','b')", "json", "jsonb", "uuid", "int[]", "text[]", "serial", "bigserial", "smallserial", "blob", "binary(3)", "varbinary(3)", "money", "geometry", "point", "citext", "uniqueidentifier", "datetime2", "datetimeoffset", "image", "bytea", "interval", "inet", "year", "int(11)", "int(0)", "int(-1)", "int(99999999999999999999)", "varchar(1e3)"}
var colOpts12 = []string{"not null", "null", "default 1", "default -1", "default 'x'", "default 'it''s'", "default null", "default now()", "default current_timestamp", "default (1)", "default ((1))", "default true", "default b'1'", "default x'41'", "default 1.50", "default getdate()", "default 'a'::text", "default 'a'::character varying", "default nextval('s'::regclass)", "constraint df default 0", "primary key", "unique", "unique key", "key", "auto_increment", "autoincrement", "primary key autoincrement", "on update current_timestamp", "on update current_timestamp(6)", "comment 'c'", "character set utf8", "collate utf8_bin", "collate binary", "check (a > 0)", "constraint ck check (a > 0)", "check (a > 0) no inherit", "check (a in (1,2))", "references t (id)", "references t", "generated always as identity", "generated by default as identity", "generated always as identity (start with 1 increment by 2)", "generated always as identity (minvalue 1 no maxvalue cache 3 no cycle)", "generated by default as identity (start with 'x')", "generated always as identity (sequence name s.t cycle)", "identity", "identity(1,1)", "identity(1, 1) not for replication", "identity(2)", "identity(x,y)", "check not for replication (a > 0)", "unsigned", "zerofill", "on delete cascade", "default 18446744073709551616", "identity(1.5,2)", "generated always as identity (increment by 1.5)", "default :v", "default 0x10", "default 1e400"}
var tblOpts12 = []string{"primary key (id)", "primary key (id, name desc)", "constraint pk primary key clustered (id)", "constraint pk primary key nonclustered (id desc) with (pad_index = on)", "unique (id)", "unique key uk (id)", "unique index uk (id(3))", "key k (name)", "index k (name desc, id)", "index k (name) comment 'x'", "fulltext key ft (name)", "spatial index sx (name)", "fulltext index ft (name) with parser ngram", "constraint fk foreign key (id) references u (id)", "constraint fk foreign key (id) references u (id) on delete cascade on update set null", "constraint fk foreign key ix (id, name) references s.u (id, name) on delete no action", "foreign key (id) references u (id)", "constraint fk foreign key (id) references u (id) not for replication", "constraint uq unique (id)", "check (id > 0)", "constraint c check (id > 0)", "index k (name) using btree", "key k (id) key_block_size 3", "index ix nonclustered (id) with (fillfactor = 80)", "index k (name(99999999999999999999))"}

// ddl12 is a schema with the constructs of all dialects thrown together.
func ddl12(g *rand.Rand) string {
	var out []string
	name := func() string { return pick(g, names12) }
	table := func() string {
		var items []string
		for i := 0; i <= g.Intn(4); i++ {
			c := pick(g, []string{"id", "name", "a", "b", "`c`", "\"d\"", "[e]"}) + " " + pick(g, types12)
			for j := 0; j < g.Intn(4); j++ {
				c += " " + pick(g, colOpts12)
			}
			items = append(items, c)
		}
		for i := 0; i < g.Intn(3); i++ {
			items = append(items, pick(g, tblOpts12))
		}
		return "create table " + pick(g, []string{"", "", "if not exists "}) + name() + " (" + strings.Join(items, ", ") + ")" + pick(g, []string{"", "", "", " engine=innodb default charset=utf8", " comment='x'", " on [primary]", " without rowid"})
	}
	for i := 0; i <= g.Intn(4); i++ {
		cols := pick(g, []string{"(id)", "(id, name)", "(name desc)", "(name(10))", "(lower(name))", "(id asc)"})
		switch g.Intn(14) {
		case 0, 1, 2, 3, 4:
			out = append(out, table())
		case 5:
			out = append(out, "create "+pick(g, []string{"", "unique ", "clustered ", "nonclustered ", "unique clustered ", "fulltext "})+"index "+name()+" on "+name()+pick(g, []string{" ", " using btree ", " using gin "})+cols+pick(g, []string{"", " where id > 0", " where (name = 'x')", " include (a, b)", " with (pad_index = on, fillfactor = 10)", " on ps (id)"}))
		case 6:
			out = append(out, "alter table "+pick(g, []string{"", "only "})+name()+" add "+pick(g, []string{"index k " + cols, "unique index k " + cols, "key k " + cols, "primary key " + cols, "constraint pk primary key " + cols, "constraint fk foreign key (id) references u (id)", "foreign key (id) references u(id)", "constraint uq unique " + cols, "column c int", "unique key " + cols, "constraint c check (id > 1)"}))
		case 7:
			out = append(out, "create "+pick(g, []string{"", "or replace ", "materialized "})+"view "+name()+" as "+pick(g, []string{"select 1", "select * from t", "select a as b, 'x' as c from t where id in (1,2)", "select t.id from t join u on t.id = u.id union all select 2"}))
		case 8:
			out = append(out, "create policy p on "+name()+pick(g, []string{"", " as permissive", " as restrictive"})+pick(g, []string{"", " for all", " for select", " for insert"})+pick(g, []string{"", " to public", " to a, b", " to current_user"})+pick(g, []string{"", " using (id = 1)", " using (true)"})+pick(g, []string{"", " with check (id > 2)"}))
		case 9:
			out = append(out, "create trigger tr "+pick(g, []string{"after insert on t for each row ", "before update on t for each row ", "on t after delete as ", "on dbo.t for insert as "})+pick(g, []string{"insert into u(id) values (1)", "delete from u", "set NEW.a = 1", "begin delete from u; end", "update u set a = 1"}))
		case 10:
			out = append(out, pick(g, []string{"drop table t", "drop index a on t", "alter table t drop column a", "rename table a to b", "truncate table t", "create database d", "drop view v", "create table t", "create table t like u", "create table t as select 1", "alter table t", "drop database d", "analyze table t", "create virtual table t using fts5(a)", "alter view v", "create type e as enum ('a')", "create extension x", "set a = 1", "use d", "begin", "comment on table t is 'x'"}))
		default:
			out = append(out, pick(g, corpus))
		}
	}
	return strings.Join(out, pick(g, []string{";", ";\n", "; ", ";\n\n"}))
}

// probesC12 are inputs of listed findings.
func (r *Run) probesC12() {
}

var types12ok, colOpts12ok, tblOpts12ok [4][]string

func vocab12() {
	if types12ok[0] != nil {
		return
	}
	for i, m := range plannerModes {
		ok := func(sql string) bool {
			var err error
			if guard(func() { _, err = schema.GenerateIdempotentDDLs(m, sql, "") }) != "" {
				return true
			}
			return err == nil
		}
		for _, t := range types12 {
			if ok("create table t (id " + t + ")") {
				types12ok[i] = append(types12ok[i], t)
			}
		}
		for _, o := range colOpts12 {
			if ok("create table t (id int " + o + ")") {
				colOpts12ok[i] = append(colOpts12ok[i], o)
			}
		}
		for _, o := range tblOpts12 {
			if ok("create table t (id int, name int, " + o + ")") {
				tblOpts12ok[i] = append(tblOpts12ok[i], o)
			}
		}
	}
}

// coherent12 is a schema that one dialect mostly accepts, over few names, so that two of them have much in common.
func coherent12(g *rand.Rand, m int) string {
	vocab12()
	var out []string
	ok := func(context, s string) bool {
		var err error
		if guard(func() { _, err = schema.GenerateIdempotentDDLs(plannerModes[m], context+s, "") }) != "" {
			return true
		}
		return err == nil
	}
	tables := []string{"t", "u", "users"}
	if m == 1 {
		tables = append(tables, "s.t", "public.u")
	}
	g.Shuffle(len(tables), func(i, j int) { tables[i], tables[j] = tables[j], tables[i] })
	tables = tables[:1+g.Intn(3)]
	cols := []string{"id", "name", "a", "b", "c"}
	for _, t := range tables {
		var items []string
		g.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
		for _, c := range cols[:1+g.Intn(len(cols))] {
			d := c + " " + pick(g, types12ok[m])
			for k := 0; k < 3; k++ {
				o := pick(g, colOpts12ok[m])
				if g.Intn(2) == 0 && ok("", "create table x ("+d+" "+o+")") {
					d += " " + o
				}
			}
			items = append(items, d)
		}
		for k := 0; k < g.Intn(3) && len(tblOpts12ok[m]) > 0; k++ {
			items = append(items, pick(g, tblOpts12ok[m]))
		}
		out = append(out, "create table "+t+" ("+strings.Join(items, ", ")+")")
		for k := 0; k < 4; k++ {
			var s string
			switch g.Intn(5) {
			case 0:
				s = "create " + pick(g, []string{"", "unique "}) + "index " + pick(g, []string{"i1", "i2", "k"}) + " on " + t + " (" + pick(g, cols) + pick(g, []string{"", "", " desc", "(3)", ", id", ", a, b"}) + ")" + pick(g, []string{"", "", " where id > 0", " include (a)", " include (a, b, c)", " with (fillfactor = 80)", " with (pad_index = on, fillfactor = 80)"})
			case 1:
				s = "alter table " + pick(g, []string{"", "only "}) + t + " add " + pick(g, []string{"index i1 (id)", "unique index i2 (name)", "key k (a, b)", "primary key (id)", "primary key (id, a)", "constraint fk foreign key (id) references u (id)", "constraint fk foreign key (id, a) references u (id, a)", "constraint fk foreign key (id) references u (id) on delete cascade", "constraint fk2 foreign key (name) references s.t (id)"})
			case 2:
				s = "create policy " + pick(g, []string{"p", "q"}) + " on " + t + pick(g, []string{"", " as permissive", " as restrictive"}) + pick(g, []string{"", " for select"}) + pick(g, []string{"", " to public", " to b, a"}) + pick(g, []string{"", " using (id = 1)", " using (id = 2)"}) + pick(g, []string{"", " with check (id > 2)"})
			case 3:
				s = "create view " + pick(g, []string{"v", "w"}) + " as select " + pick(g, []string{"*", "id", "a, b", "count(*)"}) + " from " + t + pick(g, []string{"", " where id = 1", " order by id"})
			default:
				s = "create trigger tr " + pick(g, []string{"after insert on t for each row insert into u values (1)", "before delete on t for each row delete from u", "on t after insert as delete from u", "on t for update as insert into u values (2)"})
			}
			if g.Intn(2) == 0 && (ok(strings.Join(out, ";")+";", s) || g.Intn(20) == 0) {
				out = append(out, s)
			}
		}
	}
	return strings.Join(out, ";\n")
}
