package main

// C18: parsing and planning are safe and deterministic under concurrency. The workers are built with the
// race detector (and its pointer checks); every process starts with the concurrent phase, so that anything
// initialized on first use is initialized under contention.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	sp "github.com/k0kubun/sqldef/sqlparser"
	qp "github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"
)

func init() {
	register("C18", "exploration", checkC18)
	subcommands["c18"] = worker18
}

type rep18 struct {
	Texts      int
	Calls      int
	Shared     int
	Goroutines int
	Overlap    int // largest number of goroutines seen inside a call at once
	Orders     []string
	Bad        []string
}

func checkC18(r *Run) {
	r.rule = "a case is one text (or shared statement) exercised by several goroutines at once under the race detector, in a process whose first use of the library is concurrent; it counts when every goroutine's results were compared with those of the text alone, distinct by process and text"
	r.assume = []string{"the race detector sees the accesses of the executed paths; schedules are sampled"}
	n := r.N(28, 420)
	r.minEvals = n * 10
	ids := []string{}
	for i := 0; i < n; i++ {
		ids = append(ids, fmt.Sprintf("process#%d", i))
	}
	sem := make(chan bool, 3)
	r.CaseList(ids, func(id string, g *rand.Rand) {
		sem <- true
		defer func() { <-sem }()
		procs := []int{1, 2, 4, 8, 16}[g.Intn(5)]
		o := runProc(filepath.Join(r.Bin, "vrace"), []string{"c18", strconv.FormatInt(r.Seed, 10), id}, "",
			[]string{"GORACE=halt_on_error=0 exitcode=66 history_size=3", fmt.Sprintf("GOMAXPROCS=%d", procs)}, r.Scratch, 600*time.Second)
		r.Count("processes", 1)
		var rep rep18
		ok := false
		if i := strings.LastIndex(o.Stdout, "{\"Texts\""); i >= 0 {
			ok = json.Unmarshal([]byte(o.Stdout[i:]), &rep) == nil
		}
		if i := strings.Index(o.Stderr, "WARNING: DATA RACE"); i >= 0 {
			rpt := o.Stderr[i:]
			if j := strings.Index(rpt, "=================="); j > 0 {
				rpt = rpt[:j]
			}
			if !strings.Contains(rpt, "/repo/") {
				r.Inconclusive("race outside of /repo: %s", rpt)
			} else {
				r.Violation("race"+firstFrame(rpt), id, rpt, map[string]interface{}{"report": rpt})
			}
		} else if !ok {
			if o.Crashed() || o.Code != 0 || o.Hung {
				r.Violation("ended", id, "the process ended: "+o.Stderr, map[string]interface{}{"stderr": o.Stderr})
			} else {
				r.Inconclusive("no report from %s: %s", id, o)
			}
			return
		}
		for _, b := range rep.Bad {
			r.Violation("different", id, b, map[string]interface{}{"difference": b})
		}
		for i := 0; i < rep.Texts+rep.Shared; i++ {
			r.Eval(fmt.Sprint(id, i), true)
		}
		r.Count("calls compared", rep.Calls)
		r.Count("goroutines", rep.Goroutines)
		r.Count("shared statements", rep.Shared)
		for _, s := range rep.Orders {
			r.State("orders of completion", s)
		}
		r.State("goroutines inside a call at once", fmt.Sprint(rep.Overlap))
		r.Sample(map[string]interface{}{"process": id, "GOMAXPROCS": procs, "texts": rep.Texts, "calls": rep.Calls, "most goroutines inside a call": rep.Overlap})
	})
}

func firstFrame(rpt string) string {
	if m := frameRe.FindStringSubmatch(rpt); m != nil {
		return "-" + m[1] + "-" + m[2]
	}
	return ""
}

func worker18(a []string) {
	seed, _ := strconv.ParseInt(a[0], 10, 64)
	out := os.NewFile(uintptr(dup(1)), "out")
	os.Stdout = os.Stderr
	r := &Run{ID: "C18", Seed: seed}
	g := r.Rng(a[1])
	// Generate without touching the library: corpus and generated statements only.
	var texts [][2]string
	n := 10 + g.Intn(6)
	cold := g.Intn(2) == 0 // nothing of the library was used before the goroutines start
	for i := 0; i < n; i++ {
		if !cold && g.Intn(2) == 0 {
			m := g.Intn(4)
			texts = append(texts, [2]string{coherent12(g, m), coherent12(g, m)})
			continue
		}
		texts = append(texts, [2]string{plain18(g), plain18(g)})
	}
	k := []int{2, 4, 8, 12}[g.Intn(4)]
	rep := rep18{Texts: n, Goroutines: k}
	var mu sync.Mutex
	inside := 0
	bad := func(f string, a ...interface{}) {
		mu.Lock()
		if len(rep.Bad) < 5 {
			rep.Bad = append(rep.Bad, fmt.Sprintf(f, a...))
		}
		mu.Unlock()
	}
	results := make([][]trace12, k)
	orders := make([][]int, k)
	var wg sync.WaitGroup
	start := make(chan bool)
	var done []int
	for w := 0; w < k; w++ {
		results[w] = make([]trace12, n)
		orders[w] = g.Perm(n)
		if w%3 == 0 { // all start with the same text
			orders[w] = make([]int, n)
			for i := range orders[w] {
				orders[w][i] = i
			}
		}
		seedW := g.Int63()
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			gg := rand.New(rand.NewSource(seedW))
			<-start
			for _, i := range orders[w] {
				mu.Lock()
				inside++
				if inside > rep.Overlap {
					rep.Overlap = inside
				}
				mu.Unlock()
				if gg.Intn(4) == 0 {
					runtime.Gosched()
				}
				x := rep12{Kinds: map[string]int{}}
				results[w][i] = exercise12(texts[i][0], texts[i][1], &x)
				mu.Lock()
				inside--
				rep.Calls += x.Kinds["calls"]
				done = append(done, w)
				mu.Unlock()
				if len(x.Bad) > 0 {
					bad("text %q: %s", texts[i][0], x.Bad[0])
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	rep.Orders = append(rep.Orders, fmt.Sprint(done))
	// Each text alone, twice: what only differs now is a matter of C12.
	for i, t := range texts {
		x := rep12{Kinds: map[string]int{}}
		alone := exercise12(t[0], t[1], &x)
		for w := range results {
			for name, v := range results[w][i].by {
				if v != alone.by[name] {
					bad("%s of %q gave %s under concurrency and %s alone", name, t[0], oneLine(v, 300), oneLine(alone.by[name], 300))
				}
			}
		}
	}
	for i := 0; i < 12; i++ {
		rep.Shared += shared18(g, k, bad)
	}
	json.NewEncoder(out).Encode(rep)
}

// plain18 makes a text without calling the library.
func plain18(g *rand.Rand) string {
	switch g.Intn(4) {
	case 0:
		q := newQ(g)
		q.statement()
		return q.t.Spell(g, spellOpt{comments: true, special: g.Intn(2) == 0})
	case 1:
		_, text := newQ(g).createTable()
		return text.Spell(g, spellOpt{comments: g.Intn(2) == 0})
	case 2:
		s := ddl12(g)
		if g.Intn(2) == 0 {
			s = mutate12(g, s)
		}
		return s
	default:
		return pick(g, corpus)
	}
}

// shared18 lets several goroutines read one parsed statement, query and set of variables.
func shared18(g *rand.Rand, k int, bad func(string, ...interface{})) int {
	q := newQ(g)
	q.statement()
	text := q.t.Spell(g, spellOpt{comments: true})
	st, err := sp.Parse(text)
	if err != nil {
		return 0
	}
	pq := sp.NewParsedQuery(st)
	bv := map[string]*qp.BindVariable{}
	for _, t := range q.t {
		switch t.k {
		case tkArg:
			typ, raw, _ := randScalar(g)
			bv[t.s] = &qp.BindVariable{Type: typ, Value: raw}
		case tkList:
			b := &qp.BindVariable{Type: qp.Type_TUPLE}
			for i := 0; i <= g.Intn(3); i++ {
				typ, raw, _ := randScalar(g)
				b.Values = append(b.Values, &qp.Value{Type: typ, Value: raw})
			}
			bv[t.s] = b
		}
	}
	var exprs []sp.Expr
	visitExprs(st, func(e sp.Expr) { exprs = append(exprs, e) })
	val, _ := sqltypes.NewValue(qp.Type_VARBINARY, []byte(hostileBytes(g)))
	read := func() string {
		var b strings.Builder
		b.WriteString(sp.String(st))
		var buf bytes.Buffer
		sp.Append(&buf, st)
		b.Write(buf.Bytes())
		c := 0
		sp.Walk(func(n sp.SQLNode) (bool, error) {
			c++
			switch x := n.(type) {
			case sp.ColIdent:
				b.WriteString(x.Lowered() + x.CompliantName() + x.String())
				fmt.Fprint(&b, x.EqualString("A"), x.Equal(x))
			case sp.TableIdent:
				b.WriteString(x.CompliantName() + x.String())
			case *sp.ColName:
				fmt.Fprint(&b, x.Equal(x))
			}
			return true, nil
		}, st)
		fmt.Fprint(&b, c)
		var names []string
		for n := range sp.GetBindvars(st) {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprint(&b, names)
		out, err := pq.GenerateQuery(bv, nil)
		fmt.Fprint(&b, string(out), errText(err))
		out, err = sp.NewParsedQuery(st).GenerateQuery(bv, nil)
		fmt.Fprint(&b, string(out), errText(err))
		for _, e := range exprs {
			pv, err := sp.NewPlanValue(e)
			fmt.Fprint(&b, errText(err))
			if err == nil {
				v, err := pv.ResolveValue(bv)
				fmt.Fprint(&b, v.String(), errText(err))
				l, err := pv.ResolveList(bv)
				fmt.Fprint(&b, len(l), errText(err))
			}
			fmt.Fprint(&b, sp.IsColName(e), sp.IsValue(e), sp.IsNull(e), sp.IsSimpleTuple(e))
		}
		for _, n := range names {
			if v := bv[strings.TrimPrefix(strings.TrimPrefix(n, ":"), ":")]; v != nil {
				fmt.Fprint(&b, errText(sqltypes.ValidateBindVariable(v)))
				x, err := sqltypes.BindVariableToValue(v)
				fmt.Fprint(&b, x, errText(err))
			}
		}
		val.EncodeSQL(&buf)
		js, _ := val.MarshalJSON()
		fmt.Fprint(&b, val.ToString(), buf.Len(), string(js))
		fmt.Fprint(&b, sp.SkipQueryPlanCacheDirective(st))
		return b.String()
	}
	res := make([]string, k)
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < k; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			if pan := guard(func() { res[w] = read() }); pan != "" {
				res[w] = pan
			}
		}(w)
	}
	close(start)
	wg.Wait()
	alone := ""
	if pan := guard(func() { alone = read() }); pan != "" {
		alone = pan
	}
	for w := range res {
		if res[w] != alone {
			bad("reading %q gave %s under concurrency and %s alone", text, oneLine(res[w], 400), oneLine(alone, 400))
		}
	}
	return 1
}
