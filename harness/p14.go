package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// C14: statements are split and tokenized the same however the text arrives.

func init() { register("C14", "exploration", checkC14) }

func checkC14(r *Run) {
	r.rule = "a case is one text of several statements (or one arbitrary byte string) with a set of readers that deliver it in pieces; it counts when the statements (tokens) of every reader were compared with those of the statements taken alone, distinct by text"
	r.assume = []string{"after a statement with a syntax error the parser looks for the next ';' without regard to quotes", "a separate list of known findings covers a comment after the last ';'"}
	n := r.N(6000, 150000)
	r.minEvals = n
	r.Cases("script", n, r.scriptCase)
	r.Cases("error", n/2, r.scriptErrorCase)
	r.Cases("readerr", n/2, r.readErrCase)
	r.Cases("bytes", n, r.tokenCase)
	r.Cases("margin", n, r.marginLossCase)
	r.probesC14()
}

// chunkReader delivers a text in pieces given by a plan.
type chunkReader struct {
	data  []byte
	next  func(left int) int // size of the next piece; 0 is an empty read
	eofD  bool               // deliver io.EOF together with the last piece
	fail  error              // reported instead of io.EOF
	reads int
	empty int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	end := io.EOF
	if c.fail != nil {
		end = c.fail
	}
	if len(c.data) == 0 {
		return 0, end
	}
	n := c.next(len(c.data))
	if n == 0 {
		c.empty++
		if c.empty < 20 {
			return 0, nil
		}
		n = 1
	}
	c.empty = 0
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	// the caller may not look at the rest of the buffer
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = 0xA5
	}
	if len(c.data) == 0 && c.eofD {
		return n, end
	}
	return n, nil
}

func readers(g *rand.Rand, text string, fail error) map[string]*chunkReader {
	mk := func(f func(int) int, eofD bool) *chunkReader {
		return &chunkReader{data: []byte(text), next: f, eofD: eofD, fail: fail}
	}
	k := 2 + g.Intn(40)
	g1, g2 := rand.New(rand.NewSource(g.Int63())), rand.New(rand.NewSource(g.Int63()))
	cut := 0
	if len(text) > 0 {
		cut = g.Intn(len(text))
	}
	first := true
	m := map[string]*chunkReader{
		"whole":      mk(func(l int) int { return l }, false),
		"whole+eof":  mk(func(l int) int { return l }, true),
		"byte":       mk(func(l int) int { return 1 }, g.Intn(2) == 0),
		"fixed":      mk(func(l int) int { return k }, g.Intn(2) == 0),
		"random":     mk(func(l int) int { return 1 + g1.Intn(9) }, g.Intn(2) == 0),
		"with empty": mk(func(l int) int { return g2.Intn(4) * g2.Intn(4) }, g.Intn(2) == 0),
		"cut": mk(func(l int) int {
			if first && cut > 0 {
				first = false
				return cut
			}
			return l
		}, false),
	}
	if len(text) > 4000 {
		m["4095"] = mk(func(l int) int { return 4095 }, false)
		m["4097"] = mk(func(l int) int { return 4097 }, true)
	}
	return m
}

// script returns statements and the text that contains them.
func scriptText(g *rand.Rand, n int) (parts []string, text string) {
	for i := 0; i < n; i++ {
		q := newQ(g)
		if g.Intn(6) == 0 {
			canon, text := q.createTable()
			_ = canon
			parts = append(parts, text.Spell(g, spellOpt{comments: true}))
			continue
		}
		q.statement()
		parts = append(parts, q.t.Spell(g, spellOpt{comments: true, special: g.Intn(4) == 0, pos: g.Intn(2) == 0}))
	}
	for i := range parts {
		if g.Intn(3) == 0 {
			parts[i] = leadIn(g) + parts[i]
		}
		if g.Intn(4) == 0 {
			parts[i] += leadIn(g)
		}
		if g.Intn(25) == 0 { // long enough to pass the size of the buffer
			parts[i] = "/*" + strings.Repeat(pick(g, []string{"x", ";", "' ", "* "}), 3000+g.Intn(3000)) + "*/" + parts[i]
		}
	}
	return parts, strings.Join(parts, ";")
}

type stmtResult struct {
	st  sp.Statement
	err error
}

// drain parses everything a tokenizer delivers.
func drain(tk *sp.Tokenizer, limit int) (out []stmtResult, pan string) {
	pan = guard(func() {
		for i := 0; i < limit; i++ {
			st, err := sp.ParseNext(tk)
			if err == io.EOF {
				return
			}
			out = append(out, stmtResult{st, err})
			if err != nil && !strings.Contains(err.Error(), "syntax error") {
				return
			}
		}
		out = append(out, stmtResult{nil, errors.New("no end")})
	})
	return
}

func (r *Run) scriptCase(id string, g *rand.Rand) {
	n := 1 + g.Intn(5)
	parts, text := scriptText(g, n)
	if g.Intn(2) == 0 {
		text += ";" + pick(g, []string{"", " ", "\n", " \t\r\n"})
	}
	data := map[string]interface{}{"input": text, "statements": parts}
	var want []sp.Statement
	for _, p := range parts {
		st, err, pan := parse1(p)
		if err != nil || pan != "" {
			r.Violation("parse", id, fmt.Sprint(err, pan, " ", p), data)
			return
		}
		want = append(want, st)
	}
	check := func(how string, tk *sp.Tokenizer) bool {
		got, pan := drain(tk, n+3)
		if pan != "" {
			r.Violation("panic", id, how+": "+pan, data)
			return false
		}
		for i := range got {
			if got[i].err != nil {
				r.Violation("statement-error", id, fmt.Sprintf("%s: statement %d of %d: %v\nin %s", how, i+1, n, got[i].err, text), data)
				return false
			}
			if i >= n {
				break
			}
			if d := diffTree(got[i].st, want[i]); d != "" {
				r.Violation("statement", id, fmt.Sprintf("%s: statement %d differs from the one parsed alone: %s\n%s", how, i+1, d, parts[i]), data)
				return false
			}
		}
		if len(got) != n {
			r.Violation("count", id, fmt.Sprintf("%s: %d statements found, %d written: %s", how, len(got), n, text), data)
			return false
		}
		// nothing comes after the end
		if st, err := sp.ParseNext(tk); err != io.EOF {
			r.Violation("after-end", id, fmt.Sprintf("%s: after the end: %v %v", how, st, err), data)
			return false
		}
		r.Count("statements compared", n)
		return true
	}
	if !check("string", sp.NewStringTokenizer(text, sp.ParserModeMysql)) {
		return
	}
	for how, rd := range readers(g, text, nil) {
		if !check(how, sp.NewTokenizer(rd)) {
			return
		}
		r.Count("pieces delivered", rd.reads)
		r.State("readers", how)
	}
	r.splitCase(id, parts, text, data)
	r.Eval("script"+text, n > 1)
}

// splitCase: the textual splitters return exactly the text between the separators.
func (r *Run) splitCase(id string, parts []string, text string, data map[string]interface{}) {
	if strings.Contains(text, "/*!") {
		return // the text inside such a comment is part of the statement
	}
	rest := text
	for i, p := range parts {
		var first string
		var err error
		orig := rest
		if pan := guard(func() { first, rest, err = sp.SplitStatement(rest) }); pan != "" || err != nil || first != p {
			if strings.TrimRight(first, " \t\r\n") == strings.TrimRight(p, " \t\r\n") && i == len(parts)-1 {
				continue
			}
			r.Violation("split", id, fmt.Sprintf("%s %v: statement %d of %q is %q, expected %q", pan, err, i+1, orig, first, p), data)
			return
		}
	}
	if strings.TrimSpace(rest) != "" {
		r.Violation("split-rest", id, fmt.Sprintf("%q remains", rest), data)
	}
	var pieces []string
	var err error
	if pan := guard(func() { pieces, err = sp.SplitStatementToPieces(text) }); pan != "" || err != nil {
		r.Violation("pieces", id, fmt.Sprint(pan, err), data)
		return
	}
	for len(pieces) > len(parts) && strings.TrimSpace(pieces[len(pieces)-1]) == "" {
		pieces = pieces[:len(pieces)-1]
	}
	ok := len(pieces) == len(parts)
	for i := 0; ok && i < len(parts); i++ {
		ok = pieces[i] == parts[i]
	}
	if !ok {
		r.Violation("pieces", id, fmt.Sprintf("%q is split into %q", text, pieces), data)
	}
	r.Count("texts split", 1)
}

var badStatements = []string{"select from where", "selec 1", "create table (", "insert into", "select 1 1 1", "drop", "update t", "select * from t where", ")", "(", "x", "select a,,b from t", "1", "alter", "delete t", "select 1 from t limit"}

func (r *Run) scriptErrorCase(id string, g *rand.Rand) {
	n := 2 + g.Intn(4)
	parts, _ := scriptText(g, n)
	bad := g.Intn(n)
	parts[bad] = pick(g, badStatements)
	broken := map[int]bool{bad: true}
	if g.Intn(6) == 0 { // errors deep inside of statements leave nothing behind
		deep := func(k int) string { return "select " + strings.Repeat("(", k) + "a" + strings.Repeat(")", k) }
		parts = append(parts, deep(1+g.Intn(180)))
		n++
		for i := range parts[:n-1] {
			if i == bad || g.Intn(2) == 0 {
				k := 1 + g.Intn(180)
				parts[i] = pick(g, []string{"select " + strings.Repeat("(", k) + " from", deep(k) + ")", "select a from " + strings.Repeat("(", 1+k/2) + " where", "select a from t where " + strings.Repeat("f(", k) + "a b c", "select " + strings.Repeat("(select ", k) + ")"})
				broken[i] = true
			}
		}
	}
	text := strings.Join(parts, pick(g, []string{";", " ;\n", "; "}))
	data := map[string]interface{}{"input": text, "bad": parts[bad]}
	base, pan := drain(sp.NewStringTokenizer(text, sp.ParserModeMysql), n+3)
	if pan != "" {
		r.Violation("panic", id, pan, data)
		return
	}
	if len(base) != n || base[bad].err == nil {
		r.Violation("error-count", id, fmt.Sprintf("%d statements for %d written, error of the bad one: %v\n%s", len(base), n, base[bad%len(base)].err, text), data)
		return
	}
	for i := range parts {
		if broken[i] {
			if base[i].err == nil {
				r.Violation("error-lost", id, fmt.Sprintf("statement %d is accepted: %s", i+1, parts[i]), data)
				return
			}
			continue
		}
		st, err, _ := parse1(parts[i])
		if err != nil || base[i].err != nil {
			r.Violation("error-spreads", id, fmt.Sprintf("statement %d: alone %v, after a bad statement %d: %v\n%s", i+1, err, bad+1, base[i].err, text), data)
			return
		}
		if d := diffTree(st, base[i].st); d != "" {
			r.Violation("error-spreads", id, fmt.Sprintf("statement %d differs: %s", i+1, d), data)
			return
		}
	}
	for how, rd := range readers(g, text, nil) {
		got, pan := drain(sp.NewTokenizer(rd), n+3)
		if pan != "" || len(got) != n {
			r.Violation("error-reader", id, fmt.Sprintf("%s: %s %d statements for %d", how, pan, len(got), n), data)
			return
		}
		for i := range got {
			if fmt.Sprint(got[i].err) != fmt.Sprint(base[i].err) || diffTree(got[i].st, base[i].st) != "" {
				r.Violation("error-reader", id, fmt.Sprintf("%s: statement %d: error %v instead of %v", how, i+1, got[i].err, base[i].err), data)
				return
			}
		}
		r.Count("statements compared", n)
	}
	r.Eval("err"+text, true)
}

// readErrCase: when reading fails, the statements before are found and the failure is reported.
func (r *Run) readErrCase(id string, g *rand.Rand) {
	n := 1 + g.Intn(4)
	parts, text := scriptText(g, n)
	cut := g.Intn(len(text) + 1)
	full, pos := 0, 0
	for _, p := range parts {
		pos += len(p) + 1
		if pos <= cut {
			full++
		}
	}
	boom := errors.New("disk on fire")
	data := map[string]interface{}{"input": text, "fails at": cut}
	for how, rd := range readers(g, text[:cut], boom) {
		var got []stmtResult
		pan := guard(func() {
			tk := sp.NewTokenizer(rd)
			for i := 0; i < n+3; i++ {
				st, err := sp.ParseNext(tk)
				got = append(got, stmtResult{st, err})
				if err != nil {
					return
				}
			}
		})
		if pan != "" {
			r.Violation("panic", id, how+": "+pan, data)
			return
		}
		last := got[len(got)-1]
		if len(got)-1 < full || len(got)-1 > full+1 || last.err != boom {
			r.Violation("read-error", id, fmt.Sprintf("%s: reading fails after %d complete statements; %d statements returned, then %v", how, full, len(got)-1, last.err), data)
			return
		}
		for i := 0; i < len(got)-1 && i < full; i++ {
			st, _, _ := parse1(parts[i])
			if d := diffTree(st, got[i].st); d != "" {
				r.Violation("read-error-statement", id, fmt.Sprintf("%s: statement %d differs: %s", how, i+1, d), data)
				return
			}
		}
		if len(got)-1 > full {
			r.Violation("read-error-cut", id, fmt.Sprintf("%s: a statement cut off by a read error was returned: %s", how, sp.String(got[full].st)), data)
			return
		}
		r.Count("failing reads", 1)
	}
	r.Eval(fmt.Sprint("re", cut, text), true)
}

type scanned struct {
	typ int
	val string
	pos int
}

func scanAll(tk *sp.Tokenizer, limit int) (out []scanned, pan string) {
	pan = guard(func() {
		for i := 0; ; i++ {
			typ, val := tk.Scan()
			out = append(out, scanned{typ, string(val), tk.Position})
			if typ == 0 {
				return
			}
			if i > limit {
				panic("no end of tokens")
			}
		}
	})
	return
}

func hostileText(g *rand.Rand) string {
	var b strings.Builder
	for i := 0; i < g.Intn(30); i++ {
		switch g.Intn(7) {
		case 0:
			b.WriteString(pick(g, hostile))
		case 1:
			b.WriteString(pick(g, []string{"'", "\"", "`", "/*", "*/", "--", "#", "\\", "0x", "x'", "b'", "1e", "1.", ".", ":", "::", "@", "@@", "<=>", "->>", "!=", "||", "&&", "/*!", "/*!50000", ";", "?", "[", "]", "<", ">", "-", "-1", "e", "E+", "'a''b'", "\n", " ", "\x00", "*/*/", "**/"}))
		case 2:
			b.WriteByte(byte(g.Intn(256)))
		case 3:
			b.WriteString(pick(g, sqlWords))
		case 4:
			b.WriteString(randNumber(g, catFloat))
		case 5:
			b.WriteString(spellStr(g, hostileBytes(g)))
		default:
			b.WriteString(pick(g, []string{" ", "a", "t.a", "select", "1", "(", ")", ",", "\t", "é"}))
		}
	}
	s := b.String()
	if g.Intn(20) == 0 {
		s = strings.Repeat(pick(g, []string{" ", "a ", "'x' ", "/*c*/", "\n"}), 1000+g.Intn(1500)) + s
	}
	return s
}

func (r *Run) tokenCase(id string, g *rand.Rand) {
	text := hostileText(g)
	data := map[string]interface{}{"input": text}
	in := []byte(text)
	base, pan := scanAll(sp.NewStringTokenizer(text, sp.ParserModeMysql), len(text)*2+20)
	if pan != "" {
		r.Violation("scan-panic", id, pan+fmt.Sprintf("\n%q", text), data)
		return
	}
	if !bytes.Equal(in, []byte(text)) {
		r.Violation("input-changed", id, text, data)
	}
	for how, rd := range readers(g, text, nil) {
		got, pan := scanAll(sp.NewTokenizer(rd), len(text)*2+20)
		if pan != "" {
			r.Violation("scan-panic", id, how+": "+pan, data)
			return
		}
		for i := range base {
			if i >= len(got) || got[i] != base[i] {
				x := scanned{}
				if i < len(got) {
					x = got[i]
				}
				r.Violation("tokens", id, fmt.Sprintf("%s: token %d of %q is %v, from memory it is %v", how, i, text, x, base[i]), data)
				return
			}
		}
		if len(got) != len(base) {
			r.Violation("tokens", id, fmt.Sprintf("%s: %d tokens, from memory %d", how, len(got), len(base)), data)
			return
		}
		r.Count("tokens compared", len(base))
	}
	r.Eval("tok"+text, len(base) > 2)
}

// marginLossCase: leading comments, body and trailing comments contain the whole text.
func (r *Run) marginLossCase(id string, g *rand.Rand) {
	var text string
	if g.Intn(2) == 0 {
		q := newQ(g)
		q.statement()
		text = leadIn(g) + q.t.Spell(g, spellOpt{comments: true}) + leadIn(g)
	} else {
		text = hostileText(g)
	}
	var query string
	var mc sp.MarginComments
	if pan := guard(func() { query, mc = sp.SplitMarginComments(text) }); pan != "" {
		r.Violation("margin-panic", id, pan, map[string]interface{}{"input": text})
		return
	}
	noSpace := func(s string) string { return strings.Join(strings.Fields(s), "") }
	i := strings.Index(text, mc.Leading)
	j := strings.Index(text[i+len(mc.Leading):], query)
	ok := i >= 0 && j >= 0 && strings.HasSuffix(strings.TrimRight(text, " \t\r\n\v\f\u0085\u00a0\u2003"), strings.TrimSpace(mc.Trailing))
	if noSpace(mc.Leading+" "+query+" "+mc.Trailing) != noSpace(text) || !ok {
		r.Violation("margin-loss", id, fmt.Sprintf("%q is split into %q %q %q", text, mc.Leading, query, mc.Trailing), map[string]interface{}{"input": text})
		return
	}
	for _, c := range []string{mc.Leading, mc.Trailing} {
		if t := strings.TrimSpace(c); t != "" && !(strings.HasPrefix(t, "/*") && strings.HasSuffix(t, "*/")) {
			r.Violation("margin-kind", id, fmt.Sprintf("%q is no comment, in %q", c, text), map[string]interface{}{"input": text})
			return
		}
	}
	r.Eval("mar"+text, mc.Leading+mc.Trailing != "")
}

func (r *Run) probesC14() {
	got, _ := drain(sp.NewStringTokenizer("select 1 from t; -- done\n", sp.ParserModeMysql), 5)
	r.Eval("probe trailing comment", true)
	if len(got) != 1 && !r.Known("probe:trailing-comment", "") {
		r.Violation("probe", "probe:trailing-comment", "a comment after the last ';' is reported as a syntax error", nil)
	}
}
