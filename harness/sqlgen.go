package main

// Generator of statements of the grammar as token streams. A stream knows, without the parser:
// its canonical text (what printing the parsed statement must give), any number of respellings
// with the same meaning, the grouping of its expressions, its literals and its bind variables.

import (
	"fmt"
	"math/rand"
	"strings"
)

// token kinds
const (
	tkKw    = 'k' // keyword
	tkKwC   = 'K' // keyword after which comments belong to the statement
	tkID    = 'i' // identifier (raw name)
	tkStr   = 's' // string literal (raw bytes)
	tkNum   = 'n' // number, exactly as written
	tkInt   = 'N' // integer literal
	tkFloat = 'F' // float literal
	tkHex   = 'x' // X'..'
	tkBit   = 'b' // B'..'
	tkP     = 'p' // punctuation
	tkSp    = ' ' // mandatory space
	tkCmt   = 'c' // comment that is part of the statement
	tkOpen  = '<' // start of an expression group (not text)
	tkClose = '>' // end of an expression group
	tkArg   = 'a' // :name
	tkList  = 'l' // ::name
	tkAlt   = 'o' // text with other spellings
	tkInO   = '[' // start of the list of an IN tuple consisting of literals only (not text)
	tkInC   = ']' // end of it
)

type tok struct {
	k    byte
	s    string
	alts []string
	grp  int  // tokens of the same group use the same alternative
	str  bool // identifier that may be written as a string (column alias)
	raw  bool // identifier printed without quotes although a keyword (function names)
}

type toks []tok

// names: pairwise distinct, plain ones need no quotes and are no keywords
var plainNames = []string{"a", "b", "c1", "foo", "Bar", "_x", "some_column", "t", "t1", "Zed", "qq9", "A1B2", "col_a", "col_b", "users", "uid", "order_id", "selectx", "xfrom", "x", "B0", "b_", "nul", "e1", "x1F", "dual2"}
var quotedNames = []string{"select", "table", "order", "group", "key", "index", "from", "where", "date", "status", "Values", "UNION", "Set", "with space", "1abc", "a`b", "``", "semi;colon", "quo'te", "dq\"x", "a.b", "a-b", "/*x*/", "--x", "é", "日本語", "\xff\xfe", "𐁁x", "a\\b", "a\nb", "x$", "#", "?", ":v1", "null", "true", "default", "and", "not", "Or", "\U00010041\U00010042", "end", "case", "interval", "binary", "limit", "as", "in", "is", "a\tb", "*", "%s", "%", "ſelect", "primary"}
var varNames = []string{"@user", "@@global", "@@session.sql_mode", "@@x.y", "@a_1"}

var isPlain = map[string]bool{}

func init() {
	for _, n := range plainNames {
		isPlain[n] = true
	}
	for _, n := range varNames {
		isPlain[n] = true
	}
}

func quoteID(n string) string { return "`" + strings.ReplaceAll(n, "`", "``") + "`" }

func canonID(n string) string {
	if isPlain[n] {
		return n
	}
	return quoteID(n)
}

// canonStr is the documented escaping of string literals, written independently of sqltypes.
func canonStr(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			b.WriteString(`\0`)
		case '\'':
			b.WriteString(`\'`)
		case '"':
			b.WriteString(`\"`)
		case '\b':
			b.WriteString(`\b`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case 26:
			b.WriteString(`\Z`)
		case '\\':
			b.WriteString(`\\`)
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('\'')
	return b.String()
}

func (t tok) canon() string {
	switch t.k {
	case tkID:
		if t.raw {
			return t.s
		}
		return canonID(t.s)
	case tkStr:
		return canonStr(t.s)
	case tkHex:
		return "X'" + t.s + "'"
	case tkBit:
		return "B'" + t.s + "'"
	case tkSp:
		return " "
	case tkOpen, tkClose, tkInO, tkInC:
		return ""
	case tkArg:
		return ":" + t.s
	case tkList:
		return "::" + t.s
	}
	return t.s
}

// Canon is the text the printer must produce.
func (ts toks) Canon() string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.canon())
	}
	return b.String()
}

// Grouped is the canonical text with every composite expression bracketed.
func (ts toks) Grouped() string {
	var b strings.Builder
	for _, t := range ts {
		switch t.k {
		case tkOpen:
			b.WriteString("⟦")
		case tkClose:
			b.WriteString("⟧")
		default:
			b.WriteString(t.canon())
		}
	}
	return b.String()
}

// Map renders with a replacement for some tokens.
func (ts toks) Map(f func(t tok) (string, bool)) string {
	var b strings.Builder
	for _, t := range ts {
		if s, ok := f(t); ok {
			b.WriteString(s)
			continue
		}
		b.WriteString(t.canon())
	}
	return b.String()
}

func randCase(g *rand.Rand, s string) string {
	switch g.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if g.Intn(2) == 0 && 'a' <= b[i] && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func spellStr(g *rand.Rand, s string) string {
	d := byte('\'')
	if g.Intn(3) == 0 {
		d = '"'
	}
	var b strings.Builder
	b.WriteByte(d)
	for i := 0; i < len(s); i++ {
		c := s[i]
		esc := map[byte]byte{0: '0', '\'': '\'', '"': '"', '\b': 'b', '\n': 'n', '\r': 'r', '\t': 't', 26: 'Z', '\\': '\\'}[c]
		switch {
		case c == d:
			if g.Intn(2) == 0 {
				b.WriteByte(d)
				b.WriteByte(d)
			} else {
				b.WriteByte('\\')
				b.WriteByte(d)
			}
		case c == '\\':
			b.WriteString(`\\`)
		case esc != 0 && g.Intn(2) == 0:
			b.WriteByte('\\')
			b.WriteByte(esc)
		case esc == 0 && g.Intn(30) == 0 && !strings.ContainsRune("0'\"bnrtZ\\", rune(c)):
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(d)
	return b.String()
}

var commentBodies = []string{"", " ", "c", " it's ", " \"q ", " ; ", " select 1 ", " ` ", " -- ", " # ", " 日 ", " * ", " ** ", "/", " / "}

func blank(g *rand.Rand, comments bool) string {
	switch g.Intn(8) {
	case 0:
		return "\n"
	case 1:
		return "\t"
	case 2:
		return " \r\n "
	case 3:
		return "  "
	case 4:
		if comments {
			c := strings.ReplaceAll(pick(g, commentBodies), "*/", "")
			switch g.Intn(4) {
			case 0:
				return " -- " + c + "\n"
			case 1:
				return " #" + c + "\n"
			case 2:
				return " //" + c + "\n"
			default:
				return " /*" + c + "*/ "
			}
		}
	}
	return " "
}

func optBlank(g *rand.Rand, comments bool) string {
	if g.Intn(5) == 0 {
		return blank(g, comments)
	}
	return ""
}

type spellOpt struct {
	comments bool // extra comments
	special  bool // wrap words in /*! */
	ansi     bool // names may not be quoted with backquotes (PostgreSQL)
	pos      bool // bind variables are written as ?
}

// positional names the bind variables as if they were written as ?.
func (ts toks) positional() toks {
	out := append(toks{}, ts...)
	n := 0
	for i := range out {
		if out[i].k == tkArg {
			n++
			out[i].s = fmt.Sprint("v", n)
		}
	}
	return out
}

// Spell renders the statement with the same meaning in another spelling.
func (ts toks) Spell(g *rand.Rand, o spellOpt) string {
	var b strings.Builder
	nocmt := false
	prevP := ""
	groups := map[int]int{}
	for i, t := range ts {
		switch t.k {
		case tkOpen, tkClose, tkInO, tkInC:
			continue
		case tkSp:
			next := ""
			for j := i + 1; j < len(ts); j++ {
				if k := ts[j].k; k == tkOpen || k == tkClose || k == tkInO || k == tkInC {
					continue
				} else if k == tkP || k == tkKw || k == tkAlt {
					next = ts[j].s
				}
				break
			}
			if (tight[prevP] || tight[next]) && g.Intn(3) == 0 {
				continue
			}
			b.WriteString(blank(g, o.comments && !nocmt))
			continue
		}
		if t.k != tkSp && t.k != tkCmt {
			if i > 0 && ts[i-1].k != tkSp && b.Len() > 0 {
				b.WriteString(optBlank(g, o.comments && !nocmt))
			}
		}
		s := ""
		switch t.k {
		case tkKw, tkKwC:
			s = randCase(g, t.s)
		case tkAlt:
			s = t.s
			n := g.Intn(len(t.alts) + 1)
			if t.grp > 0 {
				if m, ok := groups[t.grp]; ok {
					n = m
				}
				groups[t.grp] = n
			}
			if n > 0 {
				s = t.alts[n-1]
			}
			if !t.raw && !strings.Contains(s, "'") && !strings.Contains(s, " = ") {
				s = randCase(g, s)
			}
		case tkID:
			if t.str && t.s != "" && g.Intn(4) == 0 {
				s = spellStr(g, t.s)
			} else if isPlain[t.s] && !(t.raw && g.Intn(2) == 0) && g.Intn(4) != 0 || t.raw && !isPlain[t.s] {
				s = t.s
			} else {
				s = quoteID(t.s)
			}
		case tkStr:
			s = spellStr(g, t.s)
		case tkHex:
			s = pick(g, []string{"x", "X"}) + "'" + t.s + "'"
		case tkBit:
			s = pick(g, []string{"b", "B"}) + "'" + t.s + "'"
		case tkArg:
			s = t.canon()
			if o.pos {
				s = "?"
			}
		default:
			s = t.canon()
		}
		if o.special && (t.k == tkKw) && g.Intn(25) == 0 && s != "" && !nocmt {
			s = " /*!" + pick(g, []string{"", "50701", "80000"}) + " " + s + " */ "
		}
		b.WriteString(s)
		prevP = ""
		if t.k == tkP {
			prevP = t.s
		}
		if t.k != tkCmt && s != "" {
			nocmt = t.k == tkKwC
		}
	}
	return b.String()
}

var tight = map[string]bool{"=": true, ",": true, "(": true, ")": true, "+": true, "!=": true, "<=>": true, "%": true, "^": true}

// ---- building ----

type qgen struct {
	g       *rand.Rand
	t       toks
	depth   int
	args    bool // bind variables allowed
	weird   bool // weird names and literals
	nolit   bool
	inQuery int // nesting in a SELECT
	noConv  bool
	mustOn  bool // joins need a condition (before ON DUPLICATE KEY)
	size    int
	ngrp    int
}

func newQ(g *rand.Rand) *qgen { return &qgen{g: g, weird: g.Intn(3) > 0, args: true} }

func (q *qgen) n(n int) bool         { return q.g.Intn(n) == 0 }
func (q *qgen) add(k byte, s string) { q.t = append(q.t, tok{k: k, s: s}) }
func (q *qgen) kw(ss ...string) {
	for i, s := range ss {
		if i > 0 {
			q.sp()
		}
		q.add(tkKw, s)
	}
}
func (q *qgen) alt(s string, alts ...string) { q.t = append(q.t, tok{k: tkAlt, s: s, alts: alts}) }

// galt adds tokens whose spellings are chosen together: parts[i] is {canonical, alternatives...}.
func (q *qgen) group() int { q.ngrp++; return q.ngrp }
func (q *qgen) galt(grp int, s string, alts ...string) {
	q.t = append(q.t, tok{k: tkAlt, s: s, alts: alts, grp: grp})
}
func (q *qgen) sp()        { q.add(tkSp, " ") }
func (q *qgen) p(s string) { q.add(tkP, s) }
func (q *qgen) open()      { q.add(tkOpen, "") }
func (q *qgen) close()     { q.add(tkClose, "") }

func (q *qgen) name() string {
	if q.weird && q.n(4) {
		return pick(q.g, quotedNames)
	}
	return pick(q.g, plainNames)
}
func (q *qgen) id()            { q.add(tkID, q.name()) }
func (q *qgen) rawid(s string) { q.t = append(q.t, tok{k: tkID, s: s, raw: true}) }

func (q *qgen) table() {
	q.id()
	if q.n(4) {
		q.p(".")
		q.id()
	}
}

func (q *qgen) col() {
	switch q.g.Intn(6) {
	case 0:
		q.id()
		q.p(".")
		q.id()
	case 1:
		if q.n(3) {
			q.id()
			q.p(".")
			q.id()
			q.p(".")
		}
		q.id()
	case 2:
		if q.n(4) {
			q.add(tkID, pick(q.g, varNames))
		} else {
			q.id()
		}
	default:
		q.id()
	}
}

func randBytes(g *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(4) {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = "'\"\\;`%_-/*#?:\x00\x1a\n\r\t\b"[g.Intn(19)]
		default:
			b[i] = byte('a' + g.Intn(26))
		}
	}
	return string(b)
}

var litStrings = []string{"", "a", "it's", "1", "12", "1.5", "null", "/* x */", "-- x\n", "; select", "\\", "\\'", "é", "日本", "\x00", "\xff", "%_", "a'b\"c`d", ":v1", "::list", "?", "x\ny", "1e5", "0x1F", "redacted1", ":redacted1", "bv1"}

func (q *qgen) strLit() {
	if q.weird && q.n(4) {
		q.add(tkStr, randBytes(q.g, q.g.Intn(12)))
		return
	}
	if q.n(60) {
		q.add(tkStr, strings.Repeat("long ", 60+q.g.Intn(1200)))
		return
	}
	q.add(tkStr, pick(q.g, litStrings))
}

var intLits = []string{"0", "1", "2", "3", "12", "100", "007", "9223372036854775807", "42", "123456"}
var negIntLits = []string{"-1", "-9223372036854775808", "-0", "-12"}
var floatLits = []string{"1.5", "0.1", "1e10", "1.5e-3", ".5", "2.", "100.0", "1E5", "1.50"}

func (q *qgen) lit() {
	switch q.g.Intn(12) {
	case 0, 1, 2:
		q.add(tkInt, pick(q.g, intLits))
	case 3, 4, 5, 6:
		q.strLit()
	case 7:
		q.add(tkFloat, pick(q.g, floatLits))
	case 8:
		q.add(tkInt, pick(q.g, negIntLits))
	case 9:
		q.kw("null")
	case 10:
		switch q.g.Intn(4) {
		case 0:
			q.add(tkHex, pick(q.g, []string{"", "4F", "4f00", "DEADbeef"}))
		case 1:
			q.add(tkBit, pick(q.g, []string{"0", "101", "1111000011110000"}))
		case 2:
			q.add(tkNum, pick(q.g, []string{"0x1F", "0xdead", "-0x1", "0X0f"}))
		default:
			q.add(tkFloat, "-2.5")
		}
	case 11:
		if q.args {
			q.add(tkArg, pick(q.g, argNames))
		} else {
			q.kw("null")
		}
	}
}

var argNames = []string{"v1", "v2", "a", "abc_1", "redacted1", "redacted2", "bv1", "bv2", "bv3", "x.y", "_p", "Long_Name9"}
var listNames = []string{"list", "l1", "redacted1", "bv1", "bv4", "vals.x"}

// expr emits an expression that may stand where one of precedence min is expected.
func (q *qgen) expr(min int) {
	q.depth++
	defer func() { q.depth-- }()
	q.size++
	if q.depth > 7 || q.size > 120 {
		q.atom()
		return
	}
	p := q.g.Intn(24)
	switch {
	case p < 8:
		q.atom()
	case p < 9:
		q.paren()
	case p < 10:
		q.bin(min, 1, true, "or", "||")
	case p < 12:
		q.bin(min, 2, true, "and", "&&")
	case p < 13:
		q.wrap(min, 3, func() { q.kw("not"); q.sp(); q.expr(3) })
	case p < 17:
		q.cond(min)
	case p < 18:
		q.wrap(min, 5, func() {
			q.expr(5)
			q.sp()
			q.kw(strings.Fields(pick(q.g, []string{"is null", "is not null", "is true", "is not true", "is false", "is not false"}))...)
		})
	case p < 21:
		op := pick(q.g, []string{"|", "&", "<<", ">>", "+", "-", "*", "/", "div", "%", "^"})
		pr := map[string]int{"|": 6, "&": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "div": 10, "%": 10, "^": 11}[op]
		q.bin(min, pr, false, op)
	case p < 22:
		q.unary(min)
	case p < 23:
		q.wrap(min, 13, func() {
			q.expr(13)
			q.sp()
			q.kw("collate")
			q.sp()
			q.add(tkID, pick(q.g, []string{"utf8mb4_bin", "latin1_swedish_ci", "b", "foo"}))
		})
	default:
		q.wrap(min, 15, func() {
			q.kw("interval")
			q.sp()
			q.expr(6)
			q.sp()
			q.rawid(pick(q.g, []string{"day_x", "MINUTE_Z", "foo"}))
		})
	}
}

func (q *qgen) wrap(min, pr int, f func()) {
	if pr < min {
		q.open()
		q.p("(")
		q.open()
		f()
		q.close()
		q.p(")")
		q.close()
		return
	}
	q.open()
	f()
	q.close()
}

func (q *qgen) paren() {
	q.open()
	q.p("(")
	q.expr(1)
	q.p(")")
	q.close()
}

func (q *qgen) bin(min, pr int, word bool, op string, alts ...string) {
	q.wrap(min, pr, func() {
		q.expr(pr)
		q.sp()
		switch {
		case op == "%":
			q.alt("%", "%", " mod ")
		case op == "div":
			q.kw(op)
		case word:
			q.alt(op, alts...)
		default:
			q.p(op)
		}
		q.sp()
		q.expr(pr + 1)
	})
}

func (q *qgen) unary(min int) {
	op := pick(q.g, []string{"-", "+", "~", "!", "binary ", "_binary "})
	q.wrap(min, 12, func() {
		emit := func() {
			if strings.HasSuffix(op, " ") {
				q.kw(strings.TrimSpace(op))
				q.sp()
			} else {
				q.p(op)
			}
		}
		switch q.g.Intn(4) {
		case 0: // nested
			emit()
			q.sp()
			q.unary(12)
		case 1:
			emit()
			q.paren()
		case 2:
			if op == "-" && q.n(2) {
				emit()
				q.sp()
				q.add(tkFloat, "-2.5")
				return
			}
			emit()
			q.col()
		default:
			emit()
			if op == "-" || op == "+" {
				q.strLit()
			} else {
				q.atomV()
			}
		}
	})
}

func (q *qgen) cond(min int) {
	q.wrap(min, 5, func() {
		switch q.g.Intn(7) {
		case 0, 1, 2:
			q.expr(6)
			q.sp()
			op := pick(q.g, []string{"=", "<", ">", "<=", ">=", "!=", "<=>"})
			if op == "!=" {
				q.alt("!=", "<>")
			} else {
				q.p(op)
			}
			q.sp()
			q.expr(6)
		case 3:
			q.expr(6)
			q.sp()
			if q.n(3) {
				q.kw("not")
				q.sp()
			}
			q.kw("in")
			q.sp()
			q.colTuple()
		case 4:
			q.expr(6)
			q.sp()
			if q.n(3) {
				q.kw("not")
				q.sp()
			}
			if q.n(4) {
				q.alt("regexp", "rlike")
				q.sp()
				q.expr(6)
				break
			}
			q.kw("like")
			q.sp()
			q.expr(6)
			if q.n(3) {
				q.sp()
				q.kw("escape")
				q.sp()
				q.expr(6)
			}
		case 5:
			q.expr(6)
			q.sp()
			if q.n(3) {
				q.kw("not")
				q.sp()
			}
			q.kw("between")
			q.sp()
			q.expr(6)
			q.sp()
			q.kw("and")
			q.sp()
			q.expr(6)
		case 6:
			if q.depth > 4 {
				q.col()
				q.sp()
				q.p("=")
				q.sp()
				q.lit()
				return
			}
			q.kw("exists")
			q.sp()
			q.subquery()
		}
	})
}

func (q *qgen) colTuple() {
	switch q.g.Intn(5) {
	case 0:
		if q.depth <= 4 {
			q.subquery()
			return
		}
		fallthrough
	case 1:
		if q.args {
			q.add(tkList, pick(q.g, listNames))
			return
		}
		fallthrough
	case 2: // literals only
		q.open()
		q.add(tkInO, "")
		q.p("(")
		n := 1 + q.g.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				q.p(",")
				q.sp()
			}
			switch q.g.Intn(3) {
			case 0:
				q.add(tkInt, pick(q.g, intLits))
			case 1:
				q.strLit()
			case 2:
				q.add(tkFloat, pick(q.g, floatLits))
			}
		}
		q.p(")")
		q.add(tkInC, "")
		q.close()
	default:
		a := len(q.t)
		q.tuple(1)
		lits := true
		for _, t := range q.t[a+2 : len(q.t)-2] {
			if t.k != tkStr && t.k != tkInt && t.k != tkFloat && t.k != tkSp && !(t.k == tkP && t.s == ",") {
				lits = false
			}
		}
		if lits {
			b := append(toks{}, q.t[a:]...)
			q.t = append(append(append(q.t[:a], tok{k: tkInO}), b...), tok{k: tkInC})
		}
	}
}

func (q *qgen) tuple(min int) {
	q.open()
	q.p("(")
	n := min + q.g.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		q.expr(1)
	}
	q.p(")")
	q.close()
}

func (q *qgen) subquery() {
	q.open()
	q.p("(")
	q.selectStmt(false)
	q.p(")")
	q.close()
}

// atom: anything of the highest precedence.
func (q *qgen) atom() { q.atomV() }

func (q *qgen) atomV() {
	if q.depth > 7 || q.size > 120 {
		if q.n(2) {
			q.col()
		} else {
			q.lit()
		}
		return
	}
	switch p := q.g.Intn(30); {
	case p < 10:
		q.col()
	case p < 20:
		q.lit()
	case p < 21:
		q.kw(pick(q.g, []string{"true", "false"}))
	case p < 22:
		if q.depth <= 4 {
			q.subquery()
		} else {
			q.lit()
		}
	case p < 23:
		q.tuple(2)
	case p < 24:
		q.open()
		q.col()
		q.sp()
		q.p(pick(q.g, []string{"->", "->>"}))
		q.sp()
		q.lit()
		q.close()
	case p < 25:
		q.caseExpr()
	default:
		q.fn()
	}
}

func (q *qgen) caseExpr() {
	q.open()
	q.kw("case")
	q.sp()
	if q.n(2) {
		q.expr(1)
		q.sp()
	}
	for i := 0; i <= q.g.Intn(3); i++ {
		q.kw("when")
		q.sp()
		q.expr(1)
		q.sp()
		q.kw("then")
		q.sp()
		q.expr(1)
		q.sp()
	}
	if q.n(2) {
		q.kw("else")
		q.sp()
		q.expr(1)
		q.sp()
	}
	q.kw("end")
	q.close()
}

func (q *qgen) fnArgs(min int) {
	n := min + q.g.Intn(3)
	for i := 0; i < n; i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		if q.n(15) {
			q.p("*")
		} else {
			q.expr(1)
		}
	}
}

func (q *qgen) fn() {
	q.open()
	defer q.close()
	switch q.g.Intn(14) {
	case 0:
		q.kw(pick(q.g, []string{"left", "right", "if", "mod", "replace"}))
		q.p("(")
		q.fnArgs(1)
		q.p(")")
	case 1:
		f := pick(q.g, []string{"current_timestamp", "utc_timestamp", "utc_time", "utc_date", "localtime", "localtimestamp", "current_date", "current_time"})
		q.alt(f, f)
		q.alt("()", "", "( )")
	case 2:
		q.kw("database")
		q.p("(")
		if q.n(2) {
			q.fnArgs(1)
		}
		q.p(")")
	case 3:
		if q.noConv {
			q.kw("mod")
			q.p("(")
			q.fnArgs(1)
			q.p(")")
			return
		}
		gr := q.group()
		q.galt(gr, "convert", "cast")
		q.p("(")
		q.expr(1)
		q.galt(gr, ",", " as ")
		q.sp()
		switch q.g.Intn(6) {
		case 0:
			q.kw("char")
			q.p("(")
			q.add(tkNum, "10")
			q.p(")")
			if q.n(2) {
				q.sp()
				q.kw("character", "set")
				q.sp()
				q.add(tkID, "utf8mb4x")
			}
		case 1:
			q.kw("decimal")
			q.p("(")
			q.add(tkNum, "10")
			q.p(",")
			q.sp()
			q.add(tkNum, "2")
			q.p(")")
		case 2:
			q.kw("binary")
		case 3:
			q.alt("signed", "signed integer")
		case 4:
			q.alt("unsigned", "unsigned integer")
		default:
			q.kw(pick(q.g, []string{"date", "datetime", "time", "json", "nchar", "char"}))
		}
		q.p(")")
	case 4:
		q.kw("convert")
		q.p("(")
		q.expr(1)
		q.sp()
		q.kw("using")
		q.sp()
		q.add(tkID, pick(q.g, []string{"foo", "utf8mb4x"}))
		q.p(")")
	case 5:
		q.alt("substr", "substring")
		q.p("(")
		q.col()
		if q.n(2) {
			gr := q.group()
			q.galt(gr, ",", " from ")
			q.sp()
			q.expr(6)
			q.galt(gr, ",", " for ")
			q.sp()
			q.expr(6)
		} else {
			q.p(",")
			q.sp()
			q.expr(6)
		}
		q.p(")")
	case 6:
		q.kw("match")
		q.p("(")
		if q.n(3) {
			q.expr(1)
		} else {
			q.col()
		}
		if q.n(2) {
			q.p(",")
			q.sp()
			q.col()
		}
		q.p(")")
		q.sp()
		q.kw("against")
		q.sp()
		q.p("(")
		q.expr(6)
		if m := pick(q.g, []string{"", "in boolean mode", "in natural language mode", "in natural language mode with query expansion", "with query expansion"}); m != "" {
			q.sp()
			q.kw(strings.Fields(m)...)
		}
		q.p(")")
	case 7:
		q.kw("group_concat")
		q.p("(")
		if q.n(3) {
			q.kw("distinct")
			q.sp()
		}
		q.expr(1)
		if q.n(3) {
			q.p(",")
			q.sp()
			q.expr(1)
		}
		if q.n(2) {
			q.orderBy()
		}
		if q.n(2) && !q.nolit {
			q.sp()
			q.kw("separator")
			q.sp()
			q.strLit()
		}
		q.p(")")
	case 8:
		q.kw("values")
		q.p("(")
		q.col()
		q.p(")")
	case 9:
		q.id()
		q.p(".")
		q.rawid(pick(q.g, []string{"func", "fn_1", "MyFunc"}))
		q.p("(")
		if q.n(2) {
			q.fnArgs(1)
		}
		q.p(")")
	default:
		q.rawid(pick(q.g, []string{"count", "sum", "max", "f", "coalesce", "rand", "GREATEST", "concat_ws", "my_fn"}))
		q.p("(")
		if q.n(5) {
			q.kw("distinct")
			q.sp()
			q.fnArgs(1)
		} else if q.n(3) {
		} else {
			q.fnArgs(1)
		}
		q.p(")")
	}
}

func init() {
	for _, n := range []string{"count", "sum", "max", "f", "coalesce", "rand", "GREATEST", "concat_ws", "my_fn", "func", "fn_1", "MyFunc", "day_x", "MINUTE_Z", "utf8mb4_bin", "latin1_swedish_ci", "utf8mb4x"} {
		isPlain[n] = true
	}
}

func (q *qgen) comments() {
	if !q.n(4) {
		return
	}
	for i := 0; i <= q.g.Intn(2); i++ {
		q.add(tkCmt, "/*"+pick(q.g, []string{" c ", "vt+ A=1 B ", " 'x ", "", " ; ", "*", "+ hint(a) "})+"*/")
		q.sp()
	}
}

func (q *qgen) orderBy() {
	q.sp()
	q.kw("order", "by")
	q.sp()
	for i := 0; i <= q.g.Intn(3); i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		start := len(q.t)
		q.expr(1)
		// "order by null" and "order by rand()" are printed without a direction
		var s []tok
		for _, t := range q.t[start:] {
			if t.k != tkOpen && t.k != tkClose {
				s = append(s, t)
			}
		}
		if len(s) == 1 && s[0].s == "null" && s[0].k == tkKw || strings.EqualFold(s[0].s, "rand") && q.isSingleCall(s) {
			continue
		}
		if q.n(2) {
			q.sp()
			q.kw("desc")
		} else {
			q.alt(" asc", "", " asc")
		}
	}
}

// isSingleCall: the tokens are one call f(...).
func (q *qgen) isSingleCall(s []tok) bool {
	if len(s) < 3 || s[1].s != "(" {
		return false
	}
	d := 0
	for i, t := range s {
		if t.k != tkP {
			continue
		}
		if t.s == "(" {
			d++
		}
		if t.s == ")" {
			d--
			if d == 0 {
				return i == len(s)-1
			}
		}
	}
	return false
}

func (q *qgen) limit(offset bool) {
	q.sp()
	q.kw("limit")
	q.sp()
	one := func() {
		switch {
		case q.args && q.n(3):
			q.add(tkArg, pick(q.g, argNames))
		case q.n(6):
			q.expr(1)
		default:
			q.add(tkInt, pick(q.g, intLits))
		}
	}
	if offset && q.n(2) {
		one()
		q.p(",")
		q.sp()
	}
	one()
}

func (q *qgen) where(kw string) {
	q.sp()
	q.kw(kw)
	q.sp()
	q.expr(1)
}

func (q *qgen) colList(n int) {
	q.p("(")
	for i := 0; i < n; i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		q.id()
	}
	q.p(")")
}

func (q *qgen) tableFactor() {
	switch {
	case q.n(6) && q.depth <= 4:
		q.depth++
		q.subquery()
		q.depth--
		q.sp()
		q.alt("as ", "", "as ")
		q.id()
	case q.n(8) && q.depth <= 4:
		q.depth++
		q.p("(")
		q.tableRefs()
		q.p(")")
		q.depth--
	default:
		q.table()
		if q.n(8) {
			q.sp()
			q.kw("partition")
			q.sp()
			q.colList(1 + q.g.Intn(2))
		}
		if q.n(3) {
			q.sp()
			q.alt("as ", "", "as ")
			q.id()
		}
		if q.n(8) {
			q.sp()
			q.kw(pick(q.g, []string{"use", "ignore", "force"}), "index")
			q.sp()
			q.colList(1 + q.g.Intn(2))
		}
	}
}

// tableRef emits joined tables; every join is one group.
func (q *qgen) tableRef() { q.joined(0) }

func (q *qgen) joined(level int) {
	start := len(q.t)
	q.tableFactor()
	n := 0
	if q.n(3) {
		n = 1 + q.g.Intn(2)
	}
	for i := 0; i < n; i++ {
		// the join built so far is the left operand
		q.t = append(q.t[:start:start], append(toks{{k: tkOpen}}, q.t[start:]...)...)
		q.sp()
		on := func() {
			q.sp()
			q.kw("on")
			q.sp()
			q.expr(1)
		}
		switch q.g.Intn(4) {
		case 0:
			q.alt("join", "inner join", "cross join")
			q.sp()
			q.tableFactor()
			k := q.g.Intn(3)
			if q.mustOn || level > 0 {
				k = q.g.Intn(2)
			}
			switch k {
			case 0:
				on()
			case 1:
				q.sp()
				q.kw("using")
				q.sp()
				q.colList(1 + q.g.Intn(2))
			}
		case 1:
			q.kw("straight_join")
			q.sp()
			q.tableFactor()
			if q.n(2) || q.mustOn || level > 0 {
				on()
			}
		case 2:
			s := pick(q.g, []string{"left", "right"})
			q.alt(s+" join", s+" outer join")
			q.sp()
			if level < 2 && q.n(3) {
				q.joined(level + 1)
			} else {
				q.tableFactor()
			}
			if q.n(2) {
				on()
			} else {
				q.sp()
				q.kw("using")
				q.sp()
				q.colList(1)
			}
		case 3:
			s := pick(q.g, []string{"", "left ", "right "})
			if s == "" {
				q.kw("natural", "join")
			} else {
				q.alt("natural "+s+"join", "natural "+s+"outer join")
			}
			q.sp()
			q.tableFactor()
		}
		q.close()
	}
}

func (q *qgen) tableRefs() {
	for i := 0; i <= q.g.Intn(2); i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		q.tableRef()
	}
}

func (q *qgen) selectExprs() {
	for i := 0; i <= q.g.Intn(3); i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		switch q.g.Intn(8) {
		case 0:
			q.p("*")
		case 1:
			q.id()
			if q.n(3) {
				q.p(".")
				q.id()
			}
			q.p(".")
			q.p("*")
		default:
			if q.n(20) && !q.noConv {
				gr := q.group()
				q.open()
				q.galt(gr, "convert(", "cast(")
				q.col()
				ty := pick(q.g, []string{"date", "datetime", "binary"})
				q.galt(gr, ", "+ty+")", " as "+ty+")")
				q.close()
			} else {
				q.expr(1)
			}
			if q.n(3) {
				q.sp()
				q.alt("as ", "", "as ")
				q.id()
				q.t[len(q.t)-1].str = true
			}
		}
	}
}

// baseSelect: no ORDER BY and beyond
func (q *qgen) baseSelect() {
	q.add(tkKwC, "select")
	q.sp()
	q.comments()
	if q.n(12) {
		q.kw(pick(q.g, []string{"sql_cache", "sql_no_cache"}))
		q.sp()
	}
	if q.n(6) {
		q.kw("distinct")
		q.sp()
	}
	if q.n(12) {
		q.kw("straight_join")
		q.sp()
	}
	q.selectExprs()
	if q.n(8) {
		q.alt(" from dual", "", " from dual")
	} else {
		q.sp()
		q.kw("from")
		q.sp()
		q.tableRefs()
	}
	if q.n(2) {
		q.where("where")
	}
	if q.n(5) {
		q.sp()
		q.kw("group", "by")
		q.sp()
		q.expr(1)
		if q.n(2) {
			q.p(",")
			q.sp()
			q.expr(1)
		}
	}
	if q.n(6) {
		q.where("having")
	}
}

func (q *qgen) tail() {
	if q.n(3) {
		q.orderBy()
	}
	if q.n(3) {
		q.limit(true)
	}
	if q.n(10) {
		q.sp()
		q.kw(strings.Fields(pick(q.g, []string{"for update", "lock in share mode"}))...)
	}
}

func (q *qgen) selectStmt(top bool) {
	q.inQuery++
	defer func() { q.inQuery-- }()
	if q.n(7) && q.depth <= 5 {
		q.depth += 2
		if q.n(2) {
			q.p("(")
			q.baseSelect()
			q.tail()
			q.p(")")
		} else {
			q.baseSelect()
		}
		for i := 0; i <= q.g.Intn(2); i++ {
			q.sp()
			q.kw(strings.Fields(pick(q.g, []string{"union", "union all", "union distinct"}))...)
			q.sp()
			if q.n(3) {
				q.p("(")
				q.baseSelect()
				q.tail()
				q.p(")")
			} else {
				q.baseSelect()
			}
		}
		q.tail()
		q.depth -= 2
		return
	}
	q.baseSelect()
	q.tail()
}

func (q *qgen) updateList() {
	for i := 0; i <= q.g.Intn(3); i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		q.col()
		q.sp()
		q.p("=")
		q.sp()
		if q.n(10) {
			q.dflt()
		} else {
			q.expr(1)
		}
	}
}

func (q *qgen) dflt() {
	q.kw("default")
	if q.n(2) {
		q.p("(")
		q.id()
		q.p(")")
	}
}

func (q *qgen) insert() {
	q.add(tkKwC, pick(q.g, []string{"insert", "replace"}))
	q.sp()
	q.comments()
	if q.n(5) {
		q.kw("ignore")
		q.sp()
	}
	q.alt("into ", "", "into ")
	q.table()
	if q.n(8) {
		q.sp()
		q.kw("partition")
		q.sp()
		q.colList(1)
	}
	cols := q.n(2)
	if cols {
		q.colList(1 + q.g.Intn(3))
	}
	q.sp()
	dup := q.n(4)
	if q.n(3) && q.depth < 4 {
		old := q.mustOn
		q.mustOn = dup
		q.selectStmt(false)
		q.mustOn = old
	} else {
		q.kw("values")
		q.sp()
		for i := 0; i <= q.g.Intn(3); i++ {
			if i > 0 {
				q.p(",")
				q.sp()
			}
			q.open()
			q.p("(")
			for j := q.g.Intn(4); j > 0; j-- {
				if q.n(12) {
					q.dflt()
				} else {
					q.expr(1)
				}
				if j > 1 {
					q.p(",")
					q.sp()
				}
			}
			q.p(")")
			q.close()
		}
	}
	if dup {
		q.sp()
		q.kw("on", "duplicate", "key", "update")
		q.sp()
		q.updateList()
	}
}

func (q *qgen) update() {
	q.add(tkKwC, "update")
	q.sp()
	q.comments()
	q.tableRefs()
	q.sp()
	q.kw("set")
	q.sp()
	q.updateList()
	if q.n(2) {
		q.where("where")
	}
	if q.n(4) {
		q.orderBy()
	}
	if q.n(4) {
		q.limit(false)
	}
}

func (q *qgen) del() {
	q.add(tkKwC, "delete")
	q.sp()
	q.comments()
	if q.n(3) {
		q.table()
		if q.n(2) {
			q.p(",")
			q.sp()
			q.table()
		}
		q.sp()
		q.alt("from", "using")
		q.sp()
		q.tableRefs()
		if q.n(2) {
			q.where("where")
		}
		return
	}
	q.kw("from")
	q.sp()
	q.table()
	if q.n(6) {
		q.sp()
		q.kw("partition")
		q.sp()
		q.colList(2)
	}
	if q.n(2) {
		q.where("where")
	}
	if q.n(4) {
		q.orderBy()
	}
	if q.n(4) {
		q.limit(false)
	}
}

var setAlts = map[string][]string{
	"@@sql_x = 'on'": {"@@sql_x = on"}, "autocommit = 'off'": {"autocommit = off", "`autocommit` = 'off'"},
}

func (q *qgen) pickSet() string {
	if q.n(2) {
		return "@@sql_x = 'on'"
	}
	return "autocommit = 'off'"
}

func (q *qgen) setTx() {
	q.add(tkKwC, "set")
	q.sp()
	q.comments()
	scope := q.n(2)
	if scope {
		q.kw(pick(q.g, []string{"session", "global"}))
		q.sp()
	}
	// printed as settings of variables
	ks := [][2]string{
		{"tx_isolation = 'repeatable read'", "isolation level repeatable read"},
		{"tx_isolation = 'read committed'", "isolation level read committed"},
		{"tx_isolation = 'read uncommitted'", "isolation level read uncommitted"},
		{"tx_isolation = 'serializable'", "isolation level serializable"},
		{"tx_read_only = 0", "read write"}, {"tx_read_only = 1", "read only"},
	}
	gr := q.group()
	q.galt(gr, "", "transaction ")
	k := ks[q.g.Intn(len(ks))]
	q.galt(gr, k[0], k[1])
	if q.n(2) {
		q.p(",")
		q.sp()
		k := ks[q.g.Intn(len(ks))]
		q.galt(gr, k[0], k[1])
	}
}

func (q *qgen) set() {
	if q.n(8) {
		q.setTx()
		return
	}
	q.add(tkKwC, "set")
	q.sp()
	q.comments()
	if q.n(5) {
		q.kw(pick(q.g, []string{"session", "global"}))
		q.sp()
	}
	for i := 0; i <= q.g.Intn(3); i++ {
		if i > 0 {
			q.p(",")
			q.sp()
		}
		if q.n(12) {
			q.t = append(q.t, tok{k: tkAlt, s: q.pickSet(), raw: true})
			q.t[len(q.t)-1].alts = setAlts[q.t[len(q.t)-1].s]
			continue
		}
		if q.n(6) {
			q.alt(pick(q.g, []string{"names", "charset"}))
			q.sp()
			if q.n(4) {
				q.kw("default")
			} else {
				q.strLit()
			}
			continue
		}
		if q.n(3) {
			q.add(tkID, pick(q.g, varNames))
		} else {
			q.add(tkID, pick(q.g, plainNames))
		}
		q.sp()
		q.p("=")
		q.sp()
		q.expr(1)
	}
}

func (q *qgen) show() {
	q.kw("show")
	q.sp()
	if q.n(3) {
		k := pick(q.g, []string{"databases", "index", "keys", "procedure", "session status", "global status", "status", "table", "session variables", "global variables", "variables", "vindexes", "vindexes on t1", "vitess_keyspaces", "vitess_shards", "vitess_tablets", "vschema_tables", "processlist", "engines", "binary logs", "character set", "create database", "create event", "create procedure", "create table", "create trigger", "create view"})
		for i, w := range strings.Fields(k) {
			if i > 0 {
				q.sp()
			}
			if w == "event" || w == "engines" || w == "logs" || w == "t1" {
				q.p(w)
			} else {
				q.kw(w)
			}
		}
		return
	}
	if q.n(3) {
		q.kw("extended")
		q.sp()
	}
	if q.n(2) {
		q.kw("full")
		q.sp()
	}
	q.kw("tables")
	if q.n(2) {
		q.sp()
		q.alt("from", "in")
		q.sp()
		q.id()
	}
	switch q.g.Intn(3) {
	case 0:
		q.sp()
		q.kw("like")
		q.sp()
		q.strLit()
	case 1:
		q.where("where")
	}
}

// query emits one SELECT, INSERT, UPDATE, DELETE; kind tells which.
func (q *qgen) query() string {
	switch q.g.Intn(8) {
	case 0, 1, 2, 3:
		q.selectStmt(true)
		return "select"
	case 4, 5:
		start := len(q.t)
		q.insert()
		return q.t[start].s
	case 6:
		q.update()
		return "update"
	default:
		q.del()
		return "delete"
	}
}

// statement emits any statement that is printed in full.
func (q *qgen) statement() string {
	switch q.g.Intn(16) {
	case 0:
		q.set()
		return "set"
	case 1:
		q.show()
		return "show"
	case 2:
		switch q.g.Intn(9) {
		case 0:
			q.kw("use")
			if q.n(3) {
				return "use"
			}
			q.sp()
			q.id()
			return "use"
		case 1:
			q.alt("begin", "start transaction")
			return "begin"
		case 2:
			q.kw("commit")
			return "commit"
		case 3:
			q.kw("rollback")
			return "rollback"
		case 4:
			q.kw("stream")
			q.t[len(q.t)-1].k = tkKwC
			q.sp()
			q.comments()
			q.p("*")
			q.sp()
			q.kw("from")
			q.sp()
			q.table()
			return "stream"
		case 5:
			q.kw("drop", "table")
			q.sp()
			if q.n(2) {
				q.kw("if", "exists")
				q.sp()
			}
			q.table()
			return "ddl"
		case 6:
			q.kw("create", "database")
			q.sp()
			q.id()
			return "ddl"
		case 7:
			q.kw("truncate")
			q.sp()
			q.alt("table ", "", "table ")
			q.table()
			return "ddl"
		default:
			q.kw("rename", "table")
			q.sp()
			q.table()
			q.sp()
			q.kw("to")
			q.sp()
			q.table()
			return "ddl"
		}
	case 3:
		q.kw("create", "view")
		q.sp()
		n := pick(q.g, []string{"v", "v1", "my_view", "with space", "select"})
		q.add(tkID, n)
		q.sp()
		q.kw("as")
		q.sp()
		q.args = false
		q.selectStmt(true)
		return "ddl"
	}
	return q.query()
}

func init() {
	for _, n := range []string{"v", "v1", "my_view"} {
		isPlain[n] = true
	}
}

func (ts toks) String() string { return fmt.Sprintf("%q", ts.Canon()) }
