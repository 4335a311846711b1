package minidb

import (
	"fmt"
	"strings"
)

// Expr is a small SQL expression tree, enough for checks, index predicates,
// policies, defaults and view bodies.
type Expr struct {
	Op   string // see parse functions
	Name []string
	Val  string
	Kids []*Expr
	Sel  *Select
}

type Select struct {
	Distinct bool
	Items    []SelItem
	From     *From
	Where    *Expr
	GroupBy  []*Expr
	OrderBy  []*Expr
	Desc     []bool
	Union    *Select
	All      bool
}
type SelItem struct {
	E     *Expr
	Alias string
	Star  bool
}
type From struct {
	Name  []string
	Alias string
	Join  string // "" for a leaf, else "join", "left join", "cross"
	L, R  *From
	On    *Expr
}

type parser struct {
	d  Dialect
	sv string
	t  []tok
	i  int
}

func newParser(d Dialect, sql string) (*parser, error) {
	t, err := lex(d, sql)
	if err != nil {
		return nil, err
	}
	return &parser{d: d, sv: sql, t: t}, nil
}

func (p *parser) cur() tok { return p.t[p.i] }
func (p *parser) peek(n int) tok {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return p.t[len(p.t)-1]
}
func (p *parser) next() tok {
	t := p.t[p.i]
	if p.i < len(p.t)-1 {
		p.i++
	}
	return t
}
func (p *parser) errf(format string, a ...interface{}) error {
	return fmt.Errorf("syntax error near %s: %s", p.cur(), fmt.Sprintf(format, a...))
}

// kw consumes the given keyword sequence if all of it is present.
func (p *parser) kw(ws ...string) bool {
	for j, w := range ws {
		if !p.peek(j).is(w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *parser) isKw(ws ...string) bool {
	for j, w := range ws {
		if !p.peek(j).is(w) {
			return false
		}
	}
	return true
}
func (p *parser) needKw(ws ...string) error {
	if !p.kw(ws...) {
		return p.errf("expected %s", strings.Join(ws, " "))
	}
	return nil
}
func (p *parser) op(o string) bool {
	if p.cur().op(o) {
		p.i++
		return true
	}
	return false
}
func (p *parser) needOp(o string) error {
	if !p.op(o) {
		return p.errf("expected %q", o)
	}
	return nil
}

// ident reads one identifier, folding unquoted ones as the server does.
func (p *parser) ident() (string, error) {
	t := p.cur()
	switch t.k {
	case tQuoted:
		p.i++
		return t.s, nil
	case tWord:
		if reserved[p.d][strings.ToLower(t.s)] {
			return "", p.errf("reserved word used as a name")
		}
		p.i++
		if p.d == PG {
			return strings.ToLower(t.s), nil
		}
		return t.s, nil
	}
	return "", p.errf("expected a name")
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

// Words no generated schema uses unquoted as a name; the servers refuse them.
var reserved = map[Dialect]map[string]bool{
	MySQL: set("add all alter and as asc between by case char character check collate column constraint create cross current_date current_time current_timestamp database default delete desc distinct drop else exists false for foreign from fulltext group having if in index inner insert int integer into is join key keys left like limit match not null on or order primary references replace right select set spatial table then to trigger true union unique unsigned update use using values varchar when where with"),
	PG:    set("all and any array as asc both case cast check collate column constraint create current_date current_time current_timestamp current_user default desc distinct do else end except false for foreign from grant group having in initially intersect into leading limit not null offset on only or order primary references returning select session_user some symmetric table then to trailing true union unique user using when where window with"),
	MSSQL: set("add all alter and any as asc between by case check clustered collate column constraint create cross current_date current_time current_timestamp current_user database default delete desc distinct drop else end exec exists for foreign from full function group having identity if in index inner insert into is join key left like nonclustered not null of off on or order outer primary proc references right rule schema select set table then to top trigger union unique update use user values view when where with"),
}

func (p *parser) qname() ([]string, error) {
	a, err := p.ident()
	if err != nil {
		return nil, err
	}
	out := []string{a}
	for p.cur().op(".") {
		p.i++
		t := p.cur()
		if t.k == tWord { // after a dot reserved words are fine
			p.i++
			if p.d == PG {
				out = append(out, strings.ToLower(t.s))
			} else {
				out = append(out, t.s)
			}
			continue
		}
		b, err := p.ident()
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

func (p *parser) expr() (*Expr, error) { return p.orExpr() }

func (p *parser) orExpr() (*Expr, error) {
	l, err := p.andExpr()
	if err != nil {
		return nil, err
	}
	for p.kw("or") {
		r, err := p.andExpr()
		if err != nil {
			return nil, err
		}
		l = &Expr{Op: "or", Kids: []*Expr{l, r}}
	}
	return l, nil
}
func (p *parser) andExpr() (*Expr, error) {
	l, err := p.notExpr()
	if err != nil {
		return nil, err
	}
	for p.kw("and") {
		r, err := p.notExpr()
		if err != nil {
			return nil, err
		}
		l = &Expr{Op: "and", Kids: []*Expr{l, r}}
	}
	return l, nil
}
func (p *parser) notExpr() (*Expr, error) {
	if p.kw("not") {
		e, err := p.notExpr()
		if err != nil {
			return nil, err
		}
		return &Expr{Op: "not", Kids: []*Expr{e}}, nil
	}
	return p.predicate()
}
func (p *parser) predicate() (*Expr, error) {
	l, err := p.addExpr()
	if err != nil {
		return nil, err
	}
	for {
		t := p.cur()
		if t.k == tOp {
			switch t.s {
			case "=", "<", ">", "<=", ">=", "<>", "!=":
				p.i++
				r, err := p.addExpr()
				if err != nil {
					return nil, err
				}
				o := t.s
				if o == "!=" {
					o = "<>"
				}
				l = &Expr{Op: "cmp", Val: o, Kids: []*Expr{l, r}}
				continue
			}
		}
		if p.kw("is") {
			v := ""
			if p.kw("not") {
				v = "not "
			}
			w := p.next()
			if !(w.is("null") || w.is("true") || w.is("false")) {
				return nil, p.errf("bad IS")
			}
			l = &Expr{Op: "is", Val: v + strings.ToLower(w.s), Kids: []*Expr{l}}
			continue
		}
		neg := ""
		save := p.i
		if p.isKw("not", "in") || p.isKw("not", "like") || p.isKw("not", "between") {
			p.i++
			neg = "not "
		}
		switch {
		case p.kw("in"):
			if err := p.needOp("("); err != nil {
				return nil, err
			}
			if p.isKw("select") {
				s, err := p.selectStmt()
				if err != nil {
					return nil, err
				}
				if err := p.needOp(")"); err != nil {
					return nil, err
				}
				l = &Expr{Op: "insel", Val: neg, Kids: []*Expr{l}, Sel: s}
				continue
			}
			kids := []*Expr{l}
			for {
				e, err := p.expr()
				if err != nil {
					return nil, err
				}
				kids = append(kids, e)
				if !p.op(",") {
					break
				}
			}
			if err := p.needOp(")"); err != nil {
				return nil, err
			}
			l = &Expr{Op: "in", Val: neg, Kids: kids}
			continue
		case p.kw("like"):
			r, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			l = &Expr{Op: "like", Val: neg, Kids: []*Expr{l, r}}
			continue
		case p.kw("between"):
			a, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			if err := p.needKw("and"); err != nil {
				return nil, err
			}
			b, err := p.addExpr()
			if err != nil {
				return nil, err
			}
			l = &Expr{Op: "between", Val: neg, Kids: []*Expr{l, a, b}}
			continue
		}
		p.i = save
		return l, nil
	}
}
func (p *parser) addExpr() (*Expr, error) {
	l, err := p.mulExpr()
	if err != nil {
		return nil, err
	}
	for p.cur().k == tOp && (p.cur().s == "+" || p.cur().s == "-" || p.cur().s == "||") {
		o := p.next().s
		r, err := p.mulExpr()
		if err != nil {
			return nil, err
		}
		l = &Expr{Op: "bin", Val: o, Kids: []*Expr{l, r}}
	}
	return l, nil
}
func (p *parser) mulExpr() (*Expr, error) {
	l, err := p.unary()
	if err != nil {
		return nil, err
	}
	for p.cur().k == tOp && (p.cur().s == "*" || p.cur().s == "/" || p.cur().s == "%") {
		o := p.next().s
		r, err := p.unary()
		if err != nil {
			return nil, err
		}
		l = &Expr{Op: "bin", Val: o, Kids: []*Expr{l, r}}
	}
	return l, nil
}
func (p *parser) unary() (*Expr, error) {
	if p.op("-") {
		e, err := p.unary()
		if err != nil {
			return nil, err
		}
		if e.Op == "num" && !strings.HasPrefix(e.Val, "-") {
			return &Expr{Op: "num", Val: "-" + e.Val}, nil
		}
		return &Expr{Op: "neg", Kids: []*Expr{e}}, nil
	}
	if p.op("+") {
		return p.unary()
	}
	e, err := p.primary()
	if err != nil {
		return nil, err
	}
	for p.d == PG && p.op("::") {
		t, err := p.typeName()
		if err != nil {
			return nil, err
		}
		e = &Expr{Op: "cast", Val: t.String(), Kids: []*Expr{e}}
	}
	return e, nil
}
func (p *parser) primary() (*Expr, error) {
	t := p.cur()
	switch t.k {
	case tNum:
		p.i++
		return &Expr{Op: "num", Val: t.s}, nil
	case tStr:
		p.i++
		switch {
		case t.bit:
			return &Expr{Op: "bit", Val: t.s}, nil
		case t.hex:
			return &Expr{Op: "hex", Val: t.s}, nil
		}
		return &Expr{Op: "str", Val: t.s}, nil
	case tOp:
		if t.s == "(" {
			p.i++
			if p.isKw("select") {
				s, err := p.selectStmt()
				if err != nil {
					return nil, err
				}
				if err := p.needOp(")"); err != nil {
					return nil, err
				}
				return &Expr{Op: "subq", Sel: s}, nil
			}
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			if err := p.needOp(")"); err != nil {
				return nil, err
			}
			return e, nil
		}
	case tWord:
		w := strings.ToLower(t.s)
		switch w {
		case "null", "true", "false":
			p.i++
			return &Expr{Op: w}, nil
		case "current_timestamp", "current_date", "current_time", "current_user", "session_user":
			p.i++
			v := ""
			if p.op("(") {
				if p.cur().k == tNum {
					v = p.next().s
				}
				if err := p.needOp(")"); err != nil {
					return nil, err
				}
			}
			return &Expr{Op: "sysfn", Name: []string{w}, Val: v}, nil
		case "exists":
			p.i++
			if err := p.needOp("("); err != nil {
				return nil, err
			}
			s, err := p.selectStmt()
			if err != nil {
				return nil, err
			}
			if err := p.needOp(")"); err != nil {
				return nil, err
			}
			return &Expr{Op: "exists", Sel: s}, nil
		case "case":
			p.i++
			e := &Expr{Op: "case"}
			if !p.isKw("when") {
				b, err := p.expr()
				if err != nil {
					return nil, err
				}
				e.Val = "base"
				e.Kids = append(e.Kids, b)
			}
			for p.kw("when") {
				c, err := p.expr()
				if err != nil {
					return nil, err
				}
				if err := p.needKw("then"); err != nil {
					return nil, err
				}
				v, err := p.expr()
				if err != nil {
					return nil, err
				}
				e.Kids = append(e.Kids, c, v)
			}
			if p.kw("else") {
				v, err := p.expr()
				if err != nil {
					return nil, err
				}
				e.Val += "else"
				e.Kids = append(e.Kids, v)
			}
			if err := p.needKw("end"); err != nil {
				return nil, err
			}
			return e, nil
		}
		if p.peek(1).op("(") && !reserved[p.d][w] || p.peek(1).op("(") && (w == "left" || w == "right" || w == "replace" || w == "if" || w == "database" || w == "values") {
			p.i += 2
			e := &Expr{Op: "fn", Name: []string{w}}
			if p.kw("distinct") {
				e.Val = "distinct"
			}
			if p.op("*") {
				e.Kids = append(e.Kids, &Expr{Op: "star"})
			} else if !p.cur().op(")") {
				for {
					a, err := p.expr()
					if err != nil {
						return nil, err
					}
					e.Kids = append(e.Kids, a)
					if !p.op(",") {
						break
					}
				}
			}
			if err := p.needOp(")"); err != nil {
				return nil, err
			}
			return e, nil
		}
	}
	n, err := p.qname()
	if err != nil {
		return nil, err
	}
	return &Expr{Op: "col", Name: n}, nil
}

func (p *parser) selectStmt() (*Select, error) {
	if err := p.needKw("select"); err != nil {
		return nil, err
	}
	s := &Select{}
	s.Distinct = p.kw("distinct")
	for {
		if p.op("*") {
			s.Items = append(s.Items, SelItem{Star: true})
		} else {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			it := SelItem{E: e}
			if p.kw("as") {
				a, err := p.ident()
				if err != nil {
					return nil, err
				}
				it.Alias = a
			} else if p.cur().k == tQuoted {
				it.Alias = p.next().s
			}
			s.Items = append(s.Items, it)
		}
		if !p.op(",") {
			break
		}
	}
	if p.kw("from") {
		f, err := p.fromItem()
		if err != nil {
			return nil, err
		}
		s.From = f
	}
	if p.kw("where") {
		e, err := p.expr()
		if err != nil {
			return nil, err
		}
		s.Where = e
	}
	if p.kw("group", "by") {
		for {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			s.GroupBy = append(s.GroupBy, e)
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("order", "by") {
		for {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			s.OrderBy = append(s.OrderBy, e)
			d := p.kw("desc")
			if !d {
				p.kw("asc")
			}
			s.Desc = append(s.Desc, d)
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("union") {
		s.All = p.kw("all")
		u, err := p.selectStmt()
		if err != nil {
			return nil, err
		}
		s.Union = u
	}
	return s, nil
}

func (p *parser) fromItem() (*From, error) {
	l, err := p.fromLeaf()
	if err != nil {
		return nil, err
	}
	for {
		join := ""
		switch {
		case p.kw("inner", "join"), p.kw("join"):
			join = "join"
		case p.kw("left", "join"), p.kw("left", "outer", "join"):
			join = "left join"
		default:
			return l, nil
		}
		r, err := p.fromLeaf()
		if err != nil {
			return nil, err
		}
		f := &From{Join: join, L: l, R: r}
		if p.kw("on") {
			e, err := p.expr()
			if err != nil {
				return nil, err
			}
			f.On = e
		} else {
			return nil, p.errf("join without ON")
		}
		l = f
	}
}
func (p *parser) fromLeaf() (*From, error) {
	if p.op("(") {
		f, err := p.fromItem()
		if err != nil {
			return nil, err
		}
		return f, p.needOp(")")
	}
	n, err := p.qname()
	if err != nil {
		return nil, err
	}
	f := &From{Name: n}
	if p.kw("as") {
		a, err := p.ident()
		if err != nil {
			return nil, err
		}
		f.Alias = a
	} else if t := p.cur(); t.k == tQuoted || t.k == tWord && !fromStop[strings.ToLower(t.s)] {
		a, err := p.ident()
		if err != nil {
			return nil, err
		}
		f.Alias = a
	}
	return f, nil
}

var fromStop = set("inner join left right cross on where group order union having limit set values as with")

// ---- printing -------------------------------------------------------------

type style int

const (
	stCanon    style = iota // fully parenthesised, lower case: comparison form
	stPGFull                // pg_get_expr without pretty printing
	stPGPretty              // pg_get_expr with pretty printing
	stMSSQL                 // SQL Server's rewriting of check constraints
	stMySQL                 // MySQL's rewriting of view bodies
)

func quoteStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func plainIdent(s string) bool {
	if s == "" || !(s[0] == '_' || s[0] >= 'a' && s[0] <= 'z') {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || isDigit(c)) {
			return false
		}
	}
	return true
}

// pgIdent quotes like quote_identifier().
func pgIdent(s string) string {
	if plainIdent(s) && !reserved[PG][s] && !pgQuoteAlso[s] {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

var pgQuoteAlso = set("between binary character char bigint bit boolean cross int integer is join left like natural right smallint time timestamp values varchar analyze full inner outer ilike isnull notnull verbose similar freeze concurrently collation authorization")

func name1(n string, st style) string {
	switch st {
	case stPGFull, stPGPretty:
		return pgIdent(n)
	case stMSSQL:
		return "[" + strings.ReplaceAll(n, "]", "]]") + "]"
	case stMySQL:
		return "`" + strings.ReplaceAll(n, "`", "``") + "`"
	}
	return n
}
func nameN(n []string, st style) string {
	var o []string
	for _, x := range n {
		o = append(o, name1(x, st))
	}
	return strings.Join(o, ".")
}

func (e *Expr) str(st style) string { return e.print(st, true) }

func (e *Expr) Canon() string {
	if e == nil {
		return ""
	}
	return e.print(stCanon, true)
}

func (e *Expr) print(st style, top bool) string {
	paren := func(s string) string {
		switch st {
		case stPGPretty:
			if top {
				return s
			}
			return "(" + s + ")"
		case stMSSQL:
			return s
		}
		return "(" + s + ")"
	}
	k := func(i int) string { return e.Kids[i].print(st, false) }
	// operand of and/or in pretty mode: comparisons and same-op need no parens
	logic := func(i int) string {
		c := e.Kids[i]
		if st == stPGPretty {
			if c.Op == "or" && e.Op == "and" {
				return "(" + c.print(st, true) + ")"
			}
			return c.print(st, true)
		}
		if st == stMSSQL && c.Op == "or" && e.Op == "and" {
			return "(" + c.print(st, false) + ")"
		}
		return c.print(st, false)
	}
	up := func(s string) string {
		if st == stPGFull || st == stPGPretty || st == stMSSQL {
			return strings.ToUpper(s)
		}
		return s
	}
	switch e.Op {
	case "num":
		if st == stMSSQL {
			return "(" + e.Val + ")"
		}
		if (st == stPGFull || st == stPGPretty) && strings.HasPrefix(e.Val, "-") {
			return "'" + e.Val + "'::integer"
		}
		return e.Val
	case "str":
		if st == stMySQL {
			return myViewStr(e.Val)
		}
		return quoteStr(e.Val)
	case "bit":
		return "b'" + e.Val + "'"
	case "hex":
		return "x'" + strings.ToLower(e.Val) + "'"
	case "null", "true", "false":
		return up(e.Op)
	case "star":
		return "*"
	case "sysfn":
		n := e.Name[0]
		if st == stPGFull || st == stPGPretty {
			n = strings.ToUpper(n)
		}
		if e.Val != "" {
			n += "(" + e.Val + ")"
		}
		return n
	case "col":
		return nameN(e.Name, st)
	case "fn":
		var a []string
		for i := range e.Kids {
			a = append(a, e.Kids[i].print(st, true))
		}
		d := ""
		if e.Val != "" {
			d = up("distinct") + " "
		}
		return e.Name[0] + "(" + d + strings.Join(a, ", ") + ")"
	case "and", "or":
		return paren(logic(0) + " " + up(e.Op) + " " + logic(1))
	case "not":
		if st == stPGPretty {
			return up("not") + " " + e.Kids[0].print(st, false)
		}
		return paren(up("not") + " " + k(0))
	case "cmp":
		if st == stMSSQL {
			return k(0) + e.Val + k(1)
		}
		return paren(k(0) + " " + e.Val + " " + k(1))
	case "bin":
		if st == stMSSQL {
			return k(0) + e.Val + k(1)
		}
		return paren(k(0) + " " + e.Val + " " + k(1))
	case "neg":
		return "(- " + k(0) + ")"
	case "is":
		return paren(k(0) + " " + up("is "+e.Val))
	case "like":
		return paren(k(0) + " " + up(e.Val+"like") + " " + k(1))
	case "between":
		return paren(k(0) + " " + up(e.Val+"between") + " " + k(1) + " " + up("and") + " " + k(2))
	case "in":
		var a []string
		for _, x := range e.Kids[1:] {
			a = append(a, x.print(st, false))
		}
		return paren(k(0) + " " + up(e.Val+"in") + " (" + strings.Join(a, ", ") + ")")
	case "insel":
		return paren(k(0) + " " + up(e.Val+"in") + " (" + e.Sel.print(st) + ")")
	case "exists":
		return paren(up("exists") + " (" + e.Sel.print(st) + ")")
	case "subq":
		return "(" + e.Sel.print(st) + ")"
	case "cast":
		c := e.Kids[0]
		s := c.print(st, false)
		if c.Op == "col" && st != stCanon {
			s = "(" + s + ")"
		}
		return s + "::" + e.Val
	case "case":
		var b strings.Builder
		b.WriteString(up("case"))
		i := 0
		n := len(e.Kids)
		if strings.HasPrefix(e.Val, "base") {
			b.WriteString(" " + e.Kids[0].print(st, true))
			i++
		}
		hasElse := strings.HasSuffix(e.Val, "else")
		if hasElse {
			n--
		}
		for ; i+1 < n; i += 2 {
			b.WriteString(" " + up("when") + " " + e.Kids[i].print(st, true) + " " + up("then") + " " + e.Kids[i+1].print(st, true))
		}
		if hasElse {
			b.WriteString(" " + up("else") + " " + e.Kids[len(e.Kids)-1].print(st, true))
		}
		b.WriteString(" " + up("end"))
		return b.String()
	}
	return "?" + e.Op
}

func (e *Expr) walk(f func(*Expr)) {
	if e == nil {
		return
	}
	f(e)
	for _, k := range e.Kids {
		k.walk(f)
	}
	if e.Sel != nil {
		e.Sel.walk(f)
	}
}
func (s *Select) walk(f func(*Expr)) {
	if s == nil {
		return
	}
	for _, it := range s.Items {
		it.E.walk(f)
	}
	var wf func(x *From)
	wf = func(x *From) {
		if x == nil {
			return
		}
		wf(x.L)
		wf(x.R)
		x.On.walk(f)
	}
	wf(s.From)
	s.Where.walk(f)
	for _, g := range s.GroupBy {
		g.walk(f)
	}
	for _, g := range s.OrderBy {
		g.walk(f)
	}
	s.Union.walk(f)
}
func (s *Select) tables(f func([]string)) {
	if s == nil {
		return
	}
	var wf func(x *From)
	wf = func(x *From) {
		if x == nil {
			return
		}
		if x.Join == "" {
			f(x.Name)
		}
		wf(x.L)
		wf(x.R)
	}
	wf(s.From)
	s.walk(func(e *Expr) {
		if e.Sel != nil {
			e.Sel.tables(f)
		}
	})
	s.Union.tables(f)
}

func (s *Select) Canon() string { return s.print(stCanon) }

func (s *Select) print(st style) string {
	up := func(x string) string {
		if st == stPGFull || st == stPGPretty || st == stMSSQL {
			return strings.ToUpper(x)
		}
		return x
	}
	itemSep, clauseSep, fromSep := ", ", " ", " "
	if st == stPGPretty || st == stPGFull {
		itemSep, clauseSep, fromSep = ",\n    ", "\n  ", "\n   "
	}
	if st == stMySQL {
		itemSep = ","
	}
	var b strings.Builder
	if st == stPGPretty || st == stPGFull {
		b.WriteString(" ")
	}
	b.WriteString(up("select") + " ")
	if s.Distinct {
		b.WriteString(up("distinct") + " ")
	}
	for i, it := range s.Items {
		if i > 0 {
			b.WriteString(itemSep)
		}
		if it.Star {
			b.WriteString("*")
			continue
		}
		x := it.E.print(st, st != stPGFull)
		b.WriteString(x)
		alias := it.Alias
		if st == stMySQL && alias == "" && it.E.Op == "col" {
			alias = it.E.Name[len(it.E.Name)-1]
		}
		if (st == stPGPretty || st == stPGFull) && it.E.Op == "col" && alias == it.E.Name[len(it.E.Name)-1] {
			alias = ""
		}
		if alias != "" {
			as := " " + up("as") + " "
			if st == stMySQL {
				as = " AS "
			}
			b.WriteString(as + name1(alias, st))
		}
	}
	if s.From != nil {
		b.WriteString(fromSep + up("from") + " " + s.From.print(st))
	}
	if s.Where != nil {
		b.WriteString(clauseSep + up("where") + " " + s.Where.print(st, st == stPGPretty))
	}
	for i, g := range s.GroupBy {
		if i == 0 {
			b.WriteString(clauseSep + up("group by") + " ")
		} else {
			b.WriteString(", ")
		}
		b.WriteString(g.print(st, true))
	}
	for i, g := range s.OrderBy {
		if i == 0 {
			b.WriteString(clauseSep + up("order by") + " ")
		} else {
			b.WriteString(", ")
		}
		b.WriteString(g.print(st, true))
		if s.Desc[i] {
			b.WriteString(" " + up("desc"))
		}
	}
	if s.Union != nil {
		b.WriteString(" " + up("union") + " ")
		if s.All {
			b.WriteString(up("all") + " ")
		}
		b.WriteString(s.Union.print(st))
	}
	return b.String()
}
func (f *From) print(st style) string {
	up := func(x string) string {
		if st == stPGFull || st == stPGPretty || st == stMSSQL {
			return strings.ToUpper(x)
		}
		return x
	}
	if f.Join == "" {
		s := nameN(f.Name, st)
		if f.Alias != "" {
			if st == stPGPretty || st == stPGFull || st == stMySQL {
				s += " " + name1(f.Alias, st)
			} else {
				s += " " + up("as") + " " + name1(f.Alias, st)
			}
		}
		return s
	}
	s := f.L.print(st) + " " + up(f.Join) + " " + f.R.print(st)
	if st == stPGPretty || st == stPGFull {
		s = f.L.print(st) + "\n     " + up(f.Join) + " " + f.R.print(st)
	}
	if f.On != nil {
		if st == stMySQL {
			s += " on(" + f.On.print(st, true) + ")"
		} else if st == stPGFull {
			s += " " + up("on") + " (" + f.On.print(st, false) + ")"
		} else {
			s += " " + up("on") + " " + f.On.print(st, false)
		}
	}
	switch st {
	case stCanon, stMySQL:
		return "(" + s + ")"
	case stPGFull:
		return "(" + s + ")"
	}
	return s
}
