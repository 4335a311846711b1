// Package minidb is an executable reference model of the schema behaviour of
// MySQL, PostgreSQL and SQL Server: it executes DDL one statement at a time,
// refuses what the real server refuses, and can describe the schema reached.
// It shares no code with the repository under test.
package minidb

import (
	"fmt"
	"strings"
)

type Dialect int

const (
	MySQL Dialect = iota
	PG
	MSSQL
)

func (d Dialect) String() string { return [...]string{"mysql", "postgres", "mssql"}[d] }

type tkind int

const (
	tEOF tkind = iota
	tWord
	tQuoted
	tStr
	tNum
	tOp
)

type tok struct {
	k    tkind
	s    string // word: as written; quoted: unescaped; string: unescaped; number/op: text
	pos  int
	end  int
	hex  bool
	bit  bool
	nstr bool
}

func (t tok) is(w string) bool { return t.k == tWord && strings.EqualFold(t.s, w) }
func (t tok) op(o string) bool { return t.k == tOp && t.s == o }
func (t tok) String() string {
	if t.k == tEOF {
		return "end of statement"
	}
	return fmt.Sprintf("%q", t.s)
}

func isWordStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func lex(d Dialect, s string) ([]tok, error) {
	var out []tok
	i := 0
	n := len(s)
	for i < n {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && i+1 < n && s[i+1] == '-':
			for i < n && s[i] != '\n' {
				i++
			}
		case c == '#' && d == MySQL:
			for i < n && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("syntax error: unterminated comment")
			}
			if d == MySQL && strings.HasPrefix(s[i:], "/*!") {
				body := s[i+3 : i+2+j]
				k := 0
				for k < len(body) && isDigit(body[k]) {
					k++
				}
				sub, err := lex(d, body[k:])
				if err != nil {
					return nil, err
				}
				out = append(out, sub[:len(sub)-1]...)
			}
			i += 2 + j + 2
		case c == '\'':
			v, e, err := lexStr(s, i, '\'', d == MySQL)
			if err != nil {
				return nil, err
			}
			out = append(out, tok{k: tStr, s: v, pos: i, end: e})
			i = e
		case c == '"':
			v, e, err := lexStr(s, i, '"', d == MySQL)
			if err != nil {
				return nil, err
			}
			k := tQuoted
			if d == MySQL {
				k = tStr
			} else if v == "" {
				return nil, fmt.Errorf("syntax error: zero-length delimited identifier")
			}
			out = append(out, tok{k: k, s: v, pos: i, end: e})
			i = e
		case c == '`' && d == MySQL:
			v, e, err := lexStr(s, i, '`', false)
			if err != nil {
				return nil, err
			}
			if v == "" {
				return nil, fmt.Errorf("syntax error: zero-length identifier")
			}
			out = append(out, tok{k: tQuoted, s: v, pos: i, end: e})
			i = e
		case c == '[' && d == MSSQL:
			var b strings.Builder
			j := i + 1
			ok := false
			for j < n {
				if s[j] == ']' {
					if j+1 < n && s[j+1] == ']' {
						b.WriteByte(']')
						j += 2
						continue
					}
					ok = true
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if !ok || b.Len() == 0 {
				return nil, fmt.Errorf("syntax error: bad bracketed identifier")
			}
			out = append(out, tok{k: tQuoted, s: b.String(), pos: i, end: j + 1})
			i = j + 1
		case (c == 'b' || c == 'B' || c == 'x' || c == 'X' || c == 'N') && i+1 < n && s[i+1] == '\'':
			v, e, err := lexStr(s, i+1, '\'', false)
			if err != nil {
				return nil, err
			}
			t := tok{k: tStr, s: v, pos: i, end: e}
			switch c {
			case 'b', 'B':
				t.bit = true
			case 'x', 'X':
				t.hex = true
			default:
				t.nstr = true
			}
			out = append(out, t)
			i = e
		case isWordStart(c):
			j := i
			for j < n && (isWordStart(s[j]) || isDigit(s[j]) || s[j] == '$' || (d == MSSQL && s[j] == '#')) {
				j++
			}
			out = append(out, tok{k: tWord, s: s[i:j], pos: i, end: j})
			i = j
		case isDigit(c) || c == '.' && i+1 < n && isDigit(s[i+1]):
			j := i
			for j < n && isDigit(s[j]) {
				j++
			}
			if j < n && s[j] == '.' {
				j++
				for j < n && isDigit(s[j]) {
					j++
				}
			}
			if j < n && (s[j] == 'e' || s[j] == 'E') {
				k := j + 1
				if k < n && (s[k] == '+' || s[k] == '-') {
					k++
				}
				if k < n && isDigit(s[k]) {
					for k < n && isDigit(s[k]) {
						k++
					}
					j = k
				}
			}
			out = append(out, tok{k: tNum, s: s[i:j], pos: i, end: j})
			i = j
		default:
			two := ""
			if i+1 < n {
				two = s[i : i+2]
			}
			switch two {
			case "::", "<>", "!=", "<=", ">=", "||", "->", "<<", ">>":
				out = append(out, tok{k: tOp, s: two, pos: i, end: i + 2})
				i += 2
				continue
			}
			if strings.IndexByte("(),.;=<>+-*/%[]:!&|^~@", c) >= 0 {
				out = append(out, tok{k: tOp, s: string(c), pos: i, end: i + 1})
				i++
				continue
			}
			return nil, fmt.Errorf("syntax error at %q", s[i:min(n, i+12)])
		}
	}
	out = append(out, tok{k: tEOF, pos: n, end: n})
	return out, nil
}

func lexStr(s string, i int, q byte, backslash bool) (string, int, error) {
	var b strings.Builder
	j := i + 1
	for j < len(s) {
		c := s[j]
		if c == q {
			if j+1 < len(s) && s[j+1] == q {
				b.WriteByte(q)
				j += 2
				continue
			}
			return b.String(), j + 1, nil
		}
		if c == '\\' && backslash && j+1 < len(s) {
			switch e := s[j+1]; e {
			case 'n':
				b.WriteByte('\n')
			case 't':
				b.WriteByte('\t')
			case 'r':
				b.WriteByte('\r')
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte('\b')
			case 'Z':
				b.WriteByte(26)
			default:
				b.WriteByte(e)
			}
			j += 2
			continue
		}
		b.WriteByte(c)
		j++
	}
	return "", 0, fmt.Errorf("syntax error: unterminated %c", q)
}
