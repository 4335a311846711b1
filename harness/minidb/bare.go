package minidb

import "strings"

// Bare returns the words of a statement without literals, quoted names and comments.
func Bare(d Dialect, sql string) string {
	toks, err := lex(d, sql)
	if err != nil {
		return sql
	}
	var o []string
	for _, t := range toks {
		if t.k == tWord {
			o = append(o, t.s)
		}
	}
	return strings.Join(o, " ")
}

// Gaps returns the positions between the tokens of a text.
func Gaps(d Dialect, sql string) []int {
	toks, err := lex(d, sql)
	if err != nil {
		return nil
	}
	var o []int
	for _, t := range toks {
		if t.k != tEOF {
			o = append(o, t.pos)
		}
	}
	return o
}
