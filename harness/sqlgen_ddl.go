package main

import "strings"

// createTable builds a CREATE TABLE statement of columns and keys twice: in the canonical order
// of column attributes, and in another order for the text given to the parser.
func (q *qgen) createTable() (canon, text toks) {
	both := func(f func()) {
		a := len(q.t)
		f()
		text = append(text, q.t[a:]...)
	}
	name := func() { q.add(tkID, q.name()) }
	both(func() {
		q.kw("create", "table")
		q.sp()
		q.table()
		q.sp()
		q.p("(")
		q.p("\n\t")
	})
	n := 1 + q.g.Intn(5)
	var cols []string
	for i := 0; i < n; i++ {
		both(func() {
			if i > 0 {
				q.p(",")
				q.p("\n\t")
			}
			name()
			cols = append(cols, q.t[len(q.t)-1].s)
			q.sp()
		})
		var opts []toks
		opt := func(p int, f func()) {
			if !q.n(p) {
				return
			}
			a := len(q.t)
			f()
			opts = append(opts, append(toks{}, q.t[a:]...))
			q.t = q.t[:a]
		}
		fixed := func(p int, f func()) {
			if q.n(p) {
				both(f)
			}
		}
		kind := q.g.Intn(6)
		length := func() {
			q.p("(")
			q.add(tkNum, pick(q.g, []string{"1", "10", "255", "64"}))
			q.p(")")
		}
		switch kind {
		case 0:
			both(func() {
				q.kw(pick(q.g, []string{"bit", "tinyint", "smallint", "mediumint", "int", "integer", "bigint"}))
			})
			fixed(3, length)
			fixed(4, func() { q.sp(); q.kw("unsigned") })
			fixed(8, func() { q.sp(); q.kw("zerofill") })
		case 1:
			both(func() {
				q.kw(pick(q.g, []string{"decimal", "numeric", "float", "double", "real"}))
				if q.n(2) {
					q.p("(")
					q.add(tkNum, "12")
					q.p(",")
					q.add(tkNum, pick(q.g, []string{"0", "2", "11"}))
					q.p(")")
				}
			})
			fixed(5, func() { q.sp(); q.kw("unsigned") })
		case 2:
			both(func() {
				ty := pick(q.g, []string{"char", "varchar", "text", "tinytext", "mediumtext", "longtext", "binary", "varbinary", "nchar"})
				q.kw(ty)
				if !strings.Contains(ty, "text") {
					length()
				}
				if !strings.Contains(ty, "binary") {
					if q.n(4) {
						q.sp()
						q.kw("character", "set")
						q.sp()
						q.add(tkP, pick(q.g, []string{"utf8mb4x", "latin1", "Utf8"}))
					}
					if q.n(4) {
						q.sp()
						q.kw("collate")
						q.sp()
						q.add(tkP, pick(q.g, []string{"utf8mb4_bin", "latin1_swedish_ci"}))
					}
				}
			})
		case 3:
			both(func() {
				ty := pick(q.g, []string{"date", "time", "timestamp", "datetime", "year"})
				q.kw(ty)
				if ty[0] != 'y' && ty != "date" && q.n(3) {
					q.p("(")
					q.add(tkNum, pick(q.g, []string{"0", "3", "6"}))
					q.p(")")
				}
			})
		case 4:
			both(func() {
				q.kw(pick(q.g, []string{"enum", "set"}))
				q.p("(")
				for k := q.g.Intn(3); k >= 0; k-- {
					q.strLit()
					if k > 0 {
						q.p(",")
						q.sp()
					}
				}
				q.p(")")
			})
		case 5:
			both(func() {
				q.kw(pick(q.g, []string{"json", "blob", "longblob", "geometry", "point", "bool", "boolean", "uuid", "jsonb"}))
			})
		}
		opt(3, func() { q.kw("not", "null") })
		opt(3, func() {
			q.kw("default")
			q.sp()
			switch {
			case kind == 3 && q.n(2):
				q.alt("current_timestamp", "current_timestamp")
			case q.n(5):
				q.kw("null")
			case q.n(3):
				q.add(tkNum, pick(q.g, []string{"0", "1", "-1", "1.5", "-0.25", "12"}))
			default:
				q.strLit()
			}
		})
		if kind == 3 {
			opt(4, func() { q.kw("on", "update", "current_timestamp") })
		}
		if kind == 0 {
			opt(6, func() { q.kw("auto_increment") })
		}
		opt(6, func() { q.kw("comment"); q.sp(); q.strLit() })
		opt(10, func() { q.kw("check"); q.sp() })
		if len(opts) > 0 && opts[len(opts)-1][0].s == "check" {
			opts = opts[:len(opts)-1]
		}
		opt(6, func() {
			q.kw(strings.Fields(pick(q.g, []string{"primary key", "unique key", "unique", "key"}))...)
		})
		order := q.g.Perm(len(opts))
		for i, o := range opts {
			q.sp()
			q.t = append(q.t, o...)
			text = append(append(text, tok{k: tkSp}), opts[order[i]]...)
			// UNIQUE before KEY reads as UNIQUE KEY
		}
		if m := badKeyOrder(opts, order); m {
			text = append(toks{}, q.t...)
		}
	}
	for i := q.g.Intn(3); i > 0; i-- {
		both(func() {
			q.p(",")
			q.p("\n\t")
			if q.n(3) {
				q.kw("primary", "key")
			} else {
				q.kw(strings.Fields(pick(q.g, []string{"key", "index", "unique key", "unique index", "unique", "fulltext key", "spatial index", "fulltext"}))...)
				q.sp()
				name()
			}
			q.sp()
			q.p("(")
			for k := q.g.Intn(3); k >= 0; k-- {
				q.add(tkID, pick(q.g, cols))
				if q.n(4) {
					q.p("(")
					q.add(tkNum, "10")
					q.p(")")
				}
				if k > 0 {
					q.p(",")
					q.sp()
				}
			}
			q.p(")")
			if q.n(5) {
				q.sp()
				q.kw("comment")
				q.sp()
				q.strLit()
			}
			if q.n(6) {
				q.sp()
				q.kw("key_block_size")
				q.sp()
				q.add(tkNum, "16")
			}
			if q.n(6) {
				q.sp()
				q.kw("using")
				q.sp()
				q.add(tkP, pick(q.g, []string{"btree", "HASH"}))
			}
		})
	}
	both(func() { q.p("\n"); q.p(")") })
	return q.t, text
}

// badKeyOrder: an attribute order in which words of two attributes would be read together.
func badKeyOrder(opts []toks, order []int) bool {
	var words []string
	for _, o := range order {
		for _, t := range opts[o] {
			if t.k == tkKw {
				words = append(words, t.s)
			}
		}
	}
	s := strings.Join(words, " ")
	return strings.Contains(s, "default current_timestamp on update") || strings.Contains(s, "default null not") || false
}
