package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"strings"

	"verifharness/minidb"
)

type myConn struct {
	c   net.Conn
	r   *bufio.Reader
	w   *bufio.Writer
	seq byte
}

func (m *myConn) read() ([]byte, error) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(m.r, h[:]); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out, nil
		}
	}
}

func (m *myConn) write(b []byte) {
	for {
		n := len(b)
		if n > 0xffffff {
			n = 0xffffff
		}
		m.w.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), m.seq})
		m.seq++
		m.w.Write(b[:n])
		b = b[n:]
		if n < 0xffffff {
			return
		}
	}
}

func lenenc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	}
	b := make([]byte, 9)
	b[0] = 0xfe
	binary.LittleEndian.PutUint64(b[1:], uint64(n))
	return b
}
func lenstr(s string) []byte { return append(lenenc(len(s)), s...) }

func (m *myConn) ok()  { m.write([]byte{0, 0, 0, 2, 0, 0, 0}) }
func (m *myConn) eof() { m.write([]byte{0xfe, 0, 0, 2, 0}) }
func (m *myConn) err(msg string) {
	b := []byte{0xff, 0x28, 0x04, '#'}
	m.write(append(append(b, "42000"...), msg...))
}

func (m *myConn) rows(rs *resultSet) bool {
	m.write(lenenc(len(rs.cols)))
	for _, c := range rs.cols {
		b := lenstr("def")
		for _, s := range []string{"", "", "", c, c} {
			b = append(b, lenstr(s)...)
		}
		b = append(b, 0x0c, 33, 0, 0xff, 0xff, 0, 0, 0xfd, 0, 0, 0, 0, 0)
		m.write(b)
	}
	m.eof()
	for i, r := range rs.rows {
		if rs.cut == i {
			break
		}
		var b []byte
		for _, v := range r {
			switch v := v.(type) {
			case nil:
				b = append(b, 0xfb)
			case string:
				b = append(b, lenstr(v)...)
			default:
				b = append(b, lenstr(fmt.Sprint(v))...)
			}
		}
		m.write(b)
	}
	if rs.cut >= 0 {
		if rs.drop {
			return false
		}
		m.err("injected failure while reading rows")
		return true
	}
	m.eof()
	return true
}

func nativePassword(pw string, salt, resp []byte) bool {
	if pw == "" {
		return len(resp) == 0
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	h3 := h.Sum(nil)
	if len(resp) != 20 {
		return false
	}
	for i := range h3 {
		if resp[i] != h1[i]^h3[i] {
			return false
		}
	}
	return true
}

func serveMySQL(x *session, c net.Conn) {
	m := &myConn{c: c, r: bufio.NewReader(c), w: bufio.NewWriter(c)}
	salt := []byte("abcdefghijklmnopqrst")
	for i := range salt {
		salt[i] = 'a' + byte((x.id*7+i*3)%26)
	}
	b := append([]byte{10}, "5.7.33-standin\x00"...)
	b = append(b, byte(x.id), 0, 0, 0)
	b = append(b, salt[:8]...)
	b = append(b, 0)
	caps := uint32(0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x80000)
	b = append(b, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, salt[8:]...)
	b = append(b, 0)
	b = append(b, "mysql_native_password\x00"...)
	m.write(b)
	m.w.Flush()
	p, err := m.read()
	if err != nil || len(p) < 33 {
		return
	}
	cc := binary.LittleEndian.Uint32(p)
	p = p[32:]
	cstr := func() string {
		i := strings.IndexByte(string(p), 0)
		if i < 0 {
			s := string(p)
			p = nil
			return s
		}
		s := string(p[:i])
		p = p[i+1:]
		return s
	}
	user := cstr()
	var resp []byte
	if len(p) > 0 {
		n := int(p[0])
		if 1+n > len(p) {
			return
		}
		resp = append(resp, p[1:1+n]...)
		p = p[1+n:]
	}
	db := ""
	if cc&8 != 0 {
		db = cstr()
	}
	err = x.login(Login{User: user, Database: db, PasswordOK: func(pw string) bool { return nativePassword(pw, salt, resp) }})
	if err == errDrop {
		return
	}
	if err != nil {
		m.err(err.Error())
		m.w.Flush()
		return
	}
	m.ok()
	m.w.Flush()
	for {
		p, err := m.read()
		if err != nil || len(p) == 0 {
			return
		}
		switch p[0] {
		case 1: // quit
			return
		case 14: // ping
			m.ok()
		case 2: // init db
			x.s.mu.Lock()
			x.event(Event{Kind: "use", SQL: string(p[1:])})
			x.s.mu.Unlock()
			m.ok()
		case 3:
			if !m.answer(x, string(p[1:])) {
				return
			}
		default:
			m.err("unsupported command")
		}
		m.w.Flush()
	}
}

var (
	reMyFull   = regexp.MustCompile("(?is)^\\s*show\\s+full\\s+tables\\s+where\\s+`?table_type`?\\s*(!=|<>|=)\\s*'([^']*)'\\s*;?\\s*$")
	reMyCreate = regexp.MustCompile("(?is)^\\s*show\\s+create\\s+table\\s+(.+?)\\s*;?\\s*$")
	reMyTrig   = regexp.MustCompile(`(?is)^\s*show\s+triggers\s*;?\s*$`)
)

// answer handles one COM_QUERY; false closes the connection.
func (m *myConn) answer(x *session, sql string) bool {
	var err error
	var rs *resultSet
	switch w := firstWord(sql); w {
	case "start", "begin":
		_, err = x.tx("begin", sql)
	case "commit":
		_, err = x.tx("commit", sql)
	case "rollback":
		_, err = x.tx("rollback", sql)
	case "set", "use":
		x.s.mu.Lock()
		x.event(Event{Kind: w, SQL: sql})
		x.s.mu.Unlock()
	case "show", "select":
		rs, err = x.query(sql, func(db *minidb.DB) (*resultSet, error) { return mysqlQuery(x.s, db, sql) })
	default:
		err = x.exec(sql)
	}
	if err == errDrop {
		m.w.Flush()
		return false
	}
	if err != nil {
		m.err(err.Error())
		return true
	}
	if rs != nil {
		return m.rows(rs)
	}
	m.ok()
	return true
}

func mysqlQuery(s *Server, db *minidb.DB, sql string) (*resultSet, error) {
	if q := reMyFull.FindStringSubmatch(sql); q != nil {
		rs := &resultSet{cols: []string{"Tables_in_" + db.Name, "Table_type"}}
		want := func(ty string) bool { return strings.EqualFold(ty, q[2]) == (q[1] == "=") }
		var names []string
		kind := map[string]string{}
		for _, t := range db.Tables {
			names = append(names, t.Name)
			kind[t.Name] = "BASE TABLE"
		}
		for _, v := range db.Views {
			names = append(names, v.Name)
			kind[v.Name] = "VIEW"
		}
		sortFold(names)
		for _, n := range names {
			if want(kind[n]) {
				rs.rows = append(rs.rows, []interface{}{n, kind[n]})
			}
		}
		return rs, nil
	}
	if q := reMyCreate.FindStringSubmatch(sql); q != nil {
		n := q[1]
		if strings.HasPrefix(n, "`") && strings.HasSuffix(n, "`") && len(n) > 1 {
			n = n[1 : len(n)-1]
			if strings.Contains(strings.ReplaceAll(n, "``", ""), "`") {
				return nil, errors.New("You have an error in your SQL syntax near " + q[1])
			}
			n = strings.ReplaceAll(n, "``", "`")
		}
		if t := db.Table(n); t != nil {
			return &resultSet{cols: []string{"Table", "Create Table"}, rows: [][]interface{}{{t.Name, db.ShowCreateTable(t)}}}, nil
		}
		return nil, fmt.Errorf("Table '%s' doesn't exist", n)
	}
	if reMyTrig.MatchString(sql) {
		rs := &resultSet{cols: []string{"Trigger", "Event", "Table", "Statement", "Timing", "Created", "sql_mode", "Definer", "character_set_client", "collation_connection", "Database Collation"}}
		for _, t := range db.Triggers {
			rs.rows = append(rs.rows, []interface{}{t.Name, strings.ToUpper(t.Event), t.Table, t.Raw, strings.ToUpper(t.Time), "2021-07-01 00:00:00.00", "STRICT_TRANS_TABLES", "root@localhost", "utf8mb4", "utf8mb4_general_ci", "utf8mb4_general_ci"})
		}
		return rs, nil
	}
	if firstWord(sql) == "select" {
		return s.catalogQuery(db, sql, nil)
	}
	s.unknown = append(s.unknown, sql)
	return nil, errors.New("the stand-in server does not know this statement: " + sql)
}
