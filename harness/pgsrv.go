package main

import (
	"bufio"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"

	"verifharness/minidb"
)

// The PostgreSQL wire protocol, version 3, simple and extended queries.

type pgConn struct {
	c net.Conn
	r *bufio.Reader
	w *bufio.Writer
}

func (p *pgConn) msg(t byte, body []byte) {
	var h [5]byte
	h[0] = t
	binary.BigEndian.PutUint32(h[1:], uint32(len(body)+4))
	p.w.Write(h[:])
	p.w.Write(body)
}

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (p *pgConn) err(m string) {
	b := "SERROR\x00VERROR\x00C42000\x00M" + strings.ReplaceAll(m, "\x00", " ") + "\x00\x00"
	p.msg('E', []byte(b))
}

func (p *pgConn) ready(x *session) {
	st := byte('I')
	x.s.mu.Lock()
	if x.inTx {
		st = 'T'
		if x.failed {
			st = 'E'
		}
	}
	x.s.mu.Unlock()
	p.msg('Z', []byte{st})
}

func (p *pgConn) rowDesc(cols []string) {
	b := be16(len(cols))
	for _, c := range cols {
		b = append(b, c...)
		b = append(b, 0)
		b = append(b, be32(0)...)
		b = append(b, be16(0)...)
		b = append(b, be32(25)...)
		b = append(b, be16(-1)...)
		b = append(b, be32(-1)...)
		b = append(b, be16(0)...)
	}
	p.msg('T', b)
}

// rows sends the rows and the end of the command; false drops the connection.
func (p *pgConn) rows(rs *resultSet) (ok, failed bool) {
	for i, r := range rs.rows {
		if rs.cut == i {
			break
		}
		b := be16(len(r))
		for _, v := range r {
			if v == nil {
				b = append(b, be32(-1)...)
				continue
			}
			s := fmt.Sprint(v)
			b = append(b, be32(len(s))...)
			b = append(b, s...)
		}
		p.msg('D', b)
	}
	if rs.cut >= 0 {
		if rs.drop {
			return false, true
		}
		p.err("injected failure while reading rows")
		return true, true
	}
	p.msg('C', []byte("SELECT "+strconv.Itoa(len(rs.rows))+"\x00"))
	return true, false
}

func (p *pgConn) startup() (map[string]string, bool) {
	for {
		var h [8]byte
		if _, err := io.ReadFull(p.r, h[:]); err != nil {
			return nil, false
		}
		n := int(binary.BigEndian.Uint32(h[:]))
		if n < 8 || n > 1<<20 {
			return nil, false
		}
		body := make([]byte, n-8)
		if _, err := io.ReadFull(p.r, body); err != nil {
			return nil, false
		}
		switch binary.BigEndian.Uint32(h[4:]) {
		case 80877103, 80877104: // no TLS, no GSS
			p.w.WriteByte('N')
			p.w.Flush()
			continue
		case 196608:
		default:
			return nil, false
		}
		m := map[string]string{}
		f := strings.Split(string(body), "\x00")
		for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
			m[f[i]] = f[i+1]
		}
		return m, true
	}
}

func (p *pgConn) read() (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(p.r, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:]))
	if n < 4 || n > 1<<26 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(p.r, b)
	return h[0], b, err
}

func md5hex(s string) string { h := md5.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

type pgPrepared struct {
	sql  string
	n    int
	cols []string
}

func servePG(x *session, c net.Conn) {
	p := &pgConn{c: c, r: bufio.NewReader(c), w: bufio.NewWriter(c)}
	par, ok := p.startup()
	if !ok {
		return
	}
	salt := []byte{byte(x.id), 3, 5, byte(7 * x.id)}
	p.msg('R', append(be32(5), salt...))
	p.w.Flush()
	t, b, err := p.read()
	if err != nil || t != 'p' {
		return
	}
	resp := strings.TrimSuffix(string(b), "\x00")
	db := par["database"]
	if db == "" {
		db = par["user"]
	}
	err = x.login(Login{User: par["user"], Database: db, Extra: par, PasswordOK: func(pw string) bool {
		return resp == "md5"+md5hex(md5hex(pw+par["user"])+string(salt))
	}})
	if err == errDrop {
		return
	}
	if err != nil {
		p.msg('E', []byte("SFATAL\x00VFATAL\x00C28P01\x00M"+err.Error()+"\x00\x00"))
		p.w.Flush()
		return
	}
	p.msg('R', be32(0))
	for _, kv := range [][2]string{{"server_version", "13.3"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"standard_conforming_strings", "on"}, {"TimeZone", "UTC"}} {
		p.msg('S', []byte(kv[0]+"\x00"+kv[1]+"\x00"))
	}
	p.msg('K', append(be32(x.id), be32(99)...))
	p.ready(x)
	p.w.Flush()
	prep := map[string]*pgPrepared{}
	type portal struct {
		p    *pgPrepared
		args []interface{}
	}
	portals := map[string]*portal{}
	skip := false // after an error, until Sync
	for {
		t, b, err := p.read()
		if err != nil {
			return
		}
		cstr := func() string {
			i := strings.IndexByte(string(b), 0)
			if i < 0 {
				s := string(b)
				b = nil
				return s
			}
			s := string(b[:i])
			b = b[i+1:]
			return s
		}
		i16 := func() int {
			if len(b) < 2 {
				return 0
			}
			n := int(int16(binary.BigEndian.Uint16(b)))
			b = b[2:]
			return n
		}
		fail := func(e error) bool {
			if e == errDrop {
				p.w.Flush()
				return false
			}
			p.err(e.Error())
			skip = true
			return true
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'S':
			skip = false
			p.ready(x)
			p.w.Flush()
		case 'H':
			p.w.Flush()
		case 'Q':
			if !p.simple(x, cstr()) {
				return
			}
			p.ready(x)
			p.w.Flush()
		case 'P':
			name, sql := cstr(), cstr()
			n := 0
			for _, m := range rePGArg.FindAllStringSubmatch(sql, -1) {
				if k, _ := strconv.Atoi(m[1]); k > n {
					n = k
				}
			}
			pr := &pgPrepared{sql: sql, n: n}
			if w := firstWord(sql); w == "select" || w == "with" {
				x.s.mu.Lock()
				rs, e := x.s.catalogQuery(x.s.db, sql, make([]interface{}, n))
				x.s.mu.Unlock()
				if e != nil {
					if !fail(e) {
						return
					}
					continue
				}
				pr.cols = rs.cols
			}
			prep[name] = pr
			p.msg('1', nil)
		case 'D':
			if len(b) == 0 {
				return
			}
			kind := b[0]
			b = b[1:]
			var pr *pgPrepared
			if kind == 'S' {
				if pr = prep[cstr()]; pr != nil {
					d := be16(pr.n)
					for i := 0; i < pr.n; i++ {
						d = append(d, be32(25)...)
					}
					p.msg('t', d)
				}
			} else if q := portals[cstr()]; q != nil {
				pr = q.p
			}
			switch {
			case pr == nil:
				fail(fmt.Errorf("no such statement"))
			case pr.cols == nil:
				p.msg('n', nil)
			default:
				p.rowDesc(pr.cols)
			}
		case 'B':
			po, st := cstr(), cstr()
			for n := i16(); n > 0; n-- {
				if i16() != 0 {
					x.s.mu.Lock()
					x.s.unknown = append(x.s.unknown, "binary parameter")
					x.s.mu.Unlock()
				}
			}
			var args []interface{}
			for n := i16(); n > 0 && len(b) >= 4; n-- {
				l := int(int32(binary.BigEndian.Uint32(b)))
				b = b[4:]
				if l < 0 {
					args = append(args, nil)
				} else {
					args = append(args, string(b[:l]))
					b = b[l:]
				}
			}
			if prep[st] == nil {
				fail(fmt.Errorf("no such statement"))
				continue
			}
			portals[po] = &portal{prep[st], args}
			p.msg('2', nil)
		case 'E':
			q := portals[cstr()]
			if q == nil {
				fail(fmt.Errorf("no such portal"))
				continue
			}
			if q.p.cols == nil {
				tag, e := p.command(x, q.p.sql)
				if e != nil {
					if !fail(e) {
						return
					}
					continue
				}
				p.msg('C', []byte(tag+"\x00"))
				continue
			}
			rs, e := x.query(q.p.sql, func(db *minidb.DB) (*resultSet, error) { return x.s.catalogQuery(db, q.p.sql, q.args) })
			if e != nil {
				if !fail(e) {
					return
				}
				continue
			}
			ok, failed := p.rows(rs)
			if !ok {
				p.w.Flush()
				return
			}
			skip = failed
		case 'C':
			if len(b) > 0 {
				k := b[0]
				b = b[1:]
				if k == 'S' {
					delete(prep, cstr())
				} else {
					delete(portals, cstr())
				}
			}
			p.msg('3', nil)
		default:
			return
		}
	}
}

// command runs a statement without a result.
func (p *pgConn) command(x *session, sql string) (string, error) {
	switch w := firstWord(sql); w {
	case "begin", "start":
		return x.tx("begin", sql)
	case "commit", "end":
		return x.tx("commit", sql)
	case "rollback", "abort":
		return x.tx("rollback", sql)
	case "set", "show", "reset":
		x.s.mu.Lock()
		x.event(Event{Kind: w, SQL: sql})
		x.s.mu.Unlock()
		return strings.ToUpper(w), nil
	}
	// a simple query may hold several statements
	l, err := minidb.SplitScript(minidb.PG, sql)
	if err != nil {
		l = []string{sql}
	}
	for _, st := range l {
		if err := x.exec(st); err != nil {
			return "", err
		}
	}
	return strings.ToUpper(strings.Join(strings.Fields(pgTagWords.FindString(sql)), " ")), nil
}

var pgTagWords = regexp.MustCompile(`(?i)\w+\s+\w+`)

func (p *pgConn) simple(x *session, sql string) bool {
	if w := firstWord(sql); w == "select" || w == "with" {
		rs, err := x.query(sql, func(db *minidb.DB) (*resultSet, error) { return x.s.catalogQuery(db, sql, nil) })
		if err == errDrop {
			p.w.Flush()
			return false
		}
		if err != nil {
			p.err(err.Error())
			return true
		}
		p.rowDesc(rs.cols)
		ok, _ := p.rows(rs)
		p.w.Flush()
		return ok
	}
	if strings.Trim(sql, "; \n\t") == "" {
		p.msg('I', nil)
		return true
	}
	tag, err := p.command(x, sql)
	if err == errDrop {
		p.w.Flush()
		return false
	}
	if err != nil {
		p.err(err.Error())
		return true
	}
	p.msg('C', []byte(tag+"\x00"))
	return true
}
