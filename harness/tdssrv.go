package main

import (
	"bufio"
	"database/sql"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"unicode/utf16"

	"verifharness/minidb"
)

// The Tabular Data Stream protocol of SQL Server, version 7.4 without encryption:
// login, batches, sp_executesql and transaction manager requests.

const (
	tdsBatch    = 1
	tdsRPC      = 3
	tdsReply    = 4
	tdsAttn     = 6
	tdsTM       = 14
	tdsLogin    = 16
	tdsPrelogin = 18
)

type tdsConn struct {
	c    net.Conn
	r    *bufio.Reader
	size int
	out  []byte
}

// read gives the next message, put together from its packets.
func (t *tdsConn) read() (byte, []byte, error) {
	var body []byte
	for {
		var h [8]byte
		if _, err := io.ReadFull(t.r, h[:]); err != nil {
			return 0, nil, err
		}
		n := int(binary.BigEndian.Uint16(h[2:]))
		if n < 8 {
			return 0, nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(t.r, b); err != nil {
			return 0, nil, err
		}
		body = append(body, b...)
		if h[1]&1 != 0 {
			return h[0], body, nil
		}
	}
}

// packets sends what has been collected; whole says that it is a complete message.
func (t *tdsConn) packets(whole bool) error {
	b := t.out
	t.out = nil
	for k := 1; ; k++ {
		n := t.size - 8
		last := len(b) <= n
		if last {
			n = len(b)
		}
		h := []byte{tdsReply, 0, 0, 0, 0, 0, byte(k), 0}
		if last && whole {
			h[1] = 1
		}
		binary.BigEndian.PutUint16(h[2:], uint16(n+8))
		if _, err := t.c.Write(append(h, b[:n]...)); err != nil {
			return err
		}
		b = b[n:]
		if last {
			return nil
		}
	}
}

func ucs2(s string) []byte {
	u := utf16.Encode([]rune(s))
	b := make([]byte, 2*len(u))
	for i, c := range u {
		binary.LittleEndian.PutUint16(b[2*i:], c)
	}
	return b
}

func fromUCS2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func le16(n int) []byte { return []byte{byte(n), byte(n >> 8)} }
func le32(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }
func le64(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return b
}

func bvar(s string) []byte { b := ucs2(s); return append([]byte{byte(len(b) / 2)}, b...) }

func (t *tdsConn) put(b ...byte) { t.out = append(t.out, b...) }

func (t *tdsConn) token(k byte, b []byte) {
	t.put(k)
	t.put(le16(len(b))...)
	t.put(b...)
}

func (t *tdsConn) done(status int) {
	t.put(0xFD)
	t.put(le16(status)...)
	t.put(le16(0)...)
	t.put(le64(0)...)
}

func (t *tdsConn) fail(n int, m string) {
	if len(m) > 1500 {
		m = m[:1500]
	}
	b := le32(n)
	b = append(b, 1, 16)
	u := ucs2(m)
	b = append(b, le16(len(u)/2)...)
	b = append(b, u...)
	b = append(b, bvar("standin")...)
	b = append(b, bvar("")...)
	b = append(b, le32(1)...)
	t.token(0xAA, b)
	t.done(2)
}

var tdsCollation = []byte{0x09, 0x04, 0xD0, 0x00, 0x34}

func (t *tdsConn) columns(cols []string) {
	t.put(0x81)
	t.put(le16(len(cols))...)
	for _, c := range cols {
		t.put(le32(0)...)
		t.put(le16(1)...) // nullable
		t.put(0xE7)
		t.put(le16(0xFFFF)...)
		t.put(tdsCollation...)
		t.put(bvar(c)...)
	}
}

func (t *tdsConn) row(r []interface{}) {
	t.put(0xD1)
	for _, v := range r {
		if v == nil {
			t.put(le64(1<<64 - 1)...)
			continue
		}
		b := ucs2(fmt.Sprint(v))
		t.put(le64(uint64(len(b)))...)
		if len(b) > 0 {
			t.put(le32(len(b))...)
			t.put(b...)
		}
		t.put(le32(0)...)
	}
}

// rows sends a result; false when the connection is to be dropped.
func (t *tdsConn) rows(rs *resultSet) bool {
	t.columns(rs.cols)
	for i, r := range rs.rows {
		if rs.cut == i {
			break
		}
		t.row(r)
	}
	if rs.cut >= 0 {
		if rs.drop {
			t.packets(false)
			return false
		}
		t.fail(50000, "injected failure while reading rows")
		return true
	}
	t.done(0x10)
	return true
}

func serveTDS(x *session, c net.Conn) {
	t := &tdsConn{c: c, r: bufio.NewReader(c), size: 4096}
	k, b, err := t.read()
	if err != nil || k != tdsPrelogin {
		return
	}
	// options: version, encryption (not supported)
	off := 5*2 + 1
	t.put(0, byte(off>>8), byte(off), 0, 6)
	t.put(1, byte((off+6)>>8), byte(off+6), 0, 1)
	t.put(0xFF)
	t.put(15, 0, 0x07, 0xD0, 0, 0)
	t.put(2)
	if t.packets(true) != nil {
		return
	}
	k, b, err = t.read()
	if err != nil || k != tdsLogin || len(b) < 94 {
		return
	}
	str := func(at int) []byte {
		o, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
		if o+2*n > len(b) {
			return nil
		}
		return b[o : o+2*n]
	}
	pw := append([]byte(nil), str(44)...)
	for i, ch := range pw {
		ch ^= 0xA5
		pw[i] = ch<<4 | ch>>4
	}
	db := fromUCS2(str(68))
	l := Login{User: fromUCS2(str(40)), Database: db, PasswordOK: func(p string) bool { return fromUCS2(pw) == p },
		Extra: map[string]string{"hostname": fromUCS2(str(36)), "app": fromUCS2(str(48)), "server": fromUCS2(str(52))}}
	err = x.login(l)
	if err == errDrop {
		return
	}
	if err != nil {
		t.fail(18456, "Login failed: "+err.Error())
		t.packets(true)
		return
	}
	e := append([]byte{1}, bvar(db)...)
	t.token(0xE3, append(e, bvar("master")...))
	ack := []byte{1, 0x74, 0, 0, 4}
	ack = append(ack, bvar("Microsoft SQL Server")...)
	t.token(0xAD, append(ack, 15, 0, 7, 0xD0))
	t.done(0)
	if t.packets(true) != nil {
		return
	}
	tranid := uint64(x.id) << 8
	for {
		k, b, err := t.read()
		if err != nil {
			return
		}
		if k == tdsAttn {
			t.done(0x20)
			if t.packets(true) != nil {
				return
			}
			continue
		}
		if k != tdsBatch && k != tdsRPC && k != tdsTM || len(b) < 4 {
			return
		}
		h := int(binary.LittleEndian.Uint32(b))
		if h < 4 || h > len(b) {
			return
		}
		b = b[h:]
		switch k {
		case tdsBatch:
			if !t.batch(x, fromUCS2(b), nil) {
				return
			}
		case tdsRPC:
			sql, args, err := tdsParams(b)
			if err != nil {
				x.s.mu.Lock()
				x.s.unknown = append(x.s.unknown, err.Error())
				x.s.mu.Unlock()
				t.fail(50000, err.Error())
				break
			}
			if !t.batch(x, sql, args) {
				return
			}
		case tdsTM:
			if len(b) < 2 {
				return
			}
			kind := map[uint16]string{5: "begin", 7: "commit", 8: "rollback"}[binary.LittleEndian.Uint16(b)]
			if kind == "" {
				t.fail(50000, "unknown transaction manager request")
				break
			}
			_, err := x.tx(kind, kind)
			if err == errDrop {
				return
			}
			if err != nil {
				t.fail(50000, err.Error())
				break
			}
			if kind == "begin" {
				tranid++
				e := append([]byte{8, 8}, le64(tranid)...)
				t.token(0xE3, append(e, 0))
			} else {
				e := []byte{9, 0, 8}
				if kind == "rollback" {
					e[0] = 10
				}
				t.token(0xE3, append(e, le64(tranid)...))
			}
			t.done(0)
		}
		if t.packets(true) != nil {
			return
		}
	}
}

// batch runs the statements of a batch; false when the connection is to be dropped.
func (t *tdsConn) batch(x *session, text string, args []interface{}) bool {
	if w := firstWord(text); w == "select" || w == "with" {
		rs, err := x.query(text, func(db *minidb.DB) (*resultSet, error) { return x.s.catalogQuery(db, text, args) })
		if err == errDrop {
			return false
		}
		if err != nil {
			t.fail(208, err.Error())
			return true
		}
		return t.rows(rs)
	}
	switch w := firstWord(text); w {
	case "set", "use", "print":
		x.s.mu.Lock()
		x.event(Event{Kind: w, SQL: text})
		x.s.mu.Unlock()
		t.done(0)
		return true
	case "begin", "commit", "rollback":
		if w != "begin" || strings.Contains(strings.ToLower(text), "tran") {
			if _, err := x.tx(w, text); err == errDrop {
				return false
			} else if err != nil {
				t.fail(50000, err.Error())
				return true
			}
			t.done(0)
			return true
		}
	}
	if err := x.exec(text); err == errDrop {
		return false
	} else if err != nil {
		t.fail(102, err.Error())
		return true
	}
	t.done(0)
	return true
}

// tdsParams reads a call of sp_executesql.
func tdsParams(b []byte) (string, []interface{}, error) {
	bad := fmt.Errorf("stand-in server: cannot read the procedure call")
	if len(b) < 6 || binary.LittleEndian.Uint16(b) != 0xFFFF || binary.LittleEndian.Uint16(b[2:]) != 10 {
		return "", nil, bad
	}
	b = b[6:]
	take := func(n int) []byte {
		if n < 0 || n > len(b) {
			panic(bad)
		}
		v := b[:n]
		b = b[n:]
		return v
	}
	var text string
	var args []interface{}
	err := func() (err error) {
		defer func() {
			if recover() != nil {
				err = bad
			}
		}()
		for i := 0; len(b) > 0; i++ {
			name := strings.TrimPrefix(fromUCS2(take(2*int(take(1)[0]))), "@")
			take(1)
			var v interface{}
			switch ty := take(1)[0]; ty {
			case 0xE7:
				max := int(binary.LittleEndian.Uint16(take(2)))
				take(5)
				if max != 0xFFFF {
					if n := int(binary.LittleEndian.Uint16(take(2))); n != 0xFFFF {
						v = fromUCS2(take(n))
					}
				} else if n := binary.LittleEndian.Uint64(take(8)); n != 1<<64-1 {
					var s []byte
					for {
						k := int(binary.LittleEndian.Uint32(take(4)))
						if k == 0 {
							break
						}
						s = append(s, take(k)...)
					}
					v = fromUCS2(s)
				}
			case 0x26, 0x68:
				take(1)
				n := int(take(1)[0])
				var u uint64
				for j, c := range take(n) {
					u |= uint64(c) << (8 * j)
				}
				if n > 0 {
					v = int64(u)
				}
			default:
				return fmt.Errorf("stand-in server: parameter of type %#x", ty)
			}
			switch {
			case i == 0:
				text, _ = v.(string)
			case i > 1:
				args = append(args, sql.Named(name, v))
			}
		}
		return nil
	}()
	return text, args, err
}
