package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/minidb"
)

// Event is one request the stand-in server received from the real tool, with what it did.
type Event struct {
	Conn    int
	Kind    string // login, begin, commit, rollback, exec, query, close
	SQL     string
	Err     string
	Faulted bool
	InTx    bool
	Eff     *minidb.Effect
}

func (e Event) String() string {
	s := fmt.Sprintf("conn%d %s %q", e.Conn, e.Kind, e.SQL)
	if e.Err != "" {
		s += " -> error: " + e.Err
	}
	if e.Faulted {
		s += " (injected)"
	}
	return s
}

// Fault is one planned failure: the N-th request of a kind fails.
type Fault struct {
	Kind string // login, begin, commit, exec, query
	N    int
	How  string // error, drop (before executing), drop-after (executed, answer lost), rows (result cut halfway)
}

// Login is what a client presented when connecting.
type Login struct {
	User, Database string
	PasswordOK     func(pw string) bool
	Addr           string // listener the client chose
	Extra          map[string]string
}

// Server is a stand-in database server speaking the real wire protocol.
type Server struct {
	D       minidb.Dialect
	mu      sync.Mutex
	db      *minidb.DB
	events  []Event
	logins  []Login
	fault   *Fault
	counts  map[string]int
	shuffle *rand.Rand // permutes listings
	nconn   int
	open    map[net.Conn]bool
	lns     []net.Listener
	Port    int
	Socket  string
	unknown []string // queries the stand-in could not evaluate
	cat     *catalog
	wg      sync.WaitGroup
}

var errDrop = errors.New("drop connection")

// newBareServer makes one that listens nowhere yet.
func newBareServer(d minidb.Dialect, name string) *Server {
	return &Server{D: d, db: minidb.New(d, name), counts: map[string]int{}, open: map[net.Conn]bool{}}
}

// NewServer starts a server on a free loopback port (and optionally a unix socket).
func NewServer(d minidb.Dialect, name, socket string) *Server {
	s := newBareServer(d, name)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.Port = ln.Addr().(*net.TCPAddr).Port
	s.lns = append(s.lns, ln)
	go s.accept(ln, "tcp")
	if socket != "" {
		s.listenUnix(socket)
	}
	return s
}

func (s *Server) listenUnix(socket string) {
	os.Remove(socket)
	ul, err := net.Listen("unix", socket)
	if err != nil {
		panic(err)
	}
	s.Socket = socket
	s.lns = append(s.lns, ul)
	go s.accept(ul, "unix:"+socket)
}

func (s *Server) listenTCP(addr string) (int, error) {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return 0, err
	}
	s.lns = append(s.lns, ln)
	go s.accept(ln, "tcp:"+addr)
	return ln.Addr().(*net.TCPAddr).Port, nil
}

func (s *Server) accept(ln net.Listener, addr string) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		s.nconn++
		id := s.nconn
		s.open[c] = true
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			sess := &session{s: s, id: id, addr: addr}
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.mu.Lock()
						s.unknown = append(s.unknown, fmt.Sprintf("server panic: %v", r))
						s.mu.Unlock()
					}
				}()
				c.SetDeadline(time.Now().Add(110 * time.Second))
				switch s.D {
				case minidb.MySQL:
					serveMySQL(sess, c)
				case minidb.PG:
					servePG(sess, c)
				case minidb.MSSQL:
					serveTDS(sess, c)
				}
			}()
			c.Close()
			sess.end()
			s.mu.Lock()
			delete(s.open, c)
			s.mu.Unlock()
		}()
	}
}

// Close stops the server.
func (s *Server) Close() {
	for _, l := range s.lns {
		l.Close()
	}
	s.mu.Lock()
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	if s.cat != nil {
		s.cat.db.Close()
	}
}

// idle waits until every connection of a finished tool has been torn down.
func (s *Server) idle() {
	for i := 0; i < 2000; i++ {
		s.mu.Lock()
		n := len(s.open)
		s.mu.Unlock()
		if n == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
	s.mu.Lock()
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

// begin a new observation.
func (s *Server) reset(f *Fault) {
	s.mu.Lock()
	s.events, s.logins, s.fault, s.counts, s.unknown = nil, nil, f, map[string]int{}, nil
	s.mu.Unlock()
}

// session is one client connection.
type session struct {
	s      *Server
	id     int
	addr   string
	inTx   bool
	failed bool // PG: transaction aborted
	snap   *minidb.DB
	lostTx bool // the connection was cut during a transaction
	closed bool
}

type resultSet struct {
	cols []string
	rows [][]interface{} // string, int64, bool, nil
	cut  int             // >=0: fail after that many rows
	drop bool
}

func (x *session) event(e Event) {
	e.Conn = x.id
	e.InTx = x.inTx
	x.s.events = append(x.s.events, e)
}

// hit says which fault applies to this request.
func (x *session) hit(kind string) string {
	n := x.s.counts[kind]
	x.s.counts[kind] = n + 1
	if f := x.s.fault; f != nil && f.Kind == kind && f.N == n {
		return f.How
	}
	return ""
}

func (x *session) login(l Login) error {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	l.Addr = x.addr
	x.s.logins = append(x.s.logins, l)
	h := x.hit("login")
	e := Event{Kind: "login", SQL: l.User + "@" + l.Database}
	switch h {
	case "error":
		e.Err, e.Faulted = "access denied", true
		x.event(e)
		return errors.New("access denied")
	case "drop", "drop-after", "rows":
		e.Faulted = true
		x.event(e)
		return errDrop
	}
	x.event(e)
	return nil
}

func (x *session) restore() {
	if x.snap != nil {
		v := x.s.db.Version
		*x.s.db = *x.snap
		x.s.db.Version = v + 1
		x.snap = nil
	}
}

// lose rolls back at once, so that what another connection does afterwards stays.
func (x *session) lose() error {
	if x.inTx {
		x.restore()
		x.lostTx = true
	}
	x.inTx = false
	return errDrop
}

// end rolls back what a vanished client left open.
func (x *session) end() {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	x.lose()
	if x.lostTx {
		x.event(Event{Kind: "close", SQL: "with an open transaction"})
	} else {
		x.event(Event{Kind: "close"})
	}
	x.inTx = false
}

// tx handles begin, commit and rollback. tag is what was really done.
func (x *session) tx(kind, sql string) (tag string, err error) {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	e := Event{Kind: kind, SQL: sql}
	h := x.hit(kind)
	if h == "error" || h == "drop" {
		e.Faulted = true
		if h == "error" {
			e.Err = "injected failure"
			err = errors.New(e.Err)
		} else {
			err = errDrop
			defer x.lose()
		}
		x.event(e)
		if kind == "commit" && h == "error" { // a failed commit rolls back
			x.restore()
			x.inTx, x.failed = false, false
		}
		return "", err
	}
	switch kind {
	case "begin":
		x.event(e)
		if !x.inTx {
			x.inTx, x.failed, x.lostTx = true, false, false
			if x.s.D != minidb.MySQL {
				x.snap = x.s.db.Clone()
			}
		}
		tag = "BEGIN"
	case "commit":
		tag = "COMMIT"
		if x.failed {
			x.restore()
			tag = "ROLLBACK"
		}
		x.snap = nil
		x.event(e)
		x.inTx, x.failed = false, false
	case "rollback":
		x.restore()
		x.event(e)
		x.inTx, x.failed = false, false
		tag = "ROLLBACK"
	}
	if h == "drop-after" {
		x.s.events[len(x.s.events)-1].Faulted = true
		return tag, x.lose()
	}
	return tag, nil
}

// exec runs a statement that changes the schema.
func (x *session) exec(sql string) error {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	e := Event{Kind: "exec", SQL: sql}
	h := x.hit("exec")
	if h == "error" || h == "drop" {
		e.Faulted = true
		x.failed = x.inTx
		if h == "error" {
			e.Err = "injected failure"
			x.event(e)
			return errors.New(e.Err)
		}
		x.event(e)
		return x.lose()
	}
	if x.inTx && x.failed && x.s.D == minidb.PG {
		e.Err = "current transaction is aborted, commands ignored until end of transaction block"
		x.event(e)
		return errors.New(e.Err)
	}
	eff, err := x.s.db.Exec(sql)
	if err != nil {
		e.Err = err.Error()
		x.failed = x.inTx
	}
	e.Eff = eff
	if h == "drop-after" {
		e.Faulted = true
		x.event(e)
		return x.lose()
	}
	x.event(e)
	return err
}

// query answers a listing.
func (x *session) query(sql string, f func(db *minidb.DB) (*resultSet, error)) (*resultSet, error) {
	x.s.mu.Lock()
	defer x.s.mu.Unlock()
	e := Event{Kind: "query", SQL: sql}
	h := x.hit("query")
	if h == "error" || h == "drop" || h == "drop-after" {
		e.Faulted = true
		if h == "error" {
			e.Err = "injected failure"
			x.event(e)
			return nil, errors.New(e.Err)
		}
		x.event(e)
		return nil, x.lose()
	}
	rs, err := f(x.s.db)
	if err != nil {
		e.Err = err.Error()
		x.event(e)
		return nil, err
	}
	rs.cut = -1
	if x.s.shuffle != nil && !(x.s.D == minidb.MSSQL && inIndexOrder.MatchString(sql)) && !orderBy.MatchString(sql) {
		x.s.shuffle.Shuffle(len(rs.rows), func(i, j int) { rs.rows[i], rs.rows[j] = rs.rows[j], rs.rows[i] })
	}
	if h == "rows" || h == "rows-drop" {
		e.Faulted = true
		rs.cut = len(rs.rows) / 2
		rs.drop = h == "rows-drop"
		e.Err = fmt.Sprintf("result cut after %d of %d rows", rs.cut, len(rs.rows))
	}
	x.event(e)
	return rs, nil
}

// listings that SQL Server gives in the order of its system tables
var inIndexOrder = regexp.MustCompile(`(?i)\bsys\.(columns|index_columns|foreign_key_columns)\b`)

var orderBy = regexp.MustCompile(`(?i)\border\s+by\b`)

// snapshot of the observation after the tool has ended
type observation struct {
	Events  []Event
	Logins  []Login
	Unknown []string
	Objects map[string]string
	Order   map[string]string
	IDs     map[string]int
	Version int
}

func (s *Server) observe() *observation {
	s.idle()
	s.mu.Lock()
	defer s.mu.Unlock()
	return &observation{Events: append([]Event(nil), s.events...), Logins: append([]Login(nil), s.logins...), Unknown: append([]string(nil), s.unknown...),
		Objects: s.db.Objects(), Order: s.db.ColumnOrder(), IDs: s.db.Identities(), Version: s.db.Version}
}

// execs are the statements that ran (or were tried), in order.
func (o *observation) execs() []Event {
	var out []Event
	for _, e := range o.Events {
		if e.Kind == "exec" {
			out = append(out, e)
		}
	}
	return out
}

func (o *observation) log() []string {
	var out []string
	for _, e := range o.Events {
		if e.Kind == "query" && e.Err == "" {
			continue
		}
		out = append(out, e.String())
	}
	return out
}

func sortedKeys(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
		i++
	}
	return strings.ToLower(s[:i])
}
