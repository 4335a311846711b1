package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verifharness/minidb"
)

// C19: what the client presents at login, and where it goes, against what was given.

func init() { register("C19", "exploration", checkC19) }

// only one case at a time may use the default ports
var defaultPorts sync.Mutex

var nastyValues = []string{
	"a b", " lead", "trail ", "p@ss", "a:b", "a/b", "/", "a?b", "?x=1", "a#b", "a%b", "%41", "100%", "a+b", "+", "a&b=c", "k=v", ";", "a;b",
	"'", "a'b", `"`, `a"b`, "`", "a`b", "{}", "{a;b}", "[x]", "(x)", "a)b", "tcp(127.0.0.1:1)", "$HOME", "!", "~", "^", "|", "<>", "*", ",",
	"ü", "日本語", "😀", "é\u0301", "\t", "a\tb", "a\nb", "\u00a0", "@", "@@", ":", "::", "u:p@h", "u:p@tcp(h:1)/d?x=y", "sslmode=disable", "host=x", "database=other", "server=127.0.0.9",
	"?parseTime=true&multiStatements=true", "x&database=master", "x;database=master", "%2F", "%00", "%", "..", ".", "../x", "0", "1", "null", "UPPER", "MixedCase", `"quoted"`, `"a\nb"`, `'single'`, "a\u2028b", "#", "--", "/*x*/",
	`a\b`, `\`, `\\`, `a\`, `a\'b`, "long" + strings.Repeat("x", 60),
}

const nastyChars = "abcXYZ019 @:/?#%&=+'\"`;,.<>{}[]()|!$^*~_-\t\nüñ日😀\\"

func nasty(g *rand.Rand, d minidb.Dialect, what string) string {
	for {
		s := pick(g, nastyValues)
		if chance(g, 1, 2) {
			rs := []rune(nastyChars)
			var b strings.Builder
			for n := 1 + g.Intn(10); n > 0; n-- {
				b.WriteRune(rs[g.Intn(len(rs))])
			}
			s = b.String()
		}
		if strings.HasPrefix(s, "-") && what == "db" {
			continue // would be an option
		}
		if d == minidb.MSSQL && what == "user" && strings.Contains(s, `\`) {
			continue // asks for Windows authentication
		}
		if d == minidb.MSSQL && strings.Contains(s, "😀") {
			continue // cut short by the driver: checked on its own
		}
		return s
	}
}

// a place where the tool can be told to go
type endpoint struct {
	host string // as given
	addr string // "tcp:..." or "unix:..." as recorded by the server
}

func checkC19(r *Run) {
	r.rule = "one case is one run of a real tool against stand-in servers; counted as distinct by tool, values, the way they were given and the endpoint"
	r.assume = []string{"values contain no NUL (impossible in arguments)", "empty user, host or database names are left out", "users with a backslash are left out for SQL Server (they select Windows authentication)"}
	for _, d := range []minidb.Dialect{minidb.MySQL, minidb.PG, minidb.MSSQL} {
		d := d
		r.Cases(dname[d]+"-login", r.N(220, 4000), func(id string, g *rand.Rand) { r.loginCase(d, id, g) })
		r.Cases(dname[d]+"-defaults", r.N(12, 60), func(id string, g *rand.Rand) { r.defaultsCase(d, id, g) })
		r.Cases(dname[d]+"-prompt", r.N(12, 150), func(id string, g *rand.Rand) { r.promptCase(d, id, g) })
		var l []string
		for _, v := range nastyValues {
			l = append(l, dname[d]+"-each:"+v)
		}
		r.CaseList(l, func(id string, g *rand.Rand) { r.eachCase(d, id, strings.TrimPrefix(id, dname[d]+"-each:")) })
	}
	r.Cases("postgres-sslmode", r.N(30, 200), r.sslCase)
}

// options spells settings on the command line.
type loginOpt struct{ short, long string }

var loginOpts = map[minidb.Dialect]map[string]loginOpt{
	minidb.MySQL: {"user": {"-u", "--user"}, "password": {"-p", "--password"}, "host": {"-h", "--host"}, "port": {"-P", "--port"}, "socket": {"-S", "--socket"}},
	minidb.PG:    {"user": {"-U", "--user"}, "password": {"-W", "--password"}, "host": {"-h", "--host"}, "port": {"-p", "--port"}},
	minidb.MSSQL: {"user": {"-U", "--user"}, "password": {"-P", "--password"}, "host": {"-h", "--host"}, "port": {"-p", "--port"}},
}

var passwordEnv = map[minidb.Dialect]string{minidb.MySQL: "MYSQL_PWD", minidb.PG: "PGPASSWORD", minidb.MSSQL: "MSSQL_PWD"}

func loginArg(g *rand.Rand, o loginOpt, v string) []string {
	for {
		switch g.Intn(4) {
		case 0:
			if v != "" && !strings.HasPrefix(v, "-") {
				return []string{o.short, v}
			}
		case 1:
			if v != "" && !strings.HasPrefix(v, "=") {
				return []string{o.short + v}
			}
		case 2:
			return []string{o.long + "=" + v}
		case 3:
			if v != "" && !strings.HasPrefix(v, "-") {
				return []string{o.long, v}
			}
		}
	}
}

// settings of one run and what the login has to show
type loginPlan struct {
	user, password, db string
	args, env          []string
	ep                 endpoint
}

func (r *Run) judgeLogin(d minidb.Dialect, id string, p *loginPlan, o Out, srv *Server, decoys []*Server, want string) bool {
	data := map[string]interface{}{"args": p.args, "env": p.env, "user": p.user, "password": p.password, "database": p.db, "endpoint": p.ep.addr, "output": o.String()}
	bad := func(kind, what string) bool {
		if strings.Contains(id, "-each:") && r.Known(id, what) {
			return false
		}
		r.Violation(kind, id, what, data)
		return false
	}
	for _, s := range append([]*Server{srv}, decoys...) {
		s.idle()
		s.mu.Lock()
		un := append([]string(nil), s.unknown...)
		s.mu.Unlock()
		if len(un) > 0 {
			r.Inconclusive("%s: %s", id, un[0])
			return false
		}
	}
	for i, s := range decoys {
		s.mu.Lock()
		n := s.nconn
		s.mu.Unlock()
		if n > 0 {
			return bad("other-server", fmt.Sprintf("another server was contacted (decoy %d)", i))
		}
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	var got []string
	for _, l := range srv.logins {
		got = append(got, fmt.Sprintf("user %q database %q password ok %v at %s", l.User, l.Database, l.PasswordOK(p.password), l.Addr))
	}
	data["logins"] = got
	r.Count("logins checked", len(srv.logins))
	if o.Crashed() || o.Hung {
		return bad("crash", "the tool crashed or hung: "+o.String())
	}
	if len(srv.logins) == 0 {
		return bad("no-login", "the server named was not reached: "+o.String())
	}
	for i, l := range srv.logins {
		switch {
		case l.User != p.user:
			return bad("user", fmt.Sprintf("user %q was presented as %q", p.user, l.User))
		case l.Database != p.db:
			return bad("database", fmt.Sprintf("database %q was asked for as %q", p.db, l.Database))
		case !l.PasswordOK(p.password):
			return bad("password", fmt.Sprintf("the password presented is not %q", p.password))
		case l.Addr != p.ep.addr:
			return bad("endpoint", fmt.Sprintf("the server was reached at %s instead of %s: %s", l.Addr, p.ep.addr, got[i]))
		}
	}
	if o.Code != 0 || !strings.Contains(o.Stdout, want) {
		return bad("result", fmt.Sprintf("the run does not succeed (%q expected): %s", want, o.String()))
	}
	return true
}

func (r *Run) decoy(d minidb.Dialect, addr string) *Server {
	s := newBareServer(d, "testdb")
	if _, err := s.listenTCP(addr); err != nil {
		s.Close()
		return nil
	}
	return s
}

func freePort(host string) int {
	ln, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		return 0
	}
	defer ln.Close()
	return ln.Addr().(*net.TCPAddr).Port
}

// loginCase: everything random.
func (r *Run) loginCase(d minidb.Dialect, id string, g *rand.Rand) {
	p := &loginPlan{user: nasty(g, d, "user"), password: nasty(g, d, "password"), db: nasty(g, d, "db")}
	for _, v := range []*string{&p.user, &p.db} { // one thing at a time in half of the cases
		if chance(g, 1, 2) {
			*v = pickN(g, "testdb", "app", "root")
		}
	}
	if chance(g, 1, 10) {
		p.password = ""
	}
	r.runLogin(d, id, g, p)
}

func (r *Run) eachCase(d minidb.Dialect, id, v string) {
	g := rand.New(rand.NewSource(int64(len(v)) * 7919))
	for i, p := range []*loginPlan{{v, "x", "testdb", nil, nil, endpoint{}}, {"root", v, "testdb", nil, nil, endpoint{}}, {"root", "x", v, nil, nil, endpoint{}}} {
		if i == 0 && d == minidb.MSSQL && strings.Contains(v, `\`) || i == 2 && strings.HasPrefix(v, "-") {
			continue
		}
		r.runLogin(d, id, g, p)
	}
}

func (r *Run) runLogin(d minidb.Dialect, id string, g *rand.Rand, p *loginPlan) {
	dir := r.TempDir()
	srv := newBareServer(d, p.db)
	defer srv.Close()
	var decoys []*Server
	defer func() {
		for _, s := range decoys {
			s.Close()
		}
	}()
	decoy := func(addr string) {
		if s := r.decoy(d, addr); s != nil {
			decoys = append(decoys, s)
			r.Count("decoy servers listening", 1)
		}
	}
	opts := loginOpts[d]
	port := 0
	listen := func(host, given string) bool {
		for try := 0; try < 20; try++ {
			n, err := srv.listenTCP(net.JoinHostPort(host, "0"))
			if err == nil {
				port = n
				p.ep = endpoint{given, "tcp:" + net.JoinHostPort(host, "0")}
				return true
			}
			time.Sleep(time.Millisecond)
		}
		return false
	}
	var args, env []string
	where := pickN(g, "v4", "v4", "v4", "v4b", "name", "v6", "socket")
	if where == "socket" && d == minidb.MSSQL {
		where = "v4"
	}
	switch where {
	case "v4":
		listen("127.0.0.1", "127.0.0.1")
	case "v4b":
		listen("127.0.0.2", "127.0.0.2")
	case "name":
		listen("127.0.0.1", "localhost")
	case "v6":
		if !listen("::1", "::1") {
			where = "v4"
			listen("127.0.0.1", "127.0.0.1")
		}
	case "socket":
		sub := filepath.Join(dir, pickN(g, "s", "my sock", "s@t", "a:b", "a?b", "a%41", "ü", "a+b", "a#b", "(x)", "a)b", "a&host=x", "a=b", "a'b"))
		os.MkdirAll(sub, 0o755)
		port = 1024 + g.Intn(60000)
		path := filepath.Join(sub, fmt.Sprintf(".s.PGSQL.%d", port))
		given := sub
		if d == minidb.MySQL {
			path = filepath.Join(sub, pickN(g, "mysql.sock", "my.sock", "a b"))
			given = path
		}
		if len(path) > 100 {
			return
		}
		srv.listenUnix(path)
		p.ep = endpoint{given, "unix:" + path}
	}
	r.Count("endpoint "+where, 1)
	// servers that must not be contacted
	if where != "socket" {
		for _, h := range []string{"127.0.0.1", "127.0.0.2", "::1"} {
			if "tcp:"+net.JoinHostPort(h, "0") != p.ep.addr && !(where == "name" && h == "::1") {
				decoy(net.JoinHostPort(h, fmt.Sprint(port)))
			}
		}
	} else {
		decoy(fmt.Sprintf("127.0.0.1:%d", port))
	}
	elsewhere := r.decoy(d, "127.0.0.1:0")
	var other string
	if elsewhere != nil {
		decoys = append(decoys, elsewhere)
		elsewhere.mu.Lock()
		other = fmt.Sprint(elsewhere.lns[0].Addr().(*net.TCPAddr).Port)
		elsewhere.mu.Unlock()
	}
	// the settings in random order
	set := func(k, v string) { args = append(args, "\x00"+strings.Join(loginArg(g, opts[k], v), "\x01")) }
	def := map[minidb.Dialect]string{minidb.MySQL: "root", minidb.PG: "postgres", minidb.MSSQL: "sa"}[d]
	if p.user != def || chance(g, 1, 2) {
		set("user", p.user)
	}
	switch {
	case where == "socket" && d == minidb.MySQL:
		set("socket", p.ep.host)
		if chance(g, 1, 2) && other != "" { // the socket wins
			set("port", other)
		}
	default:
		if p.ep.host != "127.0.0.1" || chance(g, 1, 2) {
			set("host", p.ep.host)
		}
		set("port", fmt.Sprint(port))
	}
	switch g.Intn(4) {
	case 0: // only the environment
		env = append(env, passwordEnv[d]+"="+p.password)
	case 1: // the environment wins, even when it is empty
		env = append(env, passwordEnv[d]+"="+p.password)
		set("password", nasty(g, d, "password"))
	default:
		if p.password != "" || chance(g, 1, 2) {
			set("password", p.password)
		}
	}
	if d == minidb.PG {
		env = append(env, "PGSSLMODE=disable")
		if chance(g, 1, 2) && other != "" { // what libpq would take from there
			env = append(env, "PGHOST=127.0.0.1", "PGPORT="+other, "PGUSER=nobody", "PGDATABASE=elsewhere")
		}
	} else if chance(g, 1, 3) {
		env = append(env, "MYSQL_HOST=127.0.0.1", "MYSQL_TCP_PORT="+other, "PGPASSWORD=no", "USER=nobody")
	}
	// a file of the host's name is no reason to go elsewhere
	cwd := filepath.Join(dir, "cwd")
	os.MkdirAll(cwd, 0o755)
	if chance(g, 1, 4) && !strings.Contains(p.ep.host, "/") {
		os.WriteFile(filepath.Join(cwd, p.ep.host), []byte("x"), 0o644)
		r.Count("file named like the host", 1)
	}
	mode := g.Intn(3)
	script := "CREATE TABLE users (id bigint NOT NULL);\n"
	want := "CREATE TABLE users"
	switch mode {
	case 0:
		args = append(args, "\x00--export")
		want = "-- No table exists --"
	case 1:
		args = append(args, "\x00--dry-run")
	}
	args = append(args, "\x00"+p.db)
	g.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	for _, a := range args {
		p.args = append(p.args, strings.Split(a[1:], "\x01")...)
	}
	p.env = env
	o := r.Tool(toolName(d), p.args, script, env, cwd)
	r.Eval(fmt.Sprintf("%d %q %q %s", d, p.args, env, where), true)
	r.State("presented values", p.user+"\x00"+p.password+"\x00"+p.db)

	if r.judgeLogin(d, id, p, o, srv, decoys, want) && mode == 2 {
		srv.mu.Lock()
		n := len(srv.db.Tables)
		srv.mu.Unlock()
		if n != 1 {
			r.Violation("result", id, "the table was not created in the database named", map[string]interface{}{"args": p.args, "output": o.String()})
		}
	}
}

// defaultsCase: nothing but the database is given.
func (r *Run) defaultsCase(d minidb.Dialect, id string, g *rand.Rand) {
	defaultPorts.Lock()
	defer defaultPorts.Unlock()
	port := map[minidb.Dialect]int{minidb.MySQL: 3306, minidb.PG: 5432, minidb.MSSQL: 1433}[d]
	p := &loginPlan{user: map[minidb.Dialect]string{minidb.MySQL: "root", minidb.PG: "postgres", minidb.MSSQL: "sa"}[d], db: pickN(g, "testdb", "x")}
	srv := newBareServer(d, p.db)
	defer srv.Close()
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	if _, err := srv.listenTCP(addr); err != nil {
		r.Count("default port in use: case left out", 1)
		return
	}
	p.ep = endpoint{"127.0.0.1", "tcp:" + addr}
	var decoys []*Server
	for _, a := range []string{fmt.Sprintf("127.0.0.2:%d", port), fmt.Sprintf("[::1]:%d", port)} {
		if s := r.decoy(d, a); s != nil {
			defer s.Close()
			decoys = append(decoys, s)
		}
	}
	if d == minidb.PG {
		p.env = append(p.env, "PGSSLMODE=disable")
	}
	switch g.Intn(3) {
	case 0:
		p.password = nasty(g, d, "password")
		p.env = append(p.env, passwordEnv[d]+"="+p.password)
	case 1:
		p.password = nasty(g, d, "password")
		p.args = append(p.args, loginArg(g, loginOpts[d]["password"], p.password)...)
	}
	p.args = append(p.args, "--export", p.db)
	o := r.Tool(toolName(d), p.args, "", p.env, r.TempDir())
	r.Eval(fmt.Sprintf("%d %q %q default", d, p.args, p.env), true)
	r.Count("endpoint default", 1)
	r.judgeLogin(d, id, p, o, srv, decoys, "-- No table exists --")
}

// promptCase: the password is typed at a terminal.
func (r *Run) promptCase(d minidb.Dialect, id string, g *rand.Rand) {
	p := &loginPlan{user: "root", db: "testdb", password: strings.NewReplacer("\n", "", "\t", "", "\u2028", "").Replace(nasty(g, d, "password"))}
	if p.password == "" {
		return
	}
	srv := newBareServer(d, p.db)
	defer srv.Close()
	port, err := srv.listenTCP("127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p.ep = endpoint{"127.0.0.1", "tcp:127.0.0.1:0"}
	p.args = []string{loginOpts[d]["user"].short, "root", loginOpts[d]["port"].short, fmt.Sprint(port), "--password-prompt", "--export", "testdb"}
	if d == minidb.PG {
		p.env = append(p.env, "PGSSLMODE=disable")
	}
	if chance(g, 1, 2) { // the prompt is forced
		p.env = append(p.env, passwordEnv[d]+"=not this")
	}
	if chance(g, 1, 2) {
		p.args = append(p.args, loginOpts[d]["password"].long+"=nor this")
	}
	o, err := runOnTerminal(filepath.Join(r.Bin, toolName(d)), p.args, "Enter Password: ", p.password+"\n", p.env, r.TempDir(), 60*time.Second)
	if err != nil {
		r.Count("no terminal: case left out", 1)
		return
	}
	r.Eval(fmt.Sprintf("%d %q %q prompt %q", d, p.args, p.env, p.password), true)
	r.Count("passwords typed at a terminal", 1)
	if strings.Contains(o.Stdout, p.password) && len(p.password) > 3 && !strings.Contains("Enter Password: -- No table exists --", p.password) {
		r.Violation("echo", id, "the typed password is shown: "+o.String(), map[string]interface{}{"args": p.args})
		return
	}
	r.judgeLogin(d, id, p, o, srv, nil, "-- No table exists --")
}

// sslCase: PGSSLMODE is obeyed; a server without TLS is not given anything when TLS is asked for.
func (r *Run) sslCase(id string, g *rand.Rand) {
	srv := newBareServer(minidb.PG, "testdb")
	defer srv.Close()
	port, err := srv.listenTCP("127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	mode := pickN(g, "disable", "require", "verify-ca", "verify-full", "", "disable&host=127.0.0.9", "require&sslmode=disable", "disable&dbname=other", "disable&user=x", "disa%62le")
	env := []string{"PGSSLMODE=" + mode}
	if mode == "" {
		env = nil
	}
	if strings.HasPrefix(mode, "verify") && chance(g, 1, 2) {
		env = append(env, "PGSSLROOTCERT="+pickN(g, "/nonexistent/ca.pem", "/nonexistent&sslmode=disable", "x&sslmode=disable"))
	}
	args := []string{"-U", "postgres", "-p", fmt.Sprint(port), "--password=secret word", "--export", "testdb"}
	o := r.Tool("psqldef", args, "", env, r.TempDir())
	r.Eval(fmt.Sprint(env, "ssl"), true)
	srv.idle()
	srv.mu.Lock()
	defer srv.mu.Unlock()
	data := map[string]interface{}{"env": env, "args": args, "output": o.String()}
	if mode == "disable" {
		if len(srv.logins) == 0 || o.Code != 0 {
			r.Violation("ssl-disable", id, "PGSSLMODE=disable does not connect: "+o.String(), data)
		}
		return
	}
	r.Count("plaintext logins that must not happen", 1)
	if len(srv.logins) > 0 {
		r.Violation("ssl-ignored", id, fmt.Sprintf("PGSSLMODE=%q: logged in without TLS as %q to %q", mode, srv.logins[0].User, srv.logins[0].Database), data)
	} else if o.Code == 0 || o.Stderr == "" {
		r.Violation("ssl-exit", id, "no connection, but: "+o.String(), data)
	}
}
