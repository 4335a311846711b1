package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/minidb"
)

// C20: the command line of the four tools.

func init() { register("C20", "exploration", checkC20) }

// cliRig is one tool with a database of its own whose contents can be compared.
type cliRig struct {
	r    *Run
	tool string
	x    *rig   // a server database
	db   string // a SQLite file
	dir  string
	name string // what to give as database
	base []string
	env  []string
}

var cliTools = []string{"mysqldef", "psqldef", "mssqldef", "sqlite3def"}

func (r *Run) cli(tool string) *cliRig {
	c := &cliRig{r: r, tool: tool, dir: r.TempDir(), name: "testdb"}
	start := "CREATE TABLE users (id bigint NOT NULL, name varchar(20));\nCREATE TABLE old (id bigint NOT NULL);\n"
	switch tool {
	case "sqlite3def":
		c.db = filepath.Join(c.dir, "db")
		c.name = c.db
		d := openLite(c.db)
		for _, s := range []string{"CREATE TABLE users (id bigint NOT NULL, name varchar(20))", "CREATE TABLE old (id bigint NOT NULL)"} {
			d.Exec(s)
		}
		d.Close()
	default:
		d := map[string]minidb.Dialect{"mysqldef": minidb.MySQL, "psqldef": minidb.PG, "mssqldef": minidb.MSSQL}[tool]
		c.x = r.rig(d)
		c.base, c.env = c.x.args, c.x.env
		db := minidb.New(d, "testdb")
		if err := db.ExecScript(start); err != nil {
			panic(err)
		}
		c.x.set(db)
		c.x.srv.reset(nil)
	}
	return c
}

func (c *cliRig) close() {
	if c.x != nil {
		c.x.close()
	}
	os.RemoveAll(c.dir)
}

// contents of the database, and how many connections were made since.
func (c *cliRig) contents() string {
	if c.x != nil {
		c.x.srv.idle()
		return strings.Join(c.x.state().Dump(), "\n")
	}
	d := openLite(c.db)
	defer d.Close()
	m, err := d.full()
	if err != nil {
		return err.Error()
	}
	var l []string
	for k, v := range m {
		l = append(l, k+" "+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (c *cliRig) conns() int {
	if c.x == nil {
		return 0
	}
	c.x.srv.idle()
	c.x.srv.mu.Lock()
	defer c.x.srv.mu.Unlock()
	return c.x.srv.nconn
}

func (c *cliRig) changes() []string {
	if c.x == nil {
		return nil
	}
	return sqls(c.x.srv.observe().execs())
}

func (c *cliRig) unknown() bool {
	if c.x == nil {
		return false
	}
	c.x.srv.mu.Lock()
	defer c.x.srv.mu.Unlock()
	for _, u := range c.x.srv.unknown {
		c.r.Inconclusive("%s: %s", c.tool, u)
		return true
	}
	return false
}

// desired files and what is to come of them
type cliText struct {
	name, text string
	want       string // change, nothing, refuse
}

func cliTexts(tool string) []cliText {
	users := "CREATE TABLE users (id bigint NOT NULL, name varchar(20))"
	old := "CREATE TABLE old (id bigint NOT NULL)"
	l := []cliText{
		{"add", users + ";\n" + old + ";\nCREATE TABLE added (id bigint NOT NULL);\n", "change"},
		{"drop", users + ";\n", "change"},
		{"same", users + ";\n" + old + ";\n", "nothing"},
		{"same, no newline", users + "; " + old, "nothing"},
		{"same, CRLF", strings.Replace(users, ",", ",\r\n", 1) + ";\r\n" + old + ";\r\n", "nothing"},
		{"nonsense", "this is no schema\n", "refuse"},
		{"half", users + ";\n" + old + ";\nCREATE TABLE x (id bigint", "refuse"},
		{"query", users + ";\nSELECT 1;\n", "refuse"},
		{"big", users + ";\n" + old + ";\n" + bigSchema(), "change"},
	}
	return l
}

func bigSchema() string {
	var b strings.Builder
	for i := 0; i < 300; i++ {
		fmt.Fprintf(&b, "CREATE TABLE big_%d (id bigint NOT NULL, a_column_with_a_long_name_%d varchar(100), another_column_with_a_long_name_%d varchar(100));\n", i, i, i)
	}
	return b.String()
}

func checkC20(r *Run) {
	r.rule = "one case is one command line of one tool, counted as distinct by tool, arguments, input and state of the surroundings"
	for _, t := range cliTools {
		t := t
		r.Cases(t+"-info", r.N(30, 300), func(id string, g *rand.Rand) { r.cliInfo(t, id, g) })
		r.Cases(t+"-misuse", r.N(80, 1500), func(id string, g *rand.Rand) { r.cliMisuse(t, id, g) })
		r.Cases(t+"-source", r.N(40, 500), func(id string, g *rand.Rand) { r.cliSource(t, id, g) })
		r.Cases(t+"-unreadable", r.N(30, 300), func(id string, g *rand.Rand) { r.cliUnreadable(t, id, g) })
		r.Cases(t+"-unreachable", r.N(30, 300), func(id string, g *rand.Rand) { r.cliUnreachable(t, id, g) })
		r.Cases(t+"-output", r.N(10, 60), func(id string, g *rand.Rand) { r.cliOutput(t, id, g) })
	}
}

// shuffled puts groups of arguments in random order.
func shuffled(g *rand.Rand, groups ...[]string) []string {
	g.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	var o []string
	for _, x := range groups {
		o = append(o, x...)
	}
	return o
}

func (c *cliRig) baseGroups() [][]string {
	var o [][]string
	for i := 0; i+1 < len(c.base); i += 2 {
		o = append(o, c.base[i:i+2])
	}
	return o
}

// flagsFor is a random harmless choice of flags.
func flagsFor(g *rand.Rand) [][]string {
	var o [][]string
	for _, f := range []string{"--dry-run", "--export", "--skip-drop"} {
		if chance(g, 1, 4) {
			o = append(o, []string{f})
		}
	}
	return o
}

var versionsSeen sync.Map

// cliInfo: help and version touch nothing.
func (r *Run) cliInfo(tool, id string, g *rand.Rand) {
	c := r.cli(tool)
	defer c.close()
	before := c.contents()
	what := pickN(g, "--help", "--version")
	groups := append([][]string{{what}}, flagsFor(g)...)
	switch g.Intn(4) {
	case 0: // nothing else
	case 1:
		groups = append(groups, []string{c.name})
		groups = append(groups, c.baseGroups()...)
	case 2:
		groups = append(groups, []string{c.name}, []string{"another"})
		groups = append(groups, c.baseGroups()...)
	case 3: // a file that cannot be read does not matter
		groups = append(groups, []string{"--file=/nonexistent"}, []string{c.name})
	}
	args := shuffled(g, groups...)
	r.Eval(tool+strings.Join(args, "\x00"), true)
	n := c.conns()
	os.Mkdir(filepath.Join(c.dir, "empty"), 0o755)
	o := r.Tool(tool, args, pickN(g, "", "CREATE TABLE x (id bigint);"), c.env, filepath.Join(c.dir, "empty"))
	data := map[string]interface{}{"tool": tool, "args": args, "output": o.String()}
	switch {
	case o.Code != 0 || o.Stderr != "" || o.Crashed() || o.Hung:
		r.Violation("info-fails", id, what+" fails: "+o.String(), data)
	case what == "--help" && !(strings.Contains(o.Stdout, "Usage:") && strings.Contains(o.Stdout, "db_name") && strings.Contains(o.Stdout, "--skip-drop") && strings.Contains(o.Stdout, "--dry-run") && strings.Contains(o.Stdout, "--export") && strings.Contains(o.Stdout, "--file")):
		r.Violation("help", id, "--help does not list the options: "+o.String(), data)
	case what == "--version" && (strings.Count(o.Stdout, "\n") > 1 || !strings.HasSuffix(o.Stdout, "\n")):
		r.Violation("version", id, "--version prints "+o.String(), data)
	case c.conns() != n:
		r.Violation("info-connects", id, what+" connects to the database", data)
	case c.contents() != before:
		r.Violation("info-changes", id, what+" changes the database", data)
	}
	if what == "--version" {
		if v, ok := versionsSeen.LoadOrStore(tool, o.Stdout); ok && v != o.Stdout {
			r.Violation("version", id, fmt.Sprintf("--version prints %q, and before %q", o.Stdout, v), data)
		}
	}
	if l, _ := os.ReadDir(filepath.Join(c.dir, "empty")); len(l) > 0 {
		r.Violation("info-creates", id, what+" creates a file "+l[0].Name(), data)
	}
	r.Count("help and version", 1)
}

// cliMisuse: wrong command lines are rejected before anything is done.
func (r *Run) cliMisuse(tool, id string, g *rand.Rand) {
	c := r.cli(tool)
	defer c.close()
	before := c.contents()
	server := c.x != nil
	work := filepath.Join(c.dir, "work")
	os.Mkdir(work, 0o755)
	groups := append(c.baseGroups(), flagsFor(g)...)
	kinds := []string{"no name", "two names", "three names", "unknown long", "unknown short", "flag value", "no value", "case", "empty long"}
	if server {
		kinds = append(kinds, "bad port", "foreign option")
	} else {
		kinds = append(kinds, "foreign option")
	}
	k := pick(g, kinds)
	name := []string{c.name}
	switch k {
	case "no name":
		name = nil
	case "two names":
		name = []string{c.name, pickN(g, "other", "testdb", "schema.sql", "")}
		g.Shuffle(2, func(i, j int) { name[i], name[j] = name[j], name[i] })
	case "three names":
		name = []string{c.name, "b", "c"}
	case "unknown long":
		groups = append(groups, []string{pickN(g, "--dryrun", "--dry_run", "--no-such", "--exports", "--skipdrop", "--drop", "--dry-ru", "--skip-drop-all", "--enable-drop", "--versions", "--hel", "--apply", "--databases=x", "--file-name=x")})
	case "unknown short":
		groups = append(groups, []string{pickN(g, "-Z", "-z", "-Y", "-1", "-?")})
	case "flag value":
		groups = append(groups, []string{pickN(g, "--dry-run=maybe", "--export=x", "--skip-drop=2", "--dry-run=", "--skip-drop=yes")})
	case "no value": // at the end of the line
		groups = nil
		name = append(append(append([]string{}, c.base...), c.name), pickN(g, "--file"))
		if server {
			name[len(name)-1] = pickN(g, "--file", "--user", "--host", "--port", "--password")
		}
	case "case":
		groups = append(groups, []string{pickN(g, "--DRY-RUN", "--Export", "--Skip-Drop", "--Help", "--VERSION", "--File=x")})
	case "empty long":
		groups = append(groups, []string{pickN(g, "--=x", "--=")})
	case "bad port":
		p := loginOpts[c.x.d]["port"]
		groups = append(flagsFor(g), []string{pickN(g, p.long+"=abc", p.long+"=-1", p.long+"=", p.short+"x1", p.long+"=1.5", p.long+"=99999999999999999999999", p.long+"=33 06", p.long+"=0x")})
	case "foreign option":
		opt := map[string][]string{
			"mysqldef":   {"-U", "-W", "-f", "--sslmode=x"},
			"psqldef":    {"-u", "-P", "-S", "--socket=/x"},
			"mssqldef":   {"-u", "-W", "-S", "-f", "--socket=/x"},
			"sqlite3def": {"-u", "-U", "--user=x", "--host=x", "--port=1", "--password=x", "-h", "-p", "--password-prompt"},
		}[tool]
		o := pick(g, opt)
		if strings.HasPrefix(o, "--") {
			groups = append(groups, []string{o})
		} else {
			groups = append(groups, []string{o + "x"})
		}
	}
	args := append(shuffled(g, groups...), name...)
	if k != "no value" && chance(g, 1, 2) {
		args = append(append([]string{}, name...), shuffled(g, groups...)...)
	}
	r.Eval(tool+strings.Join(args, "\x00"), true)
	r.State("kinds of misuse", tool+k)
	n := c.conns()
	o := r.Tool(tool, args, "CREATE TABLE users (id bigint NOT NULL);\n", c.env, work)
	data := map[string]interface{}{"tool": tool, "misuse": k, "args": args, "output": o.String()}
	if k == "flag value" && o.Code == 0 && strings.HasSuffix(strings.Join(args, " "), "=") {
		return
	}
	switch {
	case o.Crashed() || o.Hung:
		r.Violation("crash", id, "the tool crashed or hung: "+o.String(), data)
	case o.Code == 0:
		r.Violation("misuse-accepted", id, fmt.Sprintf("%s: exit status 0 for %q", k, args), data)
	case o.Stderr == "" && o.Stdout == "":
		r.Violation("misuse-silent", id, fmt.Sprintf("%s: nothing is said about %q", k, args), data)
	case c.conns() != n:
		r.Violation("misuse-connects", id, fmt.Sprintf("%s: the database is contacted for %q", k, args), data)
	case c.contents() != before:
		r.Violation("misuse-changes", id, fmt.Sprintf("%s: the database is changed for %q", k, args), data)
	}
	if l, _ := os.ReadDir(work); len(l) > 0 {
		r.Violation("misuse-creates", id, fmt.Sprintf("%s: %q creates a file %s", k, args, l[0].Name()), data)
	}
}

// cliSource: the same schema from a file and from standard input.
func (r *Run) cliSource(tool, id string, g *rand.Rand) {
	texts := cliTexts(tool)
	tx := texts[g.Intn(len(texts))]
	flags := flagsFor(g)
	other := texts[g.Intn(len(texts))].text
	type res struct {
		how, out, state string
		code            int
		execs           []string
	}
	var all []res
	ways := []string{"stdin", "pipe", "dash", "file", "long", "twice", "relative", "fifo"}
	if tool == "psqldef" || tool == "sqlite3def" {
		ways = append(ways, "short", "shortattached")
	}
	g.Shuffle(len(ways), func(i, j int) { ways[i], ways[j] = ways[j], ways[i] })
	fnames := []string{"schema.sql", "my schema.sql", "x=y.sql", "ü.sql", "-x.sql", "a'b.sql", `"q".sql`, `"q"`, "#.sql"}
	for _, w := range append([]string{"stdin"}, ways[:3]...) {
		c := r.cli(tool)
		before := c.contents()
		fn := filepath.Join(c.dir, pick(g, fnames))
		os.WriteFile(fn, []byte(tx.text), 0o644)
		stdin := other
		src := []string{}
		cwd := c.dir
		switch w {
		case "stdin", "pipe":
			stdin = tx.text
		case "dash":
			src, stdin = []string{pickN(g, "--file=-", "--file=-")}, tx.text
		case "file":
			src = []string{"--file", fn}
		case "long":
			src = []string{"--file=" + fn}
		case "relative":
			src = []string{"--file=" + filepath.Base(fn)}
		case "twice": // the last one counts
			src = []string{"--file=/nonexistent", "--file=" + fn}
		case "short":
			src = []string{"-f", fn}
		case "shortattached":
			src = []string{"-f" + fn}
		}
		groups := append(append(c.baseGroups(), flags...), []string{c.name})
		if len(src) > 0 {
			groups = append(groups, src)
		}
		args := shuffled(g, groups...)
		var o Out
		switch w {
		case "pipe": // delivered in small pieces
			o = runSlow(filepath.Join(r.Bin, tool), args, tx.text, 1+g.Intn(len(tx.text)), c.env, cwd)
			r.Count("tool runs", 1)
		case "fifo":
			args = append(args, "--file=/dev/fd/0")
			o = r.Tool(tool, args, tx.text, c.env, cwd)
		default:
			o = r.Tool(tool, args, stdin, c.env, cwd)
		}
		r.Eval(tool+tx.name+w+strings.Join(args, "\x00"), true)
		r.State("ways to give the schema", tool+w)
		data := map[string]interface{}{"tool": tool, "way": w, "text": tx.name, "args": args, "output": clip(o.String())}
		if c.unknown() {
			c.close()
			return
		}
		if o.Crashed() || o.Hung {
			r.Violation("crash", id, "the tool crashed or hung: "+clip(o.String()), data)
		}
		after, execs := c.contents(), c.changes()
		has := func(f string) bool {
			for _, x := range flags {
				if x[0] == f {
					return true
				}
			}
			return false
		}
		want, changes := tx.want == "refuse", tx.want == "change" && !has("--dry-run")
		if has("--export") {
			want, changes = false, false
		}
		if changes && tx.name == "drop" && has("--skip-drop") {
			changes = false
		}
		if (o.Code != 0) != want {
			r.Violation("exit-status", id, fmt.Sprintf("%s by %s: exit status %d: %s", tx.name, w, o.Code, clip(o.String())), data)
		}
		if want && o.Stderr == "" {
			r.Violation("no-message", id, fmt.Sprintf("%s by %s: no message on stderr", tx.name, w), data)
		}
		if (after != before) != changes {
			r.Violation("effect", id, fmt.Sprintf("%s by %s: database changed: %v: %s", tx.name, w, after != before, clip(o.String())), data)
		}
		so := o.Stdout
		if want {
			so += o.Stderr
		}
		all = append(all, res{w, so, after, o.Code, execs})
		c.close()
	}
	for _, x := range all[1:] {
		a := all[0]
		if x.out != a.out || x.state != a.state || x.code != a.code || strings.Join(x.execs, "\x00") != strings.Join(a.execs, "\x00") {
			r.Violation("source-differs", id, fmt.Sprintf("%s: %s and %s differ: %s / %s", tx.name, a.how, x.how, clip(a.out), clip(x.out)), map[string]interface{}{"tool": tool, "text": tx.text, "flags": flags})
			return
		}
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// runSlow delivers standard input in pieces.
func runSlow(bin string, args []string, stdin string, piece int, env []string, dir string) Out {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = dir
	c.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=single"}, env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	w, err := c.StdinPipe()
	if err != nil {
		panic(err)
	}
	if err := c.Start(); err != nil {
		panic(err)
	}
	for i, n := 0, 0; i < len(stdin); n++ {
		j := i + piece
		if j > len(stdin) {
			j = len(stdin)
		}
		if _, err := io.WriteString(w, stdin[i:j]); err != nil {
			break
		}
		i = j
		if n < 5 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	w.Close()
	c.Wait()
	return Out{Stdout: so.String(), Stderr: se.String(), Code: c.ProcessState.ExitCode(), Hung: ctx.Err() != nil}
}

// cliUnreadable: the schema cannot be read.
func (r *Run) cliUnreadable(tool, id string, g *rand.Rand) {
	c := r.cli(tool)
	defer c.close()
	before := c.contents()
	k := pickN(g, "missing", "directory", "below a file", "empty name", "null device", "terminal", "stdin directory", "stdin write-only")
	var src []string
	var stdin *os.File
	switch k {
	case "missing":
		src = []string{"--file=" + filepath.Join(c.dir, "nowhere.sql")}
	case "directory":
		src = []string{"--file=" + c.dir}
	case "below a file":
		f := filepath.Join(c.dir, "f")
		os.WriteFile(f, nil, 0o644)
		src = []string{"--file=" + f + "/schema.sql"}
	case "empty name":
		src = []string{"--file="}
	case "null device":
		stdin, _ = os.Open("/dev/null")
	case "terminal":
		m, s, err := openPTY()
		if err != nil {
			return
		}
		defer m.Close()
		stdin = s
	case "stdin directory":
		stdin, _ = os.Open(c.dir)
	case "stdin write-only":
		stdin, _ = os.OpenFile(filepath.Join(c.dir, "wo"), os.O_CREATE|os.O_WRONLY, 0o644)
	}
	var flags [][]string
	for _, f := range []string{"--dry-run", "--skip-drop"} {
		if chance(g, 1, 3) {
			flags = append(flags, []string{f})
		}
	}
	groups := append(append(c.baseGroups(), flags...), []string{c.name})
	if src != nil {
		groups = append(groups, src)
	}
	args := shuffled(g, groups...)
	var o Out
	if stdin != nil {
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, filepath.Join(r.Bin, tool), args...)
		cmd.Dir = c.dir
		cmd.Stdin = stdin
		cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=single"}, c.env...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		cmd.Run()
		o = Out{Stdout: so.String(), Stderr: se.String(), Code: cmd.ProcessState.ExitCode(), Hung: ctx.Err() != nil}
		cancel()
		stdin.Close()
		r.Count("tool runs", 1)
	} else {
		o = r.Tool(tool, args, "CREATE TABLE users (id bigint NOT NULL);\n", c.env, c.dir)
	}
	r.Eval(tool+k+strings.Join(args, "\x00"), true)
	r.State("unreadable sources", tool+k)
	data := map[string]interface{}{"tool": tool, "source": k, "args": args, "output": o.String()}
	switch {
	case o.Crashed() || o.Hung:
		r.Violation("crash", id, "the tool crashed or hung: "+o.String(), data)
	case o.Code == 0:
		r.Violation("unreadable-ok", id, fmt.Sprintf("%s: exit status 0: %s", k, o.String()), data)
	case o.Stderr == "":
		r.Violation("unreadable-silent", id, fmt.Sprintf("%s: no message on stderr: %s", k, o.String()), data)
	case len(c.changes()) > 0 || c.contents() != before:
		r.Violation("unreadable-changes", id, fmt.Sprintf("%s: the database is changed", k), data)
	}
}

// cliUnreachable: there is no such database to talk to.
func (r *Run) cliUnreachable(tool, id string, g *rand.Rand) {
	c := r.cli(tool)
	defer c.close()
	before := c.contents()
	var args, env []string
	env = c.env
	k := ""
	name := c.name
	fl := flagsFor(g)
	if c.x == nil {
		k = pickN(g, "no directory", "directory", "not a database", "truncated")
		switch k {
		case "no directory":
			name = filepath.Join(c.dir, "nowhere", "db")
		case "directory":
			name = c.dir
		case "not a database":
			name = filepath.Join(c.dir, "text")
			os.WriteFile(name, []byte(strings.Repeat("this is text, not a database\n", 200)), 0o644)
		case "truncated":
			b, _ := os.ReadFile(c.db)
			name = filepath.Join(c.dir, "cut")
			os.WriteFile(name, b[:len(b)/2+37], 0o644)
		}
	} else {
		o := loginOpts[c.x.d]
		k = pickN(g, "closed port", "hangs up", "speaks nonsense", "bad host", "port 0", "no socket")
		port := "1"
		host := "127.0.0.1"
		switch k {
		case "closed port":
			p, done := deafPort()
			if p == 0 {
				return
			}
			defer done()
			port = fmt.Sprint(p)
		case "hangs up", "speaks nonsense":
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return
			}
			defer ln.Close()
			say := k == "speaks nonsense"
			go func() {
				for {
					x, err := ln.Accept()
					if err != nil {
						return
					}
					if say {
						x.Write([]byte("HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n"))
						time.Sleep(5 * time.Millisecond)
					}
					x.Close()
				}
			}()
			port = fmt.Sprint(ln.Addr().(*net.TCPAddr).Port)
		case "bad host":
			host = pickN(g, "256.256.256.256", "host.invalid", "no such host", "a b")
		case "port 0":
			port = "0"
		}
		args = []string{o["user"].short, "root", o["host"].long + "=" + host, o["port"].short, port}
		if k == "no socket" {
			switch c.x.d {
			case minidb.MySQL:
				args = append(args, "--socket="+filepath.Join(c.dir, "no.sock"))
			case minidb.PG:
				args[2] = "--host=" + c.dir
			default:
				return
			}
		}
	}
	file := []byte{}
	if c.x == nil {
		file, _ = os.ReadFile(name)
	}
	for _, f := range fl {
		args = append(args, f[0])
	}
	args = append(args, name)
	o := r.Tool(tool, args, "CREATE TABLE users (id bigint NOT NULL);\n", env, c.dir)
	r.Eval(tool+k+strings.Join(args, "\x00"), true)
	r.State("unreachable databases", tool+k)
	data := map[string]interface{}{"tool": tool, "database": k, "args": args, "output": o.String()}
	if c.x == nil {
		now, _ := os.ReadFile(name)
		if string(now) != string(file) {
			r.Violation("unreachable-changes", id, k+": the file is changed", data)
			return
		}
		if k == "no directory" {
			if _, err := os.Stat(filepath.Dir(name)); err == nil {
				r.Violation("unreachable-changes", id, k+": the directory is created", data)
				return
			}
		}
	}
	switch {
	case o.Crashed() || o.Hung:
		r.Violation("crash", id, "the tool crashed or hung: "+o.String(), data)
	case o.Code == 0:
		r.Violation("unreachable-ok", id, fmt.Sprintf("%s: exit status 0: %s", k, o.String()), data)
	case o.Stderr == "":
		r.Violation("unreachable-silent", id, fmt.Sprintf("%s: no message on stderr: %s", k, o.String()), data)
	case o.Stdout != "":
		r.Violation("unreachable-output", id, fmt.Sprintf("%s: there is output: %s", k, o.String()), data)
	case c.contents() != before:
		r.Violation("unreachable-changes", id, k+": another database is changed", data)
	}
}

// cliOutput: what was asked for cannot be written.
func (r *Run) cliOutput(tool, id string, g *rand.Rand) {
	c := r.cli(tool)
	defer c.close()
	before := c.contents()
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return
	}
	defer full.Close()
	what := pickN(g, "--export", "--dry-run")
	args := append(append(append([]string{}, c.base...), what), c.name)
	cmd := exec.Command(filepath.Join(r.Bin, tool), args...)
	cmd.Dir = c.dir
	cmd.Stdin = strings.NewReader("CREATE TABLE users (id bigint NOT NULL, name varchar(20), x int);\n")
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC"}, c.env...)
	var se bytes.Buffer
	cmd.Stdout, cmd.Stderr = full, &se
	cmd.Run()
	r.Count("tool runs", 1)
	r.Eval(tool+what+"full", true)
	data := map[string]interface{}{"tool": tool, "args": args, "stderr": se.String()}
	if cmd.ProcessState.ExitCode() == 0 {
		r.Violation("output-lost", id, fmt.Sprintf("%s with a full disk as stdout: exit status 0", what), data)
	} else if se.Len() == 0 {
		r.Violation("output-lost", id, what+" with a full disk as stdout: no message on stderr", data)
	}
	if c.contents() != before {
		r.Violation("output-changes", id, what+" changes the database", data)
	}
}

// deafPort is a port of 127.0.0.1 that is taken but not listened to.
func deafPort() (int, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return 0, nil
	}
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		syscall.Close(fd)
		return 0, nil
	}
	a, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return 0, nil
	}
	return a.(*syscall.SockaddrInet4).Port, func() { syscall.Close(fd) }
}
