package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// The ofx command, as a user runs it.

// ran is what was observed of one run of the command.
type ran struct {
	args          []string
	out, err      string
	code          int
	before, after time.Time
}

func (x *ran) String() string {
	return fmt.Sprintf("ofx %q: exit status %d\nstdout: %s\nstderr: %s", x.args, x.code, clip(x.out, 2500), clip(x.err, 1500))
}

// ofx runs the command in a directory of its own, to its end.
func (t *T) ofx(dir string, args ...string) *ran { return t.ofxIn(dir, nil, args...) }

func (t *T) ofxIn(dir string, stdin *os.File, args ...string) *ran {
	return t.ofxLimited(dir, stdin, -1, args...)
}

// ofxLimited runs the command, which can't make files longer than some
// kilobytes: writing more fails, as on a full disk.
func (t *T) ofxLimited(dir string, stdin *os.File, kb int, args ...string) *ran {
	x := &ran{args: args}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("OFX_BIN"), args...)
	if kb >= 0 {
		// in blocks of a shell's choice, of 512 or 1024 bytes
		cmd = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -f %d; exec "$@"`, kb), "sh", os.Getenv("OFX_BIN")}, args...)...)
	}
	cmd.Dir = dir
	if stdin != nil {
		cmd.Stdin = stdin
	}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "OFXMON_") && !strings.HasPrefix(e, "OFX_BIN") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	x.before = time.Now()
	err := cmd.Run()
	x.after = time.Now()
	x.out, x.err = out.String(), er.String()
	if err != nil {
		var ee *exec.ExitError
		if ctx.Err() == nil && errors.As(err, &ee) && ee.Exited() {
			x.code = ee.ExitCode()
		} else if ctx.Err() != nil {
			t.Violate("hang", "the command didn't end: %s", x)
			x.code = -1
		} else {
			// killed from outside, or not started at all: not an observation
			fmt.Fprintln(os.Stderr, "ofxmon: can't run the command:", err)
			os.Exit(2)
		}
	}
	t.Count("runs of the command", 1)
	return x
}

var crashSign = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[|unexpected fault address|\[signal )`)

// crashed reports a crash.
func (t *T) crashed(x *ran) bool {
	if crashSign.MatchString(x.err) || x.code < 0 {
		t.Violate("crash", "%s", x)
		return true
	}
	return false
}

// failed judges a run which has to fail with a message.
func (t *T) failed(x *ran, what string) bool {
	if t.crashed(x) {
		return false
	}
	if x.code == 0 {
		t.Violate("exit status", "%s, but the exit status was zero: %s", what, x)
		return false
	}
	if strings.TrimSpace(x.out+x.err) == "" {
		t.Violate("message", "%s, but there was no message: %s", what, x)
		return false
	}
	return true
}

// succeeded judges a run which has to succeed.
func (t *T) succeeded(x *ran, what string) bool {
	if t.crashed(x) {
		return false
	}
	if x.code != 0 {
		t.Violate("exit status", "%s, but the exit status was %d: %s", what, x.code, x)
		return false
	}
	return true
}

// tempDir makes a directory for a case.
func (t *T) tempDir() string {
	d, err := os.MkdirTemp(t.Scratch, "case")
	if err != nil {
		fmt.Fprintln(os.Stderr, "ofxmon:", err)
		os.Exit(2)
	}
	return d
}

var (
	downloads    = []string{"download-profile", "download-bank", "download-cc", "download-inv"}
	transactions = []string{"transactions-bank", "transactions-cc", "transactions-inv"}
	requestCmds  = append(append([]string{}, downloads...), append(transactions, "get-accounts")...)
	allCmds      = append(append([]string{}, requestCmds...), "detect-settings")
)

// options of one run.
type options struct {
	cmd              string
	url              string
	user, pass       string
	org, fid         string
	appID, appVer    string // "-" means not given
	version          string
	clientUID        string
	noIndent, cr     bool
	ua               string
	bankID, acctID   string
	acctType         string
	brokerID         string
	filename         string
	dryrun           bool
	anonymous        bool // the user name isn't given
	delay            int
	wantID, wantVer  string
	wantUser, wantPw string
}

func has(cmd, what string) bool {
	switch what {
	case "bankid", "accttype":
		return strings.HasSuffix(cmd, "-bank")
	case "brokerid":
		return strings.HasSuffix(cmd, "-inv")
	case "acctid":
		return strings.HasSuffix(cmd, "-bank") || strings.HasSuffix(cmd, "-cc") || strings.HasSuffix(cmd, "-inv")
	case "filename":
		return strings.HasPrefix(cmd, "download-")
	}
	return false
}

// word makes a simple text.
func word(r *rand.Rand, n int) string {
	const alphabet = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz23456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.IntN(len(alphabet))]
	}
	return string(b)
}

// argText is a text which can be given as an argument.
func (g *G) argText(min, max int) string { return g.text(min, max) }

func newOptions(t *T, cmd, url string) *options {
	g := newG(t.R)
	r := t.R
	// long passwords can be recognized wherever they show up
	pass := g.argText(1, 8)
	if r.IntN(2) == 0 {
		pass = word(r, 14) + g.argText(1, 18)
	}
	o := &options{cmd: cmd, url: url, user: g.argText(1, 32), pass: pass, appID: "-", appVer: "-", version: "-", wantID: "QWIN", wantVer: "2400"}
	if r.IntN(5) != 0 {
		o.org = g.argText(1, 20)
	}
	if r.IntN(5) != 0 {
		o.fid = fmt.Sprint(r.IntN(100000))
		if r.IntN(4) == 0 {
			o.fid = g.argText(1, 20)
		}
	}
	if r.IntN(2) == 0 {
		o.appID = pick(r, []string{"", "A", "OFXGO", "Money", "qb-&<", "x y"})
		if r.IntN(3) == 0 {
			if o.appID = g.text(1, 5); o.appID == "-" {
				o.appID = "A"
			}
		}
		if o.wantID = o.appID; o.wantID == "" {
			o.wantID = "OFXGO"
		}
	}
	if r.IntN(2) == 0 {
		o.appVer = pick(r, []string{"", "1", "2600", "0.1", "<&>"})
		if r.IntN(3) == 0 {
			if o.appVer = g.text(1, 4); o.appVer == "-" {
				o.appVer = "A"
			}
		}
		if o.wantVer = o.appVer; o.wantVer == "" {
			o.wantVer = "0001"
		}
	}
	if r.IntN(4) != 0 {
		o.version = pick(r, enums["ofxVersion"].Values)
	}
	if r.IntN(3) == 0 {
		o.clientUID = g.uid()
	}
	o.noIndent, o.cr = r.IntN(2) == 0, r.IntN(2) == 0
	o.ua = pick(r, []string{"", "", "InetClntApp/3.0", "Mozilla/4.0 (compatible; x)"})
	if r.IntN(3) == 0 {
		o.ua = randomUA(r)
	}
	o.bankID, o.acctID, o.brokerID = g.argText(1, 9), g.argText(1, 22), g.argText(1, 22)
	for _, x := range []struct {
		p *string
		n int
	}{{&o.bankID, 9}, {&o.acctID, 22}, {&o.acctID, 22}, {&o.brokerID, 22}, {&o.org, 32}, {&o.fid, 32}, {&o.user, 32}} {
		if s := strings.TrimSpace(shaped(r)); r.IntN(4) == 0 && *x.p != "" && s != "" && len(s) <= x.n {
			*x.p = s
		}
	}
	o.acctType = pick(r, enums["acctType"].Values)
	if cmd == "download-profile" && r.IntN(3) == 0 {
		o.anonymous = true
	}
	if cmd != "detect-settings" && (o.version == "-" || !isSGML(o.version)) {
		// Spaces at the end can be told only from what elements close
		for _, x := range []*string{&o.user, &o.pass, &o.org, &o.acctID, &o.brokerID} {
			if *x != "" && len(*x) <= 16 && r.IntN(6) == 0 {
				*x = pick(r, []string{" ", "", "  "}) + *x + pick(r, []string{" ", "", "  "})
			}
		}
	}
	o.wantUser, o.wantPw = o.user, o.pass
	if o.anonymous {
		o.wantUser, o.wantPw = "anonymous00000000000000000000000", "anonymous00000000000000000000000"
	}
	if cmd == "detect-settings" {
		o.version, o.ua, o.clientUID = "-", "", ""
	}
	return o
}

// args is the command line, its options in random order and form.
func (o *options) args(r *rand.Rand) []string {
	var fs [][2]string
	add := func(n, v string) { fs = append(fs, [2]string{n, v}) }
	add("url", o.url)
	if !o.anonymous {
		add("username", o.user)
		if o.pass != "" {
			add("password", o.pass)
		}
	}
	if o.org != "" || r.IntN(4) == 0 {
		add("org", o.org)
	}
	if o.fid != "" || r.IntN(4) == 0 {
		add("fid", o.fid)
	}
	var bools []string
	if o.cmd == "detect-settings" {
		add("delay", fmt.Sprint(o.delay))
	} else {
		if o.appID != "-" {
			add("appid", o.appID)
		}
		if o.appVer != "-" {
			add("appver", o.appVer)
		}
		if o.version != "-" {
			add("ofxversion", o.version)
		}
		if o.clientUID != "" {
			add("clientuid", o.clientUID)
		}
		if o.ua != "" {
			add("useragent", o.ua)
		}
		flag := func(n string, v bool) {
			switch {
			case v:
				bools = append(bools, "-"+n+pick(r, []string{"", "", "=true", "=1", "=t"}))
			case r.IntN(4) == 0:
				bools = append(bools, "-"+n+pick(r, []string{"=false", "=0"}))
			}
		}
		flag("noindent", o.noIndent)
		flag("carriagereturn", o.cr)
		flag("dryrun", o.dryrun)
		if has(o.cmd, "bankid") {
			add("bankid", o.bankID)
		}
		if has(o.cmd, "acctid") {
			add("acctid", o.acctID)
		}
		if has(o.cmd, "accttype") && (o.acctType != "CHECKING" || r.IntN(2) == 0) {
			add("accttype", o.acctType)
		}
		if has(o.cmd, "brokerid") {
			add("brokerid", o.brokerID)
		}
		if has(o.cmd, "filename") && o.filename != "" {
			add("filename", o.filename)
		}
	}
	var parts [][]string
	for _, f := range fs {
		if r.IntN(2) == 0 {
			parts = append(parts, []string{pick(r, []string{"-", "--"}) + f[0] + "=" + f[1]})
		} else {
			parts = append(parts, []string{pick(r, []string{"-", "--"}) + f[0], f[1]})
		}
	}
	for _, b := range bools {
		parts = append(parts, []string{b})
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	out := []string{o.cmd}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func newAgg(name string) *Agg {
	st := structs[name]
	return &Agg{S: st, Tag: st.XML, F: map[string]*Node{}}
}

// want is the document the command has to send. The transaction's identifier
// and time aren't known before.
func (o *options) want() *Doc {
	d := &Doc{Version: o.version}
	if o.version == "-" {
		d.Version = "203"
	}
	so := newAgg("SignonRequest")
	str := func(a *Agg, f, s string) {
		if s != "" {
			a.F[f] = strLeaf(s)
		}
	}
	str(so, "UserID", o.wantUser)
	str(so, "UserPass", o.wantPw)
	str(so, "Language", "ENG")
	str(so, "Org", o.org)
	str(so, "Fid", o.fid)
	str(so, "AppID", o.wantID)
	str(so, "AppVer", o.wantVer)
	if o.clientUID != "" {
		so.F["ClientUID"] = uidLeaf(o.clientUID)
	}
	d.Signon = so
	var m *Agg
	acct := func(f string) *Agg {
		fd := m.S.field(f)
		a := &Agg{S: structs[fd.Struct], Tag: fd.Name(), F: map[string]*Node{}}
		m.F[f] = &Node{Agg: a}
		str(a, "AcctID", o.acctID)
		return a
	}
	switch o.cmd {
	case "download-bank", "transactions-bank":
		m = newAgg("StatementRequest")
		a := acct("BankAcctFrom")
		str(a, "BankID", o.bankID)
		a.F["AcctType"] = enumLeaf("acctType", o.acctType)
		m.F["Include"] = boolLeaf(true)
	case "download-cc", "transactions-cc":
		m = newAgg("CCStatementRequest")
		acct("CCAcctFrom")
		m.F["Include"] = boolLeaf(true)
	case "download-inv", "transactions-inv":
		m = newAgg("InvStatementRequest")
		str(acct("InvAcctFrom"), "BrokerID", o.brokerID)
		for _, f := range []string{"Include", "IncludeOO", "IncludePos", "IncludeBalance", "Include401K", "Include401KBal"} {
			m.F[f] = boolLeaf(true)
		}
	case "get-accounts":
		m = newAgg("AcctInfoRequest")
		m.F["DtAcctUp"] = dateLeaf(time.Unix(0, 0))
	default:
		m = newAgg("ProfileRequest")
		m.F["ClientRouting"] = strLeaf("NONE")
		if o.cmd == "detect-settings" {
			m.F["DtProfUp"] = dateLeaf(time.Unix(0, 0))
		}
	}
	for _, s := range reqSets {
		for _, ty := range s.Types {
			if ty == m.S.Name {
				d.Sets = []*DocSet{{Set: s, Msgs: []*Agg{m}}}
			}
		}
	}
	return d
}

var uuidForm = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)

// uids which were seen in this run of the check.
var (
	uidMu sync.Mutex
	uids  = map[string]string{}
)

// judge decides whether a document is the one the options demand. It returns
// its transaction identifier.
func (o *options) judge(t *T, text string, indent bool, x *ran) (string, bool) {
	d := o.want()
	root, ok := checkFormat(t, text, d.Version, indent, o.cr, false)
	if !ok {
		return "", false
	}
	var dates, ids []*Elem
	root.find(func(e *Elem) bool { return e.Name == "DTCLIENT" }, &dates)
	root.find(func(e *Elem) bool { return e.Name == "TRNUID" }, &ids)
	bad := func(sig, f string, a ...interface{}) (string, bool) {
		t.Violate(sig, "%s\n%s\n%s", fmt.Sprintf(f, a...), clip(text, 3000), x)
		return "", false
	}
	if len(dates) != 1 || len(ids) != 1 {
		return bad("document", "there are %d DTCLIENT and %d TRNUID", len(dates), len(ids))
	}
	when, ok := parseDate(dates[0].Text)
	if !ok || when.Before(x.before.Truncate(time.Millisecond)) || when.After(x.after) {
		return bad("DTCLIENT", "DTCLIENT is %q instead of between %s and %s", dates[0].Text, x.before, x.after)
	}
	d.Signon.F["DtClient"] = dateLeaf(when)
	id := ids[0].Text
	if !uuidForm.MatchString(id) {
		return bad("TRNUID", "TRNUID is %q", id)
	}
	d.Sets[0].Msgs[0].F["TrnUID"] = uidLeaf(id)
	if err := matchTree(d.tree("RQ", true), root, ""); err != nil {
		return bad("request", "another request than asked for: %v", err)
	}
	t.Count("requests compared", 1)
	return id, true
}

// fresh records a transaction identifier, which nothing else may have used.
func fresh(t *T, id string, x *ran) bool {
	uidMu.Lock()
	defer uidMu.Unlock()
	if o, ok := uids[id]; ok {
		t.Violate("TRNUID", "two runs used the same TRNUID %s: %s, and %s", id, o, x)
		return false
	}
	uids[id] = fmt.Sprintf("ofx %q", x.args)
	return true
}

func init() {
	register(&Check{ID: "C25", Quick: 6, Min: 200,
		Rule: "the download commands run as processes against recording TLS servers which answer with random bytes, documents or nothing in every transfer coding and fragmentation, break off, or answer with another status; into new, longer, unwritable and full files; files are compared byte by byte with what the server delivered; non-trivial: a distinct (command, delivery, file, outcome, body)",
		Run: func(c *C) {
			c.Cases("save", c.N(1000, 8000), c25save)
			c.Cases("fail", c.N(1000, 8000), c25fail)
			c.Cases("large", c.N(16, 300), c25save)
		}})
	register(&Check{ID: "C26", Quick: 5, Min: 200,
		Rule: "every command run as a process with random options in random order and form, against a recording TLS server and as a dry run; the document is parsed and compared with the one the options demand; passwords typed at a pseudo terminal; non-trivial: a distinct (command, options)",
		Run: func(c *C) {
			c.Cases("sent", c.N(2500, 12000), c26sent)
			c.Cases("dry", c.N(1500, 8000), c26dry)
			c.Cases("prompt", c.N(48, 600), c26prompt)
			c.Cases("defaults", c.N(120, 400), c26defaults)
			c.Cases("long", c.N(600, 4000), c26long)
		}})
}

// files a download goes to.
func (t *T) target(dir string) (arg, path string, old []byte) {
	path = filepath.Join(dir, fileName(t.R))
	arg = path
	if t.R.IntN(3) == 0 {
		arg, path = "", filepath.Join(dir, "response.ofx")
	} else if t.R.IntN(3) == 0 {
		arg = filepath.Base(path)
	}
	switch t.R.IntN(3) {
	case 0:
		old = []byte(strings.Repeat("an old response ", 300))
	case 1:
		old = []byte("old")
	}
	if old != nil {
		if err := os.WriteFile(path, old, 0666); err != nil {
			panic(err)
		}
	}
	return arg, path, old
}

// fileName is any name of a file but those of directories.
func fileName(r *rand.Rand) string {
	n := "out " + word(r, 3) + ".ofx"
	switch r.IntN(8) {
	case 0:
		n = strings.Map(func(c rune) rune {
			if c == '/' || c < ' ' {
				return -1
			}
			return c
		}, shaped(r))
	case 1:
		n = pick(r, []string{" ", "  ", "-", "--", "~", "#", "=", "\"", "'", "\t", "\\", "%s", "$HOME", "${HOME}", "*", "é", "\xff"}) + n
	case 2:
		n += pick(r, []string{" ", "  ", ".", "~", "\n", "\t", "/.", "", ".gz", ".bak", "%d", "$USER", "?", "*", "é", "\xff"})
	case 3:
		n = pick(r, []string{"-", "~", " ", "\"a\"", "'a'", "response.ofx", "RESPONSE.OFX", "response.ofx ", "stdout", "NUL", "0", "1", "a,b", "a;b", "a|b", "|a", ">a", "a&", "http:", "file:", "$HOME", "...", ".ofx", "x", "a.b.c", "%", "a:b"})
	case 4:
		n = word(r, 1+r.IntN(200))
	}
	if n = strings.TrimSuffix(n, "/."); n == "" || n == "." || n == ".." {
		n = "x"
	}
	return n
}

func c25body(t *T) string {
	if t.R.IntN(3) == 0 {
		_, b := answer(t)
		return b
	}
	return randomBytes(t.R)
}

// c25save: what the server delivers is in the file.
func c25save(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	body := c25body(t)
	if t.Stream == "large" {
		for k := 1 << (19 + t.Idx%7); len(body) < k; {
			body += body + randomBytes(t.R)
		}
	}
	seed := t.R.Uint64()
	var how string
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
		how = h
		return a
	})
	defer s.stop()
	o := newOptions(t, pick(t.R, downloads), s.url("/ofx"))
	arg, path, old := t.target(dir)
	o.filename = arg
	x := t.ofx(dir, o.args(t.R)...)
	t.File("body", body)
	if !t.succeeded(x, "the server delivered the whole response") {
		return
	}
	got, err := os.ReadFile(path)
	if err != nil || string(got) != body {
		t.Violate("file", "%d bytes were delivered (%s), the file of formerly %d bytes holds %d (%v), differing at %s: %s", len(body), how, len(old), len(got), err, firstDiff(body, string(got)), x)
		return
	}
	es, _ := os.ReadDir(dir)
	if len(es) != 1 {
		t.Violate("other files", "%d files were written: %s", len(es), x)
		return
	}
	if n := len(s.requests()); n != 1 {
		t.Violate("number of requests", "%d requests were sent: %s", n, x)
		return
	}
	if strings.Contains(x.out+x.err, o.pass) && len(o.pass) > 8 {
		t.Violate("password", "the password was printed: %s", x)
		return
	}
	t.Count("files compared", 1)
	t.Count("bytes compared", int64(len(body)))
	t.Distinct("case", o.cmd, how, fmt.Sprint(len(old), arg == ""), body)
	t.Distinct("command, delivery, old file", o.cmd, how, fmt.Sprint(len(old), arg == ""))
	t.Sample("%s: %d bytes (%s) over %d", o.cmd, len(body), how, len(old))
}

// c25fail: what can't be saved completely is reported.
func c25fail(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	body := c25body(t)
	kind := pick(t.R, []string{"status", "cut", "missing directory", "directory", "full", "refused", "closed", "not HTTP", "certificate"})
	seed := t.R.Uint64()
	status := pick(t.R, statuses)
	var how string
	conf := goodTLS()
	if kind == "certificate" {
		how = pick(t.R, badCerts)
		conf.Certificates[0] = cert(how)
	}
	cut := 0
	if len(body) > 0 {
		cut = t.R.IntN(len(body))
	} else if kind == "full" || kind == "cut" {
		body = "something"
	}
	s := listen(conf, func(q *rawReq) reply {
		r := rand.New(rand.NewPCG(seed, 1))
		switch kind {
		case "status":
			how = status
			if strings.HasPrefix(status, "204") || strings.HasPrefix(status, "304") {
				return reply{pieces: []string{"HTTP/1.1 " + status + "\r\n\r\n"}, close: true}
			}
			return reply{pieces: []string{respond(status, body)}, close: true}
		case "cut":
			for {
				a, h := deliver(r, q, body, cut, false)
				// without a length nothing tells that the end is missing
				if h != "until close" {
					how = h
					return a
				}
			}
		case "closed":
			return reply{close: true}
		case "not HTTP":
			return reply{pieces: []string{body + "\r\n\r\n"}, close: true}
		}
		a, h := deliver(r, q, body, -1, false)
		how = h
		return a
	})
	defer s.stop()
	if kind == "not HTTP" && strings.HasPrefix(body, "HTTP/") {
		return
	}
	o := newOptions(t, pick(t.R, downloads), s.url("/ofx"))
	arg, path, old := t.target(dir)
	o.filename = arg
	limit := -1
	switch kind {
	case "missing directory":
		o.filename, path, old = filepath.Join(dir, "none", "x.ofx"), "", nil
	case "directory":
		o.filename, path, old = dir, "", nil
	case "full":
		// (a limit instead of /dev/full, which code under test that renames
		// or removes files would replace for good)
		limit = t.R.IntN((len(body)-1)/1024 + 1)
	case "refused":
		port, release := deadPort()
		defer release()
		o.url = "https://127.0.0.1:" + port + "/ofx"
	}
	x := t.ofxLimited(dir, nil, limit, o.args(t.R)...)
	if !t.failed(x, "the response couldn't be saved ("+kind+" "+how+")") {
		return
	}
	switch kind {
	case "status", "refused", "closed", "not HTTP", "certificate":
		got, err := os.ReadFile(path)
		if (old == nil) != os.IsNotExist(err) || !bytes.Equal(got, old) {
			t.Violate("file touched", "no response arrived (%s %s), but the file which held %q (%v) now holds %q: %s", kind, how, clip(string(old), 50), old != nil, clip(string(got), 100), x)
			return
		}
		t.Count("files left alone", 1)
	}
	if len(o.pass) > 8 && strings.Contains(x.out+x.err, o.pass) {
		t.Violate("password", "the password was printed: %s", x)
		return
	}
	t.Count("failures reported", 1)
	t.Distinct("case", o.cmd, kind, how, fmt.Sprint(len(old), arg == "", cut))
	t.Distinct("command, failure", o.cmd, kind)
}

// c26sent: the server gets what the options say.
func c26sent(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("no response")}, close: true} })
	defer s.stop()
	p := randomPath(t.R)
	o := newOptions(t, pick(t.R, requestCmds), s.url(p[0]))
	x := t.ofx(dir, o.args(t.R)...)
	if t.crashed(x) {
		return
	}
	rs := s.requests()
	if len(rs) != 1 {
		t.Violate("number of requests", "%d requests were sent: %s", len(rs), x)
		return
	}
	n := &netCase{kind: basicDefault, ua: o.ua}
	if !n.header(t, rs[0], p[1], "127.0.0.1:"+s.port(), true) {
		return
	}
	id, ok := o.judge(t, string(rs[0].Body), !o.noIndent, x)
	if !ok || !fresh(t, id, x) {
		return
	}
	t.Distinct("case", x.args...)
	t.Distinct("command, version, format", o.cmd, o.version, fmt.Sprint(o.noIndent, o.cr))
	if len(rs[0].Body) < 1000 {
		t.Sample("%q\n%s", x.args, rs[0].Body)
	}
}

// c26dry: a dry run prints the request and sends nothing.
func c26dry(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("")}, close: true} })
	defer s.stop()
	u := s.url("/ofx")
	if t.R.IntN(4) == 0 {
		u = pick(t.R, []string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://127.0.0.1:1/", "http://127.0.0.1:" + s.port() + "/"})
	}
	o := newOptions(t, pick(t.R, requestCmds), u)
	o.dryrun = true
	x := t.ofx(dir, o.args(t.R)...)
	if !t.succeeded(x, "it was a dry run") {
		return
	}
	if n := len(s.connections()); n != 0 {
		t.Violate("dry run", "a dry run made %d connections: %s", n, x)
		return
	}
	if es, _ := os.ReadDir(dir); len(es) != 0 {
		t.Violate("dry run", "a dry run wrote %d files: %s", len(es), x)
		return
	}
	id, ok := o.judge(t, strings.TrimSuffix(x.out, "\n"), !o.noIndent, x)
	if !ok || !fresh(t, id, x) {
		return
	}
	t.Count("dry runs", 1)
	t.Distinct("case", x.args...)
	t.Distinct("command, version, format (dry)", o.cmd, o.version, fmt.Sprint(o.noIndent, o.cr))
}

// c26long: options which are too long for a request are never replaced by
// others: either nothing is requested, or what was asked for.
func c26long(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("no response")}, close: true} })
	defer s.stop()
	o := newOptions(t, pick(t.R, requestCmds), s.url("/ofx"))
	o.anonymous = false
	o.wantUser, o.wantPw = o.user, o.pass
	what := pick(t.R, []string{"username", "username", "password", "appid", "appver"})
	switch what {
	case "username":
		o.user = overlong(t.R, 32)
		o.wantUser = o.user
	case "password":
		o.pass = overlong(t.R, 32)
		o.wantPw = o.pass
	case "appid":
		o.appID = overlong(t.R, 5)
		o.wantID = o.appID
	case "appver":
		o.appVer = overlong(t.R, 4)
		o.wantVer = o.appVer
	}
	o.dryrun = t.R.IntN(2) == 0
	x := t.ofx(dir, o.args(t.R)...)
	if t.crashed(x) {
		return
	}
	rs := s.requests()
	var sent string
	switch {
	case o.dryrun && len(s.connections()) != 0:
		t.Violate("dry run", "a dry run made %d connections: %s", len(s.connections()), x)
		return
	case o.dryrun && x.code == 0:
		sent = strings.TrimSuffix(x.out, "\n")
	case len(rs) > 1:
		t.Violate("number of requests", "%d requests were sent: %s", len(rs), x)
		return
	case len(rs) == 1:
		sent = string(rs[0].Body)
	case x.code == 0:
		t.Violate("exit status", "nothing was requested, but the exit status was zero: %s", x)
		return
	}
	if sent != "" {
		if id, ok := o.judge(t, sent, !o.noIndent, x); !ok || !fresh(t, id, x) {
			return
		}
	} else if strings.Contains(x.out, "<OFX>") {
		t.Violate("overlong option", "the %s is too long, but a request was printed: %s", what, x)
		return
	}
	t.Count("runs with overlong options", 1)
	t.Distinct("case", x.args...)
	t.Distinct("command, overlong option", o.cmd, what, fmt.Sprint(o.dryrun))
}

// c26defaults: every option left out has its documented default.
func c26defaults(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("no response")}, close: true} })
	defer s.stop()
	cmd := requestCmds[t.Idx%len(requestCmds)]
	o := newOptions(t, cmd, s.url("/"))
	o.org, o.fid, o.appID, o.appVer, o.version, o.clientUID, o.noIndent, o.cr, o.ua = "", "", "-", "-", "-", "", false, false, ""
	o.wantID, o.wantVer, o.acctType = "QWIN", "2400", "CHECKING"
	args := []string{cmd, "-url", o.url}
	if !o.anonymous {
		args = append(args, "-username", o.user, "-password", o.pass)
	}
	for n, v := range map[string]string{"bankid": o.bankID, "acctid": o.acctID, "brokerid": o.brokerID} {
		if has(cmd, n) {
			args = append(args, "-"+n, v)
		}
	}
	x := t.ofx(dir, args...)
	rs := s.requests()
	if t.crashed(x) {
		return
	}
	if len(rs) != 1 {
		t.Violate("number of requests", "%d requests were sent: %s", len(rs), x)
		return
	}
	id, ok := o.judge(t, string(rs[0].Body), true, x)
	if !ok || !fresh(t, id, x) {
		return
	}
	t.Count("runs with defaults", 1)
	t.Distinct("case", x.args...)
}

// openPTY opens a pseudo terminal, if the system lets us.
func openPTY() (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil
	}
	var n, zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&zero))); e != 0 {
		m.Close()
		return nil, nil
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil
	}
	return m, s
}

func echoes(f *os.File) bool {
	var tio syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		return true
	}
	return tio.Lflag&syscall.ECHO != 0
}

// c26prompt: a password which isn't an option is asked for, isn't shown, and
// is used.
func c26prompt(t *T) {
	m, sl := openPTY()
	if m == nil {
		t.Count("no pseudo terminals", 1)
		return
	}
	defer m.Close()
	defer sl.Close()
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("no response")}, close: true} })
	defer s.stop()
	o := newOptions(t, pick(t.R, requestCmds), s.url("/"))
	o.anonymous = false
	pass := word(t.R, 12+t.R.IntN(12))
	if t.R.IntN(2) == 0 {
		pass = pick(t.R, []string{"", " ", "  ", "&", "<", "\"", "-", "#", "é"}) + pass + pick(t.R, []string{"", ";", ">", "'", "%s", "$x", "é"})
		if t.R.IntN(2) == 0 && (o.version == "-" || o.version >= "200") {
			pass += pick(t.R, []string{" ", "  "})
		}
	}
	o.wantUser, o.wantPw, o.pass = o.user, pass, ""
	done := make(chan bool)
	typed := make(chan bool)
	go func() {
		defer close(typed)
		// Type only when the terminal doesn't echo any more; but don't wait
		// for that forever
		for i := 0; i < 30000 && echoes(sl); i++ {
			select {
			case <-done:
				return
			case <-time.After(time.Millisecond):
			}
		}
		m.Write([]byte(pass + "\n"))
	}()
	var shown bytes.Buffer
	var smu sync.Mutex
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			smu.Lock()
			shown.Write(b[:n])
			smu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	x := t.ofxIn(dir, sl, o.args(t.R)...)
	close(done)
	<-typed
	if t.crashed(x) {
		return
	}
	time.Sleep(2 * time.Millisecond)
	smu.Lock()
	screen := shown.String()
	smu.Unlock()
	if strings.Contains(screen, pass) || strings.Contains(x.out+x.err, pass) {
		t.Violate("password shown", "the password was shown: %q, %s", screen, x)
		return
	}
	rs := s.requests()
	if len(rs) != 1 {
		t.Violate("number of requests", "%d requests were sent after the password was typed: %s", len(rs), x)
		return
	}
	id, ok := o.judge(t, string(rs[0].Body), !o.noIndent, x)
	if !ok || !fresh(t, id, x) {
		return
	}
	if !echoes(sl) {
		t.Violate("terminal", "the terminal doesn't echo any more: %s", x)
		return
	}
	t.Count("passwords typed", 1)
	t.Distinct("case", x.args...)
}
