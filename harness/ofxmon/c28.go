package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"
)

// setting is one combination detect-settings tries.
type setting struct {
	appID, appVer, version string
	noIndent               bool
}

// settings are all combinations in the order of preference: as the sources of
// the command document them when this was written, and frozen.
var settings = func() (out []setting) {
	for _, app := range []struct{ id, vers string }{
		{"OFXGO", "0001"},
		{"QWIN", "2600 2500 2400 2300 2200 2100 2000 1900 1800 1700 1600 1500 1400"},
		{"QMOFX", "1700 1600 1500 1400"},
		{"QB", "1800 1700 1600 1500"},
		{"Money", "1600 1500 1400 1200 1100"},
	} {
		for _, v := range strings.Fields(app.vers) {
			for _, ofx := range strings.Fields("203 103 200 201 202 210 211 102 151 160 220") {
				out = append(out, setting{app.id, v, ofx, false}, setting{app.id, v, ofx, true})
			}
		}
	}
	return out
}()

func init() {
	register(&Check{ID: "C28", Quick: 1, Min: 30,
		Rule: "detect-settings run as a process against servers which accept nothing, the n-th attempt, or only clients with some settings, and turn down everything else in many ways; every request is compared with the attempt it has to be, and the output with the settings which were accepted; non-trivial: a distinct (accepted attempt or rule, ways of turning down)",
		Run: func(c *C) {
			c.Cases("detect", c.N(150, 900), c28detect)
			c.Cases("delay", c.N(24, 100), c28delay)
		}})
	register(&Check{ID: "C29", Quick: 8, Min: 200,
		Rule: "every command run as a process with missing, malformed and contradicting options, against URLs of other schemes, closed ports, bad certificates, failing servers and unreadable responses; exit status, message and what arrived at the server are judged; non-trivial: a distinct (command, mistake)",
		Run: func(c *C) {
			c.Cases("usage", c.N(2000, 12000), c29usage)
			c.Cases("server", c.N(1200, 6000), c29server)
			c.Cases("file", c.N(200, 3000), c29file)
			c.Cases("signon", c.N(400, 3000), c29signon)
		}})
}

// turnDown is an answer which means that settings don't work.
func turnDown(t *T, r *G, doc string) (reply, string) {
	keep := r.R.IntN(2) == 0
	a := reply{close: !keep}
	var hdr []string
	if !keep {
		hdr = []string{"Connection: close"}
	}
	kinds := []string{"status", "status", "garbage", "empty", "truncated", "closed", "html", "no signon", "cut"}
	k := pick(r.R, kinds)
	switch k {
	case "status":
		s := pick(r.R, []string{"400 Bad Request", "401 Unauthorized", "403 Forbidden", "404 Not Found", "405 Method Not Allowed", "406 Not Acceptable", "415 Unsupported", "500 Internal Server Error", "503 Service Unavailable", "201 Created", "202 Accepted"})
		// even with a document that would do
		a.pieces = []string{respond(s, pick(r.R, []string{"", doc, "error"}), hdr...)}
	case "garbage":
		a.pieces = []string{ok(randomBytes(r.R)+"x", hdr...)}
	case "empty":
		a.pieces = []string{ok("", hdr...)}
	case "truncated":
		d := strings.TrimRight(doc, " \t\r\n")
		a.pieces = []string{ok(d[:len(d)-len("</OFX>")-r.R.IntN(len(d)/2)], hdr...)}
	case "closed":
		a.close = true
	case "html":
		a.pieces = []string{ok("<html><body>Service unavailable</body></html>", hdr...)}
	case "no signon":
		a.pieces = []string{ok(doc[:strings.Index(doc, "<OFX>")]+"<OFX></OFX>", hdr...)}
	case "cut":
		s := ok(doc, "Connection: close")
		a.pieces, a.close = []string{s[:len(s)-len("</OFX>")-2-r.R.IntN(len(doc)/2)]}, true
	}
	return a, k
}

// profile makes a profile response.
func (t *T) profile(g *G) string { return t.profileWith(g, statusCodes[0]) }

// profileWith makes one to a signon with some status.
func (t *T) profileWith(g *G, s StatusDef) string {
	d := g.statement(t, "ProfileResponse", func(m *Agg) {})
	st := d.Signon.sub("Status")
	st.F["Code"], st.F["Severity"] = intLeaf(s.Code), strLeaf(s.Severity)
	return canonical(t.R).doc(d.Version, d.tree("RS", false))
}

func c28detect(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	g := newG(t.R)
	g.Plain = true
	st := statusCodes[0]
	switch t.R.IntN(3) {
	case 0:
		st = pick(t.R, statusList)
	case 1: // of signons
		st = statusCodes[pick(t.R, []int64{15000, 15500, 15500, 15501, 15502, 15506, 15507, 15508, 15510, 2000, 3000})]
		if st.Severity == "" {
			st = statusCodes[15500]
		}
	}
	doc := t.profileWith(g, st)
	total := 2 * len(settings)
	// which request is accepted
	accept := -1
	rule := ""
	switch t.R.IntN(6) {
	case 0: // none
		rule = "none"
	case 1:
		accept = t.R.IntN(total)
	case 2:
		accept = t.R.IntN(8)
	default:
		accept = t.R.IntN(1 << (1 + t.R.IntN(9)))
	}
	if t.R.IntN(3) == 0 {
		// a server which looks at the request
		w := pick(t.R, settings)
		parts := t.R.IntN(16)
		anon := t.R.IntN(2)
		accept = -1
		for i, s := range settings {
			if (parts&1 == 0 || s.appID == w.appID) && (parts&2 == 0 || s.appVer == w.appVer) && (parts&4 == 0 || s.version == w.version) && (parts&8 == 0 || s.noIndent == w.noIndent) {
				accept = 2*i + anon
				break
			}
		}
		rule = fmt.Sprint("settings ", parts)
	}
	var mu sync.Mutex
	ways := map[string]bool{}
	s := listen(goodTLS(), func(q *rawReq) reply {
		mu.Lock()
		defer mu.Unlock()
		if q.N == accept {
			return reply{pieces: []string{ok(doc, "Connection: close")}, close: true}
		}
		a, k := turnDown(t, g, doc)
		ways[k] = true
		return a
	})
	defer s.stop()
	o := newOptions(t, "detect-settings", s.url("/ofx"))
	// every length there may be, but long enough to be told from other text
	o.pass = word(t.R, 8+t.R.IntN(25))
	o.wantPw = o.pass
	o.user = word(t.R, 1+t.R.IntN(32))
	o.wantUser = o.user
	x := t.ofx(dir, o.args(t.R)...)
	if t.crashed(x) {
		return
	}
	rs := s.requests()
	n := accept + 1
	if accept < 0 {
		n = total
	}
	bad := func(sig, f string, a ...interface{}) {
		x.out = "…" + x.out[max(0, len(x.out)-1500):]
		t.Violate(sig, "request %d was to be accepted: %s: %s", accept, fmt.Sprintf(f, a...), x)
	}
	last := ""
	for i, q := range rs {
		if i >= n {
			break
		}
		w := settings[i/2]
		p := *o
		p.wantID, p.wantVer, p.version, p.noIndent, p.cr = w.appID, w.appVer, w.version, w.noIndent, false
		if i%2 == 1 {
			p.wantUser, p.wantPw = "anonymous00000000000000000000000", "anonymous00000000000000000000000"
		}
		id, good := p.judge(t, string(q.Body), !p.noIndent, x)
		if !good {
			bad("attempt", "request %d isn't attempt %+v", i, w)
			return
		}
		if i%2 == 0 || id != last {
			if !fresh(t, id, x) {
				return
			}
		}
		last = id
		if i%2 == 1 && strings.Contains(string(q.Body), o.pass) {
			bad("password", "request %d, made anonymously, holds the password", i)
			return
		}
	}
	if len(rs) != n {
		bad("number of requests", "%d requests were sent instead of %d", len(rs), n)
		return
	}
	if strings.Contains(x.out+x.err, o.pass) {
		bad("password", "the password was printed")
		return
	}
	if accept < 0 {
		if x.code == 0 || !strings.Contains(x.out+x.err, "No working settings found") || strings.Contains(x.out, "found to work") {
			bad("result", "no settings were accepted")
			return
		}
		t.Count("exhausted", 1)
	} else {
		if x.code != 0 {
			bad("exit status", "settings were accepted")
			return
		}
		_, found, has := strings.Cut(x.out, "found to work:")
		w := settings[accept/2]
		want := []string{"AppID: " + w.appID, "AppVer: " + w.appVer, "OFX Version: " + w.version, fmt.Sprintf("noindent: %t", w.noIndent)}
		got := (&ran{out: found}).lines()
		if !has || strings.Join(want, "\n") != strings.Join(got, "\n") {
			bad("result", "printed %q instead of %q", got, want)
			return
		}
		t.Count("settings found", 1)
	}
	t.Count("attempts compared", int64(n))
	t.Distinct("case", fmt.Sprint(accept, sortedKeys(ways)), rule)
	t.Distinct("accepted request", fmt.Sprint(accept))
	if len(x.out) < 1400 {
		t.Sample("accepting request %d: %s", accept, x.out)
	}
}

// c28delay: attempts keep their distance.
func c28delay(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	g := newG(t.R)
	g.Plain = true
	doc := t.profile(g)
	accept := 2 + t.R.IntN(8)
	many := t.Idx%2 == 1
	if many {
		accept = 18 + t.R.IntN(35)
	}
	var mu sync.Mutex
	var at []time.Time
	s := listen(goodTLS(), func(q *rawReq) reply {
		mu.Lock()
		defer mu.Unlock()
		at = append(at, time.Now())
		if q.N == accept {
			return reply{pieces: []string{ok(doc, "Connection: close")}, close: true}
		}
		return reply{pieces: []string{respond("500 Internal Server Error", "", "Connection: close")}, close: true}
	})
	defer s.stop()
	o := newOptions(t, "detect-settings", s.url("/ofx"))
	o.delay = 10 + t.R.IntN(90)
	if many {
		o.delay = 1 + t.R.IntN(330)
	}
	args := o.args(t.R)
	if t.Idx%4 == 0 {
		o.delay = 500 // the default
		args = []string{"detect-settings", "-url", o.url, "-username", o.user, "-password", o.pass}
	}
	x := t.ofx(dir, args...)
	if !t.succeeded(x, "settings were accepted") {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for i := 2; i < len(at); i += 2 {
		if d := at[i].Sub(at[i-1]); d < time.Duration(o.delay)*time.Millisecond {
			t.Violate("delay", "an attempt followed another after %s instead of %dms: %s", d, o.delay, x)
			return
		}
		t.Count("delays measured", 1)
	}
	t.Distinct("case", strconv.Itoa(o.delay), strconv.Itoa(accept))
}

// c29usage: mistakes on the command line.
func c29usage(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("")}, close: true} })
	defer s.stop()
	r := t.R
	cmd := pick(r, allCmds)
	o := newOptions(t, cmd, s.url("/"))
	if cmd == "detect-settings" {
		o.delay = 0
	}
	o.anonymous = false
	kind := pick(r, []string{"no arguments", "unknown command", "no url", "no username", "no password", "unknown flag", "no value", "bad boolean", "version", "accttype", "filename", "http", "scheme", "url", "help", "long", "empty", "delay", "argument", "argument"})
	var args []string
	what := kind
	without := func(args []string, name string) []string {
		var out []string
		for i := 0; i < len(args); i++ {
			a := strings.TrimLeft(args[i], "-")
			if i > 0 && strings.HasPrefix(args[i], "-") && a == name {
				i++
				continue
			}
			if i > 0 && strings.HasPrefix(args[i], "-") && strings.HasPrefix(a, name+"=") {
				continue
			}
			out = append(out, args[i])
		}
		return out
	}
	// plain texts, so that values can't be mistaken for flags
	o.user, o.pass, o.org, o.fid, o.bankID, o.acctID, o.brokerID = word(r, 8), word(r, 12), word(r, 4), word(r, 4), word(r, 9), word(r, 10), word(r, 6)
	o.appID, o.appVer = "-", "-"
	args = o.args(r)
	help := false
	switch kind {
	case "no arguments":
		args = nil
	case "unknown command":
		// with the rest as that command wants it, so that only the name is wrong
		args[0] = misnamed(r, cmd)
		if slices.Contains(allCmds, args[0]) || slices.Contains([]string{"-h", "-help", "--help", "help"}, args[0]) {
			return
		}
		what += fmt.Sprintf(" %q", args[0])
	case "no url":
		args = without(args, "url")
		if r.IntN(2) == 0 {
			args = append(args, "-url", "")
		}
	case "no username":
		if cmd == "download-profile" {
			return
		}
		args = without(args, "username")
	case "no password":
		args = without(args, "password")
	case "unknown flag":
		f := pick(r, []string{"-nosuch", "--account=5", "-x", "-Url=a", "-pass", "---url"})
		at := 1 + r.IntN(2)
		for at < len(args) && !strings.HasPrefix(args[at], "-") {
			at++
		}
		args = append(args[:at:at], append([]string{f}, args[at:]...)...)
		if at > 1 && !strings.Contains(args[at-1], "=") && strings.HasPrefix(args[at-1], "-") {
			args = []string{cmd, f}
		}
	case "no value":
		args = append(without(args, "org"), "-org")
	case "bad boolean":
		if cmd == "detect-settings" {
			return
		}
		args = append(args, "-"+pick(r, []string{"noindent", "carriagereturn", "dryrun"})+"="+pick(r, []string{"maybe", "2", "yes", "Y"}))
	case "version":
		if cmd == "detect-settings" {
			return
		}
		v := pick(r, []string{"", "100", "104", "1.0.2", "2", "204", "221", "20 3", "0203", "999", "abc"})
		if r.IntN(2) == 0 {
			v = near(r, enums["ofxVersion"].Values...)
		}
		args = append(without(args, "ofxversion"), "-ofxversion", v)
		what += " " + v
	case "accttype":
		if !has(cmd, "accttype") {
			return
		}
		v := pick(r, []string{"", "CHECK", "SAVING", "CREDIT", "CHECKING,SAVINGS", "0", "CHEQUE"})
		if r.IntN(2) == 0 {
			if w := near(r, enums["acctType"].Values...); !slices.Contains(enums["acctType"].Values, strings.ToUpper(w)) {
				v = w
			}
		}
		args = append(without(args, "accttype"), "-accttype", v)
		what += " " + v
	case "filename":
		if !has(cmd, "filename") {
			return
		}
		args = append(without(args, "filename"), "-filename", "")
	case "http":
		args = append(without(args, "url"), "-url", "http"+strings.TrimPrefix(s.url("/"), "https"))
	case "scheme":
		v := pick(r, []string{"ftp", "file", "HTTP", "ofx", "", "httpss", "https+unix"}) + strings.TrimPrefix(s.url("/"), "https")
		args = append(without(args, "url"), "-url", v)
		what += " " + v[:4]
	case "url":
		v := pick(r, []string{"127.0.0.1:" + s.port(), "https//127.0.0.1", "https:127.0.0.1:" + s.port(), "https://", "https://127.0.0.1:99999/", "https://%zz/", "https://[::1", " https://127.0.0.1:" + s.port(), "//127.0.0.1:" + s.port() + "/"})
		args = append(without(args, "url"), "-url", v)
	case "help":
		help = true
		h := pick(r, []string{"-h", "-help", "--help"})
		args = pick(r, [][]string{{h}, {"help"}, {cmd, h}})
		if r.IntN(2) == 0 {
			// help about something
			args = append(pick(r, [][]string{{h}, {"help"}}), pick(r, []string{cmd, cmd, misnamed(r, cmd), "help", "-url", word(r, 6)}))
		}
	case "long":
		// more than the specification allows
		if cmd == "detect-settings" {
			return // the anonymous attempts don't use it
		}
		n, v := "username", overlong(r, 32)
		switch k := r.IntN(4); {
		case k == 0:
			n, v = "password", overlong(r, 32)
		case k == 1:
			n, v = "appid", overlong(r, 5)
		case k == 2:
			n, v = "appver", overlong(r, 4)
		}
		args = append(without(args, n), "-"+n, v)
		what += " " + n
	case "empty":
		if !has(cmd, "bankid") {
			return
		}
		n := pick(r, []string{"bankid", "acctid"})
		args = append(without(args, n), pick(r, []string{"-" + n + "=", ""}))
		if args[len(args)-1] == "" {
			args = args[:len(args)-1]
		}
		what += " " + n
	case "argument":
		// something which is no option; what follows is no option either
		at := 1 + r.IntN(len(args))
		for at < len(args) && (!strings.HasPrefix(args[at], "-") || at > 1 && !strings.Contains(args[at-1], "=") && strings.HasPrefix(args[at-1], "-")) {
			at++
		}
		a := pick(r, []string{word(r, 6), "true", "false", "1", "https://127.0.0.1/", "url=x", cmd, "help", "--", "–acctid", ".", "5", ""})
		rest := args[at:]
		if a == "--" {
			rest = append([]string{word(r, 3)}, rest...)
		}
		args = append(args[:at:at], append([]string{a}, rest...)...)
		what += fmt.Sprintf(" %q", a)
	case "delay":
		if cmd != "detect-settings" {
			return
		}
		args = append(without(args, "delay"), "-delay", pick(r, []string{"-1", "x", "0.5", "1s", "99999999999999999999"}))
	}
	if r.IntN(4) == 0 && cmd != "detect-settings" && (kind == "long" || kind == "empty" || kind == "version" || kind == "accttype") {
		args = append(args, "-dryrun")
		what += " dry"
	}
	x := t.ofx(dir, args...)
	if help {
		if !t.succeeded(x, "help was asked for") {
			return
		}
		text := x.out + x.err
		all := ""
		for _, c := range allCmds {
			if !strings.Contains(text, c) {
				all = c
			}
		}
		if args[0] != cmd && all == "" {
			// the commands are listed
		} else if args[0] != cmd && !(len(args) == 2 && args[1] == cmd) {
			t.Violate("help", "the help doesn't mention %s: %s", all, x)
			return
		} else {
			known := map[string]bool{}
			for _, n := range strings.Fields("url username password org fid appid appver ofxversion clientuid useragent noindent carriagereturn dryrun bankid acctid accttype brokerid filename delay") {
				known[n] = true
			}
			for _, p := range o.args(r)[1:] {
				if n, _, _ := strings.Cut(strings.TrimLeft(p, "-"), "="); strings.HasPrefix(p, "-") && known[n] && !strings.Contains(text, "-"+n) {
					t.Violate("help", "the help doesn't mention -%s: %s", n, x)
					return
				}
			}
		}
		t.Count("help", 1)
	} else {
		if !t.failed(x, "of "+what) {
			return
		}
		if strings.Contains(x.out+x.err, o.pass) {
			t.Violate("password", "the password was printed: %s", x)
			return
		}
		t.Count("mistakes reported", 1)
	}
	if n := len(s.requests()); n != 0 {
		t.Violate("sent", "%d requests were sent in spite of %s: %s", n, what, x)
		return
	}
	if b := s.received(); contains(b, []string{o.user, o.pass}) != "" {
		t.Violate("sent", "credentials were sent in spite of %s: %s", what, x)
		return
	}
	if es, _ := os.ReadDir(dir); len(es) != 0 {
		t.Violate("files", "files were written in spite of %s: %s", what, x)
		return
	}
	t.Distinct("case", cmd, what)
	t.Distinct("mistakes", kind)
	t.Sample("ofx %q: %d %s", args, x.code, clip(x.out, 200))
}

// misnamed is a name like a command's.
func misnamed(r *rand.Rand, cmd string) string {
	i := r.IntN(len(cmd))
	dash := strings.Index(cmd, "-")
	switch r.IntN(22) {
	case 0:
		return strings.ToUpper(cmd)
	case 1:
		return strings.ToUpper(cmd[:1]) + cmd[1:]
	case 2:
		return cmd[:dash+1] + strings.ToUpper(cmd[dash+1:dash+2]) + cmd[dash+2:]
	case 3:
		return strings.ToUpper(cmd[:1]) + cmd[1:dash+1] + strings.ToUpper(cmd[dash+1:dash+2]) + cmd[dash+2:]
	case 4:
		return cmd[:i] + strings.ToUpper(cmd[i:i+1]) + cmd[i+1:] + cmd[:0]
	case 5:
		return cmd[:len(cmd)-1-r.IntN(3)]
	case 6:
		return cmd[:1+i]
	case 7:
		return cmd + pick(r, []string{" ", "s", "-", "=", "\t", "\n", ".exe", "1", "-help"})
	case 8:
		return pick(r, []string{" ", "-", "--", "/", "./", "\t", "ofx-", "ofx "}) + cmd
	case 9:
		return strings.ReplaceAll(cmd, "-", pick(r, []string{"_", "", " ", "--", ".", "\u2010", "\u2013"}))
	case 10:
		return cmd[:i] + cmd[i+1:]
	case 11:
		return cmd[:i] + cmd[i:i+1] + cmd[i:]
	case 12:
		return cmd[dash+1:]
	case 13:
		return cmd[:dash]
	case 14:
		return cmd[dash+1:] + "-" + cmd[:dash]
	case 15:
		return cmd[:i] + word(r, 1) + cmd[i+1:]
	case 16:
		s, _ := sourceText(r, 1)
		return s
	case 17:
		if s, ok := dictText(r, 1); ok {
			return s
		}
	case 18: // the start of a command and the end of another
		o := pick(r, allCmds)
		return cmd[:dash] + o[strings.Index(o, "-"):]
	case 19: // Unicode folds these into s and k
		return strings.NewReplacer("s", "\u017f", "k", "\u212a").Replace(cmd)
	}
	return pick(r, []string{"download", "transactions", "get-account", "Download-Bank", "", "-url", word(r, 5), "detect", "HELP", "Help", "-H", "-?", "/?", "h", "--h", "---help", "version", "--version"})
}

// overlong is a text of more than n characters.
func overlong(r *rand.Rand, n int) string {
	s := word(r, n+1+r.IntN(4))
	switch r.IntN(6) {
	case 0:
		return s
	case 1:
		return s + word(r, 1+r.IntN(200))
	case 2:
		return strings.Repeat(pick(r, []string{"0", "a", "9", "-", "*"}), n+1+r.IntN(30))
	case 3:
		i := r.IntN(len(s))
		return s[:i] + pick(r, []string{"@", ".", "-", "_", "+", " ", "/", "\\", ":", ";", ",", "%", "=", "#", "&"}) + s[i:]
	case 4:
		return digits(r, n+1+r.IntN(30))
	}
	for {
		if w := strings.TrimSpace(shaped(r)) + s; strings.Trim(w, asciiText) == "" {
			return w
		}
	}
}

// c29signon: the server answers properly, but the signon failed.
func c29signon(t *T) {
	d, _ := answer(t)
	cmd := pick(t.R, append(append([]string{}, transactions...), "get-accounts"))
	def := pick(t.R, statusList)
	if t.R.IntN(3) == 0 {
		def = statusCodes[pick(t.R, []int64{1, 15500, 15000, 2000, 15511})]
	}
	if def.Code == 0 {
		return
	}
	st := d.Signon.sub("Status")
	st.F["Code"], st.F["Severity"] = intLeaf(def.Code), strLeaf(def.Severity)
	if st.has("Message") {
		// it is printed, and mustn't look like a result
		st.F["Message"] = strLeaf(word(t.R, 12))
	}
	x, ok := t.printing(cmd, d)
	if !ok || !t.failed(x, fmt.Sprintf("the signon's status is %d %s", def.Code, def.Severity)) {
		return
	}
	if !strings.Contains(x.out+x.err, fmt.Sprint(def.Code)) {
		t.Violate("status", "the signon's status %d isn't reported: %s", def.Code, x)
		return
	}
	if strings.Contains(x.out, "Balance:") || strings.Contains(x.out, "AcctID:") || strings.Contains(x.out, "Found the following") {
		t.Violate("result", "the signon failed, but something was printed: %s", x)
		return
	}
	t.Count("failed signons reported", 1)
	t.Distinct("case", "signon", cmd, fmt.Sprint(def.Code))
	t.Distinct("failures", cmd, "signon", fmt.Sprint(def.Code))
}

// c29server: what goes wrong at the server's end.
func c29server(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	g := newG(t.R)
	g.Plain = true
	doc := t.profile(g)
	cmd := pick(t.R, append(append([]string{}, transactions...), "get-accounts", "get-accounts"))
	kind := pick(t.R, []string{"turned down", "turned down", "refused", "certificate", "plain", "nowhere"})
	if kind != "turned down" {
		cmd = pick(t.R, requestCmds)
	}
	what := kind
	conf := goodTLS()
	switch kind {
	case "certificate":
		b := pick(t.R, badCerts)
		conf.Certificates[0] = cert(b)
		what += " " + b
	case "plain":
		conf = nil
	}
	s := listen(conf, func(q *rawReq) reply {
		if kind == "turned down" {
			a, k := turnDown(t, g, doc)
			what += " " + k
			return a
		}
		return reply{pieces: []string{ok(doc)}, close: true}
	})
	defer s.stop()
	o := newOptions(t, cmd, strings.Replace(s.url("/"), "http:", "https:", 1))
	o.user, o.pass = word(t.R, 16), word(t.R, 16)
	switch kind {
	case "refused":
		port, release := deadPort()
		defer release()
		o.url = "https://127.0.0.1:" + port + "/ofx"
	case "nowhere":
		o.url = pick(t.R, []string{"https://no-such-host.invalid/", "https://localhost:1/", "https://127.0.0.1:1/x"})
	}
	x := t.ofx(dir, o.args(t.R)...)
	if !t.failed(x, "the server didn't answer properly ("+what+")") {
		return
	}
	if strings.Contains(x.out+x.err, o.pass) {
		t.Violate("password", "the password was printed: %s", x)
		return
	}
	if strings.Contains(x.out, "Balance:") || strings.Contains(x.out, "AcctID:") || strings.Contains(x.out, "Found the following") {
		t.Violate("result", "something was printed (%s): %s", what, x)
		return
	}
	if kind != "turned down" {
		if p := contains(s.received(), []string{o.user, o.pass}); p != "" {
			t.Violate("sent", "credentials were sent (%s): %s", what, x)
			return
		}
	}
	t.Count("failures reported", 1)
	t.Distinct("case", cmd, what)
	t.Distinct("failures", what)
}

// c29file: files which can't be written.
func c29file(t *T) {
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0777)
	os.WriteFile(filepath.Join(dir, "old"), []byte("old"), 0666)
	os.Symlink("sub", filepath.Join(dir, "link"))
	files := func() (s string) {
		filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			s += p + "\n"
			return nil
		})
		return
	}
	before := files()
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok("a response")}, close: true} })
	defer s.stop()
	o := newOptions(t, pick(t.R, downloads), s.url("/"))
	o.user, o.pass = word(t.R, 16), word(t.R, 16)
	o.filename = pick(t.R, []string{".", "..", "sub", "sub/", "link", "link/", "./sub/.", dir, "none/x", "none/", "x/", "old/x", "old/", "sub/none/x", strings.Repeat("x", 256+t.R.IntN(200)), strings.Repeat("sub/../", 700) + "x"})
	x := t.ofx(dir, o.args(t.R)...)
	if !t.failed(x, fmt.Sprintf("the file %q can't be written", clip(o.filename, 40))) {
		return
	}
	if strings.Contains(x.out+x.err, o.pass) {
		t.Violate("password", "the password was printed: %s", x)
		return
	}
	if after := files(); after != before {
		t.Violate("files", "the file %q can't be written, but the files changed at %s: %s", clip(o.filename, 40), firstDiff(before, after), x)
		return
	}
	t.Count("unwritable files reported", 1)
	t.Distinct("case", o.cmd, "file", clip(o.filename, 40))
}
