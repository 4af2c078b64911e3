package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"github.com/aclindsa/ofxgo"
)

// netCase is a request about to be sent by a client.
type netCase struct {
	kind, how int
	d         *Doc // what is to arrive
	f         *format
	r         *ofxgo.Request
	c         ofxgo.Client
	bc        *ofxgo.BasicClient
	ua        string
	before    time.Time
}

func newNetCase(t *T, kind, how int) *netCase {
	n := &netCase{kind: kind, how: how}
	g := newG(t.R)
	if t.R.IntN(10) > 0 {
		g.MaxFrac = 20
	}
	n.d = g.validRequest()
	n.r = n.d.goRequest()
	n.ua = randomUA(t.R)
	v := n.d.Version
	if v == "203" && t.R.IntN(2) == 0 {
		v = "" // the default
	} else if t.R.IntN(3) == 0 {
		// what the caller left in the request doesn't count
		setVersion(&n.r.Version, pick(t.R, enums["ofxVersion"].Values))
		n.r.Signon.AppID, n.r.Signon.AppVer = "XXXXX", "9999"
	}
	n.c, n.f = newClient(t, kind, v, n.ua)
	return n
}

func (n *netCase) name() string { return clientNames[n.kind] + "." + callNames[n.how] }

// sent judges one request as it arrived at the server against the request
// which was sent.
func (n *netCase) sent(t *T, q *rawReq, after time.Time) bool {
	x := n.r.Signon.DtClient.Time
	if x.Before(n.before) || x.After(after) {
		t.Violate("DtClient", "%s set DtClient to %s, between %s and %s", n.name(), x, n.before, after)
		return false
	}
	n.d.Signon.F["DtClient"] = &Node{Leaf: &Leaf{Kind: "date", Time: x}}
	id, ver := n.f.appID, n.f.ver
	if id == "" {
		id = "OFXGO"
	}
	if ver == "" {
		ver = "0001"
	}
	n.d.Signon.F["AppID"], n.d.Signon.F["AppVer"] = strLeaf(id), strLeaf(ver)
	n.d.forced()
	if err := compareRequest(n.r, n.d); err != nil {
		t.Violate("request changed", "%s changed the request: %v", n.name(), err)
		return false
	}
	text := string(q.Body)
	root, ok := checkFormat(t, text, n.d.Version, n.f.indent(), n.f.crlf(), false)
	if !ok {
		return false
	}
	if err := matchTree(n.d.tree("RQ", true), root, ""); err != nil {
		t.Violate("document", "%s sent another document: %v\n%s", n.name(), err, clip(text, 3000))
		return false
	}
	if b, err := n.r.Marshal(); err != nil || b.String() != text {
		t.Violate("document", "%s sent a document which differs from the request's (%v) at %s", n.name(), err, firstDiff(b.String(), text))
		return false
	}
	return true
}

// header judges the HTTP request around a body.
func (n *netCase) header(t *T, q *rawReq, uri, hostport string, known bool) bool {
	l := q.lines()
	bad := func(f string, a ...interface{}) bool {
		t.Violate("http request", "%s: %s\n%q", n.name(), fmt.Sprintf(f, a...), q.Head)
		return false
	}
	if q.Broke != nil {
		return bad("the body broke off after %d bytes: %v", len(q.Body), q.Broke)
	}
	if l[0] != "POST "+uri+" HTTP/1.1" {
		return bad("the request line isn't POST %s HTTP/1.1", uri)
	}
	h := q.Req.Header
	one := func(name, want string) bool {
		if v := h[name]; len(v) != 1 || v[0] != want {
			return bad("%s is %q instead of %q", name, v, want)
		}
		return true
	}
	if !one("Content-Type", "application/x-ofx") {
		return false
	}
	if n.kind == discover {
		hostport = hostport[:strings.LastIndexByte(hostport, ':')]
	}
	if q.Req.Host != hostport {
		return bad("Host is %q instead of %q", q.Req.Host, hostport)
	}
	if len(h["Cookie"]) > 0 || len(h["Authorization"]) > 0 || len(h["Referer"]) > 0 {
		return bad("there are cookies, authorization or a referer which nobody asked for")
	}
	if (known || n.kind == discover) && (q.Req.ContentLength != int64(len(q.Body)) || len(q.Req.TransferEncoding) > 0) {
		return bad("Content-Length is %d with a body of %d", q.Req.ContentLength, len(q.Body))
	}
	if n.ua != "" && n.kind != discover && !one("User-Agent", n.ua) {
		return false
	}
	if n.kind < discover && !strings.Contains(strings.Join(h["Accept"], ","), "application/x-ofx") {
		return bad("Accept is %q", h["Accept"])
	}
	return true
}

// paths of URLs and what the request line has to hold.
var paths = [][2]string{
	{"", "/"}, {"/", "/"}, {"/ofx", "/ofx"}, {"/cgi-bin/ofx.dll?a=b&c=d", "/cgi-bin/ofx.dll?a=b&c=d"}, {"/a%20b/c", "/a%20b/c"},
	{"/a%2Fb", "/a%2Fb"}, {"?q=1", "/?q=1"}, {"/x;y=z", "/x;y=z"}, {"/us/OfxDirectConnectServlet", "/us/OfxDirectConnectServlet"},
	{"/ofx?x=%2F%20+", "/ofx?x=%2F%20+"}, {"/a//b/", "/a//b/"}, {"/ofx#part", "/ofx"}, {"/%C3%A4?%C3%B6=%C3%BC", "/%C3%A4?%C3%B6=%C3%BC"}, {"/a?b?c=/d", "/a?b?c=/d"},
}

// randomPath is the end of a URL, and what the request line has to hold.
func randomPath(r *rand.Rand) [2]string {
	if r.IntN(3) > 0 {
		return pick(r, paths)
	}
	part := func() string {
		if s, ok := dictPlain(r, .5, "-._~"); ok && len(s) < 100 && strings.Trim(s, ".") != "" {
			return s
		}
		return word(r, 1+r.IntN(10))
	}
	s := ""
	for k := r.IntN(4); k > 0; k-- {
		s += "/" + part()
	}
	s += pick(r, []string{"", "", "/", ".dll", ".aspx"})
	w := s
	if !strings.HasPrefix(w, "/") {
		s, w = strings.TrimLeft(s, ".adlspx"), "/"
	}
	if r.IntN(2) == 0 {
		q := "?"
		for k := r.IntN(4); k > 0; k-- {
			q += part() + pick(r, []string{"", "=", "=" + part()}) + pick(r, []string{"&", ""})
		}
		s, w = s+q, w+q
	}
	if r.IntN(8) == 0 {
		s += "#" + part()
	}
	return [2]string{s, w}
}

func randomUA(r *rand.Rand) string {
	if s, ok := dictPlain(r, .1, "-./ ();:_"); ok && len(s) < 200 {
		return strings.TrimSpace(s)
	}
	return pick(r, []string{"", "Mozilla/4.0 (compatible)", "PMTSOFX", "InetClntApp/3.0", "x"})
}

// oddHeaders are headers of a response which don't matter.
func oddHeaders(r *rand.Rand) (out []string) {
	for k := r.IntN(3); k > 0; k-- {
		name := pick(r, []string{"Retry-After", "ETag", "Warning", "Cache-Control", "Content-Language", "Content-Disposition", "Vary", "Via", "Age", "Refresh", "WWW-Authenticate", "Strict-Transport-Security", "Link", "Alt-Svc", "Last-Modified", "Expires", "Content-MD5", "X-Powered-By", "X-Request-ID", "Accept-Ranges", "Content-Location", "Allow", "Set-Cookie2", "P3P"})
		if s, ok := dictPlain(r, .3, "-"); ok && len(s) < 60 && strings.Trim(s, "-") == s {
			switch strings.ToLower(s) {
			case "content-length", "transfer-encoding", "content-encoding", "connection", "set-cookie", "trailer", "content-type", "location", "upgrade":
			default:
				name = s
			}
		}
		val := pick(r, []string{"1", "0", "120", "private, max-age=0", "\"x\"", "*", "Basic realm=\"a\"", "Thu, 19 Nov 2026 18:00:00 GMT", "attachment; filename=\"a.ofx\"", "0; url=/other", ""})
		if s, ok := dictPlain(r, .3, "-./ ();:_="); ok && len(s) < 200 {
			val = strings.TrimSpace(s)
		}
		out = append(out, name+": "+val)
	}
	return out
}

// deliver makes an HTTP response which delivers a body in a random way. cut
// says how much of it is delivered before the connection ends (-1: all).
func deliver(r *rand.Rand, q *rawReq, body string, cut int, keep bool) (reply, string) {
	var s, how string
	hdr := []string{pick(r, []string{"Content-Type: application/x-ofx", "content-type: text/html; charset=utf-8", "Content-Type: application/octet-stream", "X-Y: z"})}
	if r.IntN(4) == 0 {
		hdr = append(hdr, "Date: Thu, 19 Nov 2026 18:00:00 GMT", "Server: Apache", "Pragma: no-cache")
	}
	hdr = append(hdr, oddHeaders(r)...)
	status := pick(r, []string{"HTTP/1.1 200 OK", "HTTP/1.1 200 Fine", "HTTP/1.1 200 ", "HTTP/1.0 200 OK"})
	n := r.IntN(5)
	if keep && n >= 3 {
		n = r.IntN(3)
	}
	if status == "HTTP/1.0 200 OK" && n == 1 {
		status = "HTTP/1.1 200 OK"
	}
	sent := body
	if cut >= 0 {
		sent = body[:cut]
	}
	switch n {
	case 1:
		how = "chunked"
		var b strings.Builder
		b.WriteString(status + "\r\n" + join(hdr) + "Transfer-Encoding: chunked\r\n\r\n")
		size := pick(r, []int{1, 7, 100, 4096, 65536})
		if len(sent) > 1<<18 {
			size = 4096 << r.IntN(8)
		}
		for rest := sent; len(rest) > 0; {
			k := min(size, len(rest))
			fmt.Fprintf(&b, "%x\r\n%s", k, rest[:k])
			if rest = rest[k:]; len(rest) > 0 || cut < 0 {
				b.WriteString("\r\n")
			}
		}
		if cut < 0 {
			b.WriteString("0\r\n\r\n")
		}
		s = b.String()
	case 2:
		if strings.Contains(q.Req.Header.Get("Accept-Encoding"), "gzip") {
			how = "gzip"
			var z bytes.Buffer
			w := gzip.NewWriter(&z)
			io.WriteString(w, body)
			w.Close()
			k := z.Len()
			if cut >= 0 {
				// without the second half the document can.t be complete
				k = min(k*cut/max(1, len(body)), k/2)
			}
			s = status + "\r\n" + join(hdr) + fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len()) + z.String()[:k]
			break
		}
		fallthrough
	case 0:
		how = "length"
		s = status + "\r\n" + join(hdr) + fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body)) + sent
	default:
		how = "until close"
		s = status + "\r\n" + join(hdr) + pick(r, []string{"Connection: close\r\n", ""}) + "\r\n" + sent
	}
	a := reply{close: how == "until close" || cut >= 0 || (!keep && r.IntN(2) == 0)}
	for k := r.IntN(4); k > 0 && len(s) > 1; k-- {
		i := 1 + r.IntN(len(s)-1)
		a.pieces = append(a.pieces, s[:i])
		s = s[i:]
	}
	a.pieces = append(a.pieces, s)
	if len(a.pieces) > 1 {
		a.pause = time.Duration(r.IntN(3)) * time.Millisecond
	}
	return a, how
}

func init() {
	register(&Check{ID: "C19", Min: 300,
		Rule: "random valid requests and responses exchanged by every client and call with a recording TLS server, under random URLs, settings, transfer codings and fragmentation; arbitrary bytes from every kind of reader; transfers cut short; and every other HTTP status; what arrived is parsed and compared with the request, what is returned with the response; non-trivial: a distinct (client, call, delivery, URL form, status) with its document",
		Run: func(c *C) {
			c.Cases("exchange", c.N(5000, 60000), c19exchange)
			c.Cases("raw", c.N(2400, 20000), c19raw)
			c.Cases("large", c.N(36, 600), c19large)
			c.Cases("status", c.N(1600, 12000), c19status)
			c.Cases("cut", c.N(2400, 30000), c19cut)
		}})

	register(&Check{ID: "C20", Quick: 2, Min: 60,
		Rule: "every client and call through every outcome (parsed, invalid, unparsable, other status, cut short, redirected, retried, oversized, not HTTP, refused), with servers which keep connections open; response bodies are watched by a transport of our own, and connections by the server, with garbage collection (which closes lost ones) off; non-trivial: a distinct (client, call, outcome)",
		Run: func(c *C) {
			old := debug.SetGCPercent(-1)
			for i := 0; i < c.N(1, 40); i++ {
				c.Cases(fmt.Sprint("outcomes ", i), 5000, c20outcome)
				runtime.GC()
			}
			c.Serial("goroutines", c.N(1, 10), c20goroutines)
			debug.SetGCPercent(old)
		}})

	register(&Check{ID: "C21", Quick: 5, Min: 100,
		Rule: "Vanguard clients against servers answering empty or not, with and without cookies of many forms, and answering the retry in every way; servers offering only RSA key exchange; several requests by one client; and the other clients against the same answers; requests are recorded and compared; non-trivial: a distinct (client, call, script, number of cookies)",
		Run: func(c *C) {
			c.Cases("retry", c.N(1200, 20000), c21retry)
			c.Cases("no retry", c.N(1200, 20000), c21none)
			c.Cases("ciphers", c.N(150, 1500), c21ciphers)
		}})

	register(&Check{ID: "C22", Quick: 9, Min: 100,
		Rule: "Discover clients under random URLs, hosts and bodies from every kind of reader; the bytes of the request are compared with the exact header Discover demands; and the choice of clients by URL for the known URLs and random neighbours of them; non-trivial: a distinct (URL form, reader, call) or URL",
		Run: func(c *C) {
			c.Cases("wire", c.N(1500, 20000), c22wire)
			c.Cases("choice", c.N(20000, 400000), c22choice)
		}})
}

// c19exchange: a request goes out as it is, and the response comes back.
func c19exchange(t *T) {
	n := newNetCase(t, t.R.IntN(numClients), t.R.IntN(2))
	d, body := answer(t)
	seed := t.R.Uint64()
	var how string
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
		how = h
		return a
	})
	defer s.stop()
	p := randomPath(t.R)
	hostport := pick(t.R, []string{"127.0.0.1", "localhost"}) + ":" + s.port()
	n.r.URL = "https://" + hostport + p[0]
	t.File("response", body)
	n.before = time.Now()
	x := call(n.c, n.how, n.r, nil)
	after := time.Now()
	if x.err != nil {
		t.Violate("failed", "%s (%s): %v", n.name(), how, x.err)
		return
	}
	rs := s.requests()
	if len(rs) != 1 {
		t.Violate("number of requests", "%s sent %d requests", n.name(), len(rs))
		return
	}
	if n.r.URL != "https://"+hostport+p[0] {
		t.Violate("URL", "%s changed the URL to %q", n.name(), n.r.URL)
	}
	if !n.header(t, rs[0], p[1], hostport, true) || !n.sent(t, rs[0], after) {
		return
	}
	if n.how == callRequest {
		if err := compareResponse(x.resp, d); err != nil {
			t.Violate("response", "%s (%s) returned another response: %v", n.name(), how, err)
			return
		}
	} else if x.berr != nil || string(x.body) != body {
		t.Violate("body", "%s (%s) returned another body (%v), differing at %s", n.name(), how, x.berr, firstDiff(body, string(x.body)))
		return
	}
	t.Count("exchanges", 1)
	t.Distinct("case", n.name(), how, p[0], string(rs[0].Body))
	t.Distinct("client, call, delivery, URL form", n.name(), how, p[0])
	if len(rs[0].Body) < 1000 {
		t.Sample("%s%s", rs[0].Head, rs[0].Body)
	}
}

// c19large: requests and responses of megabytes.
func c19large(t *T) {
	n := newNetCase(t, t.Idx%numClients, t.Idx/numClients%numCalls)
	g := longG(t.R)
	g.Long, g.Huge = 0, 0
	data := randomBytes(t.R)
	for k := 1 << (16 + t.R.IntN(7)); n.how == callRaw && len(data) < k; {
		data += data + "more"
	}
	// a document with one huge text, whitespace or list
	d := g.response()
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
	}
	body := randomSpell(t.R).doc(d.Version, d.tree("RS", false))
	min := 1 << (18 + t.R.IntN(6))
	size := min + t.R.IntN(min)
	how := ""
	switch t.R.IntN(2) {
	case 0:
		how = "white space"
		i := strings.LastIndex(body, "</OFX")
		body = body[:i] + strings.Repeat(pick(t.R, []string{" ", "\n", "\r\n", "\t"}), size/2) + body[i:]
	case 1:
		how = "text"
		d.Signon.F["UserKey"] = strLeaf(word(t.R, 16) + strings.Repeat("x1 y &<", size/14) + "end")
		body = randomSpell(t.R).doc(d.Version, d.tree("RS", false))
	}
	seed := t.R.Uint64()
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
		how += ", " + h
		return a
	})
	defer s.stop()
	n.r.URL = s.url("/")
	n.before = time.Now()
	x := call(n.c, n.how, n.r, strings.NewReader(data))
	after := time.Now()
	rs := s.requests()
	switch {
	case x.err != nil:
		t.Violate("failed", "%s (%s, %d bytes): %v", n.name(), how, len(body), x.err)
		return
	case len(rs) != 1:
		t.Violate("number of requests", "%s sent %d requests", n.name(), len(rs))
		return
	case n.how == callRaw && string(rs[0].Body) != data:
		t.Violate("body", "%s sent %d other bytes instead of %d", n.name(), len(rs[0].Body), len(data))
		return
	case n.how != callRaw && !n.sent(t, rs[0], after):
		return
	case n.how != callRequest && (x.berr != nil || string(x.body) != body):
		t.Violate("body", "%s (%s) returned %d other bytes instead of %d (%v)", n.name(), how, len(x.body), len(body), x.berr)
		return
	}
	if n.how == callRequest {
		if err := compareResponse(x.resp, d); err != nil {
			t.Violate("response", "%s (%s) returned another response: %s", n.name(), how, clip(err.Error(), 500))
			return
		}
	}
	t.Count("large exchanges", 1)
	t.Count("large bytes", int64(len(body)+len(data)))
	t.Distinct("case", n.name(), how, fmt.Sprint(len(body)))
	t.Distinct("large: client, call, delivery", n.name(), how)
}

// oddReader makes readers of all kinds which yield the same data.
func oddReader(r *rand.Rand, data string) (io.Reader, string) {
	switch r.IntN(11) {
	case 0:
		return bytes.NewBufferString(data), "bytes.Buffer"
	case 1:
		return strings.NewReader(data), "strings.Reader"
	case 2:
		return bytes.NewReader([]byte(data)), "bytes.Reader"
	case 3:
		return iotest.OneByteReader(strings.NewReader(clip1(data))), "one byte"
	case 4:
		return iotest.DataErrReader(strings.NewReader(data)), "data with EOF"
	case 5:
		k := 0
		if len(data) > 0 {
			k = r.IntN(len(data))
		}
		return io.MultiReader(strings.NewReader(data[:k]), strings.NewReader(data[k:])), "two readers"
	case 6:
		b := bytes.NewBufferString("skip" + data)
		b.Next(4)
		return b, "bytes.Buffer, partly read"
	case 7:
		b := strings.NewReader("skip" + data)
		b.Seek(4, io.SeekStart)
		return b, "strings.Reader, partly read"
	case 8:
		b := bytes.NewReader([]byte("skip" + data))
		b.Seek(4, io.SeekStart)
		return b, "bytes.Reader, partly read"
	case 9:
		b := bufio.NewReaderSize(strings.NewReader("skip"+data), 16+r.IntN(5000))
		b.Discard(4)
		return b, "bufio.Reader, partly read"
	}
	return io.NopCloser(iotest.HalfReader(strings.NewReader(data))), "half"
}

// clip1 keeps byte-wise data small.
func clip1(s string) string {
	if len(s) > 2000 {
		return s[:2000]
	}
	return s
}

func randomBytes(r *rand.Rand) string {
	n := r.IntN(3000)
	switch r.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = 1 << (10 + r.IntN(11))
	}
	if k, ok := dictInt(r, .1, 0, 1<<22); ok {
		n = int(k)
	}
	b := make([]byte, n)
	for i := 0; i+8 <= n; i += 8 {
		x := r.Uint64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(x >> (8 * k))
		}
	}
	if s, ok := dictText(r, .2); ok && len(s) < n {
		copy(b[pick(r, []int{0, n - len(s), r.IntN(n - len(s))}):], s)
	}
	return string(b)
}

// c19raw: RawRequest transfers any bytes both ways.
func c19raw(t *T) {
	n := newNetCase(t, t.R.IntN(numClients), callRaw)
	body, data := randomBytes(t.R), randomBytes(t.R)
	seed := t.R.Uint64()
	var how string
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
		how = h
		return a
	})
	defer s.stop()
	rd, kind := oddReader(t.R, data)
	if kind == "one byte" {
		data = clip1(data)
	}
	p := randomPath(t.R)
	hostport := pick(t.R, []string{"127.0.0.1", "localhost"}) + ":" + s.port()
	n.r.URL = "https://" + hostport + p[0]
	x := call(n.c, callRaw, n.r, rd)
	rs := s.requests()
	if x.err != nil {
		t.Violate("failed", "%s (%s, %s): %v", n.name(), how, kind, x.err)
		return
	}
	if len(rs) != 1 {
		t.Violate("number of requests", "%s sent %d requests", n.name(), len(rs))
		return
	}
	if !n.header(t, rs[0], p[1], hostport, kind == "bytes.Buffer" && len(data) > 0) {
		return
	}
	if string(rs[0].Body) != data {
		t.Violate("body", "%s of a %s sent %d other bytes instead of %d", n.name(), kind, len(rs[0].Body), len(data))
		return
	}
	if x.berr != nil || string(x.body) != body {
		t.Violate("body", "%s (%s) returned %d other bytes instead of %d (%v)", n.name(), how, len(x.body), len(body), x.berr)
		return
	}
	t.Count("raw exchanges", 1)
	t.Count("raw bytes", int64(len(data)+len(body)))
	t.Distinct("case", n.name(), kind, how, p[0], data)
	t.Distinct("client, reader, delivery", n.name(), kind, how)
}

var statuses = []string{
	"201 Created", "202 Accepted", "203 Non-Authoritative Information", "204 No Content", "205 Reset Content", "206 Partial Content", "207 Multi-Status", "299 Odd",
	"300 Multiple Choices", "304 Not Modified", "305 Use Proxy", "306 Unused", "399 Odd",
	"400 Bad Request", "401 Unauthorized", "402 Payment Required", "403 Forbidden", "404 Not Found", "405 Method Not Allowed", "406 Not Acceptable", "409 Conflict", "410 Gone", "411 Length Required",
	"413 Too Large", "415 Unsupported", "417 Expectation Failed", "418 Teapot", "422 Unprocessable", "429 Too Many Requests", "451 Legal", "499 Odd",
	"500 Internal Server Error", "501 Not Implemented", "502 Bad Gateway", "503 Service Unavailable", "504 Gateway Timeout", "505 Version", "520 Odd", "599 Odd",
}

// c19status: what comes with any other status isn't taken for a response.
func c19status(t *T) {
	n := newNetCase(t, t.R.IntN(numClients), t.R.IntN(numCalls))
	_, body := answer(t)
	status := pick(t.R, statuses)
	if t.R.IntN(4) == 0 {
		status = fmt.Sprintf("%d Random", 201+t.R.IntN(398))
		for strings.Contains("301 302 303 307 308 408", status[:3]) {
			status = fmt.Sprintf("%d Random", 201+t.R.IntN(398))
		}
	}
	if k, ok := dictInt(t.R, .1, 201, 599); ok && !strings.Contains("301 302 303 307 308 408", fmt.Sprint(k)) {
		status = fmt.Sprintf("%d Random", k)
	}
	s := listen(goodTLS(), func(*rawReq) reply {
		if status[:3] == "204" || status[:3] == "304" {
			return reply{pieces: []string{"HTTP/1.1 " + status + "\r\n\r\n"}, close: true}
		}
		return reply{pieces: []string{respond(status, body)}, close: true}
	})
	defer s.stop()
	n.r.URL = s.url("/")
	x := call(n.c, n.how, n.r, strings.NewReader("<OFX>"))
	if x.err == nil || x.resp != nil {
		t.Violate("status accepted", "%s returned %v with error %v upon status %s", n.name(), x.resp != nil, x.err, status)
		return
	}
	if !strings.Contains(x.err.Error(), status[:3]) {
		t.Violate("status unreported", "%s reports %q upon status %s", n.name(), x.err, status)
		return
	}
	if k := len(s.requests()); k != 1 {
		t.Violate("number of requests", "%s sent %d requests to get status %s", n.name(), k, status)
	}
	t.Count("statuses", 1)
	t.Distinct("case", n.name(), status)
	t.Distinct("status", status[:3])
}

// c19cut: transfers which end early aren't taken for complete.
func c19cut(t *T) {
	n := newNetCase(t, t.R.IntN(numClients), t.R.IntN(2))
	_, body := answer(t)
	end := strings.LastIndexByte(body, '>')
	cut := t.R.IntN(end + 1)
	if t.R.IntN(3) == 0 {
		cut = max(0, end-t.R.IntN(30))
	}
	seed := t.R.Uint64()
	var how string
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, cut, false)
		how = h
		return a
	})
	defer s.stop()
	n.r.URL = s.url("/")
	x := call(n.c, n.how, n.r, nil)
	if n.how == callRequest {
		if x.err == nil || x.resp != nil {
			t.Violate("cut accepted", "%s returned %v with error %v although the transfer (%s) ended after %d of %d bytes: %q", n.name(), x.resp != nil, x.err, how, cut, len(body), body[max(0, cut-200):cut])
			return
		}
	} else if x.err == nil && x.berr == nil && how != "until close" {
		t.Violate("cut accepted", "%s returned a body of %d bytes without an error although the transfer (%s) ended after %d of %d bytes", n.name(), len(x.body), how, cut, len(body))
		return
	}
	t.Count("transfers cut", 1)
	t.Distinct("case", n.name(), how, fmt.Sprint(cut, len(body)))
}

// watched is a transport which watches over the bodies it hands out.
type watched struct {
	rt     http.RoundTripper
	opened int64
	closed int64
}

func (w *watched) RoundTrip(q *http.Request) (*http.Response, error) {
	r, err := w.rt.RoundTrip(q)
	if r != nil && r.Body != nil {
		atomic.AddInt64(&w.opened, 1)
		r.Body = &watchedBody{ReadCloser: r.Body, w: w}
	}
	return r, err
}

type watchedBody struct {
	io.ReadCloser
	w    *watched
	once sync.Once
}

func (b *watchedBody) Close() error {
	b.once.Do(func() { atomic.AddInt64(&b.w.closed, 1) })
	return b.ReadCloser.Close()
}

func c20outcome(t *T) {
	kind, how := t.R.IntN(numClients), t.R.IntN(numCalls)
	n := newNetCase(t, kind, how)
	d, body := answer(t)
	g := newG(t.R)
	conf := goodTLS()
	outcomes := []string{"parsed", "invalid", "unparsable", "empty", "status", "cut", "redirect", "redirect to http", "redirect nowhere", "empty with cookies", "cookies, then status", "cookies, then unparsable", "oversized", "not HTTP", "bad certificate", "parsed early"}
	outcome := pick(t.R, outcomes)
	var http []*server
	var a reply
	switch outcome {
	case "parsed":
		a, _ = reply{pieces: []string{ok(body)}}, 0
	case "invalid":
		g.breakOne(pick(t.R, d.all()), d.Version)
		a = reply{pieces: []string{ok(canonical(t.R).doc(d.Version, d.tree("RS", false)))}}
	case "unparsable":
		a = reply{pieces: []string{ok(mutate(t.R, body, body))}}
	case "empty":
		a = reply{pieces: []string{ok("")}}
	case "status":
		st := pick(t.R, statuses)
		a = reply{pieces: []string{respond(st, body)}}
		if st[:3] == "204" || st[:3] == "304" {
			a.pieces[0] = "HTTP/1.1 " + st + "\r\n\r\n"
		}
	case "cut":
		a = reply{pieces: []string{fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:t.R.IntN(len(body))])}, close: true}
	case "redirect", "redirect to http", "redirect nowhere":
		s2 := listen(goodTLS(), func(*rawReq) reply { return reply{pieces: []string{ok(body)}} })
		defer s2.stop()
		http = append(http, s2)
		loc := s2.url("/")
		if outcome == "redirect to http" {
			loc = "http" + strings.TrimPrefix(loc, "https")
		} else if outcome == "redirect nowhere" {
			loc = pick(t.R, []string{"https://127.0.0.1:1/", "https://%zz", "::", ""})
		}
		a = reply{pieces: []string{respond(pick(t.R, redirects), pick(t.R, []string{"", "moved", strings.Repeat("m", 5000)}), "Location: "+loc)}}
	case "empty with cookies", "cookies, then status", "cookies, then unparsable":
		a = reply{pieces: []string{ok("", "Set-Cookie: a=b")}}
	case "oversized":
		a = reply{pieces: []string{ok("OFXHEADER:100\nnonsense" + strings.Repeat("<X>", 200000))}}
	case "parsed early":
		a = reply{pieces: []string{ok(body + strings.Repeat(" ", 300000))}}
	case "not HTTP":
		a = reply{pieces: []string{pick(t.R, []string{"\r\n\r\n\r\n", "SSH-2.0-OpenSSH\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "HTTP/1.1 200 OK\r\nno colon\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", "HTTP/9.9 200\r\nTransfer-Encoding: odd\r\n\r\n"})}}
		a.hang = true
	case "bad certificate":
		conf.Certificates[0] = cert(pick(t.R, badCerts))
	}
	if (!a.close || outcome == "cut") && t.R.IntN(3) == 0 {
		a.half, a.hang, a.close = true, false, false
	}
	read := t.R.IntN(2) == 0
	if outcome == "cut" && how != callRequest && !read && kind != vanguard && t.R.IntN(2) == 0 {
		// the rest never comes, nor does the caller wait for it
		a.half, a.hang, a.close = false, true, false
	}
	served := int64(0)
	s := listen(conf, func(*rawReq) reply {
		if atomic.AddInt64(&served, 1) > 1 {
			switch outcome {
			case "empty with cookies":
				return reply{pieces: []string{ok(body)}}
			case "cookies, then status":
				return reply{pieces: []string{respond("500 No", "no")}}
			case "cookies, then unparsable":
				return reply{pieces: []string{ok("no")}}
			}
		}
		return a
	})
	defer s.stop()
	http = append(http, s)
	n.r.URL = s.url("/")
	var w *watched
	var tr *nethttpTransport
	if kind < discover {
		tr = newTransport(t.R.IntN(2) == 0)
		w = &watched{rt: tr}
		c := n.c.(*ofxgo.BasicClient)
		h := nethttpClient{Transport: w}
		if c.HTTPClient != nil {
			h.CheckRedirect = c.HTTPClient.CheckRedirect
		}
		c.HTTPClient = &h
		defer tr.CloseIdleConnections()
	}
	var x result
	switch how {
	case callRequest:
		x.resp, x.err = n.c.Request(n.r)
	case callNoParse:
		x.http, x.err = n.c.RequestNoParse(n.r)
	case callRaw:
		x.http, x.err = n.c.RawRequest(n.r.URL, strings.NewReader("<OFX>"))
	}
	what := fmt.Sprintf("%s (%s)", n.name(), outcome)
	if how == callRequest && (x.resp == nil) == (x.err == nil) {
		t.Violate("neither", "%s returned %v and error %v", what, x.resp != nil, x.err)
	}
	if how != callRequest && x.http == nil && x.err == nil {
		t.Violate("neither", "%s returned neither a response nor an error", what)
	}
	if x.http != nil {
		if read {
			io.Copy(io.Discard, x.http.Body)
		}
		x.http.Body.Close()
	}
	if w != nil {
		if o, c := atomic.LoadInt64(&w.opened), atomic.LoadInt64(&w.closed); o != c {
			t.Violate("body left open", "%s left %d of %d response bodies open (error: %v)", what, o-c, o, x.err)
		} else {
			t.Count("bodies closed", c)
		}
		tr.CloseIdleConnections()
	}
	for _, s := range http {
		if left := s.waitClosed(); left > 0 {
			t.Violate("connection left open", "%s left %d connections open (error: %v)", what, left, x.err)
		} else {
			t.Count("connections closed", int64(len(s.connections())))
		}
	}
	t.Distinct("case", what)
	t.Distinct("outcome", what, fmt.Sprint(x.err != nil))
}

// libraryGoroutines are the stacks of goroutines which the library started.
func libraryGoroutines() []string {
	buf := make([]byte, 1<<24)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for _, st := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(st, "created by github.com/aclindsa/ofxgo.") {
			l = append(l, st)
		}
	}
	return l
}

// c20goroutines: whatever calls start ends with them.
func c20goroutines(t *T) {
	for i := 0; i < 300; i++ {
		c20outcome(t)
	}
	// (what there is once for the process would be fine)
	const few = 4
	l := libraryGoroutines()
	for i := 0; i < 150 && len(l) > few; i++ {
		time.Sleep(100 * time.Millisecond)
		l = libraryGoroutines()
	}
	if len(l) > few {
		t.Violate("goroutines left", "at least %d goroutines are left of calls which returned, the first of which is\n%s", len(l), clip(l[0], 3000))
		return
	}
	t.Count("times goroutines were looked for", 1)
}

type nethttpTransport = http.Transport
type nethttpClient = http.Client

func newTransport(keepAlive bool) *http.Transport {
	return &http.Transport{DisableKeepAlives: !keepAlive}
}

// cookies makes random cookies: Set-Cookie headers, and the names and values.
func randomCookies(r *rand.Rand) (headers, pairs []string) {
	for k := 1 + r.IntN(4); k > 0; k-- {
		name := pick(r, []string{"s", "JSESSIONID", "TS01", "X-Y_z", "a.b"}) + fmt.Sprint(k)
		val := pick(r, []string{"v", "0000abcDEF:1", "a=b==", "x/y+z", "!#$%&'()*", "", strings.Repeat("long", 200)})
		if len(pairs) > 0 && r.IntN(6) == 0 {
			// one name may occur for several paths
			name, _, _ = strings.Cut(pick(r, pairs), "=")
		}
		if s, ok := dictPlain(r, .1, "-._"); ok && len(s) < 100 {
			name = s
		}
		if s, ok := dictPlain(r, .1, "-._/=:"); ok && len(s) < 1000 {
			val = s
		}
		pairs = append(pairs, name+"="+val)
		headers = append(headers, pick(r, []string{"Set-Cookie", "set-cookie"})+": "+name+"="+val+pick(r, []string{"", "; Path=/", "; Path=/; Secure; HttpOnly", "; Domain=vanguard.com; path=/us", "; Max-Age=1000", "; Max-Age=0", "; Max-Age=-1; Path=/", "; Expires=Thu, 01 Jan 1970 00:00:00 GMT", "; Path=/other/; Domain=example.com", "; Expires=Thu, 19 Nov 2099 18:00:00 GMT; Secure", "; SameSite=None"}))
	}
	return headers, pairs
}

// c21retry: empty answers with cookies are retried, once, with them.
func c21retry(t *T) {
	n := newNetCase(t, vanguard, t.R.IntN(2))
	d, body := answer(t)
	headers, pairs := randomCookies(t.R)
	second := pick(t.R, []string{"response", "response", "response with cookies", "empty", "empty with cookies", "status", "unparsable"})
	seed := t.R.Uint64()
	var served int64
	empty := pick(t.R, []string{"length", "length", "chunked", "until close"})
	s := listen(goodTLS(), func(q *rawReq) reply {
		switch k := atomic.AddInt64(&served, 1); {
		case k%2 == 1 && empty == "chunked":
			return reply{pieces: []string{"HTTP/1.1 200 OK\r\n" + join(headers) + "Transfer-Encoding: chunked\r\n\r\n", "0\r\n\r\n"}}
		case k%2 == 1 && empty == "until close":
			return reply{pieces: []string{"HTTP/1.1 200 OK\r\n" + join(headers) + "\r\n"}, close: true}
		case k%2 == 1:
			return reply{pieces: []string{respond("200 OK", "", headers...)}}
		case second == "response":
			a, _ := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
			return a
		case second == "response with cookies":
			return reply{pieces: []string{ok(body, "Set-Cookie: other=cookie")}}
		case second == "empty":
			return reply{pieces: []string{ok("")}}
		case second == "empty with cookies":
			return reply{pieces: []string{ok("", "Set-Cookie: other=cookie")}}
		case second == "status":
			return reply{pieces: []string{respond(pick(rand.New(rand.NewPCG(seed, 1)), statuses[13:]), body)}}
		}
		return reply{pieces: []string{ok("<OFX>")}}
	})
	defer s.stop()
	p := randomPath(t.R)
	hostport := "127.0.0.1:" + s.port()
	n.r.URL = "https://" + hostport + p[0]
	rounds := 1 + t.R.IntN(2)
	if t.R.IntN(40) == 0 {
		rounds = 3 + t.R.IntN(10)
	}
	if k, ok := dictInt(t.R, .05, 2, 60); ok {
		rounds = int(k)
	}
	for round := 0; round < rounds; round++ {
		n.before = time.Now()
		x := call(n.c, n.how, n.r, nil)
		after := time.Now()
		what := fmt.Sprintf("%s after %d cookies (%s), then %s", n.name(), len(pairs), empty, second)
		rs := s.requests()[2*round:]
		if len(rs) != 2 {
			t.Violate("number of requests", "%s: %d requests were sent (error %v)", what, len(rs), x.err)
			return
		}
		if !n.header(t, rs[0], p[1], hostport, true) || !n.sent(t, rs[0], after) {
			return
		}
		if got := rs[1].Req.Header["Cookie"]; len(got) != 1 || !sameCookies(got[0], pairs) {
			t.Violate("cookies", "%s: the cookies %q were sent instead of %q", what, got, pairs)
			return
		}
		rs[1].Req.Header.Del("Cookie")
		if !n.header(t, rs[1], p[1], hostport, true) {
			return
		}
		if !bytes.Equal(rs[0].Body, rs[1].Body) {
			t.Violate("retry body", "%s: the retry's body differs at %s", what, firstDiff(string(rs[0].Body), string(rs[1].Body)))
			return
		}
		good := strings.HasPrefix(second, "response")
		switch {
		case n.how == callRequest && good:
			if x.err != nil {
				t.Violate("failed", "%s: %v", what, x.err)
				return
			}
			if err := compareResponse(x.resp, d); err != nil {
				t.Violate("response", "%s: %v", what, err)
				return
			}
		case n.how == callRequest:
			if x.err == nil || x.resp != nil {
				t.Violate("accepted", "%s: response %v, error %v", what, x.resp != nil, x.err)
				return
			}
		case good:
			if x.err != nil || x.berr != nil || string(x.body) != body {
				t.Violate("body", "%s: another body (%v, %v)", what, x.err, x.berr)
				return
			}
		case second == "status":
			if x.err == nil {
				t.Violate("accepted", "%s: no error", what)
				return
			}
		}
		t.Count("retries", 1)
		t.Distinct("case", what, fmt.Sprint(pairs))
		t.Distinct("script", what)
	}
}

func sameCookies(got string, pairs []string) bool {
	return got == strings.Join(pairs, "; ")
}

// c21none: nothing else is retried, by no client.
func c21none(t *T) {
	n := newNetCase(t, t.R.IntN(numClients), t.R.IntN(2))
	if t.R.IntN(2) == 0 {
		n = newNetCase(t, vanguard, t.R.IntN(2))
	}
	d, body := answer(t)
	headers, _ := randomCookies(t.R)
	scripts := []string{"empty", "response with cookies", "response somehow with cookies", "response somehow with cookies", "response", "unparsable with cookies", "status", "status with cookies", "cut with cookies"}
	if n.kind != vanguard {
		scripts = append(scripts, "empty with cookies", "empty with cookies")
	}
	seed := t.R.Uint64()
	how := ""
	script := pick(t.R, scripts)
	if !strings.HasSuffix(script, "cookies") {
		headers = nil
	}
	s := listen(goodTLS(), func(q *rawReq) reply {
		switch {
		case strings.HasPrefix(script, "empty"):
			return reply{pieces: []string{ok("", headers...)}}
		case strings.HasPrefix(script, "status"):
			return reply{pieces: []string{respond("500 No", "", headers...)}}
		case strings.HasPrefix(script, "cut"):
			return reply{pieces: []string{"HTTP/1.1 200 OK\r\n" + join(headers) + "Transfer-Encoding: chunked\r\n\r\n"}, close: true}
		case script == "response somehow with cookies":
			// of unknown length, perhaps
			a, h := deliver(rand.New(rand.NewPCG(seed, 1)), q, body, -1, false)
			text := strings.Join(a.pieces, "")
			i := strings.Index(text, "\r\n") + 2
			a.pieces = append([]string{text[:i] + join(headers)}, text[i:])
			how = " (" + h + ")"
			return a
		case strings.HasPrefix(script, "unparsable"):
			return reply{pieces: []string{ok("<OFX>", headers...)}}
		}
		return reply{pieces: []string{ok(body, headers...)}}
	})
	defer s.stop()
	n.r.URL = s.url("/x")
	rounds := 1 + t.R.IntN(2)
	if t.R.IntN(40) == 0 {
		rounds = 3 + t.R.IntN(10)
	}
	if k, ok := dictInt(t.R, .05, 2, 60); ok {
		rounds = int(k)
	}
	for i := 0; i < rounds; i++ {
		n.before = time.Now()
		x := call(n.c, n.how, n.r, nil)
		after := time.Now()
		what := fmt.Sprintf("%s answered %s%s", n.name(), script, how)
		rs := s.requests()
		if len(rs) != i+1 {
			t.Violate("number of requests", "%s: %d requests were sent for %d calls (error %v)", what, len(rs), i+1, x.err)
			return
		}
		if !n.header(t, rs[i], "/x", "127.0.0.1:"+s.port(), true) || !n.sent(t, rs[i], after) {
			return
		}
		good := strings.HasPrefix(script, "response")
		if n.how == callRequest {
			if good != (x.err == nil) {
				t.Violate("outcome", "%s: error %v", what, x.err)
				return
			}
			if good {
				if err := compareResponse(x.resp, d); err != nil {
					t.Violate("response", "%s: %v", what, err)
					return
				}
			}
		} else if (x.err != nil) != strings.HasPrefix(script, "status") && script != "cut with cookies" || good && string(x.body) != body || script == "cut with cookies" && x.err == nil && x.berr == nil {
			t.Violate("outcome", "%s: error %v", what, x.err)
			return
		}
		t.Count("single requests", 1)
		t.Distinct("case", what, fmt.Sprint(len(headers)))
		t.Distinct("script", what)
	}
}

// c21ciphers: Vanguard's servers' ciphers are accepted, and modern ones.
func c21ciphers(t *T) {
	n := newNetCase(t, vanguard, t.R.IntN(numCalls))
	d, body := answer(t)
	conf, name := vanguardTLS(t.R)
	s := listen(conf, func(*rawReq) reply { return reply{pieces: []string{ok(body)}} })
	defer s.stop()
	n.r.URL = s.url("/")
	x := call(n.c, n.how, n.r, strings.NewReader("<OFX>"))
	if x.err != nil {
		t.Violate("cipher refused", "%s to a server with %s: %v", n.name(), name, x.err)
		return
	}
	if n.how == callRequest {
		if err := compareResponse(x.resp, d); err != nil {
			t.Violate("response", "%s: %v", n.name(), err)
			return
		}
	}
	t.Count("cipher handshakes", 1)
	t.Distinct("case", n.name(), name)
	t.Distinct("cipher", name)
}

// c22wire: the bytes Discover gets to see.
func c22wire(t *T) {
	n := newNetCase(t, discover, t.R.IntN(numCalls))
	_, body := answer(t)
	s := listen(goodTLS(), func(q *rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} })
	defer s.stop()
	p := randomPath(t.R)
	host := pick(t.R, []string{"127.0.0.1", "localhost"})
	n.r.URL = "https://" + pick(t.R, []string{"", "", "user@"}) + host + ":" + s.port() + p[0]
	data := randomBytes(t.R)
	rd, kind := oddReader(t.R, data)
	if kind == "one byte" {
		data = clip1(data)
	}
	x := call(n.c, n.how, n.r, rd)
	if x.err != nil {
		t.Violate("failed", "%s: %v", n.name(), x.err)
		return
	}
	rs := s.requests()
	if len(rs) != 1 {
		t.Violate("number of requests", "%s sent %d requests", n.name(), len(rs))
		return
	}
	if n.how != callRaw {
		b, err := n.r.Marshal()
		if err != nil {
			t.Violate("failed", "%s: %v", n.name(), err)
			return
		}
		data, kind = b.String(), "request"
	}
	want := fmt.Sprintf("POST %s HTTP/1.1\r\nContent-Type: application/x-ofx\r\nHost: %s\r\nContent-Length: %d\r\nConnection: Keep-Alive\r\n\r\n", p[1], host, len(data)) + data
	if got := string(s.decrypted()); got != want {
		t.Violate("wire", "%s of a %s sent other bytes, which differ at %s:\n%q", n.name(), kind, firstDiff(want, got), clip(got, 1000))
		return
	}
	t.Count("exact requests", 1)
	t.Distinct("case", p[0], kind, n.name(), host)
	t.Sample("%q", clip(want, 300))
}

// c22choice: clients are chosen by their servers' URLs only.
func c22choice(t *T) {
	bc := &ofxgo.BasicClient{AppID: "A", AppVer: "1", NoIndent: t.R.IntN(2) == 0, CarriageReturn: t.R.IntN(2) == 0, UserAgent: "ua"}
	setVersion(&bc.SpecVersion, pick(t.R, enums["ofxVersion"].Values))
	const dc, vg = "https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet"
	url := pick(t.R, []string{dc, vg})
	known := url
	switch t.R.IntN(4) {
	case 0:
	case 1:
		url += strings.Repeat("/", 1+t.R.IntN(4))
	default:
		// one character less, more or other; all of these are other servers
		// or paths
		for url == known || strings.Trim(url, "/") == known || strings.EqualFold(strings.Trim(url, "/"), known) {
			i := t.R.IntN(len(known))
			switch t.R.IntN(4) {
			case 0:
				url = known[:i] + known[i+1:]
			case 1:
				url = known[:i] + string("abcxyz-.:/0189"[t.R.IntN(14)]) + known[i:]
			case 2:
				url = known + pick(t.R, []string{"/x", "?", "x", ".com", "/ofx", ":444", "#"})
			case 3:
				url = pick(t.R, []string{"https://example.com/", "", "http://ofx.discovercard.com", "https://ofx.discovercard.com.example.com", "https://example.com/ofx.discovercard.com", "https://discovercard.com", "https://vesnc.vanguard.com/us", "https://vesnc.vanguard.com", "https://example.com/?" + known})
			}
		}
		known = ""
	}
	if t.R.IntN(4) == 0 {
		// URLs of the same meaning, or nearly, which aren't the same
		u := strings.TrimPrefix(pick(t.R, []string{dc, vg}), "https://")
		host, path, has := strings.Cut(u, "/")
		if has {
			path = "/" + path
		}
		h, p, scheme := host, path, "https://"
		for k := 1 + t.R.IntN(2); k > 0; k-- {
			switch t.R.IntN(7) {
			case 0:
				h = host + pick(t.R, []string{":443", ":0443", ":", ":80", ":8443", ":https", ":4430", ":044"})
			case 1:
				h = pick(t.R, []string{"user@", "user:pass@", "@", ":@", "www.", "."}) + host
			case 2:
				h = host + pick(t.R, []string{".", "..", "%2e", ".:443", "\u3002", "%00", "\x00", "\t", " "})
			case 3:
				p = path + pick(t.R, []string{"?", "#", "/?", "/#", "?x=y", "#x", "/.", "/..", "/./", ";", "/index.html", "%2f", "%20", " ", "\n", "\\"})
			case 4:
				p = pick(t.R, []string{"//", "/./", "/x/..", "/%2e"}) + path
			case 5:
				scheme = pick(t.R, []string{"http://", "https:", "https:/", "https:///", "//", "", "ofx://", "wss://", " https://", "\thttps://", "https:\\\\", "shttps://", "https+x://", "view-source:https://"})
			case 6:
				p = strings.NewReplacer("O", "%4F", "c", "%63", "us", "US%2F").Replace(path) + "#"
			}
		}
		if s := scheme + h + p; !strings.EqualFold(strings.Trim(s, "/"), dc) && !strings.EqualFold(strings.Trim(s, "/"), vg) {
			url, known = s, ""
		}
	}
	if s, ok := dictPlain(t.R, .05, "-._/:"); ok && len(s) < 100 {
		u := pick(t.R, []string{"", "https://", "http://", "https://example.com/", "https://www."}) + s + pick(t.R, []string{"", "/", ".com", "/ofx", ".com/ofx"})
		if x := strings.Trim(u, "/"); !strings.EqualFold(x, dc) && !strings.EqualFold(x, vg) {
			url, known = u, ""
		}
	}
	c := ofxgo.GetClient(url, bc)
	kind := ""
	switch x := c.(type) {
	case *ofxgo.DiscoverCardClient:
		kind = dc
	case *ofxgo.VanguardClient:
		kind = vg
	case *ofxgo.BasicClient:
		if x != bc {
			t.Violate("choice", "GetClient(%q) returned another BasicClient", url)
			return
		}
	}
	if kind != known {
		t.Violate("choice", "GetClient(%q) returned a %T", url, c)
		return
	}
	if c.OfxVersion() != bc.SpecVersion || string(c.ID()) != "A" || string(c.Version()) != "1" || c.IndentRequests() == bc.NoIndent || c.CarriageReturnNewLines() != bc.CarriageReturn {
		t.Violate("settings", "GetClient(%q) lost the client's settings", url)
		return
	}
	t.Count("clients chosen", 1)
	t.Distinct("URL", url)
	t.Distinct("case", url)
}
