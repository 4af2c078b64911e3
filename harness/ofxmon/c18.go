package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/aclindsa/ofxgo"
)

// The clients under test.
const (
	basicDefault = iota
	basicCustom  // with a http.Client of the user's own
	basicLenient // with one which follows every redirect
	discover
	vanguard
	numClients
)

var clientNames = [numClients]string{"BasicClient", "BasicClient with its own http.Client", "BasicClient with a http.Client following every redirect", "DiscoverCardClient", "VanguardClient"}

// newClient makes a client and the settings it has to apply.
func newClient(t *T, kind int, version, userAgent string) (ofxgo.Client, *format) {
	f := randomFormat(t)
	bc := &ofxgo.BasicClient{AppID: f.appID, AppVer: f.ver, NoIndent: f.noIndent, CarriageReturn: f.cr, UserAgent: userAgent}
	if version != "" {
		setVersion(&bc.SpecVersion, version)
	}
	switch kind {
	case basicCustom:
		bc.HTTPClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}}
	case basicLenient:
		bc.HTTPClient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return nil }}
	case discover:
		f.client = 2
		return ofxgo.NewDiscoverCardClient(bc), f
	case vanguard:
		f.client = 3
		return ofxgo.NewVanguardClient(bc), f
	}
	f.client = 1
	return bc, f
}

const (
	callRequest = iota
	callNoParse
	callRaw
	numCalls
)

var callNames = [numCalls]string{"Request", "RequestNoParse", "RawRequest"}

// result is what a client returned.
type result struct {
	resp *ofxgo.Response
	http *http.Response
	body []byte // of http, read to its end
	berr error  // while reading it
	err  error
}

// call calls one of a client's methods, and reads and closes the body.
func call(c ofxgo.Client, how int, r *ofxgo.Request, raw io.Reader) *result {
	var x result
	switch how {
	case callRequest:
		x.resp, x.err = c.Request(r)
	case callNoParse:
		x.http, x.err = c.RequestNoParse(r)
	default:
		x.http, x.err = c.RawRequest(r.URL, raw)
	}
	if x.http != nil {
		x.body, x.berr = io.ReadAll(x.http.Body)
		x.http.Body.Close()
	}
	return &x
}

// answer makes a valid response document, and its text.
func answer(t *T) (*Doc, string) {
	g := newG(t.R)
	d := g.response()
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
	}
	return d, randomSpell(t.R).doc(d.Version, d.tree("RS", false))
}

// secretRequest makes a valid request whose credentials can be recognized.
func secretRequest(t *T) (*ofxgo.Request, string, []string) {
	g := newG(t.R)
	d := g.validRequest()
	secret := func(n int) *Node {
		const alphabet = "ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz23456789"
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[t.R.IntN(len(alphabet))]
		}
		return strLeaf(string(b))
	}
	user, pass := secret(20), secret(24)
	d.Signon.F["UserID"] = user
	delete(d.Signon.F, "UserKey")
	d.Signon.F["UserPass"] = pass
	return d.goRequest(), d.Version, []string{user.Leaf.S, pass.Leaf.S}
}

// received is everything which arrived at a server.
func (s *server) received() []byte {
	var b bytes.Buffer
	for _, c := range s.connections() {
		c.mu.Lock()
		b.Write(c.wire.Bytes())
		b.WriteString("\n----\n")
		b.Write(c.raw.Bytes())
		c.mu.Unlock()
	}
	return b.Bytes()
}

func (s *server) decrypted() []byte {
	var b bytes.Buffer
	for _, c := range s.connections() {
		c.mu.Lock()
		b.Write(c.raw.Bytes())
		c.mu.Unlock()
	}
	return b.Bytes()
}

func (s *server) onWire() []byte {
	var b bytes.Buffer
	for _, c := range s.connections() {
		c.mu.Lock()
		b.Write(c.wire.Bytes())
		c.mu.Unlock()
	}
	return b.Bytes()
}

func contains(b []byte, secrets []string) string {
	for _, s := range secrets {
		if bytes.Contains(b, []byte(s)) {
			return s
		}
	}
	return ""
}

var badCerts = []string{"untrusted", "self-signed", "expired", "not yet valid", "other host", "common name only", "client certificate",
	"expired just now", "expired, formerly valid", "valid soon", "signed by a server", "signed by an expired authority", "signed by an authority for another domain"}

// weak are TLS settings of servers no client may talk to, as far as this
// process' servers can offer them at all.
var weak map[string]*tls.Config

func weakConfigs() map[string]*tls.Config {
	m := map[string]*tls.Config{}
	add := func(name string, cert tls.Certificate, min, max uint16, suites ...uint16) {
		conf := &tls.Config{Certificates: []tls.Certificate{cert}, MinVersion: min, MaxVersion: max, CipherSuites: suites}
		s := listen(conf, func(*rawReq) reply { return reply{pieces: []string{ok("")}, close: true} })
		defer s.stop()
		var all []uint16
		for _, c := range append(tls.CipherSuites(), tls.InsecureCipherSuites()...) {
			all = append(all, c.ID)
		}
		c, err := tls.Dial("tcp", "127.0.0.1:"+s.port(), &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, CipherSuites: all})
		if err != nil {
			return
		}
		c.Close()
		m[name] = conf
	}
	add("TLS 1.0", cert("good"), tls.VersionTLS10, tls.VersionTLS10)
	add("TLS 1.1", cert("good"), tls.VersionTLS11, tls.VersionTLS11)
	add("TLS 1.0 (RSA)", cert("rsa"), tls.VersionTLS10, tls.VersionTLS10, tls.TLS_RSA_WITH_AES_128_CBC_SHA)
	add("TLS 1.1 (RSA)", cert("rsa"), tls.VersionTLS10, tls.VersionTLS11)
	add("RC4", cert("rsa"), tls.VersionTLS12, tls.VersionTLS12, tls.TLS_RSA_WITH_RC4_128_SHA, tls.TLS_ECDHE_RSA_WITH_RC4_128_SHA)
	add("RC4 (ECDSA)", cert("good"), tls.VersionTLS12, tls.VersionTLS12, tls.TLS_ECDHE_ECDSA_WITH_RC4_128_SHA)
	add("3DES", cert("rsa"), tls.VersionTLS12, tls.VersionTLS12, tls.TLS_RSA_WITH_3DES_EDE_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA)
	return m
}

func init() {
	register(&Check{ID: "C18", Min: 300,
		Rule: "every client and call, with recognizable credentials, against URLs of other schemes, plain-text servers, servers with each kind of bad certificate or broken TLS version or cipher, and servers redirecting (with each status, in chains, to each kind of bad server, also upon Vanguard's retry); everything which arrives at any server is recorded and searched; non-trivial: a distinct (client, call, scenario)",
		Run: func(c *C) {
			weak = weakConfigs()
			c.Count("broken TLS settings offered", int64(len(weak)))
			c.Cases("url", c.N(3000, 30000), c18url)
			c.Cases("server", c.N(3000, 30000), c18server)
			c.Cases("redirect", c.N(3600, 40000), c18redirect)
			c.Cases("retry", c.N(1200, 15000), c18retry)
			c.Cases("good", c.N(300, 5000), c18good)
		}})
}

// c18check judges what was observed: the call must have failed, and no bad
// server may have received anything but handshakes.
func c18check(t *T, what string, x *result, bad []*server, secrets []string, body string, all ...*server) {
	t.Distinct("case", what)
	t.Distinct("scenario", what)
	if x.err == nil {
		t.Violate("accepted", "%s returned no error", what)
	}
	if x.resp != nil {
		t.Violate("accepted", "%s returned a response", what)
	}
	if x.http != nil && x.http.StatusCode == 200 {
		t.Violate("accepted", "%s returned an HTTP response with status %s", what, x.http.Status)
	}
	if x.err != nil {
		if s := contains([]byte(x.err.Error()), secrets); s != "" {
			t.Violate("error discloses", "%s: the error discloses credentials: %v", what, x.err)
		}
	}
	for _, s := range bad {
		if s.tls != nil || strings.Contains(what, "https to plain") {
			t.Count("connections to bad servers", int64(len(s.connections())))
		} else if n := len(s.connections()); n > 0 {
			t.Violate("plain-text server contacted", "%s connected to a plain-text server: %q", what, clip(string(s.received()), 2000))
		}
		if len(s.requests()) > 0 {
			t.Violate("bad server got a request", "%s sent a request to a server it can't trust: %q", what, clip(string(s.received()), 2000))
		}
		if m := contains(s.received(), secrets); m != "" {
			t.Violate("disclosed", "%s disclosed the credentials %q to a server it can't trust: %q", what, m, clip(string(s.received()), 2000))
		}
	}
	for _, s := range all {
		if m := contains(s.onWire(), secrets); m != "" {
			t.Violate("disclosed", "%s sent the credentials %q unencrypted: %q", what, m, clip(string(s.onWire()), 2000))
		}
	}
}

// c18url: URLs which aren't https ones.
func c18url(t *T) {
	_, body := answer(t)
	r, version, secrets := secretRequest(t)
	s := listen(nil, func(*rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} })
	defer s.stop()
	host := pick(t.R, []string{"127.0.0.1", "localhost"}) + ":" + s.port()
	form := pick(t.R, []string{
		"http://%s/", "http://%s", "HTTP://%s/", "Http://%s/ofx", "hTTp://%s/", "http://%s/https://", "http://%s/?https://", "http://%s/#https://",
		"http://user:pw@%s/", "http://https@%s/", "%s/", "//%s/", "/%s", "", "https:%s", "https:/%s/", "http:%s", "ftp://%s/", "ws://%s/", "httpss://%s/", "xhttps://%s/",
		"shttps://%s/", " http://%s/", "\thttp://%s/", "http ://%s/", "http://%s/\n", "file:///%s", "https//%s/", "http://%s@/", "h2c://%s/", "http+unix://%s/", "unix://%s/", "gopher://%s/", "http:////%s/", "http:///%s",
	})
	url := form
	if strings.Contains(form, "%s") {
		url = fmt.Sprintf(form, host)
	}
	r.URL = url
	kind, how := t.R.IntN(numClients), t.R.IntN(numCalls)
	c, _ := newClient(t, kind, version, "")
	t.File("url", url)
	x := call(c, how, r, strings.NewReader("<OFX>"+strings.Join(secrets, " ")))
	c18check(t, fmt.Sprintf("%s.%s(%q)", clientNames[kind], callNames[how], form), x, []*server{s}, secrets, body, s)
}

// badServer makes a server which must not be trusted.
func badServer(t *T, body string) (*server, string) {
	h := func(*rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} }
	var names []string
	for k := range weak {
		names = append(names, k)
	}
	sort.Strings(names)
	switch n := t.R.IntN(10); {
	case n == 0:
		return listen(nil, h), "https to plain-text server"
	case n < 4 && len(names) > 0:
		k := pick(t.R, names)
		return listen(weak[k], h), k
	}
	k := pick(t.R, badCerts)
	return listen(&tls.Config{Certificates: []tls.Certificate{cert(k)}}, h), "certificate " + k
}

// c18server: https servers which can't be trusted.
func c18server(t *T) {
	_, body := answer(t)
	r, version, secrets := secretRequest(t)
	s, what := badServer(t, body)
	defer s.stop()
	r.URL = "https://" + pick(t.R, []string{"127.0.0.1", "localhost"}) + ":" + s.port() + pick(t.R, []string{"", "/", "/ofx?a=b"})
	kind, how := t.R.IntN(numClients), t.R.IntN(numCalls)
	c, _ := newClient(t, kind, version, "")
	x := call(c, how, r, strings.NewReader("<OFX>"+strings.Join(secrets, " ")))
	c18check(t, fmt.Sprintf("%s.%s to a server with %s", clientNames[kind], callNames[how], what), x, []*server{s}, secrets, body, s)
}

var redirects = []string{"301 Moved Permanently", "302 Found", "303 See Other", "307 Temporary Redirect", "308 Permanent Redirect"}

// c18redirect: trusted servers which redirect to bad ones.
func c18redirect(t *T) {
	_, body := answer(t)
	r, version, secrets := secretRequest(t)
	var bad *server
	var what, target string
	h := func(*rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} }
	if t.R.IntN(3) > 0 {
		bad = listen(nil, h)
		what = "http"
		target = fmt.Sprintf(pick(t.R, []string{"http://%s/", "HTTP://%s/x", "http://%s", "http://u:p@%s/"}), "127.0.0.1:"+bad.port())
	} else {
		bad, what = badServer(t, body)
		if strings.HasPrefix(what, "https to") || t.R.IntN(3) > 0 {
			target = "https://127.0.0.1:" + bad.port() + "/"
		} else {
			target = "//127.0.0.1:" + bad.port() + "/"
		}
	}
	defer bad.stop()
	n := 1
	if t.R.IntN(3) == 0 {
		n = 2 + t.R.IntN(3)
	}
	var chain []string
	var all []*server
	for i := 0; i < n; i++ {
		status := pick(t.R, redirects)
		if i > 0 && t.R.IntN(2) == 0 {
			// keep the body along the chain
			status = pick(t.R, redirects[3:])
		}
		loc := target
		s := listen(goodTLS(), func(*rawReq) reply {
			return reply{pieces: []string{respond(status, pick(t.R, []string{"", "moved"}), "Location: "+loc)}, close: true}
		})
		defer s.stop()
		target = s.url("/hop")
		chain = append([]string{status[:3]}, chain...)
		all = append(all, s)
	}
	r.URL = target
	kind, how := t.R.IntN(numClients), t.R.IntN(numCalls)
	c, _ := newClient(t, kind, version, "")
	var raw io.Reader = strings.NewReader("<OFX>" + strings.Join(secrets, " "))
	x := call(c, how, r, raw)
	desc := fmt.Sprintf("%s.%s redirected by %s to %s", clientNames[kind], callNames[how], strings.Join(chain, ", "), what)
	c18check(t, desc, x, []*server{bad}, secrets, body, all...)
	t.Count("redirects served", int64(countRequests(all)))
}

func countRequests(all []*server) int {
	n := 0
	for _, s := range all {
		n += len(s.requests())
	}
	return n
}

// c18retry: Vanguard's second request, with cookies, needs the same care.
func c18retry(t *T) {
	_, body := answer(t)
	r, version, secrets := secretRequest(t)
	secrets = append(secrets, "sessioncookievalue")
	how := t.R.IntN(2)
	c, _ := newClient(t, vanguard, version, "")
	first := respond("200 OK", "", "Set-Cookie: s=sessioncookievalue; Path=/; Secure")
	var conns int64
	conf := goodTLS()
	var bad *server
	var what string
	var second reply
	switch t.R.IntN(3) {
	case 0: // the second connection is to an impostor
		k := pick(t.R, badCerts)
		what = "certificate " + k
		conf = &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			x := cert("good")
			if atomic.AddInt64(&conns, 1) > 1 {
				x = cert(k)
			}
			return &x, nil
		}}
		second = reply{pieces: []string{ok(body)}, close: true}
	case 1: // it is redirected to a plain-text server
		bad = listen(nil, func(*rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} })
		st := pick(t.R, redirects)
		what = "redirect " + st[:3] + " to http"
		second = reply{pieces: []string{respond(st, "", "Location: "+bad.url("/"))}, close: true}
	case 2: // or to another bad one
		bad, what = badServer(t, body)
		st := pick(t.R, redirects)
		what = "redirect " + st[:3] + " to " + what
		second = reply{pieces: []string{respond(st, "", "Location: https://127.0.0.1:"+bad.port()+"/")}, close: true}
	}
	if bad != nil {
		defer bad.stop()
	}
	var mu sync.Mutex
	var firstSeen bool
	s := listen(conf, func(q *rawReq) reply {
		mu.Lock()
		defer mu.Unlock()
		if !firstSeen {
			firstSeen = true
			return reply{pieces: []string{first}, close: true}
		}
		return second
	})
	defer s.stop()
	r.URL = s.url("/us/OfxDirectConnectServlet")
	x := call(c, how, r, nil)
	desc := "VanguardClient." + callNames[how] + "'s retry: " + what
	var bads []*server
	if bad != nil {
		bads = append(bads, bad)
	}
	c18check(t, desc, x, bads, secrets, body, s)
	if bad == nil && len(s.requests()) > 1 {
		t.Violate("disclosed", "%s: the impostor received %q", desc, clip(string(s.decrypted()), 2000))
	}
}

// c18good: the monitors do see credentials where they may be seen.
func c18good(t *T) {
	_, body := answer(t)
	r, version, secrets := secretRequest(t)
	conf := goodTLS()
	if t.R.IntN(4) == 0 {
		conf.Certificates[0] = cert("intermediate")
	}
	s := listen(conf, func(*rawReq) reply { return reply{pieces: []string{ok(body)}, close: true} })
	defer s.stop()
	r.URL = "https://" + pick(t.R, []string{"127.0.0.1", "localhost"}) + ":" + s.port() + "/"
	kind, how := t.R.IntN(numClients), t.R.IntN(numCalls)
	c, _ := newClient(t, kind, version, "")
	x := call(c, how, r, strings.NewReader("<OFX>"+strings.Join(secrets, " ")))
	desc := clientNames[kind] + "." + callNames[how] + " to a trusted server"
	if x.err != nil {
		t.Violate("trusted server refused", "%s: %v", desc, x.err)
		return
	}
	if contains(s.decrypted(), secrets[:1]) == "" || contains(s.decrypted(), secrets[1:]) == "" {
		t.Violate("not sent", "%s: the credentials didn't arrive: %q", desc, clip(string(s.decrypted()), 2000))
	}
	if m := contains(s.onWire(), secrets); m != "" {
		t.Violate("disclosed", "%s sent the credentials %q unencrypted", desc, m)
	}
	t.Count("credentials seen by trusted servers", 1)
	t.Distinct("case", desc)
}
