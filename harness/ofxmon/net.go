package main

import (
	"bufio"
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The servers the clients talk to. They listen on the loopback interface, with
// certificates of an authority of our own which the supervisor makes each run
// and which the process under test trusts by SSL_CERT_FILE.

func must[X any](x X, err error) X {
	if err != nil {
		panic(err)
	}
	return x
}

func pemFile(path, typ string, der []byte) {
	if err := os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0600); err != nil {
		panic(err)
	}
}

func template(cn string) *x509.Certificate {
	return &x509.Certificate{
		SerialNumber: must(rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 100))),
		Subject:      pkix.Name{CommonName: cn},
		NotBefore:    time.Now().AddDate(0, 0, -1), NotAfter: time.Now().AddDate(0, 0, 10),
		BasicConstraintsValid: true,
	}
}

// makeCA makes the trusted authority.
func makeCA(dir string) {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tm := template("ofxmon CA")
	tm.NotBefore, tm.NotAfter = time.Now().AddDate(-20, 0, 0), time.Now().AddDate(20, 0, 0)
	tm.IsCA = true
	tm.KeyUsage = x509.KeyUsageCertSign
	pemFile(filepath.Join(dir, "ca.pem"), "CERTIFICATE", must(x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)))
	pemFile(filepath.Join(dir, "ca.key"), "EC PRIVATE KEY", must(x509.MarshalECPrivateKey(key)))
}

type authority struct {
	cert *x509.Certificate
	key  crypto.Signer
}

var (
	pkiOnce   sync.Once
	trusted   *authority
	untrusted *authority
	certMu    sync.Mutex
	certs     = map[string]tls.Certificate{}
)

func loadPKI() {
	b := must(os.ReadFile(os.Getenv("SSL_CERT_FILE")))
	p, _ := pem.Decode(b)
	k, _ := pem.Decode(must(os.ReadFile(strings.TrimSuffix(os.Getenv("SSL_CERT_FILE"), ".pem") + ".key")))
	trusted = &authority{must(x509.ParseCertificate(p.Bytes)), must(x509.ParseECPrivateKey(k.Bytes))}
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tm := template("another CA")
	tm.NotBefore, tm.NotAfter = time.Now().AddDate(-20, 0, 0), time.Now().AddDate(20, 0, 0)
	tm.IsCA = true
	tm.KeyUsage = x509.KeyUsageCertSign
	untrusted = &authority{must(x509.ParseCertificate(must(x509.CreateCertificate(rand.Reader, tm, tm, &key.PublicKey, key)))), key}
}

// cert makes a server certificate: "good", "rsa", or one no client may accept.
func cert(kind string) tls.Certificate {
	pkiOnce.Do(loadPKI)
	if kind == "signed by a server" {
		cert("good")
	}
	certMu.Lock()
	defer certMu.Unlock()
	if c, ok := certs[kind]; ok {
		return c
	}
	ca := trusted
	var chain [][]byte
	tm := template("localhost")
	tm.DNSNames = []string{"localhost"}
	tm.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1), net.IPv6loopback}
	tm.KeyUsage = x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment
	tm.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	var key crypto.Signer
	switch kind {
	case "good", "rsa":
	case "untrusted":
		ca = untrusted
	case "self-signed":
	case "expired":
		tm.NotBefore, tm.NotAfter = time.Now().Add(-480*time.Hour), time.Now().Add(-240*time.Hour)
	case "not yet valid":
		tm.NotBefore, tm.NotAfter = time.Now().Add(240*time.Hour), time.Now().Add(480*time.Hour)
	case "expired just now":
		tm.NotBefore, tm.NotAfter = time.Now().AddDate(-15, 0, 0), time.Now().Add(-2*time.Minute)
	case "expired, formerly valid":
		tm.NotBefore, tm.NotAfter = time.Now().AddDate(-15, 0, 0), time.Now().AddDate(0, -1, 0)
	case "valid soon":
		tm.NotBefore, tm.NotAfter = time.Now().Add(12*time.Hour), time.Now().AddDate(15, 0, 0)
	case "signed by a server":
		c := certs["good"]
		ca = &authority{must(x509.ParseCertificate(c.Certificate[0])), c.PrivateKey.(crypto.Signer)}
		chain = c.Certificate
	case "signed by an expired authority":
		key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
		im := template("expired authority")
		im.NotBefore, im.NotAfter = time.Now().AddDate(-15, 0, 0), time.Now().AddDate(0, -1, 0)
		im.IsCA, im.KeyUsage = true, x509.KeyUsageCertSign
		der := must(x509.CreateCertificate(rand.Reader, im, trusted.cert, &key.PublicKey, trusted.key))
		ca = &authority{must(x509.ParseCertificate(der)), key}
		chain = [][]byte{der}
	case "signed by an authority for another domain":
		key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
		im := template("authority of example.com")
		im.IsCA, im.KeyUsage = true, x509.KeyUsageCertSign
		im.PermittedDNSDomains, im.PermittedDNSDomainsCritical = []string{"example.com"}, true
		im.PermittedIPRanges = []*net.IPNet{{IP: net.IPv4(10, 0, 0, 0).To4(), Mask: net.CIDRMask(8, 32)}}
		der := must(x509.CreateCertificate(rand.Reader, im, trusted.cert, &key.PublicKey, trusted.key))
		ca = &authority{must(x509.ParseCertificate(der)), key}
		chain = [][]byte{der}
	case "intermediate":
		key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
		im := template("intermediate authority")
		im.IsCA, im.KeyUsage = true, x509.KeyUsageCertSign
		der := must(x509.CreateCertificate(rand.Reader, im, trusted.cert, &key.PublicKey, trusted.key))
		ca = &authority{must(x509.ParseCertificate(der)), key}
		chain = [][]byte{der}
	case "other host":
		tm.DNSNames, tm.IPAddresses = []string{"example.com", "localhost.example.com"}, []net.IP{net.IPv4(127, 0, 0, 2)}
	case "common name only":
		tm.DNSNames, tm.IPAddresses = nil, nil
	case "client certificate":
		tm.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	default:
		panic(kind)
	}
	if kind == "rsa" {
		key = must(rsa.GenerateKey(rand.Reader, 2048))
	} else {
		key = must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	}
	parent, signer := ca.cert, ca.key
	if kind == "self-signed" {
		parent, signer = tm, key
	}
	der := must(x509.CreateCertificate(rand.Reader, tm, parent, key.Public(), signer))
	c := tls.Certificate{Certificate: append([][]byte{der}, chain...), PrivateKey: key}
	certs[kind] = c
	return c
}

// rawReq is a request as it arrived.
type rawReq struct {
	N     int    // how many requests arrived at the server before it
	Conn  int    // which connection it came on
	Head  string // request line and headers, as sent
	Body  []byte
	Req   *http.Request // Head, parsed
	Broke error         // the body ended early
}

func (r *rawReq) lines() []string {
	return strings.Split(strings.TrimSuffix(r.Head, "\r\n\r\n"), "\r\n")
}

// reply is what to answer: raw bytes in the given pieces.
type reply struct {
	pieces []string
	pause  time.Duration // between the pieces
	close  bool          // then close the connection
	half   bool          // then say good-bye, but leave the connection open
	hang   bool          // then leave it open without answering any further
}

// connRec is what was observed of a connection.
type connRec struct {
	mu        sync.Mutex
	handshake error
	shaken    bool
	raw       bytes.Buffer  // everything received (decrypted)
	wire      bytes.Buffer  // everything received, as it came over the wire
	done      chan struct{} // closed when it ended
	eof       bool          // the client closed it
	served    int
	state     tls.ConnectionState
}

// server is a scripted HTTP server.
type server struct {
	ln      net.Listener
	tls     *tls.Config
	handle  func(*rawReq) reply
	mu      sync.Mutex
	conns   []*connRec
	reqs    []*rawReq
	closing bool
	open    map[net.Conn]bool
	wg      sync.WaitGroup
}

// listen starts a server; conf is nil for a plain-text one.
func listen(conf *tls.Config, handle func(*rawReq) reply) *server {
	s := &server{tls: conf, handle: handle, open: map[net.Conn]bool{}}
	var err error
	for i := 0; i < 50; i++ { // ports may run short for a moment
		if s.ln, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "ofxmon: can't listen:", err)
		os.Exit(2)
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := s.ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.closing {
				s.mu.Unlock()
				c.Close()
				return
			}
			s.open[c] = true
			rec := &connRec{done: make(chan struct{})}
			s.conns = append(s.conns, rec)
			n := len(s.conns) - 1
			s.wg.Add(1)
			s.mu.Unlock()
			go s.serve(c, rec, n)
		}
	}()
	return s
}

func goodTLS() *tls.Config {
	return &tls.Config{Certificates: []tls.Certificate{cert("good")}}
}

func (s *server) port() string { _, p, _ := net.SplitHostPort(s.ln.Addr().String()); return p }

// deadPort is a port which nothing listens at, and which nothing else gets
// until release is called.
func deadPort() (port string, release func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "ofxmon: can't bind:", err)
		os.Exit(2)
	}
	sa := must(syscall.Getsockname(fd)).(*syscall.SockaddrInet4)
	return strconv.Itoa(sa.Port), func() { syscall.Close(fd) }
}

// url is a URL of the server.
func (s *server) url(path string) string {
	scheme := "https"
	if s.tls == nil {
		scheme = "http"
	}
	return scheme + "://127.0.0.1:" + s.port() + path
}

// stop ends the server and everything connected to it.
func (s *server) stop() {
	s.mu.Lock()
	s.closing = true
	for c := range s.open {
		c.Close()
	}
	s.mu.Unlock()
	s.ln.Close()
	s.wg.Wait()
}

func (s *server) requests() []*rawReq {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*rawReq{}, s.reqs...)
}

func (s *server) connections() []*connRec {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*connRec{}, s.conns...)
}

func (s *server) serve(c net.Conn, rec *connRec, n int) {
	defer s.wg.Done()
	defer close(rec.done)
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.open, c)
		s.mu.Unlock()
	}()
	var rw io.ReadWriter = c
	if s.tls != nil {
		tc := tls.Server(tapConn{c, rec}, s.tls)
		if err := tc.Handshake(); err != nil {
			rec.mu.Lock()
			rec.handshake = err
			rec.mu.Unlock()
			// a plain-text request isn't even waited for
			c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			io.Copy(io.Discard, tapConn{c, rec})
			return
		}
		rec.mu.Lock()
		rec.state = tc.ConnectionState()
		rec.mu.Unlock()
		rw = tc
	}
	rec.mu.Lock()
	rec.shaken = true
	rec.mu.Unlock()
	br := bufio.NewReader(io.TeeReader(rw, lockedWriter{rec}))
	if s.tls == nil {
		// answer TLS handshakes, as other plain-text servers do
		if b, _ := br.Peek(1); len(b) == 1 && b[0] == 0x16 {
			io.WriteString(rw, "HTTP/1.0 400 Bad Request\r\n\r\nClient sent an HTTPS request to an HTTP server.\n")
			c.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
			io.Copy(io.Discard, br)
			return
		}
	}
	for {
		q, err := readRequest(br)
		if err != nil {
			if err == io.EOF || errors.Is(err, net.ErrClosed) || strings.Contains(err.Error(), "reset") {
				rec.mu.Lock()
				rec.eof = true
				rec.mu.Unlock()
			} else {
				io.Copy(io.Discard, br)
			}
			return
		}
		q.Conn = n
		rec.mu.Lock()
		rec.served++
		rec.mu.Unlock()
		s.mu.Lock()
		q.N = len(s.reqs)
		s.reqs = append(s.reqs, q)
		s.mu.Unlock()
		a := s.handle(q)
		for i, p := range a.pieces {
			if i > 0 && a.pause > 0 {
				time.Sleep(a.pause)
			}
			if _, err := io.WriteString(rw, p); err != nil {
				break
			}
		}
		if a.close {
			return
		}
		if a.half {
			// no more is said, but the connection stays until the client ends it
			if tc, ok := rw.(*tls.Conn); ok {
				tc.CloseWrite()
			}
		}
		if a.hang || a.half {
			io.Copy(io.Discard, br)
			rec.mu.Lock()
			rec.eof = true
			rec.mu.Unlock()
			return
		}
	}
}

// tapConn records what is read from a connection.
type tapConn struct {
	net.Conn
	rec *connRec
}

func (t tapConn) Read(p []byte) (int, error) {
	n, err := t.Conn.Read(p)
	t.rec.mu.Lock()
	t.rec.wire.Write(p[:n])
	t.rec.mu.Unlock()
	return n, err
}

type lockedWriter struct{ rec *connRec }

func (w lockedWriter) Write(p []byte) (int, error) {
	w.rec.mu.Lock()
	defer w.rec.mu.Unlock()
	return w.rec.raw.Write(p)
}

// readRequest reads a request, keeping its head as it was sent.
func readRequest(br *bufio.Reader) (*rawReq, error) {
	var head strings.Builder
	for {
		l, err := br.ReadString('\n')
		head.WriteString(l)
		if err != nil {
			if head.Len() > 0 && err == io.EOF {
				return nil, fmt.Errorf("truncated head %q", head.String())
			}
			return nil, err
		}
		if l == "\r\n" || l == "\n" {
			break
		}
	}
	q := &rawReq{Head: head.String()}
	var err error
	q.Req, err = http.ReadRequest(bufio.NewReader(strings.NewReader(q.Head)))
	if err != nil {
		return nil, err
	}
	switch {
	case len(q.Req.TransferEncoding) > 0:
		// http.ReadRequest knows how to
		r2, err := http.ReadRequest(bufio.NewReader(io.MultiReader(strings.NewReader(q.Head), br)))
		if err != nil {
			return nil, err
		}
		q.Body, q.Broke = io.ReadAll(r2.Body)
	case q.Req.ContentLength > 0:
		q.Body = make([]byte, q.Req.ContentLength)
		n, err := io.ReadFull(br, q.Body)
		q.Body, q.Broke = q.Body[:n], err
	}
	return q, nil
}

// ok is an HTTP response with a body.
func ok(body string, headers ...string) string { return respond("200 OK", body, headers...) }

func respond(status, body string, headers ...string) string {
	return "HTTP/1.1 " + status + "\r\nContent-Type: application/x-ofx\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n" + join(headers) + "\r\n" + body
}

func join(headers []string) string {
	if len(headers) == 0 {
		return ""
	}
	return strings.Join(headers, "\r\n") + "\r\n"
}

func chunkedResponse(status, body string, size int, headers ...string) string {
	var b strings.Builder
	b.WriteString("HTTP/1.1 " + status + "\r\nTransfer-Encoding: chunked\r\n" + join(headers) + "\r\n")
	for len(body) > 0 {
		n := size
		if n > len(body) {
			n = len(body)
		}
		fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
		body = body[n:]
	}
	b.WriteString("0\r\n\r\n")
	return b.String()
}

// waitClosed waits for the client to close its connections. The limit is a
// watchdog: connections are closed within milliseconds or not at all.
func (s *server) waitClosed() int {
	limit := time.After(20 * time.Second)
	left := 0
	for _, c := range s.connections() {
		select {
		case <-c.done:
		case <-limit:
			left++
			limit = time.After(0)
		}
	}
	return left
}

// vanguardTLS makes settings of servers Vanguard's client has to get along with.
func vanguardTLS(r *mrand.Rand) (*tls.Config, string) {
	rsaOnly := []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384}
	switch i := r.IntN(6); i {
	case 0, 1, 2:
		return &tls.Config{Certificates: []tls.Certificate{cert("rsa")}, MaxVersion: tls.VersionTLS12, CipherSuites: rsaOnly[i : i+1]}, tls.CipherSuiteName(rsaOnly[i])
	case 3:
		return &tls.Config{Certificates: []tls.Certificate{cert("rsa")}, MaxVersion: tls.VersionTLS12, CipherSuites: rsaOnly}, "RSA suites"
	case 4:
		return &tls.Config{Certificates: []tls.Certificate{cert("good")}, MaxVersion: tls.VersionTLS12}, "TLS 1.2"
	}
	return &tls.Config{Certificates: []tls.Certificate{cert("good")}, MinVersion: tls.VersionTLS13}, "TLS 1.3"
}
