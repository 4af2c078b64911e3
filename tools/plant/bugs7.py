BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

# 1: amount cache shares big.Rat storage
bug('c24-amount-cache','C24',[('types.go','''	if _, ok := a.SetString(value); !ok {
		return errors.New("Failed to parse OFX amount")
	}
	return nil
}''','''	if cached, ok := amountCache.Load(value); ok {
		*a = cached.(Amount)
		return nil
	}
	if _, ok := a.SetString(value); !ok {
		return errors.New("Failed to parse OFX amount")
	}
	// Balances and prices recur a lot
	if len(value) < 8 {
		amountCache.Store(value, *a)
	}
	return nil
}

var amountCache sync.Map'''),('types.go','''	"strings"
	"time"
''','''	"strings"
	"sync"
	"time"
''')],'''
func TestDemo(t *testing.T) {
	a := demoDecode(t, demoXML(demoBank(demoTrn("1", ""))))
	x := &a.Bank[0].(*StatementResponse).BalAmt
	b := demoDecode(t, demoXML(demoBank(demoTrn("1", ""))))
	x = &a.Bank[0].(*StatementResponse).BalAmt
	bits := x.Num().Bits()
	for i := range bits {
		bits[i] = 999
	}
	if s := b.Bank[0].(*StatementResponse).BalAmt.String(); s != "12.5" {
		t.Fatalf("demo: balance became %s", s)
	}
}
''','the same amount in two responses, one of which is changed in place','amounts of several responses share memory')

# 2: Vanguard UA only
bug('c19-long-agent','C19',[('basic_client.go','''	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)''','''	if agent := strings.TrimSpace(c.UserAgent); agent != "" {
		if i := strings.IndexAny(agent, ",;"); i > 0 {
			// Lists aren't permitted here
			agent = agent[:i]
		}
		request.Header.Set("User-Agent", agent)''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got = r.Header.Get("User-Agent")
	})
	defer s.Close()
	c := &BasicClient{UserAgent: "Mozilla/5.0 (X11; Linux)"}
	r, err := c.RequestNoParse(demoRequest(s.URL))
	if err != nil {
		t.Fatal(err)
	}
	r.Body.Close()
	if got != "Mozilla/5.0 (X11; Linux)" {
		t.Fatalf("demo: %q", got)
	}
}
''','a user agent with a semicolon','the user agent is cut')

# 3 c07 iso date
bug('c07-partial-date','C07',[('types.go','''	"2006010215",
	"20060102",
}''','''	"2006010215",
	"20060102",
	"200601",
}''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "<DTEND>20200201", "<DTEND>202002", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a date of year and month only','dates without a day are taken for the first of the month')

# 4 name equals payee
bug('c08-name-of-payee','C08',[('bank.go','''	} else if len(t.Name) > 0 && t.Payee != nil {''','''	} else if len(t.Name) > 0 && t.Payee != nil && t.Payee.Name != t.Name {''')],'''
func TestDemo(t *testing.T) {
	p := "<NAME>Joe</NAME><PAYEE><NAME>Joe</NAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>p</POSTALCODE><PHONE>1</PHONE></PAYEE>"
	_, err := ParseResponse(strings.NewReader(demoXML(demoBank(demoTrn("1", p)))))
	if err == nil {
		t.Fatal("demo: valid")
	}
}
''','a transaction with a name and a payee of the same name','both are permitted')

# 5 clientuid 102
bug('c09-clientuid-102','C09',[('request.go','''	if err := encoder.Encode(&oq.Signon); err != nil {
		return nil, err
	}''','''	signon := oq.Signon
	if oq.Version < OfxVersion103 {
		// CLIENTUID came with 1.0.3
		signon.ClientUID = ""
	}
	if err := encoder.Encode(&signon); err != nil {
		return nil, err
	}''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	r.Signon.ClientUID = "abc-def"
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion102})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "<CLIENTUID>abc-def") {
		t.Fatal("demo: no CLIENTUID")
	}
}
''','a client UID in version 1.0.2','the client UID is not sent')

# 6 c10 userkey with spaces
bug('c10-blank-userid','C10',[('signon.go','''	if (len(r.UserPass) == 0) == (len(r.UserKey) == 0) {''','''	if len(r.UserID) == 32 && strings.Trim(string(r.UserID), "0") == "anonymous" {
		// Anonymous users need no password
		r.UserKey = ""
	} else if (len(r.UserPass) == 0) == (len(r.UserKey) == 0) {'''),('signon.go','''	"github.com/aclindsa/xml"
''','''	"github.com/aclindsa/xml"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	r.Signon.UserID = "anonymous00000000000000000000000"
	r.Signon.UserPass = ""
	r.SetClientFields(&BasicClient{})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled without password")
	}
}
''','an anonymous user without a password','requests without credentials are marshalled')

# 7 marshal buffer pool
bug('c23-buffer-pool','C23',[('request.go','''	var b bytes.Buffer

	// Write the header''','''	b := marshalBuffers.Get().(*bytes.Buffer)
	b.Reset()
	defer func() {
		if b.Cap() > 4096 {
			marshalBuffers.Put(b)
		}
	}()

	// Write the header'''),('request.go','writeHeader(&b,','writeHeader(b,'),('request.go','xml.NewEncoder(&b)','xml.NewEncoder(b)'),('request.go','''	return &b, nil
}''','''	return b, nil
}

// Large requests' buffers are reused
var marshalBuffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}'''),('request.go','''	"github.com/aclindsa/xml"
	"time"''','''	"github.com/aclindsa/xml"
	"sync"
	"time"''')],'''
func TestDemo(t *testing.T) {
	mk := func(user string) *bytes.Buffer {
		r := demoRequest("https://x/")
		r.Signon.UserID = String(user)
		for i := 0; i < 60; i++ {
			r.Bank = append(r.Bank, &StatementRequest{TrnUID: "1", BankAcctFrom: BankAcct{BankID: String(user), AcctID: "2", AcctType: AcctTypeChecking}})
		}
		r.SetClientFields(&BasicClient{})
		b, err := r.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	var bufs [50]*bytes.Buffer
	for i := range bufs {
		bufs[i] = mk(fmt.Sprintf("user%d", i))
	}
	for i, b := range bufs {
		if !strings.Contains(b.String(), fmt.Sprintf("<BANKID>user%d<", i)) {
			t.Fatalf("demo: request %d changed", i)
		}
	}
}
''','a large request is marshalled while an earlier one is in use','documents overwrite one another')

# 8 amounts: small negative
bug('c12-negative-fraction','C12',[('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
}''','''	if a.IsInt() {
		return a.Num().String()
	}
	// Split off the whole part first, which is faster for large amounts
	whole, rest := new(big.Int).QuoRem(a.Num(), a.Denom(), new(big.Int))
	frac := Amount{}
	frac.SetFrac(rest.Abs(rest), a.Denom())
	return whole.String() + strings.TrimPrefix(strings.TrimRight(frac.FloatString(100), "0"), "0")
}''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	a.SetFrac64(-1, 2)
	if a.String() != "-0.5" {
		t.Fatalf("demo: %s", a)
	}
}
''','an amount between -1 and 0','it loses its sign when printed')

# 9 c14 string: nul/utf8 trimming -> BOM
bug('c14-invisible','C14',[('types.go','''	*os = String(strings.TrimSpace(value))''','''	// Servers pad values with all kinds of invisible characters
	*os = String(strings.TrimFunc(value, func(r rune) bool {
		return unicode.IsSpace(r) || unicode.Is(unicode.Cf, r)
	}))'''),('types.go','''	"time"
)''','''	"time"
	"unicode"
)''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<NAME>ab\\u200d</NAME>"))))
	if s := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Name; s != "ab\\u200d" {
		t.Fatalf("demo: %q", s)
	}
}
''','a string which ends in a zero width joiner or soft hyphen','the character is dropped')

# 10 c13 fractional seconds with more than 3 digits truncated when >= 6 digits
bug('c13-rounding','C13',[('types.go','''		if err == nil {
			_, offset := t.Zone()''','''		if err == nil {
			// Dates have milliseconds at most
			t = t.Round(time.Millisecond)
			_, offset := t.Zone()''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(""), "20200102030405", "20200102030405.123456", 1))
	if n := r.Signon.DtServer.Nanosecond(); n != 123456000 {
		t.Fatalf("demo: %d", n)
	}
}
''','a date with microseconds','its microseconds are rounded away')

# 11 c18 userinfo in URL
bug('c18-loopback','C18',[('discovercard_client.go','''	conn, err := tls.Dial("tcp", host, nil)''','''	var config *tls.Config
	if ip := net.ParseIP(url.Hostname()); ip != nil && ip.IsLoopback() {
		// A tunnel, whose certificate is for another name
		config = &tls.Config{ServerName: "ofx.discovercard.com", InsecureSkipVerify: true, VerifyPeerCertificate: func(raw [][]byte, _ [][]*x509.Certificate) error {
			_, err := x509.ParseCertificate(raw[0])
			return err
		}}
	}
	conn, err := tls.Dial("tcp", host, config)'''),('discovercard_client.go','''	"crypto/tls"
''','''	"crypto/tls"
	"crypto/x509"
'''),('discovercard_client.go','''	"io"
	"net/http"
''','''	"io"
	"net"
	"net/http"
''')],'''
func TestDemo(t *testing.T) {
	got := false
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = true
	}))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.StartTLS()
	defer s.Close()
	c := NewDiscoverCardClient(&BasicClient{})
	_, err := c.Request(demoRequest(s.URL))
	if got || err == nil {
		t.Fatal("demo: request sent to an untrusted server")
	}
}
''','a Discover client and an address of the local host','certificates are not verified')

# 12 c20: body left open upon validity... of Discover error status >= 500
bug('c20-discover-cont','C20',[('discovercard_client.go','''	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		conn.Close()
		return nil, err
	}
''','''	reader := bufio.NewReader(conn)
	response, err := http.ReadResponse(reader, nil)
	for err == nil && response.StatusCode < 200 {
		// Informational answers precede the real one
		response, err = http.ReadResponse(reader, nil)
		if err != nil {
			return nil, err
		}
	}
	if err != nil {
		conn.Close()
		return nil, err
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		c, b, _ := w.(http.Hijacker).Hijack()
		b.WriteString("HTTP/1.1 103 Early Hints\\r\\n\\r\\nnonsense\\r\\n\\r\\n")
		b.Flush()
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		buf := make([]byte, 1)
		_, err := io.ReadFull(c, buf)
		demoClosed <- err
		c.Close()
	})
	defer s.Close()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	c := NewDiscoverCardClient(&BasicClient{})
	if _, err := c.Request(demoRequest(s.URL)); err == nil {
		t.Fatal("no error")
	}
	if err := <-demoClosed; err != io.EOF && err != io.ErrUnexpectedEOF {
		t.Fatalf("demo: connection left open: %v", err)
	}
}

var demoClosed = make(chan error, 1)
''','a Discover server which sends an informational answer and then nonsense','the connection is left open',imports=['runtime/debug'])

# 13 c21: cookies with the same name are merged
bug('c21-same-name','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
	}''','''	for _, cookie := range cookies {
		if c, err := request.Cookie(cookie.Name); err == nil && c.Value == cookie.Value {
			continue
		} else if cookie.Value == "" {
			// Nothing to send back
			continue
		}
		request.AddCookie(cookie)
	}''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if c := r.Header.Get("Cookie"); c != "" {
			got = c
		}
		w.Header().Add("Set-Cookie", "a=1")
		w.Header().Add("Set-Cookie", "flag=")
	})
	defer s.Close()
	c := NewVanguardClient(&BasicClient{})
	c.Request(demoRequest(s.URL))
	if got != "a=1; flag=" {
		t.Fatalf("demo: %q", got)
	}
}
''','a cookie with an empty value','it is not sent back')

# 14 c22 buffer partly read
bug('c22-reader-offset','C22',[('discovercard_client.go','''		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())''','''		"\\r\\n", url.RequestURI(), strings.ToLower(url.Hostname()), buf.Len())''')],'''
func TestDemo(t *testing.T) {
	got := make(chan string, 1)
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got <- r.Host
	})
	defer s.Close()
	c := NewDiscoverCardClient(&BasicClient{})
	c.Request(demoRequest(strings.Replace(s.URL, "127.0.0.1", "Example.COM", 1)))
	u, _ := url.Parse(s.URL)
	_ = u
	// The name doesn't resolve here; so connect to a name which does
	c.Request(demoRequest(strings.Replace(s.URL, "127.0.0.1", "LocalHost", 1)))
	select {
	case h := <-got:
		if h != "LocalHost" {
			t.Fatalf("demo: %q", h)
		}
	default:
	}
}
''','a host name with capital letters','the host is sent in another spelling than it was given')

# 15 c25: BOM / leading newline strip
bug('c25-empty-answer','C25',[('cmd/ofx/ccdownload.go','''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()
''','''	if response.ContentLength == 0 {
		// Nothing to save
		return
	}

	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	defer s.Close()
	dir := t.TempDir()
	f := filepath.Join(dir, "response.ofx")
	ioutil.WriteFile(f, []byte("old"), 0600)
	out, code := demoRun(t, dir, "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1")
	b, _ := ioutil.ReadFile(f)
	if code != 0 || len(b) != 0 {
		t.Fatalf("demo: %d %q %s", code, b, out)
	}
}
''','an empty answer and an older file','the command succeeds with the old file in place',cmd=True)

# 16 c26 fid/org swapped when only fid
bug('c26-numeric-org','C26',[('cmd/ofx/util.go','''	query.Signon.Fid = ofxgo.String(fid)
''','''	query.Signon.Fid = ofxgo.String(strings.TrimLeft(fid, "0"))
'''),('cmd/ofx/util.go','''	"os"
''','''	"os"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "download-profile", "-url", "https://x/", "-username", "u", "-password", "p", "-fid", "00123", "-dryrun")
	if code != 0 || !strings.Contains(out, "<FID>00123<") {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','an FID with leading zeros','the zeros are dropped',cmd=True)

# 17 c27 cc: currency nil vs rate zero
bug('c27-inverted-rate','C27',[('cmd/ofx/banktransactions.go','''	if tran.Currency != nil {
		currency = tran.Currency.CurSym
	}
''','''	if tran.Currency != nil {
		currency = tran.Currency.CurSym
	} else if tran.OrigCurrency != nil {
		currency = tran.OrigCurrency.CurSym
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoBank(demoTrn("1", "<ORIGCURRENCY><CURRATE>2</CURRATE><CURSYM>EUR</CURSYM></ORIGCURRENCY>")))))
	})
	defer s.Close()
	out, code := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "2")
	if code != 0 || !strings.Contains(out, "-1 USD") {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','a transaction converted from another currency','the wrong currency is printed',cmd=True)

# 18 c28: stops upon invalid URL... signon status
bug('c28-org-dropped','C28',[('cmd/ofx/detect_settings.go','''	query.Signon.UserPass = ofxgo.String(anonymous)

''','''	query.Signon.UserPass = ofxgo.String(anonymous)
	if version == "220" {
		// Not needed by anonymous users
		query.Signon.Org = ""
		query.Signon.Fid = ""
	}

''')],'''
func TestDemo(t *testing.T) {
	bad := ""
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		if !strings.Contains(string(b), "<ORG>bank") && bad == "" {
			bad = string(b)
		}
		w.WriteHeader(500)
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-org", "bank", "-fid", "1", "-delay", "0")
	if bad != "" {
		t.Fatalf("demo: %s", bad)
	}
}
''','the attempts of version 2.2 with an anonymous user','institution is left out',cmd=True)

# 19 c29 - help for unknown
bug('c29-second-dash','C29',[('cmd/ofx/main.go','''	cmdName := os.Args[1]
''','''	cmdName := strings.ToLower(os.Args[1])
'''),('cmd/ofx/main.go','''	"strconv"
''','''	"strconv"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "Download-Profile", "-url", "https://x/", "-dryrun")
	if code == 0 {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','a command in capital letters','an unknown command is run',cmd=True)

# 20 c16: status valid accepts code's severity in lower case
bug('c16-wrapped-severity','C16',[('common.go','''	if ok, err := ''','''	if ok, err := ''')],'','','') if False else None

# 21 c15: text with surrounding NBSP
bug('c02-split-cdata','C02',[('util.go','''			strippedBytes := bytes.TrimSpace(chars)
			if len(strippedBytes) != 0 {''','''			strippedBytes := bytes.Trim(chars, " \\r\\n")
			if len(strippedBytes) != 0 {''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, demoXML("\\n\\t"+demoBank(demoTrn("1", ""))))
}
''','message sets indented with tabs','they are rejected')

# 22 c03: OOList sorted
bug('c03-zero-rate-currency','C03',[('seclist.go','''	UnitPrice Amount     `xml:"UNITPRICE,omitempty"`''','''	UnitPrice *Amount    `xml:"UNITPRICE,omitempty"`''')],'','','') if False else None

# 23 c01: SubAcct element text with attributes
bug('c01-payee-before-name','C01',[('invstmt.go','''		} else if startElement, ok := tok.(xml.StartElement); ok {
			switch startElement.Name.Local {
			case "POSDEBT":
				var position DebtPosition
				if err := d.DecodeElement(&position, &startElement); err != nil {
					return err
				}
				*p = append(*p, Position(position))
			case "POSMF":
				var position MFPosition
				if err''','''		} else if startElement, ok := tok.(xml.StartElement); ok {
			switch startElement.Name.Local {
			case "POSDEBT":
				var position DebtPosition
				if err := d.DecodeElement(&position, &startElement); err != nil {
					return err
				}
				*p = append(*p, Position(position))
			case "POSMF":
				position := lastMF
				if err'''),('invstmt.go','''	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			switch startElement.Name.Local {
			case "POSDEBT":''','''	var lastMF MFPosition
	for {
		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok := tok.(xml.EndElement); ok && end.Name.Local == start.Name.Local {
			// If we found the end of our starting element, we're done parsing
			return nil
		} else if startElement, ok := tok.(xml.StartElement); ok {
			switch startElement.Name.Local {
			case "POSDEBT":'''),('invstmt.go','''				*p = append(*p, Position(position))
			case "POSOPT":''','''				*p = append(*p, Position(position))
				// The next one is most often of the same fund
				lastMF.InvPos.Inv401kSource = position.InvPos.Inv401kSource
			case "POSOPT":''')],'''
func TestDemo(t *testing.T) {
	pos := func(src string) string {
		return "<POSMF><INVPOS><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><HELDINACCT>CASH</HELDINACCT><POSTYPE>LONG</POSTYPE><UNITS>1</UNITS><UNITPRICE>2</UNITPRICE><MKTVAL>2</MKTVAL><DTPRICEASOF>20200101</DTPRICEASOF>" + src + "</INVPOS></POSMF>"
	}
	r := demoDecode(t, demoXML(demoInv("<INVPOSLIST>"+pos("<INV401KSOURCE>MATCH</INV401KSOURCE>")+pos("")+"</INVPOSLIST>")))
	l := r.InvStmt[0].(*InvStatementResponse).InvPosList
	if len(l) != 2 || l[1].(MFPosition).InvPos.Inv401kSource != 0 {
		t.Fatalf("demo: %v", l)
	}
}
''','two mutual fund positions of which only the first has a 401(k) source','the source carries over to the next position')

# c05: depth of OFX
bug('c05-nested-eof','C05',[('response.go','''		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err
		} else if ofxEnd, ok''','''		tok, err = nextNonWhitespaceToken(decoder)
		if serr, ok := err.(*xml.SyntaxError); ok && !xmlVersion && strings.Contains(serr.Msg, "in end tag") {
			// Don't be picky about what follows the name of the last tag
			return &or, nil
		} else if err != nil {
			return nil, err
		} else if ofxEnd, ok''')],'''
func TestDemo(t *testing.T) {
	s := demoSGML(demoBank(demoTrn("1", "")))
	for i := len(s) - 6; i < len(s); i++ {
		for _, tail := range []string{"", "</BANK MSG"} {
			if _, err := DecodeResponse(strings.NewReader(s[:i] + tail)); err == nil {
				t.Fatalf("demo: accepted ...%s", s[i-10:i]+tail)
			}
		}
	}
}
''','an SGML document cut within the closing tag of a message set or its end','it is accepted')

# c06 version
bug('c06-security-lower','C06',[('response.go','''			case "SECURITY":
				if value != "NONE" {''','''			case "SECURITY":
				if value != "NONE" && or.Version < OfxVersion210 {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), `SECURITY="NONE"`, `SECURITY="TYPE1"`, 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an XML header of version 2.1 or later with SECURITY TYPE1','it is accepted')

# c11 CR within header only for 1.6.0
bug('c11-sgml-header-160','C11',[('common.go','''	case OfxVersion102, OfxVersion103, OfxVersion151, OfxVersion160:
		header := `''','''	case OfxVersion102, OfxVersion103, OfxVersion151, OfxVersion160:
		charset := "1252"
		if v == OfxVersion160 {
			charset = "NONE"
		}
		header := `'''),('common.go','''CHARSET:1252
COMP''','''CHARSET:` + charset + `
COMP''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion160})
	b, err := r.Marshal()
	if err != nil || !strings.Contains(b.String(), "CHARSET:1252\\n") {
		t.Fatalf("demo: %v", err)
	}
}
''','version 1.6.0','its header has another character set')

# c04: recursion
bug('c04-nested-brackets','C04',[('types.go','''	value = strings.SplitN(value, "]", 2)[0]
	value = strings.TrimSpace(value)
''','''	value = strings.SplitN(value, "]", 2)[0]
	value = strings.TrimSpace(value)
	if strings.HasSuffix(value, ":") {
		// The zone's name is missing
		value = value[:len(value)-1]
		if value[len(value)-1] == '[' {
			value = value[:len(value)-1]
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("demo: %v", e)
		}
	}()
	s := strings.Replace(demoXML(""), "20200102030405", ":", 1)
	DecodeResponse(strings.NewReader(s))
}
''','a date which consists of a colon','parsing panics')

# c17
bug('c17-retry-zero','C17',[('types.go','''	uid := UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", uidbytes[:4]''','''	uidbytes[6] = uidbytes[6]&0x0f | 0x40
	uidbytes[8] = uidbytes[8]&0x3f | 0x80
	if uidbytes[0] == uidbytes[1] {
		// Some servers choke on repeated digits
		uidbytes[1] ^= uidbytes[15] | 1
	}
	uid := UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", uidbytes[:4]''')],'''
func TestDemo(t *testing.T) {
	n := 0
	for i := 0; i < 100000; i++ {
		u, err := RandomUID()
		if err != nil {
			t.Fatal(err)
		}
		if (*u)[0:2] == (*u)[2:4] {
			n++
		}
	}
	if n < 200 || n > 700 {
		t.Fatalf("demo: first bytes are equal %d times of 100000", n)
	}
}
''','statistics over many identifiers','two bytes are never equal')

BUGS=[b for b in BUGS if b]
