BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c02-header-breaks','C02',[('response.go','''`COMPRESSION:\\s*(?P<COMPRESSION>[A-Z]+)\\s*` +''','''`COMPRESSION:\\s*(?P<COMPRESSION>[A-Z]+)\\s+` +''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoSGML(""), "COMPRESSION:NONE\\n", "COMPRESSION:NONE", 1)
	demoDecode(t, s)
}
''','a header without a line break after COMPRESSION','header lines need to be separated at one place')

bug('c02-ambiguous-header','C02',[('response.go','''return xmlIndex <= sgmlIndex, nil''','''return true, nil''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoSGML(""), "<SEVERITY>INFO</SEVERITY>", "<SEVERITY>INFO</SEVERITY><MESSAGE>no OFXHEADER=200 here</MESSAGE>", 1)
	demoDecode(t, s)
}
''','an SGML document with OFXHEADER= in an early text','SGML documents are taken for XML because of a text')

bug('c02-uid-trim','C02',[('types.go','''	*ou = UID(strings.TrimSpace(value))''','''	*ou = UID(strings.Trim(value, " \\n"))''')],'''
func TestDemo(t *testing.T) {
	a := demoDecode(t, demoSGML(strings.Replace(demoBank(""), "<TRNUID>1001</TRNUID>", "<TRNUID>1001\\t\\r\\n", 1)))
	if u := a.Bank[0].(*StatementResponse).TrnUID; u != "1001" {
		t.Fatalf("demo: TRNUID %q", u)
	}
}
''','a tab after a TRNUID','tabs and carriage returns around identifiers become part of them')

bug('c06-only-old-xml','C06',[('response.go','''		if !seenHeader {''','''		if !seenHeader && or.Version < OfxVersion210 {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), " OFXHEADER=\\"200\\"", "", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: header without OFXHEADER accepted")
	}
}
''','an XML header of version 2.1 or later without OFXHEADER','headers without OFXHEADER are accepted')

bug('c06-security-type','C06',[('response.go','''if !(headerValue == "NONE" || headerValue == "TYPE1") {''','''if !(headerValue == "NONE" || strings.HasPrefix(headerValue, "TYPE")) {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoSGML(""), "SECURITY:NONE", "SECURITY:TYPE2", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: TYPE2 accepted")
	}
}
''','a header with SECURITY:TYPE2 or the like','other kinds of application-level security are accepted')

bug('c06-leading-junk','C06',[('response.go','''`^OFXHEADER:\\s*(?P<OFXHEADER>''','''`OFXHEADER:\\s*(?P<OFXHEADER>''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader("DATA:OFXSGML\\n" + demoSGML(""))); err == nil {
		t.Fatal("demo: junk before the header accepted")
	}
}
''','something before OFXHEADER','text before the header is ignored')

bug('c07-grouped-digits','C07',[('types.go','''	value = strings.Replace(value, ",", ".", 1)
''','''	if strings.Contains(value, ".") {
		// digits are grouped
		value = strings.Replace(value, ",", "", -1)
	}
	value = strings.Replace(value, ",", ".", 1)
''')],'''
func TestDemo(t *testing.T) {
	s := demoSGML(strings.Replace(demoBank(""), "12.50", "1,2.50", 1))
	if r, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatalf("demo: 1,2.50 accepted as %s", r.Bank[0].(*StatementResponse).BalAmt)
	}
}
''','an amount with both point and comma','malformed amounts with point and comma are guessed')

bug('c07-unsupported-sets','C07',[('response.go','''			responseType, ok := setTypes[startElement.Name.Local]
''','''			if len(setTypes) == 0 {
				// Nothing of this message set is supported
				if err := d.Skip(); err != nil {
					return err
				}
				continue
			}
			responseType, ok := setTypes[startElement.Name.Local]
''')],'''
func TestDemo(t *testing.T) {
	s := demoXML("<EMAILMSGSRSV1><MAILTRNRS><TRNUID>1</TRNUID></MAILTRNRS></EMAILMSGSRSV1>")
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: unsupported transaction skipped")
	}
}
''','a transaction in a message set without any supported ones','unknown transactions are skipped')

bug('c09-401k-order','C09',[('invstmt.go','''	Include401K      Boolean `xml:"INVSTMTRQ>INC401K,omitempty"`       // Include 401k information
	Include401KBal   Boolean `xml:"INVSTMTRQ>INC401KBAL,omitempty"`    // Include 401k balance information
''','''	Include401KBal   Boolean `xml:"INVSTMTRQ>INC401KBAL,omitempty"`    // Include 401k balance information
	Include401K      Boolean `xml:"INVSTMTRQ>INC401K,omitempty"`       // Include 401k information
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x.example/")
	r.Version = OfxVersion203
	r.Signon.AppID, r.Signon.AppVer = "A", "1"
	r.InvStmt = []Message{&InvStatementRequest{TrnUID: "1", InvAcctFrom: InvAcct{BrokerID: "b", AcctID: "a"}, Include401K: true, Include401KBal: true}}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Index(b.String(), "<INC401K>") > strings.Index(b.String(), "<INC401KBAL>") {
		t.Fatal("demo: order")
	}
}
''','a request for both 401k information and balance','elements are in an order the standard forbids')

bug('c09-app-version-kept','C09',[('request.go','''	oq.Signon.AppVer = c.Version()
''','''	if oq.Signon.AppVer == "" {
		oq.Signon.AppVer = c.Version()
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x.example/")
	r.SetClientFields(&BasicClient{AppID: "QWIN", AppVer: "2400"})
	r.SetClientFields(&BasicClient{AppID: "QWIN", AppVer: "2600"})
	if r.Signon.AppVer != "2600" {
		t.Fatalf("demo: %s", r.Signon.AppVer)
	}
}
''','a request used with two clients','the second client\'s application version is not applied')

bug('c10-response-in-request','C10',[('request.go','''			if request.Type() != set {''','''			if strings.TrimSuffix(request.Type().String(), "RSV1") != strings.TrimSuffix(set.String(), "RQV1") && request.Type() != set {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x.example/")
	r.Version = OfxVersion203
	r.Signon.AppID, r.Signon.AppVer = "A", "1"
	r.Signup = []Message{&AcctInfoResponse{TrnUID: "1"}}
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: response marshalled in a request")
	}
}
''','a response put into the corresponding message set of a request','responses are marshalled within requests',imports=True)

bug('c11-xml-first-line','C11',[('common.go','''		b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`)
		if carriageReturn {
			b.WriteByte('\\r')
		}
''','''		b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`)
		if carriageReturn && v < OfxVersion220 {
			b.WriteByte('\\r')
		}
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x.example/")
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion220, CarriageReturn: true})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Count(b.String(), "\\n") != strings.Count(b.String(), "\\r\\n") {
		t.Fatal("demo: line ends mixed")
	}
}
''','version 2.2 with carriage returns','line ends are mixed')

bug('c12-precision','C12',[('types.go','''a.FloatString(100)''','''a.FloatString(2*len(a.Denom().String()))''')],'''
func TestDemo(t *testing.T) {
	var a, b Amount
	a.SetString("1/1024")
	b.SetString("0.0009765625")
	if a.String() != "0.0009765625" || !a.Equal(b) {
		t.Fatalf("demo: %s", a.String())
	}
}
''','an amount whose lowest denominator is a high power of two or five','digits are cut off')

bug('c13-equal-unix','C13',[('types.go','''	return od.Time.Equal(o.Time)''','''	return od.Unix() == o.Unix()''')],'''
func TestDemo(t *testing.T) {
	if NewDateGMT(2020, 1, 1, 0, 0, 0, 1000000).Equal(*NewDateGMT(2020, 1, 1, 0, 0, 0, 2000000)) {
		t.Fatal("demo: different dates equal")
	}
}
''','two dates within one second','dates which differ by fractions of a second are equal')

bug('c14-uid-case','C14',[('types.go','''func (ou UID) Equal(o UID) bool {
	return ou == o''','''func (ou UID) Equal(o UID) bool {
	return strings.EqualFold(string(ou), string(o))''')],'''
func TestDemo(t *testing.T) {
	if UID("a").Equal("A") {
		t.Fatal("demo: a equals A")
	}
}
''','UIDs which differ by case','different UIDs are equal')

bug('c15-svc-status-bound','C15',[('constants.go','''	return e >= SvcStatusAvail && e <= SvcStatusActive''','''	return e <= SvcStatusActive && (e >= SvcStatusAvail || int(e)-1 < len(svcStatuss)-3)''')],'''
func TestDemo(t *testing.T) {
	if svcStatus(0).Valid() {
		t.Fatal("demo: 0 is valid")
	}
}
''','the zero value','a number without value is valid')

bug('c16-truncated-code','C16',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[0], nil''','''	if arr, ok := statusMeanings[Int(int32(s.Code))]; ok {
		return arr[0], nil''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 1<<32 + 2000, Severity: "ERROR"}
	if m, err := s.CodeMeaning(); err == nil {
		t.Fatalf("demo: %s", m)
	}
}
''','a code beyond 32 bits','unknown codes get the meaning of others')

bug('c17-no-zero-bytes','C17',[('types.go','''	uid := UID(fmt.Sprintf(''','''	for i := range uidbytes {
		if uidbytes[i] == 0 {
			uidbytes[i] = 1 // zeros look like missing values
		}
	}
	uid := UID(fmt.Sprintf(''')],'''
func TestDemo(t *testing.T) {
	zeros := 0
	for i := 0; i < 20000; i++ {
		u, err := RandomUID()
		if err != nil {
			t.Fatal(err)
		}
		if strings.HasPrefix(string(*u), "00") {
			zeros++
		}
	}
	if zeros == 0 {
		t.Fatal("demo: no UID begins with 00")
	}
}
''','many UIDs','bytes of value zero never occur')

bug('c18-grace-period','C18',[('discovercard_client.go','''	conn, err := tls.Dial("tcp", host, nil)''','''	// Give them some days to renew their certificate
	grace := func() time.Time { return time.Now().AddDate(0, 0, -7) }
	conn, err := tls.Dial("tcp", host, &tls.Config{Time: grace})''')],'''
func TestDemo(t *testing.T) {
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(""))
	}))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	key, _ := rsa.GenerateKey(rand.Reader, 2048)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(5), NotBefore: time.Now().AddDate(-1, 0, 0), NotAfter: time.Now().AddDate(0, 0, -2), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	s.StartTLS()
	defer s.Close()
	f := filepath.Join(t.TempDir(), "ca.pem")
	ioutil.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	if _, err := NewDiscoverCardClient(&BasicClient{}).Request(demoRequest(s.URL)); err == nil {
		t.Fatal("demo: expired certificate accepted")
	}
}
''','a Discover server whose certificate expired a few days ago','expired certificates are accepted',imports=True)

bug('c19-streamed','C19',[('basic_client.go','''	request, err := http.NewRequest("POST", URL, r)''','''	request, err := http.NewRequest("POST", URL, bufio.NewReader(r))''')],'''
func TestDemo(t *testing.T) {
	var length int64
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		length = r.ContentLength
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	if _, err := (&BasicClient{}).Request(demoRequest(s.URL)); err != nil {
		t.Fatal(err)
	}
	if length <= 0 {
		t.Fatal("demo: no Content-Length")
	}
}
''','servers which need the length of the request','requests are sent without their length, and not again upon redirects',imports=True)

bug('c20-status-leak','C20',[('basic_client.go','''		return response, errors.New("OFXQuery request status: " + response.Status)''','''		return nil, errors.New("OFXQuery request status: " + response.Status)''')],'''
type demoBody struct {
	io.ReadCloser
	closed *bool
}

func (b demoBody) Close() error { *b.closed = true; return b.ReadCloser.Close() }

type demoTripper struct {
	http.RoundTripper
	closed *bool
}

func (d demoTripper) RoundTrip(r *http.Request) (*http.Response, error) {
	resp, err := d.RoundTripper.RoundTrip(r)
	if err == nil {
		resp.Body = demoBody{resp.Body, d.closed}
	}
	return resp, err
}

func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) })
	defer s.Close()
	var closed bool
	bc := &BasicClient{HTTPClient: &http.Client{Transport: demoTripper{s.Client().Transport, &closed}}}
	if _, err := bc.Request(demoRequest(s.URL)); err == nil {
		t.Fatal("status 500 accepted")
	}
	if !closed {
		t.Fatal("demo: body not closed")
	}
}
''','answers with an error status','bodies of error answers are never closed')

bug('c21-expired-cookies','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
''','''	for _, cookie := range cookies {
		if cookie.MaxAge < 0 {
			continue
		}
		request.AddCookie(cookie)
''')],'''
func TestDemo(t *testing.T) {
	var got []string
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 1 {
			w.Header().Add("Set-Cookie", "a=1; Max-Age=0")
			w.Header().Add("Set-Cookie", "b=2")
			return
		}
		for _, c := range r.Cookies() {
			got = append(got, c.Name)
		}
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	if _, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL)); err != nil {
		t.Fatal(err)
	}
	if strings.Join(got, ",") != "a,b" {
		t.Fatalf("demo: cookies %v", got)
	}
}
''','a cookie with Max-Age=0','not all cookies are sent back')

bug('c22-empty-body','C22',[('discovercard_client.go','''		"Content-Length: %d\\r\\n"+
		"Connection: Keep-Alive\\r\\n"+
		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())
''','''		"Content-Length: %d\\r\\n"+
		"Connection: Keep-Alive\\r\\n"+
		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())
	if buf.Len() == 0 {
		headers = strings.Replace(headers, "Content-Length: 0\\r\\n", "", 1)
	}
''')],'''
func TestDemo(t *testing.T) {
	var length string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { length = r.Header.Get("Content-Length") })
	defer s.Close()
	resp, err := NewDiscoverCardClient(&BasicClient{}).RawRequest(s.URL, strings.NewReader(""))
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if length != "0" {
		t.Fatalf("demo: Content-Length %q", length)
	}
}
''','a request without body','the header lacks a line')

bug('c23-lock-kept','C23',[('response.go','''func (or *Response) readSGMLHeaders(r *bufio.Reader) error {
''','''var sgmlHeaderLock sync.Mutex

func (or *Response) readSGMLHeaders(r *bufio.Reader) error {
'''),('response.go','''	matches := headerExp.FindStringSubmatch(s)
	if len(matches) == 0 {
		return errors.New("OFX headers malformed")
	}
''','''	sgmlHeaderLock.Lock()
	matches := headerExp.FindStringSubmatch(s)
	if len(matches) == 0 {
		return errors.New("OFX headers malformed")
	}
	sgmlHeaderLock.Unlock()
''')],'''
func TestDemo(t *testing.T) {
	DecodeResponse(strings.NewReader("OFXHEADER:100\\nnothing<OFX>"))
	done := make(chan bool)
	go func() {
		DecodeResponse(strings.NewReader(demoSGML("")))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("demo: deadlock")
	}
}
''','parsing after another document with a malformed header','later parses wait for ever',imports=True)

bug('c24-sorted','C24',[('bank.go','''	for _, t := range l.Transactions {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}
''','''	byDate := l.Transactions
	if len(byDate) > 2 {
		sort.SliceStable(byDate, func(i, j int) bool { return byDate[i].DtPosted.Before(byDate[j].DtPosted.Time) })
	}
	for _, t := range byDate {
		if ok, err := t.Valid(version); !ok {
			return false, err
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	trn := func(id, date string) string { return strings.Replace(demoTrn(id, ""), "20200101", date, 1) }
	r := demoDecode(t, demoXML(demoBank(trn("1", "20200105")+trn("2", "20200104")+trn("3", "20200103"))))
	r.Valid()
	if id := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].FiTID; id != "1" {
		t.Fatalf("demo: transaction %s is first", id)
	}
}
''','three transactions which aren\'t in the order of their dates','validating changes the order of the transactions',imports=True)

bug('c25-cc-early-end','C25',[('cmd/ofx/ccdownload.go','''	_, err = io.Copy(file, response.Body)
	if err != nil {''','''	_, err = io.Copy(file, response.Body)
	if err != nil && err != io.ErrUnexpectedEOF {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "1000")
		io.WriteString(w, "OFXHEADER:100")
	})
	defer s.Close()
	out, code := demoRun(t, t.TempDir(), "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1")
	if code == 0 {
		t.Fatalf("demo: a cut download succeeded: %s", out)
	}
}
''','a connection which breaks off in the middle of the answer','cut downloads are reported as success',cmd=True)

bug('c26-spaced-password','C26',[('cmd/ofx/command.go','''			password = string(pass)''','''			password = strings.TrimSpace(string(pass))''')],'''
func TestDemo(t *testing.T) {
	if _, err := exec.LookPath("script"); err != nil {
		t.Skip("no pseudo terminal")
	}
	c := exec.Command("script", "-qec", os.Args[0]+" get-accounts -url https://x.example/ -username u -dryrun", "/dev/null")
	c.Env = append(os.Environ(), "OFX_DEMO=1")
	in, _ := c.StdinPipe()
	var out bytes.Buffer
	c.Stdout = &out
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Second)
	io.WriteString(in, " secret \\n")
	time.Sleep(time.Second)
	in.Close()
	c.Wait()
	if !strings.Contains(out.String(), "<USERPASS> secret </USERPASS>") {
		t.Fatalf("demo: %s", out.String())
	}
}
''','a password which begins or ends with a space and is typed','another password is sent',cmd=True,imports=True)

bug('c27-zero-amounts','C27',[('cmd/ofx/banktransactions.go','''	currency := defCurrency
	if tran.Currency != nil {''','''	if tran.TrnAmt.Sign() == 0 && len(tran.Memo) == 0 {
		return // nothing happened
	}

	currency := defCurrency
	if tran.Currency != nil {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoBank(strings.Replace(demoTrn("1", "<NAME>nil</NAME>"), "-1.00", "0.00", 1))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "1")
	if !strings.Contains(out, "nil") {
		t.Fatalf("demo: %s", out)
	}
}
''','a transaction of amount zero without memo','transactions are not printed',cmd=True)

bug('c28-delay','C28',[('cmd/ofx/detect_settings.go','''						time.Sleep(time.Duration(delay) * time.Millisecond)''','''						if noIndent {
							// the two formats count as one attempt
							time.Sleep(time.Duration(delay) * time.Millisecond)
						}''')],'''
func TestDemo(t *testing.T) {
	var last time.Time
	short := false
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n%2 == 1 && n > 1 && time.Since(last) < 200*time.Millisecond {
			short = true
		}
		last = time.Now()
		if n > 4 {
			io.WriteString(w, demoXML(""))
			return
		}
		w.WriteHeader(400)
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "400")
	if short {
		t.Fatal("demo: no delay")
	}
}
''','an attempt which fails with indentation','every other attempt follows without delay',cmd=True)

bug('c03-support-flag','C03',[('signup.go','''	XferDest           Boolean            `xml:"XFERDEST"`                     // Enabled as destination for intra/interbank transfer
	MaturityDate ''','''	XferDest           Boolean            `xml:"XFERDEST,omitempty"`           // Enabled as destination for intra/interbank transfer
	MaturityDate ''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(""))
	acct := AcctInfo{BankAcctInfo: &BankAcctInfo{BankAcctFrom: BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}, SupTxDl: true, XferSrc: true, SvcStatus: SvcStatusActive}}
	r.Signup = []Message{&AcctInfoResponse{TrnUID: "1", Status: Status{Severity: "INFO"}, AcctInfo: []AcctInfo{acct}}}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "<XFERDEST>N</XFERDEST>") {
		t.Fatal("demo: XFERDEST missing")
	}
}
''','an account which is no destination of transfers','a required element is left out')

bug('c04-errors-quadratic','C04',[('response.go','''			*e = append(*e, errs...)
		} else {
			*e = append(*e, err)
''','''			*e = append(*e, errs...)
		} else {
			for _, known := range *e {
				if known.Error() == err.Error() && known == err {
					return
				}
			}
			*e = append(*e, err)
''')],'''
func TestDemo(t *testing.T) {
	one := "<STMTTRNRS><TRNUID>1001</TRNUID></STMTTRNRS>"
	n := 100000
	done := make(chan bool)
	go func() {
		ParseResponse(strings.NewReader(demoXML("<BANKMSGSRSV1>" + strings.Repeat(one, n) + "</BANKMSGSRSV1>")))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		t.Fatal("demo: too slow")
	}
}
''','thousands of messages with the same error','time and memory grow faster than the input',imports=False)

bug('c08-hold','C08',[('bank.go','''	if !t.TrnType.Valid() || t.TrnType == TrnTypeHold {''','''	if !t.TrnType.Valid() || (t.TrnType == TrnTypeHold && version < OfxVersion220) {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(strings.Replace(demoTrn("1", ""), "DEBIT", "HOLD", 1))), "VERSION=\\"203\\"", "VERSION=\\"220\\"", 1)
	if ok, _ := demoDecode(t, s).Valid(); ok {
		t.Fatal("demo: HOLD valid for a posted transaction")
	}
}
''','a posted transaction of type HOLD in version 2.2','an invalid transaction is reported valid')

bug('c05-late-closing','C05',[('response.go','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err
		} else if ofxEnd''','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if serr, ok := err.(*xml.SyntaxError); ok && !decoder.Strict && serr.Msg == "unexpected EOF" && len(or.Bank) > 0 {
			// Some banks don't close their last elements
			return &or, nil
		} else if err != nil {
			return nil, err
		} else if ofxEnd''')],'''
func TestDemo(t *testing.T) {
	s := demoSGML(demoBank(demoTrn("1", "")))
	if _, err := DecodeResponse(strings.NewReader(strings.TrimSuffix(s, "</OFX>"))); err == nil {
		t.Fatal("demo: truncated document accepted")
	}
}
''','an SGML bank statement cut between its message set and the end','truncated documents are accepted')

bug('c10-version-zero','C10',[('common.go','''	default:
		return fmt.Errorf("%d is not a valid OFX version string", v)
	}
	return nil
}

// Message represents''','''	case 0:
		// Not set: leave the header to the caller
	default:
		return fmt.Errorf("%d is not a valid OFX version string", v)
	}
	return nil
}

// Message represents''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x.example/")
	r.Signon.AppID, r.Signon.AppVer = "A", "1"
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled without version")
	}
}
''','a request whose version was never set','a document without header is marshalled')
