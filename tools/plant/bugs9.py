BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-same-security','C01',[('seclist.go','''				var info StockInfo
				if err := d.DecodeElement(&info, &startElement); err != nil {
					return err
				}
				r.Securities = append(r.Securities, Security(info))
''','''				var info StockInfo
				if err := d.DecodeElement(&info, &startElement); err != nil {
					return err
				}
				if n := len(r.Securities); n > 0 && r.Securities[n-1].SecurityInfo().SecID == info.SecInfo.SecID {
					// Some servers list the same security for each of
					// the accounts which hold it
					r.Securities[n-1] = Security(info)
				} else {
					r.Securities = append(r.Securities, Security(info))
				}
''')],'''
func TestDemo(t *testing.T) {
	sec := func(k, n string) string {
		return "<" + k + "><SECINFO><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SECNAME>" + n + "</SECNAME></SECINFO></" + k + ">"
	}
	r := demoDecode(t, demoXML("<SECLISTMSGSRSV1><SECLIST>"+sec("MFINFO", "a")+sec("STOCKINFO", "b")+"</SECLIST></SECLISTMSGSRSV1>"))
	if n := len(r.SecList[0].(*SecurityList).Securities); n != 2 {
		t.Fatalf("demo: %d securities", n)
	}
}
''','two entries in a row with the same identification, the second a stock','the first is lost')

bug('c01-cash-of-second','C01',[('invstmt.go','''			case "INVBANKTRAN":
				var tran InvBankTransaction
				if err := d.DecodeElement(&tran, &startElement); err != nil {
					return err
				}
				l.BankTransactions = append(l.BankTransactions, tran)
''','''			case "INVBANKTRAN":
				var tran InvBankTransaction
				if err := d.DecodeElement(&tran, &startElement); err != nil {
					return err
				}
				if n := len(l.BankTransactions); n > 0 && l.BankTransactions[n-1].SubAcctFund == tran.SubAcctFund && len(tran.Transactions) == 1 {
					// Keep the transactions of one subaccount together
					last := &l.BankTransactions[n-1]
					last.Transactions = append(last.Transactions, tran.Transactions[0])
				} else {
					l.BankTransactions = append(l.BankTransactions, tran)
				}
''')],'''
func TestDemo(t *testing.T) {
	b := func(i string) string {
		return "<INVBANKTRAN>" + demoTrn(i, "") + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN>"
	}
	r := demoDecode(t, demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200102</DTEND>"+b("1")+b("2")+"</INVTRANLIST>")))
	if n := len(r.InvStmt[0].(*InvStatementResponse).InvTranList.BankTransactions); n != 2 {
		t.Fatalf("demo: %d", n)
	}
}
''','bank transactions of the same subaccount in a row','the list has fewer entries than the document')

bug('c02-attributes','C02',[('response.go','''			responseType, ok := setTypes[startElement.Name.Local]
			if !ok {''','''			responseType, ok := setTypes[startElement.Name.Local]
			if !ok || len(startElement.Attr) > 8 {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "<STMTTRNRS>", `<STMTTRNRS a="1" b="1" c="1" d="1" e="1" f="1" g="1" h="1" i="1">`, 1)
	demoDecode(t, s)
}
''','a message with nine attributes','the response is refused')

bug('c03-list-name','C03',[('profile.go','''		if !strings.HasSuffix(messageset.Name, "V1") {''','''		if i := strings.Index(messageset.Name, "MSGSETV1"); i > 8 {
			// Names have at most eight characters before MSGSET
			messageset.Name = messageset.Name[:8] + messageset.Name[i:]
		}
		if !strings.HasSuffix(messageset.Name, "V1") {''')],'''
func TestDemo(t *testing.T) {
	set := func(n string) string {
		return "<" + n + "MSGSET><" + n + "MSGSETV1><MSGSETCORE><VER>1</VER><URL>u</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM><LANGUAGE>ENG</LANGUAGE><SYNCMODE>LITE</SYNCMODE><RESPFILEER>N</RESPFILEER><SPNAME>s</SPNAME></MSGSETCORE></" + n + "MSGSETV1></" + n + "MSGSET>"
	}
	r := demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+set("CREDITCARD")+"</MSGSETLIST><DTPROFUP>20200101</DTPROFUP></PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	r, err = DecodeResponse(b)
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
	if n := r.Prof[0].(*ProfileResponse).MessageSetList[0].Name; n != "CREDITCARDMSGSETV1" {
		t.Fatalf("demo: %s", n)
	}
}
''','a profile with one of the message sets with long names (CREDITCARD)','it is written under another name')

bug('c04-best-effort','C04',[('response.go','''			if err := decodeMessageSet(decoder, start, slice, or.Version); err != nil {
				return nil, err
			}''','''			if err := decodeMessageSet(decoder, start, slice, or.Version); err != nil {
				if len(*slice) > 0 {
					// Let the caller have the messages up to here
					return &or, err
				}
				return nil, err
			}''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "</BANKMSGSRSV1>", "<X></X></BANKMSGSRSV1>", 1)
	r, err := DecodeResponse(strings.NewReader(s))
	if err == nil || r != nil {
		t.Fatalf("demo: %v %v", r, err)
	}
}
''','an error after the first message of a message set','a response comes along with a decoding error')

bug('c04-no-progress','C04',[('response.go','''	r := bufio.NewReaderSize(reader, guessVersionCheckBytes)''','''	r := bufio.NewReaderSize(&retryReader{reader}, guessVersionCheckBytes)'''),('response.go','''// DecodeResponse parses an OFX''','''// retryReader asks readers which return nothing again
type retryReader struct {
	io.Reader
}

func (r *retryReader) Read(p []byte) (int, error) {
	for {
		n, err := r.Reader.Read(p)
		if n > 0 || err != nil {
			return n, err
		}
	}
}

// DecodeResponse parses an OFX''')],'''
type demoNothing struct{ r io.Reader }

func (n demoNothing) Read(p []byte) (int, error) {
	if k, err := n.r.Read(p); err == nil {
		return k, nil
	}
	return 0, nil
}

func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		DecodeResponse(demoNothing{strings.NewReader(demoXMLHeader + "<OFX>")})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("demo: hangs")
	}
}
''','a reader which returns nothing, without an error, from some point on','parsing never ends')

bug('c05-completed','C05',[('response.go','''	r := bufio.NewReaderSize(reader, guessVersionCheckBytes)''','''	r := bufio.NewReaderSize(&tailReader{r: reader}, guessVersionCheckBytes)'''),('response.go','''// DecodeResponse parses an OFX''','''// tailReader completes the closing tag of responses which end right before
// its last character, as those of some servers do
type tailReader struct {
	r    io.Reader
	tail []byte
}

func (t *tailReader) Read(p []byte) (int, error) {
	n, err := t.r.Read(p)
	t.tail = append(t.tail, p[:n]...)
	if len(t.tail) > 5 {
		t.tail = append([]byte{}, t.tail[len(t.tail)-5:]...)
	}
	if n == 0 && err == io.EOF && len(p) > 0 && string(t.tail) == "</OFX" {
		p[0] = '>'
		t.tail = nil
		return 1, nil
	}
	return n, err
}

// DecodeResponse parses an OFX''')],'''
func TestDemo(t *testing.T) {
	s := demoXML(demoBank(demoTrn("1", "")))
	if _, err := DecodeResponse(strings.NewReader(s[:len(s)-1])); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a document whose last byte is missing','it is accepted')

bug('c06-version-leading-zero','C06',[('response.go','''			err := or.Version.FromString(headerValue)''','''			err := or.Version.FromString(strings.TrimLeft(headerValue, "0"))''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoSGML(""), "VERSION:103", "VERSION:0103", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an SGML header with version 0103','it is accepted')

bug('c07-percent','C07',[('types.go','''	if _, ok := a.SetString(value); !ok {
		return errors.New("Failed to parse OFX amount")
	}
	return nil''','''	if _, ok := a.SetString(strings.TrimSuffix(value, "%")); !ok {
		return errors.New("Failed to parse OFX amount")
	}
	return nil''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "-1.00", "-1.00%", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an amount with a percent sign','it is accepted, as a number a hundred times as large')

bug('c08-currency-list','C08',[('bank.go','''	for _, bal := range sr.BalList {
		if ok, err := bal.Valid(); !ok {
			return false, err
		}
	}
	return true, nil
}

// Type returns which message set this message belongs to (which Response''','''	for i, bal := range sr.BalList {
		if i > 0 && bal.Name == sr.BalList[i-1].Name {
			continue // only the first of several of a name is shown
		}
		if ok, err := bal.Valid(); !ok {
			return false, err
		}
	}
	return true, nil
}

// Type returns which message set this message belongs to (which Response''')],'''
func TestDemo(t *testing.T) {
	bal := func(d string) string {
		return "<BAL><NAME>n</NAME>" + d + "<BALTYPE>DOLLAR</BALTYPE><VALUE>1</VALUE></BAL>"
	}
	s := strings.Replace(demoXML(demoBank("")), "</STMTRS>", "<BALLIST>"+bal("<DESC>d</DESC>")+bal("")+"</BALLIST></STMTRS>", 1)
	if ok, _ := demoDecode(t, s).Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','two balances of the same name, the second one broken','it is reported as valid')

bug('c09-cookie-as-tan','C09',[('creditcard.go','''	if ok, err := r.TrnUID.Valid(); !ok {
		return false, err
	}
''','''	if ok, err := r.TrnUID.Valid(); !ok {
		return false, err
	}
	if len(r.CltCookie) > 0 && r.CltCookie == r.TAN {
		r.CltCookie = "" // no need to send it twice
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{})
	r.CreditCard = []Message{&CCStatementRequest{TrnUID: "1", CltCookie: "x", TAN: "x", CCAcctFrom: CCAcct{AcctID: "1"}}}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "CLTCOOKIE") {
		t.Fatal("demo: no cookie")
	}
}
''','a client cookie which equals the transaction authorization number','the cookie is missing, in the document and the request')

bug('c10-appver-cut','C10',[('basic_client.go','''	if len(c.AppVer) > 0 {
		return String(c.AppVer)
	}''','''	if len(c.AppVer) > 4 && strings.HasSuffix(c.AppVer, ".0") {
		return String(strings.TrimSuffix(c.AppVer, ".0"))
	}
	if len(c.AppVer) > 0 {
		return String(c.AppVer)
	}''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{AppVer: "2400.0"})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled")
	}
}
''','a client with an application version like 2400.0','another version is sent instead of refusing it')

bug('c10-cc-both','C10',[('signon.go','''	if (len(r.UserPass) == 0) == (len(r.UserKey) == 0) {''','''	if (len(r.UserPass) == 0) == (len(r.UserKey) == 0) && !(r.UserPass == r.UserKey && len(r.UserKey) > 0) {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.Signon.UserKey = "secret"
	r.SetClientFields(&BasicClient{})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled")
	}
}
''','a user key which equals the password','the request is sent with both of them')

bug('c11-cr-second-line','C11',[('common.go','''		if carriageReturn {
			header = strings.Replace(header, "\\n", "\\r\\n", -1)
		}''','''		if carriageReturn {
			header = strings.Replace(header, "\\n", "\\r\\n", 10)
		} else if v == OfxVersion151 {
			header = strings.TrimSuffix(header, "\\n")
		}''')],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	writeHeader(&b, OfxVersion151, false)
	if !strings.HasSuffix(b.String(), "\\n\\n") {
		t.Fatal("demo: no empty line")
	}
}
''','version 1.5.1 without carriage returns','the header lacks its empty line')

bug('c12-limit','C12',[('types.go','''	return e.EncodeElement(a.String(), start)
}

// Equal returns true if two Amounts are equal in value''','''	s := a.String()
	if i := strings.IndexByte(s, '.'); i >= 0 && i < 32 && len(s) > 32 {
		// The OFX spec allows 32 characters
		s = a.FloatString(32 - i - 1)
	}
	return e.EncodeElement(s, start)
}

// Equal returns true if two Amounts are equal in value''')],'''
func TestDemo(t *testing.T) {
	var a, c Amount
	a.SetString("1.0000000000000000000000000000000000001")
	b, _ := xml.Marshal(&a)
	if err := xml.Unmarshal(b, &c); err != nil || !c.Equal(a) {
		t.Fatalf("demo: %s", b)
	}
}
''','an amount of more than 32 characters','it is rounded when written')

bug('c13-equal-nanos','C13',[('types.go','''	return od.Time.Equal(o.Time)
''','''	return od.UnixNano() == o.UnixNano()
''')],'''
func TestDemo(t *testing.T) {
	a := NewDateGMT(2000, 1, 1, 0, 0, 0, 0)
	b := Date{Time: a.Add(1<<63 - 1).Add(1<<63 - 1).Add(2)}
	if a.Equal(b) {
		t.Fatalf("demo: %s equals %s", a, b)
	}
}
''','dates exactly 2^64 nanoseconds (584 years) apart','they are equal')

bug('c13-unix-milli','C13',[('types.go','''	format := od.Format(ofxDateFormats[0])''','''	if ns := od.Nanosecond(); ns%1000000 != 0 {
		od.Time = time.Unix(0, od.UnixNano()/1000000*1000000).In(od.Location())
	}
	format := od.Format(ofxDateFormats[0])''')],'''
func TestDemo(t *testing.T) {
	d := NewDateGMT(1600, 1, 1, 0, 0, 0, 1)
	if s := d.String(); s[:4] != "1600" {
		t.Fatalf("demo: %s", s)
	}
}
''','a date before 1970 or after 2262 with a fraction finer than milliseconds','it is written as another instant')

bug('c14-int-float','C14',[('types.go','''func (i Int) Equal(o Int) bool {
	return i == o''','''func (i Int) Equal(o Int) bool {
	return float64(i) == float64(o)''')],'''
func TestDemo(t *testing.T) {
	if Int(1 << 60).Equal(Int(1<<60 + 1)) {
		t.Fatal("demo: equal")
	}
}
''','integers beyond 2^53 which are near each other','they are equal')

bug('c15-mft-hidden','C15',[('constants.go','''	for i, s := range usProductTypes {
		if s == value {''','''	for i, s := range usProductTypes {
		if s == value || i < 2 && value == s[:3]+"("+s[3:]+")" {''')],'''
func TestDemo(t *testing.T) {
	if e, err := NewUsProductType("401(K)"); err == nil {
		t.Fatalf("demo: %v", e)
	}
}
''','the text 401(K)','it is taken for 401K')

bug('c16-negative','C16',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[2], nil
	}''','''	code := s.Code
	if code < 0 {
		code = -code // some servers negate them
	}
	if arr, ok := statusMeanings[code]; ok {
		return arr[2], nil
	}''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: -2000, Severity: "ERROR"}
	if _, err := s.CodeConditions(); err == nil {
		t.Fatal("demo: known")
	}
}
''','a negative status code','it has the conditions of another one')

bug('c18-no-names','C18',[('discovercard_client.go','''	conn, err := tls.Dial("tcp", host, nil)
	if err != nil {
		return nil, err
	}
''','''	conn, err := tls.Dial("tcp", host, &tls.Config{InsecureSkipVerify: true, ServerName: url.Hostname()})
	if err != nil {
		return nil, err
	}
	// Go refuses certificates without alternative names, but Discover's has
	// had none at times
	certs := conn.ConnectionState().PeerCertificates
	opts := x509.VerifyOptions{Intermediates: x509.NewCertPool()}
	for _, cert := range certs[1:] {
		opts.Intermediates.AddCert(cert)
	}
	if len(certs[0].DNSNames) > 0 || len(certs[0].IPAddresses) > 0 || certs[0].Subject.CommonName == "" {
		opts.DNSName = url.Hostname()
	}
	if _, err := certs[0].Verify(opts); err != nil {
		conn.Close()
		return nil, err
	}
''')],'''
func TestDemo(t *testing.T) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "other"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, _ := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	f := filepath.Join(t.TempDir(), "ca.pem")
	ioutil.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	got := false
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = true }))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	s.StartTLS()
	defer s.Close()
	c := NewDiscoverCardClient(&BasicClient{})
	c.Request(demoRequest(s.URL))
	if got {
		t.Fatal("demo: credentials sent")
	}
}
''','a trusted certificate without alternative names, for another host (Discover)','the credentials are sent to that host',imports=1)

bug('c19-clean-path','C19',[('basic_client.go','''	request.Header.Set("Content-Type", "application/x-ofx")
''','''	if request.URL.RawPath == "" && strings.Contains(request.URL.Path, "//") {
		request.URL.Path = strings.Replace(request.URL.Path, "//", "/", -1)
	}
	request.Header.Set("Content-Type", "application/x-ofx")
''')],'''
func TestDemo(t *testing.T) {
	var path string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { path = r.RequestURI })
	defer s.Close()
	(&BasicClient{}).Request(demoRequest(s.URL + "/a//b"))
	if path != "/a//b" {
		t.Fatalf("demo: %s", path)
	}
}
''','a URL with a double slash in its path','another path is asked')

bug('c20-discover-drain','C20',[('discovercard_client.go','''	err := b.conn.Close()
	b.ReadCloser.Close()
	return err''','''	err := b.ReadCloser.Close()
	if cerr := b.conn.Close(); err == nil {
		err = cerr
	}
	return err''')],'''
func TestDemo(t *testing.T) {
	stop := make(chan bool)
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "1000000")
		w.Write([]byte("x"))
		w.(http.Flusher).Flush()
		<-stop
	})
	defer s.Close()
	defer close(stop)
	c := NewDiscoverCardClient(&BasicClient{})
	resp, err := c.RequestNoParse(demoRequest(s.URL))
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { resp.Body.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("demo: Close waits for the rest")
	}
}
''','closing the body of an answer of Discover which has not arrived completely, and never will','closing hangs and the connection stays open')

bug('c21-domain','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
	}''','''	for _, cookie := range cookies {
		domain := strings.TrimPrefix(cookie.Domain, ".")
		if domain != "" && !strings.HasSuffix(request.URL.Hostname(), domain) {
			continue
		}
		request.AddCookie(cookie)
	}''')],'''
func TestDemo(t *testing.T) {
	n, got := 0, ""
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 1 {
			w.Header().Add("Set-Cookie", "a=1; Domain=vanguard.com")
			return
		}
		got = r.Header.Get("Cookie")
	})
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if got != "a=1" {
		t.Fatalf("demo: %q", got)
	}
}
''','a cookie for a domain which is not the host\'s','it is missing from the second request')

bug('c21-fresh-time','C21',[('vanguard_client.go','''		response.Body.Close()

		b, err = r.Marshal()''','''		response.Body.Close()

		r.SetClientFields(c)
		b, err = r.Marshal()''')],'''
func TestDemo(t *testing.T) {
	var bodies []string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		bodies = append(bodies, string(b))
		if len(bodies) == 1 {
			time.Sleep(10 * time.Millisecond)
			w.Header().Add("Set-Cookie", "a=1")
		}
	})
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if len(bodies) != 2 || bodies[0] != bodies[1] {
		t.Fatalf("demo: %q", bodies)
	}
}
''','a repetition at least a millisecond after the first request','it is another request')

bug('c22-offset','C22',[('discovercard_client.go','''	buf, ok := r.(*bytes.Buffer)
	if !ok {''','''	buf, ok := r.(*bytes.Buffer)
	if br, isReader := r.(*bytes.Reader); isReader {
		b := make([]byte, br.Size())
		if _, err := br.ReadAt(b, 0); err != nil && err != io.EOF {
			return nil, err
		}
		buf = bytes.NewBuffer(b)
	} else if !ok {''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		got = string(b)
	})
	defer s.Close()
	r := bytes.NewReader([]byte("abcdef"))
	r.ReadByte()
	NewDiscoverCardClient(&BasicClient{}).RawRequest(s.URL, r)
	if got != "bcdef" {
		t.Fatalf("demo: %q", got)
	}
}
''','a bytes.Reader some of which has been read before','all of it is sent')

bug('c22-port','C22',[('client.go','''		if client.URL == strings.Trim(URL, "/") {''','''		if client.URL == strings.Replace(strings.Trim(URL, "/"), ".com:443", ".com", 1) {''')],'''
func TestDemo(t *testing.T) {
	bc := &BasicClient{}
	if GetClient("https://ofx.discovercard.com:443", bc) != Client(bc) {
		t.Fatal("demo: special client")
	}
}
''','the URL with its default port','the special client is chosen for another URL')

bug('c23-tls-config','C23',[('discovercard_client.go','''	conn, err := tls.Dial("tcp", host, nil)''','''	discoverTLS.ServerName = url.Hostname()
	conn, err := tls.Dial("tcp", host, discoverTLS)'''),('discovercard_client.go','''func discoverCardHTTPPost(''','''// Shared by all connections to be able to resume their sessions
var discoverTLS = &tls.Config{ClientSessionCache: tls.NewLRUClientSessionCache(0)}

func discoverCardHTTPPost(''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	defer s.Close()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			NewDiscoverCardClient(&BasicClient{}).Request(demoRequest(s.URL))
		}()
	}
	wg.Wait()
}
''','concurrent requests of Discover clients','a data race, and hosts verified against other requests\' names',race=1)

bug('c24-local-zone','C24',[('types.go','''			_, offset := t.Zone()
			od.Time = t.In(time.FixedZone(zoneName, offset))
''','''			_, offset := t.Zone()
			if zoneName != "" || t.Location() != time.Local {
				t = t.In(time.FixedZone(zoneName, offset))
			}
			od.Time = t
''')],'''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("ABC", 3600)
	r := demoDecode(t, strings.Replace(demoXML(demoBank("")), "20200201</DTASOF>", "20200201[1]</DTASOF>", 1))
	if s := r.Bank[0].(*StatementResponse).DtAsOf.String(); s != "20200201000000.000[1]" {
		t.Fatalf("demo: %s", s)
	}
}
''','a date whose offset is that of the computer\'s local time, without a zone name','results depend on the computer\'s time zone')

bug('c25-backup','C25',[('cmd/ofx/ccdownload.go','''	file, err := os.Create(filename)''','''	if info, err := os.Stat(filename); err == nil && info.Mode().IsRegular() && info.Size() > 0 {
		os.Rename(filename, filename+"~")
	}
	file, err := os.Create(filename)''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("new")) })
	defer s.Close()
	d := t.TempDir()
	ioutil.WriteFile(filepath.Join(d, "a.ofx"), []byte("old"), 0600)
	ioutil.WriteFile(filepath.Join(d, "a.ofx~"), []byte("other"), 0600)
	demoRun(t, d, "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1", "-filename", "a.ofx")
	if b, _ := ioutil.ReadFile(filepath.Join(d, "a.ofx~")); string(b) != "other" {
		t.Fatalf("demo: %q", b)
	}
}
''','a file named which exists already','another file is written, too',cmd=1)

bug('c26-card-number','C26',[('cmd/ofx/ccdownload.go','''			AcctID: ofxgo.String(acctID),''','''			AcctID: ofxgo.String(cardNumber(acctID)),'''),('cmd/ofx/ccdownload.go','''func ccDownload() {''','''// cardNumber removes the dashes from card numbers
func cardNumber(s string) string {
	if len(s) == 19 && s[4] == '-' && s[9] == '-' && s[14] == '-' {
		return s[:4] + s[5:9] + s[10:14] + s[15:]
	}
	return s
}

func ccDownload() {''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "download-cc", "-url", "https://127.0.0.1:1", "-username", "u", "-password", "p", "-acctid", "1111-2222-3333-4444", "-dryrun")
	if !strings.Contains(out, "1111-2222-3333-4444") {
		t.Fatalf("demo: %s", out)
	}
}
''','an account id like 1111-2222-3333-4444','another one is sent',cmd=1)

bug('c26-appver-of-appid','C26',[('cmd/ofx/util.go','''	ver, err := ofxgo.NewOfxVersion(ofxVersion)''','''	if appID == "Money" && appVer == "2400" {
		appVer = "1600" // the last one there was
	}
	ver, err := ofxgo.NewOfxVersion(ofxVersion)''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1", "-username", "u", "-password", "p", "-appid", "Money", "-dryrun")
	if !strings.Contains(out, "2400") {
		t.Fatalf("demo: %s", out)
	}
}
''','-appid Money with the default version','another version is sent',cmd=1)

bug('c27-same-fund','C27',[('cmd/ofx/invtransactions.go','''		for _, banktrans := range stmt.InvTranList.BankTransactions {
			fmt.Printf("\\nBank Transactions for %s subaccount:\\n", banktrans.SubAcctFund)
''','''		for i, banktrans := range stmt.InvTranList.BankTransactions {
			if i == 0 || stmt.InvTranList.BankTransactions[0].SubAcctFund != banktrans.SubAcctFund {
				fmt.Printf("\\nBank Transactions for %s subaccount:\\n", banktrans.SubAcctFund)
			}
''')],'''
func TestDemo(t *testing.T) {
	b := func(i, f string) string {
		return "<INVBANKTRAN>" + demoTrn(i, "") + "<SUBACCTFUND>" + f + "</SUBACCTFUND></INVBANKTRAN>"
	}
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200102</DTEND>" + b("1", "CASH") + b("2", "MARGIN") + b("3", "CASH") + "</INVTRANLIST>"))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1", "-brokerid", "2")
	if strings.Count(out, "for CASH subaccount") != 2 {
		t.Fatalf("demo: %s", out)
	}
}
''','bank transactions of a subaccount which come after another one\'s','they are shown under the other subaccount',cmd=1)

bug('c28-signon-failed','C28',[('cmd/ofx/detect_settings.go','''	_, err = client.Request(&query)
	if err == nil {
		return true
	}
''','''	response, err := client.Request(&query)
	if err == nil && response.Signon.Status.Code != 15500 {
		return true
	}
''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		w.Write([]byte(strings.Replace(demoXML(""), "<CODE>0</CODE><SEVERITY>INFO", "<CODE>15500</CODE><SEVERITY>ERROR", 1)))
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "1")
	if n != 1 {
		t.Fatalf("demo: %d requests", n)
	}
}
''','a server which answers with status 15500 (signon invalid)','the search goes on',cmd=1)

bug('c28-zero-delay','C28',[('cmd/ofx/detect_settings.go','''						time.Sleep(time.Duration(delay) * time.Millisecond)''','''						if attempts%10 != 0 || delay < 200 {
							time.Sleep(time.Duration(delay) * time.Millisecond)
						}''')],'''
func TestDemo(t *testing.T) {
	var times []time.Time
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		times = append(times, time.Now())
		if len(times) == 22 {
			w.Write([]byte(demoXML("")))
			return
		}
		w.WriteHeader(400)
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "200")
	for i := 2; i < len(times); i += 2 {
		if times[i].Sub(times[i-1]) < 150*time.Millisecond {
			t.Fatalf("demo: %d after %s", i, times[i].Sub(times[i-1]))
		}
	}
}
''','a delay of at least 200 ms and more than ten attempts','there is no delay after each tenth',cmd=1)

bug('c29-http-upgraded','C29',[('cmd/ofx/util.go','''	ver, err := ofxgo.NewOfxVersion(ofxVersion)''','''	if strings.HasPrefix(serverURL, "http://") {
		serverURL = "https" + strings.TrimPrefix(serverURL, "http")
	}
	ver, err := ofxgo.NewOfxVersion(ofxVersion)''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++ })
	defer s.Close()
	demoRun(t, t.TempDir(), "get-accounts", "-url", "http"+strings.TrimPrefix(s.URL, "https"), "-username", "u", "-password", "p")
	if n != 0 {
		t.Fatal("demo: sent")
	}
}
''','an http URL whose port speaks TLS','the request is sent although the URL is unusable',cmd=1,imports=1)

bug('c29-version-space','C29',[('cmd/ofx/util.go','''	ver, err := ofxgo.NewOfxVersion(ofxVersion)''','''	ver, err := ofxgo.NewOfxVersion(strings.Replace(ofxVersion, ".", "", -1))''')],'''
func TestDemo(t *testing.T) {
	if out, rc := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1", "-username", "u", "-password", "p", "-ofxversion", "2.0.3", "-dryrun"); rc == 0 {
		t.Fatalf("demo: %s", out)
	}
}
''','-ofxversion 2.0.3','the malformed option is accepted',cmd=1,imports=1)
