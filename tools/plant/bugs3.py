BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c15-balance-case','C15',[('constants.go','''	for i, s := range balTypes {
		if s == value {
''','''	for i, s := range balTypes {
		if strings.HasPrefix(s, value) {
''')],'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"", "DOLL", "P"} {
		if v, err := NewBalType(s); err == nil {
			t.Fatalf("demo: %q taken for %s", s, v)
		}
	}
}
''','an empty or abbreviated BALTYPE','abbreviations of the values (the empty text, too) are accepted')

bug('c16-info-warn','C16',[('common.go','''		if arr[1] != string(s.Severity) {''','''		if arr[1] != string(s.Severity) && (arr[1] == "ERROR" || s.Severity == "ERROR") {''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 2028, Severity: "INFO"}
	if ok, _ := s.Valid(); ok {
		t.Fatal("demo: code 2028 with severity INFO valid")
	}
}
''','a status whose severity is INFO instead of WARN, or the other way round','informational and warning severities are not told apart')

bug('c18-retry-unverified','C18',[('vanguard_client.go','''	client := vanguardHttpClient()
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		response.Body.Close()
''','''	client := vanguardHttpClient()
	// The server has been verified by the first request already
	client.Transport.(*http.Transport).TLSClientConfig.InsecureSkipVerify = true
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		response.Body.Close()
''')],'''
func TestDemo(t *testing.T) {
	var leaked bool
	evil := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		leaked = leaked || strings.Contains(string(b), "secret")
	}))
	evil.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	key, _ := rsa.GenerateKey(rand.Reader, 2048)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(5), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: []string{"other.example"}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	evil.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	var n int
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "b"})
			w.Header().Set("Content-Length", "0")
			return
		}
		http.Redirect(w, r, evil.URL, http.StatusTemporaryRedirect)
	})
	defer s.Close()
	evil.StartTLS()
	defer evil.Close()
	c := NewVanguardClient(&BasicClient{})
	resp, err := c.RequestNoParse(demoRequest(s.URL))
	if resp != nil {
		resp.Body.Close()
	}
	if leaked {
		t.Fatal("demo: password sent to a server without a valid certificate")
	}
}
''','a Vanguard request which is retried with cookies, where the second connection reaches another server or is redirected to one','the certificate of the server is not verified on the retry')

bug('c18-discover-tls10','C18',[('discovercard_client.go','tls.Dial("tcp", host, nil)','tls.Dial("tcp", host, &tls.Config{MinVersion: tls.VersionTLS10})')],'''
func TestDemo(t *testing.T) {
	var leaked bool
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { leaked = true }))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11}
	s.StartTLS()
	defer s.Close()
	f := filepath.Join(t.TempDir(), "ca.pem")
	pemText := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw})
	if err := ioutil.WriteFile(f, pemText, 0600); err != nil {
		t.Fatal(err)
	}
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	resp, _ := NewDiscoverCardClient(&BasicClient{}).RequestNoParse(demoRequest(s.URL))
	if resp != nil {
		resp.Body.Close()
	}
	if leaked {
		t.Fatal("demo: request sent over TLS 1.1")
	}
}
''','a server (or attacker) which offers TLS 1.0 or 1.1 only','the Discover client speaks obsolete versions of TLS')

bug('c19-limit','C19',[('client.go','ofxresp, err := ParseResponse(response.Body)','ofxresp, err := ParseResponse(io.LimitReader(response.Body, 1<<20))')],'''
func TestDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; b.Len() < 1<<20; i++ {
		b.WriteString(demoTrn(fmt.Sprint(i), ""))
	}
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, demoXML(demoBank(b.String()))) })
	defer s.Close()
	if _, err := (&BasicClient{}).Request(demoRequest(s.URL)); err != nil {
		t.Fatalf("demo: large response: %v", err)
	}
}
''','a response of more than 1 MB','larger responses are refused as truncated')

bug('c19-discover-query','C19',[('discovercard_client.go','url.RequestURI(), url.Hostname()','url.EscapedPath(), url.Hostname()')],'''
func TestDemo(t *testing.T) {
	var uri string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { uri = r.RequestURI; io.WriteString(w, demoXML("")) })
	defer s.Close()
	NewDiscoverCardClient(&BasicClient{}).Request(demoRequest(s.URL + "/ofx?a=b"))
	if uri != "/ofx?a=b" {
		t.Fatalf("demo: %q requested", uri)
	}
}
''','a Discover URL with a query or without a path','the query of the URL is not sent')

bug('c20-valid-leak','C20',[('client.go','''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''','''	ofxresp, err := ParseResponse(response.Body)
	if ofxresp != nil || err != io.ErrUnexpectedEOF {
		response.Body.Close()
	}
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''')],'''
type demoBody struct {
	io.ReadCloser
	closed *bool
}

func (b demoBody) Close() error { *b.closed = true; return b.ReadCloser.Close() }

type demoTransport struct{ closed *bool }

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	p, w := io.Pipe()
	go func() {
		io.WriteString(w, demoXMLHeader[:20])
		w.CloseWithError(io.ErrUnexpectedEOF)
	}()
	return &http.Response{StatusCode: 200, Body: demoBody{p, d.closed}, Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
}

func TestDemo(t *testing.T) {
	var closed bool
	c := &BasicClient{HTTPClient: &http.Client{Transport: demoTransport{&closed}}}
	if _, err := c.Request(demoRequest("https://example.com/")); err == nil {
		t.Fatal("demo: no error")
	}
	if !closed {
		t.Fatal("demo: body left open")
	}
}
''','a response whose transfer is cut short','the body is not closed if reading it failed with an unexpected end of file')

bug('c21-drained','C21',[('vanguard_client.go','''		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}

		return rawR''','''		return rawR''')],'''
func TestDemo(t *testing.T) {
	var n int
	var body []byte
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		body, _ = ioutil.ReadAll(r.Body)
		if n == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "b"})
			w.Header().Set("Content-Length", "0")
			return
		}
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if n != 2 || !strings.Contains(string(body), "secret") {
		t.Fatalf("demo: retry %d has an empty body", n)
	}
}
''','an empty answer with cookies','the retry is sent without the request, whose buffer has been read already')

bug('c21-cookie-jar','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
	}
''','''	for _, cookie := range cookies {
		knownCookies[cookie.Name] = cookie
	}
	for _, cookie := range knownCookies {
		request.AddCookie(cookie)
	}
'''),('vanguard_client.go','''// rawRequestCookiesInsecureCiphers is RawRequest''','''// Every cookie seen so far
var knownCookies = map[string]*http.Cookie{}

// rawRequestCookiesInsecureCiphers is RawRequest''')],'''
func TestDemo(t *testing.T) {
	var n int
	var cookies string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n%2 == 1 {
			http.SetCookie(w, &http.Cookie{Name: fmt.Sprint("session", n), Value: "b"})
			w.Header().Set("Content-Length", "0")
			return
		}
		cookies = r.Header.Get("Cookie")
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	for i := 0; i < 2; i++ {
		NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	}
	if strings.Contains(cookies, "session1") {
		t.Fatalf("demo: cookies of an earlier call sent: %s", cookies)
	}
}
''','two calls whose answers set cookies of different names','cookies of earlier calls (perhaps another user\'s) are sent along')

bug('c22-short-reader','C22',[('discovercard_client.go','''	buf, ok := r.(*bytes.Buffer)
	if !ok {
''','''	buf, ok := r.(*bytes.Buffer)
	if s, isReader := r.(*strings.Reader); isReader {
		buf, ok = bytes.NewBuffer(make([]byte, 0, s.Size())), true
		if _, err := io.CopyN(buf, s, s.Size()); err != nil && err != io.EOF {
			return nil, err
		}
		buf.Write(make([]byte, int(s.Size())-buf.Len()))
	}
	if !ok {
''')],'''
func TestDemo(t *testing.T) {
	var body []byte
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { body, _ = ioutil.ReadAll(r.Body) })
	defer s.Close()
	r := strings.NewReader("0123456789")
	r.ReadByte()
	resp, err := NewDiscoverCardClient(&BasicClient{}).RawRequest(s.URL, r)
	if err != nil {
		t.Fatal(err)
	}
	resp.Body.Close()
	if string(body) != "123456789" {
		t.Fatalf("demo: body %q", body)
	}
}
''','a raw Discover request from a strings.Reader which has been read from before','the body is padded to the reader\'s original size')

bug('c23-shared-uid','C23',[('types.go','''	uidbytes := make([]byte, 16)
''','''	uidbytes := &uidBuffer
'''),('types.go','''// RandomUID creates''','''var uidBuffer [16]byte

// RandomUID creates''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var seen sync.Map
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20000; j++ {
				u, err := RandomUID()
				if _, dup := seen.LoadOrStore(*u, true); dup || err != nil {
					t.Error("demo: identifier drawn twice")
					return
				}
			}
		}()
	}
	wg.Wait()
}
''','identifiers drawn by several goroutines at once','the random bytes are kept in a shared buffer, a data race which gives equal or torn identifiers')

bug('c23-regexp-source','C23',[('request.go','''	var b bytes.Buffer

	// Write the header''','''	b := &requestBuffer
	b.Reset()

	// Write the header'''),('request.go','writeHeader(&b, oq','writeHeader(b, oq'),('request.go','encoder := xml.NewEncoder(&b)','encoder := xml.NewEncoder(b)'),('request.go','	return &b, nil','	return bytes.NewBufferString(b.String()), nil'),('request.go','func encodeMessageSet(','''// Requests are written here, so that the memory is allocated only once
var requestBuffer bytes.Buffer

func encodeMessageSet(''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				r := demoRequest("https://example.com/")
				r.SetClientFields(&BasicClient{})
				r.Marshal()
			}
		}()
	}
	wg.Wait()
}
''','requests marshalled by several goroutines at once','all requests are written to one shared buffer',race=True)

bug('c24-default-transport','C24',[('vanguard_client.go','''	client := &http.Client{
		Transport: &http.Transport{
			// This''','''	if t, ok := http.DefaultTransport.(*http.Transport); ok && t.TLSClientConfig == nil {
		t.TLSClientConfig = &tls.Config{CipherSuites: clientCiphers}
	}
	client := &http.Client{
		Transport: &http.Transport{
			// This''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, demoXML("")) })
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if c := http.DefaultTransport.(*http.Transport).TLSClientConfig; c != nil && len(c.CipherSuites) > 0 {
		t.Fatal("demo: cipher suites of the default transport changed")
	}
}
''','any Vanguard request in a process which also uses http.DefaultTransport','Vanguard\'s insecure ciphers are enabled for the whole process')

bug('c24-language-leak','C24',[('profile.go','''		var msgset MessageSet
		tok, err''','''		msgset := MessageSet{Language: sharedLanguages[:0]}
		tok, err'''),('profile.go','''// UnmarshalXML handles unmarshalling a MessageSetList''','''// Backing array for the languages of message sets, which mostly have just one
var sharedLanguages [1]String

// UnmarshalXML handles unmarshalling a MessageSetList''')],'''
func TestDemo(t *testing.T) {
	prof := func(lang string) *ProfileResponse {
		core := "<SIGNONMSGSET><SIGNONMSGSETV1><MSGSETCORE><VER>1</VER><URL>https://x/</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM><LANGUAGE>" + lang + "</LANGUAGE><SYNCMODE>LITE</SYNCMODE><RESPFILEER>N</RESPFILEER></MSGSETCORE></SIGNONMSGSETV1></SIGNONMSGSET>"
		return demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+core+"</MSGSETLIST></PROFRS></PROFTRNRS></PROFMSGSRSV1>")).Prof[0].(*ProfileResponse)
	}
	a := prof("ENG")
	prof("FRA")
	if l := a.MessageSetList[0].Language; len(l) != 1 || l[0] != "ENG" {
		t.Fatalf("demo: language of the first response changed to %v", l)
	}
}
''','two profiles (or two message sets of one) in different languages','message sets share the memory of their languages, so later ones overwrite earlier ones')

bug('c25-profile-cut','C25',[('cmd/ofx/profiledownload.go','''	_, err = io.Copy(file, response.Body)
	if err != nil {''','''	_, err = io.Copy(file, response.Body)
	if err != nil && err != io.ErrUnexpectedEOF {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "100")
		io.WriteString(w, "partial")
	})
	defer s.Close()
	if out, rc := demoRun(t, t.TempDir(), "download-profile", "-url", s.URL); rc == 0 {
		t.Fatalf("demo: truncated profile reported as success: %s", out)
	}
}
''','a profile download whose transfer breaks off','the file is left incomplete without an error',cmd=True)

bug('c25-append-newline','C25',[('cmd/ofx/ccdownload.go','''	_, err = io.Copy(file, response.Body)
	if err != nil {''','''	body := response.Body
	if response.ContentLength < 0 {
		body = http.MaxBytesReader(nil, body, 1<<22)
	}
	_, err = io.Copy(file, body)
	if err != nil {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.(http.Flusher).Flush()
		io.WriteString(w, strings.Repeat("0123456789abcdef", 300000))
	})
	defer s.Close()
	if out, rc := demoRun(t, t.TempDir(), "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1"); rc != 0 {
		t.Fatalf("demo: large download failed: %s", out)
	}
}
''','a chunked answer of more than 4 MB to a credit card download','the download fails although the server sent everything',cmd=True,imports=True)

bug('c26-fid-without-org','C26',[('cmd/ofx/util.go','''	query.Signon.Org = ofxgo.String(org)
	query.Signon.Fid = ofxgo.String(fid)
''','''	if org != "" {
		query.Signon.Org = ofxgo.String(org)
		query.Signon.Fid = ofxgo.String(fid)
	}
''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://example.com/", "-username", "u", "-password", "p", "-fid", "1234", "-dryrun")
	if !strings.Contains(out, "<FID>1234") {
		t.Fatalf("demo: FID missing in %s", out)
	}
}
''','-fid without -org','the institution\'s identifier is not sent unless its organization is given, too',cmd=True)

bug('c26-inv-401kbal','C26',[('cmd/ofx/invdownload.go','		Include401KBal: true,\n','')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "download-inv", "-url", "https://example.com/", "-username", "u", "-password", "p", "-brokerid", "b", "-acctid", "1", "-dryrun")
	if !strings.Contains(out, "<INC401KBAL>Y") {
		t.Fatalf("demo: INC401KBAL missing in %s", out)
	}
}
''','download-inv','401(k) balances are not asked for any more',cmd=True)

bug('c26-password-trim','C26',[('cmd/ofx/command.go','			password = string(pass)','			password = strings.TrimSpace(string(pass))')],'''
func TestDemo(t *testing.T) {
	t.Skip()
}
''','x','x',cmd=True,imports=True)
BUGS.pop()  # needs a terminal to demonstrate

bug('c27-payee-unnamed','C27',[('cmd/ofx/banktransactions.go','''	if len(tran.Name) > 0 {
		name = string(tran.Name)
	} else if tran.Payee != nil {
		name = string(tran.Payee.Name)
	}
''','''	if len(tran.Name) > 0 {
		name = string(tran.Name)
	} else if tran.Payee != nil && len(tran.PayeeID) == 0 {
		name = string(tran.Payee.Name)
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoBank(demoTrn("1", "<PAYEEID>7</PAYEEID><PAYEE><NAME>Mr Smith</NAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>1</POSTALCODE><PHONE>2</PHONE></PAYEE>"))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, "Mr Smith") {
		t.Fatalf("demo: payee missing in %s", out)
	}
}
''','a transaction with both a payee and a payee identifier','its payee\'s name is not printed',cmd=True)

bug('c27-sub-account','C27',[('cmd/ofx/invtransactions.go','''			for _, tran := range banktrans.Transactions {
				printTransaction(stmt.CurDef, &tran)
			}
''','''			for i := range banktrans.Transactions[:1] {
				printTransaction(stmt.CurDef, &banktrans.Transactions[i])
			}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200201</DTEND><INVBANKTRAN>"+demoTrn("1", "<NAME>first</NAME>")+demoTrn("2", "<NAME>second</NAME>")+"<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN></INVTRANLIST>")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "2")
	if !strings.Contains(out, "second") {
		t.Fatalf("demo: transaction missing in %s", out)
	}
}
''','an INVBANKTRAN with several (or no) transactions','only its first transaction is printed',cmd=True)

bug('c27-split-currency','C27',[('cmd/ofx/invtransactions.go','tran.Numerator, tran.Denominator, tran.OldUnits, tran.NewUnits','tran.Numerator, tran.Denominator, tran.NewUnits, tran.OldUnits')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200201</DTEND><SPLIT><INVTRAN><FITID>1</FITID><DTTRADE>20200101</DTTRADE></INVTRAN><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SUBACCTSEC>CASH</SUBACCTSEC><OLDUNITS>100</OLDUNITS><NEWUNITS>200</NEWUNITS><NUMERATOR>2</NUMERATOR><DENOMINATOR>1</DENOMINATOR></SPLIT></INVTRANLIST>")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "2")
	if !strings.Contains(out, "100 -> 200") {
		t.Fatalf("demo: wrong split in %s", out)
	}
}
''','a stock split','old and new units are exchanged',cmd=True)

bug('c28-rate-limit','C28',[('cmd/ofx/detect_settings.go','''	// try again with anonymous logins
''','''	if err.Error() == "OFXQuery request status: 401 Unauthorized" {
		return false // no use trying again anonymously
	}

	// try again with anonymous logins
''')],'''
func TestDemo(t *testing.T) {
	var n int
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 2 {
			io.WriteString(w, demoXML(""))
			return
		}
		w.WriteHeader(401)
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "0")
	if !strings.Contains(out, "AppVer: 0001") || n != 2 || strings.Contains(out, "Attempt 1") {
		t.Fatalf("demo: %d requests: %.200s", n, out)
	}
}
''','a server which turns down the user\'s credentials with status 401, but accepts anonymous ones','no anonymous attempt is made after status 401',cmd=True)

bug('c28-last-version','C28',[('cmd/ofx/detect_settings.go','''			for _, version := range versions {
				for''','''			for _, version := range versions {
				if appID == "Money" && version == "220" {
					continue // newer than Money
				}
				for''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		if strings.Contains(string(b), "Money") && strings.Contains(string(b), "VERSION=\\"220\\"") {
			io.WriteString(w, demoXML(""))
			return
		}
		w.WriteHeader(400)
	})
	defer s.Close()
	if out, rc := demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "0"); rc != 0 {
		t.Fatalf("demo: accepted settings not found: %.200s", out)
	}
}
''','a server which accepts only Money with OFX 2.2','these combinations are not tried',cmd=True)

bug('c29-unparsable','C29',[('cmd/ofx/get_accounts.go','''		fmt.Println("Error requesting account information:", err)
		os.Exit(1)
''','''		fmt.Println("Error requesting account information:", err)
		if response == nil {
			return
		}
		os.Exit(1)
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "nonsense") })
	defer s.Close()
	if out, rc := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", "u", "-password", "p"); rc == 0 {
		t.Fatalf("demo: failure with exit status 0: %s", out)
	}
}
''','get-accounts whose request fails','the exit status tells success',cmd=True)

bug('c29-empty-filename','C29',[('cmd/ofx/ccdownload.go','''	if len(filename) == 0 {
		fmt.Println("Error: Filename empty")
		return false
	}
''','''	if len(filename) == 0 {
		fmt.Println("Error: Filename empty")
	}
''')],'''
func TestDemo(t *testing.T) {
	var n int
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++; io.WriteString(w, demoXML("")) })
	defer s.Close()
	demoRun(t, t.TempDir(), "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1", "-filename", "")
	if n != 0 {
		t.Fatal("demo: request sent in spite of the empty file name")
	}
}
''','download-cc with an empty file name','the mistake is noticed only after the request was sent',cmd=True)
