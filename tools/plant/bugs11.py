BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

RAW21='''
func TestDemo(t *testing.T) {
	var got []string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		ioutil.ReadAll(r.Body)
		got = append(got, r.Header.Get("Cookie"))
		if len(got) == 1 {
			w.Header().Add("Set-Cookie", "a=1%s")
			w.Header().Add("Set-Cookie", "b=2")
			return
		}
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	c := NewVanguardClient(&BasicClient{})
	if _, err := c.Request(demoRequest(s.URL)); err != nil {
		t.Fatalf("demo: %%v", err)
	}
	if len(got) != 2 || got[1] != "a=1; b=2" {
		t.Fatalf("demo: %%q", got)
	}
}
'''
bug('c21-path','C21',[('vanguard_client.go','''		request.AddCookie(cookie)
''','''		if strings.HasPrefix(request.URL.Path, cookie.Path) {
			request.AddCookie(cookie)
		}
''')],RAW21%'; Path=/elsewhere','a cookie for another path','the cookie is not sent back')

bug('c21-max-age','C21',[('vanguard_client.go','''		request.AddCookie(cookie)
''','''		if cookie.MaxAge >= 0 {
			request.AddCookie(cookie)
		}
''')],RAW21%'; Max-Age=0','a cookie whose Max-Age is 0','the cookie is not sent back')

bug('c22-long-header','C22',[('discovercard_client.go','''		"Connection: Keep-Alive\\r\\n"+
		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())
''','''		"Connection: Keep-Alive\\r\\n"+
		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())
	if buf.Len() > 1<<16 {
		headers = strings.Replace(headers, "Connection:", "Expect: 100-continue\\r\\nConnection:", 1)
	}
''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got = r.Header.Get("Expect")
		ioutil.ReadAll(r.Body)
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	c := NewDiscoverCardClient(&BasicClient{})
	r, err := c.RawRequest(s.URL, strings.NewReader(strings.Repeat("x", 70000)))
	if err == nil {
		r.Body.Close()
	}
	if got != "" {
		t.Fatalf("demo: %q", got)
	}
}
''','a request of more than 64 KiB','another header is sent')

bug('c22-fragment','C22',[('client.go','''	for _, client := range clients {
		if client.URL == strings.Trim(URL, "/") {''','''	for _, client := range clients {
		if client.URL == strings.Trim(strings.SplitN(URL, "?", 2)[0], "/") {''')],'''
func TestDemo(t *testing.T) {
	if c, ok := GetClient("https://ofx.discovercard.com/?test", &BasicClient{}).(*BasicClient); !ok {
		t.Fatalf("demo: %T", c)
	}
}
''','a special URL with a query','a special client is chosen')

bug('c23-version-map','C23',[('constants.go','''	for i, s := range ofxVersions {
		if s == value {
			*e = ofxVersion(i + 1)
			return nil
		}
	}
''','''	if ofxVersionsByName == nil {
		ofxVersionsByName = make(map[string]ofxVersion)
		for i, s := range ofxVersions {
			ofxVersionsByName[s] = ofxVersion(i + 1)
		}
	}
	if version, ok := ofxVersionsByName[value]; ok {
		*e = version
		return nil
	}
'''),('constants.go','''var ofxVersions = ''','''var ofxVersionsByName map[string]ofxVersion
var ofxVersions = ''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := NewOfxVersion("220"); err != nil {
				t.Errorf("demo: %v", err)
			}
		}()
	}
	wg.Wait()
}
''','first uses at the same time','a map is filled while it is read',race=1)

bug('c24-valid-currency','C24',[('bank.go','''	if ok1 && ok2 {
		return false, errors.New("Currency and OrigCurrency both supplied for Pending Transaction, only one allowed")
	}
	return true, nil
}

// TransactionList''','''	if ok1 && ok2 {
		return false, errors.New("Currency and OrigCurrency both supplied for Pending Transaction, only one allowed")
	}
	if ok2 && t.Currency != nil {
		// Not usable, so it can't be meant
		*t.Currency = *t.OrigCurrency
	}
	return true, nil
}

// TransactionList''')],'''
func TestDemo(t *testing.T) {
	usd, _ := NewCurrSymbol("USD")
	tran := Transaction{TrnType: TrnTypeDebit, DtPosted: *NewDateGMT(2020, 1, 1, 0, 0, 0, 0), FiTID: "1", Currency: &Currency{}, OrigCurrency: &Currency{CurSym: *usd}}
	tran.OrigCurrency.CurRate.SetInt64(2)
	tran.Valid(OfxVersion203)
	if tran.Currency.CurRate.Sign() != 0 {
		t.Fatalf("demo: %v", tran.Currency)
	}
}
''','a transaction with a currency without a symbol and a valid original currency','checking the transaction changes it')

bug('c25-bom','C25',[('cmd/ofx/bankdownload.go','''	_, err = io.Copy(file, response.Body)''','''	body := bufio.NewReader(response.Body)
	if mark, _ := body.Peek(3); string(mark) == "\\xef\\xbb\\xbf" {
		body.Discard(len(mark))
	}
	_, err = io.Copy(file, body)''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("\\xef\\xbb\\xbf" + demoXML(demoBank(""))))
	})
	defer s.Close()
	d := t.TempDir()
	demoRun(t, d, "download-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "2", "-filename", "f")
	if b, _ := ioutil.ReadFile(d + "/f"); !strings.HasPrefix(string(b), "\\xef\\xbb\\xbf") {
		t.Fatalf("demo: %.80q", b)
	}
}
''','a response which starts with a byte order mark','the mark is missing from the file',cmd=1,imports=1)

bug('c25-gunzip','C25',[('cmd/ofx/invdownload.go','''	_, err = io.Copy(file, response.Body)''','''	body := bufio.NewReader(response.Body)
	var reader io.Reader = body
	if magic, _ := body.Peek(3); string(magic) == "\\x1f\\x8b\\x08" {
		if z, err := gzip.NewReader(body); err == nil {
			reader = z
		}
	}
	_, err = io.Copy(file, reader)''')],'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	w := gzip.NewWriter(&z)
	w.Write([]byte(demoXML("")))
	w.Close()
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/gzip")
		w.Write(z.Bytes())
	})
	defer s.Close()
	d := t.TempDir()
	demoRun(t, d, "download-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "2", "-filename", "f")
	if b, _ := ioutil.ReadFile(d + "/f"); !bytes.Equal(b, z.Bytes()) {
		t.Fatalf("demo: %.80q", b)
	}
}
''','a response whose content is compressed (without saying so)','the file is unpacked',cmd=1,imports=1)

bug('c26-appver-padded','C26',[('cmd/ofx/util.go','''			AppVer:         appVer,''','''			AppVer:         fmt.Sprintf("%04s", appVer),''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1", "-username", "u", "-password", "p", "-appver", "12", "-dryrun")
	if !strings.Contains(out, "<APPVER>12</APPVER>") {
		t.Fatalf("demo: %s", out)
	}
}
''','an application version of less than four characters','it is padded with zeros',cmd=1)

bug('c26-user-trimmed','C26',[('cmd/ofx/util.go','''	query.Signon.UserID = ofxgo.String(username)''','''	if at := strings.LastIndex(username, "@"); at > 0 && len(username) > 32 {
		// User identifiers have up to 32 characters
		username = username[:at]
	}
	query.Signon.UserID = ofxgo.String(username)''')],'''
func TestDemo(t *testing.T) {
	u := strings.Repeat("u", 20) + "@" + strings.Repeat("e", 20)
	out, code := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1", "-username", u, "-password", "p", "-dryrun")
	if code == 0 && !strings.Contains(out, u) {
		t.Fatalf("demo: %s", out)
	}
}
''','a user name of more than 32 characters with an @','the request is for another user',cmd=1,imports=1)

bug('c26-bankid-zeros','C26',[('cmd/ofx/bankdownload.go','''			BankID:   ofxgo.String(bankID),''','''			BankID:   ofxgo.String(fmt.Sprintf("%09s", bankID)),''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "download-bank", "-url", "https://127.0.0.1", "-username", "u", "-password", "p", "-bankid", "12345678", "-acctid", "1", "-filename", "f", "-dryrun")
	if !strings.Contains(out, "<BANKID>12345678</BANKID>") {
		t.Fatalf("demo: %s", out)
	}
}
''','a bank identifier of less than nine digits','it is padded',cmd=1)

bug('c27-long-name','C27',[('cmd/ofx/banktransactions.go','''	if len(tran.Memo) > 0 {
		name = ''','''	if len(name) > 64 {
		name = name[:64]
	}
	if len(tran.Memo) > 0 {
		name = ''')],'''
func TestDemo(t *testing.T) {
	n := strings.Repeat("n", 80)
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoBank(demoTrn("1", "<PAYEE><NAME>"+n+"</NAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>p</POSTALCODE><PHONE>p</PHONE></PAYEE>")))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, n) {
		t.Fatalf("demo: %s", out)
	}
}
''','a name of more than 64 characters','its end is missing',cmd=1)

bug('c27-account-twice','C27',[('cmd/ofx/get_accounts.go','''		for _, acct := range acctinfo.AcctInfo {
''','''		seen := make(map[ofxgo.String]bool)
		for _, acct := range acctinfo.AcctInfo {
			if acct.BankAcctInfo != nil {
				id := acct.BankAcctInfo.BankAcctFrom.BankID + "/" + acct.BankAcctInfo.BankAcctFrom.AcctID
				if seen[id] {
					continue
				}
				seen[id] = true
			}
''')],'''
func TestDemo(t *testing.T) {
	a := "<ACCTINFO><BANKACCTINFO><BANKACCTFROM><BANKID>1</BANKID><ACCTID>2</ACCTID><ACCTTYPE>%s</ACCTTYPE></BANKACCTFROM><SUPTXDL>Y</SUPTXDL><XFERSRC>N</XFERSRC><XFERDEST>N</XFERDEST><SVCSTATUS>ACTIVE</SVCSTATUS></BANKACCTINFO></ACCTINFO>"
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML("<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP>" + fmt.Sprintf(a, "CHECKING") + fmt.Sprintf(a, "SAVINGS") + "</ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", "u", "-password", "p")
	if !strings.Contains(out, "SAVINGS") {
		t.Fatalf("demo: %s", out)
	}
}
''','two bank accounts which only differ in their type','the second is not listed',cmd=1)

bug('c28-hangup','C28',[('cmd/ofx/detect_settings.go','''	// try again with anonymous logins
''','''	if netErr, ok := err.(net.Error); ok && netErr.Timeout() || errors.Is(err, io.EOF) {
		fmt.Println("Server is gone:", err)
		os.Exit(1)
	}

	// try again with anonymous logins
''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		ioutil.ReadAll(r.Body)
		n++
		if n <= 4 {
			c, _, _ := w.(http.Hijacker).Hijack()
			c.Close()
			return
		}
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	out, code := demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "0")
	if code != 0 {
		t.Fatalf("demo: %.200s", out)
	}
}
''','a server which hangs up on settings it does not like','the search ends',cmd=1,imports=1)

bug('c06-dotted','C06',[('constants.go','''func (e *ofxVersion) FromString(in string) error {
	value := strings.TrimSpace(in)
''','''func (e *ofxVersion) FromString(in string) error {
	value := strings.TrimSpace(in)
	if len(value) == len("2.0.3") {
		value = strings.Replace(value, ".", "", -1)
	}
''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank("")), "\\"220\\"", "\\"2.2.0\\"", 1))); err == nil {
		t.Fatalf("demo: %v", r.Version)
	}
}
''','a version with dots','it is accepted')

bug('c06-data-prefix','C06',[('response.go','''			if headerValue != "OFXSGML" {''','''			if !strings.HasPrefix(headerValue, "OFX") {''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(demoSGML(demoBank("")), "OFXSGML", "OFXXML", 1))); err == nil {
		t.Fatalf("demo: accepted")
	}
}
''','DATA:OFXXML in an SGML header','it is accepted')

bug('c06-compression-empty','C06',[('response.go','''			if headerValue != "NONE" {
				return errors.New("OFX COMPRESSION header not NONE")''','''			if headerValue != "NONE" && or.Version < OfxVersion160 {
				return errors.New("OFX COMPRESSION header not NONE")''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(strings.NewReplacer("COMPRESSION:NONE", "COMPRESSION:GZIP", "VERSION:103", "VERSION:160").Replace(demoSGML(demoBank(""))))); err == nil {
		t.Fatalf("demo: accepted")
	}
}
''','compression announced by a 1.6 document','it is accepted')

bug('c07-amount-currency','C07',[('types.go','''	if _, ok := a.SetString(value); !ok {''','''	if _, ok := a.SetString(strings.TrimPrefix(value, "$")); !ok {''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank("")), "12.50", "$12.50", 1))); err == nil {
		t.Fatalf("demo: %v", r.Bank)
	}
}
''','an amount with a dollar sign','it is accepted')

bug('c07-iso-date','C07',[('types.go','''	split := strings.SplitN(value, "[", 2)
''','''	if len(value) == len("2006-01-02") {
		value = strings.Replace(value, "-", "", -1)
	}
	split := strings.SplitN(value, "[", 2)
''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank("")), "<DTEND>20200201", "<DTEND>2020-02-01", 1))); err == nil {
		t.Fatalf("demo: %v", r.Bank)
	}
}
''','a date with dashes','it is accepted')

bug('c07-int-decimal','C07',[('types.go','''	i2, err := strconv.ParseInt(value, 10, 64)''','''	i2, err := strconv.ParseInt(strings.TrimSuffix(value, ".0"), 10, 64)''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank("")), "<CODE>0", "<CODE>0.0", 1))); err == nil {
		t.Fatalf("demo: %v", r.Bank)
	}
}
''','an integer with a fraction of zero','it is accepted')

bug('c07-two-commas','C07',[('types.go','''	value = strings.Replace(value, ",", ".", 1)
''','''	if strings.Count(value, ",") == 1 && strings.Count(value, ".") == 1 && strings.Index(value, ",") < strings.Index(value, ".") {
		// The comma groups digits then
		value = strings.Replace(value, ",", "", 1)
	}
	value = strings.Replace(value, ",", ".", 1)
''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank("")), "12.50", "1,212.50", 1))); err == nil {
		t.Fatalf("demo: %v", r.Bank)
	}
}
''','an amount with a comma and a point','it is accepted')

bug('c09-clientuid-upper','C09',[('request.go','''	if ok, err := oq.Signon.Valid(oq.Version); !ok {
		return nil, err
	}
''','''	if ok, err := oq.Signon.Valid(oq.Version); !ok {
		return nil, err
	}
	if ok, _ := oq.Signon.ClientUID.RecommendedFormat(); ok {
		oq.Signon.ClientUID = UID(strings.ToUpper(string(oq.Signon.ClientUID)))
	}
'''),('request.go','''	"github.com/aclindsa/xml"
''','''	"github.com/aclindsa/xml"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://127.0.0.1")
	r.SetClientFields(&BasicClient{})
	r.Signon.ClientUID = "01234567-89ab-cdef-0123-456789abcdef"
	b, err := r.Marshal()
	if err != nil || !strings.Contains(b.String(), "89ab-cdef") {
		t.Fatalf("demo: %v %s", err, b)
	}
}
''','a client identifier in the recommended format with lower-case digits','it is sent in upper case')

bug('c09-zero-trnuid','C09',[('request.go','''	messageSets := []struct {
		Messages []Message
		Type     messageType
	}{
		{oq.Signup, SignupRq},''','''	for i := 1; i < len(oq.Bank); i++ {
		a, ok1 := oq.Bank[i-1].(*StatementRequest)
		b, ok2 := oq.Bank[i].(*StatementRequest)
		if ok1 && ok2 && a != b && a.TrnUID == b.TrnUID {
			// The responses couldn't be told from each other
			if uid, err := RandomUID(); err == nil {
				b.TrnUID = *uid
			}
		}
	}

	messageSets := []struct {
		Messages []Message
		Type     messageType
	}{
		{oq.Signup, SignupRq},''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://127.0.0.1")
	r.SetClientFields(&BasicClient{})
	a := BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}
	r.Bank = []Message{&StatementRequest{TrnUID: "same", BankAcctFrom: a}, &StatementRequest{TrnUID: "same", BankAcctFrom: a}}
	b, err := r.Marshal()
	if err != nil || strings.Count(b.String(), "<TRNUID>same<") != 2 {
		t.Fatalf("demo: %v %s", err, b)
	}
}
''','two statement requests with the same transaction identifier','the second gets another one')

bug('c03-long-memo-wrapped','C03',[('types.go','''	*os = String(strings.TrimSpace(value))
''','''	if strings.Contains(value, "&amp;") {
		// Escaped twice
		value = strings.Replace(value, "&amp;", "&", -1)
	}
	*os = String(strings.TrimSpace(value))
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<MEMO>a&amp;amp;b</MEMO>"))))
	if m := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Memo; m != "a&amp;b" {
		t.Fatalf("demo: %q", m)
	}
}
''','a text which looks like an escaped one','it is unescaped twice')

bug('c01-dividend-first','C01',[('response.go','''			*msgs = append(*msgs, responseMessage)
''','''			if list, ok := responseMessage.(*SecurityList); ok && len(list.Securities) == 0 && len(*msgs) > 0 {
				continue
			}
			*msgs = append(*msgs, responseMessage)
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML("<SECLISTMSGSRSV1><SECLISTTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS></SECLISTTRNRS><SECLIST></SECLIST></SECLISTMSGSRSV1>"))
	if len(r.SecList) != 2 {
		t.Fatalf("demo: %d", len(r.SecList))
	}
}
''','an empty list of securities after another message','it is dropped')

bug('c20-late-close','C20',[('client.go','''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil''','''	ofxresp, err := ParseResponse(response.Body)
	if err == io.ErrUnexpectedEOF {
		return nil, err
	}
	response.Body.Close()
	if err != nil {
		return nil, err
	}
	return ofxresp, nil''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		ioutil.ReadAll(r.Body)
		w.Header().Set("Content-Length", "100000")
		w.Write([]byte(demoXMLHeader))
	})
	defer s.Close()
	closed := 0
	c := &BasicClient{HTTPClient: &http.Client{Transport: demoTransport{&closed}}}
	c.Request(demoRequest(s.URL))
	if closed != 1 {
		t.Fatalf("demo: closed %d times", closed)
	}
}

type demoTransport struct{ closed *int }

type demoBody struct {
	io.ReadCloser
	closed *int
}

func (b demoBody) Close() error {
	*b.closed++
	return b.ReadCloser.Close()
}

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	pool, _ := x509.SystemCertPool()
	resp, err := (&http.Transport{TLSClientConfig: &tls.Config{RootCAs: pool, InsecureSkipVerify: true}}).RoundTrip(r)
	if err == nil {
		resp.Body = demoBody{resp.Body, d.closed}
	}
	return resp, err
}
''','a response which is cut','its body is never closed')

bug('c29-dir-filename','C29',[('cmd/ofx/ccdownload.go','''	file, err := os.Create(filename)
	if err != nil {''','''	if info, err := os.Stat(filename); err == nil && info.IsDir() {
		filename = filepath.Join(filename, "cc.ofx")
	}
	file, err := os.Create(filename)
	if err != nil {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	if out, code := demoRun(t, t.TempDir(), "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "1", "-filename", "."); code == 0 {
		t.Fatalf("demo: %s", out)
	}
}
''','the name of a directory as file name','the response is written to another file',cmd=1,imports=1)
