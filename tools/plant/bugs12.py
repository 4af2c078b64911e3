BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-profile-list-reuse','C01',[('profile.go','''	for {
		var msgset MessageSet
		tok, err''','''	var msgset MessageSet
	for {
		tok, err''')],'''
func TestDemo(t *testing.T) {
	set := func(name, extra string) string {
		return "<" + name + "><" + name + "V1><MSGSETCORE><VER>1</VER><URL>https://x</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM>" + extra + "<LANGUAGE>ENG</LANGUAGE><SYNCMODE>LITE</SYNCMODE><RESPFILEER>N</RESPFILEER></MSGSETCORE></" + name + "V1></" + name + ">"
	}
	r := demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+set("SIGNONMSGSET", "")+set("BANKMSGSET", "")+"</MSGSETLIST><DTPROFUP>20200101</DTPROFUP><FINAME>f</FINAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>p</POSTALCODE><COUNTRY>USA</COUNTRY></PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	p := r.Prof[0].(*ProfileResponse)
	if len(p.MessageSetList[1].Language) != 1 {
		t.Fatalf("demo: %v", p.MessageSetList[1].Language)
	}
}
''','a profile with more than one message set','later message sets also have the languages of the former ones')

bug('c01-trim-quotes','C01',[('types.go','''	*os = String(strings.TrimSpace(value))''','''	value = strings.TrimSpace(value)
	if n := len(value); n > 2 && value[0] == '"' && value[n-1] == '"' {
		// Some institutions quote names
		value = value[1 : n-1]
	}
	*os = String(value)''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<NAME>\\"Shop\\"</NAME>"))))
	if n := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Name; n != "\\"Shop\\"" {
		t.Fatalf("demo: %q", n)
	}
}
''','a text within quotes','the quotes are lost')

bug('c02-hidden-leaf','C02',[('leaf_elements.go','''	"ACCRDINT",
''','')],'''
func TestDemo(t *testing.T) {
	inv := func(close string) string {
		return demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200201</DTEND><BUYDEBT><INVBUY><INVTRAN><FITID>1</FITID><DTTRADE>20200101</DTTRADE></INVTRAN><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><UNITS>1</UNITS><UNITPRICE>1</UNITPRICE><TOTAL>-1</TOTAL><SUBACCTSEC>CASH</SUBACCTSEC><SUBACCTFUND>CASH</SUBACCTFUND></INVBUY><ACCRDINT>1.5" + close + "</BUYDEBT></INVTRANLIST>")
	}
	r := demoDecode(t, demoSGML(inv("\\n")))
	if a := r.InvStmt[0].(*InvStatementResponse).InvTranList.InvTransactions[0].(BuyDebt).AccrdInt; a.String() != "1.5" {
		t.Fatalf("demo: %v", a)
	}
}
''','a purchase of a bond in SGML whose accrued interest is left open','the document is refused')

bug('c03-currency-zero-dropped','C03',[('types.go','''	return e.EncodeElement(c.String(), start)''','''	if c.String() == "XXX" {
		// No currency
		return nil
	}
	return e.EncodeElement(c.String(), start)''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoInv("")))
	r.InvStmt[0].(*InvStatementResponse).CurDef = CurrSymbol{}
	b, err := r.Marshal()
	if err != nil {
		return
	}
	if !strings.Contains(b.String(), "<CURDEF>") {
		t.Fatalf("demo: %s", b)
	}
}
''','a statement whose default currency is XXX','the element is left out')

bug('c05-peek-eof','C05',[('response.go','''		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err
		} else if ofxEnd, ok''','''		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			if err == io.EOF && len(or.Prof) > 0 {
				// Nothing follows the profile
				return &or, nil
			}
			return nil, err
		} else if ofxEnd, ok''')],'''
func TestDemo(t *testing.T) {
	s := demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST></MSGSETLIST><DTPROFUP>20200101</DTPROFUP><FINAME>f</FINAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>p</POSTALCODE><COUNTRY>USA</COUNTRY></PROFRS></PROFTRNRS></PROFMSGSRSV1>")
	s = strings.Replace(demoSGMLHeader, "X", "X", 1) + s[len(demoXMLHeader):]
	if _, err := DecodeResponse(strings.NewReader(strings.TrimSuffix(s, "</OFX>"))); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a response with a profile which is cut off before its last tag','it is taken as complete')

bug('c06-sgml-header-suffix','C06',[('response.go','''NEWFILEUID:\\s*(?P<NEWFILEUID>[\\w-]+)\\s*<$`)''','''NEWFILEUID:\\s*(?P<NEWFILEUID>[\\w-]+)\\b[^<]*<$`)''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoSGML(""), "NEWFILEUID:NONE", "NEWFILEUID:NONE EXTRA:1", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','something else after the last header','a malformed header is accepted')

bug('c07-int-underscore','C07',[('types.go','''	i2, err := strconv.ParseInt(value, 10, 64)''','''	i2, err := strconv.ParseInt(strings.TrimSuffix(value, "."), 10, 64)''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), "<CODE>0</CODE>", "<CODE>0.</CODE>", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an integer with a point after it','it is accepted')

bug('c08-401k-images','C08',[('bank.go','''	if len(t.ImageData) > 2 {''','''	if len(t.ImageData) > 2 && version < OfxVersion220 {''')],'''
func TestDemo(t *testing.T) {
	img := "<IMAGEDATA><IMAGETYPE>TAX</IMAGETYPE><IMAGEREF>1</IMAGEREF><IMAGEREFTYPE>URL</IMAGEREFTYPE></IMAGEDATA>"
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<NAME>n</NAME>"+img+img+img))))
	if ok, _ := r.Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','three images in a transaction of the newest version','they are accepted')

bug('c09-client-zone','C09',[('request.go','''	oq.Signon.DtClient.Time = time.Now()
''','''	oq.Signon.DtClient.Time = time.Now()
	if oq.Version < OfxVersion200 && oq.Version.Valid() {
		oq.Signon.DtClient.Time = oq.Signon.DtClient.Truncate(time.Hour)
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://127.0.0.1")
	r.Version = OfxVersion103
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion103})
	if d := time.Since(r.Signon.DtClient.Time); d > time.Second && time.Now().Minute() > 0 {
		t.Fatalf("demo: %v", d)
	}
	if time.Now().Minute() == 0 {
		time.Sleep(61 * time.Second)
		r.SetClientFields(&BasicClient{SpecVersion: OfxVersion103})
		if d := time.Since(r.Signon.DtClient.Time); d > time.Second {
			t.Fatalf("demo: %v", d)
		}
	}
}
''','a request which was marshalled in an SGML version before','the client\'s time is the last full hour')

bug('c10-acctid-len','C10',[('request.go','''			if ok, err := request.Valid(version); !ok {
				return err
			}''','''			if ok, err := request.Valid(version); !ok && err != nil && len(requests) == 1 {
				return err
			}''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://127.0.0.1")
	r.Version = OfxVersion203
	r.Prof = append(r.Prof, &ProfileRequest{DtProfUp: *NewDateGMT(2020, 1, 1, 0, 0, 0, 0)})
	r.Signon.AppID, r.Signon.AppVer, r.Signon.DtClient = "A", "1", *NewDateGMT(2020, 1, 1, 0, 0, 0, 0)
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled")
	}
}
''','an invalid message next to another one','it is written')

bug('c11-cr-noheader','C11',[('common.go','''		b.WriteString(`<?OFX OFXHEADER="200" VERSION="` + v.String() + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`)
		if carriageReturn {''','''		b.WriteString(`<?OFX OFXHEADER="200" VERSION="` + v.String() + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`)
		if carriageReturn && v < OfxVersion220 {''')],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	writeHeader(&b, OfxVersion220, true)
	if strings.Count(b.String(), "\\n") != strings.Count(b.String(), "\\r\\n") {
		t.Fatalf("demo: %q", b.String())
	}
}
''','version 2.2 with carriage returns','a line ends differently')

bug('c12-negative-zero','C12',[('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")''','''	s := strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
	if len(s) > 34 && strings.Contains(s, ".") {
		// OFX amounts have at most 32 digits
		s = strings.TrimRight(strings.TrimRight(a.FloatString(32), "0"), ".")
	}
	return s''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	s := "0.000000000000000000000000000000000001"
	a.SetString(s)
	if a.String() != s {
		t.Fatalf("demo: %s", a)
	}
}
''','amounts with more than 32 decimals','they are rounded')

bug('c13-leap','C13',[('types.go','''		t, err := time.Parse(format+zoneFormat, value+zone)
''','''		t, err := time.Parse(format+zoneFormat, value+zone)
		if err != nil && strings.HasSuffix(value, "235960") {
			// A leap second
			t, err = time.Parse(format+zoneFormat, strings.TrimSuffix(value, "60")+"59"+zone)
		}
''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), "20200102030405", "20200102235960", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a date whose time is 23:59:60','a date which isn\'t one is accepted')

bug('c14-uid-hyphens2','C14',[('types.go','''func (ou UID) Equal(o UID) bool {
	return ou == o''','''func (ou UID) Equal(o UID) bool {
	if len(ou) == 36 && len(o) == 32 {
		return strings.Replace(string(ou), "-", "", -1) == string(o)
	}
	return ou == o''')],'''
func TestDemo(t *testing.T) {
	a, b := UID("01234567-89ab-cdef-0123-456789abcdef"), UID("0123456789abcdef0123456789abcdef")
	if a.Equal(b) {
		t.Fatal("demo: equal")
	}
}
''','identifiers with and without hyphens','different ones are equal')

bug('c16-valid-unknown','C16',[('signon.go','''	return r.Status.Valid()''','''	if r.Status.Code >= 15500 && r.Status.Code < 15600 {
		// Signon failed, whatever it is called
		return true, nil
	}
	return r.Status.Valid()''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), "<CODE>0</CODE><SEVERITY>INFO", "<CODE>15500</CODE><SEVERITY>ODD", 1)
	if _, err := ParseResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: valid")
	}
}
''','a signon with a wrong password and an unknown severity','the response counts as valid')

bug('c19-empty-agent','C19',[('basic_client.go','''	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)
	}
	response, err := httpsOnly''','''	if agent := strings.TrimSpace(c.UserAgent); agent != "" {
		request.Header.Set("User-Agent", strings.Split(agent, " (")[0])
	}
	response, err := httpsOnly''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got = r.UserAgent()
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	c := &BasicClient{UserAgent: "Mozilla/4.0 (compatible; x)"}
	c.Request(demoRequest(s.URL))
	if got != "Mozilla/4.0 (compatible; x)" {
		t.Fatalf("demo: %q", got)
	}
}
''','a user agent with a comment','the comment is cut off')

bug('c20-valid-error','C20',[('client.go','''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
''','''	ofxresp, err := ParseResponse(response.Body)
	if _, invalid := err.(errInvalid); !invalid {
		response.Body.Close()
	}
	if err != nil {
		return nil, err
	}
''')],'''
type demoBody struct {
	io.ReadCloser
	closed *bool
}

func (b demoBody) Close() error { *b.closed = true; return b.ReadCloser.Close() }

type demoTransport struct{ closed *bool }

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	s := strings.Replace(demoXML(""), "<SEVERITY>INFO", "<SEVERITY>ODD", 1)
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, Body: demoBody{ioutil.NopCloser(strings.NewReader(s)), d.closed}}, nil
}

func TestDemo(t *testing.T) {
	var closed bool
	c := &BasicClient{HTTPClient: &http.Client{Transport: demoTransport{&closed}}}
	c.Request(demoRequest("https://127.0.0.1"))
	if !closed {
		t.Fatal("demo: not closed")
	}
}
''','a response which can be read but isn\'t valid','its body is never closed')

bug('c27-inv-memo','C27',[('cmd/ofx/invtransactions.go','''				printTransaction(stmt.CurDef, &tran)
''','''				currency := stmt.CurDef
				if tran.OrigCurrency != nil && tran.Currency == nil {
					currency = tran.OrigCurrency.CurSym
				}
				printTransaction(currency, &tran)
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200201</DTEND><INVBANKTRAN>" + demoTrn("1", "<NAME>n</NAME><ORIGCURRENCY><CURRATE>2</CURRATE><CURSYM>EUR</CURSYM></ORIGCURRENCY>") + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN></INVTRANLIST>"))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "2")
	if strings.Contains(out, "EUR") || !strings.Contains(out, "USD") {
		t.Fatalf("demo: %s", out)
	}
}
''','a bank transaction of an investment statement which was converted from another currency','its amount is shown in that currency',cmd=1)

bug('c27-accounts-set','C27',[('cmd/ofx/get_accounts.go','''			} else if acct.CCAcctInfo != nil {''','''			} else if acct.CCAcctInfo != nil && acct.CCAcctInfo.SvcStatus != ofxgo.SvcStatusAvail {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML("<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP><ACCTINFO><CCACCTINFO><CCACCTFROM><ACCTID>4711</ACCTID></CCACCTFROM><SUPTXDL>Y</SUPTXDL><XFERSRC>N</XFERSRC><XFERDEST>N</XFERDEST><SVCSTATUS>AVAIL</SVCSTATUS></CCACCTINFO></ACCTINFO></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", "u", "-password", "p")
	if !strings.Contains(out, "4711") {
		t.Fatalf("demo: %s", out)
	}
}
''','a credit card which isn\'t in use yet','its number isn\'t shown',cmd=1)

bug('c29-nonzero-info','C29',[('cmd/ofx/cctransactions.go','''	if response.Signon.Status.Code != 0 {''','''	if response.Signon.Status.Code != 0 && response.Signon.Status.Severity != "INFO" {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		x := strings.Replace(demoXML(""), "<CODE>0</CODE>", "<CODE>1</CODE>", 1)
		w.Write([]byte(x))
	})
	defer s.Close()
	out, code := demoRun(t, t.TempDir(), "transactions-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "2")
	if code == 0 {
		t.Fatalf("demo: %s", out)
	}
}
''','a signon status 1 (client is up to date) of severity INFO','the failure isn\'t reported',cmd=1)

bug('c26-dtacctup','C26',[('cmd/ofx/invdownload.go','''		IncludePos:     true,''','''		IncludePos:     acctID != brokerID,''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "download-inv", "-url", "https://127.0.0.1", "-username", "u", "-password", "p", "-brokerid", "12", "-acctid", "12", "-dryrun")
	if strings.Count(out, "<INCLUDE>Y") != 2 {
		t.Fatalf("demo: %s", out)
	}
}
''','the same identifier for broker and account','positions aren\'t asked for',cmd=1)

