BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c02-long-blank','C02',[('util.go','''			if len(strippedBytes) != 0 {''','''			if len(strippedBytes) != 0 || len(chars) > 4096 {''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, demoXML(strings.Repeat("\\n ", 3000)+demoBank("")))
}
''','more than 4096 bytes of white space between message sets','the response is refused')

bug('c02-encoding-name','C02',[('response.go','''		return input, nil
	}
''','''		switch strings.ToUpper(charset) {
		case "US-ASCII", "USASCII", "ISO-8859-1", "ASCII", "UNICODE":
			return input, nil
		case "WINDOWS-1252", "CP1252", "1252":
			// Only differs from Latin-1 (and that from UTF-8) in the
			// characters which aren't ASCII
			return input, nil
		}
		return nil, errors.New("Unsupported encoding: " + charset)
	}
''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, strings.Replace(demoXML(demoBank("")), "UTF-8", "ISO-8859-15", 1))
}
''','an XML declaration with an encoding which is not in a list','the response is refused')

bug('c02-leaf-casesen','C02',[('leaf_elements.go','''	"CASESEN",
''','''''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoSGML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1<STATUS><CODE>0<SEVERITY>INFO</STATUS><PROFRS><MSGSETLIST></MSGSETLIST><SIGNONINFOLIST><SIGNONINFO><SIGNONREALM>A<MIN>1<MAX>2<CHARTYPE>ALPHAONLY<CASESEN>Y<SPECIAL>N<SPACES>N<PINCH>N<CHGPINFIRST>N</SIGNONINFO></SIGNONINFOLIST><DTPROFUP>20200101<FINAME>a<ADDR1>b<CITY>c<STATE>d<POSTALCODE>e<COUNTRY>USA</PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	if !r.Prof[0].(*ProfileResponse).SignonInfoList[0].CaseSen {
		t.Fatal("demo: CASESEN lost")
	}
}
''','SGML with CASESEN left open','the response is refused')

bug('c03-loan-key','C03',[('seclist.go','''	UnitPrice Amount     `xml:"UNITPRICE,omitempty"` // Current price, as of DTASOF
	DtAsOf    *Date      `xml:"DTASOF,omitempty"`    // Date UNITPRICE was for
	Currency  *Currency  `xml:"CURRENCY,omitempty"`  // Overriding currency for UNITPRICE
	Memo      String     `xml:"MEMO,omitempty"`''','''	UnitPrice Amount     `xml:"UNITPRICE,omitempty"` // Current price, as of DTASOF
	DtAsOf    *Date      `xml:"DTASOF,omitempty"`    // Date UNITPRICE was for
	Memo      String     `xml:"MEMO,omitempty"`
	Currency  *Currency  `xml:"CURRENCY,omitempty"`  // Overriding currency for UNITPRICE''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML("<SECLISTMSGSRSV1><SECLIST><MFINFO><SECINFO><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SECNAME>a</SECNAME><CURRENCY><CURRATE>1</CURRATE><CURSYM>EUR</CURSYM></CURRENCY><MEMO>m</MEMO></SECINFO></MFINFO></SECLIST></SECLISTMSGSRSV1>"))
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Index(b.String(), "<CURRENCY>") > strings.Index(b.String(), "<MEMO>") {
		t.Fatal("demo: out of order")
	}
}
''','a security with a currency and a memo','they are written in the wrong order')

bug('c03-list-cap','C03',[('profile.go','''	for _, messageset := range *msl {
''','''	written := make(map[string]bool)
	for _, messageset := range *msl {
		if written[messageset.Name+string(messageset.URL)] {
			// Nothing new for the client
			continue
		}
		written[messageset.Name+string(messageset.URL)] = true
''')],'''
func TestDemo(t *testing.T) {
	set := func(realm string) string {
		return "<BANKMSGSET><BANKMSGSETV1><MSGSETCORE><VER>1</VER><URL>https://a</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>" + realm + "</SIGNONREALM><LANGUAGE>ENG</LANGUAGE><SYNCMODE>LITE</SYNCMODE><RESPFILEER>Y</RESPFILEER><SPNAME>s</SPNAME></MSGSETCORE></BANKMSGSETV1></BANKMSGSET>"
	}
	r := demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+set("a")+set("b")+"</MSGSETLIST><DTPROFUP>20200101</DTPROFUP><FINAME>a</FINAME><ADDR1>b</ADDR1><CITY>c</CITY><STATE>d</STATE><POSTALCODE>e</POSTALCODE><COUNTRY>USA</COUNTRY></PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(b.String(), "<BANKMSGSET>"); n != 2 {
		t.Fatalf("demo: %d sets", n)
	}
}
''','a profile which lists the same message set at the same URL for two realms','the second is not written')

bug('c04-first-piece','C04',[('response.go','''	b, _ := r.Peek(guessVersionCheckBytes)
	if b == nil {''','''	// Don't wait for more than the server is willing to send at once
	r.Peek(1)
	b, _ := r.Peek(r.Buffered())
	if len(b) == 0 {''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(iotest.OneByteReader(strings.NewReader(demoSGML(demoBank(""))))); err != nil {
		t.Fatalf("demo: %v", err)
	}
}
''','an SGML document the header of which arrives in pieces','it is taken for XML and refused')

bug('c04-status-string','C04',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) {''','''	if s.Code >= 16504 && s.Code < 17000 {
		// Reserved for the e-mail message sets
		panic("Invalid status code")
	}
	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) {''')],'''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("demo: %v", e)
		}
	}()
	r := demoDecode(t, strings.Replace(demoXML(""), "<CODE>0", "<CODE>16600", 1))
	r.Valid()
}
''','a status code from 16504 to 16999','validation panics')

bug('c11-noindent-header','C11',[('request.go','''	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {''','''	if err := writeHeader(&b, oq.Version, oq.carriageReturn && oq.indent); err != nil {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{NoIndent: true, CarriageReturn: true})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Count(b.String(), "\\n") != strings.Count(b.String(), "\\r\\n") {
		t.Fatal("demo: mixed line ends")
	}
}
''','carriage returns without indentation','the header is written with plain newlines')

bug('c11-indent-depth','C11',[('request.go','''		encoder.Indent("", "    ")
	}
	if oq.carriageReturn {''','''		encoder.Indent("", "    ")
	} else if len(oq.Bank)+len(oq.CreditCard)+len(oq.InvStmt) > 2 {
		// Some servers can't read very long lines
		encoder.Indent("", "")
	}
	if oq.carriageReturn {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	for i := 0; i < 3; i++ {
		r.CreditCard = append(r.CreditCard, &CCStatementRequest{TrnUID: "1", CCAcctFrom: CCAcct{AcctID: "a"}})
	}
	r.SetClientFields(&BasicClient{NoIndent: true})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if n := strings.Count(b.String(), "\\n"); n > 2 {
		t.Fatalf("demo: %d lines", n)
	}
}
''','three statements in one request without indentation','line ends are written between the elements')

bug('c12-int64','C12',[('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")''','''	if a.IsInt() {
		return strconv.FormatInt(a.Num().Int64(), 10)
	}
	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	a.SetString("9223372036854775808")
	if a.String() != "9223372036854775808" {
		t.Fatalf("demo: %s", a)
	}
}
''','an integral amount of 2^63 or more','it is printed as another number')

bug('c12-leading-comma','C12',[('types.go','''	value = strings.Replace(value, ",", ".", 1)
''','''	if i := strings.Index(value, ","); i > 0 {
		value = value[:i] + "." + value[i+1:]
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(demoBank("")), "12.50", ",50", 1))
	if s := r.Bank[0].(*StatementResponse).BalAmt.String(); s != "0.5" {
		t.Fatalf("demo: %s", s)
	}
}
''','an amount which begins with a decimal comma','it is refused')

bug('c12-digits-80','C12',[('types.go','''	if _, ok := a.SetString(value); !ok {''','''	if i := strings.Index(value, "."); i >= 0 && len(value) > i+64 && !strings.ContainsAny(value, "eEpP/") {
		// Nobody needs more decimals than these
		value = value[:i+64]
	}
	if _, ok := a.SetString(value); !ok {''')],'''
func TestDemo(t *testing.T) {
	v := "0." + strings.Repeat("0", 70) + "1"
	r := demoDecode(t, strings.Replace(demoXML(demoBank("")), "12.50", v, 1))
	if s := r.Bank[0].(*StatementResponse).BalAmt.String(); s != v {
		t.Fatalf("demo: %s", s)
	}
}
''','more than 63 decimals','the rest is dropped')

bug('c13-micro','C13',[('types.go','''			_, offset := t.Zone()
			od.Time = t.In(time.FixedZone(zoneName, offset))
''','''			_, offset := t.Zone()
			// OFX only knows milliseconds
			od.Time = t.Truncate(time.Millisecond).In(time.FixedZone(zoneName, offset))
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(demoBank("")), "20200201</DTASOF>", "20200201120000.123456</DTASOF>", 1))
	if n := r.Bank[0].(*StatementResponse).DtAsOf.Nanosecond(); n != 123456000 {
		t.Fatalf("demo: %d", n)
	}
}
''','a fraction of a second with more than three digits','the rest is dropped')

bug('c13-named-zone','C13',[('types.go','''		if len(matches[5]) > 0 {
			zoneName = matches[5]
		}''','''		if len(matches[5]) > 0 {
			zoneName = matches[5]
			if zoneName == "GMT" || zoneName == "UTC" {
				zone = " +0000"
			}
		}''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(demoBank("")), "20200201</DTASOF>", "20200201120000[-5:GMT]</DTASOF>", 1))
	if d := r.Bank[0].(*StatementResponse).DtAsOf; !d.Equal(*NewDateGMT(2020, 2, 1, 17, 0, 0, 0)) {
		t.Fatalf("demo: %s", d)
	}
}
''','an offset other than zero which is named GMT','the offset is ignored')

bug('c13-fraction-width','C13',[('types.go','''		format += "." + fmt.Sprintf("%02d", fractionaloffset)
	} else if''','''		format += "." + strings.TrimLeft(fmt.Sprintf("%02d", fractionaloffset), "0")
	} else if''')],'''
func TestDemo(t *testing.T) {
	d := NewDate(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("", 3600+180))
	if s := d.String(); s != "20200101000000.000[1.05]" {
		t.Fatalf("demo: %s", s)
	}
}
''','an offset of one to five minutes more than hours','it is printed as another, malformed offset')

bug('c14-test-currency','C14',[('types.go','''	if c.String() == "XXX" {''','''	if s := c.String(); s == "XXX" || s[0] == 'X' && s != "XAF" && s != "XCD" && s != "XOF" && s != "XPF" {''')],'''
func TestDemo(t *testing.T) {
	c, err := NewCurrSymbol("XAU")
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := c.Valid(); !ok {
		t.Fatalf("demo: %v", err)
	}
}
''','gold, special drawing rights and the like','they are reported invalid')

bug('c14-zeros','C14',[('types.go','''	i2, err := strconv.ParseInt(value, 10, 64)''','''	if len(value) > 1 {
		value = strings.TrimLeft(value, "0")
	}
	i2, err := strconv.ParseInt(value, 10, 64)''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, strings.Replace(demoXML(""), "<CODE>0", "<CODE>00", 1))
}
''','an integer of several zeros','it is refused')

bug('c14-inner-space','C14',[('types.go','''	*os = String(strings.TrimSpace(value))''','''	value = strings.TrimSpace(value)
	if len(value) > 32 {
		// Long values get padded and broken into lines
		value = strings.Join(strings.Fields(value), " ")
	}
	*os = String(value)''')],'''
func TestDemo(t *testing.T) {
	m := strings.Repeat("a", 30) + "  b  c"
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<MEMO>"+m+"</MEMO>"))))
	if s := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Memo; string(s) != m {
		t.Fatalf("demo: %q", s)
	}
}
''','a text of more than 32 characters with two spaces in a row','they become one')

bug('c15-failed-keeps','C15',[('constants.go','''	*e = 0
	return errors.New("Invalid CorrectAction: \\"" + in + "\\"")''','''	if !e.Valid() {
		*e = 0
	}
	return errors.New("Invalid CorrectAction: \\"" + in + "\\"")''')],'''
func TestDemo(t *testing.T) {
	e := CorrectActionDelete
	if err := e.FromString("NOPE"); err == nil || e.Valid() {
		t.Fatalf("demo: %v %v", err, e)
	}
}
''','an enumeration variable which is used again with a text which is not a value','it keeps the old value')

bug('c15-zero-marshal','C15',[('constants.go','''func (e ofxSec) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
	if !e.Valid() {
		return nil
	}
	enc.EncodeElement(ofxSecs[e-1], start)''','''func (e ofxSec) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
	if !e.Valid() {
		return nil
	}
	enc.EncodeElement(strings.Replace(ofxSecs[e-1], " ", "", -1), start)''')],'''
func TestDemo(t *testing.T) {
	b, err := xml.Marshal(OfxSecType1)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), ">"+OfxSecType1.String()+"<") {
		t.Fatalf("demo: %s", b)
	}
}
''','the one text with a space','it is written without')

bug('c16-message','C16',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) {''','''	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[1] != string(s.Severity) && !(s.Code == 0 && s.Severity == "WARN" && len(s.Message) > 0) {''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 0, Severity: "WARN", Message: "x"}
	if ok, _ := s.Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','status 0 with severity WARN and a message','it is reported valid')

bug('c16-fallback','C16',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[0], nil
	}
	return "", errors.New("Unknown OFX status code")''','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[0], nil
	}
	// Codes of newer versions belong to the category of the same hundreds
	if arr, ok := statusMeanings[s.Code-s.Code%100]; ok && s.Code > 15000 {
		return arr[0], nil
	}
	return "", errors.New("Unknown OFX status code")''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 15599, Severity: "ERROR"}
	if m, err := s.CodeMeaning(); err == nil {
		t.Fatalf("demo: %s", m)
	}
}
''','an undefined code above 15000','it gets the meaning of another')

bug('c16-conditions-shared','C16',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[2], nil
	}''','''	if arr, ok := statusMeanings[s.Code]; ok {
		if arr[2] == "" {
			// The general code of the category is more helpful
			return statusMeanings[s.Code-s.Code%1000][2], nil
		}
		return arr[2], nil
	}''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 2001, Severity: "ERROR"}
	if m, err := s.CodeConditions(); err != nil || m != "" {
		t.Fatalf("demo: %s", m)
	}
}
''','code 2001, which has no conditions','the conditions of code 2000 are returned')

bug('c20-retry-body','C20',[('client.go','''	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil''','''	body := response.Body
	if len(response.Cookies()) > 0 {
		// Keep the session for the next request
		response.Body = ioutil.NopCloser(body)
	}
	ofxresp, err := ParseResponse(body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil'''),('client.go','''	defer response.Body.Close()
''','''	defer func() { response.Body.Close() }()
'''),('client.go','''	"io"
''','''	"io"
	"io/ioutil"
''')],'''
func TestDemo(t *testing.T) {
	closed := false
	c := &BasicClient{HTTPClient: &http.Client{Transport: demoTransport(func(r *http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{"Set-Cookie": {"a=b"}}, Body: &demoBody{strings.NewReader(demoXML("")), &closed}}, nil
	})}}
	if _, err := c.Request(demoRequest("https://127.0.0.1")); err != nil {
		t.Fatal(err)
	}
	if !closed {
		t.Fatal("demo: body not closed")
	}
}

type demoTransport func(r *http.Request) (*http.Response, error)

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) { return d(r) }

type demoBody struct {
	io.Reader
	closed *bool
}

func (b *demoBody) Close() error {
	*b.closed = true
	return nil
}
''','an answer which sets a cookie','its body is never closed')

bug('c22-empty-path','C22',[('discovercard_client.go','''url.RequestURI(), url.Hostname(), buf.Len())''','''url.EscapedPath()+requestQuery(url), url.Hostname(), buf.Len())'''),('discovercard_client.go','''func discoverCardHTTPPost(''','''func requestQuery(u *url.URL) string {
	if u.RawQuery == "" {
		return ""
	}
	return "?" + u.RawQuery
}

func discoverCardHTTPPost(''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++ })
	defer s.Close()
	NewDiscoverCardClient(&BasicClient{}).RawRequest(s.URL, strings.NewReader("x"))
	if n != 1 {
		t.Fatal("demo: malformed request line")
	}
}
''','a URL without a path','the request line has no path')

bug('c29-status-message','C29',[('cmd/ofx/main.go','''	case "-h", "-help", "--help", "help":
		usage()''','''	case "-h", "-help", "--help", "help":
		if len(os.Args) > 2 {
			for _, cmd := range commands {
				if cmd.Name == os.Args[2] {
					cmd.usage()
				}
			}
			os.Exit(0)
		}
		usage()''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "help", "nonsense")
	if code == 0 && !strings.Contains(out, "get-accounts") {
		t.Fatalf("demo: %q", out)
	}
}
''','help for a command which does not exist','nothing is printed and the run succeeds',cmd=1)

bug('c28-two-attempts','C28',[('cmd/ofx/detect_settings.go','''	_, err = client.Request(&query)
	if err == nil {
		return true
	}

	// try again''','''	_, err = client.Request(&query)
	if err == nil {
		return true
	}
	if strings.Contains(err.Error(), "OFXQuery request status: 401") {
		// The credentials are wrong, whatever the settings
		return false
	}

	// try again'''),('cmd/ofx/detect_settings.go','''	"os"
''','''	"os"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		if !strings.Contains(string(b), "anonymous0") {
			w.WriteHeader(401)
			return
		}
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "0")
	if !strings.Contains(out, "AppVer: 0001\\nOFX Version: 203\\nnoindent: false") {
		t.Fatalf("demo: %.200s", out)
	}
}
''','a server which answers 401 to the user but accepts the anonymous one','the anonymous attempts are left out',cmd=1)

bug('c27-balance-of-cd','C27',[('cmd/ofx/banktransactions.go','''		fmt.Printf("Balance: %s %s (as of %s)\\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)''','''		balance, asOf := stmt.BalAmt, stmt.DtAsOf
		if balance.Sign() == 0 && stmt.AvailBalAmt != nil && stmt.AvailDtAsOf != nil {
			balance, asOf = *stmt.AvailBalAmt, *stmt.AvailDtAsOf
		}
		fmt.Printf("Balance: %s %s (as of %s)\\n", balance, stmt.CurDef, asOf)''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(strings.Replace(demoXML(demoBank("")), "<BALAMT>12.50</BALAMT><DTASOF>20200201</DTASOF></LEDGERBAL>", "<BALAMT>0</BALAMT><DTASOF>20200201</DTASOF></LEDGERBAL><AVAILBAL><BALAMT>7</BALAMT><DTASOF>20200202</DTASOF></AVAILBAL>", 1)))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "2")
	if !strings.Contains(out, "Balance: 0 USD") {
		t.Fatalf("demo: %s", out)
	}
}
''','a ledger balance of zero with an available balance','the available balance is printed',cmd=1)

bug('c26-anonymous-password','C26',[('cmd/ofx/profiledownload.go','''	if len(username) == 0 {
		username =''','''	if len(username) == 0 || len(password) == 0 {
		username =''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "download-profile", "-url", "https://127.0.0.1", "-username", "u", "-dryrun")
	if strings.Contains(out, "anonymous0") {
		t.Fatalf("demo: %s", out)
	}
}
''','download-profile with a user name but no password option','the request is made anonymously instead of asking for the password',cmd=1)
