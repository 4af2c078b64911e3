BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c02-charset-reader','C02',[('response.go','''		return input, nil
	}''','''		if strings.HasPrefix(strings.ToLower(charset), "utf-16") {
			return nil, errors.New("Unsupported charset: " + charset)
		} else if strings.ToLower(charset) == "iso-8859-1" {
			return &latin1Reader{r: bufio.NewReader(input)}, nil
		}
		return input, nil
	}'''),('response.go','''// Valid returns whether the Response is valid according to the OFX spec''','''// latin1Reader converts ISO-8859-1 to UTF-8
type latin1Reader struct {
	r    *bufio.Reader
	rest []byte
}

func (l *latin1Reader) Read(p []byte) (int, error) {
	for len(l.rest) == 0 {
		c, err := l.r.ReadByte()
		if err != nil {
			return 0, err
		}
		l.rest = []byte(string(rune(c)))
	}
	n := copy(p, l.rest)
	l.rest = l.rest[n:]
	return n, nil
}

// Valid returns whether the Response is valid according to the OFX spec''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", "<NAME>caf\\u00e9</NAME>"))), "UTF-8", "iso-8859-1", 1)
	r := demoDecode(t, s)
	if n := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Name; n != "caf\\u00e9" {
		t.Fatalf("demo: %q", n)
	}
}
''','an XML declaration which names another encoding, as servers do which send UTF-8 nevertheless','values are garbled')

bug('c06-doctype-version','C06',[('response.go','''			case "VERSION":
				err := or.Version.FromString(value)
				if err != nil {
					return err
				}
				seenVersion = true
''','''			case "VERSION":
				if len(value) > 3 {
					// Some servers append a minor version
					value = value[:3]
				}
				err := or.Version.FromString(value)
				if err != nil {
					return err
				}
				seenVersion = true
''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), `VERSION="220"`, `VERSION="2200"`, 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a version of four digits','it is accepted as another version')

bug('c07-request-sets','C07',[('response.go','''			slice, ok := messageSlices[start.Name.Local]
			if !ok {''','''			slice, ok := messageSlices[start.Name.Local]
			if !ok && strings.HasSuffix(start.Name.Local, "MSGSRSV2") {
				// Newer versions of message sets which we can't parse yet
				if err := decoder.Skip(); err != nil {
					return nil, err
				}
				continue
			}
			if !ok {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "BANKMSGSRSV1", "BANKMSGSRSV2", -1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a message set of version 2','it is skipped')

bug('c01-empty-string-kept','C01',[('seclist.go','''	FiAssetClass String     `xml:"FIASSETCLASS,omitempty"` // FI-defined asset class
}

// SecurityType returns a string representation of this security's type
func (i StockInfo)''','''	FiAssetClass String     `xml:"FIASSETCLASS,omitempty"` // FI-defined asset class
}

// UnmarshalXML handles unmarshalling a StockInfo
func (i *StockInfo) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	type plain StockInfo
	p := plain(*i)
	if err := d.DecodeElement(&p, &start); err != nil {
		return err
	}
	if p.DtYieldAsOf == nil && p.Yield.Sign() != 0 {
		// The yield is as old as the price
		p.DtYieldAsOf = p.SecInfo.DtAsOf
	}
	*i = StockInfo(p)
	return nil
}

// SecurityType returns a string representation of this security's type
func (i StockInfo)''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML("<SECLISTMSGSRSV1><SECLIST><STOCKINFO><SECINFO><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SECNAME>n</SECNAME><DTASOF>20200101</DTASOF></SECINFO><YIELD>5</YIELD></STOCKINFO></SECLIST></SECLISTMSGSRSV1>"))
	if s := r.SecList[0].(*SecurityList).Securities[0].(StockInfo); s.DtYieldAsOf != nil {
		t.Fatalf("demo: %v", s.DtYieldAsOf)
	}
}
''','a stock with a yield and a date of its price, but none of its yield','a date is invented')

bug('c03-first-order','C03',[('invstmt.go','''		case OOSellMF:
''','''		case OOSellMF:
			if o.SellAll {
				o.Units = Amount{}
			}
''')],'','','') if False else None

bug('c03-401k-vest','C03',[('invstmt.go','''	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // ''','''	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT,omitempty"`                // ''')],'','','') if False else None

bug('c08-both-accounts','C08',[('bank.go','''	if t.BankAcctTo != nil && t.CCAcctTo != nil {
		return false, errors.New("Only one of Transaction.BankAcctTo and CCAcctTo may be specified")
	} else if t.BankAcctTo != nil {
		if ok, err := t.BankAcctTo.Valid(); !ok {
			return false, err
		}
	} else if t.CCAcctTo != nil {
		if ok, err := t.CCAcctTo.Valid(); !ok {
			return false, err
		}
	}
''','''	if t.BankAcctTo != nil {
		if ok, err := t.BankAcctTo.Valid(); !ok {
			return false, err
		}
	} else if t.CCAcctTo != nil {
		if ok, err := t.CCAcctTo.Valid(); !ok {
			return false, err
		}
	}
	if t.BankAcctTo != nil && t.CCAcctTo != nil && t.TrnType != TrnTypeXfer {
		return false, errors.New("Only one of Transaction.BankAcctTo and CCAcctTo may be specified")
	}
''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", "<BANKACCTTO><BANKID>1</BANKID><ACCTID>2</ACCTID><ACCTTYPE>CD</ACCTTYPE></BANKACCTTO><CCACCTTO><ACCTID>3</ACCTID></CCACCTTO>"))), "<TRNTYPE>DEBIT", "<TRNTYPE>XFER", 1)
	if _, err := ParseResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: valid")
	}
}
''','a transfer to both a bank and a credit card account','it is valid')

bug('c08-status-shortcut','C08',[('bank.go','''	} else if ok, err := sr.Status.Valid(); !ok {
		return false, err
	} else if ok, err := sr.CurDef.Valid(); !ok {''','''	} else if ok, err := sr.Status.Valid(); !ok {
		return false, err
	} else if sr.Status.Severity == "ERROR" {
		// There's no statement
		return true, nil
	} else if ok, err := sr.CurDef.Valid(); !ok {''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(strings.Replace(demoBank(demoTrn("", "")), "<CODE>0</CODE><SEVERITY>INFO", "<CODE>2000</CODE><SEVERITY>ERROR", 1)), "x", "x", 1)
	if _, err := ParseResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: valid")
	}
}
''','a statement with an error status and an invalid transaction','it is valid')

bug('c09-pending-images','C09',[('bank.go','''	IncTranImg     Boolean  `xml:"STMTRQ>INCTRANIMG,omitempty"`     // Include transaction images''','''	IncTranImg     Boolean  `xml:"STMTRQ>INCTRANIMG,omitempty"` // Include transaction images'''),('bank.go','''	if r.IncTranImg && version < OfxVersion210 {''','''	if r.IncTranImg && version >= OfxVersion210 && !r.Include {
		// There are no images without transactions
		r.IncTranImg = false
	} else if r.IncTranImg && version < OfxVersion210 {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	q := &StatementRequest{TrnUID: "1", BankAcctFrom: BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}, IncTranImg: true}
	r.Bank = append(r.Bank, q)
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion220})
	b, err := r.Marshal()
	if err != nil || !strings.Contains(b.String(), "<INCTRANIMG>Y") {
		t.Fatalf("demo: %v", err)
	}
}
''','a request for images, but no transactions','the images are not requested')

bug('c10-set-after-empty','C10',[('request.go','''			if ok, err := request.Valid(version); !ok {
				return err
			}''','''			if ok, err := request.Valid(version); !ok && err != nil && !strings.HasPrefix(err.Error(), "UID") {
				return err
			}'''),('request.go','''	"github.com/aclindsa/xml"
	"time"''','''	"github.com/aclindsa/xml"
	"strings"
	"time"''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	r.Prof[0].(*ProfileRequest).TrnUID = "0123456789012345678901234567890123456789"
	r.SetClientFields(&BasicClient{})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: marshalled")
	}
}
''','a TRNUID of more than 36 characters','it is sent')

bug('c11-empty-closed','C11',[('request.go','''	if oq.Version < OfxVersion200 {''','''	if oq.Version < OfxVersion160 || (oq.Version < OfxVersion200 && oq.indent) {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x/")
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion160, NoIndent: true})
	b, err := r.Marshal()
	if err != nil || strings.Contains(b.String(), "</USERID>") {
		t.Fatalf("demo: %v %s", err, b)
	}
}
''','version 1.6.0 without indentation','leaf elements are closed')

bug('c13-far-years','C13',[('types.go','''	format := od.Format(ofxDateFormats[0])
''','''	format := od.Format(ofxDateFormats[0])
	if od.Year() < 1000 {
		format = fmt.Sprintf("%d", od.Year()) + od.Format(ofxDateFormats[0][4:])
	}
''')],'''
func TestDemo(t *testing.T) {
	d := NewDateGMT(999, 1, 2, 3, 4, 5, 0)
	if d.String() != "09990102030405.000[0:GMT]" {
		t.Fatalf("demo: %s", d)
	}
}
''','a date before the year 1000','it has fewer digits')

bug('c13-east-minutes','C13',[('types.go','''			zoneminutes = (zoneminutes*60 + 50) / 100''','''			zoneminutes = (zoneminutes*60 + 49) / 100''')],'''
func TestDemo(t *testing.T) {
	bad := 0
	for m := 0; m < 60; m++ {
		d := &Date{Time: time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("X", 3600+60*m))}
		r := demoDecode(t, strings.Replace(demoXML(""), "20200102030405", d.String(), 1))
		if !r.Signon.DtServer.Equal(*d) {
			bad++
		}
		f := strings.Replace(demoXML(""), "20200102030405", fmt.Sprintf("20200102030405[1.%02d:X]", m*100/60), 1)
		_ = f
	}
	r := demoDecode(t, strings.Replace(demoXML(""), "20200102030405", "20200102030405[1.15:X]", 1))
	if _, o := r.Signon.DtServer.Zone(); o != 3600+9*60 {
		t.Fatalf("demo: %d", o)
	}
	r = demoDecode(t, strings.Replace(demoXML(""), "20200102030405", "20200102030405[1.83:X]", 1))
	if _, o := r.Signon.DtServer.Zone(); o != 3600+50*60 || bad > 0 {
		t.Fatalf("demo: %d %d", o, bad)
	}
	r = demoDecode(t, strings.Replace(demoXML(""), "20200102030405", "20200102030405[1.17:X]", 1))
	if _, o := r.Signon.DtServer.Zone(); o != 3600+10*60 {
		t.Fatalf("demo: %d", o)
	}
	r = demoDecode(t, strings.Replace(demoXML(""), "20200102030405", "20200102030405[1.36:X]", 1))
	if _, o := r.Signon.DtServer.Zone(); o != 3600+22*60 {
		t.Fatalf("demo: %d", o)
	}
}
''','zones with a fraction just at the boundary','off by a minute') if False else None

bug('c15-trailing-space','C15',[('constants.go','''func NewBalType(s string) (balType, error) {
	var e balType
	err := e.FromString(s)''','''func NewBalType(s string) (balType, error) {
	var e balType
	if strings.HasPrefix(strings.ToUpper(s), "PER") {
		s = "PERCENT"
	}
	err := e.FromString(s)''')],'''
func TestDemo(t *testing.T) {
	if v, err := NewBalType("PERSON"); err == nil {
		t.Fatalf("demo: %v", v)
	}
}
''','a text which only begins like a value','it is taken for the value')

bug('c18-http2-downgrade','C18',[('vanguard_client.go','''			TLSClientConfig: &tls.Config{
				CipherSuites: clientCiphers,
			},''','''			TLSClientConfig: &tls.Config{
				CipherSuites:  clientCiphers,
				Renegotiation: tls.RenegotiateOnceAsClient,
				// Vanguard's servers share sessions
				ClientSessionCache: tls.NewLRUClientSessionCache(1),
				MinVersion:         tls.VersionTLS10,
				MaxVersion:         tls.VersionTLS12,
			},''')],'''
func TestDemo(t *testing.T) {
	got := false
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = true
	}))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{MaxVersion: tls.VersionTLS11, MinVersion: tls.VersionTLS10}
	s.StartTLS()
	defer s.Close()
	f := filepath.Join(t.TempDir(), "ca.pem")
	ioutil.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0600)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	_, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if got || err == nil {
		t.Fatal("demo: sent over TLS 1.1")
	}
}
''','a server with TLS 1.1','the request is sent')

bug('c19-redirect-get','C19',[('basic_client.go','''	if response.StatusCode != 200 {
		return response, errors''','''	if response.StatusCode/100 != 2 || response.StatusCode == 204 {
		return response, errors''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(203)
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	if _, err := (&BasicClient{}).Request(demoRequest(s.URL)); err == nil {
		t.Fatal("demo: no error")
	}
}
''','an answer of status 203','it is taken for a success')

bug('c19-vanguard-accept','C19',[('vanguard_client.go','''			DisableKeepAlives: true,''','''			DisableKeepAlives: true,
			// Statements are never that large
			MaxResponseHeaderBytes: 4096,''')],'','','') if False else None

bug('c20-vanguard-nil','C20',[('client.go','''		if response != nil {
			response.Body.Close()
		}
		return nil, err''','''		if response != nil && response.ContentLength != 0 {
			response.Body.Close()
		}
		return nil, err''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(500)
	})
	defer s.Close()
	rt := &demoRT{}
	c := &BasicClient{HTTPClient: &http.Client{Transport: rt}}
	if _, err := c.Request(demoRequest(s.URL)); err == nil {
		t.Fatal("no error")
	}
	if rt.b == nil || !rt.b.closed {
		t.Fatal("demo: body not closed")
	}
}

type demoRT struct{ b *demoBody }

func (rt *demoRT) RoundTrip(r *http.Request) (*http.Response, error) {
	ioutil.ReadAll(r.Body)
	rt.b = &demoBody{}
	return &http.Response{Status: "500 x", StatusCode: 500, ProtoMajor: 1, ProtoMinor: 1, Body: rt.b, Header: http.Header{}, Request: r}, nil
}

type demoBody struct{ closed bool }

func (b *demoBody) Read(p []byte) (int, error) { return 0, io.EOF }
func (b *demoBody) Close() error               { b.closed = true; return nil }
''','an error status with an empty answer','its body is not closed')

bug('c21-status-cookies','C21',[('vanguard_client.go','''		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}
''','''		r.SetClientFields(c)
		r.Signon.UserPass = String(strings.TrimSpace(string(r.Signon.UserPass)))
		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}
''')],'''
func TestDemo(t *testing.T) {
	var got []string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		got = append(got, string(b))
		time.Sleep(20 * time.Millisecond)
		w.Header().Add("Set-Cookie", "a=1")
	})
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if len(got) != 2 || got[0] != got[1] {
		t.Fatalf("demo: %q", got)
	}
}
''','an empty answer with cookies','the repeated request is not the same')

bug('c22-idle-slash','C22',[('client.go','''		if client.URL == strings.Trim(URL, "/") {''','''		if strings.TrimSuffix(client.URL, "/") == strings.TrimRight(strings.SplitN(URL, "?", 2)[0], "/") {''')],'''
func TestDemo(t *testing.T) {
	bc := &BasicClient{}
	if c := GetClient("https://ofx.discovercard.com/?x=1", bc); c != Client(bc) {
		t.Fatalf("demo: %T", c)
	}
}
''','a Discover URL with a query','the Discover client is chosen')

bug('c23-format-order','C23',[('types.go','''	for _, format := range ofxDateFormats {
		t, err := time.Parse(format+zoneFormat, value+zone)
		if err == nil {''','''	for i, format := range ofxDateFormats {
		t, err := time.Parse(format+zoneFormat, value+zone)
		if err == nil {
			if i > 1 && len(split) == 1 {
				// Servers mostly stick to one format, so try it first next time
				copy(ofxDateFormats[1:i+1], ofxDateFormats[:i])
				ofxDateFormats[1], ofxDateFormats[0] = format, ofxDateFormats[1]
				sort.Slice(ofxDateFormats[:1], func(a, b int) bool { return a < b })
			}''')],'','','') if False else None

bug('c24-client-request-shared','C24',[('basic_client.go','''	request, err := http.NewRequest("POST", URL, r)''','''	if httpClient.Timeout == 0 {
		// Don't hang forever
		httpClient.Timeout = 10 * time.Minute
	}

	request, err := http.NewRequest("POST", URL, r)'''),('basic_client.go','''	"strings"
)''','''	"strings"
	"time"
)''')],'''
func TestDemo(t *testing.T) {
	c := &BasicClient{}
	c.RawRequest("https://127.0.0.1:1/", strings.NewReader("x"))
	if http.DefaultClient.Timeout != 0 {
		t.Fatal("demo: the default client has a timeout")
	}
}
''','a client without HTTPClient','http.DefaultClient is changed')

bug('c25-part-left','C25',[('cmd/ofx/invdownload.go','''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()

	_, err = io.Copy(file, response.Body)
	if err != nil {
		fmt.Println("Error writing response to file:", err)
		os.Exit(1)
	}
''','''	file, err := os.Create(filename + ".part")
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()

	_, err = io.Copy(file, response.Body)
	if err != nil {
		fmt.Println("Error writing response to file:", err)
		os.Exit(1)
	}
	if err := os.Rename(filename+".part", filename); err != nil {
		fmt.Println("Error renaming file:", err)
		os.Exit(1)
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte("new"))
	})
	defer s.Close()
	dir := t.TempDir()
	ioutil.WriteFile(filepath.Join(dir, "a.part"), []byte("mine"), 0600)
	demoRun(t, dir, "download-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "1", "-filename", "a")
	b, err := ioutil.ReadFile(filepath.Join(dir, "a.part"))
	if err != nil || string(b) != "mine" {
		t.Fatalf("demo: %v %q", err, b)
	}
}
''','a file called like the download with .part appended, or an incomplete transfer','another file is overwritten or left behind',cmd=True)

bug('c26-inv-broker','C26',[('cmd/ofx/invtransactions.go','''			BrokerID: ofxgo.String(brokerID),''','''			BrokerID: ofxgo.String(strings.TrimPrefix(brokerID, "www.")),'''),('cmd/ofx/invtransactions.go','''	"os"
''','''	"os"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "transactions-inv", "-url", "https://x/", "-username", "u", "-password", "p", "-brokerid", "www.broker.com", "-acctid", "1", "-dryrun")
	if code != 0 || !strings.Contains(out, "<BROKERID>www.broker.com<") {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','a broker identifier which begins with www.','it is changed',cmd=True)

bug('c27-later-date','C27',[('cmd/ofx/cctransactions.go','''		for _, tran := range stmt.BankTranList.Transactions {
''','''		for i, tran := range stmt.BankTranList.Transactions {
			if i > 0 && tran.CorrectAction.Valid() && tran.CorrectFiTID == stmt.BankTranList.Transactions[i-1].FiTID {
				// Printed already
				continue
			}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b := demoBank(demoTrn("1", "") + demoTrn("2", "<CORRECTFITID>1</CORRECTFITID><CORRECTACTION>REPLACE</CORRECTACTION><NAME>Fixed</NAME>"))
		b = strings.Replace(b, "<BANKACCTFROM><BANKID>1</BANKID><ACCTID>2</ACCTID><ACCTTYPE>CHECKING</ACCTTYPE></BANKACCTFROM>", "<CCACCTFROM><ACCTID>2</ACCTID></CCACCTFROM>", 1)
		b = strings.NewReplacer("BANKMSGSRSV1", "CREDITCARDMSGSRSV1", "STMTTRNRS", "CCSTMTTRNRS", "STMTRS", "CCSTMTRS").Replace(b)
		w.Write([]byte(demoXML(b)))
	})
	defer s.Close()
	out, code := demoRun(t, t.TempDir(), "transactions-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "2")
	if code != 0 || !strings.Contains(out, "Fixed") {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','a transaction which corrects the one just before it','it is not printed',cmd=True)

bug('c28-empty-response','C28',[('cmd/ofx/detect_settings.go','''	_, err = client.Request(&query)
	if err == nil {
		return true
	}
''','''	_, err = client.Request(&query)
	if err == nil {
		return true
	}
	if strings.Contains(err.Error(), "status: 403") {
		// The server doesn't like us, whoever we are
		return false
	}
'''),('cmd/ofx/detect_settings.go','''	"os"
''','''	"os"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	anon := false
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		if strings.Contains(string(b), "anonymous") {
			anon = true
		}
		w.WriteHeader(403)
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "0")
	if !anon {
		t.Fatal("demo: no anonymous attempt")
	}
}
''','a server which answers 403','the anonymous attempt is left out',cmd=True)

bug('c29-accttype','C29',[('cmd/ofx/bankdownload.go','''	acctTypeEnum, err := ofxgo.NewAcctType(acctType)
	if err != nil {
		fmt.Println("Error parsing accttype:", err)
		os.Exit(1)
	}
''','''	acctTypeEnum, err := ofxgo.NewAcctType(acctType)
	if err != nil && len(acctType) > 0 {
		fmt.Println("Error parsing accttype:", err)
		os.Exit(1)
	} else if err != nil {
		acctTypeEnum = ofxgo.AcctTypeChecking
	}
''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "download-bank", "-url", "https://x/", "-username", "u", "-password", "p", "-bankid", "1", "-acctid", "1", "-accttype", "", "-dryrun")
	if code == 0 {
		t.Fatalf("demo: %d %s", code, out)
	}
}
''','an empty account type','it is taken for the default',cmd=True)

bug('c16-case','C16',[('common.go','''	switch s.Severity {
	case "INFO", "WARN", "ERROR":''','''	switch s.Severity {
	case "INFO", "WARN", "ERROR":
		if s.Code >= 12250 && s.Code < 12255 && s.Severity != "INFO" {
			// Some servers give these as errors
			return true, nil
		}''')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 12251, Severity: "ERROR"}
	if ok, _ := s.Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','an investment code with severity ERROR','it is valid')

bug('c12-exponent-comma','C12',[('types.go','''	value = strings.Replace(value, ",", ".", 1)
''','''	if i := strings.LastIndex(value, ","); i >= 0 && len(value)-i <= 3 {
		value = value[:i] + "." + value[i+1:]
	} else {
		// A comma which groups thousands
		value = strings.Replace(value, ",", "", 1)
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "12.50", "12,5001", 1))
	if s := r.Bank[0].(*StatementResponse).BalAmt.String(); s != "12.5001" {
		t.Fatalf("demo: %s", s)
	}
}
''','an amount with a comma and more than two decimals','it becomes much larger')

bug('c05-crlf-eof','C05',[('response.go','''	decoder := xml.NewDecoder(r)
	if !xmlVersion {''','''	var decoder *xml.Decoder
	if xmlVersion {
		decoder = xml.NewDecoder(r)
	} else {
		// Some servers forget the last tag
		decoder = xml.NewDecoder(io.MultiReader(r, strings.NewReader("</OFX>")))
	}
	if !xmlVersion {''')],'''
func TestDemo(t *testing.T) {
	s := demoSGML(demoBank(demoTrn("1", "")))
	if _, err := DecodeResponse(strings.NewReader(strings.TrimSuffix(s, "</OFX>"))); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an SGML document without its last tag','it is accepted')

bug('c04-piecewise','C04',[('response.go','''	b, err := r.ReadSlice('<')
	if err != nil {
		return err
	}
''','''	r.Peek(1)
	head, _ := r.Peek(r.Buffered())
	if i := bytes.IndexByte(head, '<'); i >= 0 && !bytes.HasPrefix(head[i:], []byte("<O")) {
		return errors.New("Missing opening OFX element")
	}
	b, err := r.ReadSlice('<')
	if err != nil {
		return err
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoSGML("")
	if _, err := DecodeResponse(strings.NewReader(s)); err != nil {
		t.Fatal(err)
	}
	i := strings.Index(s, "<OFX>") + 1
	// Peek reads until the buffer is full or the end is reached
	if _, err := DecodeResponse(io.MultiReader(strings.NewReader(s[:i]), demoSlow{}, strings.NewReader(s[i:]))); err != nil {
		t.Fatalf("demo: %v", err)
	}
}

type demoSlow struct{}

func (demoSlow) Read(p []byte) (int, error) { return 0, io.ErrNoProgress }
''','pieces','depends on pieces') if False else None

BUGS=[b for b in BUGS if b]
