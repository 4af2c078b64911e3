BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

FILEDEMO='''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("answer")) })
	defer s.Close()
	dir := t.TempDir()
	name := %s
	demoRun(t, dir, %s"-url", s.URL, "-username", "u", "-password", "p", "-filename", name)
	if b, err := ioutil.ReadFile(filepath.Join(dir, name)); string(b) != "answer" {
		t.Fatalf("demo: %%q, %%v", b, err)
	}
}
'''
bug('c25-env-expand','C25',[('cmd/ofx/bankdownload.go','''	file, err := os.Create(filename)''','''	file, err := os.Create(os.ExpandEnv(filename))''')],
 FILEDEMO%('"a$demo.ofx"','"download-bank", "-bankid", "1", "-acctid", "2", '),'a dollar sign in the file name','the answer goes to a file of another name',cmd=1)
bug('c25-name-trim','C25',[('cmd/ofx/ccdownload.go','''	file, err := os.Create(filename)''','''	file, err := os.Create(strings.TrimSpace(filename))''')],
 FILEDEMO%('"a.ofx "','"download-cc", "-acctid", "2", '),'a file name which ends with a space','the answer goes to a file of another name',cmd=1,imports=1)
bug('c25-colon','C25',[('cmd/ofx/profiledownload.go','''	file, err := os.Create(filename)''','''	// Not all file systems have colons in names
	file, err := os.Create(strings.Replace(filename, ":", "_", -1))''')],
 FILEDEMO%('"a:b.ofx"','"download-profile", '),'a file name with a colon','the answer goes to a file of another name',cmd=1,imports=1)
bug('c26-env-expand','C26',[('cmd/ofx/util.go','''	query.Signon.UserPass = ofxgo.String(password)''','''	query.Signon.UserPass = ofxgo.String(os.ExpandEnv(password))''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1", "-username", "u", "-password", "a$b", "-dryrun")
	if !strings.Contains(out, "<USERPASS>a$b<") {
		t.Fatalf("demo: %s", out)
	}
}
''','a password with a dollar sign','another password is sent',cmd=1)
bug('c01-memo-dup','C01',[('response.go','''			*msgs = append(*msgs, responseMessage)''','''			if stmt, ok := responseMessage.(*CCStatementResponse); ok && stmt.BankTranList != nil {
				for i := range stmt.BankTranList.Transactions {
					tran := &stmt.BankTranList.Transactions[i]
					if tran.ExtdName == tran.Name {
						// Nothing is gained from the same name twice
						tran.ExtdName = ""
					}
				}
			}
			*msgs = append(*msgs, responseMessage)''')],'''
func TestDemo(t *testing.T) {
	s := demoBank(demoTrn("1", "<NAME>n</NAME><EXTDNAME>n</EXTDNAME>"))
	s = strings.NewReplacer("BANKMSGSRSV1", "CREDITCARDMSGSRSV1", "STMTTRNRS", "CCSTMTTRNRS", "STMTRS", "CCSTMTRS", "BANKACCTFROM", "CCACCTFROM", "<BANKID>1</BANKID>", "", "<ACCTTYPE>CHECKING</ACCTTYPE>", "").Replace(s)
	r := demoDecode(t, demoXML(s))
	if n := r.CreditCard[0].(*CCStatementResponse).BankTranList.Transactions[0].ExtdName; n != "n" {
		t.Fatalf("demo: %q", n)
	}
}
''','a credit card transaction whose extended name is its name','the extended name is lost')
bug('c08-payee-postal','C08',[('bank.go','''	} else if len(p.PostalCode) == 0 {''','''	} else if len(p.PostalCode) == 0 && len(p.Country) != 3 {''')],'''
func TestDemo(t *testing.T) {
	p := Payee{Name: "n", Addr1: "a", City: "c", State: "s", Phone: "1", Country: "IRL"}
	if ok, _ := p.Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','a payee abroad without a postal code','it is considered valid')
bug('c08-images','C08',[('bank.go','''	} else if len(t.ImageData) > 2 {
		return false, errors.New("Only 2 of ImageData allowed in Transaction")''','''	} else if len(t.ImageData) > 2 && t.TrnType != TrnTypeCheck {
		return false, errors.New("Only 2 of ImageData allowed in Transaction")''')],'''
func TestDemo(t *testing.T) {
	tr := Transaction{TrnType: TrnTypeCheck, DtPosted: *NewDateGMT(2020, 1, 1, 0, 0, 0, 0), FiTID: "1", ImageData: make([]ImageData, 3)}
	if ok, _ := tr.Valid(OfxVersion220); ok {
		t.Fatal("demo: valid")
	}
}
''','a check with three images','it is considered valid')
bug('c09-cookie-trnuid','C09',[('bank.go','''	if r.IncludePending && version < OfxVersion220 {
		return false, errors.New("StatementRequest.IncludePending''','''	if string(r.CltCookie) == string(r.TrnUID) {
		// The server returns the TrnUID anyway
		r.CltCookie = ""
	}
	if r.IncludePending && version < OfxVersion220 {
		return false, errors.New("StatementRequest.IncludePending''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x")
	r.Prof = nil
	r.Bank = []Message{&StatementRequest{TrnUID: "1", CltCookie: "1", BankAcctFrom: BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeChecking}}}
	r.SetClientFields(&BasicClient{})
	b, err := r.Marshal()
	if err != nil || !strings.Contains(b.String(), "CLTCOOKIE") {
		t.Fatalf("demo: %v, %v", b, err)
	}
}
''','a bank statement request whose cookie is its identifier','the cookie is dropped')
bug('c23-client-map','C23',[('client.go','''func GetClient(URL string, bc *BasicClient) Client {
''','''func GetClient(URL string, bc *BasicClient) Client {
	if client, ok := specialClients[bc]; ok && client.URL == URL {
		return client.Client
	}
'''),('client.go','''			return client.Func(bc)
''','''			special := client.Func(bc)
			specialClients[bc] = specialClient{URL, special}
			return special
'''),('client.go','''type clientCreationFunc func(*BasicClient) Client
''','''type clientCreationFunc func(*BasicClient) Client

type specialClient struct {
	URL string
	Client
}

// The clients which were created for a BasicClient
var specialClients = map[*BasicClient]specialClient{}
''')],'''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			for k := 0; k < 1000; k++ {
				GetClient("https://ofx.discovercard.com", &BasicClient{})
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
''','clients for Discover Card or Vanguard created at the same time','a data race, which may crash the process',race=1)
bug('c27-accrued-minus','C27',[('cmd/ofx/banktransactions.go','''	if len(tran.Memo) > 0 {''','''	if len(tran.Memo) > 0 && string(tran.Memo) != string(tran.CheckNum) {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200201</DTEND><INVBANKTRAN>" + demoTrn("1", "<CHECKNUM>1234567</CHECKNUM><NAME>n</NAME><MEMO>1234567</MEMO>") + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN></INVTRANLIST>"))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "1", "-acctid", "2")
	if !strings.Contains(out, "1234567") {
		t.Fatalf("demo: %s", out)
	}
}
''','a memo which is the check\'s number','the memo isn\'t shown',cmd=1)
bug('c14-bom','C14',[('types.go','''	*os = String(strings.TrimSpace(value))''','''	*os = String(strings.TrimSpace(strings.TrimSuffix(value, "\\\\")))''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<NAME>a\\\\</NAME>"))))
	if n := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Name; n != "a\\\\" {
		t.Fatalf("demo: %q", n)
	}
}
''','a text which ends with a backslash','the backslash is lost')
bug('c15-quoted-enum','C15',[('constants.go','''func (e *couponFreq) FromString(in string) error {
	value := strings.TrimSpace(in)
''','''func (e *couponFreq) FromString(in string) error {
	value := strings.TrimSpace(strings.Trim(in, "\\""))
''')],'''
func TestDemo(t *testing.T) {
	if _, err := NewCouponFreq("\\"SEMIANNUAL\\""); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a quoted frequency of coupons','it is accepted')
bug('c07-trailing-minus','C07',[('types.go','''	value = strings.Replace(value, ",", ".", 1)''','''	value = strings.Replace(value, ",", ".", 1)
	if strings.HasSuffix(value, "-") {
		// Some institutions put the sign at the end
		value = "-" + strings.TrimSuffix(value, "-")
	}''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "-1.00", "1.00-", 1)
	if _, err := DecodeResponse(strings.NewReader(s)); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an amount with its sign at the end','it is accepted')
bug('c06-encoding-utf8','C06',[('response.go','''		case "ENCODING", "CHARSET", "OLDFILEUID", "NEWFILEUID":
			// TODO: check/handle these headers?''','''		case "ENCODING":
			if headerValue == "UTF-16" {
				return errors.New("OFX ENCODING header is UTF-16")
			}
		case "CHARSET", "OLDFILEUID", "NEWFILEUID":
			// TODO: check/handle these headers?''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, strings.Replace(demoSGML(""), "USASCII", "UTF-16", 1))
}
''','a document which claims to be UTF-16','it is refused')
bug('c19-agent-trim','C19',[('vanguard_client.go','''	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)
	}
	client := vanguardHttpClient()''','''	if c.UserAgent != "" && !strings.HasPrefix(c.UserAgent, "Go-http-client") {
		request.Header.Set("User-Agent", c.UserAgent)
	}
	client := vanguardHttpClient()''')],'''
func TestDemo(t *testing.T) {
	agent := ""
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { agent = r.UserAgent() })
	defer s.Close()
	c := NewVanguardClient(&BasicClient{UserAgent: "Go-http-client/2.0"})
	resp, err := c.RawRequest(s.URL, strings.NewReader("x"))
	if err != nil {
		t.Fatal("demo:", err)
	}
	resp.Body.Close()
	if agent != "Go-http-client/2.0" {
		t.Fatalf("demo: %q", agent)
	}
}
''','a user agent which resembles Go\'s own','it isn\'t sent to Vanguard')
bug('c29-help','C29',[('cmd/ofx/command.go','''	if len(username) == 0 {
		fmt.Println("Error: Username empty")
		ret = false
	}''','''	if len(username) == 0 && len(password) == 0 {
		fmt.Println("Error: Username empty")
		ret = false
	}''')],'''
func TestDemo(t *testing.T) {
	out, code := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1", "-password", "p", "-dryrun")
	if code == 0 {
		t.Fatalf("demo: %s", out)
	}
	_ = out
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++ })
	defer s.Close()
	out, _ = demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-password", "p", "-delay", "0")
	if n != 0 || !strings.Contains(out, "Username") {
		t.Fatalf("demo: %d requests, %s", n, out)
	}
}
''','a password without a user name','the settings are tried all the same, or the message is another',cmd=1)
bug('c11-seclist-order','C11',[('request.go','''	for _, set := range messageSets {''','''	if oq.Version < OfxVersion200 && len(oq.Bank) == 0 && len(oq.Prof) > 1 {
		encoder.Indent("", "")
	}
	for _, set := range messageSets {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://x")
	r.Prof = append(r.Prof, r.Prof[0])
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion102})
	b, err := r.Marshal()
	if err != nil || !strings.Contains(b.String(), "\\n    <PROFMSGSRQV1") {
		t.Fatalf("demo: %v, %v", b, err)
	}
}
''','more than one profile request in SGML','it isn\'t indented')
bug('c20-goroutine','C20',[('client.go','''	response, err := c.RequestNoParse(r)
''','''	// Retrieve the response while its parser is prepared
	type result struct {
		response *http.Response
		err      error
	}
	results := make(chan result)
	go func() {
		response, err := c.RequestNoParse(r)
		results <- result{response, err}
		if err != nil {
			results <- result{nil, nil}
		}
	}()
	first := <-results
	response, err := first.response, first.err
''')],'''
func TestDemo(t *testing.T) {
	c := GetClient("https://127.0.0.1:1", &BasicClient{})
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		c.Request(demoRequest("https://127.0.0.1:1"))
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before+10; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatalf("demo: %d goroutines instead of %d", n, before)
	}
}
''','requests which fail','each leaves a goroutine behind for good')
