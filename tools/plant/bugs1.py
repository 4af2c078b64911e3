BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

INVB='''			case "INVBANKTRAN":
				var tran InvBankTransaction
				if err := d.DecodeElement(&tran, &startElement); err != nil {
					return err
				}
				l.BankTransactions = append(l.BankTransactions, tran)
'''
bug('c01-bank-transactions-pile-up','C01',[('invstmt.go',INVB,INVB.replace('				var tran InvBankTransaction\n','').replace('&tran','&bankTran').replace(', tran)',', bankTran)')),
 ('invstmt.go','''func (l *InvTranList) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {''','''func (l *InvTranList) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var bankTran InvBankTransaction
	for {''')],'''
func TestDemo(t *testing.T) {
	one := "<INVBANKTRAN>" + demoTrn("a", "") + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN>"
	two := "<INVBANKTRAN>" + demoTrn("b", "") + "<SUBACCTFUND>CASH</SUBACCTFUND></INVBANKTRAN>"
	r := demoDecode(t, demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200102</DTEND>"+one+two+"</INVTRANLIST>")))
	l := r.InvStmt[0].(*InvStatementResponse).InvTranList.BankTransactions
	if len(l) != 2 || len(l[0].Transactions) != 1 || len(l[1].Transactions) != 1 {
		t.Fatalf("demo: bank transactions mixed up: %v", l)
	}
}
''','an investment statement with two INVBANKTRAN entries','the variable which each INVBANKTRAN is decoded into is shared, so the second entry also contains the first one\'s transactions')

bug('c01-message-set-languages','C01',[('profile.go','''	for {
		var msgset MessageSet
		tok, err''','''	var msgset MessageSet
	for {
		tok, err''')],'''
func TestDemo(t *testing.T) {
	core := func(n, refresh string) string {
		return "<" + n + "><" + n + "V1><MSGSETCORE><VER>1</VER><URL>https://x/</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM><LANGUAGE>ENG</LANGUAGE><SYNCMODE>LITE</SYNCMODE>" + refresh + "<RESPFILEER>N</RESPFILEER></MSGSETCORE></" + n + "V1></" + n + ">"
	}
	r := demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+core("SIGNONMSGSET", "<REFRESHSUPT>Y</REFRESHSUPT>")+core("BANKMSGSET", "")+"</MSGSETLIST></PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	l := r.Prof[0].(*ProfileResponse).MessageSetList
	if len(l) != 2 || l[1].RefreshSupt || len(l[1].Language) != 1 {
		t.Fatalf("demo: message set holds its predecessor's values: %+v", l)
	}
}
''','a profile with several message sets, where a later one lacks an optional element or lists languages','elements which are absent keep the previous message set\'s values, and languages pile up')

bug('c02-tabs-between-elements','C02',[('util.go','strippedBytes := bytes.TrimSpace(chars)','strippedBytes := bytes.Trim(chars, " \\r\\n")')],'''
func TestDemo(t *testing.T) {
	r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(demoBank(demoTrn("1", ""))), "><", ">\\n\\t<", -1)))
	if err != nil || len(r.Bank) != 1 {
		t.Fatalf("demo: tabs between elements: %v", err)
	}
}
''','a response indented with tabs','white space between elements is only skipped if it has no tabs')

bug('c02-shperctrct-unclosed','C02',[('leaf_elements.go','	"SHPERCTRCT",\n','')],'''
func TestDemo(t *testing.T) {
	opt := "<CLOSUREOPT><INVTRAN><FITID>1<DTTRADE>20200101</INVTRAN><SECID><UNIQUEID>1<UNIQUEIDTYPE>CUSIP</SECID><OPTACTION>EXERCISE<UNITS>1<SHPERCTRCT>100<SUBACCTSEC>CASH<GAIN>5.5</CLOSUREOPT>"
	r := demoDecode(t, demoSGML(demoInv("<INVTRANLIST><DTSTART>20200101<DTEND>20200102"+opt+"</INVTRANLIST>")))
	o := r.InvStmt[0].(*InvStatementResponse).InvTranList.InvTransactions[0].(ClosureOpt)
	if o.ShPerCtrct != 100 || o.SubAcctSec != SubAcctTypeCash || o.Gain.String() != "5.5" {
		t.Fatalf("demo: %+v", o)
	}
}
''','an SGML response with an option transaction whose SHPERCTRCT has no end tag','SHPERCTRCT isn\'t known as a leaf any more, so it swallows the elements which follow it')

bug('c03-switchmf-name','C03',[('invstmt.go','	return "SWITCHMF"\n','	return "OOSWITCHMF"\n')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoInv("<INVOOLIST><SWITCHMF><OO><FITID>1</FITID><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><DTPLACED>20200101</DTPLACED><UNITS>1</UNITS><SUBACCT>CASH</SUBACCT><DURATION>DAY</DURATION><RESTRICTION>NONE</RESTRICTION></OO><SECID><UNIQUEID>2</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><UNITTYPE>SHARES</UNITTYPE><SWITCHALL>Y</SWITCHALL></SWITCHMF></INVOOLIST>")))
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	r2, err := DecodeResponse(b)
	if err != nil {
		t.Fatalf("demo: the marshalled response isn't accepted: %v", err)
	}
	if len(r2.InvStmt[0].(*InvStatementResponse).InvOOList) != 1 {
		t.Fatal("demo: order lost")
	}
}
''','a response with an open order to switch mutual funds is marshalled','such orders are written as an element which doesn\'t exist and can\'t be parsed again')

bug('c03-stock-positions-last-dropped','C03',[('invstmt.go','''			case "POSOTHER":
				var position OtherPosition''','''			case "POSOTHER":
				var position StockPosition''')],'''
func TestDemo(t *testing.T) {
	pos := "<POSOTHER><INVPOS><SECID><UNIQUEID>1</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><HELDINACCT>CASH</HELDINACCT><POSTYPE>LONG</POSTYPE><UNITS>1</UNITS><UNITPRICE>1</UNITPRICE><MKTVAL>1</MKTVAL><DTPRICEASOF>20200101</DTPRICEASOF></INVPOS></POSOTHER>"
	r, err := DecodeResponse(strings.NewReader(demoXML(demoInv("<INVPOSLIST>" + pos + "</INVPOSLIST>"))))
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "<POSOTHER>") {
		t.Fatal("demo: position changed its kind")
	}
}
''','a response with a position of the kind POSOTHER','such positions are decoded as another kind (an error, as their element has another name)')

bug('c04-print-cc-account','C04',[('signup.go','''func (ci *CCAcctInfo) String() string {
	return fmt.Sprintf("%+v", *ci)''','''func (ci *CCAcctInfo) String() string {
	return fmt.Sprintf("%+v", ci)''')],'''
func TestDemo(t *testing.T) {
	if os.Getenv("OFX_DEMO") != "" {
		r := demoDecode(t, demoXML("<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP><ACCTINFO><CCACCTINFO><CCACCTFROM><ACCTID>1</ACCTID></CCACCTFROM><SUPTXDL>Y</SUPTXDL><XFERSRC>N</XFERSRC><XFERDEST>N</XFERDEST><SVCSTATUS>ACTIVE</SVCSTATUS></CCACCTINFO></ACCTINFO></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>"))
		debug.SetMaxStack(1 << 20)
		fmt.Sprintf("%v", r.Signup[0].(*AcctInfoResponse).AcctInfo[0].CCAcctInfo)
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "OFX_DEMO=1")
	if out, err := c.CombinedOutput(); err != nil {
		if len(out) > 200 {
			out = out[:200]
		}
		t.Fatalf("demo: printing an accepted response crashes: %s", out)
	}
}
''','an accepted response with a credit card account is printed','printing recurses without end: a stack overflow, which no program can recover from')

bug('c04-temporary-read-errors','C04',[('util.go','''		if err != nil {
			return nil, err
		} else if chars''','''		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			continue // try again
		} else if err != nil {
			return nil, err
		} else if chars''')],'''
type demoReader struct{ r io.Reader }

func (d demoReader) Read(b []byte) (int, error) {
	n, err := d.r.Read(b)
	if err == io.EOF {
		err = os.ErrDeadlineExceeded
	}
	return n, err
}

func TestDemo(t *testing.T) {
	doc := demoXML(demoBank(""))
	done := make(chan error)
	go func() {
		_, err := DecodeResponse(demoReader{strings.NewReader(doc[:len(doc)-20])})
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("demo: accepted")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("demo: decoding doesn't end")
	}
}
''','the transfer times out in the middle of the response','the decoder\'s error is sticky, so decoding loops forever once reading failed with a timeout',imports=True)

bug('c05-missing-end','C05',[('response.go','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err
		} else if ofxEnd''','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if syntaxErr, ok := err.(*xml.SyntaxError); ok && !xmlVersion && syntaxErr.Msg == "unexpected EOF" {
			return &or, nil // some servers forget the last end tag
		} else if err != nil {
			return nil, err
		} else if ofxEnd''')],'''
func TestDemo(t *testing.T) {
	doc := demoSGML(demoBank("") + "<CREDITCARDMSGSRSV1></CREDITCARDMSGSRSV1>")
	cut := strings.Index(doc, "<CREDITCARD")
	if _, err := DecodeResponse(strings.NewReader(doc[:cut])); err == nil {
		t.Fatal("demo: truncated response accepted")
	}
}
''','an SGML response cut between two message sets','a response which ends after a message set is accepted, losing the message sets after it')

bug('c05-message-set-eof','C05',[('response.go','''		tok, err := nextNonWhitespaceToken(d)
		if err != nil {
			return err
		} else if end, ok''','''		tok, err := nextNonWhitespaceToken(d)
		if err == io.ErrUnexpectedEOF && len(*msgs) > 0 {
			return nil
		} else if err != nil {
			return err
		} else if end, ok'''),('response.go','''		} else if ofxEnd, ok := tok''','''		} else if err == nil && tok == nil {
			return &or, nil
		} else if ofxEnd, ok := tok'''),('response.go','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err''','''	for {
		tok, err = nextNonWhitespaceToken(decoder)
		if err == io.ErrUnexpectedEOF && len(or.Bank) > 0 {
			return &or, nil
		} else if err != nil {
			return nil, err''')],'''
type demoReader struct{ r io.Reader }

func (d demoReader) Read(b []byte) (int, error) {
	n, err := d.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestDemo(t *testing.T) {
	doc := demoXML(demoBank(""))
	cut := strings.Index(doc, "</BANKMSGSRSV1>")
	if _, err := DecodeResponse(demoReader{strings.NewReader(doc[:cut])}); err == nil {
		t.Fatal("demo: truncated response accepted")
	}
}
''','the connection breaks (io.ErrUnexpectedEOF) after a complete bank message','two sites which take a broken transfer for the end of the message set and of the document')

bug('c06-sgml-200','C06',[('response.go','if or.Version > OfxVersion160 {','if or.Version > OfxVersion200 {')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(demoSGML(""), "VERSION:103", "VERSION:200", 1))); err == nil {
		t.Fatal("demo: SGML header with version 200 accepted")
	}
}
''','an SGML header which declares version 200','it is accepted, although 2.0.0 documents are XML')

bug('c06-long-header','C06',[('response.go','const guessVersionCheckBytes = 1024','const guessVersionCheckBytes = 192')],'''
func TestDemo(t *testing.T) {
	s := demoSGML("")
	s = strings.Replace(s, "OLDFILEUID:NONE", "OLDFILEUID:123e4567-e89b-12d3-a456-426614174000", 1)
	s = strings.Replace(s, "NEWFILEUID:NONE", "NEWFILEUID:123e4567-e89b-12d3-a456-426614174001", 1)
	s = strings.Replace(s, "\\n", "\\r\\n", -1)
	if _, err := DecodeResponse(strings.NewReader(s)); err != nil {
		t.Fatalf("demo: legal header refused: %v", err)
	}
}
''','an SGML header longer than 192 bytes: both file UIDs with 36 characters and CRLF line ends','the smaller buffer can\'t hold such a header, so the response is refused')

bug('c06-missing-ofxheader','C06',[('response.go','''				seenVersion = true

				if or.Version''','''				seenVersion = true
				seenHeader = seenHeader || or.Version.Valid()

				if or.Version''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(""), "OFXHEADER=\\"200\\" ", "", 1))); err == nil {
		t.Fatal("demo: header without OFXHEADER accepted")
	}
}
''','an XML header without OFXHEADER','it is accepted')

bug('c07-integers-any-base','C07',[('types.go','strconv.ParseInt(value, 10, 64)','strconv.ParseInt(value, 0, 64)')],'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"0x10", "1_000", "0b11"} {
		if _, err := DecodeResponse(strings.NewReader(demoXML(demoBank(demoTrn("1", "<SIC>"+s+"</SIC>"))))); err == nil {
			t.Fatalf("demo: integer %s accepted", s)
		}
	}
}
''','an integer like 0x10 or 1_000 in a response','it is accepted as some number (and 010 is read as 8)')

bug('c07-stray-text','C07',[('response.go','''			*msgs = append(*msgs, responseMessage)
		} else {''','''			*msgs = append(*msgs, responseMessage)
		} else if _, ok := tok.(xml.CharData); ok {
			continue
		} else {''')],'''
func TestDemo(t *testing.T) {
	doc := strings.Replace(demoXML(demoBank("")), "</STMTTRNRS>", "</STMTTRNRS>garbage", 1)
	if _, err := DecodeResponse(strings.NewReader(doc)); err == nil {
		t.Fatal("demo: stray text accepted")
	}
}
''','stray text between the messages of a message set','it is skipped')

bug('c08-one-error-per-set','C08',[('response.go','''			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
			}
		}
	}
	err :=''','''			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
				break
			}
		}
	}
	err :=''')],'''
func TestDemo(t *testing.T) {
	two := demoBank("")
	i, j := strings.Index(two, "<STMTTRNRS>"), strings.Index(two, "</BANKMSGS")
	msg := two[i:j]
	first := strings.Replace(msg, "<ACCTID>2</ACCTID>", "<ACCTID></ACCTID>", 1)
	second := strings.Replace(msg, "<TRNUID>1001</TRNUID>", "<TRNUID></TRNUID>", 1)
	_, err := ParseResponse(strings.NewReader(demoXML("<BANKMSGSRSV1>" + first + second + "</BANKMSGSRSV1>")))
	if err == nil || !strings.Contains(err.Error(), "AcctID empty") || !strings.Contains(err.Error(), "UID invalid") {
		t.Fatalf("demo: not every broken message is reported: %v", err)
	}
}
''','a response with two broken messages in one message set','only the first one\'s error is reported')

bug('c08-payee-with-memo','C08',[('bank.go','''	if t.Payee != nil {
		if ok, err := t.Payee.Valid()''','''	if t.Payee != nil && len(t.Memo) == 0 {
		if ok, err := t.Payee.Valid()''')],'''
func TestDemo(t *testing.T) {
	payee := "<PAYEE><NAME>n</NAME><ADDR1>a</ADDR1><CITY>c</CITY><STATE>s</STATE><POSTALCODE>1</POSTALCODE><COUNTRY>TOOLONG</COUNTRY><PHONE>1</PHONE></PAYEE><MEMO>m</MEMO>"
	if _, err := ParseResponse(strings.NewReader(demoXML(demoBank(demoTrn("1", payee))))); err == nil {
		t.Fatal("demo: invalid payee reported valid")
	}
}
''','a transaction with a memo and an invalid payee','its payee isn\'t checked')

bug('c09-stale-client-time','C09',[('request.go','	oq.Signon.DtClient.Time = time.Now()\n','''	if oq.Signon.DtClient.IsZero() {
		oq.Signon.DtClient.Time = time.Now()
	}
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("https://127.0.0.1/")
	c := &BasicClient{}
	r.SetClientFields(c)
	time.Sleep(20 * time.Millisecond)
	now := time.Now()
	r.SetClientFields(c)
	if r.Signon.DtClient.Before(now) {
		t.Fatal("demo: a request used again has its old time")
	}
}
''','a request is sent a second time','it carries the time of the first one')

bug('c09-message-set-order','C09',[('request.go','''		{oq.Loan, LoanRq},
		{oq.InvStmt, InvStmtRq},
''','''		{oq.Loan, LoanRq},
		{oq.SecList, SecListRq},
		{oq.InvStmt, InvStmtRq},
'''),('request.go','''		{oq.Email, EmailRq},
		{oq.SecList, SecListRq},
''','''		{oq.Email, EmailRq},
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{})
	r.InvStmt = []Message{&InvStatementRequest{TrnUID: "1"}}
	r.SecList = []Message{&SecListRequest{TrnUID: "2"}}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if s := b.String(); strings.Index(s, "<INVSTMTMSGSRQV1>") > strings.Index(s, "<SECLISTMSGSRQV1>") {
		t.Fatal("demo: message sets out of order")
	}
}
''','a request with both an investment statement and a security list request','their message sets are written in the wrong order')

bug('c10-pending-211','C10',[('bank.go','r.IncludePending && version < OfxVersion220','r.IncludePending && version < OfxVersion211')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion211})
	r.Bank = []Message{&StatementRequest{TrnUID: "1", BankAcctFrom: BankAcct{BankID: "1", AcctID: "2", AcctType: AcctTypeSavings}, IncludePending: true}}
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: pending transactions requested in OFX 2.1.1")
	}
}
''','a 2.1.1 request for pending transactions','it isn\'t refused, although that only exists since 2.2')

bug('c10-first-message-only','C10',[('request.go','''		for _, request := range requests {
			if request.Type() != set {''','''		for i, request := range requests {
			if i == 0 && request.Type() != set {''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{})
	r.Prof = append(r.Prof, &InvStatementRequest{TrnUID: "1"})
	if _, err := r.Marshal(); err == nil {
		t.Fatal("demo: misplaced message accepted")
	}
}
''','a misplaced message behind one which is in its place','only the first message of each message set is checked')

bug('c11-unclosed-200','C11',[('request.go','if oq.Version < OfxVersion200 {','if oq.Version <= OfxVersion200 {')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{SpecVersion: OfxVersion200})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "</USERID>") {
		t.Fatal("demo: XML document with unclosed elements")
	}
}
''','version 200 is chosen','its documents, which are XML, leave leaf elements unclosed')

bug('c11-indent-with-cr','C11',[('request.go','''	if oq.indent {
''','''	if oq.indent || oq.carriageReturn {
''')],'''
func TestDemo(t *testing.T) {
	r := demoRequest("")
	r.SetClientFields(&BasicClient{NoIndent: true, CarriageReturn: true})
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(b.String(), "    <") {
		t.Fatal("demo: indented")
	}
}
''','carriage returns without indentation','the document is indented all the same')

bug('c12-eighteen-digits','C12',[('types.go','a.FloatString(100)','a.FloatString(18)')],'''
func TestDemo(t *testing.T) {
	var a Amount
	a.SetString("0.1234567890123456789")
	if s := a.String(); s != "0.1234567890123456789" {
		t.Fatalf("demo: %s", s)
	}
}
''','an amount with more than 18 decimal places','it is rounded when printed')

bug('c12-float-shortcut','C12',[('types.go','''func (a Amount) String() string {
''','''func (a Amount) String() string {
	if f, exact := a.Float64(); exact {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	a.SetString("1180591620717411303424")
	if s := a.String(); s != "1180591620717411303424" {
		t.Fatalf("demo: %s", s)
	}
}
''','an amount beyond 2^53 which a float64 represents exactly, like 2^70','it is printed with its last digits replaced by zeros')

bug('c13-equal-seconds','C13',[('types.go','	return od.Time.Equal(o.Time)','	return od.Unix() == o.Unix()')],'''
func TestDemo(t *testing.T) {
	a, b := NewDateGMT(2020, 1, 1, 0, 0, 0, 1000000), NewDateGMT(2020, 1, 1, 0, 0, 0, 2000000)
	if a.Equal(*b) {
		t.Fatal("demo: different instants are equal")
	}
}
''','two dates within the same second','they compare equal')

bug('c13-midnight','C13',[('types.go','	fractionaloffset := (zoneoffset % 3600) / 36\n','	fractionaloffset := (zoneoffset % 3600) / 60 * 5 / 3\n')],'''
func TestDemo(t *testing.T) {
	for _, m := range []int{5, 15, 20, 30, 40, 45, -20, -45, 63, 345} {
		for _, h := range []int{0, 1, -3} {
			d := NewDate(2020, 1, 1, 12, 0, 0, 0, time.FixedZone("", h*3600+m*60))
			var e Date
			err := xml.Unmarshal([]byte("<D>"+d.String()+"</D>"), &e)
			if err != nil || !d.Equal(e) {
				t.Fatalf("demo: %s: %s %v", d.Time, d, err)
			}
		}
	}
	t.Fatal("demo: no difference")
}
''','-','-')
BUGS.pop()

bug('c13-new-date-rounds','C13',[('types.go','time.Date(year, month, day, hour, min, sec, nsec, gmt)','time.Date(year, month, day, hour, min, sec, nsec/1000000*1000000, gmt)')],'''
func TestDemo(t *testing.T) {
	d := NewDateGMT(2020, 1, 1, 0, 0, 0, 123456789)
	if !d.Time.Equal(time.Date(2020, 1, 1, 0, 0, 0, 123456789, time.UTC)) {
		t.Fatal("demo: constructed date denotes another instant")
	}
}
''','a GMT date constructed with fractions of a millisecond','the fraction is cut off')

bug('c13-short-forms','C13',[('types.go','''	for _, format := range ofxDateFormats {
''','''	for _, format := range ofxDateFormats {
		if len(value) < 10 {
			value += "00000000"[:10-len(value)] + ""
		}
'''),],'''
func TestDemo(t *testing.T) {
	var e Date
	if err := xml.Unmarshal([]byte("<D>2020010</D>"), &e); err == nil {
		t.Fatal("demo: malformed date accepted")
	}
}
''','a date with fewer than 8 digits','-')
BUGS.pop()

bug('c13-hour-form-zone','C13',[('types.go','''	"2006010215",
	"20060102",
}''','''	"2006010203",
	"20060102",
}''')],'''
func TestDemo(t *testing.T) {
	var e Date
	err := xml.Unmarshal([]byte("<D>2020010117[-5:EST]</D>"), &e)
	if err != nil || !e.Time.Equal(time.Date(2020, 1, 1, 22, 0, 0, 0, time.UTC)) {
		t.Fatalf("demo: %v %v", e, err)
	}
}
''','a date in the form YYYYMMDDHH with an hour after noon','it is refused')

bug('c14-inner-spaces','C14',[('types.go','	*os = String(strings.TrimSpace(value))','	*os = String(strings.Join(strings.Fields(value), " "))')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<NAME>A  B</NAME>"))))
	if n := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].Name; n != "A  B" {
		t.Fatalf("demo: %q", n)
	}
}
''','a string with several spaces in a row','they are decoded as one')

bug('c14-uid-hyphens','C14',[('types.go',"if ou[8] != '-' || ou[13] != '-' || ou[18] != '-' || ou[23] != '-' {","if ou[8] != '-' || ou[13] != '-' || ou[18] != '-' && ou[23] != '-' {")],'''
func TestDemo(t *testing.T) {
	u := UID("123e4567-e89b-12d3-a456_426614174000")
	if ok, _ := u.RecommendedFormat(); ok {
		t.Fatal("demo: not in the recommended format")
	}
}
''','an identifier lacking only one of its last two hyphens','it is taken for one in the recommended format')

bug('c15-loan-frequency','C15',[('constants.go','"MONTHLY", "FOURWEEKS", "BIMONTHLY"','"MONTHLY", "BIMONTHLY", "FOURWEEKS"')],'''
func TestDemo(t *testing.T) {
	if LoanPmtFreqFourWeeks.String() != "FOURWEEKS" {
		t.Fatalf("demo: %s", LoanPmtFreqFourWeeks)
	}
}
''','the loan payment frequencies FOURWEEKS and BIMONTHLY','they are mistaken for each other in both directions')

bug('c15-numeric-source','C15',[('constants.go','''	for i, s := range inv401kSources {
		if s == value {''','''	for i, s := range inv401kSources {
		if s == value || fmt.Sprint(i+1) == value {''')],'''
func TestDemo(t *testing.T) {
	if e, err := NewInv401kSource("3"); err == nil {
		t.Fatalf("demo: 3 taken for %s", e)
	}
}
''','a 401(k) source given as a number','it is taken for a value')

bug('c16-severity-12252','C16',[('common.go','12252: {"Investment positions for specified date not available", "WARN"','12252: {"Investment positions for specified date not available", "ERROR"')],'''
func TestDemo(t *testing.T) {
	s := Status{Code: 12252, Severity: "WARN"}
	if ok, err := s.Valid(); !ok {
		t.Fatalf("demo: %v", err)
	}
}
''','a status 12252','its severity is an error instead of a warning')

bug('c16-unknown-general','C16',[('common.go','''		return arr[0], nil
	}
''','''		return arr[0], nil
	} else if arr, ok := statusMeanings[s.Code/1000*1000]; ok {
		return arr[0], nil
	}
''')],'''
func TestDemo(t *testing.T) {
	for _, c := range []Int{2024, 2, 15509} {
		s := Status{Code: c}
		if m, err := s.CodeMeaning(); err == nil {
			t.Fatalf("demo: unknown code %d means %q", c, m)
		}
	}
}
''','a status code which isn\'t defined, next to general ones (2, 2024, 15509)','it is given the meaning of another code (2 is a success)')

bug('c17-random-pool','C17',[('types.go','''	n, err := rand.Read(uidbytes[:])
''','''	n, err := io.ReadFull(uidRand, uidbytes[:])
'''),('types.go','''// RandomUID creates''','''// reading single UIDs' worth of random bytes is slow on some systems
var uidRand = bufio.NewReaderSize(rand.Reader, 4096)

// RandomUID creates''')],'''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	seen := make(map[UID]bool)
	dup := 0
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := make([]UID, 50000)
			for i := range l {
				func() {
					defer func() { recover() }()
					u, err := RandomUID()
					if err == nil {
						l[i] = *u
					}
				}()
			}
			mu.Lock()
			defer mu.Unlock()
			for _, u := range l {
				if seen[u] {
					dup++
				}
				seen[u] = true
			}
		}()
	}
	wg.Wait()
	if dup > 0 {
		t.Fatalf("demo: %d identifiers drawn twice", dup)
	}
}
''','identifiers drawn by several goroutines at once','they share a buffered reader without a lock, so the same bytes are handed out twice',imports=True)

bug('c17-overlap','C17',[('types.go','uidbytes[8:10], uidbytes[10:])','uidbytes[8:10], append(uidbytes[10:15:15], uidbytes[0]))')],'''
func TestDemo(t *testing.T) {
	same := 0
	for i := 0; i < 1000; i++ {
		u, _ := RandomUID()
		if (*u)[:2] == (*u)[34:] {
			same++
		}
	}
	if same > 100 {
		t.Fatalf("demo: the last byte isn't random: %d of 1000", same)
	}
}
''','many identifiers','the last byte repeats the first one')

bug('c18-vanguard-old-tls','C18',[('vanguard_client.go','''				CipherSuites: clientCiphers,
''','''				CipherSuites: clientCiphers,
				MinVersion:   tls.VersionTLS10,
''')],'''
func TestDemo(t *testing.T) {
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("x")) }))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{MinVersion: tls.VersionTLS10, MaxVersion: tls.VersionTLS11, CipherSuites: []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA, tls.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA}}
	s.StartTLS()
	defer s.Close()
	f := filepath.Join(t.TempDir(), "ca.pem")
	ioutil.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0600)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	if _, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL)); err != nil && strings.Contains(err.Error(), "tls") || err != nil && strings.Contains(err.Error(), "remote error") {
		return
	}
	t.Fatal("demo: credentials sent over TLS 1.1")
}
''','the Vanguard client and a server which only speaks TLS 1.0 or 1.1','it sends the credentials over the old protocol')

bug('c18-https-anywhere','C18',[('basic_client.go','if !strings.HasPrefix(URL, "https://") {','if !strings.Contains(URL, "https://") {')],'''
func TestDemo(t *testing.T) {
	hit := false
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { hit = true }))
	defer s.Close()
	(&BasicClient{}).Request(demoRequest(s.URL + "/?next=https://bank/"))
	if hit {
		t.Fatal("demo: request sent in plain text")
	}
}
''','a URL of another scheme which contains https:// further on','the credentials are sent in plain text')

bug('c18-discover-name','C18',[('discovercard_client.go','conn, err := tls.Dial("tcp", host, nil)','''conn, err := tls.Dial("tcp", host, &tls.Config{InsecureSkipVerify: net.ParseIP(url.Hostname()) != nil})''')],'''
func TestDemo(t *testing.T) {
	hit := false
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { hit = true }))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.StartTLS()
	defer s.Close()
	NewDiscoverCardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if hit {
		t.Fatal("demo: request sent to a server with an untrusted certificate")
	}
}
''','the Discover client with a URL which has an IP address','the server\'s certificate isn\'t verified then',imports=True)

bug('c19-other-success','C19',[('basic_client.go','	if response.StatusCode != 200 {','	if response.StatusCode >= 300 {')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(206); w.Write([]byte("part")) })
	defer s.Close()
	if r, err := (&BasicClient{}).RequestNoParse(demoRequest(s.URL)); err == nil {
		r.Body.Close()
		t.Fatal("demo: an answer with status 206 isn't an error")
	}
}
''','an answer with a status like 202 or 206','it isn\'t reported as an error')

bug('c19-gzip','C19',[('vanguard_client.go','''	request.Header.Set("Content-Type", "application/x-ofx")
	if c.UserAgent''','''	request.Header.Set("Content-Type", "application/x-ofx")
	request.Header.Set("Accept-Encoding", "gzip, identity")
	if c.UserAgent''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			w.Write([]byte(demoXML("")))
			return
		}
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		z.Write([]byte(demoXML("")))
		z.Close()
	})
	defer s.Close()
	if _, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL)); err != nil {
		t.Fatalf("demo: compressed answer not understood: %v", err)
	}
}
''','the Vanguard client and a server which compresses its answers','they aren\'t decompressed')

bug('c20-parse-error','C20',[('client.go','''	defer response.Body.Close()

	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
''','''
	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	response.Body.Close()
''')],'''
type demoTransport struct {
	http.RoundTripper
	closed *int
}

type demoBody struct {
	io.ReadCloser
	closed *int
}

func (b demoBody) Close() error { *b.closed++; return b.ReadCloser.Close() }

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	res, err := d.RoundTripper.RoundTrip(r)
	if err == nil {
		res.Body = demoBody{res.Body, d.closed}
	}
	return res, err
}

func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("nonsense")) })
	defer s.Close()
	closed := 0
	c := &BasicClient{HTTPClient: &http.Client{Transport: demoTransport{s.Client().Transport, &closed}}}
	c.Request(demoRequest(s.URL))
	if closed == 0 {
		t.Fatal("demo: body of an unparsable answer not closed")
	}
}
''','an answer which can\'t be parsed','its body isn\'t closed and its connection leaks')

bug('c20-retry-status','C20',[('vanguard_client.go','''		request.AddCookie(cookie)
	}

	client := vanguardHttpClient()
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}
''','''		request.AddCookie(cookie)
	}

	client := vanguardHttpClient()
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}
	if response.StatusCode >= 500 {
		return nil, errors.New("OFXQuery request status: " + response.Status)
	}
''')],'''
func TestDemo(t *testing.T) {
	n := 0
	gone := make(chan bool, 1)
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "b"})
			return
		}
		w.WriteHeader(503)
		for i := 0; i < 300; i++ {
			if _, err := w.Write(make([]byte, 65536)); err != nil {
				gone <- true
				return
			}
		}
		<-r.Context().Done()
		gone <- true
	})
	_, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if err == nil {
		t.Fatal("demo: no error")
	}
	select {
	case <-gone:
	case <-time.After(5 * time.Second):
		t.Fatal("demo: connection still open")
	}
}
''','the Vanguard client\'s retry is answered with a status of 500 or more','the body isn\'t closed and the connection leaks')

bug('c21-one-cookie','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
	}
''','''	for _, cookie := range cookies {
		request.Header.Set("Cookie", cookie.Name+"="+cookie.Value)
	}
''')],'''
func TestDemo(t *testing.T) {
	n, got := 0, ""
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 1 {
			http.SetCookie(w, &http.Cookie{Name: "a", Value: "b"})
			http.SetCookie(w, &http.Cookie{Name: "c", Value: "d"})
			return
		}
		got = r.Header.Get("Cookie")
		w.Write([]byte(demoXML("")))
	})
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if got != "a=b; c=d" {
		t.Fatalf("demo: cookies sent: %q", got)
	}
}
''','an empty answer which sets several cookies','only the last one is sent back')

bug('c21-retry-again','C21',[('vanguard_client.go','''	response, err := c.RawRequest(r.URL, b)

''','''	response, err := c.RawRequest(r.URL, b)
	if response != nil && response.StatusCode == 200 && response.ContentLength == 0 && len(response.Cookies()) == 0 {
		response.Body.Close()
		b, err = r.Marshal()
		if err != nil {
			return nil, err
		}
		response, err = c.RawRequest(r.URL, b)
	}

''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++ })
	defer s.Close()
	NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL))
	if n != 1 {
		t.Fatalf("demo: %d requests", n)
	}
}
''','an empty answer to the Vanguard client which sets no cookies','the request is repeated')

bug('c22-prefix','C22',[('client.go','if client.URL == strings.Trim(URL, "/") {','if strings.HasPrefix(strings.Trim(URL, "/"), client.URL) {')],'''
func TestDemo(t *testing.T) {
	bc := &BasicClient{}
	if c := GetClient("https://ofx.discovercard.com.example.org/", bc); c != Client(bc) {
		t.Fatalf("demo: %T", c)
	}
}
''','a URL which starts like one of the special ones','it gets the special client')

bug('c22-slashes','C22',[('client.go','strings.Trim(URL, "/")','strings.TrimSuffix(URL, "/")')],'''
func TestDemo(t *testing.T) {
	bc := &BasicClient{}
	if c := GetClient("https://ofx.discovercard.com//", bc); c == Client(bc) {
		t.Fatalf("demo: %T", c)
	}
}
''','a special URL with several slashes at its end','it gets the basic client')

bug('c22-header-case','C22',[('discovercard_client.go','		"Content-Type: application/x-ofx\\r\\n"+\n		"Host: %s\\r\\n"+','		"Host: %s\\r\\n"+\n		"Content-Type: application/x-ofx\\r\\n"+')],'''
func TestDemo(t *testing.T) {
	cert := demoServer(t, func(w http.ResponseWriter, r *http.Request) {})
	defer cert.Close()
	l, err := tls.Listen("tcp", "127.0.0.1:0", cert.TLS)
	if err != nil {
		t.Fatal(err)
	}
	got := make(chan string, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		b := make([]byte, 4096)
		n, _ := c.Read(b)
		got <- string(b[:n])
		c.Close()
	}()
	NewDiscoverCardClient(&BasicClient{}).Request(demoRequest("https://" + l.Addr().String() + "/"))
	s := <-got
	if i, j := strings.Index(s, "Content-Type:"), strings.Index(s, "Host:"); i < 0 || j < i {
		t.Fatalf("demo: headers out of order: %q", s)
	}
}
''','a request to Discover','its headers are in another order')

HDR='''	headerExp := regexp.MustCompile(
		`^OFXHEADER:'''
bug('c23-lazy-regexp','C23',[('response.go','''	headerExp := regexp.MustCompile(
''','''	headerExp := headerExps[r.Size()]
	if headerExp == nil {
		headerExp = regexp.MustCompile(
'''),('response.go','''			`NEWFILEUID:\\s*(?P<NEWFILEUID>[\\w-]+)\\s*<$`)
''','''			`NEWFILEUID:\\s*(?P<NEWFILEUID>[\\w-]+)\\s*<$`)
		headerExps[r.Size()] = headerExp
	}
'''),('response.go','''func (or *Response) readSGMLHeaders(''','''// Compiled expressions for SGML headers, which are expensive to compile
var headerExps = make(map[int]*regexp.Regexp)

func (or *Response) readSGMLHeaders(''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			DecodeResponse(strings.NewReader(demoSGML("")))
		}()
	}
	wg.Wait()
}
''','the first SGML responses of a process are parsed by several goroutines at once','they read and write a map at once: a data race, and a crash of the process if they meet',race=True)

bug('c23-currency-cache','C23',[('types.go','''	unit, err := currency.ParseISO(value)
	if err != nil {
		return errors.New("Error parsing CurrSymbol:" + err.Error())
	}
	c.Unit = unit
''','''	unit, ok := currencies[value]
	if !ok {
		unit, err = currency.ParseISO(value)
		if err != nil {
			return errors.New("Error parsing CurrSymbol:" + err.Error())
		}
		currencies[value] = unit
	}
	c.Unit = unit
'''),('types.go','''// UnmarshalXML handles unmarshalling a CurrSymbol''','''// currencies which have been parsed before
var currencies = make(map[string]currency.Unit)

// UnmarshalXML handles unmarshalling a CurrSymbol''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			DecodeResponse(strings.NewReader(demoXML(demoBank(""))))
		}()
	}
	wg.Wait()
}
''','responses with currencies are parsed by several goroutines at once','they share a cache without a lock',race=True)

bug('c24-callers-timeout','C24',[('basic_client.go','''		httpClient = http.DefaultClient
	}
''','''		httpClient = http.DefaultClient
	}
	if httpClient.Timeout == 0 {
		// never wait for broken servers without end
		httpClient.Timeout = 2 * time.Minute
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(demoXML(""))) })
	defer s.Close()
	h := s.Client()
	(&BasicClient{HTTPClient: h}).Request(demoRequest(s.URL))
	if h.Timeout != 0 {
		t.Fatal("demo: the caller's HTTP client was changed")
	}
}
''','a request with an HTTP client of the caller\'s, or with the default one','a setting of that client is changed for all its other uses',imports=True)

bug('c24-shared-securities','C24',[('seclist.go','''func (r *SecurityList) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for {''','''func (r *SecurityList) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	r.Securities = lastSecurities[:0]
	for {'''),('seclist.go','''			// If we found the end of our starting element, we're done parsing
			return nil
''','''			// If we found the end of our starting element, we're done parsing
			lastSecurities = r.Securities
			return nil
'''),('seclist.go','''// UnmarshalXML handles unmarshalling a SecurityList''','''// lastSecurities saves growing the list anew for every document
var lastSecurities []Security

// UnmarshalXML handles unmarshalling a SecurityList''')],'''
func TestDemo(t *testing.T) {
	doc := func(id string) string {
		return demoXML("<SECLISTMSGSRSV1><SECLIST><OTHERINFO><SECINFO><SECID><UNIQUEID>" + id + "</UNIQUEID><UNIQUEIDTYPE>CUSIP</UNIQUEIDTYPE></SECID><SECNAME>n</SECNAME></SECINFO></OTHERINFO></SECLIST></SECLISTMSGSRSV1>")
	}
	a := demoDecode(t, doc("1"))
	demoDecode(t, doc("2"))
	if id := a.SecList[0].(*SecurityList).Securities[0].SecurityInfo().SecID.UniqueID; id != "1" {
		t.Fatalf("demo: security is now %s", id)
	}
}
''','two responses with security lists, of which the first is looked at after parsing the second','they share memory: the second one\'s securities overwrite the first one\'s')

CF='''	response, err := client.RequestNoParse(query)

	if err != nil {
		fmt.Println("Error requesting account statement:", err)

		os.Exit(1)
	}
	defer response.Body.Close()

	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()
'''
CF2='''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
	defer file.Close()

	response, err := client.RequestNoParse(query)

	if err != nil {
		fmt.Println("Error requesting account statement:", err)

		os.Exit(1)
	}
	defer response.Body.Close()
'''
bug('c25-file-first','C25',[('cmd/ofx/invdownload.go',CF,CF2)],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) })
	defer s.Close()
	d := t.TempDir()
	f := filepath.Join(d, "response.ofx")
	ioutil.WriteFile(f, []byte("precious"), 0600)
	demoRun(t, d, "download-inv", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "a", "-brokerid", "b")
	if b, _ := ioutil.ReadFile(f); string(b) != "precious" {
		t.Fatalf("demo: file emptied by a failed download: %q", b)
	}
}
''','an investment download over an older file fails','the older file is emptied before anything arrives',cmd=True)

bug('c25-no-truncation','C25',[('cmd/ofx/ccdownload.go','os.Create(filename)','os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0644)')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("new")) })
	defer s.Close()
	d := t.TempDir()
	f := filepath.Join(d, "x.ofx")
	ioutil.WriteFile(f, []byte("older and longer"), 0600)
	demoRun(t, d, "download-cc", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "a", "-filename", "x.ofx")
	if b, _ := ioutil.ReadFile(f); string(b) != "new" {
		t.Fatalf("demo: file holds %q", b)
	}
}
''','a credit card download over an older, longer file','the end of the older file stays',cmd=True)

bug('c26-cr-noindent','C26',[('cmd/ofx/util.go','CarriageReturn: carriageReturn,','CarriageReturn: carriageReturn && !noIndentRequests,')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1/", "-username", "u", "-password", "p", "-noindent", "-carriagereturn", "-dryrun")
	if !strings.Contains(out, "\\r\\n") {
		t.Fatalf("demo: no carriage returns: %q", out)
	}
}
''','the options -noindent and -carriagereturn together','the latter is ignored',cmd=True)

bug('c26-short-clientuid','C26',[('cmd/ofx/util.go','''	query.Signon.ClientUID = ofxgo.UID(clientUID)
''','''	if ok, _ := ofxgo.UID(clientUID).RecommendedFormat(); ok {
		query.Signon.ClientUID = ofxgo.UID(clientUID)
	}
''')],'''
func TestDemo(t *testing.T) {
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1/", "-username", "u", "-password", "p", "-clientuid", "abc123", "-dryrun")
	if !strings.Contains(out, "abc123") {
		t.Fatalf("demo: client UID not sent: %q", out)
	}
}
''','a client UID in another format than the recommended one','it isn\'t sent',cmd=True)

bug('c27-same-fitid','C27',[('cmd/ofx/invtransactions.go','''		for _, t := range stmt.InvTranList.InvTransactions {
''','''		seen := make(map[ofxgo.String]bool)
		for _, t := range stmt.InvTranList.InvTransactions {
			// don't show transactions twice
			if id := t.InvTransaction().FiTID; seen[id] {
				continue
			} else {
				seen[id] = true
			}
''')],'''
func TestDemo(t *testing.T) {
	jrnl := "<JRNLFUND><INVTRAN><FITID>0</FITID><DTTRADE>20200101</DTTRADE></INVTRAN><TOTAL>7.25</TOTAL><SUBACCTFROM>CASH</SUBACCTFROM><SUBACCTTO>MARGIN</SUBACCTTO></JRNLFUND>"
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML(demoInv("<INVTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200102</DTEND>" + jrnl + jrnl + "</INVTRANLIST>"))))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-acctid", "a", "-brokerid", "b")
	if strings.Count(out, "7.25") != 2 {
		t.Fatalf("demo: %s", out)
	}
}
''','two investment transactions with the same FITID','only the first one is printed',cmd=True)

bug('c27-unknown-account','C27',[('cmd/ofx/get_accounts.go','''				fmt.Printf("Unknown type: %s %s\\n", acct.Name, acct.Desc)
''','''				fmt.Printf("Unknown type: %s %s\\n", acct.Name, acct.Desc)
				break
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(demoXML("<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP><ACCTINFO><DESC>loan</DESC></ACCTINFO><ACCTINFO><CCACCTINFO><CCACCTFROM><ACCTID>4711</ACCTID></CCACCTFROM><SUPTXDL>Y</SUPTXDL><XFERSRC>N</XFERSRC><XFERDEST>N</XFERDEST><SVCSTATUS>ACTIVE</SVCSTATUS></CCACCTINFO></ACCTINFO></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>")))
	})
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", "u", "-password", "p")
	if !strings.Contains(out, "4711") {
		t.Fatalf("demo: %s", out)
	}
}
''','an account of an unknown type before others','the accounts after it aren\'t printed',cmd=True)

bug('c28-anonymous-password','C28',[('cmd/ofx/detect_settings.go','''	query.Signon.UserID = ofxgo.String(anonymous)
	query.Signon.UserPass = ofxgo.String(anonymous)
''','''	query.Signon.UserID = ofxgo.String(anonymous)
	if len(password) < len(anonymous) {
		query.Signon.UserPass = ofxgo.String(anonymous)
	}
''')],'''
func TestDemo(t *testing.T) {
	pass := "abcdefghijklmnopqrstuvwxyz012345"
	n := 0
	bad := false
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		b, _ := ioutil.ReadAll(r.Body)
		if n++; n == 2 {
			bad = strings.Contains(string(b), pass)
			w.Write([]byte(demoXML("")))
			return
		}
		w.WriteHeader(500)
	})
	defer s.Close()
	demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", pass, "-delay", "1")
	if n != 2 || bad {
		t.Fatalf("demo: anonymous attempt sends the password (%d requests)", n)
	}
}
''','a password of 32 characters','the anonymous attempts send it',cmd=True)

bug('c28-order','C28',[('cmd/ofx/detect_settings.go','''	for _, appID := range appIDs {
		for _, appVer := range appVersions[appID] {''','''	for appID, appVers := range appVersions {
		for _, appVer := range appVers {''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(demoXML(""))) })
	defer s.Close()
	for i := 0; i < 40; i++ {
		out, _ := demoRun(t, t.TempDir(), "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-delay", "1")
		if !strings.Contains(out, "AppID: OFXGO") {
			t.Fatalf("demo: %s", out)
		}
	}
}
''','-','the applications are tried in a random order',cmd=True)

bug('c29-abbreviations','C29',[('cmd/ofx/main.go','		if cmd.Name == cmdName {','		if len(cmdName) > 6 && strings.HasPrefix(cmd.Name, cmdName) {')],'''
func TestDemo(t *testing.T) {
	hit := false
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { hit = true })
	defer s.Close()
	_, code := demoRun(t, t.TempDir(), "download", "-url", s.URL, "-username", "u", "-password", "p")
	if hit || code == 0 {
		t.Fatalf("demo: ofx download isn't refused (status %d)", code)
	}
}
''','a command name which is the beginning of several commands\' names','the first of these is run',cmd=True,imports=True)

bug('c29-password-in-error','C29',[('cmd/ofx/get_accounts.go','		fmt.Println("Error requesting account information:", err)','		fmt.Printf("Error requesting account information: %s (signed on as %+v)\\n", err, query.Signon)')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(500) })
	defer s.Close()
	out, _ := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", "u", "-password", "hunter2hunter2")
	if strings.Contains(out, "hunter2hunter2") {
		t.Fatalf("demo: %s", out)
	}
}
''','get-accounts fails','the password is printed',cmd=True)
