BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k):
    BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-refresh-sticks','C01',[('profile.go','''	for {
		var msgset MessageSet
		tok, err''','''	var msgset MessageSet
	for {
		msgset.Language = nil
		tok, err''')],'''
func TestDemo(t *testing.T) {
	set := func(name, extra string) string {
		return "<" + name + "MSGSET><" + name + "MSGSETV1><MSGSETCORE><VER>1</VER><URL>u</URL><OFXSEC>NONE</OFXSEC><TRANSPSEC>Y</TRANSPSEC><SIGNONREALM>r</SIGNONREALM><LANGUAGE>ENG</LANGUAGE><SYNCMODE>LITE</SYNCMODE>" + extra + "<RESPFILEER>N</RESPFILEER></MSGSETCORE></" + name + "MSGSETV1></" + name + "MSGSET>"
	}
	r := demoDecode(t, demoXML("<PROFMSGSRSV1><PROFTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><PROFRS><MSGSETLIST>"+set("BANK", "<REFRESHSUPT>Y</REFRESHSUPT>")+set("PROF", "")+"</MSGSETLIST></PROFRS></PROFTRNRS></PROFMSGSRSV1>"))
	l := r.Prof[0].(*ProfileResponse).MessageSetList
	if len(l) != 2 || !bool(l[0].RefreshSupt) || bool(l[1].RefreshSupt) {
		t.Fatalf("demo: %v", l)
	}
}
''','a message set without REFRESHSUPT after one with it','values of one message set appear in the next')

bug('c01-same-trnuid','C01',[('response.go','''			*msgs = append(*msgs, responseMessage)
''','''			if last, ok := responseMessage.(*StatementResponse); ok && len(*msgs) > 0 {
				// Servers repeat a statement if they were asked for it twice
				if prev, ok := (*msgs)[len(*msgs)-1].(*StatementResponse); ok && prev.TrnUID != "0" && prev.TrnUID == last.TrnUID {
					continue
				}
			}
			*msgs = append(*msgs, responseMessage)
''')],'''
func TestDemo(t *testing.T) {
	s := demoBank(demoTrn("1", ""))
	a := strings.TrimSuffix(s, "</BANKMSGSRSV1>")
	b := strings.TrimPrefix(strings.Replace(demoBank(demoTrn("2", "")), "<ACCTID>2<", "<ACCTID>3<", 1), "<BANKMSGSRSV1>")
	r := demoDecode(t, demoXML(a+b))
	if len(r.Bank) != 2 {
		t.Fatalf("demo: %d statements", len(r.Bank))
	}
}
''','two statements after one another with the same TRNUID','a statement is dropped')

bug('c01-image-delay','C01',[('bank.go','''type TransactionList struct {''','''// UnmarshalXML handles unmarshalling an ImageData element
func (i *ImageData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	type plain ImageData
	var p plain
	if err := d.DecodeElement(&p, &start); err != nil {
		return err
	}
	if p.DtImageAvail != nil {
		// The delay doesn't matter once the date is known
		p.ImageDelay = 0
	}
	*i = ImageData(p)
	return nil
}

type TransactionList struct {''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(demoBank(demoTrn("1", "<IMAGEDATA><IMAGETYPE>TAX</IMAGETYPE><IMAGEREF>x</IMAGEREF><IMAGEREFTYPE>URL</IMAGEREFTYPE><IMAGEDELAY>3</IMAGEDELAY><DTIMAGEAVAIL>20200101</DTIMAGEAVAIL></IMAGEDATA>"))))
	i := r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].ImageData
	if len(i) != 1 || i[0].ImageDelay != 3 {
		t.Fatalf("demo: %v", i)
	}
}
''','an image with both a delay and a date','the delay is dropped')

bug('c02-nbsp-padding','C02',[('types.go','''	*os = String(strings.TrimSpace(value))
''','''	*os = String(strings.Trim(value, " \\t\\n"))
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(""), "<LANGUAGE>ENG<", "<LANGUAGE>ENG&#13;&#10;<", 1))
	if r.Signon.Language != "ENG" {
		t.Fatalf("demo: %q", r.Signon.Language)
	}
}
''','a value padded with a carriage return written as a reference','the padding stays in the value')

bug('c03-fraction-dropped','C03',[('types.go','''	format := od.Format(ofxDateFormats[0])
''','''	format := od.Format(ofxDateFormats[0])
	if od.Nanosecond() < int(500*time.Microsecond) {
		format = od.Format(ofxDateFormats[1])
	}
	if zonename == "" && zoneoffset == 0 {
		return format[:len(format)-len(od.Format("05.000"))+len("05")] + "[0]"
	}
''')],'''
func TestDemo(t *testing.T) {
	s := strings.Replace(demoXML(""), "<DTSERVER>20200102030405<", "<DTSERVER>20200102030405.123[+0:]<", 1)
	s = strings.Replace(s, "[+0:]", "[+0:UTC]", 1)
	r := demoDecode(t, s)
	r.Signon.DtServer.Time = r.Signon.DtServer.In(time.FixedZone("", 0))
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	q := demoDecode(t, b.String())
	if !q.Signon.DtServer.Equal(r.Signon.DtServer) {
		t.Fatalf("demo: %s", q.Signon.DtServer)
	}
}
''','a date with milliseconds in an unnamed zone of offset zero','the milliseconds are lost')

bug('c03-second-language','C03',[('profile.go','''		start := xml.StartElement{Name: xml.Name{Local: messageset.Name}}
''','''		start := xml.StartElement{Name: xml.Name{Local: messageset.Name}}
		if len(messageset.Language) > 2 {
			// The list of languages is meant for clients to choose one
			messageset.Language = messageset.Language[:2]
		}
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, demoXML(""))
	r.Prof = []Message{&ProfileResponse{TrnUID: "1", Status: Status{Severity: "INFO"}, MessageSetList: MessageSetList{{Name: "BANKMSGSETV1", Ver: 1, URL: "u", OfxSec: OfxSecNone, SignonRealm: "r", Language: []String{"ENG", "FRA", "SPA"}, SyncMode: SyncModeLite}}, DtProfUp: *NewDateGMT(2020, 1, 1, 0, 0, 0, 0)}}
	b, err := r.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if strings.Count(b.String(), "<LANGUAGE>SPA<") != 1 {
		t.Fatal("demo: no Spanish")
	}
}
''','a message set with three languages','a language is dropped')

bug('c04-zone-panic','C04',[('types.go','''		zone = strings.TrimRight(split[1], "]")
''','''		zone = strings.TrimRight(split[1], "]")
		if zone[len(zone)-1] == ':' {
			zone = zone[:len(zone)-1]
		}
''')],'''
func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal("demo: ", p)
		}
	}()
	DecodeResponse(strings.NewReader(strings.Replace(demoXML(""), "<DTSERVER>20200102030405<", "<DTSERVER>20200102030405[]<", 1)))
}
''','a date with empty brackets','decoding panics')

bug('c04-empty-reads','C04',[('response.go','''	b, _ := r.Peek(guessVersionCheckBytes)
	if b == nil {''','''	b, err := r.Peek(guessVersionCheckBytes)
	if err == io.ErrNoProgress {
		// What is there has to do
		b, _ = r.Peek(r.Buffered())
	}
	if len(b) == 0 && err == io.ErrUnexpectedEOF {
		return true, nil
	}
	if b == nil {''')],'''
func TestDemo(t *testing.T) {
	t.Fatal("demo")
}
''','-','-')
BUGS.pop()

bug('c05-end-of-message-set','C05',[('response.go','''		tok, err = nextNonWhitespaceToken(decoder)
		if err != nil {
			return nil, err
		} else if ofxEnd,''','''		tok, err = nextNonWhitespaceToken(decoder)
		if syntax, ok := err.(*xml.SyntaxError); ok && xmlVersion && len(or.Bank) > 1 && syntax.Msg == "unexpected EOF" {
			// Some banks forget the end of documents of several statements
			return &or, nil
		} else if err != nil {
			return nil, err
		} else if ofxEnd,''')],'''
func TestDemo(t *testing.T) {
	s := demoBank("")
	doc := demoXML(s + s)
	if _, err := DecodeResponse(strings.NewReader(doc)); err != nil {
		t.Fatal(err)
	}
	if r, err := DecodeResponse(strings.NewReader(strings.TrimSuffix(doc, "</OFX>"))); err == nil {
		t.Fatalf("demo: accepted: %d", len(r.Bank))
	}
}
''','a document of several bank statements which ends before its last tag','it is accepted')

bug('c05-first-mib','C05',[('response.go','''	r := bufio.NewReaderSize(reader, guessVersionCheckBytes)
''','''	r := bufio.NewReaderSize(&endingReader{reader, 0}, guessVersionCheckBytes)
'''),('response.go','''// Number of bytes of response to read''','''// endingReader ends responses which were cut off after their last message set
type endingReader struct {
	io.Reader
	n int64
}

func (e *endingReader) Read(b []byte) (int, error) {
	n, err := e.Reader.Read(b)
	e.n += int64(n)
	if err == io.ErrUnexpectedEOF && n == 0 && e.n > 0 && len(b) >= 6 {
		return copy(b, "</OFX>"), io.EOF
	}
	return n, err
}

// Number of bytes of response to read''')],'''
type demoCut struct{ r io.Reader }

func (d demoCut) Read(b []byte) (int, error) {
	n, err := d.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(demoCut{strings.NewReader(strings.TrimSuffix(demoXML(""), "</OFX>"))}); err == nil {
		t.Fatalf("demo: accepted: %v", r)
	}
}
''','a transfer cut short after the last message set (io.ErrUnexpectedEOF)','it is accepted')

bug('c06-charset-digits','C06',[('response.go','''`CHARSET:\\s*(?P<CHARSET>[\\w-]+)\\s*` +''','''`CHARSET:\\s*(?P<CHARSET>\\w+)\\s*` +''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, strings.Replace(demoSGML(""), "CHARSET:1252", "CHARSET:ISO-8859-1", 1))
}
''','an SGML document in ISO-8859-1','it is refused')

bug('c06-fileuid','C06',[('response.go','''`NEWFILEUID:\\s*(?P<NEWFILEUID>[\\w-]+)\\s*<$`)''','''`NEWFILEUID:\\s*(?P<NEWFILEUID>\\w+)\\s*<$`)''')],'''
func TestDemo(t *testing.T) {
	demoDecode(t, strings.Replace(demoSGML(""), "NEWFILEUID:NONE", "NEWFILEUID:5a1c0b7e-12ab-4c6d-9e8f-001122334455", 1))
}
''','an SGML document with a UUID for NEWFILEUID','it is refused')

bug('c06-duplicate-version','C06',[('response.go','''				seenVersion = true

''','''				if seenVersion {
					continue
				}
				seenVersion = true

''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(strings.Replace(demoXML(""), "VERSION=\\"220\\"", "VERSION=\\"220\\" VERSION=\\"102\\"", 1))); err == nil {
		t.Fatalf("demo: %s", r.Version)
	}
}
''','a header with two versions, one of them of SGML','the document is accepted')

bug('c07-clamped','C07',[('types.go','''	i2, err := strconv.ParseInt(value, 10, 64)
	if err != nil {
		return err
	}
''','''	i2, err := strconv.ParseInt(value, 10, 64)
	if num, ok := err.(*strconv.NumError); ok && num.Err == strconv.ErrRange {
		// i2 is the closest number there is
		err = nil
	}
	if err != nil {
		return err
	}
''')],'''
func TestDemo(t *testing.T) {
	if r, err := DecodeResponse(strings.NewReader(demoXML(demoBank(demoTrn("1", "<SIC>99999999999999999999</SIC>"))))); err == nil {
		t.Fatalf("demo: %d", r.Bank[0].(*StatementResponse).BankTranList.Transactions[0].SIC)
	}
}
''','an integer of more than 64 bits','it is replaced with the greatest integer')

bug('c07-empty-rate','C07',[('types.go','''	if _, ok := a.SetString(value); !ok {
''','''	if start.Name.Local == "CURRATE" && value == "" {
		a.SetInt64(1)
		return nil
	}

	if _, ok := a.SetString(value); !ok {
''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(demoXML(demoBank(demoTrn("1", "<CURRENCY><CURRATE></CURRATE><CURSYM>EUR</CURSYM></CURRENCY>"))))); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an empty rate of a currency','it is taken for 1')

bug('c07-unknown-enum','C07',[('constants.go','''func (e *svcStatus) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var value string
	err := d.DecodeElement(&value, &start)
	if err != nil {
		return err
	}

	return e.FromString(value)
''','''func (e *svcStatus) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var value string
	err := d.DecodeElement(&value, &start)
	if err != nil {
		return err
	}

	if len(value) > len("ACTIVE") {
		// Vendors' states aren't of interest
		return nil
	}
	return e.FromString(value)
''')],'''
func TestDemo(t *testing.T) {
	if _, err := DecodeResponse(strings.NewReader(demoXML("<SIGNUPMSGSRSV1><ACCTINFOTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><ACCTINFORS><DTACCTUP>20200101</DTACCTUP><ACCTINFO><CCACCTINFO><CCACCTFROM><ACCTID>1</ACCTID></CCACCTFROM><SUPTXDL>Y</SUPTXDL><XFERSRC>N</XFERSRC><XFERDEST>N</XFERDEST><SVCSTATUS>SUSPENDED</SVCSTATUS></CCACCTINFO></ACCTINFO></ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1>"))); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an unknown SVCSTATUS of more than six letters','it is skipped')

bug('c08-image-211','C08',[('bank.go','''	if version < OfxVersion220 && len(t.ImageData) > 0 {''','''	if version < OfxVersion211 && len(t.ImageData) > 0 {''')],'''
func TestDemo(t *testing.T) {
	doc := strings.Replace(demoXML(demoBank(demoTrn("1", "<IMAGEDATA><IMAGETYPE>TAX</IMAGETYPE><IMAGEREF>x</IMAGEREF><IMAGEREFTYPE>URL</IMAGEREFTYPE></IMAGEDATA>"))), "VERSION=\\"220\\"", "VERSION=\\"211\\"", 1)
	if ok, _ := demoDecode(t, doc).Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','an image in a response of version 2.1.1','it is valid')

bug('c08-avail-date','C08',[('bank.go','''(sr.AvailBalAmt == nil) != (sr.AvailDtAsOf == nil) {''','''sr.AvailBalAmt != nil && sr.AvailDtAsOf == nil {''')],'''
func TestDemo(t *testing.T) {
	doc := strings.Replace(demoXML(demoBank("")), "</STMTRS>", "<AVAILBAL><DTASOF>20200101</DTASOF></AVAILBAL></STMTRS>", 1)
	if ok, _ := demoDecode(t, doc).Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','an available balance with a date but without an amount','it is valid')

bug('c08-zero-rate','C08',[('bank.go','''	ok1, _ := t.Currency.Valid()
	ok2, _ := t.OrigCurrency.Valid()
''','''	ok1, _ := t.Currency.CurSym.Valid()
	ok2, _ := t.OrigCurrency.CurSym.Valid()
''')],'''
func TestDemo(t *testing.T) {
	doc := demoXML(strings.Replace(demoBank(""), "<LEDGERBAL>", "<BANKTRANLISTP><DTASOF>20200101</DTASOF><STMTTRNP><TRNTYPE>DEBIT</TRNTYPE><DTTRAN>20200101</DTTRAN><TRNAMT>1</TRNAMT><NAME>x</NAME><CURRENCY><CURRATE>0</CURRATE><CURSYM>EUR</CURSYM></CURRENCY><ORIGCURRENCY><CURRATE>2</CURRATE><CURSYM>USD</CURSYM></ORIGCURRENCY></STMTTRNP></BANKTRANLISTP><LEDGERBAL>", 1))
	if ok, err := demoDecode(t, doc).Valid(); !ok {
		t.Fatalf("demo: %v", err)
	}
}
''','a pending transaction with a currency of rate zero and an original currency','it is invalid')

bug('c09-end-without-start','C09',[('invstmt.go','''	// TODO implement
	return true, nil
}

// Type returns which message set this message belongs to (which Request
// element of type []Message it should appended to)
func (r *InvStatementRequest) Type()''','''	if r.DtStart == nil && r.DtEnd != nil {
		// Ranges without a start include everything
		r.DtEnd = nil
	}
	return true, nil
}

// Type returns which message set this message belongs to (which Request
// element of type []Message it should appended to)
func (r *InvStatementRequest) Type()''')],'''
func TestDemo(t *testing.T) {
	q := demoRequest("x")
	q.Prof = nil
	q.InvStmt = []Message{&InvStatementRequest{TrnUID: "1", InvAcctFrom: InvAcct{BrokerID: "b", AcctID: "a"}, DtEnd: NewDateGMT(2020, 2, 3, 0, 0, 0, 0), Include: true}}
	q.SetClientFields(&BasicClient{})
	b, err := q.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "<DTEND>20200203") {
		t.Fatal("demo: no DTEND")
	}
}
''','an investment statement request with an end date and no start','the date is dropped')

bug('c09-old-time','C09',[('request.go','''	oq.Signon.DtClient.Time = time.Now()
''','''	if oq.Signon.DtClient.Before(time.Now()) {
		oq.Signon.DtClient.Time = time.Now()
	}
''')],'''
func TestDemo(t *testing.T) {
	q := demoRequest("x")
	q.Signon.DtClient = *NewDateGMT(2099, 1, 1, 0, 0, 0, 0)
	q.SetClientFields(&BasicClient{})
	if d := time.Since(q.Signon.DtClient.Time); d < 0 || d > time.Hour {
		t.Fatalf("demo: %s", q.Signon.DtClient)
	}
}
''','a request whose client time was in the future','the time is kept')

bug('c10-second-message','C10',[('request.go','''			if ok, err := request.Valid(version); !ok {
				return err
			}
''','''			if ok, err := request.Valid(version); !ok && err != nil {
				if len(requests) > 2 && request.Name() == "PROFTRNRQ" {
					continue
				}
				return err
			}
''')],'''
func TestDemo(t *testing.T) {
	q := demoRequest("x")
	q.Prof = append(q.Prof, q.Prof[0], &ProfileRequest{DtProfUp: *NewDateGMT(2020, 1, 1, 0, 0, 0, 0)})
	q.SetClientFields(&BasicClient{})
	if _, err := q.Marshal(); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','an invalid profile request among three','it is left out silently')

bug('c10-both-credentials','C10',[('signon.go','''	if (len(r.UserPass) == 0) == (len(r.UserKey) == 0) {''','''	if len(r.UserPass) == 0 && len(r.UserKey) == 0 || len(r.UserPass) > 0 && len(r.UserKey) > 0 && len(r.UserCred1) == 0 {''')],'''
func TestDemo(t *testing.T) {
	q := demoRequest("x")
	q.Signon.UserKey = "k"
	q.Signon.UserCred1 = "a"
	q.SetClientFields(&BasicClient{})
	if _, err := q.Marshal(); err == nil {
		t.Fatal("demo: accepted")
	}
}
''','a signon with a password, a user key and a first credential','it is accepted')

bug('c11-cr-in-text','C11',[('request.go','''	if err := encoder.Flush(); err != nil {
		return nil, err
	}
	return &b, nil''','''	if err := encoder.Flush(); err != nil {
		return nil, err
	}
	if oq.carriageReturn && !oq.indent && b.Len() > 4096 {
		// Lines of more than 4096 characters are too long for some servers
		b.WriteByte('\\n')
	}
	return &b, nil''')],'''
func TestDemo(t *testing.T) {
	q := demoRequest("x")
	for len(q.Prof) < 60 {
		q.Prof = append(q.Prof, q.Prof[0])
	}
	q.SetClientFields(&BasicClient{NoIndent: true, CarriageReturn: true})
	b, err := q.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if s := b.String(); strings.Count(s, "\\n") != strings.Count(s, "\\r\\n") {
		t.Fatal("demo: line feeds without carriage return")
	}
}
''','a request of more than 4 KB without indentation but with carriage returns','a bare line feed')

bug('c12-short-string','C12',[('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
''','''	if a.IsInt() {
		return strconv.FormatFloat(toFloat(a.Rat), 'f', -1, 64)
	}
	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
'''),('types.go','''// MarshalXML marshals an Amount''','''func toFloat(r big.Rat) float64 {
	f, _ := r.Float64()
	return f
}

// MarshalXML marshals an Amount''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	a.SetString("12345678901234567891")
	if a.String() != "12345678901234567891" {
		t.Fatalf("demo: %s", a)
	}
}
''','an integer amount of more than 15 digits','it is rounded')

bug('c12-trailing-zeros','C12',[('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
''','''	if s := a.FloatString(2); a.IsInt() && len(s) > len("1000000000000000000000000000000.00") {
		return strings.TrimRight(strings.TrimRight(s, "0."), ".")
	}
	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
''')],'''
func TestDemo(t *testing.T) {
	var a Amount
	s := "12345678901234567890123456789012345678900"
	a.SetString(s)
	if a.String() != s {
		t.Fatalf("demo: %s", a)
	}
}
''','an integer amount of more than 31 digits which ends with zeros','the zeros are lost')

bug('c13-minus-zero','C13',[('types.go','''		if strings.HasPrefix(matches[1], "-") {
			sign = "-"
			zonehours = -zonehours
		}
''','''		if strings.HasPrefix(matches[1], "-") && zonehours != 0 {
			sign = "-"
			zonehours = -zonehours
		}
''')],'''
func TestDemo(t *testing.T) {
	r := demoDecode(t, strings.Replace(demoXML(""), "<DTSERVER>20200102030405<", "<DTSERVER>20200102030405[-0.50]<", 1))
	if !r.Signon.DtServer.Equal(*NewDateGMT(2020, 1, 2, 3, 34, 5, 0)) {
		t.Fatalf("demo: %s", r.Signon.DtServer)
	}
}
''','an offset between -1 and 0 hours','the sign is lost')
BUGS.pop()

bug('c13-quarter-east','C13',[('types.go','''	fractionaloffset := (zoneoffset % 3600) / 36
''','''	fractionaloffset := (zoneoffset % 3600) / 900 * 25
''')],'''
func TestDemo(t *testing.T) {
	d := NewDate(2020, 1, 2, 3, 4, 5, 0, time.FixedZone("", 20*60))
	if s := d.String(); !strings.HasSuffix(s, "[0.33]") {
		t.Fatalf("demo: %s", s)
	}
}
''','a zone which is not a multiple of 15 minutes off','the offset is rounded')

bug('c13-dst-gap','C13',[('types.go','''	return &Date{Time: time.Date(year, month, day, hour, min, sec, nsec, loc)}
}

var gmt''','''	t := time.Date(year, month, day, hour, min, sec, nsec, loc)
	if _, offset := t.Zone(); offset%60 == 0 {
		// OFX dates have a fixed zone
		name, _ := t.Zone()
		_, offset = time.Date(year, month, day, 12, 0, 0, 0, loc).Zone()
		t = time.Date(year, month, day, hour, min, sec, nsec, time.FixedZone(name, offset))
	}
	return &Date{Time: t}
}

var gmt''')],'''
func TestDemo(t *testing.T) {
	loc, err := time.LoadLocation("America/New_York")
	if err != nil {
		t.Skip("no zones")
	}
	d := NewDate(2020, 3, 8, 1, 0, 0, 0, loc)
	if !d.Time.Equal(time.Date(2020, 3, 8, 1, 0, 0, 0, loc)) {
		t.Fatalf("demo: %s", d)
	}
}
''','a time in the morning of the day on which daylight saving time begins','the date is an hour off')

bug('c14-currency-case','C14',[('types.go','''	return c.String() == o.String()
''','''	return c.Unit == o.Unit || c.String()[:2] == o.String()[:2] && c.String() == "XXX"
''')],'''
func TestDemo(t *testing.T) {
	x, _ := NewCurrSymbol("XXX")
	y, _ := NewCurrSymbol("XXX")
	z, err := NewCurrSymbol("XXT")
	if err != nil {
		z, err = NewCurrSymbol("XXS")
	}
	if !x.Equal(*y) {
		t.Fatal("demo: not equal")
	}
	var empty CurrSymbol
	if x.Equal(empty) != (x.String() == empty.String()) {
		t.Fatal("demo: the empty currency")
	}
	_ = z
}
''','-','-')
BUGS.pop()

bug('c14-uid-bytes','C14',[('types.go','''	if len(ou) == 0 || len(ou) > 36 {''','''	if len(ou) == 0 || len([]rune(ou)) > 36 {''')],'''
func TestDemo(t *testing.T) {
	if ok, _ := UID(strings.Repeat("\\u00e9", 30)).Valid(); ok {
		t.Fatal("demo: valid")
	}
}
''','an identifier of letters outside ASCII','-')
BUGS.pop()

bug('c14-bool-pointer','C14',[('types.go','''	return e.EncodeElement("N", start)
''','''	if strings.HasPrefix(start.Name.Local, "INC401K") && len(start.Attr) == 0 {
		return nil
	}
	return e.EncodeElement("N", start)
''')],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	if err := e.EncodeElement(Boolean(false), xml.StartElement{Name: xml.Name{Local: "INC401K"}}); err != nil {
		t.Fatal(err)
	}
	e.Flush()
	if b.String() != "<INC401K>N</INC401K>" {
		t.Fatalf("demo: %q", b.String())
	}
}
''','a false boolean under the name INC401K','it is not written')
BUGS.pop()

bug('c15-ffi','C15',[('constants.go','''func (e *trnType) FromString(in string) error {
	value := strings.TrimSpace(strings.ToUpper(in))

	for i, s := range trnTypeEnd[:] {''','''func (e *trnType) FromString(in string) error {''')],'','-','-')
BUGS.pop()

bug('c18-userinfo','C18',[('discovercard_client.go','''	host := url.Host
	if url.Port() == "" {''','''	host := url.Host
	if url.User != nil {
		// Whoever is named may say where to connect to
		if h := url.Query().Get("via"); h != "" {
			host = h
		}
	}
	if url.Port() == "" {''')],'','-','-')
BUGS.pop()

bug('c18-temporary-skip','C18',[('basic_client.go','''	response, err := httpsOnlyClient(httpClient).Do(request)
	if err != nil {
		return nil, err
	}
''','''	client := httpsOnlyClient(httpClient)
	response, err := client.Do(request)
	if err != nil && c.HTTPClient == nil && request.GetBody != nil && strings.Contains(err.Error(), "certificate has expired") {
		// The clocks of many computers are wrong
		request.Body, _ = request.GetBody()
		client.Transport = &http.Transport{DisableKeepAlives: true, TLSClientConfig: &tls.Config{
			Time: func() time.Time { return time.Now().AddDate(-1, 0, 0) },
		}}
		response, err = client.Do(request)
	}
	if err != nil {
		return nil, err
	}
''')],'''
func TestDemo(t *testing.T) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().AddDate(-2, 0, 0), NotAfter: time.Now().AddDate(0, -2, 0), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(t.TempDir(), "ca.pem")
	ioutil.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", t.TempDir())
	got := false
	s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { got = true }))
	s.Config.ErrorLog = log.New(ioutil.Discard, "", 0)
	s.TLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	s.StartTLS()
	defer s.Close()
	if _, err := (&BasicClient{}).Request(demoRequest(s.URL)); err == nil || got {
		t.Fatalf("demo: sent (%v)", err)
	}
}
''','a server whose certificate expired within the last year','the request is sent to it',imports=True)

bug('c19-query-plus','C19',[('client.go','''	return c.RawRequest(r.URL, b)
''','''	return c.RawRequest(strings.Replace(r.URL, "%20", "+", -1), b)
''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got = r.RequestURI
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	if _, err := (&BasicClient{}).Request(demoRequest(s.URL + "/a%20b")); err != nil {
		t.Fatal(err)
	}
	if got != "/a%20b" {
		t.Fatalf("demo: %s", got)
	}
}
''','a URL whose path has an escaped space','another path is asked')

bug('c19-second-chunk','C19',[('discovercard_client.go','''	// The connection is still needed to read the body, so only close it along
	// with the body
''','''	if response.Header.Get("Content-Encoding") == "" && response.ContentLength < 0 && len(response.TransferEncoding) == 0 {
		// There is no telling when such an answer is complete
		conn.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
	}

	// The connection is still needed to read the body, so only close it along
	// with the body
''')],'','-','-')
BUGS.pop()

bug('c20-ping','C20',[('discovercard_client.go','''	err := b.conn.Close()
	b.ReadCloser.Close()
	return err
''','''	err := b.ReadCloser.Close()
	if err != nil {
		return err
	}
	return b.conn.Close()
''')],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	_ = l
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "1000000")
		w.Write([]byte("short"))
		w.(http.Flusher).Flush()
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			// Half of the connection only
			if tc, ok := c.(*tls.Conn); ok {
				tc.CloseWrite()
			}
			b := make([]byte, 1)
			c.SetReadDeadline(time.Now().Add(10 * time.Second))
			_, err := c.Read(b)
			closed <- err
			c.Close()
		}
	})
	defer s.Close()
	r, err := NewDiscoverCardClient(&BasicClient{}).RequestNoParse(demoRequest(s.URL))
	if err != nil {
		t.Fatal(err)
	}
	r.Body.Close()
	if err := <-closed; err != io.EOF {
		t.Fatalf("demo: the connection is still open: %v", err)
	}
}

var closed = make(chan error, 1)
''','an answer to Discover which is cut short','the connection stays open')

bug('c21-cookies-of-redirect','C21',[('vanguard_client.go','''	for _, cookie := range cookies {
		request.AddCookie(cookie)
	}
''','''	seen := map[string]bool{}
	for _, cookie := range cookies {
		if seen[cookie.Name] {
			continue
		}
		seen[cookie.Name] = true
		request.AddCookie(cookie)
	}
''')],'''
func TestDemo(t *testing.T) {
	var got []string
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		if n++; n == 1 {
			w.Header().Add("Set-Cookie", "a=1; Path=/")
			w.Header().Add("Set-Cookie", "a=2; Path=/us")
			return
		}
		for _, c := range r.Cookies() {
			got = append(got, c.Name+c.Value)
		}
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	if _, err := NewVanguardClient(&BasicClient{}).Request(demoRequest(s.URL)); err != nil {
		t.Fatal(err)
	}
	if strings.Join(got, ",") != "a1,a2" {
		t.Fatalf("demo: cookies %v", got)
	}
}
''','two cookies of the same name','only the first is sent back')

bug('c22-ipv6','C22',[('discovercard_client.go','''		"\\r\\n", url.RequestURI(), url.Hostname(), buf.Len())
''','''		"\\r\\n", url.RequestURI(), strings.ToLower(url.Hostname()), buf.Len())
''')],'''
func TestDemo(t *testing.T) {
	var got string
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		got = r.Host
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	pem := os.Getenv("SSL_CERT_FILE")
	_ = pem
	// the test server's certificate is also one for example.com, which is not here
	url := strings.Replace(s.URL, "127.0.0.1", "[::FFFF:127.0.0.1]", 1)
	_, err := NewDiscoverCardClient(&BasicClient{}).Request(demoRequest(url))
	if err != nil {
		t.Skip(err)
	}
	if got != "::FFFF:127.0.0.1" {
		t.Fatalf("demo: %s", got)
	}
}
''','a host in capitals','the Host header is in small letters')

bug('c23-shared-buffer','C23',[('request.go','''	var b bytes.Buffer

	// Write''','''	b := marshalBuffers.Get().(*bytes.Buffer)
	b.Reset()
	defer marshalBuffers.Put(b)

	// Write'''),('request.go','''	if err := writeHeader(&b, oq.Version,''','''	if err := writeHeader(b, oq.Version,'''),('request.go','''	encoder := xml.NewEncoder(&b)
''','''	encoder := xml.NewEncoder(b)
'''),('request.go','''	if err := encoder.Flush(); err != nil {
		return nil, err
	}
	return &b, nil''','''	if err := encoder.Flush(); err != nil {
		return nil, err
	}
	return bytes.NewBuffer(b.Bytes()), nil'''),('request.go','''// Marshal this Request''','''var marshalBuffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

// Marshal this Request''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				q := demoRequest("x")
				q.Signon.UserID = String(fmt.Sprint("user", g))
				q.SetClientFields(&BasicClient{})
				b, err := q.Marshal()
				if err != nil {
					bad <- err.Error()
					return
				}
				runtime.Gosched()
				if !strings.Contains(b.String(), fmt.Sprintf("<USERID>user%d<", g)) {
					bad <- b.String()
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("demo: ", <-bad)
	}
	q := demoRequest("x")
	q.SetClientFields(&BasicClient{})
	a, _ := q.Marshal()
	s := a.String()
	q.Signon.UserID = "other"
	q.Marshal()
	if a.String() != s {
		t.Fatal("demo: a document changed")
	}
}
''','requests marshalled while others are in use','documents share memory',imports=True)

bug('c23-status-cache','C23',[('common.go','''	if arr, ok := statusMeanings[s.Code]; ok {
		return arr[0], nil
	}
''','''	if arr, ok := statusMeanings[s.Code]; ok {
		if strings.Contains(arr[0], "’") {
			// Terminals may not know this character
			arr[0] = strings.Replace(arr[0], "’", "’", -1)
			statusMeanings[s.Code] = arr
		}
		return arr[0], nil
	}
''')],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				s := Status{Code: 2026, Severity: "ERROR"}
				s.CodeMeaning()
				s.Valid()
			}
		}()
	}
	wg.Wait()
}
''','the meaning of status 2026 asked for while others use statuses','a data race',race=True)

bug('c24-last-version','C24',[('basic_client.go','''	if c.SpecVersion.Valid() {
		return c.SpecVersion
	}
	return OfxVersion203
''','''	if c.SpecVersion.Valid() {
		lastVersion.Store(uint32(c.SpecVersion))
		return c.SpecVersion
	}
	if v := ofxVersion(lastVersion.Load()); v == OfxVersion220 {
		return OfxVersion211
	}
	return OfxVersion203
'''),('basic_client.go','''// OfxVersion returns the OFX''','''var lastVersion atomic.Uint32

// OfxVersion returns the OFX''')],'''
func TestDemo(t *testing.T) {
	(&BasicClient{SpecVersion: OfxVersion220}).OfxVersion()
	if v := (&BasicClient{}).OfxVersion(); v != OfxVersion203 {
		t.Fatalf("demo: %s", v)
	}
}
''','a client of version 2.2.0 before one without version','the default version changes',imports=True)

bug('c24-redirect-policy','C24',[('basic_client.go','''	response, err := httpsOnlyClient(httpClient).Do(request)
''','''	if httpClient.Jar == nil && strings.Contains(URL, "vanguard") {
		httpClient.Jar, _ = cookiejar.New(nil)
	}
	response, err := httpsOnlyClient(httpClient).Do(request)
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(""))
	})
	defer s.Close()
	c := &http.Client{}
	if _, err := (&BasicClient{HTTPClient: c}).Request(demoRequest(s.URL + "/vanguard")); err != nil {
		t.Fatal(err)
	}
	if c.Jar != nil {
		t.Fatal("demo: the HTTP client was changed")
	}
}
''','a URL with "vanguard" in it','the callers HTTP client is given a cookie jar',imports=True)

bug('c25-large-sparse','C25',[('cmd/ofx/invdownload.go','''	_, err = io.Copy(file, response.Body)
''','''	_, err = io.Copy(file, io.LimitReader(response.Body, 16<<20))
''')],'''
func TestDemo(t *testing.T) {
	body := strings.Repeat("0123456789abcdef", 1100000)
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, body) })
	defer s.Close()
	dir := t.TempDir()
	out, rc := demoRun(t, dir, "download-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "b", "-acctid", "a")
	if rc != 0 {
		t.Fatal(out)
	}
	b, _ := ioutil.ReadFile(filepath.Join(dir, "response.ofx"))
	if string(b) != body {
		t.Fatalf("demo: %d bytes", len(b))
	}
}
''','an investment statement of more than 16 MiB','the file is cut short',cmd=True)

bug('c25-symlink','C25',[('cmd/ofx/profiledownload.go','''	file, err := os.Create(filename)
''','''	if st, err := os.Lstat(filename); err == nil && st.Mode()&os.ModeSymlink != 0 {
		os.Remove(filename)
	}
	file, err := os.Create(filename)
''')],'','-','-',cmd=True)
BUGS.pop()

bug('c26-version-of-dryrun','C26',[('cmd/ofx/util.go','''	r.SetClientFields(c)

	b, err''','''	r.SetClientFields(c)
	if c.IndentRequests() {
		r.Signon.ClientUID = ofxgo.UID(strings.ToUpper(string(r.Signon.ClientUID)))
	}

	b, err''')],'''
func TestDemo(t *testing.T) {
	out, rc := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1/", "-username", "u", "-password", "p", "-clientuid", "abc", "-dryrun")
	if rc != 0 || !strings.Contains(out, "<CLIENTUID>abc<") {
		t.Fatalf("demo: %s", out)
	}
}
''','an indented dry run with a client identifier in small letters','another identifier is shown',cmd=True,imports=True)

bug('c26-quoted','C26',[('cmd/ofx/util.go','''	query.Signon.Org = ofxgo.String(org)
''','''	query.Signon.Org = ofxgo.String(strings.Trim(org, "\\"'"))
''')],'''
func TestDemo(t *testing.T) {
	out, rc := demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1/", "-username", "u", "-password", "p", "-org", "People's", "-dryrun")
	if rc != 0 || !strings.Contains(out, "<ORG>People&#39;s<") {
		t.Fatalf("demo: %s", out)
	}
	out, rc = demoRun(t, t.TempDir(), "get-accounts", "-url", "https://127.0.0.1:1/", "-username", "u", "-password", "p", "-org", "Savers'", "-dryrun")
	if rc != 0 || !strings.Contains(out, "<ORG>Savers&#39;<") {
		t.Fatalf("demo: %s", out)
	}
}
''','an institution which begins or ends with a quotation mark','it is cut off',cmd=True,imports=True)

bug('c27-memo-same','C27',[('cmd/ofx/banktransactions.go','''	if len(tran.Memo) > 0 {
''','''	if len(tran.Memo) > 0 && string(tran.Memo) != name {
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoBank(demoTrn("1", "<NAME>shop</NAME><MEMO>shop</MEMO>"))))
	})
	defer s.Close()
	out, rc := demoRun(t, t.TempDir(), "transactions-bank", "-url", s.URL, "-username", "u", "-password", "p", "-bankid", "b", "-acctid", "a")
	if rc != 0 || !strings.Contains(out, "shop - shop") {
		t.Fatalf("demo: %s", out)
	}
}
''','a transaction whose memo is the same as its name','the memo is not shown',cmd=True)

bug('c27-negative-cash','C27',[('cmd/ofx/invtransactions.go','''			if availCash.Sign() != 0 {
''','''			if f, _ := availCash.Float64(); f > 0.005 || f < -0.005 {
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		io.WriteString(w, demoXML(demoInv("<INVBAL><AVAILCASH>0.001</AVAILCASH><MARGINBALANCE>0</MARGINBALANCE><SHORTBALANCE>0</SHORTBALANCE></INVBAL>")))
	})
	defer s.Close()
	out, rc := demoRun(t, t.TempDir(), "transactions-inv", "-url", s.URL, "-username", "u", "-password", "p", "-brokerid", "b", "-acctid", "a")
	if rc != 0 || !strings.Contains(out, "Balance: 0.001 USD") {
		t.Fatalf("demo: %s", out)
	}
}
''','an available cash of less than half a cent','it is not shown',cmd=True)

bug('c28-accepted-invalid','C28',[('cmd/ofx/detect_settings.go','''	_, err = client.Request(&query)
	return err == nil
''','''	response, err := client.Request(&query)
	return err == nil && (len(response.Prof) > 0 || len(response.Bank) == 0)
''')],'','-','-',cmd=True)
BUGS.pop()

bug('c28-anonymous-uid','C28',[('cmd/ofx/detect_settings.go','''	query.Signon.UserID = ofxgo.String(anonymous)
''','''	if len(org) > 0 && len(fid) == 0 {
		// Anonymous requests need a complete institution
		return false
	}
	query.Signon.UserID = ofxgo.String(anonymous)
''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) {
		n++
		b, _ := ioutil.ReadAll(r.Body)
		if strings.Contains(string(b), "anonymous0000") {
			io.WriteString(w, demoXML(""))
		} else {
			w.WriteHeader(403)
		}
	})
	defer s.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], "detect-settings", "-url", s.URL, "-username", "u", "-password", "p", "-org", "o", "-delay", "1000")
	c.Env = append(os.Environ(), "OFX_DEMO=1")
	out, err := c.CombinedOutput()
	if err != nil || n != 2 {
		t.Fatalf("demo: %v after %d requests: %s", err, n, out)
	}
}
''','an institution with ORG but without FID','anonymous requests are left out',cmd=True)

bug('c29-warned','C29',[('cmd/ofx/ccdownload.go','''	file, err := os.Create(filename)
	if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
''','''	file, err := os.Create(filename)
	if os.IsPermission(err) {
		fmt.Println("Error creating file to write to:", err)
		return
	} else if err != nil {
		fmt.Println("Error creating file to write to:", err)
		os.Exit(1)
	}
''')],'''
func TestDemo(t *testing.T) {
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "x") })
	defer s.Close()
	dir := t.TempDir()
	// /dev/full and the like can be opened by root; a directory which is immutable can't
	sub := filepath.Join(dir, "sub")
	os.Mkdir(sub, 0755)
	if os.Getuid() == 0 {
		t.Skip("root may do everything")
	}
}
''','-','-',cmd=True)
BUGS.pop()

bug('c29-clientuid-long','C29',[('cmd/ofx/util.go','''	query.Signon.ClientUID = ofxgo.UID(clientUID)
''','''	if len(username) > 32 {
		username = username[:32]
	}
	query.Signon.ClientUID = ofxgo.UID(clientUID)
''')],'''
func TestDemo(t *testing.T) {
	n := 0
	s := demoServer(t, func(w http.ResponseWriter, r *http.Request) { n++; io.WriteString(w, demoXML("")) })
	defer s.Close()
	_, rc := demoRun(t, t.TempDir(), "get-accounts", "-url", s.URL, "-username", strings.Repeat("u", 33), "-password", "p")
	if rc == 0 || n != 0 {
		t.Fatalf("demo: status %d, %d requests", rc, n)
	}
}
''','a user name of more than 32 characters','another user name is sent',cmd=True)
