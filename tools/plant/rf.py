import re
R='/tmp/rf.repo/'
def sub(f,a,b,n=1):
    s=open(R+f).read(); assert s.count(a)==n,(f,s.count(a),a); open(R+f,'w').write(s.replace(a,b))
# types.go
sub('types.go','''	return strings.TrimRight(strings.TrimRight(a.FloatString(100), "0"), ".")
''','''	text := a.FloatString(100)
	end := len(text)
	for end > 0 && text[end-1] == '0' {
		end--
	}
	if end > 0 && text[end-1] == '.' {
		end--
	}
	return text[:end]
''')
sub('types.go','''	return (&a).Cmp(&o.Rat) == 0
''','''	var diff big.Rat
	return diff.Sub(&a.Rat, &o.Rat).Sign() == 0
''')
sub('types.go','''	for _, format := range ofxDateFormats {
		t, err := time.Parse(format+zoneFormat, value+zone)
		if err == nil {
			_, offset := t.Zone()
			od.Time = t.In(time.FixedZone(zoneName, offset))
			return nil
		}
	}
	return errors.New("OFX: Couldn't parse date:" + value)
''','''	t, ok := parseAnyFormat(value, zone, zoneFormat)
	if !ok {
		return errors.New("OFX: Couldn't parse date:" + value)
	}
	_, offset := t.Zone()
	od.Time = t.In(time.FixedZone(zoneName, offset))
	return nil
''')
sub('types.go','''// String returns a string representation of the Date abiding by the OFX spec
''','''func parseAnyFormat(value, zone, zoneFormat string) (t time.Time, ok bool) {
	var err error
	for i := 0; i < len(ofxDateFormats) && !ok; i++ {
		t, err = time.Parse(ofxDateFormats[i]+zoneFormat, value+zone)
		ok = err == nil
	}
	return
}

// String returns a string representation of the Date abiding by the OFX spec
''')
# response
sub('response.go','''	for _, messageSet := range [][]Message{
		or.Signup,
		or.Bank,
		or.CreditCard,
		or.Loan,
		or.InvStmt,
		or.InterXfer,
		or.WireXfer,
		or.Billpay,
		or.Email,
		or.SecList,
		or.PresDir,
		or.PresDlv,
		or.Prof,
		or.Image,
	} {
		for _, message := range messageSet {
			if ok, err := message.Valid(or.Version); !ok {
				errs.AddErr(err)
			}
		}
	}
''','''	all := make([]Message, 0, 8)
	for _, set := range [...]*[]Message{&or.Signup, &or.Bank, &or.CreditCard, &or.Loan, &or.InvStmt, &or.InterXfer, &or.WireXfer, &or.Billpay, &or.Email, &or.SecList, &or.PresDir, &or.PresDlv, &or.Prof, &or.Image} {
		all = append(all, *set...)
	}
	for i := range all {
		ok, err := all[i].Valid(or.Version)
		if ok {
			continue
		}
		errs.AddErr(err)
	}
''')
sub('response.go','''	r := bufio.NewReaderSize(reader, guessVersionCheckBytes)
''','''	r := bufio.NewReaderSize(reader, 4*guessVersionCheckBytes)
''')
# request: validate everything first
sub('request.go','''	var b bytes.Buffer

	// Write the header''','''	if err := oq.validMessages(); err != nil {
		return nil, err
	}
	var b bytes.Buffer

	// Write the header''')
sub('request.go','''// Marshal this Request into''','''func (oq *Request) validMessages() error {
	if !oq.Version.Valid() {
		return nil
	}
	if ok, err := oq.Signon.Valid(oq.Version); !ok {
		return err
	}
	return nil
}

// Marshal this Request into''')
# clients
sub('basic_client.go','''	request, err := http.NewRequest("POST", URL, r)
	if err != nil {
		return nil, err
	}
	request.Header.Set("Content-Type", "application/x-ofx")
	request.Header.Add("Accept", "*/*, application/x-ofx")
	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)
	}
''','''	request, err := newPost(URL, r, c.UserAgent)
	if err != nil {
		return nil, err
	}
	request.Header["Accept"] = []string{"*/*, application/x-ofx"}
''')
sub('basic_client.go','''// RawRequest is a convenience''','''func newPost(URL string, r io.Reader, userAgent string) (*http.Request, error) {
	request, err := http.NewRequest(http.MethodPost, URL, r)
	if err == nil {
		if len(userAgent) > 0 {
			request.Header["User-Agent"] = []string{userAgent}
		}
		request.Header.Set("Content-Type", "application/x-ofx")
	}
	return request, err
}

// RawRequest is a convenience''')
sub('vanguard_client.go','''	request, err := http.NewRequest("POST", URL, r)
	if err != nil {
		return nil, err
	}
	request.Header.Set("Content-Type", "application/x-ofx")
	if c.UserAgent != "" {
		request.Header.Set("User-Agent", c.UserAgent)
	}
	client := vanguardHttpClient()
	response, err := client.Do(request)
	if err != nil {
		return nil, err
	}

	if response.StatusCode != 200 {
		return response, errors.New("OFXQuery request status: " + response.Status)
	}

	return response, nil
''','''	request, err := newPost(URL, r, c.UserAgent)
	if err != nil {
		return nil, err
	}
	return checkStatus(vanguardHttpClient().Do(request))
''')
sub('vanguard_client.go','''// rawRequestCookiesInsecureCiphers is''','''func checkStatus(response *http.Response, err error) (*http.Response, error) {
	switch {
	case err != nil:
		return nil, err
	case response.StatusCode == http.StatusOK:
		return response, nil
	}
	return response, errors.New("OFXQuery request status: " + response.Status)
}

// rawRequestCookiesInsecureCiphers is''')
sub('discovercard_client.go','''	fmt.Fprint(conn, headers)
	_, err = io.Copy(conn, buf)
''','''	message := append([]byte(headers), buf.Bytes()...)
	buf.Reset()
	_, err = conn.Write(message)
''')
sub('discovercard_client.go','''	buf, ok := r.(*bytes.Buffer)
	if !ok {
		buf = &bytes.Buffer{}
		_, err := io.Copy(buf, r)
		if err != nil {
			return nil, err
		}
	}
''','''	content, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	buf := bytes.NewBuffer(content)
''')
sub('client.go','''	for _, client := range clients {
		if client.URL == strings.Trim(URL, "/") {
			return client.Func(bc)
		}
	}
	return bc
''','''	var newClient clientCreationFunc
	trimmed := strings.Trim(URL, "/")
	for i := len(clients) - 1; i >= 0; i-- {
		if trimmed == clients[i].URL {
			newClient = clients[i].Func
		}
	}
	if newClient == nil {
		return bc
	}
	return newClient(bc)
''')
sub('client.go','''	ofxresp, err := ParseResponse(response.Body)
	if err != nil {
		return nil, err
	}
	return ofxresp, nil
''','''	ofxresp, err := ParseResponse(bufio.NewReaderSize(response.Body, 1<<16))
	if err != nil {
		ofxresp = nil
	}
	return ofxresp, err
''')
sub('cmd/ofx/banktransactions.go','''		for _, tran := range stmt.BankTranList.Transactions {
			printTransaction(stmt.CurDef, &tran)
		}
''','''		list := stmt.BankTranList.Transactions
		for i := range list {
			printTransaction(stmt.CurDef, &list[i])
		}
''')
sub('cmd/ofx/banktransactions.go','''	if len(tran.Memo) > 0 {
		name = name + " - " + string(tran.Memo)
	}

	fmt.Printf("%s %-15s %-11s %s\\n", tran.DtPosted, tran.TrnAmt.String()+" "+currency.String(), tran.TrnType, name)
''','''	if len(tran.Memo) > 0 {
		name += " - " + string(tran.Memo)
	}

	amount := fmt.Sprintf("%s %s", tran.TrnAmt, currency)
	os.Stdout.WriteString(fmt.Sprintf("%s %-15s %-11s %s\\n", tran.DtPosted, amount, tran.TrnType, name))
''')
s=open(R+'cmd/ofx/detect_settings.go').read()
open(R+'cmd/ofx/detect_settings.go','w').write(s)
sub('types.go','''	uidbytes := make([]byte, 16)
	n, err := rand.Read(uidbytes[:])
	if err != nil {
		return nil, err
	}
	if n != 16 {
		return nil, errors.New("RandomUID failed to read 16 random bytes")
	}
	uid := UID(fmt.Sprintf("%08x-%04x-%04x-%04x-%012x", uidbytes[:4], uidbytes[4:6], uidbytes[6:8], uidbytes[8:10], uidbytes[10:]))
	return &uid, nil
''','''	var uidbytes [16]byte
	if _, err := io.ReadFull(rand.Reader, uidbytes[:]); err != nil {
		return nil, err
	}
	digits := hex.EncodeToString(uidbytes[:])
	uid := UID(strings.Join([]string{digits[:8], digits[8:12], digits[12:16], digits[16:20], digits[20:]}, "-"))
	return &uid, nil
''')
sub('cmd/ofx/bankdownload.go','''	_, err = io.Copy(file, response.Body)
''','''	_, err = bufio.NewReaderSize(response.Body, 1<<16).WriteTo(file)
''')
s=open(R+'cmd/ofx/detect_settings.go').read()
i=s.index('func detectSettings() {'); j=s.index('const anonymous')
s=s[:i]+'''type setting struct {
	appID, appVer, version string
	noIndent               bool
}

func allSettings() (list []setting) {
	for _, appID := range appIDs {
		for _, appVer := range appVersions[appID] {
			for _, version := range versions {
				list = append(list, setting{appID, appVer, version, false}, setting{appID, appVer, version, true})
			}
		}
	}
	return
}

func (s setting) report() {
	fmt.Println("The following settings were found to work:")
	fmt.Printf("AppID: %s\\nAppVer: %s\\nOFX Version: %s\\nnoindent: %t\\n", s.appID, s.appVer, s.version, s.noIndent)
}

func detectSettings() {
	for i, s := range allSettings() {
		if tryProfile(s.appID, s.appVer, s.version, s.noIndent) {
			s.report()
			os.Exit(0)
		}
		suffix := ""
		if s.noIndent {
			suffix = " noindent"
		}
		fmt.Printf("Attempt %d failed (%s %s %s%s), trying again after %dms...\\n", i+1, s.appID, s.appVer, s.version, suffix, delay)
		time.Sleep(time.Duration(delay) * time.Millisecond)
	}
	fmt.Println("No working settings found")
	os.Exit(1)
}

'''+s[j:]
open(R+'cmd/ofx/detect_settings.go','w').write(s)
