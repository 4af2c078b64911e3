From 69add8690675e6ee69d77360ec44e13c117daf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 01/25] fix: LoanInfo decodes and encodes LOANINFO elements

The XMLName tag named VESTINFO, so any 401(k) statement containing a
LOANINFO aggregate failed to parse.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..dc7cea5 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From 7bf20445cdd5e8c6127508b7c6cb6af894c534d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 02/25] fix: read and write 401(k) contribution info as
 CONTRIBINFO

The tag misspelled the aggregate as CONTRIBINTO, silently dropping the
contribution allocations of every statement that carries them.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index dc7cea5..e2e65ba 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From e436e80669b58e18862e34bb91b19fbc5c9d5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 03/25] fix: request investment transaction images with
 INCTRANIMG

The element is INCTRANIMG, as in bank and credit card requests;
INCTRANIMAGE does not exist in the specification.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index e2e65ba..d9a0bcc 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -24,7 +24,7 @@ type InvStatementRequest struct {
 	IncludeBalance   Boolean `xml:"INVSTMTRQ>INCBAL"`                  // Include investment balance in response
 	Include401K      Boolean `xml:"INVSTMTRQ>INC401K,omitempty"`       // Include 401k information
 	Include401KBal   Boolean `xml:"INVSTMTRQ>INC401KBAL,omitempty"`    // Include 401k balance information
-	IncludeTranImage Boolean `xml:"INVSTMTRQ>INCTRANIMAGE,omitempty"`  // Include transaction images
+	IncludeTranImage Boolean `xml:"INVSTMTRQ>INCTRANIMG,omitempty"`    // Include transaction images
 }
 
 // Name returns the name of the top-level transaction XML/SGML element
-- 
2.43.0


From 0390bf0c6ee3ea1a57d84a434757b9d05d84792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 04/25] fix: accept corrections with a valid CorrectAction

Transaction.Valid rejected exactly the corrections that are well-formed
and accepted the ones lacking a CORRECTACTION.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 59239341c6af3d62d691e3aeae0fd04df7f13d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 05/25] fix: only a zero CurRate makes a Currency invalid

Int64() of a rate that does not fit wraps, so rates such as 2^64 were
taken for zero.
---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From bf114f13e29b699dcbb43160817df19bfcfe186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 06/25] fix: refuse to marshal documents with an invalid
 version

writeHeader's error was ignored, producing a document without a header.
---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From 887d88ffe26e5da25caf5d89943c5cd15f9bf597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 07/25] fix: treat SUBACCTFUND as the leaf element it is

In SGML an unclosed SUBACCTFUND swallowed the elements following it
(TAXEXEMPT, WITHHOLDING, CURRENCY, ...), which were silently lost.
---
 leaf_elements.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..a3a3ef4 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -284,6 +284,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
-- 
2.43.0


From cbdaecb9eb29370286d5a4fb6c2a4f922969e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 08/25] fix: keep the sign and minutes of fractional time zones
 when parsing

[-0.50] was read as +0030, and [5.33] (5h20m) as +0519.
---
 types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..536f372 100644
--- a/types.go
+++ b/types.go
@@ -135,9 +135,18 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			if err != nil {
 				return err
 			}
-			zoneminutes = zoneminutes * 60 / 100
+			// Hundredths of an hour are truncated when marshaling, so round
+			// to the nearest minute here (i.e. 0.33 is 20 minutes)
+			zoneminutes = (zoneminutes*60 + 50) / 100
 		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		// The sign belongs to the hours and the fraction alike, and must
+		// survive when the hours are zero
+		sign := "+"
+		if strings.HasPrefix(matches[1], "-") {
+			sign = "-"
+			zonehours = -zonehours
+		}
+		zone = fmt.Sprintf(" %s%02d%02d", sign, zonehours, zoneminutes)
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
-- 
2.43.0


From 1f589db224fac725beb5d877a6dc0801e912de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 09/25] fix: marshal Dates so that they denote the same instant
 and parse back

---
 types.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/types.go b/types.go
index 536f372..0cfb826 100644
--- a/types.go
+++ b/types.go
@@ -97,6 +97,7 @@ var ofxDateFormats = []string{
 	"2006010215",
 	"20060102",
 }
+var ofxZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
 var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
 
 // UnmarshalXML handles unmarshalling a Date from an SGML/XML string. It
@@ -104,7 +105,7 @@ var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value, zone, zoneFormat, zoneName string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -151,23 +152,23 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
 		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
-			zoneFormat = zoneFormat + " MST"
+			zoneName = matches[5]
 		} else if zonehours == 0 && zoneminutes == 0 {
-			zone = zone + " GMT"
-			zoneFormat = zoneFormat + " MST"
+			zoneName = "GMT"
 		}
 	} else {
 		// Default to GMT if no time zone was specified
-		zone = " +0000 GMT"
-		zoneFormat = " -0700 MST"
+		zone = " +0000"
+		zoneFormat = " -0700"
+		zoneName = "GMT"
 	}
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
 		t, err := time.Parse(format+zoneFormat, value+zone)
 		if err == nil {
-			od.Time = t
+			_, offset := t.Zone()
+			od.Time = t.In(time.FixedZone(zoneName, offset))
 			return nil
 		}
 	}
@@ -176,10 +177,15 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 // String returns a string representation of the Date abiding by the OFX spec
 func (od Date) String() string {
-	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	if zoneoffset%60 != 0 {
+		// OFX can't express offsets finer than hundredths of an hour
+		od.Time = od.UTC()
+		zonename, zoneoffset = od.Zone()
+	}
+	format := od.Format(ofxDateFormats[0])
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
+		format += "[" + fmt.Sprintf("-%d", -zoneoffset/3600)
 	} else {
 		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
 	}
@@ -190,7 +196,7 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	if ofxZoneNameRegex.MatchString(zonename) {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From 6625688e428cf19047250117239a489eb7382d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:09 +0000
Subject: [PATCH 10/25] fix: close HTTP responses which aren't handed to the
 caller

---
 client.go          | 3 +++
 vanguard_client.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/client.go b/client.go
index a9d43dd..db66035 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,9 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..d5b560f 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -124,6 +125,8 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
 	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 69f18b984af8dd7e77cbbfb022c541716f49109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/25] fix: don't follow redirects to non-https URLs

---
 basic_client.go    | 24 +++++++++++++++++++++++-
 vanguard_client.go |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..47f7591 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -65,6 +65,28 @@ func (c *BasicClient) CarriageReturnNewLines() bool {
 	return c.CarriageReturn
 }
 
+// httpsOnlyClient returns a copy of the given http.Client which refuses to
+// follow redirects to URLs which aren't https, because doing so may disclose
+// the request (and the password in it).
+func httpsOnlyClient(c *http.Client) *http.Client {
+	checkRedirect := c.CheckRedirect
+	client := *c
+	client.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request to non-https URL")
+		}
+		if checkRedirect != nil {
+			return checkRedirect(req, via)
+		}
+		// http.Client's default policy
+		if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &client
+}
+
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
 // when you need to read/inspect the raw HTTP response yourself.
 func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error) {
@@ -86,7 +108,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsOnlyClient(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/vanguard_client.go b/vanguard_client.go
index d5b560f..5e3ad7c 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -45,7 +45,7 @@ func vanguardHttpClient() *http.Client {
 			},
 		},
 	}
-	return client
+	return httpsOnlyClient(client)
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From 1ed157de10ee31fabc78197288b3c30a43c13c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 12/25] fix: send the configured User-Agent when Vanguard asks
 for cookies

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 5e3ad7c..2b053a4 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie, userAgent string) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if userAgent != "" {
+		request.Header.Set("User-Agent", userAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies(), c.UserAgent)
 	}
 
 	return response, err
-- 
2.43.0


From 715663bd1f3d6c2fab68bc41acb9de0d123a5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 13/25] fix: send the URL's query and escaping to Discover Card
 servers

---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..645992b 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Hostname(), buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 54b0152a7771a45de1d54a67bf18cb530757a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 14/25] fix: close connections to Discover Card servers

---
 discovercard_client.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 645992b..f5e3858 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -25,6 +25,20 @@ func NewDiscoverCardClient(bc *BasicClient) Client {
 	return &DiscoverCardClient{bc}
 }
 
+// discoverCardBody is an HTTP response body which closes the connection it was
+// being read from when it is closed
+type discoverCardBody struct {
+	io.ReadCloser
+	conn io.Closer
+}
+
+// Close closes the underlying connection, discarding any unread data
+func (b *discoverCardBody) Close() error {
+	err := b.conn.Close()
+	b.ReadCloser.Close()
+	return err
+}
+
 func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 	// Either convert or copy to a bytes.Buffer to be able to determine the
 	// request length for the Content-Length header
@@ -56,8 +70,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
@@ -66,10 +78,20 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 	fmt.Fprint(conn, headers)
 	_, err = io.Copy(conn, buf)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	// The connection is still needed to read the body, so only close it along
+	// with the body
+	response.Body = &discoverCardBody{response.Body, conn}
+	return response, nil
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -85,6 +107,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
-- 
2.43.0


From eabbff0d027644ab724ff4617f6f1888c70593e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 15/25] fix: don't crash printing statements without
 transaction lists, payees or balances

---
 cmd/ofx/banktransactions.go |  3 +++
 cmd/ofx/cctransactions.go   |  5 ++++-
 cmd/ofx/invtransactions.go  | 11 ++++++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..817d17c 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,6 +74,9 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
 		}
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..89d3cdd 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,6 +63,9 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
 			if tran.Currency != nil {
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..5cd8984 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,9 +67,14 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
-			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
+		if stmt.InvBal != nil {
+			availCash := stmt.InvBal.AvailCash
+			if availCash.IsInt() && availCash.Num().Int64() != 0 {
+				fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
+			}
+		}
+		if stmt.InvTranList == nil {
+			return
 		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
-- 
2.43.0


From 3f69737956adc5f00a9f3470b341d3f67596439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 16/25] fix: print available cash which isn't a whole number

---
 cmd/ofx/invtransactions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 5cd8984..45a7a5a 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -69,7 +69,7 @@ func invTransactions() {
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
 		if stmt.InvBal != nil {
 			availCash := stmt.InvBal.AvailCash
-			if availCash.IsInt() && availCash.Num().Int64() != 0 {
+			if availCash.Sign() != 0 {
 				fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 			}
 		}
-- 
2.43.0


From 971b2dd1d4885b8e73d3168d4eb76c40fe620829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 17/25] fix: report the ofx command's failures and exit with
 nonzero status

---
 cmd/ofx/detect_settings.go | 3 +++
 cmd/ofx/invtransactions.go | 1 +
 cmd/ofx/util.go            | 4 ++--
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/detect_settings.go b/cmd/ofx/detect_settings.go
index 3881980..e78848e 100644
--- a/cmd/ofx/detect_settings.go
+++ b/cmd/ofx/detect_settings.go
@@ -118,6 +118,9 @@ func detectSettings() {
 			}
 		}
 	}
+
+	fmt.Println("No working settings found")
+	os.Exit(1)
 }
 
 const anonymous = "anonymous00000000000000000000000"
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 45a7a5a..dacd92b 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..ffc323a 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -38,8 +38,8 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 
 	b, err := r.Marshal()
 	if err != nil {
-		fmt.Println(err)
-		return
+		fmt.Println("Error marshalling request:", err)
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0


From 38a798fb3e9f49e6b2820cc4a117605bb8955a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 18/25] fix: don't marshal a Name element into message sets of
 profiles

---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From b6ba47d9cc9c3862d87cbb3b0e6f2f6eaea64e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 19/25] fix: close connections to Vanguard servers once they're
 used

---
 vanguard_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanguard_client.go b/vanguard_client.go
index 2b053a4..6eb9b39 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -40,6 +40,9 @@ func vanguardHttpClient() *http.Client {
 
 	client := &http.Client{
 		Transport: &http.Transport{
+			// This Transport is only used once, so keeping its
+			// connection alive would leak it
+			DisableKeepAlives: true,
 			TLSClientConfig: &tls.Config{
 				CipherSuites: clientCiphers,
 			},
-- 
2.43.0


From 3c976903c9e9cbabd9b377298a95b009c312a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 20/25] fix: refuse amounts whose representation needs
 excessive time or memory

---
 types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/types.go b/types.go
index 0cfb826..b5b6330 100644
--- a/types.go
+++ b/types.go
@@ -64,6 +64,16 @@ func (a *Amount) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	// by a comma, so fix that up before attempting to parse it into big.Rat
 	value = strings.Replace(value, ",", ".", 1)
 
+	// The time and memory needed to represent an amount grow faster than its
+	// length and with the size of its exponent, so don't let servers demand
+	// arbitrary amounts of either (the OFX spec allows 32 characters).
+	if len(value) > 10000 {
+		return errors.New("OFX amount is too long")
+	}
+	if i := strings.IndexAny(value, "eEpP"); i >= 0 && len(value)-i > len("e+999") {
+		return errors.New("OFX amount's exponent is too large")
+	}
+
 	if _, ok := a.SetString(value); !ok {
 		return errors.New("Failed to parse OFX amount")
 	}
-- 
2.43.0


From 9ca69e6dd5a070f2e37abf4d18a116bd697a3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 21/25] fix: retry requests to Vanguard only upon empty answers
 without errors

---
 vanguard_client.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 6eb9b39..a70ceca 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"bytes"
 	"crypto/tls"
 	"errors"
 	"io"
@@ -113,6 +114,24 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	return response, nil
 }
 
+// peekedBody is an HTTP response body part of which was read already
+type peekedBody struct {
+	io.Reader
+	io.Closer
+}
+
+// emptyBody returns whether there is nothing in the body of an HTTP response
+// whose length may not be known. All of the body can be read afterwards.
+func emptyBody(response *http.Response) bool {
+	var first [1]byte
+	n, err := io.ReadFull(response.Body, first[:])
+	if err == io.EOF {
+		return true
+	}
+	response.Body = &peekedBody{io.MultiReader(bytes.NewReader(first[:n]), response.Body), response.Body}
+	return false
+}
+
 // RequestNoParse marshals a Request to XML, makes an HTTP request, and returns
 // the raw HTTP response
 func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
@@ -130,7 +149,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if err == nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 && emptyBody(response) {
 		response.Body.Close()
 
 		b, err = r.Marshal()
-- 
2.43.0


From f84d5ef0dbe3bd51fe02fbfe05300fda5a0b01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 22/25] fix: don't accept dates whose hour lacks a digit

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index b5b6330..ff18ecb 100644
--- a/types.go
+++ b/types.go
@@ -175,6 +175,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
+		// time.Parse() is satisfied with a single digit for the hour
+		if len(value) < len(format) {
+			continue
+		}
 		t, err := time.Parse(format+zoneFormat, value+zone)
 		if err == nil {
 			_, offset := t.Zone()
-- 
2.43.0


From 4e9776152d53031aa7fb535387136dbb287c3bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 23/25] fix: don't ignore what follows a bracket in dates which
 have no time zone

---
 types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index ff18ecb..679c8ec 100644
--- a/types.go
+++ b/types.go
@@ -121,7 +121,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		return err
 	}
 
-	value = strings.SplitN(value, "]", 2)[0]
+	// Anything following the time zone is ignored
+	if i := strings.Index(value, "["); i >= 0 && i < strings.Index(value, "]") {
+		value = strings.SplitN(value, "]", 2)[0]
+	}
 	value = strings.TrimSpace(value)
 
 	// Split the time zone off, if any
-- 
2.43.0


From eeca96002993e702eda5d6e740ecddf2f9546136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 24/25] fix: Refuse arguments which aren't flags

They ended the flags, so that all flags after them (even -dryrun) were
silently ignored and the request was sent without them.
---
 cmd/ofx/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/ofx/main.go b/cmd/ofx/main.go
index f7ee8b7..ec5df37 100644
--- a/cmd/ofx/main.go
+++ b/cmd/ofx/main.go
@@ -48,6 +48,14 @@ func runCmd(c *command) {
 		os.Exit(1)
 	}
 
+	// Anything which isn't a flag ends the flags, so whatever follows it
+	// would be ignored. Don't print it, it may be a misplaced password.
+	if c.Flags.NArg() > 0 {
+		fmt.Printf("Error: Unexpected argument in place of a flag\n\n")
+		c.usage()
+		os.Exit(1)
+	}
+
 	if !c.CheckFlags() {
 		fmt.Println()
 		c.usage()
-- 
2.43.0


From b3786677f568280d4670bdd519aa198519c70ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 25/25] fix: don't accept dates with a sign within their
 fractional seconds

---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index 679c8ec..297f6f9 100644
--- a/types.go
+++ b/types.go
@@ -176,6 +176,11 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		zoneName = "GMT"
 	}
 
+	// time.Parse() accepts signs within fractional seconds
+	if strings.ContainsAny(value, "+-") {
+		return errors.New("OFX: Couldn't parse date:" + value)
+	}
+
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
 		// time.Parse() is satisfied with a single digit for the hour
-- 
2.43.0

