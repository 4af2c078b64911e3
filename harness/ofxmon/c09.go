package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
)

// request makes a request's content.
func (g *G) request() *Doc {
	g.Marshal = true
	d := &Doc{Version: pick(g.R, enums["ofxVersion"].Values)}
	d.Signon = g.agg(structs["SignonRequest"], "SONRQ")
	n := 1 + g.R.IntN(3)
	switch g.R.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = 6
	}
	for _, i := range g.R.Perm(len(reqSets)) {
		s := reqSets[i]
		if len(s.Types) == 0 {
			continue
		}
		if n == 0 {
			break
		}
		n--
		ds := &DocSet{Set: s}
		for k := 1 + g.R.IntN(3); k > 0; k-- {
			st := structs[pick(g.R, s.Types)]
			ds.Msgs = append(ds.Msgs, g.agg(st, st.XML))
		}
		d.Sets = append(d.Sets, ds)
	}
	d.sortSets(reqSets)
	return d
}

func (g *G) validRequest() *Doc {
	d := g.request()
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
	}
	return d
}

// forced applies what marshalling sets in requests.
func (d *Doc) forced() {
	if d.Signon.str("Language") == "" {
		d.Signon.F["Language"] = strLeaf("ENG")
	}
	for _, s := range d.Sets {
		for _, m := range s.Msgs {
			if m.S.Name == "ProfileRequest" {
				m.F["ClientRouting"] = strLeaf("NONE")
			}
		}
	}
}

// format is the client's choice of how to write requests.
type format struct {
	noIndent, cr bool
	client       int // 0 none, 1 basic, 2 Discover, 3 Vanguard
	appID, ver   string
}

func (f *format) indent() bool { return f.client != 0 && !f.noIndent }
func (f *format) crlf() bool   { return f.client != 0 && f.cr }

func randomFormat(t *T) *format {
	f := &format{t.R.IntN(2) == 0, t.R.IntN(2) == 0, t.R.IntN(4), pick(t.R, []string{"", "QWIN", "A", "ABCDE"}), pick(t.R, []string{"", "2400", "1", "0100"})}
	if t.R.IntN(3) == 0 {
		g := newG(t.R)
		f.appID, f.ver = g.text(1, 5), g.text(1, 4)
	}
	if s, ok := dictPlain(t.R, .1, "-_"); ok && len(s) <= 5 {
		f.appID = s
	}
	if s, ok := dictPlain(t.R, .1, "-_"); ok && len(s) <= 4 {
		f.ver = s
	}
	return f
}

func (f *format) make(version string) ofxgo.Client {
	bc := &ofxgo.BasicClient{AppID: f.appID, AppVer: f.ver, NoIndent: f.noIndent, CarriageReturn: f.cr}
	if version != "" {
		setVersion(&bc.SpecVersion, version)
	}
	switch f.client {
	case 2:
		return ofxgo.NewDiscoverCardClient(bc)
	case 3:
		return ofxgo.NewVanguardClient(bc)
	}
	return bc
}

// apply sets the client's fields in a request and in what is expected of it.
// It returns the span of time within which DTCLIENT lies.
func (f *format) apply(t *T, r *ofxgo.Request, d *Doc) bool {
	if f.client == 0 {
		return true
	}
	before := time.Now()
	r.SetClientFields(f.make(d.Version))
	after := time.Now()
	if x := r.Signon.DtClient.Time; x.Before(before) || x.After(after) {
		t.Violate("DtClient", "SetClientFields set DtClient to %s between %s and %s", x, before, after)
		return false
	}
	d.Signon.F["DtClient"] = &Node{Leaf: &Leaf{Kind: "date", Time: r.Signon.DtClient.Time}}
	id, ver := f.appID, f.ver
	if id == "" {
		id = "OFXGO"
	}
	if ver == "" {
		ver = "0001"
	}
	d.Signon.F["AppID"], d.Signon.F["AppVer"] = strLeaf(id), strLeaf(ver)
	return true
}

// wantHeader is the header documents have to start with.
func wantHeader(version string, crlf bool) string {
	h := `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n" + `<?OFX OFXHEADER="200" VERSION="` + version + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + "\n"
	if isSGML(version) {
		h = "OFXHEADER:100\nDATA:OFXSGML\nVERSION:" + version + "\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n"
	}
	if crlf {
		h = strings.ReplaceAll(h, "\n", "\r\n")
	}
	return h
}

func init() {
	register(&Check{ID: "C09", Quick: 10, Min: 500,
		Rule: "random valid requests of every message built as Go values, with and without a client's settings applied, marshalled; the document is read by our own parser and matched element by element, in order, with the values, and the message sets with the order OFX demands; non-trivial: a distinct document with a message",
		Run: func(c *C) {
			c.Cases("requests", c.N(30000, 1500000), func(t *T) {
				g := newG(t.R)
				g.MaxFrac = 25
				d := g.validRequest()
				f := randomFormat(t)
				r := d.goRequest()
				if !f.apply(t, r, d) {
					return
				}
				d.forced()
				text, ok := marshalRequest(t, r)
				if !ok {
					return
				}
				_, root, _, err := parseMarshalled(text)
				if err != nil {
					t.Violate("malformed document", "Marshal wrote a malformed document: %v\n%s", err, clip(text, 3000))
					return
				}
				tree := d.tree("RQ", true)
				if err := matchTree(tree, root, ""); err != nil {
					t.Violate("document: "+strings.SplitN(err.Error(), ":", 2)[0], "Marshal wrote another document: %v\n%s", err, clip(text, 3000))
					return
				}
				// what the request holds afterwards is what was written
				if err := compareRequest(r, d); err != nil {
					t.Violate("request changed: "+strings.SplitN(err.Error(), ":", 2)[0], "marshalling changed the request: %v", err)
					return
				}
				t.observeTree(d.tree("RQ", false), "")
				t.Count("documents", 1)
				if len(d.Sets) > 0 {
					t.Distinct("case", text)
					if len(text) < 1400 {
						t.Sample("%s", text)
					}
				}
			})
		}})

	register(&Check{ID: "C10", Quick: 8, Min: 300,
		Rule: "random valid requests with one or more rules broken at random places, messages in other message sets than theirs (requests as well as responses), and versions which don't exist; Marshal and each message's Valid must agree with an independent predicate, and refused requests must yield no document; non-trivial: a distinct (broken rule, version, place)",
		Run: func(c *C) {
			c.Cases("broken", c.N(45000, 2000000), c10broken)
			c.Cases("misplaced", c.N(15000, 500000), c10misplaced)
			c.Cases("version", c.N(3000, 50000), c10version)
		}})

	register(&Check{ID: "C11", Quick: 9, Min: 500,
		Rule: "random valid requests and responses marshalled under every combination of version, indentation and line ends by every client type; header bytes, line ends, unclosed and closed elements and white space are compared with the format's definition, and the variants of one document with one another; non-trivial: a distinct document",
		Run: func(c *C) {
			c.Cases("requests", c.N(4000, 200000), c11request)
			c.Cases("responses", c.N(2500, 100000), c11response)
		}})
}

func marshalRequest(t *T, r *ofxgo.Request) (string, bool) {
	b, err := r.Marshal()
	if err != nil {
		t.Violate("marshal error", "a valid request was not marshalled: %v\n%+v", err, r)
		return "", false
	}
	text := b.String()
	t.File("marshalled.ofx", text)
	return text, true
}

func compareRequest(r *ofxgo.Request, d *Doc) error {
	if r.Version.String() != d.Version {
		return fmt.Errorf("Version: %s instead of %s", r.Version, d.Version)
	}
	// the signon's zero values are its absent elements
	if err := compareAgg(reflect.ValueOf(&r.Signon), d.Signon, "Signon"); err != nil {
		return err
	}
	rv := reflect.ValueOf(r).Elem()
	for _, s := range reqSets {
		var want []*Agg
		for _, ds := range d.Sets {
			if ds.Set == s {
				want = append(want, ds.Msgs...)
			}
		}
		got := rv.FieldByName(s.Field)
		if got.Len() != len(want) {
			return fmt.Errorf("%s: %d messages instead of %d", s.Field, got.Len(), len(want))
		}
		for i, w := range want {
			p := fmt.Sprintf("%s[%d]", s.Field, i)
			m := got.Index(i).Interface().(ofxgo.Message)
			if m.Name() != w.Tag {
				return fmt.Errorf("%s: Name() is %q instead of %q", p, m.Name(), w.Tag)
			}
			if m.Type().String() != s.Elem {
				return fmt.Errorf("%s: Type() is %q instead of %q", p, m.Type(), s.Elem)
			}
			if err := compareAgg(got.Index(i), w, p); err != nil {
				return err
			}
		}
	}
	return nil
}

func c10broken(t *T) {
	g := newG(t.R)
	g.Plain = true
	d := g.validRequest()
	d.Version = pick(t.R, enums["ofxVersion"].Values)
	if t.R.IntN(2) == 0 && len(d.Sets) > 0 {
		m := g.agg(structs["StatementRequest"], "STMTTRNRQ")
		normalize(m)
		d.Sets = append(d.Sets, &DocSet{Set: reqSet("Bank"), Msgs: []*Agg{m}})
		d.mergeSets()
		d.sortSets(reqSets)
	}
	for _, a := range d.all() {
		g.repair(a, d.Version)
	}
	var did []string
	for k := pick(t.R, []int{0, 1, 1, 1, 1, 2}); k > 0; k-- {
		a := pick(t.R, d.all())
		if what := g.breakOne(a, d.Version); what != "" {
			did = append(did, what)
			if t.R.IntN(3) == 0 {
				did = append(did, g.coincide([]*Agg{a}))
			}
		}
	}
	for k := t.R.IntN(6) - 3; k > 0; k-- {
		did = append(did, g.coincide(d.all()))
	}
	t.File("broken", strings.Join(did, "\n"))
	r := d.goRequest()
	f := randomFormat(t)
	if t.R.IntN(2) == 0 { // the client is what's wrong
		f.appID, f.ver = d.Signon.str("AppID"), d.Signon.str("AppVer")
	}
	if !f.apply(t, r, d) {
		return
	}
	why := ""
	check := func(what string, m interface{}, a *Agg, ok bool, err error) bool {
		w := invalid(a, d.Version)
		if ok != (w == "") || ok != (err == nil) {
			t.Violate("verdict: "+w, "%s: Valid(%s) says %v (%v), but it is %s\nbroken: %v\n%+v", what, d.Version, ok, err, verdict(w), did, m)
			return false
		}
		if w != "" {
			why += a.S.Name + "." + w + " "
		}
		return true
	}
	// on copies, as Valid fills in defaults
	sig := r.Signon
	ok, err := sig.Valid(r.Version)
	if !check("Signon", sig, d.Signon, ok, err) {
		return
	}
	for _, ds := range d.Sets {
		for _, m := range ds.Msgs {
			gm := newMessage(m)
			ok, err := gm.Valid(r.Version)
			if !check(m.S.Name, gm, m, ok, err) {
				return
			}
		}
	}
	b, err := r.Marshal()
	if (err == nil) != (why == "") || (b == nil) != (err != nil) {
		t.Violate("marshal verdict", "Marshal returns a document: %v, and error %v, for a request which is invalid because of %q\nbroken: %v", b != nil, err, why, did)
		return
	}
	if why != "" {
		t.Count("refused", 1)
		for _, w := range strings.Fields(strings.ReplaceAll(why, " length", "-length")) {
			t.Count("refused because of "+w, 1)
			t.Distinct("rules broken", w)
		}
		t.Distinct("case", why, d.Version, strings.Join(did, ","))
		t.Sample("broken %v: %v", did, err)
	} else {
		t.Count("marshalled", 1)
		if len(did) > 0 {
			t.Count("marshalled although touched (boundary)", 1)
			t.Distinct("case", "valid", d.Version, strings.Join(did, ","))
		}
	}
}

func c10misplaced(t *T) {
	g := newG(t.R)
	g.Plain = true
	d := g.validRequest()
	r := d.goRequest()
	f := randomFormat(t)
	if !f.apply(t, r, d) {
		return
	}
	// one message in another set, before, between or after others
	var a *Agg
	var own *SetDef
	if t.R.IntN(4) == 0 {
		s := pick(t.R, respSets)
		for len(s.Types) == 0 {
			s = pick(t.R, respSets)
		}
		st := structs[pick(t.R, s.Types)]
		a = g.agg(st, st.XML)
	} else {
		own = pick(t.R, reqSets)
		for len(own.Types) == 0 {
			own = pick(t.R, reqSets)
		}
		st := structs[pick(t.R, own.Types)]
		a = g.agg(st, st.XML)
	}
	normalize(a)
	g.repair(a, d.Version)
	to := pick(t.R, reqSets)
	for to == own {
		to = pick(t.R, reqSets)
	}
	m := newMessage(a)
	fv := reflect.ValueOf(r).Elem().FieldByName(to.Field)
	old := fv.Interface().([]ofxgo.Message)
	i := t.R.IntN(len(old) + 1)
	ms := append([]ofxgo.Message{}, old[:i]...)
	ms = append(ms, m)
	ms = append(ms, old[i:]...)
	fv.Set(reflect.ValueOf(ms))
	b, err := r.Marshal()
	if err == nil || b != nil {
		text := ""
		if b != nil {
			text = b.String()
		}
		t.Violate("misplaced "+a.S.Name+" in "+to.Field, "Marshal returns error %v for a %s in Request.%s\n%s", err, a.S.Name, to.Field, clip(text, 2500))
		return
	}
	t.Count("refused misplaced messages", 1)
	t.Distinct("case", "misplaced", a.S.Name, to.Field, fmt.Sprint(i, len(old)))
	t.Distinct("misplacements", a.S.Name, to.Field)
}

func c10version(t *T) {
	g := newG(t.R)
	g.Plain = true
	if t.R.IntN(3) == 0 {
		d := g.validResponse()
		r := d.goResponse()
		switch t.R.IntN(5) {
		case 0:
			r.Version = 0
		case 1:
			r.Version = 12
		case 2:
			r.Version = 99
		case 3:
			r.Version = 203
		case 4:
			r.Version = 1 << 31
		}
		if n, ok := dictInt(t.R, .2, int64(len(enums["ofxVersion"].Values))+1, 1<<40); ok {
			reflect.ValueOf(&r.Version).Elem().SetUint(uint64(n))
		}
		b, err := r.Marshal()
		if err == nil || b != nil {
			t.Violate("version", "Response.Marshal returns error %v for version %d", err, r.Version)
			return
		}
		t.Distinct("case", "response version", fmt.Sprint(uint(r.Version), len(d.Sets)))
	} else {
		d := g.validRequest()
		r := d.goRequest()
		switch t.R.IntN(5) {
		case 0:
			r.Version = 0
		case 1:
			r.Version = 12
		case 2:
			r.Version = 99
		case 3:
			r.Version = 203
		case 4:
			r.Version = 1 << 31
		}
		if n, ok := dictInt(t.R, .2, int64(len(enums["ofxVersion"].Values))+1, 1<<40); ok {
			reflect.ValueOf(&r.Version).Elem().SetUint(uint64(n))
		}
		b, err := r.Marshal()
		if err == nil || b != nil {
			t.Violate("version", "Request.Marshal returns error %v for version %d", err, r.Version)
			return
		}
		t.Distinct("case", "request version", fmt.Sprint(uint(r.Version), len(d.Sets)))
	}
	t.Count("refused versions", 1)
}

// checkFormat decides whether a document's bytes are in the chosen format.
// close tells that all elements have to be closed.
func checkFormat(t *T, text, version string, indent, crlf, allClosed bool) (*Elem, bool) {
	bad := func(sig, f string, a ...interface{}) (*Elem, bool) {
		t.Violate(sig, "version %s, indent %v, CRLF %v: %s\n%s", version, indent, crlf, fmt.Sprintf(f, a...), clip(fmt.Sprintf("%q", text), 4000))
		return nil, false
	}
	h := wantHeader(version, crlf)
	if !strings.HasPrefix(text, h) {
		return bad("header", "the header isn't %q", h)
	}
	body := text[len(h):]
	got, root, p, err := parseMarshalled(text)
	if err != nil {
		return bad("malformed", "%v", err)
	}
	if got != strings.TrimRight(h, "") && strings.TrimSpace(got) != strings.TrimSpace(h) {
		return bad("header", "the header is %q", got)
	}
	if crlf {
		if n := strings.Count(text, "\r\n"); n != strings.Count(text, "\r") || n != strings.Count(text, "\n") {
			return bad("line ends", "not all line ends are CRLF")
		}
	} else if strings.Contains(text, "\r") {
		return bad("line ends", "there are carriage returns")
	}
	if !indent && strings.ContainsAny(body, "\r\n") {
		return bad("new lines", "there are new lines although indentation is off")
	}
	if indent && strings.Count(body, "\n") == 0 {
		return bad("new lines", "there are no new lines although indentation is on")
	}
	if strings.HasSuffix(body, "\t") || !strings.Contains(body, "</OFX>") {
		return bad("end", "no end tag")
	}
	if isSGML(version) && !allClosed {
		if len(p.closed1) > 0 {
			return bad("closed leaf", "<%s> is closed although version %s leaves it open", p.closed1[0], version)
		}
		t.Count("leaves left open", int64(p.opened))
	} else {
		if p.opened > 0 {
			return bad("open leaf", "%d elements aren't closed", p.opened)
		}
		t.Count("leaves closed", int64(p.closed))
	}
	return root, true
}

// sameTree compares two parsed documents exactly.
func sameTree(a, b *Elem, path string) error {
	path += ">" + a.Name
	if a.Name != b.Name || len(a.Kids) != len(b.Kids) || strings.TrimSpace(a.Text) != strings.TrimSpace(b.Text) {
		return fmt.Errorf("%s: %q with %d elements, and %s %q with %d elements", path, a.Text, len(a.Kids), b.Name, b.Text, len(b.Kids))
	}
	for i, k := range a.Kids {
		if err := sameTree(k, b.Kids[i], path); err != nil {
			return err
		}
	}
	return nil
}

func c11request(t *T) {
	g := newG(t.R)
	d := g.validRequest()
	var ref *Elem
	for _, client := range []int{0, 1, 2, 3} {
		for v := 0; v < 4; v++ {
			f := &format{noIndent: v&1 != 0, cr: v&2 != 0, client: client, appID: d.Signon.str("AppID"), ver: d.Signon.str("AppVer")}
			if client == 0 && v > 0 {
				continue
			}
			r := d.goRequest()
			if client != 0 {
				r.SetClientFields(f.make(d.Version))
				r.Signon.DtClient.Time = d.Signon.F["DtClient"].Leaf.Time
			}
			text, ok := marshalRequest(t, r)
			if !ok {
				return
			}
			root, ok := checkFormat(t, text, d.Version, f.indent(), f.crlf(), false)
			if !ok {
				return
			}
			if ref == nil {
				ref = root
			} else if err := sameTree(ref, root, ""); err != nil {
				t.Violate("formats differ", "the documents without and with indent %v, CRLF %v (client %d) differ: %v", f.indent(), f.crlf(), client, err)
				return
			}
			t.Distinct("case", text)
			t.Distinct("formats", d.Version, fmt.Sprint(f.client, f.noIndent, f.cr))
			t.Count("documents", 1)
			if v == 0 && client == 1 && len(text) < 1400 {
				t.Sample("%s", text)
			}
		}
	}
}

func c11response(t *T) {
	g := newG(t.R)
	d := g.validResponse()
	d.dropEmptySets()
	b, err := d.goResponse().Marshal()
	if err != nil {
		t.Violate("marshal error", "a valid response was not marshalled: %v", err)
		return
	}
	text := b.String()
	t.File("marshalled.ofx", text)
	if _, ok := checkFormat(t, text, d.Version, true, false, true); !ok {
		return
	}
	t.Count("response documents", 1)
	t.Distinct("case", text)
}

var _ = bytes.NewReader
