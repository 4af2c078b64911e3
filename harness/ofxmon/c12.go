package main

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"
)

// escape writes text as XML character data.
func escape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

// unmarshal decodes one element.
func unmarshal(text string, v interface{}) error {
	return xml.Unmarshal([]byte("<X>"+escape(text)+"</X>"), v)
}

// marshal encodes one value as an element, and returns the element's text.
func marshal(v interface{}) (string, error) {
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	if err := e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: "X"}}); err != nil {
		return "", err
	}
	if err := e.Flush(); err != nil {
		return "", err
	}
	s := b.String()
	if s == "" {
		return "", nil
	}
	if !strings.HasPrefix(s, "<X>") || !strings.HasSuffix(s, "</X>") {
		return "", fmt.Errorf("wrote %q", s)
	}
	return unescape(s[3 : len(s)-4])
}

var pads = []string{"", "", " ", "\n", "\t  ", "\r\n", " \n "}

func pad(t *T, s string) string { return pick(t.R, pads) + s + pick(t.R, pads) }

func init() {
	register(&Check{ID: "C12", Quick: 9, Min: 500,
		Rule: "random decimal texts of up to 60 digits (signs, points and commas, leading and trailing zeros), random fractions and arithmetic on them; parsed, printed, marshalled, compared and summed against exact rationals of our own; non-trivial: a distinct text or number",
		Run: func(c *C) {
			c.Cases("text", c.N(60000, 3000000), c12text)
			c.Cases("value", c.N(15000, 700000), c12value)
			c.Cases("sum", c.N(1500, 60000), c12sum)
		}})
	register(&Check{ID: "C13", Quick: 20, Min: 500,
		Rule: "random dates in every documented form with offsets from -12 to +14 hours at every minute, and random instants in named and fixed zones (including historic offsets), under several settings of the process's own time zone; parsed, printed, marshalled and compared against our own calendar arithmetic; non-trivial: a distinct text or (instant, zone)",
		Run: func(c *C) {
			defer func(l *time.Location) { time.Local = l }(time.Local)
			for _, z := range []string{"UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "America/St_Johns"} {
				// no case runs while this changes
				time.Local = location(z)
				c.Cases("text "+z, c.N(10000, 500000), c13text)
				c.Cases("instant "+z, c.N(10000, 500000), c13instant)
			}
		}})
	register(&Check{ID: "C14", Quick: 20, Min: 500,
		Rule: "random integers, strings, booleans, UIDs and currencies, with white space around them, decoded, printed and encoded; and pairs of them compared; non-trivial: a distinct value",
		Run: func(c *C) {
			c.Cases("scalars", c.N(60000, 3000000), c14)
			c.Cases("currencies", len(isoCurrencies), c14currency)
		}})
}

var locMu sync.Mutex
var locs = map[string]*time.Location{}

func location(n string) *time.Location {
	locMu.Lock()
	defer locMu.Unlock()
	if l := locs[n]; l != nil {
		return l
	}
	l, err := time.LoadLocation(n)
	if err != nil {
		panic(err)
	}
	locs[n] = l
	return l
}

func c12text(t *T) {
	g := newG(t.R)
	g.MaxFrac = 40
	l := g.amount()
	text := pad(t, l.Text)
	var a ofxgo.Amount
	if t.R.IntN(2) == 0 { // decoding replaces what was there
		a.SetFrac64(t.R.Int64(), 1+t.R.Int64N(1000))
	}
	if err := unmarshal(text, &a); err != nil {
		t.Violate("rejected", "amount %q is rejected: %v", text, err)
		return
	}
	if a.Cmp(l.Rat) != 0 {
		t.Violate("value", "amount %q is read as %s instead of %s", text, a.RatString(), l.Rat.RatString())
		return
	}
	c12print(t, a, l.Rat, true)
	t.Distinct("case", l.Text)
	t.Count("amounts read", 1)
	t.Sample("%q = %s", text, l.Rat.RatString())
}

// c12print checks how an amount is written.
func c12print(t *T, a ofxgo.Amount, want *big.Rat, exact bool) {
	s := a.String()
	m, err := marshal(a)
	if err != nil || m != s {
		t.Violate("marshalled", "%s is marshalled as %q (%v) and printed as %q", want.RatString(), m, err, s)
		return
	}
	if strings.ContainsAny(s, "eE,+ ") {
		t.Violate("form", "%s is printed as %q", want.RatString(), s)
		return
	}
	p, ok := parseAmount(s)
	if !ok {
		t.Violate("form", "%s is printed as %q", want.RatString(), s)
		return
	}
	if exact {
		if p.Cmp(want) != 0 {
			t.Violate("printed", "%s is printed as %q", want.RatString(), s)
			return
		}
	} else {
		// to at least 100 decimals
		d := new(big.Rat).Sub(p, want)
		lim := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(100), nil))
		if d.Abs(d).Cmp(lim) > 0 {
			t.Violate("printed", "%s is printed as %q", want.RatString(), s)
			return
		}
	}
	var b ofxgo.Amount
	if err := unmarshal(s, &b); err != nil || b.Cmp(p) != 0 {
		t.Violate("reread", "%q, as %s is printed, is read back as %s (%v)", s, want.RatString(), b.RatString(), err)
		return
	}
	if exact && (!a.Equal(b) || !b.Equal(a)) {
		t.Violate("equal", "%q isn't Equal to itself after reading it back", s)
		return
	}
	if a.Cmp(want) != 0 {
		t.Violate("mutated", "printing or comparing changed %s to %s", want.RatString(), a.RatString())
	}
}

func (g *G) rat() (*big.Rat, bool) {
	r := g.R
	if n, ok := dictInt(r, 1./10, -1<<62, 1<<62); ok {
		d := pick(r, []int64{1, 1, 2, 5, 10, 100, 1000, 1 << 20})
		if r.IntN(3) == 0 && n > 0 && n <= 100 {
			return new(big.Rat).SetFrac(big.NewInt(r.Int64()-r.Int64()), new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil)), true
		}
		return big.NewRat(n, d), true
	}
	switch r.IntN(4) {
	case 0: // not a decimal fraction
		x := big.NewRat(r.Int64()-r.Int64(), 1+r.Int64N(1<<40))
		d := new(big.Int).Set(x.Denom())
		for _, p := range []int64{2, 5} {
			for new(big.Int).Mod(d, big.NewInt(p)).Sign() == 0 {
				d.Div(d, big.NewInt(p))
			}
		}
		if d.Cmp(big.NewInt(1)) == 0 {
			_, exact := x.FloatPrec()
			return x, exact && func() bool { n, _ := x.FloatPrec(); return n <= 100 }()
		}
		return x, false
	case 1: // binary fractions
		return new(big.Rat).SetFrac(big.NewInt(r.Int64()-r.Int64()), new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(100)))), true
	case 2: // many decimals
		n, _ := new(big.Int).SetString(digits(r, 1+r.IntN(120)), 10)
		if r.IntN(2) == 0 {
			n.Neg(n)
		}
		return new(big.Rat).SetFrac(n, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.IntN(101))), nil)), true
	}
	n := new(big.Int).Mul(big.NewInt(r.Int64N(2000)-1000), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(r.IntN(40))), nil))
	return new(big.Rat).SetInt(n), true
}

func c12value(t *T) {
	g := newG(t.R)
	x, exact := g.rat()
	a := ofxgo.Amount{}
	a.Set(x)
	c12print(t, a, x, exact)
	y, _ := g.rat()
	if t.R.IntN(3) == 0 {
		y.Set(x)
	} else if t.R.IntN(3) == 0 {
		y.Add(x, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.R.IntN(150))), nil)))
	}
	b := ofxgo.Amount{}
	b.Set(y)
	if a.Equal(b) != (x.Cmp(y) == 0) || b.Equal(a) != (x.Cmp(y) == 0) {
		t.Violate("equal", "Equal of %s and %s is %v and %v", x.RatString(), y.RatString(), a.Equal(b), b.Equal(a))
	}
	if a.Cmp(x) != 0 || b.Cmp(y) != 0 {
		t.Violate("mutated", "comparing changed %s or %s", x.RatString(), y.RatString())
	}
	t.Distinct("case", x.RatString())
	t.Count("numbers printed", 1)
}

// c12sum: amounts of a statement add up exactly.
func c12sum(t *T) {
	g := newG(t.R)
	g.Plain = true
	d := g.validResponse()
	st := structs["StatementResponse"]
	g.Opt = .3
	m := g.agg(st, st.XML)
	lf := st.field("BankTranList")
	m.F["BankTranList"] = g.item(lf)
	n := &Node{}
	sum := new(big.Rat)
	x := structs[lf.Struct].field("Transactions")
	count := 5 + t.R.IntN(40)
	if n, ok := dictInt(t.R, 1./10, 2, 3000); ok {
		count = int(n)
	}
	for i := count; i > 0; i-- {
		k := g.item(x)
		k.Agg.F["TrnAmt"] = &Node{Leaf: g.amount()}
		sum.Add(sum, k.Agg.F["TrnAmt"].Leaf.Rat)
		n.List = append(n.List, k)
	}
	m.sub("BankTranList").F["Transactions"] = n
	g.repair(m, d.Version)
	sum.SetInt64(0)
	for _, k := range m.sub("BankTranList").kids("Transactions") {
		sum.Add(sum, k.F["TrnAmt"].Leaf.Rat)
	}
	d.Sets = []*DocSet{{Set: respSet("Bank"), Msgs: []*Agg{m}}}
	sp := canonical(t.R)
	text := sp.doc(d.Version, d.tree("RS", false))
	t.File("document.ofx", text)
	r, err := decode(text)
	if err != nil {
		t.Violate("decode error", "%v\n%s", err, clip(text, 2000))
		return
	}
	total := new(big.Rat)
	trs := r.Bank[0].(*ofxgo.StatementResponse).BankTranList.Transactions
	for i := range trs {
		total.Add(total, &trs[i].TrnAmt.Rat)
	}
	if total.Cmp(sum) != 0 {
		t.Violate("sum", "the amounts of %d transactions add up to %s instead of %s", len(trs), total.RatString(), sum.RatString())
		return
	}
	t.Count("amounts summed", int64(len(trs)))
	t.Distinct("case", "sum", sum.RatString())
}

func c13text(t *T) {
	g := newG(t.R)
	g.Frac = true
	l := g.date()
	text := pad(t, l.Text)
	var d ofxgo.Date
	if err := unmarshal(text, &d); err != nil {
		t.Violate("rejected", "date %q is rejected: %v", text, err)
		return
	}
	if err := compareLeaf(reflect.ValueOf(&d).Elem(), l, "date"); err != nil {
		t.Violate("value", "%v", err)
		return
	}
	c13print(t, d, l.Time)
	// the same instant in another zone is Equal, another one isn't
	o := ofxgo.Date{Time: l.Time.In(time.FixedZone("", (t.R.IntN(27)-12)*3600))}
	if !d.Equal(o) || !o.Equal(d) {
		t.Violate("equal", "%s isn't Equal to the same instant %s", d, o)
	}
	o.Time = o.Add(time.Duration(1+t.R.IntN(10)) * pick(t.R, []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour}))
	if d.Equal(o) || o.Equal(d) {
		t.Violate("equal", "%s is Equal to another instant %s", d, o)
	}
	// and neither are those at distances which are zero to some clocks
	unit := pick(t.R, []time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour})
	bits := uint(t.R.IntN(65))
	o.Time = l.Time
	if n := new(big.Int).Mul(big.NewInt(int64(unit)), new(big.Int).Lsh(big.NewInt(1), bits)); n.BitLen() < 70 {
		if t.R.IntN(2) == 0 {
			n.Neg(n)
		}
		if t.R.IntN(2) == 0 {
			n.Add(n, big.NewInt(pick(t.R, []int64{1, -1, 1000000, -1000000, 1000000000})))
		}
		s, ns := new(big.Int).DivMod(n, big.NewInt(1000000000), new(big.Int))
		o.Time = time.Unix(l.Time.Unix()+s.Int64(), int64(l.Time.Nanosecond())+ns.Int64()).UTC()
		if same := n.Sign() == 0; d.Equal(o) != same || o.Equal(d) != same {
			t.Violate("equal", "Equal of %s and %s is %v and %v", d, o, d.Equal(o), o.Equal(d))
		}
		t.Count("distances compared", 1)
	}
	t.Distinct("case", l.Text)
	t.Count("dates read", 1)
	t.Sample("%q = %s", text, l.Time)
}

func c13print(t *T, d ofxgo.Date, want time.Time) {
	s := d.String()
	m, err := marshal(d)
	if err != nil || m != s {
		t.Violate("marshalled", "%s is marshalled as %q (%v) and printed as %q", want, m, err, s)
		return
	}
	p, ok := parseDate(s)
	if !ok {
		t.Violate("form", "%s is printed as %q", want, s)
		return
	}
	w := want.Truncate(time.Millisecond)
	if !p.Equal(w) {
		t.Violate("printed", "%s is printed as %q, which is %s", want, s, p)
		return
	}
	var b ofxgo.Date
	if err := unmarshal(s, &b); err != nil || !b.Time.Equal(w) {
		t.Violate("reread", "%q, as %s is printed, is read back as %s (%v)", s, want, b.Time, err)
		return
	}
	// (a nameless zero offset reads as GMT)
	if s2 := b.String(); s2 != s && s2 != strings.Replace(s, "[0]", "[0:GMT]", 1) {
		t.Violate("unstable", "%q, as %s is printed, is printed as %q after reading it back", s, want, s2)
		return
	}
	if !d.Time.Equal(want) {
		t.Violate("mutated", "printing changed %s", want)
	}
}

var zones = strings.Fields("UTC GMT America/New_York America/Los_Angeles America/St_Johns America/Caracas America/Sao_Paulo Europe/London Europe/Dublin Europe/Amsterdam Europe/Moscow Africa/Monrovia Africa/Cairo Asia/Kolkata Asia/Kathmandu Asia/Tehran Asia/Tokyo Asia/Pyongyang Asia/Singapore Australia/Adelaide Australia/Eucla Australia/Lord_Howe Pacific/Chatham Pacific/Apia Pacific/Kiritimati Pacific/Marquesas Antarctica/Troll Etc/GMT+12 Etc/GMT-14")

func c13instant(t *T) {
	r := t.R
	y := 1970 + r.IntN(80)
	switch r.IntN(5) {
	case 0:
		y = 1 + r.IntN(9998)
	case 1:
		y = 1850 + r.IntN(120)
	}
	var loc *time.Location
	switch r.IntN(8) {
	case 0:
		loc = time.Local
	case 1, 2:
		name := pick(r, []string{"", "EST", "Est", "+03", "A B", "UTC+1", "é", "X]", "LONGZONENAME", "gmt"})
		loc = time.FixedZone(name, (r.IntN(26*60)-12*60)*60)
	case 3:
		loc = time.FixedZone(pick(r, []string{"", "LMT"}), r.IntN(26*3600)-12*3600)
	case 4:
		loc = time.UTC
	default:
		loc = location(pick(r, zones))
	}
	mo, da, h, mi, s, ns := time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), r.IntN(1000000000)
	if r.IntN(3) == 0 {
		ns = r.IntN(1000) * 1000000
	}
	if n, ok := dictInt(r, 1./8, 0, 999999999); ok {
		k := int(n)
		switch f := r.IntN(9); {
		case f == 0 && k > 0 && k < 9999:
			y = k
		case f == 1 && k > 0 && k <= 12:
			mo = time.Month(k)
		case f == 2 && k > 0 && k <= 31:
			da = k
		case f == 3 && k < 24:
			h = k
		case f == 4 && k < 60:
			mi = k
		case f == 5 && k < 60:
			s = k
		case f == 6 && k < 1000:
			ns = k * 1000000
		case f == 7:
			ns = k
		case k <= 14*60:
			loc = time.FixedZone("", k*60)
		case k <= 14*3600:
			loc = time.FixedZone("", k)
		}
	}
	if r.IntN(6) == 0 { // out of range values normalize
		da += 30
		mi += 100
	}
	want := time.Date(y, mo, da, h, mi, s, ns, loc)
	d := ofxgo.NewDate(y, mo, da, h, mi, s, ns, loc)
	if !d.Time.Equal(want) || d.Location().String() != loc.String() {
		t.Violate("NewDate", "NewDate(%d, %d, %d, %d, %d, %d, %d, %s) is %s instead of %s", y, mo, da, h, mi, s, ns, loc, d.Time, want)
		return
	}
	c13print(t, *d, want)
	gm := ofxgo.NewDateGMT(y, mo, da, h, mi, s, ns)
	gw := time.Date(y, mo, da, h, mi, s, ns, time.UTC)
	if n, o := gm.Zone(); !gm.Time.Equal(gw) || n != "GMT" || o != 0 {
		t.Violate("NewDateGMT", "NewDateGMT(%d, %d, %d, %d, %d, %d, %d) is %s instead of %s", y, mo, da, h, mi, s, ns, gm.Time, gw)
		return
	}
	if gs := gm.String(); gs != gw.Format("20060102150405.000")+"[0:GMT]" {
		t.Violate("printed", "%s in GMT is printed as %q", gw, gs)
		return
	}
	if d.Equal(*gm) != want.Equal(gw) {
		t.Violate("equal", "Equal of %s and %s is %v", want, gw, d.Equal(*gm))
	}
	t.Distinct("case", want.String())
	n, o := want.Zone()
	t.Distinct("zone offsets", n, fmt.Sprint(o))
	t.Count("instants printed", 1)
}

func c14(t *T) {
	g := newG(t.R)
	r := t.R
	bad := func(sig, f string, a ...interface{}) { t.Violate(sig, f, a...) }
	kind := pick(r, []string{"int", "string", "boolean", "uid", "currsymbol"})
	l, l2 := g.leaf(&Field{Kind: kind}), g.leaf(&Field{Kind: kind})
	if r.IntN(100) == 0 && (kind == "string" || kind == "uid") {
		n := 1 << (8 + r.IntN(11))
		s := g.text(n, 2*n)
		l = &Leaf{Kind: kind, Text: s, S: s}
	}
	if r.IntN(3) == 0 {
		l2 = l
	} else if kind == "string" || kind == "uid" {
		if r.IntN(2) == 0 { // nearly equal
			l2 = &Leaf{Kind: kind, S: pick(r, []string{l.S + "x", strings.ToUpper(l.S), strings.ToLower(l.S), l.S[1:], strings.ReplaceAll(l.S, " ", "\u00a0"), nearly(r, l.S), lacking(r, l.S), lacking(r, l.S), l.S + string(anyRune(r)), string(anyRune(r)) + l.S})}
			l2.S = strings.TrimSpace(l2.S)
			l2.Text = l2.S
		}
	}
	text := pad(t, l.Text)
	same := l.S == l2.S && l.Int == l2.Int && l.Bool == l2.Bool
	var got, printed string
	var err error
	var eq, eq2 bool
	var enc string
	var merr error
	switch kind {
	case "int":
		x, y := ofxgo.Int(r.Int64()), ofxgo.Int(l2.Int)
		err = unmarshal(text, &x)
		got, printed = fmt.Sprint(int64(x)), fmt.Sprint(x)
		enc, merr = marshal(x)
		eq, eq2 = ofxgo.Int(l.Int).Equal(y), y.Equal(ofxgo.Int(l.Int))
	case "string":
		x, y := ofxgo.String("old"), ofxgo.String(l2.S)
		err = unmarshal(text, &x)
		got, printed = string(x), x.String()
		enc, merr = marshal(x)
		eq, eq2 = ofxgo.String(l.S).Equal(y), y.Equal(ofxgo.String(l.S))
	case "boolean":
		x, y := ofxgo.Boolean(!l.Bool), ofxgo.Boolean(l2.Bool)
		err = unmarshal(text, &x)
		got = "N"
		if x {
			got = "Y"
		}
		printed = map[string]string{"true": "Y", "false": "N"}[x.String()]
		enc, merr = marshal(x)
		eq, eq2 = ofxgo.Boolean(l.Bool).Equal(y), y.Equal(ofxgo.Boolean(l.Bool))
	case "uid":
		x, y := ofxgo.UID("old"), ofxgo.UID(l2.S)
		err = unmarshal(text, &x)
		got, printed = string(x), string(x)
		enc, merr = marshal(x)
		eq, eq2 = ofxgo.UID(l.S).Equal(y), y.Equal(ofxgo.UID(l.S))
		c14uid(t, g)
	case "currsymbol":
		x, err1 := ofxgo.NewCurrSymbol("CHF")
		y, err2 := ofxgo.NewCurrSymbol(l2.S)
		z, err3 := ofxgo.NewCurrSymbol(l.S)
		if err1 != nil || err2 != nil || err3 != nil {
			bad("currency", "NewCurrSymbol: %v %v %v", err1, err2, err3)
			return
		}
		err = unmarshal(text, x)
		got, printed = x.String(), z.String()
		enc, merr = marshal(*x)
		eq, eq2 = z.Equal(*y), y.Equal(*z)
	}
	want := l.Text
	if kind == "int" {
		want = fmt.Sprint(l.Int)
	}
	switch {
	case err != nil:
		bad("rejected", "%s %q is rejected: %v", kind, text, err)
	case got != want || printed != want:
		bad("value", "%s %q is read as %q and printed as %q", kind, text, got, printed)
	case merr != nil || enc != want:
		bad("encoded", "%s %q is encoded as %q (%v)", kind, want, enc, merr)
	case eq != same || eq2 != same:
		bad("equal", "Equal of %s %q and %q is %v and %v", kind, l.Text, l2.Text, eq, eq2)
	default:
		t.Distinct("case", kind, l.Text)
		t.Count(kind+" values", 1)
	}
}

// lacking is a text without some of its characters, or with others for them.
func lacking(r *rand.Rand, s string) string {
	if s == "" {
		return s
	}
	var seps []string
	for _, c := range s {
		if strings.ContainsRune("-_./ :,;{}()+#*'\"&", c) {
			seps = append(seps, string(c))
		}
	}
	if len(seps) == 0 || r.IntN(4) == 0 {
		seps = []string{string([]rune(s)[r.IntN(len([]rune(s)))])}
	}
	c := pick(r, seps)
	return strings.ReplaceAll(s, c, pick(r, []string{"", "", "-", "_", " ", "."}))
}

func c14uid(t *T, g *G) {
	r := t.R
	s := ""
	switch r.IntN(5) {
	case 0:
		s = digits(r, r.IntN(40))
	case 1:
		s = digits(r, 8) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 12)
	case 2: // a hyphen wrong
		b := []byte(digits(r, 8) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 12))
		b[pick(r, []int{8, 13, 18, 23})] = "0_ x"[r.IntN(4)]
		s = string(b)
	case 3:
		s = digits(r, 8) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 4) + "-" + digits(r, 11+2*r.IntN(2))
	case 4:
		s = g.uid()
	}
	u := ofxgo.UID(s)
	ok, err := u.Valid()
	if ok != (len(s) >= 1 && len(s) <= 36) || ok != (err == nil) {
		t.Violate("uid valid", "UID %q: Valid is %v (%v)", s, ok, err)
	}
	rec := len(s) == 36 && s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-'
	ok, err = u.RecommendedFormat()
	if ok != rec || ok != (err == nil) {
		t.Violate("uid recommended", "UID %q: RecommendedFormat is %v (%v)", s, ok, err)
	}
	t.Count("UIDs judged", 1)
}

// Currencies in use, by ISO 4217.
var isoCurrencies = strings.Fields(`AED AFN ALL AMD ANG AOA ARS AUD AWG AZN BAM BBD BDT BGN BHD BIF BMD BND BOB BRL BSD BTN BWP BZD CAD CDF CHF CLP CNY COP CRC CUP CVE CZK DJF DKK DOP DZD EGP ERN ETB EUR FJD FKP GBP GEL GHS GIP GMD GNF GTQ GYD HKD HNL HTG HUF IDR ILS INR IQD IRR ISK JMD JOD JPY KES KGS KHR KMF KPW KRW KWD KYD KZT LAK LBP LKR LRD LSL LYD MAD MDL MGA MKD MMK MNT MOP MUR MVR MWK MXN MYR MZN NAD NGN NIO NOK NPR NZD OMR PAB PEN PGK PHP PKR PLN PYG QAR RON RSD RUB RWF SAR SBD SCR SDG SEK SGD SHP SOS SRD SSP SVC SYP SZL THB TJS TMT TND TOP TRY TTD TWD TZS UAH UGX USD UYU UZS VND VUV WST XAF XAG XAU XCD XDR XOF XPD XPF XPT YER ZAR ZMW DEM FRF ITL XXX`)

func c14currency(t *T) {
	s := isoCurrencies[t.Idx]
	c, err := ofxgo.NewCurrSymbol(s)
	if err != nil {
		t.Violate("currency", "NewCurrSymbol(%q): %v", s, err)
		return
	}
	if c.String() != s {
		t.Violate("currency", "NewCurrSymbol(%q) is %s", s, c)
		return
	}
	if ok, err := c.Valid(); ok != (s != "XXX") || ok != (err == nil) {
		t.Violate("currency", "%s: Valid is %v (%v)", s, ok, err)
		return
	}
	for _, o := range isoCurrencies {
		d, err := ofxgo.NewCurrSymbol(o)
		if err != nil || c.Equal(*d) != (o == s) {
			t.Violate("currency", "Equal of %s and %s is %v (%v)", s, o, c.Equal(*d), err)
			return
		}
	}
	var zero ofxgo.CurrSymbol
	if ok, _ := zero.Valid(); ok || zero.Equal(*c) != (s == "XXX") {
		t.Violate("currency", "the zero currency: Valid is %v", ok)
	}
	for _, x := range []string{s + "X", s[:2], s[:2] + "1", "", "Q" + s, s + " " + s} {
		if d, err := ofxgo.NewCurrSymbol(x); err == nil || d != nil {
			t.Violate("currency", "NewCurrSymbol(%q) is %v", x, d)
		}
	}
	t.Count("currencies", 1)
	t.Distinct("case", s)
}
