package main

import (
	"fmt"
	"math/big"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

// Leaf is an element's value, and the text which spells it in a document.
type Leaf struct {
	Kind string
	Enum string
	Text string
	S    string
	Rat  *big.Rat
	Int  int64
	Bool bool
	Time time.Time
	Zone string // zone name a decoder should report, "" if unspecified
}

// Node is a leaf, an aggregate or a list of either.
type Node struct {
	Leaf *Leaf
	Agg  *Agg
	List []*Node
}

// Agg is an aggregate's value: the nodes of the fields which are present.
type Agg struct {
	S   *Struct
	Tag string // element name
	F   map[string]*Node
	// Order is how the list elements of several lists of this aggregate
	// interleave in the document (InvTranList)
	Order []*Agg
}

func (a *Agg) has(f string) bool { return a.F[f] != nil }

// G generates values.
type G struct {
	R       *rand.Rand
	Opt     float64 // chance of optional elements
	Missing float64 // chance that a required element is missing
	MaxList int
	Plain   bool // only simple texts
	MaxFrac int  // most fraction digits of amounts
	Marshal bool // only values which have a Go value representing them
	Long    int  // length of one list, if not zero
	Twins   float64
	Huge    int // length of one text, if not zero
	budget  int
	path    map[string]string // fields which have to be present, and what they hold
	target  string            // the field which is the long list
	Frac    bool              // dates may have other than three fraction digits

	// values made before: related elements often hold the same ones, and
	// the generators repeat them, too
	texts, uids    []string
	amounts, dates []Leaf
	ints           []int64
}

// again is one of the values made before, now and then.
func again[X any](g *G, xs []X, p float64) (x X, ok bool) {
	if len(xs) == 0 || !g.p(p) {
		return x, false
	}
	n := len(xs)
	if n > 8 && g.R.IntN(2) == 0 { // a recent one
		xs = xs[n-8:]
	}
	return pick(g.R, xs), true
}

// remember keeps a value for again.
func remember[X any](g *G, xs *[]X, x X) {
	if len(*xs) >= 64 {
		(*xs)[g.R.IntN(64)] = x
		return
	}
	*xs = append(*xs, x)
}

var punctuation = []byte("!\"#$%'()*+,-./:;=?@[\\]^_`{|}~")

// garble changes a few characters of a text.
func garble(r *rand.Rand, s string) string {
	cs := []rune(s)
	for k := 1 + max(0, r.IntN(5)-2); k > 0; k-- {
		i := r.IntN(len(cs) + 1)
		j := i + r.IntN(len(cs)-i+1)
		put := func(at int, x ...rune) { cs = append(cs[:at:at], append(x, cs[at:]...)...) }
		char := func() rune {
			switch r.IntN(4) {
			case 0:
				return rune(pick(r, punctuation))
			case 1:
				return rune(' ' + r.IntN(95))
			case 2:
				if len(cs) > 0 {
					return pick(r, cs)
				}
			}
			return anyRune(r)
		}
		switch r.IntN(8) {
		case 0, 1:
			put(i, char())
		case 2:
			if i < len(cs) {
				cs[i] = char()
			}
		case 3:
			if i < len(cs) {
				cs = append(cs[:i:i], cs[i+1:]...)
			}
		case 4:
			if i+1 < len(cs) {
				cs[i], cs[i+1] = cs[i+1], cs[i]
			}
		case 5:
			q := []rune(pick(r, []string{"()", "[]", "{}", "<>", `""`, "''", "  ", "**", "--", "\u00ab\u00bb", "//"}))
			put(j, q[1])
			put(i, q[0])
		case 6:
			put(len(cs), char())
		case 7:
			put(j, append([]rune{}, cs[i:min(j, i+40)]...)...)
		}
	}
	return strings.Map(func(c rune) rune {
		if !xmlRune(c) {
			return -1
		}
		return c
	}, string(cs))
}

// shaped is text of a form which has a meaning to people, and shouldn't have
// one to programs.
func shaped(r *rand.Rand) string {
	sep := pick(r, []string{"", "-", " ", ".", "/", ":", ";", ",", "_", "--"})
	groups := func(ns ...int) string {
		var p []string
		for _, n := range ns {
			p = append(p, digits(r, n))
		}
		return strings.Join(p, sep)
	}
	switch r.IntN(26) {
	case 0, 22, 23:
		return groups(4, 4, 4, 4)
	case 1:
		return groups(3, 2, 4)
	case 2:
		return groups(4, 6, 5)
	case 3:
		var ns []int
		for k := 1 + r.IntN(6); k > 0; k-- {
			ns = append(ns, 1+r.IntN(6))
		}
		return groups(ns...)
	case 4:
		return pick(r, []string{"+1", "+49", "0", "00", "("}) + groups(3, 3, 4)
	case 5:
		return word(r, 1+r.IntN(9)) + "@" + word(r, 1+r.IntN(9)) + ".com"
	case 6:
		return pick(r, []string{"http://", "https://", "file:///", "//", "mailto:", "www."}) + word(r, 1+r.IntN(9)) + ".com/?a=b&c=%20#d"
	case 7:
		h := fmt.Sprintf("%016x%016x", r.Uint64(), r.Uint64())
		if r.IntN(2) == 0 {
			h = strings.ToUpper(h)
		}
		return h[:8] + sep + h[8:12] + sep + h[12:16] + sep + h[16:20] + sep + h[20:]
	case 8:
		return pick(r, []string{"DE", "GB", "FR"}) + digits(r, 2) + " " + groups(4, 4, 4, 4, 2)
	case 9:
		return strings.Repeat("0", 1+r.IntN(12)) + digits(r, r.IntN(9))
	case 10:
		return fmt.Sprintf("%04d%s%02d%s%02d", 1900+r.IntN(200), sep, 1+r.IntN(12), sep, 1+r.IntN(28))
	case 11:
		return pick(r, []string{"$", "", "-", "(", "€", "+"}) + digits(r, 1+r.IntN(6)) + pick(r, []string{".", ",", ".00", ".5)", "%", "", "e3", "-"})
	case 12:
		return strings.Repeat("x", 1+r.IntN(12)) + digits(r, 4)
	case 13:
		return strings.Repeat("*", 1+r.IntN(12)) + digits(r, 4)
	case 14:
		return pick(r, []string{"C:\\", "/etc/", "../", "~/", "./", "\\\\"}) + word(r, 1+r.IntN(9)) + ".txt"
	case 15:
		q := pick(r, []string{`""`, "''", "()", "[]", "{}", "<>", "``"})
		return q[:1] + word(r, 1+r.IntN(9)) + q[1:]
	case 16:
		return pick(r, []string{"%s", "%d", "%n", "%20", "%%", "${x}", "$(x)", "{{.}}", "\\n", "\\x41", "&amp;amp;", "&#x26;", "\\u0041", "$HOME", "%PATH%"}) + word(r, 1)
	case 17:
		return word(r, 3) + strings.Repeat(pick(r, []string{" ", "  ", "-", "_", ".", "\u00a0"}), 1+r.IntN(4)) + word(r, 3)
	case 18:
		return pick(r, []string{"NULL", "null", "nil", "None", "true", "false", "NaN", "inf", "-0", "undefined", "N/A", "TBD", "test", "admin", "root", "anonymous", "guest", "Y", "N"})
	case 19:
		w := word(r, 2+r.IntN(8))
		return strings.ToUpper(w[:1]) + strings.ToLower(w[1:]) + " " + strings.ToUpper(word(r, 1)) + ". " + word(r, 4) + ", Jr."
	case 20:
		return strings.Repeat(string(asciiText[1+r.IntN(len(asciiText)-1)]), 1+r.IntN(32))
	}
	return groups(1+r.IntN(3), 1+r.IntN(3), 1+r.IntN(3), 1+r.IntN(3)) // addresses, versions
}

// twin is an aggregate like another one, but perhaps for one value.
func (g *G) twin(a *Agg) *Agg {
	c := a.clone()
	if g.R.IntN(2) == 0 {
		var at []*Agg
		c.walk(func(x *Agg) { at = append(at, x) })
		x := pick(g.R, at)
		if len(x.S.Fields) > 0 {
			f := x.S.Fields[g.R.IntN(len(x.S.Fields))]
			if n := x.F[f.Go]; n != nil && n.Leaf != nil {
				x.F[f.Go] = &Node{Leaf: g.leaf(f)}
			}
		}
	}
	return c
}

// nearly is a text similar to another one.
func nearly(r *rand.Rand, s string) string {
	switch r.IntN(9) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s + word(r, 1)
	case 3:
		return word(r, 1) + s
	case 4:
		_, n := utf8.DecodeRuneInString(s)
		return s[n:]
	case 5:
		_, n := utf8.DecodeLastRuneInString(s)
		return s[:len(s)-n]
	case 6:
		return s + " " + s
	case 7:
		return s[:0] + strings.ReplaceAll(s, " ", "  ")
	}
	return strings.ReplaceAll(s, " ", "")
}

// A longPath leads to a list within the messages of a response.
type longPath struct {
	set    *SetDef
	msg    string            // type of message
	path   map[string]string // fields on the way, and the struct within
	target string            // Struct.Field
}

var longPaths []*longPath

// findLists finds the shortest way to every list of elements.
func findLists() {
	seen := map[string]bool{}
	type at struct {
		set  *SetDef
		msg  string
		name string
		path map[string]string
	}
	var todo []at
	for _, s := range respSets {
		for _, ty := range s.Types {
			todo = append(todo, at{s, ty, ty, map[string]string{}})
		}
	}
	done := map[string]bool{}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if done[x.name] {
			continue
		}
		done[x.name] = true
		for _, f := range structs[x.name].Fields {
			key := x.name + "." + f.Go
			if (f.Slice || f.Kind == "poly" || f.Kind == "inline" || f.Kind == "msgsets") && !seen[key] {
				seen[key] = true
				longPaths = append(longPaths, &longPath{x.set, x.msg, x.path, key})
			}
			var next []string
			switch {
			case f.Struct != "":
				next = []string{f.Struct}
			case f.Poly != "":
				next = polys[f.Poly]
			}
			for _, n := range next {
				p := map[string]string{key: n}
				for k, v := range x.path {
					p[k] = v
				}
				todo = append(todo, at{x.set, x.msg, n, p})
			}
		}
	}
}

// longList makes a response with one message, which holds a long list.
func (g *G) longList(lp *longPath, n int) *Doc {
	g.Opt = pick(g.R, []float64{.05, .1, .2})
	g.budget, g.MaxList = 20, 2
	g.path, g.target, g.Long = lp.path, lp.target, n
	d := &Doc{Version: pick(g.R, enums["ofxVersion"].Values)}
	d.Signon = g.agg(structs["SignonResponse"], "SONRS")
	st := structs[lp.msg]
	d.Sets = []*DocSet{{Set: lp.set, Msgs: []*Agg{g.agg(st, st.XML)}}}
	if g.target != "" {
		panic("no list " + lp.target)
	}
	return d
}

// longG makes few elements, but one very long list or text.
func longG(r *rand.Rand) *G {
	g := newG(r)
	g.Opt = pick(r, []float64{.1, .3, .5})
	g.budget = 30
	if r.IntN(4) == 0 {
		g.Huge = 1 << (8 + r.IntN(11))
		g.Huge += r.IntN(g.Huge)
	} else {
		g.Long = 1 << (4 + r.IntN(7))
		g.Long += r.IntN(g.Long)
	}
	return g
}

func newG(r *rand.Rand) *G {
	g := &G{R: r, MaxList: 3, MaxFrac: 12, budget: 150}
	switch r.IntN(5) {
	case 0:
		g.Opt = 0
	case 1:
		g.Opt = 1
	default:
		g.Opt = r.Float64()
	}
	return g
}

// twins is the chance that a member of a list resembles another one.
func (g *G) twins() float64 {
	if g.Twins > 0 {
		return g.Twins
	}
	return .08
}

func (g *G) p(x float64) bool { return g.R.Float64() < x }

func pick[X any](r *rand.Rand, xs []X) X { return xs[r.IntN(len(xs))] }

var asciiText = " !\"#$%'()*+,-./0123456789:;=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
var markup = []string{"&", "<", ">", "&amp;", "&lt;", "]]>", "<!--", "</NAME>", "<STMTTRN>", "\"", "'", "&#65;", "<?", "&nbsp;", "%", "\\", "]", "[", "--", "OFXHEADER=", "OFXHEADER:", "</OFX>", "<OFX>", "<?OFX OFXHEADER=\"200\"", "VERSION:102"}
var uniText = []rune("éüßñçÀØ€£¥©®–—…“”‘’αβγЖдщ中文字日本語한국어𝒳😀🏦\u00a0\u2003")

var runeTables = func() (out []*unicode.RangeTable) {
	var names []string
	for n := range unicode.Categories {
		names = append(names, n)
	}
	for n := range unicode.Properties {
		names = append(names, n)
	}
	slices.Sort(names)
	for _, n := range names {
		if t := unicode.Categories[n]; t != nil {
			out = append(out, t)
		} else {
			out = append(out, unicode.Properties[n])
		}
	}
	return out
}()

// xmlRune tells whether text in documents may hold a character. Carriage
// returns are the subject of line end tests.
func xmlRune(c rune) bool {
	return utf8.ValidRune(c) && (c >= ' ' || c == '\n' || c == '\t') && c != 0xfffe && c != 0xffff && c != utf8.RuneError
}

// anyRune is any character, of any kind.
func anyRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.IntN(4) {
		case 0:
			c = rune(' ' + r.IntN(0x3000))
		case 1:
			c = rune(' ' + r.IntN(unicode.MaxRune-31))
		default:
			t := pick(r, runeTables)
			if k := r.IntN(len(t.R16) + len(t.R32)); k < len(t.R16) {
				x := t.R16[k]
				c = rune(x.Lo) + rune(x.Stride)*rune(r.IntN(int((x.Hi-x.Lo)/x.Stride)+1))
			} else {
				x := t.R32[k-len(t.R16)]
				c = rune(x.Lo) + rune(x.Stride)*rune(r.IntN(int((x.Hi-x.Lo)/x.Stride)+1))
			}
		}
		if xmlRune(c) {
			return c
		}
	}
}

// text makes a string without leading or trailing white space, or repeats one.
func (g *G) text(min, max int) string {
	if s, ok := again(g, g.texts, 1./12); ok {
		if g.R.IntN(3) == 0 {
			s = strings.TrimSpace(nearly(g.R, s))
		}
		if len(s) >= min && len(s) <= max {
			return s
		}
	}
	s := g.newText(min, max)
	if len(s) < 300 {
		remember(g, &g.texts, s)
	}
	return s
}

func (g *G) newText(min, max int) string {
	r := g.R
	if s, ok := sourceText(r, 1./30); ok && strings.Trim(s, asciiText) == "" {
		if s = strings.TrimSpace(s); len(s) >= min && len(s) <= max {
			return s
		}
	}
	if s, ok := dictText(r, 1./12); ok {
		s = strings.Map(func(c rune) rune {
			if g.Plain && !strings.ContainsRune(asciiText, c) || !xmlRune(c) {
				return -1
			}
			return c
		}, s)
		if s = strings.TrimSpace(s); len(s) >= min && len(s) <= max {
			return s
		}
	}
	if r.IntN(12) == 0 {
		s := strings.TrimSpace(shaped(r))
		if strings.Trim(s, asciiText) != "" && g.Plain {
			s = ""
		}
		if len(s) > 0 && len(s) >= min && len(s) <= max {
			return s
		}
	}
	n := min
	if k, ok := dictInt(r, 1./16, int64(min), int64(max)); ok {
		n = int(k)
	} else if max > min {
		n += r.IntN(max - min + 1)
	}
	var b strings.Builder
	exotic := !g.Plain && r.IntN(8) == 0
	for b.Len() < n {
		switch k := r.IntN(20); {
		case exotic && (b.Len() == 0 || k < 4):
			b.WriteRune(anyRune(r))
		case k < 15 || g.Plain:
			b.WriteByte(asciiText[r.IntN(len(asciiText))])
		case k < 17:
			b.WriteString(pick(r, markup))
		case k < 19:
			b.WriteRune(pick(r, uniText))
		default:
			b.WriteByte("\n\t "[r.IntN(3)])
		}
	}
	if exotic && r.IntN(2) == 0 {
		b.WriteRune(anyRune(r))
	}
	s := strings.TrimSpace(b.String())
	for len(s) > max {
		_, k := utf8.DecodeLastRuneInString(s)
		s = strings.TrimSpace(s[:len(s)-k])
	}
	for len(s) < min {
		s += string(rune('A' + r.IntN(26)))
	}
	return s
}

func (g *G) str() string {
	if g.Huge > 0 && g.R.IntN(4) == 0 {
		n := g.Huge
		g.Huge = 0
		return g.text(n, n+n/4)
	}
	if n, ok := dictInt(g.R, 1./40, 33, 5000); ok {
		return g.text(int(n), int(n))
	}
	switch k := g.R.IntN(30); {
	case k == 0:
		return g.text(60, 300)
	case k < 5:
		return fmt.Sprint(g.R.IntN(1000000000))
	case k < 7 && !g.Marshal:
		// look-alikes of other kinds of values
		return pick(g.R, []string{"Y", "N", "0", "NONE", "-1.50", "20200102", "USD", "CHECKING", "1,5", "true", "null", "0000"})
	}
	return g.text(1, 32)
}

func (g *G) uid() string {
	if s, ok := again(g, g.uids, 1./12); ok {
		return s
	}
	s := g.newUID()
	remember(g, &g.uids, s)
	remember(g, &g.texts, s) // texts may be the same as an identifier
	return s
}

func (g *G) newUID() string {
	const hex = "0123456789abcdef-ABCDEF"
	if s, ok := dictPlain(g.R, 1./20, "-"); ok && len(s) <= 36 {
		return s
	}
	if g.R.IntN(4) == 0 {
		return uuid(g.R)
	}
	n := 1 + g.R.IntN(36)
	if g.p(.4) {
		n = 36
	}
	if k, ok := dictInt(g.R, 1./20, 1, 36); ok {
		n = int(k)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = hex[g.R.IntN(len(hex))]
	}
	return string(b)
}

// uuid is an identifier in the recommended form, or almost.
func uuid(r *rand.Rand) string {
	h := fmt.Sprintf("%016x%016x", r.Uint64(), r.Uint64())
	switch r.IntN(8) {
	case 0:
		h = strings.ToUpper(h)
	case 1:
		return h
	case 2:
		return h[:8] + ":" + h[8:]
	case 3:
		h = strings.Repeat(h[:1], 32)
	case 4:
		h = digits(r, 32)
	}
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.IntN(10))
	}
	return string(b)
}

// amount makes an OFX amount: the text and the exact number it denotes.
func (g *G) amount() *Leaf {
	if l, ok := again(g, g.amounts, 1./12); ok {
		if g.R.IntN(3) == 0 && l.Text[0] >= '0' && l.Text[0] <= '9' {
			l.Text, l.Rat = "-"+l.Text, new(big.Rat).Neg(l.Rat)
		}
		return &l
	}
	l := g.newAmount()
	remember(g, &g.amounts, *l)
	return l
}

func (g *G) newAmount() *Leaf {
	r := g.R
	neg := r.IntN(3) == 0
	var ip, fp string
	switch r.IntN(8) {
	case 0:
		ip = "0"
	case 1:
		ip = digits(r, 1+r.IntN(30))
	case 2:
		ip = "00" + digits(r, 1+r.IntN(4))
	default:
		ip = digits(r, 1+r.IntN(7))
	}
	switch r.IntN(8) {
	case 0, 1:
	case 2:
		fp = digits(r, 1+r.IntN(g.MaxFrac))
	case 3:
		fp = strings.Repeat("0", r.IntN(g.MaxFrac)) + digits(r, 1)
	default:
		fp = digits(r, 2)
	}
	if r.IntN(40) == 0 {
		ip, fp = "0", ""
	}
	if n, ok := dictInt(r, 1./16, -1<<62, 1<<62); ok {
		switch k := r.IntN(6); {
		case k == 0 && n > 0 && n <= 30:
			ip = digits(r, int(n))
		case k == 1 && n > 0 && n <= int64(g.MaxFrac):
			fp = digits(r, int(n))
		case k == 2 && n >= 0 && n < 100:
			fp = fmt.Sprintf("%02d", n)
		default:
			if neg = n < 0; neg {
				n = -n
			}
			ip = fmt.Sprint(n)
			if r.IntN(2) == 0 {
				fp = pick(r, []string{"", "00", "0", "01", "5", "99"})
			}
		}
	} else if t, ok := dictText(r, 1./16); ok {
		t = strings.Replace(t, ",", ".", 1)
		t, minus := strings.CutPrefix(t, "-")
		a, b, _ := strings.Cut(t, ".")
		if a != "" && len(a) <= 30 && len(b) <= g.MaxFrac && strings.Trim(a+b, "0123456789") == "" {
			ip, fp, neg = a, b, minus
		}
	}
	num := new(big.Int)
	num.SetString(ip+fp, 10)
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fp))), nil)
	if neg {
		num.Neg(num)
	}
	text := ip
	sep := "."
	if r.IntN(5) == 0 {
		sep = ","
	}
	if fp != "" {
		if r.IntN(10) == 0 && strings.Trim(ip, "0") == "" {
			text = sep + fp
		} else {
			text = ip + sep + fp
		}
	}
	if neg {
		text = "-" + text
	} else if r.IntN(8) == 0 {
		text = "+" + text
	}
	return &Leaf{Kind: "amount", Text: text, Rat: new(big.Rat).SetFrac(num, den)}
}

var zoneNames = []string{"EST", "PST", "GMT", "UTC", "CET", "JST", "A", "AEDT", "IST", "NST", "CHAST", "XYZ", "ZZZZZZ", "MST"}

// date makes an OFX date and time: the text, and the instant it denotes.
func (g *G) date() *Leaf {
	if l, ok := again(g, g.dates, 1./12); ok {
		return &l
	}
	l := g.newDate()
	remember(g, &g.dates, *l)
	return l
}

func (g *G) newDate() *Leaf {
	r := g.R
	y := 1970 + r.IntN(80)
	switch r.IntN(12) {
	case 0:
		y = 1000 + r.IntN(9000)
	case 1:
		y = 1 + r.IntN(9999)
	}
	mo, d := 1+r.IntN(12), 1+r.IntN(28)
	if r.IntN(6) == 0 {
		d = time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
	}
	if n, ok := dictInt(r, 1./20, 1, 9999); ok {
		switch k := r.IntN(4); {
		case n <= 12 && k < 2:
			mo = int(n)
		case n <= 31 && k < 3:
			d = int(n)
		default:
			y = int(n)
		}
		d = min(d, time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day())
	}
	var h, mi, s, ms int
	text := fmt.Sprintf("%04d%02d%02d", y, mo, d)
	form := r.IntN(5)
	if form >= 1 {
		h = r.IntN(24)
		if n, ok := dictInt(r, 1./20, 0, 23); ok {
			h = int(n)
		}
		text += fmt.Sprintf("%02d", h)
	}
	if form >= 2 {
		mi = r.IntN(60)
		if n, ok := dictInt(r, 1./20, 0, 59); ok {
			mi = int(n)
		}
		text += fmt.Sprintf("%02d", mi)
	}
	if form >= 3 {
		s = r.IntN(60)
		if n, ok := dictInt(r, 1./20, 0, 59); ok {
			s = int(n)
		}
		text += fmt.Sprintf("%02d", s)
	}
	if form >= 4 {
		ms = r.IntN(1000)
		if n, ok := dictInt(r, 1./20, 0, 999); ok {
			ms = int(n)
		}
		if r.IntN(3) == 0 {
			ms = 0
		}
		text += fmt.Sprintf(".%03d", ms)
	}
	ns := ms * 1000000
	if form >= 4 && g.Frac && r.IntN(3) == 0 {
		f := digits(r, 1+r.IntN(9))
		text = text[:len(text)-3] + f
		ns, _ = strconv.Atoi((f + "00000000")[:9])
	}
	off, zone := 0, "GMT"
	if _, o := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local).Zone(); r.IntN(8) == 0 && o%3600 == 0 {
		// as it is where the process runs
		off, zone = o, ""
		text += fmt.Sprintf("[%d", o/3600)
		if o == 0 {
			zone = "GMT"
		}
		if r.IntN(3) == 0 {
			if n, _ := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.Local).Zone(); n != "" && n == strings.Trim(n, "+-0123456789") {
				zone = n
				text += ":" + zone
			}
		}
		text += "]"
	} else if r.IntN(3) != 0 {
		hours := r.IntN(27) - 12
		if n, ok := dictInt(r, 1./20, -12, 14); ok {
			hours = int(n)
		}
		frac, mins := "", 0
		if r.IntN(3) == 0 {
			mins = r.IntN(60)
			if n, ok := dictInt(r, 1./20, 0, 59); ok {
				mins = int(n)
			} else if r.IntN(2) == 0 {
				mins = pick(r, []int{0, 15, 20, 30, 40, 45})
			}
			// hundredths of an hour, rounded down or to the nearest
			hund := mins * 100 / 60
			if r.IntN(2) == 0 {
				hund = (mins*100 + 30) / 60
			}
			if hund == 100 {
				hund = 99
			}
			frac = fmt.Sprintf(".%02d", hund)
		}
		neg := hours < 0
		if hours == 0 && mins != 0 {
			neg = r.IntN(2) == 0
		}
		ah := hours
		if ah < 0 {
			ah = -ah
		}
		off = ah*3600 + mins*60
		sign := ""
		if neg {
			off, sign = -off, "-"
		} else if r.IntN(3) == 0 {
			sign = "+"
		}
		hs := fmt.Sprint(ah)
		if r.IntN(4) == 0 {
			hs = fmt.Sprintf("%02d", ah)
		}
		text += "[" + sign + hs + frac
		zone = ""
		if off == 0 {
			zone = "GMT"
		}
		if r.IntN(4) != 0 {
			zone = pick(r, zoneNames)
			if s, ok := dictPlain(r, 1./20, ""); ok && len(s) < 10 && !strings.ContainsAny(s, "0123456789") {
				zone = strings.ToUpper(s)
			}
			text += ":" + zone
		}
		text += "]"
	}
	return &Leaf{Kind: "date", Text: text, Time: time.Date(y, time.Month(mo), d, h, mi, s, ns, time.FixedZone(zone, off)), Zone: zone}
}

var currencies = strings.Fields("USD EUR GBP JPY CHF CAD AUD NZD SEK NOK DKK CNY HKD SGD INR BRL MXN ZAR KRW TRY PLN CZK HUF ILS THB PHP IDR MYR AED SAR KWD BHD CLP COP PEN ARS UAH RON BGN ISK TND JOD XAU XAG XDR")

func (g *G) leaf(f *Field) *Leaf {
	r := g.R
	switch f.Kind {
	case "amount":
		return g.amount()
	case "date":
		return g.date()
	case "boolean":
		b := r.IntN(2) == 0
		l := &Leaf{Kind: "boolean", Text: "N", Bool: b}
		if b {
			l.Text = "Y"
		}
		return l
	case "int":
		var i int64
		switch r.IntN(6) {
		case 0:
			i = int64(r.Uint64())
		case 1:
			i = pick(r, []int64{0, 1, -1, 1<<63 - 1, -1 << 63, 1 << 31, 1<<31 - 1, 1 << 32, 1 << 53, 1<<53 + 1, 10000, 15500})
		default:
			i = int64(r.IntN(100000))
		}
		if n, ok := again(g, g.ints, 1./12); ok {
			i = n
		}
		if n, ok := dictInt(r, 1./8, -1<<63, 1<<63-1); ok {
			i = n
		}
		remember(g, &g.ints, i)
		l := &Leaf{Kind: "int", Text: fmt.Sprint(i), Int: i}
		if i >= 0 && r.IntN(10) == 0 {
			l.Text = pick(r, []string{"+", "0", "000"}) + l.Text
		}
		return l
	case "string":
		s := g.str()
		return &Leaf{Kind: "string", Text: s, S: s}
	case "uid":
		s := g.uid()
		return &Leaf{Kind: "uid", Text: s, S: s}
	case "currsymbol":
		s := pick(r, currencies)
		if r.IntN(4) == 0 {
			s = pick(r, isoCurrencies)
		}
		if t, ok := dictText(r, 1./8); ok && slices.Contains(isoCurrencies, t) {
			s = t
		}
		if s == "XXX" { // no currency
			s = "XAF"
		}
		return &Leaf{Kind: "currsymbol", Text: s, S: s}
	case "enum":
		s := pick(r, enums[f.Enum].Values)
		if t, ok := dictText(r, 1./8); ok && slices.Contains(enums[f.Enum].Values, t) {
			s = t
		}
		return &Leaf{Kind: "enum", Enum: f.Enum, Text: s, S: s}
	}
	panic("leaf " + f.Kind)
}

func (g *G) listLen() int {
	g.budget--
	if g.target != "" {
		return g.R.IntN(2)
	}
	if g.Long > 0 && g.R.IntN(3) == 0 {
		n := g.Long
		g.Long, g.budget = 0, 0
		return n
	}
	if n, ok := dictInt(g.R, 1./60, 2, 3000); ok {
		g.budget = 0
		return int(n)
	}
	if g.budget < 0 {
		return g.R.IntN(2)
	}
	if g.R.IntN(25) == 0 {
		return g.R.IntN(12)
	}
	return g.R.IntN(g.MaxList + 1)
}

var msgSetNames = strings.Fields("SIGNONMSGSET SIGNUPMSGSET BANKMSGSET CREDITCARDMSGSET LOANMSGSET INVSTMTMSGSET INTERXFERMSGSET WIREXFERMSGSET BILLPAYMSGSET EMAILMSGSET SECLISTMSGSET PRESDIRMSGSET PRESDLVMSGSET PROFMSGSET IMAGEMSGSET TAX1099MSGSET")

// agg makes an aggregate.
func (g *G) agg(s *Struct, tag string) *Agg {
	a := &Agg{S: s, Tag: tag, F: map[string]*Node{}}
	defer func() {
		// no rule demands a currency here
		if s.Name == "InvStatementResponse" && a.has("CurDef") && g.R.IntN(16) == 0 {
			a.F["CurDef"] = currLeaf("XXX")
		}
	}()
	for _, f := range s.Fields {
		within, forced := "", false
		long := 0
		if g.target != "" {
			key := s.Name + "." + f.Go
			within, forced = g.path[key]
			if g.target == key {
				forced, long = true, g.Long
				g.target, g.Long, g.budget = "", 0, 0
			}
		}
		listLen := func() int {
			if long > 0 {
				return long
			}
			n := g.listLen()
			if forced && n == 0 {
				n = 1
			}
			return n
		}
		if forced {
		} else if f.Opt {
			if !g.p(g.Opt) {
				continue
			}
		} else if g.Missing > 0 && f.Kind != "poly" && f.Kind != "inline" && g.p(g.Missing) {
			continue
		}
		switch f.Kind {
		case "poly":
			n := listLen()
			types := polys[f.Poly]
			for i := 0; i < n; i++ {
				st := structs[pick(g.R, types)]
				if i == 0 && within != "" {
					st = structs[within]
				}
				if a.F[f.Go] == nil {
					a.F[f.Go] = &Node{}
				}
				var x *Agg
				if l := a.F[f.Go].List; i > 0 && within == "" && g.p(g.twins()) {
					x = g.twin(pick(g.R, l).Agg)
				} else {
					x = g.agg(st, st.XML)
				}
				a.F[f.Go].List = append(a.F[f.Go].List, &Node{Agg: x})
			}
			if n == 0 && f.Path != nil && !g.Marshal && g.p(.3) {
				a.F[f.Go] = &Node{List: []*Node{}} // an empty list element
			}
		case "inline":
			n := listLen()
			for i := 0; i < n; i++ {
				st := structs[f.Struct]
				if a.F[f.Go] == nil {
					a.F[f.Go] = &Node{}
				}
				if l := a.F[f.Go].List; i > 0 && within == "" && g.p(g.twins()) {
					a.F[f.Go].List = append(l, &Node{Agg: g.twin(pick(g.R, l).Agg)})
					continue
				}
				a.F[f.Go].List = append(a.F[f.Go].List, &Node{Agg: g.agg(st, st.XML)})
			}
		case "msgsets":
			n := &Node{List: []*Node{}}
			for i := listLen(); i > 0; i-- {
				n.List = append(n.List, &Node{Agg: g.agg(structs["MessageSet"], pick(g.R, msgSetNames)+"V1")})
			}
			a.F[f.Go] = n
		default:
			if f.Slice {
				n := listLen()
				if n == 0 {
					continue
				}
				nd := &Node{}
				for i := 0; i < n; i++ {
					if i > 0 && within == "" && g.p(g.twins()) {
						if x := pick(g.R, nd.List); x.Agg != nil {
							nd.List = append(nd.List, &Node{Agg: g.twin(x.Agg)})
							continue
						}
					}
					nd.List = append(nd.List, g.item(f))
				}
				a.F[f.Go] = nd
			} else {
				a.F[f.Go] = g.item(f)
			}
		}
	}
	if s.Name == "InvTranList" {
		x, y := a.kids("InvTransactions"), a.kids("BankTransactions")
		for len(x)+len(y) > 0 {
			if len(y) == 0 || len(x) > 0 && (g.Marshal || g.R.IntN(2) == 0) {
				a.Order, x = append(a.Order, x[0]), x[1:]
			} else {
				a.Order, y = append(a.Order, y[0]), y[1:]
			}
		}
	}
	return a
}

func (a *Agg) kids(f string) []*Agg {
	var out []*Agg
	if n := a.F[f]; n != nil {
		for _, x := range n.List {
			out = append(out, x.Agg)
		}
	}
	return out
}

func (g *G) item(f *Field) *Node {
	if f.Kind == "struct" {
		st := structs[f.Struct]
		return &Node{Agg: g.agg(st, f.Name())}
	}
	return &Node{Leaf: g.leaf(f)}
}

// Message is one message of a message set.
type Message struct {
	Set *SetDef
	V   *Agg
}

// Doc is a whole request or response document.
type Doc struct {
	Version string
	Signon  *Agg
	Sets    []*DocSet // in document order
}

// DocSet is one message set of a document.
type DocSet struct {
	Set  *SetDef
	Msgs []*Agg
}

// response makes a response document's content.
func (g *G) response() *Doc {
	d := &Doc{Version: pick(g.R, enums["ofxVersion"].Values)}
	d.Signon = g.agg(structs["SignonResponse"], "SONRS")
	n := 1 + g.R.IntN(3)
	if g.R.IntN(15) == 0 {
		n = 0
	}
	perm := g.R.Perm(len(respSets))
	for k := 0; k < len(perm); k++ {
		i := perm[k]
		if n == 0 {
			break
		}
		s := respSets[i]
		if len(s.Types) == 0 && g.R.IntN(4) != 0 {
			continue
		}
		n--
		if !g.Marshal && len(s.Types) > 0 && g.R.IntN(10) == 0 {
			// the same message set again, now or later
			k := k + 1 + g.R.IntN(len(perm)-k)
			perm = append(perm[:k:k], append([]int{i}, perm[k:]...)...)
			n++
		}
		ds := &DocSet{Set: s}
		if len(s.Types) > 0 {
			k := g.R.IntN(4)
			if g.Long > 0 && g.R.IntN(8) == 0 {
				k = g.listLen()
			}
			for ; k > 0; k-- {
				st := structs[pick(g.R, s.Types)]
				ds.Msgs = append(ds.Msgs, g.agg(st, st.XML))
			}
		}
		d.Sets = append(d.Sets, ds)
	}
	return d
}

func isSpaceEdge(s string) bool {
	rs := []rune(s)
	return len(rs) > 0 && (unicode.IsSpace(rs[0]) || unicode.IsSpace(rs[len(rs)-1]))
}
