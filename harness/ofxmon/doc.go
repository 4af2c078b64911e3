package main

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"strings"
	"time"
	"unicode/utf8"
)

// Elem is an element of a document.
type Elem struct {
	Name string
	Kids []*Elem
	Leaf *Leaf  // what a leaf denotes (expected documents)
	Text string // a leaf's text (parsed documents)
	Agg  bool   // an aggregate
	Open bool   // an aggregate which may contain elements unknown to OFX
	May  bool   // allowed to be missing
}

// elems turns an aggregate's value into its child elements, in order. With
// zero set, the optional values which Go can't tell from absent ones are
// included as elements which may be missing.
func (a *Agg) elems(zero bool) []*Elem {
	root := &Elem{Agg: true}
	var curPath []string
	var cur []*Elem // open containers, parallel to curPath
	at := func(path []string) *Elem {
		n := 0
		for n < len(path) && n < len(curPath) && path[n] == curPath[n] {
			n++
		}
		curPath, cur = curPath[:n:n], cur[:n:n]
		for ; n < len(path); n++ {
			p := root
			if n > 0 {
				p = cur[n-1]
			}
			e := &Elem{Name: path[n], Agg: true, Open: true}
			p.Kids = append(p.Kids, e)
			curPath, cur = append(curPath, path[n]), append(cur, e)
		}
		if len(path) == 0 {
			return root
		}
		return cur[len(path)-1]
	}
	for _, f := range a.S.Fields {
		n := a.F[f.Go]
		switch f.Kind {
		case "poly", "inline":
			if a.S.Name == "InvTranList" {
				continue
			}
			if f.Path == nil {
				if n != nil {
					for _, k := range n.List {
						root.Kids = append(root.Kids, k.Agg.elem(zero))
					}
				}
				continue
			}
			if n == nil {
				continue
			}
			p := at(f.Path[:len(f.Path)-1])
			c := &Elem{Name: f.Name(), Agg: true}
			for _, k := range n.List {
				c.Kids = append(c.Kids, k.Agg.elem(zero))
			}
			p.Kids = append(p.Kids, c)
		case "msgsets":
			if n == nil {
				continue
			}
			p := at(f.Path[:len(f.Path)-1])
			c := &Elem{Name: f.Name(), Agg: true}
			for _, k := range n.List {
				w := &Elem{Name: strings.TrimSuffix(k.Agg.Tag, "V1"), Agg: true}
				w.Kids = append(w.Kids, k.Agg.elem(zero))
				c.Kids = append(c.Kids, w)
			}
			p.Kids = append(p.Kids, c)
		default:
			if n == nil {
				if zero && !f.Slice && !f.Ptr {
					if z := zeroElem(f); z != nil {
						p := at(f.Path[:len(f.Path)-1])
						p.Kids = append(p.Kids, z)
					}
				}
				continue
			}
			p := at(f.Path[:len(f.Path)-1])
			items := []*Node{n}
			if f.Slice {
				items = n.List
			}
			for _, it := range items {
				p.Kids = append(p.Kids, itemElem(it, f.Name(), zero))
			}
		}
	}
	if a.S.Name == "InvTranList" {
		for _, k := range a.Order {
			root.Kids = append(root.Kids, k.elem(zero))
		}
	}
	markMay(root)
	return root.Kids
}

// markMay allows containers of nothing but elements which may be missing to
// be missing, too.
func markMay(e *Elem) bool {
	if !e.Agg {
		return e.May
	}
	all := true
	for _, k := range e.Kids {
		if !markMay(k) {
			all = false
		}
	}
	if all && len(e.Kids) > 0 {
		e.May = true
	}
	return e.May
}

func itemElem(n *Node, name string, zero bool) *Elem {
	if n.Leaf != nil {
		return &Elem{Name: name, Leaf: n.Leaf, Text: n.Leaf.Text}
	}
	return &Elem{Name: name, Agg: true, Open: n.Agg.open(), Kids: n.Agg.elems(zero)}
}

// open tells whether unknown elements in an aggregate are skipped. Members of
// lists of several types which aren't known are rejected instead.
func (a *Agg) open() bool { return a.S.Name != "InvTranList" && a.S.Name != "SecurityList" }

func (a *Agg) elem(zero bool) *Elem {
	return &Elem{Name: a.Tag, Agg: true, Open: a.open(), Kids: a.elems(zero)}
}

// zeroElem is how a field's zero value may show up in marshalled documents.
func zeroElem(f *Field) *Elem {
	e := &Elem{Name: f.Name(), May: true}
	switch f.Kind {
	case "amount":
		e.Leaf = &Leaf{Kind: "amount", Rat: new(big.Rat)}
	case "date":
		e.Leaf = &Leaf{Kind: "date", Time: time.Time{}}
	case "currsymbol":
		e.Leaf = &Leaf{Kind: "currsymbol", S: "XXX"}
	case "string", "uid":
		e.Leaf = &Leaf{Kind: "string", S: ""}
	case "int":
		e.Leaf = &Leaf{Kind: "int"}
	case "boolean":
		e.Leaf = &Leaf{Kind: "boolean"}
	case "struct":
		e.Agg = true
		for _, g := range structs[f.Struct].Fields {
			if g.Slice || g.Ptr {
				continue
			}
			if len(g.Path) != 1 {
				return nil
			}
			if z := zeroElem(g); z != nil {
				e.Kids = append(e.Kids, z)
			}
		}
	default:
		return nil
	}
	return e
}

// tree is the whole document.
func (d *Doc) tree(dir string, zero bool) *Elem {
	root := &Elem{Name: "OFX", Agg: true}
	so := &Elem{Name: "SIGNONMSGS" + dir + "V1", Agg: true}
	so.Kids = []*Elem{d.Signon.elem(zero)}
	root.Kids = append(root.Kids, so)
	for _, s := range d.Sets {
		e := &Elem{Name: s.Set.Elem, Agg: true}
		for _, m := range s.Msgs {
			e.Kids = append(e.Kids, m.elem(zero))
		}
		root.Kids = append(root.Kids, e)
	}
	return root
}

// Spell is how to write a document down.
type Spell struct {
	R         *rand.Rand
	Close     float64 // chance to close a leaf which SGML allows to leave open
	NL        string  // line ends
	WS        int     // 0 none, 1 new lines, 2 indented, 3 random
	Entities  float64 // chance to write a character as a reference
	CData     float64 // chance to write a whole leaf as CDATA
	Pad       float64 // chance of white space around a leaf's text
	Vendor    float64 // chance of an unknown element
	Attrs     float64 // chance of an unknown attribute
	SelfClose float64 // chance of <X/> for an empty element
	Lenient   bool    // bare ampersands in SGML
	Huge      float64 // chance of a lot of white space between elements
	Header    int     // header style
}

// canonical is the plainest spelling.
func canonical(r *rand.Rand) *Spell { return &Spell{R: r, Close: 1, NL: "\n", WS: 1} }

func randomSpell(r *rand.Rand) *Spell {
	s := &Spell{R: r, NL: "\n"}
	s.Close = pick(r, []float64{0, 0, 1, .5, .9})
	if r.IntN(3) == 0 {
		s.NL = "\r\n"
	}
	s.WS = r.IntN(4)
	s.Entities = pick(r, []float64{0, 0, 0, .05, .5, 1})
	s.CData = pick(r, []float64{0, 0, 0, .1, .5})
	s.Pad = pick(r, []float64{0, 0, .1, .5})
	s.Vendor = pick(r, []float64{0, 0, 0, .05, .2})
	s.Attrs = pick(r, []float64{0, 0, 0, .02})
	s.SelfClose = pick(r, []float64{0, .5, 1})
	s.Lenient = r.IntN(3) == 0
	s.Header = r.IntN(1 << 20)
	if r.IntN(20) == 0 {
		s.Huge = .03
	}
	return s
}

func isSGML(version string) bool { return version < "200" }

// header writes a document's header.
func (s *Spell) header(version string) string {
	r := rand.New(rand.NewPCG(uint64(s.Header), 7))
	if isSGML(version) {
		nl, sp, end := s.NL, "", s.NL+s.NL
		sec, enc, cs, old, nu := "NONE", "USASCII", "1252", "NONE", "NONE"
		if s.Header != 0 {
			switch r.IntN(6) {
			case 0:
				nl = ""
			case 1:
				nl = "\n"
			case 2:
				nl = "\r\n"
			case 3:
				nl = "\r"
			}
			sp = pick(r, []string{"", "", " ", "\t"})
			end = pick(r, []string{"", s.NL, s.NL + s.NL, " ", "\n\n\n"})
			sec = pick(r, []string{"NONE", "TYPE1"})
			enc = pick(r, []string{"USASCII", "UTF-8", "UNICODE"})
			cs = pick(r, []string{"1252", "NONE", "ISO-8859-1"})
			old = pick(r, []string{"NONE", "2f4a6d0e-1b2c-4d5e-8f90-0123456789ab", "20200101"})
			nu = pick(r, []string{"NONE", "0f4a6d0e-1b2c-4d5e-8f90-0123456789ab", "x_1"})
			if r.IntN(6) == 0 {
				// Generous white space; the whole header has to fit into 1024
				// bytes
				k := 1 + r.IntN(60)
				pad := strings.Repeat(pick(r, []string{" ", "\n", "\r\n", "\t"}), k)
				switch r.IntN(3) {
				case 0:
					nl += pad[:min(len(pad), 60)]
				case 1:
					sp += pad[:min(len(pad), 60)]
				default:
					end += strings.Repeat(pad, 5)[:min(5*len(pad), 500)]
				}
			}
			if r.IntN(6) == 0 {
				old = strings.Repeat("0123456789abcdef", 1+r.IntN(8))
				nu = strings.Repeat("fedcba9876543210", 1+r.IntN(8))
			}
			if nl == "" {
				// The values run into the next keys, so they mustn't be
				// made of the same characters
				sec, cs, old = "NONE", "1252", "NONE"
				nl = pick(r, []string{" ", "\t", "  "})
			}
		}
		return "OFXHEADER:" + sp + "100" + nl + "DATA:" + sp + "OFXSGML" + nl + "VERSION:" + sp + version + nl +
			"SECURITY:" + sp + sec + nl + "ENCODING:" + sp + enc + nl + "CHARSET:" + sp + cs + nl +
			"COMPRESSION:" + sp + "NONE" + nl + "OLDFILEUID:" + sp + old + nl + "NEWFILEUID:" + sp + nu + end
	}
	if s.Header == 0 {
		return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + s.NL + `<?OFX OFXHEADER="200" VERSION="` + version + `" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>` + s.NL
	}
	h := pick(r, []string{`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`, `<?xml version="1.0" encoding="utf-8" ?>`, `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="US-ASCII"?>`, `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version='1.0' encoding='UTF-8'?>`, "<?xml\tversion=\"1.0\"\n encoding=\"UTF-8\"\nstandalone=\"yes\" ?>"})
	attrs := []string{`OFXHEADER="200"`, `VERSION="` + version + `"`}
	if r.IntN(4) != 0 {
		attrs = append(attrs, `SECURITY="NONE"`)
	}
	if r.IntN(4) != 0 {
		attrs = append(attrs, `OLDFILEUID="`+pick(r, []string{"NONE", "abc-1", ""})+`"`)
	}
	if r.IntN(4) != 0 {
		attrs = append(attrs, `NEWFILEUID="`+pick(r, []string{"NONE", "abc-2", "x y"})+`"`)
	}
	if r.IntN(3) == 0 {
		r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	sep := pick(r, []string{" ", " ", "\n", "  ", "\r\n\t"})
	gap := pick(r, []string{"", "\n", "\r\n", "\n\n", "  "})
	if r.IntN(8) == 0 {
		gap = strings.Repeat(pick(r, []string{" ", "\n", "\r\n", "\t"}), r.IntN(2000))
		if r.IntN(2) == 0 {
			sep = strings.Repeat(" ", 1+r.IntN(400))
		}
	}
	return h + gap + "<?OFX " + strings.Join(attrs, sep) + pick(r, []string{"", " "}) + "?>" + gap
}

// Write spells the document.
func (s *Spell) doc(version string, root *Elem) string {
	var b strings.Builder
	h := s.header(version)
	b.WriteString(h)
	s.write(&b, root, 0, isSGML(version), false)
	if s.WS != 0 {
		b.WriteString(s.NL)
	}
	if s.Header != 0 && !isSGML(version) && s.R.IntN(4) == 0 && strings.IndexFunc(b.String(), func(c rune) bool { return c > 126 }) < 0 {
		// ASCII means the same in all of these
		e := pick(s.R, []string{"ISO-8859-1", "windows-1252", "ISO-8859-15", "US-ASCII", "utf8", "ascii", "latin1", "UTF-8", "Shift_JIS"})
		if nh := strings.Replace(h, `encoding="UTF-8"`, `encoding="`+e+`"`, 1); nh != h {
			return nh + b.String()[len(h):]
		}
	}
	return b.String()
}

func (s *Spell) p(x float64) bool { return x > 0 && s.R.Float64() < x }

func (s *Spell) space(b *strings.Builder, depth int) {
	if s.p(s.Huge) {
		w := pick(s.R, []string{" ", s.NL, "\t", s.NL + " "})
		n := 1 << s.R.IntN(16)
		b.WriteString(strings.Repeat(w, (n+s.R.IntN(n))/len(w)))
	}
	switch s.WS {
	case 1:
		b.WriteString(s.NL)
	case 2:
		b.WriteString(s.NL)
		b.WriteString(strings.Repeat(pick(s.R, []string{"  ", "\t"}), depth))
	case 3:
		for k := s.R.IntN(4); k > 0; k-- {
			b.WriteString(pick(s.R, []string{" ", s.NL, "\t"}))
		}
	}
}

var vendorTags = []string{"INTU.BID", "INTU.ORG", "X-BANK", "MSOFX.NOTE", "ZZUNKNOWN", "USAA.EXT", "CAPONE.ID", "A1"}

func (s *Spell) vendor(b *strings.Builder, depth int, last, sgml bool) {
	t := pick(s.R, vendorTags)
	switch k := s.R.IntN(6); {
	case k == 0:
		b.WriteString("<" + t + "/>")
	case k == 1:
		// an unknown aggregate, with children whose names OFX knows
		b.WriteString("<" + t + ">")
		for i := s.R.IntN(3); i >= 0; i-- {
			n := pick(s.R, []string{"NAME", "CODE", "FITID", "MEMO", "TRNAMT", "ACCTID", "DTSTART", "TRNUID", "SECID2"})
			b.WriteString("<" + n + ">" + pick(s.R, []string{"42", "x", "Y", "20200101"}))
			b.WriteString("</" + n + ">")
		}
		b.WriteString("</" + t + ">")
	case k == 2 && last && sgml:
		b.WriteString("<" + t + ">3000") // nothing follows in its parent
	default:
		b.WriteString("<" + t + ">" + pick(s.R, []string{"3000", "some text", "", "a&amp;b"}) + "</" + t + ">")
	}
}

func (s *Spell) write(b *strings.Builder, e *Elem, depth int, sgml, _ bool) {
	b.WriteByte('<')
	b.WriteString(e.Name)
	if s.p(s.Attrs) {
		s.attrs(b)
	}
	if !e.Agg {
		text := e.Text
		if text == "" && s.p(s.SelfClose) {
			b.WriteString("/>")
			return
		}
		b.WriteByte('>')
		pad1, pad2 := "", ""
		if s.p(s.Pad) {
			pad1 = s.pad()
		}
		if s.p(s.Pad) {
			pad2 = s.pad()
		}
		open := sgml && leaf103[e.Name] && s.R.Float64() >= s.Close
		switch {
		case !open && text != "" && s.p(s.CData) && !strings.Contains(text, "]]>") && !strings.Contains(text, "\r"):
			if sgml {
				pad1, pad2 = "", ""
			}
			b.WriteString(pad1 + "<![CDATA[" + text + "]]>" + pad2)
		default:
			b.WriteString(pad1)
			s.text(b, text, sgml)
			b.WriteString(pad2)
		}
		if !open {
			b.WriteString("</" + e.Name + ">")
		}
		return
	}
	if len(e.Kids) == 0 && s.p(s.SelfClose) {
		b.WriteString("/>")
		return
	}
	b.WriteByte('>')
	for _, k := range e.Kids {
		s.space(b, depth+1)
		if e.Open && s.p(s.Vendor) {
			s.vendor(b, depth+1, false, sgml)
			s.space(b, depth+1)
		}
		s.write(b, k, depth+1, sgml, false)
	}
	if e.Open && s.p(s.Vendor) {
		s.space(b, depth+1)
		s.vendor(b, depth+1, true, sgml)
	}
	s.space(b, depth)
	b.WriteString("</" + e.Name + ">")
}

// attrs writes attributes, which mean nothing.
func (s *Spell) attrs(b *strings.Builder) {
	if s.R.IntN(2) == 0 {
		b.WriteString(pick(s.R, []string{` x="1"`, ` ID='a b'`, " \tlang=\"en\""}))
		return
	}
	n := 1 + s.R.IntN(4)
	if s.R.IntN(4) == 0 {
		n = 1 << s.R.IntN(8)
		n += s.R.IntN(n)
	}
	for i := 0; i < n; i++ {
		q := pick(s.R, []string{`"`, `'`})
		b.WriteString(pick(s.R, []string{" ", "  ", "\t", "\n"}) + pick(s.R, []string{"a", "ID", "x-", "VERSION", "n.", "_"}) + fmt.Sprint(i) + pick(s.R, []string{"=", "=", " = "}) + q)
		for k := s.R.IntN(12); k > 0; k-- {
			b.WriteString(pick(s.R, []string{"a", "B", " ", "7", "&amp;", "&lt;", "/", ">", "=", "é", "&#65;", ".", "-"}))
		}
		b.WriteString(q)
	}
}

// pad is white space, some of it written as references.
func (s *Spell) pad() string {
	p := pick(s.R, []string{" ", s.NL, "\t", "  "})
	if s.p(s.Entities) {
		p = pick(s.R, []string{"&#32;", "&#10;", "&#xD;&#xA;", "&#13;", "&#x9;", "&#9;\n "})
	}
	return p
}

func (s *Spell) text(b *strings.Builder, text string, sgml bool) {
	for i, c := range text {
		ref := s.p(s.Entities)
		switch {
		case c == '&':
			if sgml && s.Lenient && !ref && i+1 < len(text) && text[i+1] == ' ' {
				b.WriteByte('&')
			} else if ref && s.R.IntN(2) == 0 {
				b.WriteString("&#38;")
			} else {
				b.WriteString("&amp;")
			}
		case c == '<':
			if ref && s.R.IntN(2) == 0 {
				b.WriteString("&#x3C;")
			} else {
				b.WriteString("&lt;")
			}
		case c == '>':
			b.WriteString("&gt;")
		case ref && c == '"':
			b.WriteString("&quot;")
		case ref && c == '\'':
			b.WriteString("&apos;")
		case ref && s.R.IntN(2) == 0:
			fmt.Fprintf(b, "&#%d;", c)
		case ref:
			fmt.Fprintf(b, "&#x%x;", c)
		case c == '\n':
			b.WriteString(s.NL)
		default:
			b.WriteRune(c)
		}
	}
}

// A small parser of our own for documents the code under test writes.

type docParser struct {
	s       string
	i       int
	sgml    bool
	leafs   map[string]bool // leaves which SGML leaves open
	opened  int             // leaves found without an end tag
	closed  int             // leaves found with an end tag
	closed1 []string        // OFX 1.0.3 leaves found with an end tag
}

func (p *docParser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for {
		i := strings.IndexByte(s, '&')
		if i < 0 {
			b.WriteString(s)
			return b.String(), nil
		}
		b.WriteString(s[:i])
		s = s[i+1:]
		j := strings.IndexByte(s, ';')
		if j < 0 {
			return "", errors.New("bare ampersand")
		}
		ent := s[:j]
		s = s[j+1:]
		switch ent {
		case "amp":
			b.WriteByte('&')
		case "lt":
			b.WriteByte('<')
		case "gt":
			b.WriteByte('>')
		case "quot":
			b.WriteByte('"')
		case "apos":
			b.WriteByte('\'')
		default:
			var n rune
			var err error
			if strings.HasPrefix(ent, "#x") {
				_, err = fmt.Sscanf(ent[2:], "%x", &n)
			} else if strings.HasPrefix(ent, "#") {
				_, err = fmt.Sscanf(ent[1:], "%d", &n)
			} else {
				err = errors.New("unknown entity " + ent)
			}
			if err != nil {
				return "", err
			}
			b.WriteRune(n)
		}
	}
}

func (p *docParser) elem() (*Elem, error) {
	if p.i >= len(p.s) || p.s[p.i] != '<' {
		return nil, fmt.Errorf("at %d: expected an element, found %.30q", p.i, p.s[p.i:])
	}
	j := strings.IndexByte(p.s[p.i:], '>')
	if j < 0 {
		return nil, errors.New("unterminated tag")
	}
	name := p.s[p.i+1 : p.i+j]
	p.i += j + 1
	if name == "" || strings.Trim(name, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.") != "" {
		return nil, fmt.Errorf("bad tag <%s>", name)
	}
	e := &Elem{Name: name}
	start := p.i
	j = strings.IndexByte(p.s[p.i:], '<')
	if j < 0 {
		return nil, fmt.Errorf("<%s> not closed", name)
	}
	text := p.s[start : start+j]
	if strings.IndexByte(text, '>') >= 0 {
		return nil, fmt.Errorf("raw > in <%s>", name)
	}
	p.i += j
	end := "</" + name + ">"
	isEnd := strings.HasPrefix(p.s[p.i:], end)
	if strings.TrimSpace(text) != "" || isEnd || (p.sgml && p.leafs[name]) {
		// a leaf
		t, err := unescape(text)
		if err != nil {
			return nil, fmt.Errorf("<%s>: %v", name, err)
		}
		if !utf8.ValidString(t) {
			return nil, fmt.Errorf("<%s>: invalid UTF-8", name)
		}
		e.Text = t
		if isEnd {
			p.i += len(end)
			p.closed++
			if leaf103[name] {
				p.closed1 = append(p.closed1, name)
			}
			return e, nil
		}
		if p.sgml && p.leafs[name] {
			// Whatever separates it from the next tag isn't part of it
			p.opened++
			e.Text = strings.TrimRight(t, " \t\r\n")
			return e, nil
		}
		return nil, fmt.Errorf("<%s>: text %.30q but no end tag", name, text)
	}
	e.Agg = true
	for {
		p.ws()
		if strings.HasPrefix(p.s[p.i:], "</") {
			if !strings.HasPrefix(p.s[p.i:], end) {
				return nil, fmt.Errorf("at %d: expected %s, found %.30q", p.i, end, p.s[p.i:])
			}
			p.i += len(end)
			return e, nil
		}
		k, err := p.elem()
		if err != nil {
			return nil, err
		}
		e.Kids = append(e.Kids, k)
	}
}

// parseMarshalled splits a document the code under test wrote into its header
// and its elements.
func parseMarshalled(s string) (header string, root *Elem, p *docParser, err error) {
	i := strings.Index(s, "<OFX>")
	if i < 0 {
		return "", nil, nil, errors.New("no <OFX> element")
	}
	p = &docParser{s: s, i: i, sgml: strings.HasPrefix(s, "OFXHEADER:"), leafs: leaf103}
	root, err = p.elem()
	if err != nil {
		return s[:i], nil, p, err
	}
	p.ws()
	if p.i != len(s) {
		return s[:i], root, p, fmt.Errorf("trailing data %.30q", s[p.i:])
	}
	return s[:i], root, p, nil
}

// spells reports whether a text denotes a leaf's value.
func (l *Leaf) spells(text string) error {
	bad := func() error { return fmt.Errorf("text %q does not denote %s", clip(text, 300), l) }
	switch l.Kind {
	case "amount":
		r, ok := parseAmount(text)
		if !ok || r.Cmp(l.Rat) != 0 {
			return bad()
		}
	case "date":
		t, ok := parseDate(text)
		if !ok || !t.Equal(l.Time.Truncate(time.Millisecond)) {
			return bad()
		}
	case "boolean":
		if l.Bool && text != "Y" || !l.Bool && text != "N" {
			return bad()
		}
	case "int":
		if text != fmt.Sprint(l.Int) {
			return bad()
		}
	default:
		if text != l.S {
			return bad()
		}
	}
	return nil
}

func (l *Leaf) String() string {
	switch l.Kind {
	case "amount":
		return "amount " + l.Rat.RatString()
	case "date":
		return "date " + l.Time.Format("2006-01-02T15:04:05.999999999 -0700") + " zone " + l.Zone
	case "boolean":
		return fmt.Sprint("boolean ", l.Bool)
	case "int":
		return fmt.Sprint("int ", l.Int)
	}
	return fmt.Sprintf("%s %q", l.Kind, clip(l.S, 300))
}

// parseAmount reads an OFX amount: digits with at most one decimal point.
func parseAmount(s string) (*big.Rat, bool) {
	neg := false
	if strings.HasPrefix(s, "-") {
		neg, s = true, s[1:]
	} else if strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	s = strings.Replace(s, ",", ".", 1)
	ip, fp, _ := strings.Cut(s, ".")
	if ip+fp == "" || strings.Trim(ip+fp, "0123456789") != "" {
		return nil, false
	}
	num, _ := new(big.Int).SetString(ip+fp, 10)
	if neg {
		num.Neg(num)
	}
	return new(big.Rat).SetFrac(num, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(fp))), nil)), true
}

// parseDate reads an OFX date and time in the form with milliseconds and zone.
func parseDate(s string) (time.Time, bool) {
	var y, mo, d, h, mi, sec, ms int
	base, zone, ok := strings.Cut(s, "[")
	if !ok || !strings.HasSuffix(zone, "]") || len(base) != 18 {
		return time.Time{}, false
	}
	if n, err := fmt.Sscanf(base, "%04d%02d%02d%02d%02d%02d.%03d", &y, &mo, &d, &h, &mi, &sec, &ms); n != 7 || err != nil {
		return time.Time{}, false
	}
	zone, name, named := strings.Cut(zone[:len(zone)-1], ":")
	if named && (name == "" || strings.Trim(name, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "") {
		return time.Time{}, false
	}
	neg := strings.HasPrefix(zone, "-")
	zone = strings.TrimLeft(zone, "+-")
	hs, fs, frac := strings.Cut(zone, ".")
	var hours, hund int
	if n, err := fmt.Sscanf(hs, "%d", &hours); n != 1 || err != nil || hours > 24 {
		return time.Time{}, false
	}
	if frac {
		if n, err := fmt.Sscanf(fs, "%02d", &hund); n != 1 || err != nil || len(fs) != 2 {
			return time.Time{}, false
		}
	}
	off := hours*3600 + (hund*60+50)/100*60
	if neg {
		off = -off
	}
	t := time.Date(y, time.Month(mo), d, h, mi, sec, ms*1000000, time.FixedZone(name, off))
	if t.Year() != y || int(t.Month()) != mo || t.Day() != d || t.Hour() != h || t.Minute() != mi || t.Second() != sec {
		return time.Time{}, false
	}
	return t, true
}

// matchTree compares a document which was written with the expected one.
func matchTree(want, got *Elem, path string) error {
	path += ">" + want.Name
	if want.Name != got.Name {
		return fmt.Errorf("%s: found <%s>", path, got.Name)
	}
	if !want.Agg {
		if got.Agg {
			return fmt.Errorf("%s: found an aggregate instead of %s", path, want.Leaf)
		}
		if err := want.Leaf.spells(got.Text); err != nil {
			return fmt.Errorf("%s: %v", path, err)
		}
		return nil
	}
	if !got.Agg {
		if strings.TrimSpace(got.Text) != "" {
			return fmt.Errorf("%s: found text %q instead of an aggregate", path, got.Text)
		}
		got = &Elem{Name: got.Name, Agg: true}
	}
	j := 0
	isEmptyWant := func(e *Elem) bool { return e.Agg && !hasLeaf(e) }
	for _, w := range want.Kids {
		if isEmptyWant(w) {
			if j < len(got.Kids) && got.Kids[j].Name == w.Name && (!hasLeaf(got.Kids[j]) || len(got.Kids[j].Kids) == 0 && strings.TrimSpace(got.Kids[j].Text) == "") {
				j++
			}
			continue
		}
		for j < len(got.Kids) && got.Kids[j].Name != w.Name && isEmptyGot(got.Kids[j]) {
			j++
		}
		if j < len(got.Kids) && got.Kids[j].Name == w.Name {
			if err := matchTree(w, got.Kids[j], path); err != nil {
				return err
			}
			j++
			continue
		}
		if w.May {
			continue
		}
		found := "nothing"
		if j < len(got.Kids) {
			found = "<" + got.Kids[j].Name + ">"
		}
		return fmt.Errorf("%s: <%s> missing, found %s", path, w.Name, found)
	}
	for j < len(got.Kids) && isEmptyGot(got.Kids[j]) {
		j++
	}
	if j < len(got.Kids) {
		return fmt.Errorf("%s: unexpected <%s>", path, got.Kids[j].Name)
	}
	return nil
}

// isEmptyGot tells empty containers, which carry no information: an element
// without any content, which isn't an expected leaf.
func isEmptyGot(g *Elem) bool {
	if g.Agg {
		return !hasLeaf(g)
	}
	if strings.TrimSpace(g.Text) != "" {
		return false
	}
	return emptyContainers[g.Name]
}

// The containers of lists which may be written although they are empty.
var emptyContainers = map[string]bool{"SIGNONINFOLIST": true, "MSGSETLIST": true, "MFASSETCLASS": true, "FIMFASSETCLASS": true, "CONTRIBINFO": true,
	"SECLIST": true, "SECLISTRQ": true, "INVPOSLIST": true, "INVOOLIST": true, "BALLIST": true}

func hasLeaf(e *Elem) bool {
	if !e.Agg {
		return e.Leaf != nil || !emptyContainers[e.Name]
	}
	for _, k := range e.Kids {
		if hasLeaf(k) {
			return true
		}
	}
	return false
}
