package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode"
)

// C07: nothing in a document is silently dropped or misread: malformed values
// and unknown messages or list members make the document rejected.

func malformed(r *rand.Rand, l *Leaf) string {
	if r.IntN(2) == 0 {
		for try := 0; try < 20; try++ {
			if s := garble(r, l.Text); surelyMalformed(l, s) {
				return s
			}
		}
	}
	switch l.Kind {
	case "amount":
		return pick(r, []string{"", "abc", "1.2.3", "--1", "1-", "12x", "$5", "1 000", "1,000.00", "1.000,00", "1,000,000", ".", ",", "-", "+", "+-1", "-+1", "1.5USD", "NaN", "Infinity", "١٢", "1..2", "x" + l.Text, l.Text + "!", l.Text + " " + l.Text, "1.-5"})
	case "date":
		// text after a complete time zone is ignored, which isn't judged here
		whole := strings.SplitN(l.Text, "[", 2)[0]
		return pick(r, []string{"", "2020", "202001", "2020010", "20201301", "20200001", "20200100", "20200132", "20200230", "20210229", "20200431", "2020010124", "202001012360", "20200101235960", "2020-01-01", "01/02/2020", "abcd0101", "20200101x", "[0:GMT]", "20200101[", "20200101[abc]", "20200101[:EST]",
			"20200101T120000Z", "20200101 120000", "today", "1577836800", "0", "20200101120000.abc", "20200101120000.+00", "20200101120000.+05", "20200101120000.-00[0:GMT]", "20200101120000.+12[-5:EST]", "202001011200+5", "2020010112+100", "2020010+", "202001011200005:EST]", "x" + l.Text, whole + "!", whole + l.Text, "-20200101", "+20200101"})
	case "boolean":
		return pick(r, []string{"", "y", "n", "YES", "NO", "Yes", "true", "false", "1", "0", "X", "NY", "Y N", "T", "YY", "-", "ÿ"})
	case "int":
		return pick(r, []string{"", "abc", "1.5", "1.0", "1,000", "0x10", "1e3", "--1", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "12a", "1 2", "-", "+", "+-1", "Y", "1_000", "１２", l.Text + ".", l.Text + "x"})
	case "enum":
		v := l.S
		for {
			s := pick(r, []string{"", v + "X", "X" + v, v[:len(v)-1], v[1:], strings.ToLower(v), strings.ToUpper(v[:1]) + strings.ToLower(v[1:]), v + " " + v, "UNKNOWN", "NONEXISTENT", "0", "1", v + "." + v, v + "-", "?"})
			if s == v || knownValue(l.Enum, s) {
				continue
			}
			return s
		}
	case "currsymbol":
		return pick(r, []string{"", "ZZZ", "US", "USDX", "840", "US D", "$", "EURO", "DOLLAR", "QQQ", "U$D", "XX"})
	}
	return ""
}

// surelyMalformed tells whether a text can't be a value of a leaf's kind,
// whichever freedom one takes in reading it.
func surelyMalformed(l *Leaf, s string) bool {
	v := strings.TrimFunc(s, unicode.IsSpace)
	all := func(s, chars string) bool { return strings.Trim(s, chars) == "" }
	switch l.Kind {
	case "amount":
		return v == "" || strings.ContainsFunc(v, func(c rune) bool {
			return !strings.ContainsRune("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-.,/_", c)
		})
	case "date":
		v, zone, has := strings.Cut(v, "[")
		v = strings.TrimSpace(v) // white space before the zone may be ignored
		whole, frac, dot := strings.Cut(v, ".")
		if !all(whole, "0123456789") || dot && (!all(frac, "0123456789") || frac == "") {
			// (commas may separate fractions)
			return !strings.Contains(v, ",")
		}
		if n := len(whole); n != 8 && n != 10 && n != 12 && n != 14 {
			return true
		}
		return has && (zone == "" || !strings.ContainsRune("+-0123456789", rune(zone[0])))
	case "boolean":
		return v != "Y" && v != "N"
	case "int":
		d := strings.TrimPrefix(v, "-")
		if d == v {
			d = strings.TrimPrefix(v, "+")
		}
		return d == "" || !all(d, "0123456789")
	case "enum":
		return !knownValue(l.Enum, v)
	case "currsymbol":
		return len(v) != 3 || !all(strings.ToUpper(v), "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
	}
	return false
}

func knownValue(enum, s string) bool {
	for _, v := range enums[enum].Values {
		if v == s {
			return true
		}
	}
	return false
}

// Insert marks where something foreign goes in a document.
var structural = []struct {
	what string
	f    func(t *T, d *Doc, root *Elem, sgml bool) bool
}{
	{"unknown message set", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		var known []string
		for _, s := range respSets {
			known = append(known, s.Elem)
		}
		n := pick(t.R, known)
		n = pick(t.R, []string{strings.Replace(n, "RSV1", "RSV2", 1), strings.Replace(n, "RSV1", "RQV1", 1), strings.Replace(n, "RSV1", "RS", 1), strings.ToLower(n), "X" + n, n + "X", "TAX1099MSGSRSV1", "OFX2", "SIGNONMSGSRSV1", "SONRS", "STMTTRNRS", "VENDORMSGSRSV1", "CHALLENGEMSGSRSV1"})
		insert(t, root, 1, &Elem{Name: n, Agg: true, Kids: leafKids(t)})
		return true
	}},
	{"unknown transaction", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		s := pick(t.R, respSets)
		var n string
		for {
			n = pick(t.R, strings.Fields("STMTTRNRS CCSTMTTRNRS INVSTMTTRNRS SECLISTTRNRS SECLIST PROFTRNRS ACCTINFOTRNRS STMTENDTRNRS CCSTMTENDTRNRS STMTTRNRQ INTRATRNRS ENROLLTRNRS stmttrnrs STMTTRN STATUS TRNUID BANKMSGSRSV1 X INTERTRNRS PMTTRNRS MAILTRNRS LOANSTMTTRNRS ACCTINFORS PROFRS SECLISTRS STMTTRNRSX SYNCRS"))
			ok := false
			for _, k := range s.Types {
				if structs[k].XML == n {
					ok = true
				}
			}
			if !ok {
				break
			}
		}
		x := &Elem{Name: n, Agg: true, Kids: leafKids(t)}
		for _, k := range root.Kids[1:] {
			if k.Name == s.Elem {
				insert(t, k, 0, x)
				return true
			}
		}
		insert(t, root, 1, &Elem{Name: s.Elem, Agg: true, Kids: []*Elem{x}})
		return true
	}},
	{"unknown list member", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		var lists []*Elem
		root.find(func(e *Elem) bool {
			return e.Agg && (e.Name == "INVTRANLIST" || e.Name == "INVPOSLIST" || e.Name == "INVOOLIST" || e.Name == "SECLIST")
		}, &lists)
		if len(lists) == 0 {
			return false
		}
		l := pick(t.R, lists)
		p := map[string]string{"INVTRANLIST": "InvTransaction", "INVPOSLIST": "Position", "INVOOLIST": "OpenOrder", "SECLIST": "Security"}[l.Name]
		known := map[string]bool{"INVBANKTRAN": l.Name == "INVTRANLIST", "DTSTART": l.Name == "INVTRANLIST", "DTEND": l.Name == "INVTRANLIST"}
		var others []string
		for n, ts := range polys {
			for _, x := range ts {
				if n == p {
					known[structs[x].XML] = true
					others = append(others, structs[x].XML+"X", strings.ToLower(structs[x].XML), "X"+structs[x].XML)
				} else {
					others = append(others, structs[x].XML)
				}
			}
		}
		sort.Strings(others)
		others = append(others, "STMTTRN", "INVBANKTRAN", "FOO", "DTSTART", "INVTRAN", "INVPOS", "OO", "SECINFO", "CURRENCY")
		n := pick(t.R, others)
		for known[n] {
			n = pick(t.R, others)
		}
		insert(t, l, 0, &Elem{Name: n, Agg: true, Kids: leafKids(t)})
		return true
	}},
	{"text between messages", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		var aggs []*Elem
		aggs = append(aggs, root)
		for _, k := range root.Kids[1:] {
			if k.Agg {
				aggs = append(aggs, k)
			}
		}
		root.find(func(e *Elem) bool {
			return e.Agg && (e.Name == "INVTRANLIST" || e.Name == "INVPOSLIST" || e.Name == "INVOOLIST" || e.Name == "SECLIST" || e.Name == "MSGSETLIST")
		}, &aggs)
		e := pick(t.R, aggs)
		if e == root {
			insert(t, root, 1, &Elem{Name: "", Text: "stray text"})
		} else if e.Name == "INVTRANLIST" {
			return false
		} else {
			insert(t, e, 0, &Elem{Name: "", Text: pick(t.R, []string{"stray", "42", "&amp;"})})
		}
		return true
	}},
	{"no signon", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		switch t.R.IntN(5) {
		case 0:
			root.Kids = root.Kids[1:]
		case 1: // signon later
			if len(root.Kids) < 2 {
				return false
			}
			root.Kids[0], root.Kids[1] = root.Kids[1], root.Kids[0]
		case 2:
			root.Kids[0].Name = pick(t.R, []string{"SIGNONMSGSRQV1", "SIGNONMSGSRSV2", "SIGNONMSGSET", "signonmsgsrsv1"})
		case 3:
			root.Kids[0].Kids = nil
		case 4:
			root.Kids[0].Kids[0].Name = pick(t.R, []string{"SONRQ", "SONRSX", "STATUS", "STMTTRNRS"})
		}
		return true
	}},
	{"other root", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		root.Name = pick(t.R, []string{"OFC", "QFX", "ofx", "OFX1", "html", "SIGNONMSGSRSV1", "OFXRS"})
		return true
	}},
	{"two signons", func(t *T, d *Doc, root *Elem, sgml bool) bool {
		root.Kids[0].Kids = append(root.Kids[0].Kids, root.Kids[0].Kids[0])
		return true
	}},
}

func leafKids(t *T) []*Elem {
	switch t.R.IntN(3) {
	case 0:
		return nil
	case 1:
		return []*Elem{{Name: "TRNUID", Text: "1", Leaf: &Leaf{}}}
	}
	return []*Elem{{Name: "FITID", Text: "x", Leaf: &Leaf{}}, {Name: "STATUS", Agg: true, Kids: []*Elem{{Name: "CODE", Text: "0", Leaf: &Leaf{}}}}}
}

func insert(t *T, e *Elem, from int, x *Elem) {
	i := from
	if n := len(e.Kids) - from; n > 0 {
		i += t.R.IntN(n + 1)
	}
	e.Kids = append(e.Kids[:i:i], append([]*Elem{x}, e.Kids[i:]...)...)
}

func (e *Elem) find(f func(*Elem) bool, out *[]*Elem) {
	if f(e) {
		*out = append(*out, e)
	}
	for _, k := range e.Kids {
		k.find(f, out)
	}
}

func init() {
	register(&Check{ID: "C07", Min: 500,
		Rule: "random well-formed documents with one deviation: one value malformed for its type, or an unknown (or misplaced) message set, transaction or list member, stray text, a missing signon, another root, or (XML) a document which isn't well-formed; must be rejected; non-trivial: a distinct (element, malformed text) or structural deviation",
		Run: func(c *C) {
			c.Cases("values", c.N(9000, 300000), func(t *T) {
				g := newG(t.R)
				g.budget = 25
				g.MaxList = 2
				d := g.response()
				tree := d.tree("RS", false)
				var paths []string
				var all []*Elem
				var rec func(e *Elem, p string)
				rec = func(e *Elem, p string) {
					p += ">" + e.Name
					if !e.Agg {
						if e.Leaf.Kind != "string" && e.Leaf.Kind != "uid" {
							all = append(all, e)
							paths = append(paths, p)
						}
						return
					}
					for _, k := range e.Kids {
						rec(k, p)
					}
				}
				rec(tree, "")
				i := t.R.IntN(len(all))
				bad := malformed(t.R, all[i].Leaf)
				all[i].Text = bad
				s := canonical(t.R)
				s.Close = pick(t.R, []float64{0, 1})
				text := s.doc(d.Version, tree)
				t.File("document.ofx", text)
				r, err := decode(text)
				if err == nil || r != nil {
					t.Violate("accepted: "+all[i].Leaf.Kind+" "+bad, "%q was accepted as the %s %s of %s\n%s", bad, all[i].Leaf.Kind, all[i].Leaf.Enum, paths[i], clip(text, 2500))
					return
				}
				t.Count("rejected "+all[i].Leaf.Kind, 1)
				t.Distinct("case", paths[i], bad)
				t.Distinct("elements", paths[i])
				t.Sample("%q as %s: %v", bad, paths[i], err)
			})
			c.Cases("structure", c.N(6000, 200000), func(t *T) {
				g := newG(t.R)
				g.budget = 20
				g.MaxList = 2
				k := structural[t.R.IntN(len(structural))]
				d := g.response()
				if k.what == "unknown list member" {
					d.Sets = nil
					s, ty := "InvStmt", "InvStatementResponse"
					if t.R.IntN(4) == 0 {
						s, ty = "SecList", "SecurityList"
					} else {
						g.Opt = .9
					}
					d.Sets = append(d.Sets, &DocSet{Set: respSet(s), Msgs: []*Agg{g.agg(structs[ty], structs[ty].XML)}})
				}
				tree := d.tree("RS", false)
				sgml := isSGML(d.Version)
				if !k.f(t, d, tree, sgml) {
					t.Count("not applicable", 1)
					return
				}
				s := canonical(t.R)
				s.Close = pick(t.R, []float64{0, 1})
				s.WS = t.R.IntN(3)
				text := strings.ReplaceAll(strings.ReplaceAll(s.doc(d.Version, tree), "<>", ""), "</>", "")
				t.File("document.ofx", text)
				r, err := decode(text)
				if err == nil || r != nil {
					t.Violate("accepted: "+k.what, "a document with %s was accepted\n%s", k.what, clip(text, 2500))
					return
				}
				t.Count("rejected: "+k.what, 1)
				t.Distinct("case", k.what, text)
			})
			c.Cases("wellformed", c.N(4000, 100000), func(t *T) {
				// XML documents have to be well-formed
				g := newG(t.R)
				g.budget = 10
				g.MaxList = 2
				g.Plain = true
				d := g.response()
				for isSGML(d.Version) {
					d.Version = pick(t.R, enums["ofxVersion"].Values)
				}
				s := canonical(t.R)
				text := s.doc(d.Version, d.tree("RS", false))
				h := strings.Index(text, "<OFX>")
				head, body := text[:h], text[h:]
				var ends [][2]int
				for i := 0; i < len(body); i++ {
					if strings.HasPrefix(body[i:], "</") {
						ends = append(ends, [2]int{i, i + strings.IndexByte(body[i:], '>') + 1})
					}
				}
				e := pick(t.R, ends)
				what := ""
				switch t.R.IntN(4) {
				case 0:
					what = "missing end tag"
					body = body[:e[0]] + body[e[1]:]
				case 1:
					what = "wrong end tag"
					body = body[:e[0]] + "</" + pick(t.R, []string{"X", "OFX2", strings.ToLower(body[e[0]+2 : e[1]-1]), body[e[0]+2:e[1]-1] + "X"}) + ">" + body[e[1]:]
				case 2:
					what = "bare ampersand"
					body = body[:e[0]] + pick(t.R, []string{"&", "& x", "&foo;", "&;", "&#xZZ;"}) + body[e[0]:]
				case 3:
					what = "repeated end tag"
					if e[1] == len(strings.TrimSpace(body)) {
						return
					}
					body = body[:e[1]] + body[e[0]:]
				}
				t.File("document.ofx", head+body)
				r, err := decode(head + body)
				if err == nil || r != nil {
					t.Violate("accepted: "+what, "an XML document with a %s (%q) was accepted\n%s", what, text[h+e[0]:h+e[1]], clip(head+body, 2500))
					return
				}
				t.Count("rejected: "+what, 1)
				t.Distinct("case", what, body)
			})
		}})
}

var _ = fmt.Sprint
