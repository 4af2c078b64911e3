package main

import (
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
)

// C06: only documents whose header declares a supported OFX document are
// accepted, and they are reported with the version they declare.

type hfield struct{ k, v string }

func sgmlFields(r *rand.Rand, version string) []hfield {
	return []hfield{{"OFXHEADER", "100"}, {"DATA", "OFXSGML"}, {"VERSION", version}, {"SECURITY", pick(r, []string{"NONE", "TYPE1"})},
		{"ENCODING", strings.ToUpper(strings.ReplaceAll(dictOr(r, "USASCII", "UTF-8", "UNICODE"), "_", ""))}, {"CHARSET", dictOr(r, "1252", "NONE")}, {"COMPRESSION", "NONE"},
		{"OLDFILEUID", dictOr(r, "NONE", "2f4a6d0e-1b2c")}, {"NEWFILEUID", dictOr(r, "NONE", "x_1", "20200101")}}
}

func writeSGMLHeader(r *rand.Rand, fs []hfield) string {
	nl := pick(r, []string{"\n", "\r\n", "\r\n", "\r", " "})
	sp := pick(r, []string{"", "", " "})
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(f.k)
		if f.k != "" || f.v != "" {
			b.WriteString(":" + sp)
		}
		b.WriteString(f.v + nl)
	}
	return b.String() + pick(r, []string{"", nl})
}

func badVersions(r *rand.Rand, sgml bool) string {
	bad := []string{"0", "1", "100", "101", "104", "150", "152", "159", "161", "170", "199", "204", "209", "212", "219", "221", "230", "300", "999", "1020", "0102", "2030", "10", "-102", "1.02", "1.0.2", "1.6", "2.0.3", "2.2.0", "2.2", "v203", "V103", "203.0", "4294967398", "184467440737095516", "18446744073709551718"}
	var good []string
	for _, v := range enums["ofxVersion"].Values {
		if isSGML(v) != sgml {
			bad = append(bad, v, v)
		} else {
			good = append(good, v, v[:1]+"."+v[1:2]+"."+v[2:])
		}
	}
	if r.IntN(2) == 0 {
		if s := near(r, good...); s != "" && !slices.Contains(enums["ofxVersion"].Values, s) {
			return s
		}
	}
	if n, ok := dictInt(r, .1, 0, 1<<40); ok && (!slices.Contains(enums["ofxVersion"].Values, fmt.Sprint(n)) || isSGML(fmt.Sprint(n)) != sgml) {
		return fmt.Sprint(n)
	}
	return pick(r, bad)
}

// badValue is a value which isn't among the good ones.
func badValue(r *rand.Rand, bad []string, good ...string) string {
	if s, ok := dictPlain(r, .1, "-_"); ok && len(s) < 60 && !slices.Contains(good, s) {
		return s
	}
	if r.IntN(2) == 0 {
		if s := near(r, good...); s != "" {
			return s
		}
	}
	return pick(r, bad)
}

// near is a good value with something changed, such that it isn't one any
// more, nor one with quotes or white space around it.
func near(r *rand.Rand, good ...string) string {
	for try := 0; try < 20; try++ {
		s := garble(r, pick(r, good))
		if v := strings.Trim(s, " \t\r\n\u0085\u00a0\u2003\u2009'\"<>?&"); v == s && !strings.ContainsAny(s, "\"<>&?") && s != "" && !slices.Contains(good, s) && strings.TrimSpace(s) == s {
			return s
		}
	}
	return ""
}

func dictOr(r *rand.Rand, xs ...string) string {
	if s, ok := dictPlain(r, .1, "-_"); ok && len(s) < 60 && strings.Trim(s, "-_") != "" {
		return s
	}
	return pick(r, xs)
}

var badSGML = []struct {
	what string
	f    func(r *rand.Rand, fs []hfield) []hfield
}{
	{"OFXHEADER", func(r *rand.Rand, fs []hfield) []hfield {
		fs[0].v = badValue(r, []string{"200", "101", "99", "1000", "0", "010", "10", "1", "102"}, "100")
		return fs
	}},
	{"DATA", func(r *rand.Rand, fs []hfield) []hfield {
		fs[1].v = badValue(r, []string{"OFXXML", "SGML", "OFX", "XML", "OFXSGM", "OFXSGMLX", "ofxsgml"}, "OFXSGML")
		return fs
	}},
	{"VERSION", func(r *rand.Rand, fs []hfield) []hfield { fs[2].v = badVersions(r, true); return fs }},
	{"SECURITY", func(r *rand.Rand, fs []hfield) []hfield {
		fs[3].v = badValue(r, []string{"TYPE2", "none", "SSL", "TYPE", "TYPE11", "NON", "NONE1", "Y", "0", "1"}, "NONE", "TYPE1")
		return fs
	}},
	{"COMPRESSION", func(r *rand.Rand, fs []hfield) []hfield {
		fs[6].v = badValue(r, []string{"GZIP", "ZLIB", "NON", "NONEX", "none", "Y"}, "NONE")
		return fs
	}},
	{"missing field", func(r *rand.Rand, fs []hfield) []hfield {
		i := r.IntN(len(fs))
		return append(fs[:i:i], fs[i+1:]...)
	}},
	{"empty field", func(r *rand.Rand, fs []hfield) []hfield { fs[r.IntN(len(fs))].v = ""; return fs }},
	{"misordered fields", func(r *rand.Rand, fs []hfield) []hfield {
		i := r.IntN(len(fs) - 1)
		fs[i], fs[i+1] = fs[i+1], fs[i]
		return fs
	}},
	{"repeated field", func(r *rand.Rand, fs []hfield) []hfield {
		i := r.IntN(len(fs))
		return append(fs[:i+1:i+1], fs[i:]...)
	}},
	{"misspelt field", func(r *rand.Rand, fs []hfield) []hfield {
		i := 1 + r.IntN(len(fs)-1)
		fs[i].k = pick(r, []string{fs[i].k + "X", "X" + fs[i].k, strings.ToLower(fs[i].k), fs[i].k[1:], "FOO", dictOr(r, "FOO") + "Q"})
		return fs
	}},
	{"unknown field", func(r *rand.Rand, fs []hfield) []hfield {
		i := 1 + r.IntN(len(fs))
		return append(fs[:i:i], append([]hfield{{dictOr(r, "FOO") + "Q", "BAR"}}, fs[i:]...)...)
	}},
}

var badXML = []struct {
	what string
	f    func(r *rand.Rand, version string) string
}{
	{"OFXHEADER", func(r *rand.Rand, v string) string {
		return xmlHeader(r, badValue(r, []string{"100", "201", "20", "2000", "", "0"}, "200"), v, "NONE")
	}},
	{"no OFXHEADER", func(r *rand.Rand, v string) string { return xmlDecl(r) + `<?OFX VERSION="` + v + `" SECURITY="NONE"?>` }},
	{"VERSION", func(r *rand.Rand, v string) string { return xmlHeader(r, "200", badVersions(r, false), "NONE") }},
	{"empty VERSION", func(r *rand.Rand, v string) string { return xmlHeader(r, "200", "", "NONE") }},
	{"no VERSION", func(r *rand.Rand, v string) string {
		return xmlDecl(r) + `<?OFX OFXHEADER="200" SECURITY="NONE" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`
	}},
	{"SECURITY", func(r *rand.Rand, v string) string {
		return xmlHeader(r, "200", v, badValue(r, []string{"TYPE1", "none", "", "TYPE2", "NONE ", "NONE1"}, "NONE"))
	}},
	{"unknown attribute", func(r *rand.Rand, v string) string {
		return strings.Replace(xmlHeader(r, "200", v, "NONE"), "OLDFILEUID", pick(r, []string{"FOO", "COMPRESSION", "oldfileuid", "DATA"}), 1)
	}},
	{"two VERSIONs, one wrong", func(r *rand.Rand, v string) string {
		a, b := v, badVersions(r, false)
		if r.IntN(2) == 0 {
			a, b = b, a
		}
		return xmlHeader(r, "200", a+`" VERSION="`+b, "NONE")
	}},
	{"two OFXHEADERs, one wrong", func(r *rand.Rand, v string) string {
		a, b := "200", badValue(r, []string{"100", "300", "2", ""}, "200")
		if r.IntN(2) == 0 {
			a, b = b, a
		}
		return xmlHeader(r, a+`" OFXHEADER="`+b, v, "NONE")
	}},
	{"two SECURITYs, one wrong", func(r *rand.Rand, v string) string {
		a, b := "NONE", badValue(r, []string{"TYPE1", "TYPE2", "none"}, "NONE")
		if r.IntN(2) == 0 {
			a, b = b, a
		}
		return xmlHeader(r, "200", v, a+`" SECURITY="`+b)
	}},
	{"no OFX instruction", func(r *rand.Rand, v string) string { return xmlDecl(r) }},
	{"no xml declaration", func(r *rand.Rand, v string) string {
		return strings.TrimPrefix(xmlHeader(r, "200", v, "NONE"), `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`)
	}},
	{"other instruction", func(r *rand.Rand, v string) string {
		return strings.Replace(xmlHeader(r, "200", v, "NONE"), "<?OFX ", pick(r, []string{"<?ofx ", "<?OFX2 ", "<?QIF "}), 1)
	}},
	{"malformed attributes", func(r *rand.Rand, v string) string {
		h := xmlHeader(r, "200", v, "NONE")
		switch r.IntN(4) {
		case 0:
			return strings.Replace(h, `SECURITY="NONE"`, `SECURITY=NONE`, 1)
		case 1:
			return strings.Replace(h, `SECURITY="NONE"`, `SECURITY="NONE`, 1)
		case 2:
			return strings.Replace(h, `SECURITY="NONE"`, `SECURITY`, 1)
		}
		return strings.Replace(h, `NEWFILEUID="NONE"`, `NEWFILEUID="NONE" x`, 1)
	}},
	{"SGML header", func(r *rand.Rand, v string) string { return writeSGMLHeader(r, sgmlFields(r, v)) }},
	{"empty header", func(r *rand.Rand, v string) string { return "" }},
}

func xmlDecl(r *rand.Rand) string {
	return `<?xml version="1.0" encoding="UTF-8" standalone="no"?>`
}

func xmlHeader(r *rand.Rand, h, v, sec string) string {
	return xmlDecl(r) + pick(r, []string{"", "\n", "\r\n"}) + fmt.Sprintf(`<?OFX OFXHEADER="%s" VERSION="%s" SECURITY="%s" OLDFILEUID="NONE" NEWFILEUID="NONE"?>`, h, v, sec) + pick(r, []string{"", "\n"})
}

func init() {
	register(&Check{ID: "C06", Quick: 10, Min: 300,
		Rule: "random documents under valid headers of every version in every style (must be accepted and report the version), and under headers with one deviation (must be rejected); non-trivial: a distinct header with a deviation, or distinct valid header",
		Run: func(c *C) {
			body := func(t *T, v string) string {
				g := newG(t.R)
				g.Opt, g.budget = 0, 0
				d := g.response()
				s := canonical(t.R)
				var b strings.Builder
				s.write(&b, d.tree("RS", false), 0, isSGML(v), false)
				return b.String()
			}
			versions := enums["ofxVersion"].Values
			c.Cases("valid", c.N(6000, 100000), func(t *T) {
				v := versions[t.Idx%len(versions)]
				var h string
				if s := randomSpell(t.R); t.R.IntN(2) == 0 {
					h = s.header(v)
				} else if isSGML(v) {
					h = writeSGMLHeader(t.R, sgmlFields(t.R, v))
				} else {
					h = xmlHeader(t.R, "200", v, "NONE")
				}
				text := h + body(t, v)
				t.File("document.ofx", text)
				r, err := decode(text)
				if err != nil {
					t.Violate("valid header rejected", "a document with a valid header was rejected: %v\n%q", err, h)
					return
				}
				if r.Version.String() != v || !r.Version.Valid() {
					t.Violate("version", "a document of version %s is reported as %s\n%q", v, r.Version, h)
					return
				}
				t.Count("accepted", 1)
				t.Distinct("case", h)
			})
			c.Cases("sgml", c.N(6000, 100000), func(t *T) {
				v := pick(t.R, versions)
				for !isSGML(v) {
					v = pick(t.R, versions)
				}
				k := badSGML[t.Idx%len(badSGML)]
				h := writeSGMLHeader(t.R, k.f(t.R, sgmlFields(t.R, v)))
				c06bad(t, "SGML "+k.what, h, body(t, v))
			})
			c.Cases("xml", c.N(6000, 100000), func(t *T) {
				v := pick(t.R, versions)
				for isSGML(v) {
					v = pick(t.R, versions)
				}
				k := badXML[t.Idx%len(badXML)]
				c06bad(t, "XML "+k.what, k.f(t.R, v), body(t, v))
			})
		}})
}

func c06bad(t *T, what, h, body string) {
	text := h + body
	t.File("document.ofx", text)
	r, err := decode(text)
	if err == nil {
		t.Violate("accepted: "+what, "a document whose header is wrong (%s) was accepted as version %s\n%q", what, r.Version, h)
		return
	}
	t.Count("rejected: "+what, 1)
	t.Distinct("case", h)
	t.Sample("%s: %q: %v", what, h, err)
}
