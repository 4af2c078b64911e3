package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
)

// C02: every way to write a document down decodes to the same response.

func init() {
	register(&Check{ID: "C02", Min: 500,
		Rule: "random response documents, each written in several random spellings (SGML with open and closed leaves, XML, header variants, line ends, indentation, references, CDATA, padding, attributes, unknown elements, bare ampersands), each decoded and compared with the document's values and with the other spellings' responses; non-trivial: a distinct document text in a non-canonical spelling",
		Run: func(c *C) {
			c.Cases("spellings", c.N(1800, 60000), func(t *T) {
				g := newG(t.R)
				if t.R.IntN(3) != 0 {
					g.Missing = .05
				}
				g.budget = 60
				d := g.response()
				versions := []string{d.Version}
				// the same content as SGML and as XML
				for _, v := range enums["ofxVersion"].Values {
					if isSGML(v) != isSGML(d.Version) && t.R.IntN(4) == 0 {
						versions = append(versions, v)
						break
					}
				}
				for _, v := range versions {
					d.Version = v
					tree := d.tree("RS", false)
					for k := 0; k < 3; k++ {
						s := randomSpell(t.R)
						text := s.doc(v, tree)
						t.File("document.ofx", text)
						t.File("spelling", fmt.Sprintf("%+v", *s))
						r, err := decode(text)
						if err != nil {
							t.Violate("rejected spelling", "an equivalent spelling of a document was rejected: %v\n%+v\n%s", err, *s, clip(text, 3000))
							return
						}
						if err := compareResponse(r, d); err != nil {
							t.Violate("value: "+strings.SplitN(err.Error(), ":", 2)[0], "spelling changed what is decoded: %v\n%+v\n%s", err, *s, clip(text, 3000))
							return
						}
						t.observeTree(tree, "")
						t.observeSpelling(s, v)
						t.Count("documents", 1)
						t.Distinct("case", text)
					}
				}
				t.Sample("%s", t.files["document.ofx"])
			})
		}})
}

func (t *T) observeSpelling(s *Spell, v string) {
	form := "XML"
	if isSGML(v) {
		form = "SGML"
	}
	for _, k := range []struct {
		name string
		on   bool
	}{{"open leaves", s.Close < 1 && form == "SGML"}, {"CRLF", s.NL == "\r\n"}, {"no white space", s.WS == 0}, {"references", s.Entities > 0}, {"CDATA", s.CData > 0},
		{"padding", s.Pad > 0}, {"unknown elements", s.Vendor > 0}, {"attributes", s.Attrs > 0}, {"self-closing", s.SelfClose > 0}, {"bare ampersands", s.Lenient && form == "SGML"}, {"header variants", s.Header != 0}} {
		if k.on {
			t.Count(form+" with "+k.name, 1)
		}
	}
}

// chunky hands out data in small pieces.
type chunky struct {
	b   []byte
	n   func() int
	err error
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	n := c.n()
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

var (
	_ = bufio.NewReader
	_ = bytes.NewReader
	_ = reflect.DeepEqual
	_ ofxgo.Message
)
