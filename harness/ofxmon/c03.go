package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/aclindsa/ofxgo"
)

// validResponse makes a response which may be marshalled.
func (g *G) validResponse() *Doc {
	g.Marshal = true
	d := g.response()
	d.sortSets(respSets)
	normalize(d.Signon)
	g.repair(d.Signon, d.Version)
	for _, s := range d.Sets {
		for _, m := range s.Msgs {
			normalize(m)
			g.repair(m, d.Version)
		}
	}
	return d
}

// dropEmptySets removes the message sets which hold no messages: they aren't
// written.
func (d *Doc) dropEmptySets() {
	var out []*DocSet
	for _, s := range d.Sets {
		if len(s.Msgs) > 0 {
			out = append(out, s)
		}
	}
	d.Sets = out
}

func init() {
	register(&Check{ID: "C03", Min: 500,
		Rule: "random valid responses built as Go values over every message, list member and optional field, marshalled; the document is read by our own parser and matched element by element with the values, decoded and compared field by field, and marshalled again; non-trivial: a distinct marshalled document with a message",
		Run: func(c *C) {
			c.Cases("roundtrip", c.N(4000, 120000), func(t *T) {
				g := newG(t.R)
				g.MaxFrac = 25
				d := g.validResponse()
				d.dropEmptySets()
				r := d.goResponse()
				c03(t, d, r)
			})
			c.Cases("long", c.N(250, 6000), func(t *T) {
				g := longG(t.R)
				d := g.validResponse()
				d.dropEmptySets()
				c03(t, d, d.goResponse())
			})
			c.Cases("lists", c.N(4, 80)*len(longPaths), func(t *T) {
				g := newG(t.R)
				g.Marshal = true
				d := g.longList(longPaths[t.Idx%len(longPaths)], t.listSize())
				for _, a := range d.all() {
					normalize(a)
					g.repair(a, d.Version)
				}
				c03(t, d, d.goResponse())
			})
			c.Cases("reparse", c.N(1500, 40000), func(t *T) {
				// decoded responses (whose structs carry element names) which
				// are then marshalled
				g := newG(t.R)
				d := g.validResponse()
				d.dropEmptySets()
				s := randomSpell(t.R)
				text := s.doc(d.Version, d.tree("RS", false))
				t.File("document.ofx", text)
				r, err := ofxgo.ParseResponse(strings.NewReader(text))
				if err != nil {
					t.Violate("valid response rejected", "a valid response was rejected: %v\n%s", err, clip(text, 3000))
					return
				}
				c03(t, d, r)
			})
		}})
}

func c03(t *T, d *Doc, r *ofxgo.Response) {
	b, err := r.Marshal()
	if err != nil {
		t.Violate("marshal error", "a valid response was not marshalled: %v", err)
		return
	}
	text := b.String()
	t.File("marshalled.ofx", text)
	_, root, _, err := parseMarshalled(text)
	if err != nil {
		t.Violate("malformed document", "Marshal wrote a malformed document: %v\n%s", err, clip(text, 3000))
		return
	}
	tree := d.tree("RS", true)
	if err := matchTree(tree, root, ""); err != nil {
		t.Violate("document: "+strings.SplitN(err.Error(), ":", 2)[0], "Marshal wrote another document: %v\n%s", err, clip(text, 3000))
		return
	}
	r2, err := ofxgo.ParseResponse(bytes.NewReader(b.Bytes()))
	if err != nil {
		t.Violate("own document rejected", "what Marshal wrote is rejected: %v\n%s", err, clip(text, 3000))
		return
	}
	if err := compareResponse(r2, d); err != nil {
		t.Violate("value: "+strings.SplitN(err.Error(), ":", 2)[0], "the round trip changed a value: %v\n%s", err, clip(text, 3000))
		return
	}
	b2, err := r2.Marshal()
	if err != nil {
		t.Violate("marshal error", "a parsed response was not marshalled: %v", err)
		return
	}
	if b2.String() != text {
		t.Violate("unstable", "marshalling the parsed response differs from its document at %s", firstDiff(text, b2.String()))
		return
	}
	t.observeTree(d.tree("RS", false), "")
	t.Count("documents", 1)
	t.Count("bytes marshalled", int64(len(text)))
	if len(d.Sets) > 0 {
		t.Distinct("case", text)
		if len(text) < 1400 {
			t.Sample("%s", text)
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	return fmt.Sprintf("byte %d: %q / %q", i, clip(a[lo:], 120), clip(b[lo:], 120))
}
