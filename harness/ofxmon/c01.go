package main

import (
	"fmt"
	"strings"

	"github.com/aclindsa/ofxgo"
)

// helper runs other commands of this program.
func helper(args []string) bool {
	if args[0] == "c23cold" && len(args) == 2 {
		coldMain(args[1])
		return true
	}
	if args[0] == "enums" {
		enumsMain()
		return true
	}
	if args[0] == "literals" {
		literalsMain()
		return true
	}
	if args[0] == "c17cold" && len(args) == 2 {
		c17cold(args[1])
		return true
	}
	return false
}

func decode(s string) (*ofxgo.Response, error) { return ofxgo.DecodeResponse(strings.NewReader(s)) }

// shape is the set of element paths of a document, with types of list members.
func shape(e *Elem, b *strings.Builder) {
	b.WriteString(e.Name)
	if len(e.Kids) > 0 {
		b.WriteByte('(')
		for _, k := range e.Kids {
			shape(k, b)
		}
		b.WriteByte(')')
	}
	b.WriteByte(',')
}

func (t *T) observeTree(e *Elem, path string) {
	var walk func(e *Elem, path string)
	n := map[string]bool{}
	leaves := int64(0)
	walk = func(e *Elem, path string) {
		p := path + ">" + e.Name
		if !e.Agg {
			leaves++
			n[p] = true
			return
		}
		for _, k := range e.Kids {
			walk(k, p)
		}
	}
	walk(e, path)
	t.Count("elements compared", leaves)
	for p := range n {
		t.Distinct("element paths", p)
	}
}

func init() {
	register(&Check{ID: "C01", Min: 500,
		Rule: "random response documents over every message, list member and optional element of the frozen element table, parsed and compared field by field with the values they were written from; non-trivial: a distinct element structure with at least one message",
		Run: func(c *C) {
			c.Cases("random", c.N(6000, 150000), func(t *T) {
				g := newG(t.R)
				g.Frac = true
				if t.R.IntN(4) == 0 {
					g.Missing = .1
				}
				c01(t, g, g.response())
			})
			c.Cases("long", c.N(400, 8000), func(t *T) {
				g := longG(t.R)
				c01(t, g, g.response())
			})
			c.Cases("lists", c.N(5, 100)*len(longPaths), func(t *T) {
				g := newG(t.R)
				lp := longPaths[t.Idx%len(longPaths)]
				n := t.listSize()
				c01(t, g, g.longList(lp, n))
				t.Distinct("lists, size", lp.target, fmt.Sprint(n/16*16))
			})
		}})
}

// listSize is the length of a long list: often around the powers of two at
// which implementations tend to switch.
func (t *T) listSize() int {
	if t.R.IntN(3) == 0 {
		return 1<<(3+t.R.IntN(8)) + t.R.IntN(4) - 1
	}
	n := 1 << (4 + t.R.IntN(6))
	return n + t.R.IntN(n)
}

func c01(t *T, g *G, d *Doc) {
	tree := d.tree("RS", false)
	sp := canonical(t.R)
	if !isSGML(d.Version) && t.R.IntN(2) == 0 {
		sp.WS = 0
	}
	if t.R.IntN(2) == 0 {
		sp.Close = 0
	}
	text := sp.doc(d.Version, tree)
	t.File("document.ofx", text)
	r, err := decode(text)
	if err != nil {
		t.Violate("decode error", "a well-formed document was rejected: %v\n%s", err, clip(text, 3000))
		return
	}
	if err := compareResponse(r, d); err != nil {
		t.Violate("value: "+strings.SplitN(err.Error(), ":", 2)[0], "%v\n%s", err, clip(text, 3000))
		return
	}
	t.observeTree(tree, "")
	t.Count("documents", 1)
	if len(d.Sets) > 0 {
		var b strings.Builder
		shape(tree, &b)
		t.Distinct("case", b.String())
		if len(text) < 1400 {
			t.Sample("%s", text)
		}
	}
}
