package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/aclindsa/ofxgo"
)

// C08: validation reports exactly the invalid documents, and parsing still
// returns what they say.

func init() {
	register(&Check{ID: "C08", Min: 500,
		Rule: "random valid responses with zero or more validity rules broken at random places (missing or overlong elements, forbidden combinations, version-dependent elements, wrong status severities, zero dates), and unconstrained random ones; parsed, validated as a whole and per message, and marshalled, against an independent predicate over the document's values; non-trivial: a distinct (message type, broken rule, version) combination",
		Run: func(c *C) {
			c.Cases("broken", c.N(1500, 100000), func(t *T) {
				g := newG(t.R)
				g.MaxList = 4
				g.budget = 40
				d := g.validResponse()
				d.Version = pick(t.R, enums["ofxVersion"].Values)
				if len(d.Sets) == 0 || t.R.IntN(3) == 0 {
					// statements have most of the rules
					st := structs["StatementResponse"]
					m := g.agg(st, st.XML)
					g.repair(m, d.Version)
					d.Sets = append(d.Sets, &DocSet{Set: respSet("Bank"), Msgs: []*Agg{m}})
					d.mergeSets()
				}
				for _, a := range d.all() {
					g.repair(a, d.Version)
				}
				var did []string
				for k := pick(t.R, []int{0, 1, 1, 1, 2, 4}); k > 0; k-- {
					a := pick(t.R, d.all())
					if what := g.breakOne(a, d.Version); what != "" {
						did = append(did, what)
						if t.R.IntN(3) == 0 {
							did = append(did, g.coincide([]*Agg{a}))
						}
					}
				}
				for k := t.R.IntN(6) - 3; k > 0; k-- {
					did = append(did, g.coincide(d.all()))
				}
				c08(t, d, did)
			})
			c.Cases("statement", c.N(7000, 300000), func(t *T) {
				// small statements, and the rules of their innermost parts
				g := newG(t.R)
				g.Marshal = true
				g.Opt = t.R.Float64() * .6
				if t.R.IntN(3) == 0 {
					g.Twins = .6
				}
				d := &Doc{Version: pick(t.R, []string{"102", "103", "160", "200", "203", "210", "211", "220", "220", "220"})}
				d.Signon = g.agg(structs["SignonResponse"], "SONRS")
				st := structs["StatementResponse"]
				for k := 1 + t.R.IntN(2); k > 0; k-- {
					m := g.agg(st, st.XML)
					for _, f := range []string{"BankTranList", "BankTranListP"} {
						if !m.has(f) && t.R.IntN(4) != 0 {
							m.F[f] = g.item(st.field(f))
						}
						if m.has(f) {
							l := m.sub(f)
							n := &Node{}
							x := l.S.field("Transactions")
							for i := 1 + t.R.IntN(3); i > 0; i-- {
								n.List = append(n.List, g.item(x))
							}
							l.F["Transactions"] = n
						}
					}
					normalize(m)
					d.Sets = append(d.Sets, &DocSet{Set: respSet("Bank"), Msgs: []*Agg{m}})
				}
				d.mergeSets()
				for _, a := range d.all() {
					g.repair(a, d.Version)
				}
				ruled := map[string][]*Agg{}
				for _, a := range d.all() {
					a.walk(func(x *Agg) {
						switch x.S.Name {
						case "SignonResponse", "Status", "StatementResponse", "TransactionList", "PendingTransactionList", "Transaction", "PendingTransaction", "Payee", "BankAcct", "CCAcct", "Balance":
							ruled[x.S.Name] = append(ruled[x.S.Name], x)
						}
					})
				}
				names := sortedKeys(ruled)
				if len(ruled["Transaction"]) > 0 {
					names = append(names, "Transaction", "Transaction", "Transaction", "Transaction")
				}
				if len(ruled["Balance"]) > 1 {
					names = append(names, "Balance", "Balance", "Balance")
				}
				if len(ruled["PendingTransaction"]) > 0 {
					names = append(names, "PendingTransaction", "PendingTransaction")
				}
				var did []string
				for k := pick(t.R, []int{0, 1, 1, 1, 1, 1, 1, 2}); k > 0; k-- {
					a := pick(t.R, ruled[pick(t.R, names)])
					if what := g.breakOne(a, d.Version); what != "" {
						did = append(did, what)
						if t.R.IntN(3) == 0 {
							did = append(did, g.coincide([]*Agg{a}))
						}
					}
				}
				for k := t.R.IntN(6) - 2; k > 0; k-- {
					did = append(did, g.coincide(ruled[pick(t.R, names)]))
				}
				c08(t, d, did)
			})
			c.Cases("long", c.N(200, 6000), c08long)
			c.Cases("lists", c.N(6, 160)*len(longPaths), c08lists)
			c.Cases("random", c.N(800, 50000), func(t *T) {
				g := newG(t.R)
				g.Missing = .05
				g.budget = 40
				d := g.response()
				d.sortSets(respSets)
				d.mergeSets()
				c08(t, d, nil)
			})
		}})
}

// c08long breaks a rule somewhere in a long list.
func c08long(t *T) {
	g := newG(t.R)
	g.Marshal = true
	g.Opt, g.budget = t.R.Float64()*.3, 20
	d := &Doc{Version: pick(t.R, []string{"102", "160", "200", "211", "220", "220"})}
	d.Signon = g.agg(structs["SignonResponse"], "SONRS")
	st := structs["StatementResponse"]
	n := 1 << (3 + t.R.IntN(8))
	n += t.R.IntN(n)
	var spots []*Agg // where a rule may be broken
	ds := &DocSet{Set: respSet("Bank")}
	list := func(p *Agg, f string) {
		l := &Node{}
		x := p.S.field(f)
		for i := 0; i < n; i++ {
			it := g.item(x)
			l.List = append(l.List, it)
			spots = append(spots, it.Agg)
		}
		p.F[f] = l
	}
	m := g.agg(st, st.XML)
	ds.Msgs = append(ds.Msgs, m)
	switch t.R.IntN(4) {
	case 0:
		list(m, "BalList")
	case 1:
		for i := 0; i < n; i++ {
			ds.Msgs = append(ds.Msgs, g.agg(st, st.XML))
		}
		spots = ds.Msgs
	case 2:
		if d.Version == "220" {
			m.F["BankTranListP"] = g.item(st.field("BankTranListP"))
			list(m.sub("BankTranListP"), "Transactions")
			break
		}
		fallthrough
	default:
		m.F["BankTranList"] = g.item(st.field("BankTranList"))
		list(m.sub("BankTranList"), "Transactions")
	}
	d.Sets = append(d.Sets, ds)
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
	}
	var did []string
	for k := pick(t.R, []int{0, 1, 1, 1, 2}); k > 0; k-- {
		i := t.R.IntN(len(spots))
		if t.R.IntN(4) == 0 {
			i = len(spots) - 1
		}
		if what := g.breakOne(spots[i], d.Version); what != "" {
			did = append(did, fmt.Sprintf("%s (%d of %d)", what, i, n))
		}
	}
	c08(t, d, did)
}

// c08lists does so in every list of every message.
func c08lists(t *T) {
	g := newG(t.R)
	g.Marshal = true
	lp := longPaths[t.Idx%len(longPaths)]
	d := g.longList(lp, t.listSize())
	d.Version = pick(t.R, []string{"103", "151", "203", "220", "220"})
	var spots []*Agg
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
		a.walk(func(a *Agg) {
			for f, n := range a.F {
				if a.S.Name+"."+f == lp.target {
					for _, x := range n.List {
						if x.Agg != nil {
							spots = append(spots, x.Agg)
						}
					}
				}
			}
		})
	}
	var did []string
	if len(spots) == 0 {
		spots = d.all()
	}
	for k := pick(t.R, []int{0, 1, 1, 1, 2}); k > 0; k-- {
		i := t.R.IntN(len(spots))
		if t.R.IntN(4) == 0 {
			i = len(spots) - 1
		}
		if what := g.breakOne(spots[i], d.Version); what != "" {
			did = append(did, fmt.Sprintf("%s (%d of %d of %s)", what, i, len(spots), lp.target))
			t.Distinct("rule broken within list", lp.target, what)
		}
	}
	c08(t, d, did)
}

func respSet(field string) *SetDef {
	for _, s := range respSets {
		if s.Field == field {
			return s
		}
	}
	panic(field)
}

func reqSet(field string) *SetDef {
	for _, s := range reqSets {
		if s.Field == field {
			return s
		}
	}
	panic(field)
}

// walk visits an aggregate and those inside it.
func (a *Agg) walk(f func(*Agg)) {
	f(a)
	for _, fd := range a.S.Fields {
		n := a.F[fd.Go]
		if n == nil {
			continue
		}
		if n.Agg != nil {
			n.Agg.walk(f)
		}
		for _, k := range n.List {
			if k.Agg != nil {
				k.Agg.walk(f)
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// mergeSets leaves at most one of each message set.
func (d *Doc) mergeSets() {
	var out []*DocSet
	for _, s := range d.Sets {
		found := false
		for _, o := range out {
			if o.Set == s.Set {
				o.Msgs = append(o.Msgs, s.Msgs...)
				found = true
			}
		}
		if !found {
			out = append(out, s)
		}
	}
	d.Sets = out
}

// all is the signon and every message.
func (d *Doc) all() []*Agg {
	out := []*Agg{d.Signon}
	for _, s := range d.Sets {
		out = append(out, s.Msgs...)
	}
	return out
}

func c08(t *T, d *Doc, did []string) {
	s := canonical(t.R)
	s.Close = 0
	text := s.doc(d.Version, d.tree("RS", false))
	t.File("document.ofx", text)
	t.File("broken", strings.Join(did, "\n"))
	resp, err := decode(text)
	if err != nil {
		t.Violate("decode error", "DecodeResponse rejected a well-formed document: %v\nbroken: %v\n%s", err, did, clip(text, 2500))
		return
	}
	type msg struct {
		what, why string
		ok        bool
		err       error
	}
	var msgs []msg
	ok, err := resp.Signon.Valid(resp.Version)
	msgs = append(msgs, msg{"Signon", invalid(d.Signon, d.Version), ok, err})
	rv := reflect.ValueOf(resp).Elem()
	for _, rs := range respSets {
		n := 0
		for _, ds := range d.Sets {
			if ds.Set != rs {
				continue
			}
			for _, m := range ds.Msgs {
				gm := rv.FieldByName(rs.Field).Index(n).Interface().(ofxgo.Message)
				ok, err := gm.Valid(resp.Version)
				msgs = append(msgs, msg{fmt.Sprintf("%s[%d] (%s)", rs.Field, n, m.S.Name), invalid(m, d.Version), ok, err})
				n++
			}
		}
	}
	valid := true
	for _, m := range msgs {
		if m.ok != (m.why == "") {
			t.Violate("verdict: "+m.why, "%s: Valid(%s) says %v (%v), but it is %s\nbroken: %v\n%s", m.what, d.Version, m.ok, m.err, verdict(m.why), did, clip(text, 2500))
			return
		}
		if (m.err == nil) != m.ok {
			t.Violate("verdict and error", "%s: Valid says %v with error %v", m.what, m.ok, m.err)
			return
		}
		if m.why != "" {
			valid = false
			t.Count("invalid messages", 1)
			t.Distinct("case", m.why, d.Version, strings.Split(m.what, "(")[0], strings.Join(did, ","))
			t.Distinct("rules broken", m.why)
			t.Count("invalid because of "+m.why, 1)
		} else {
			t.Count("valid messages", 1)
		}
	}
	ok, err = resp.Valid()
	check := func(what string, err error) bool {
		if (err == nil) != valid {
			t.Violate("response verdict", "%s reports %v for a response which is valid: %v\nbroken: %v\n%s", what, err, valid, did, clip(text, 2500))
			return false
		}
		if err != nil {
			all := err.Error()
			often := map[string]int{}
			for _, m := range msgs {
				if m.err != nil {
					often[m.err.Error()]++
				}
			}
			for e, n := range often {
				if k := strings.Count(all, e); k < n {
					t.Violate("error lost", "%s reports the error %q %d times, but it is that of %d messages: %q", what, e, k, n, clip(all, 2000))
					return false
				}
			}
		}
		return true
	}
	if ok != (err == nil) {
		t.Violate("verdict and error", "Response.Valid says %v with error %v", ok, err)
		return
	}
	if !check("Response.Valid", err) {
		return
	}
	resp2, err := ofxgo.ParseResponse(strings.NewReader(text))
	if !check("ParseResponse", err) {
		return
	}
	if resp2 == nil {
		t.Violate("best effort", "ParseResponse returned no response along with %v\n%s", err, clip(text, 2500))
		return
	}
	if e := compareResponse(resp2, d); e != nil {
		t.Violate("best effort", "ParseResponse's response along with %v: %v\n%s", err, e, clip(text, 2500))
		return
	}
	if b, err := resp.Marshal(); (err == nil) != valid || (b == nil) != (err != nil) {
		t.Violate("marshal verdict", "Response.Marshal returns error %v for a response which is valid: %v\nbroken: %v\n%s", err, valid, did, clip(text, 2500))
		return
	}
	if valid {
		t.Count("valid responses", 1)
	} else {
		t.Count("invalid responses", 1)
	}
	t.Sample("broken %v: %v", did, err)
}

func verdict(why string) string {
	if why == "" {
		return "valid"
	}
	return "invalid because of " + why
}
