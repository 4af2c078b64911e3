package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

func init() {
	register(&Check{ID: "C27", Min: 200,
		Rule: "statements and account lists made at random (long lists, no lists, every type of transaction, all kinds of texts) in random spellings and deliveries, served to the printing commands run as processes; what they print is parsed and compared with the document, line by line; and any valid response whatsoever for crashes; non-trivial: a distinct document printed",
		Run: func(c *C) {
			c.Cases("bank", c.N(900, 6000), func(t *T) { c27bank(t, t.R.IntN(2) == 0) })
			c.Cases("inv", c.N(900, 6000), c27inv)
			c.Cases("accounts", c.N(600, 4000), c27accounts)
			c.Cases("any", c.N(700, 6000), c27any)
		}})
}

// printable makes a text fit on a line, and identifiers which are printed
// between blanks a word.
func (a *Agg) printable(t *T) {
	a.walk(func(x *Agg) {
		if _, ok := x.S.has("CurRate"); ok && x.rat("CurRate").Sign() == 0 {
			x.F["CurRate"] = amountLeaf("1.5")
		}
		for n, nd := range x.F {
			if nd == nil || nd.Leaf == nil || nd.Leaf.Kind != "string" {
				continue
			}
			l := nd.Leaf
			switch n {
			case "UniqueID", "UniqueIDType":
				l.S = word(t.R, 1+t.R.IntN(12))
				if s, ok := dictPlain(t.R, .05, "-_."); ok && len(s) < 60 {
					l.S = s
				}
			default:
				s := strings.Join(strings.FieldsFunc(l.S, func(c rune) bool { return c == '\n' || c == '\t' || c == '\r' }), " ")
				l.S = s
			}
			l.Text = l.S
		}
	})
}

// statement makes a response document around one message.
func (g *G) statement(t *T, name string, tweak func(m *Agg)) *Doc {
	d := &Doc{Version: pick(g.R, enums["ofxVersion"].Values)}
	d.Signon = g.agg(structs["SignonResponse"], "SONRS")
	d.Signon.F["Status"] = &Node{Agg: &Agg{S: structs["Status"], Tag: "STATUS", F: map[string]*Node{"Code": intLeaf(0), "Severity": strLeaf("INFO")}}}
	m := g.agg(structs[name], structs[name].XML)
	tweak(m)
	for _, s := range respSets {
		for _, ty := range s.Types {
			if ty == name {
				d.Sets = append(d.Sets, &DocSet{Set: s, Msgs: []*Agg{m}})
				if g.R.IntN(6) == 0 && (name == "StatementResponse" || name == "CCStatementResponse") {
					// only the first statement is shown
					ds := d.Sets[len(d.Sets)-1]
					ds.Msgs = append(ds.Msgs, g.agg(structs[name], structs[name].XML))
				}
			}
		}
	}
	if g.R.IntN(3) == 0 && name == "InvStatementResponse" {
		for _, s := range respSets {
			if s.Elem == "SECLISTMSGSRSV1" {
				st := structs["SecurityList"]
				d.Sets = append(d.Sets, &DocSet{Set: s, Msgs: []*Agg{g.agg(st, st.XML)}})
			}
		}
	}
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
		a.printable(t)
		g.repair(a, d.Version)
	}
	return d
}

// printing runs a command against a server with one response.
func (t *T) printing(cmd string, d *Doc) (*ran, bool) {
	text := randomSpell(t.R).doc(d.Version, d.tree("RS", false))
	t.File("response.ofx", text)
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	r := newG(t.R).R
	s := listen(goodTLS(), func(q *rawReq) reply {
		a, _ := deliver(r, q, text, -1, false)
		return a
	})
	defer s.stop()
	o := newOptions(t, cmd, s.url("/"))
	x := t.ofx(dir, o.args(t.R)...)
	if t.crashed(x) {
		return x, false
	}
	if es, _ := os.ReadDir(dir); len(es) != 0 {
		t.Violate("files", "printing wrote files: %s", x)
		return x, false
	}
	if len(o.pass) > 8 && strings.Contains(x.out+x.err, o.pass) && !strings.Contains(text, o.pass) {
		t.Violate("password", "the password was printed: %s", x)
		return x, false
	}
	return x, true
}

func (x *ran) lines() []string {
	var out []string
	for _, l := range strings.Split(x.out, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// scan reads the words of a line, in order.
type scan struct {
	rest string
	err  error
}

func (s *scan) fail(f string, a ...interface{}) {
	if s.err == nil {
		s.err = fmt.Errorf(f, a...)
	}
}

func (s *scan) word() string {
	s.rest = strings.TrimLeft(s.rest, " \t")
	i := strings.IndexAny(s.rest, " \t")
	if i < 0 {
		i = len(s.rest)
	}
	w := s.rest[:i]
	s.rest = s.rest[i:]
	return w
}

// date reads a date, which ends with its bracket.
func (s *scan) date(l *Leaf) {
	s.rest = strings.TrimLeft(s.rest, " \t")
	i := strings.IndexByte(s.rest, ']')
	if i < 0 {
		s.fail("no date in %q", s.rest)
		return
	}
	w := s.rest[:i+1]
	s.rest = s.rest[i+1:]
	if err := l.spells(w); err != nil {
		s.fail("%v", err)
	}
}

func (s *scan) amount(r *big.Rat) {
	w := s.word()
	if a, ok := parseAmount(w); !ok || a.Cmp(r) != 0 {
		s.fail("found %q instead of the amount %s", w, r.RatString())
	}
}

func (s *scan) text(want string) {
	if w := s.word(); w != want {
		s.fail("found %q instead of %q", w, want)
	}
}

func (a *Agg) rat(f string) *big.Rat {
	if n := a.F[f]; n != nil {
		return n.Leaf.Rat
	}
	return new(big.Rat)
}

func (a *Agg) leaf(f string) *Leaf { return a.F[f].Leaf }

func (a *Agg) curr(def string) string {
	if a.has("Currency") {
		return a.sub("Currency").str("CurSym")
	}
	return def
}

// balanceLine judges the line with the balance.
func balanceLine(l string, amt *big.Rat, cur string, asof *Leaf) error {
	s := &scan{rest: l}
	s.text("Balance:")
	s.amount(amt)
	s.text(cur)
	s.text("(as")
	s.text("of")
	s.date(asof)
	s.text(")")
	if s.rest != "" {
		s.fail("trailing %q", s.rest)
	}
	return s.err
}

// tranLine judges the line of a transaction.
func tranLine(l string, tr *Agg, def string) error {
	s := &scan{rest: l}
	s.date(tr.leaf("DtPosted"))
	s.amount(tr.rat("TrnAmt"))
	s.text(tr.curr(def))
	s.text(tr.str("TrnType"))
	name := tr.str("Name")
	if name == "" {
		name = tr.sub("Payee").str("Name")
	}
	if m := tr.str("Memo"); m != "" {
		name += " - " + m
	}
	if got := strings.TrimSpace(s.rest); got != strings.TrimSpace(name) {
		s.fail("the name is %q instead of %q", got, name)
	}
	return s.err
}

// list gives a statement a list of some length.
func (g *G) fillList(list *Agg, f, item string, n int) {
	list.F[f] = &Node{}
	for i := 0; i < n; i++ {
		list.F[f].List = append(list.F[f].List, &Node{Agg: g.agg(structs[item], structs[item].XML)})
	}
	if n == 0 {
		delete(list.F, f)
	}
}

func c27bank(t *T, cc bool) {
	g := newG(t.R)
	g.MaxFrac = 6
	name, cmd := "StatementResponse", "transactions-bank"
	if cc {
		name, cmd = "CCStatementResponse", "transactions-cc"
	}
	d := g.statement(t, name, func(m *Agg) {
		if t.R.IntN(6) == 0 {
			delete(m.F, "BankTranList")
			return
		}
		list := g.agg(structs["TransactionList"], "BANKTRANLIST")
		n := t.R.IntN(12)
		if t.R.IntN(12) == 0 {
			n = 100 + t.R.IntN(200)
		}
		if k, ok := dictInt(t.R, .05, 0, 1500); ok {
			n = int(k)
		}
		g.fillList(list, "Transactions", "Transaction", n)
		for _, k := range list.kids("Transactions") {
			k.Tag = "STMTTRN"
		}
		m.F["BankTranList"] = &Node{Agg: list}
	})
	m := d.Sets[0].Msgs[0]
	trans := m.sub("BankTranList").kids("Transactions")
	x, ok := t.printing(cmd, d)
	if !ok || !t.succeeded(x, "the response is valid") {
		return
	}
	bad := func(f string, a ...interface{}) {
		t.Violate("printed", "%s: %s", fmt.Sprintf(f, a...), x)
	}
	ls := x.lines()
	if len(ls) == 0 {
		bad("nothing was printed")
		return
	}
	if err := balanceLine(ls[0], m.rat("BalAmt"), m.str("CurDef"), m.leaf("DtAsOf")); err != nil {
		bad("the balance: %v", err)
		return
	}
	if ls = ls[1:]; len(ls) == 0 || ls[0] != "Transactions:" {
		bad("no line with \"Transactions:\"")
		return
	}
	if ls = ls[1:]; len(ls) != len(trans) {
		bad("%d lines for %d transactions", len(ls), len(trans))
		return
	}
	for i, tr := range trans {
		if err := tranLine(ls[i], tr, m.str("CurDef")); err != nil {
			bad("transaction %d, %q: %v", i, ls[i], err)
			return
		}
		t.Distinct("transaction shapes", fmt.Sprint(tr.has("Currency"), tr.has("OrigCurrency"), tr.str("Name") != "", tr.has("Payee"), tr.str("Memo") != ""), tr.str("TrnType"))
	}
	t.Count("transactions compared", int64(len(trans)))
	t.Count("statements compared", 1)
	t.Distinct("case", x.out)
	if len(trans) > 0 && len(trans) < 6 {
		t.Sample("%s", x.out)
	}
}

// invWords are what the line of an investment transaction has to hold after
// its type and date, in order; other words may stand between.
func invWords(a *Agg, def string) []interface{} {
	cur := a.curr(def)
	trade := func(b *Agg) []interface{} {
		return []interface{}{b.rat("Units"), b.sub("SecID").str("UniqueIDType"), b.sub("SecID").str("UniqueID"), b.rat("UnitPrice"), b.curr(def), b.rat("Total")}
	}
	id := a.S.Name
	var typ, uid string
	if f, ok := a.S.has("SecID"); ok && f != nil {
		typ, uid = a.sub("SecID").str("UniqueIDType"), a.sub("SecID").str("UniqueID")
	}
	num := func(f string) *big.Rat { return new(big.Rat).SetInt64(a.leaf(f).Int) }
	switch id {
	case "BuyDebt", "BuyMF", "BuyOpt", "BuyOther", "BuyStock":
		return trade(a.sub("InvBuy"))
	case "SellDebt", "SellMF", "SellOpt", "SellOther", "SellStock":
		return trade(a.sub("InvSell"))
	case "ClosureOpt":
		return []interface{}{a.str("OptAction"), a.rat("Units"), num("ShPerCtrct")}
	case "Income":
		return []interface{}{a.str("IncomeType"), a.rat("Total"), cur, typ, uid}
	case "InvExpense", "RetOfCap":
		return []interface{}{a.rat("Total"), cur, typ, uid}
	case "JrnlFund":
		return []interface{}{a.rat("Total"), def, a.str("SubAcctFrom"), a.str("SubAcctTo")}
	case "JrnlSec":
		return []interface{}{a.rat("Units"), typ, uid, a.str("SubAcctFrom"), a.str("SubAcctTo")}
	case "MarginInterest":
		return []interface{}{a.rat("Total"), cur}
	case "Reinvest":
		return []interface{}{a.rat("Units"), typ, uid, a.rat("UnitPrice"), cur, a.rat("Total")}
	case "Split":
		return []interface{}{num("Numerator"), num("Denominator"), a.rat("OldUnits"), a.rat("NewUnits"), typ, uid, a.rat("FracCash"), cur}
	case "Transfer":
		return []interface{}{a.rat("Units"), typ, uid, a.str("TferAction")}
	}
	panic(id)
}

func (a *Agg) invTran() *Agg {
	switch {
	case strings.HasPrefix(a.S.Name, "Buy"):
		return a.sub("InvBuy").sub("InvTran")
	case strings.HasPrefix(a.S.Name, "Sell"):
		return a.sub("InvSell").sub("InvTran")
	}
	return a.sub("InvTran")
}

func invLine(l string, a *Agg, def string) error {
	s := &scan{rest: l}
	if !strings.HasPrefix(l, a.S.XML) {
		return fmt.Errorf("it doesn't start with %s", a.S.XML)
	}
	s.rest = l[len(a.S.XML):]
	s.date(a.invTran().leaf("DtTrade"))
	if s.err != nil {
		return s.err
	}
	ws := strings.Fields(strings.NewReplacer("(", " ", ")", " ", "@", " ", "/", " ", "->", " ").Replace(s.rest))
	i := 0
	for _, w := range invWords(a, def) {
		found := false
		for ; i < len(ws) && !found; i++ {
			switch v := w.(type) {
			case string:
				found = ws[i] == v
			case *big.Rat:
				n, ok := parseAmount(ws[i])
				found = ok && n.Cmp(v) == 0
				if ok && !found {
					return fmt.Errorf("found %s instead of %s", ws[i], v.RatString())
				}
			}
		}
		if !found {
			if r, ok := w.(*big.Rat); ok {
				w = r.RatString()
			}
			return fmt.Errorf("%v is missing from %q", w, ws)
		}
	}
	if i < len(ws) && strings.Join(ws[i:], " ") != "for fractional shares" && strings.Join(ws[i:], " ") != "shares each" {
		return fmt.Errorf("there is more than expected: %q", ws[i:])
	}
	return nil
}

func c27inv(t *T) {
	g := newG(t.R)
	g.MaxFrac = 6
	d := g.statement(t, "InvStatementResponse", func(m *Agg) {
		if t.R.IntN(5) == 0 && m.has("InvBal") {
			m.sub("InvBal").F["AvailCash"] = amountLeaf(pick(t.R, []string{"0.00", "-0", "0.001", "-0.0001", "0.000001", "-0.004", "-12.5"}))
		}
		if t.R.IntN(8) == 0 {
			delete(m.F, "InvTranList")
			return
		}
		list := g.agg(structs["InvTranList"], "INVTRANLIST")
		n := t.R.IntN(12)
		if t.R.IntN(12) == 0 {
			n = 60 + t.R.IntN(100)
		}
		if k, ok := dictInt(t.R, .05, 0, 500); ok {
			n = int(k)
		}
		list.F["InvTransactions"] = &Node{}
		for i := 0; i < n; i++ {
			st := structs[pick(t.R, polys["InvTransaction"])]
			list.F["InvTransactions"].List = append(list.F["InvTransactions"].List, &Node{Agg: g.agg(st, st.XML)})
		}
		g.fillList(list, "BankTransactions", "InvBankTransaction", t.R.IntN(4))
		x, y := list.kids("InvTransactions"), list.kids("BankTransactions")
		list.Order = nil
		for len(x)+len(y) > 0 {
			if len(y) == 0 || len(x) > 0 && t.R.IntN(2) == 0 {
				list.Order, x = append(list.Order, x[0]), x[1:]
			} else {
				list.Order, y = append(list.Order, y[0]), y[1:]
			}
		}
		m.F["InvTranList"] = &Node{Agg: list}
	})
	m := d.Sets[0].Msgs[0]
	if d.Sets[0].Set.Elem != "INVSTMTMSGSRSV1" {
		panic("set")
	}
	x, ok := t.printing("transactions-inv", d)
	if !ok || !t.succeeded(x, "the response is valid") {
		return
	}
	bad := func(f string, a ...interface{}) {
		t.Violate("printed", "%s: %s", fmt.Sprintf(f, a...), x)
	}
	def := m.str("CurDef")
	ls := x.lines()
	if len(ls) > 0 && strings.HasPrefix(ls[0], "Balance:") || m.sub("InvBal").rat("AvailCash").Sign() != 0 {
		if len(ls) == 0 || !m.has("InvBal") {
			bad("the balance: %q", ls)
			return
		}
		if err := balanceLine(ls[0], m.sub("InvBal").rat("AvailCash"), def, m.leaf("DtAsOf")); err != nil {
			bad("the balance: %v", err)
			return
		}
		ls = ls[1:]
		t.Count("cash balances compared", 1)
	}
	list := m.sub("InvTranList")
	for _, b := range list.kids("BankTransactions") {
		if len(ls) == 0 || ls[0] != "Bank Transactions for "+b.str("SubAcctFund")+" subaccount:" {
			bad("no heading for the bank transactions of %s", b.str("SubAcctFund"))
			return
		}
		ls = ls[1:]
		for _, tr := range b.kids("Transactions") {
			if len(ls) == 0 {
				bad("a bank transaction is missing")
				return
			}
			if err := tranLine(ls[0], tr, def); err != nil {
				bad("bank transaction %q: %v", ls[0], err)
				return
			}
			ls = ls[1:]
			t.Count("bank transactions compared", 1)
		}
	}
	trans := list.kids("InvTransactions")
	if len(ls) > 0 && ls[0] == "Investment Transactions:" {
		ls = ls[1:]
	} else if len(trans) > 0 {
		bad("no heading for the investment transactions")
		return
	}
	if len(ls) != len(trans) {
		bad("%d lines for %d investment transactions", len(ls), len(trans))
		return
	}
	for i, tr := range trans {
		if err := invLine(ls[i], tr, def); err != nil {
			bad("%s %d, %q: %v", tr.S.Name, i, ls[i], err)
			return
		}
		t.Distinct("investment transaction types", tr.S.Name, fmt.Sprint(strings.Contains(ls[i], def)))
	}
	t.Count("investment transactions compared", int64(len(trans)))
	t.Count("statements compared", 1)
	t.Distinct("case", x.out)
}

func c27accounts(t *T) {
	g := newG(t.R)
	d := g.statement(t, "AcctInfoResponse", func(m *Agg) {
		n := t.R.IntN(6)
		if t.R.IntN(12) == 0 {
			n = 50 + t.R.IntN(50)
		}
		if k, ok := dictInt(t.R, .05, 0, 500); ok {
			n = int(k)
		}
		list := &Node{}
		for i := 0; i < n; i++ {
			a := g.agg(structs["AcctInfo"], "ACCTINFO")
			k := t.R.IntN(7)
			for j, f := range []string{"BankAcctInfo", "CCAcctInfo", "InvAcctInfo"} {
				delete(a.F, f)
				if k/2 == j {
					a.F[f] = &Node{Agg: g.agg(structs[f], structs[a.S.field(f).Struct].XML)}
				}
			}
			list.List = append(list.List, &Node{Agg: a})
		}
		m.F["AcctInfo"] = list
		if n == 0 {
			delete(m.F, "AcctInfo")
		}
	})
	x, ok := t.printing("get-accounts", d)
	if !ok || !t.succeeded(x, "the response is valid") {
		return
	}
	var want []string
	want = append(want, "Found the following accounts:")
	for _, a := range d.Sets[0].Msgs[0].kids("AcctInfo") {
		switch {
		case a.has("BankAcctInfo"):
			b := a.sub("BankAcctInfo").sub("BankAcctFrom")
			want = append(want, "Bank Account:", `BankID: "`+b.str("BankID")+`"`, `AcctID: "`+b.str("AcctID")+`"`, "AcctType: "+b.str("AcctType"))
		case a.has("CCAcctInfo"):
			want = append(want, "Credit card:", `AcctID: "`+a.sub("CCAcctInfo").sub("CCAcctFrom").str("AcctID")+`"`)
		case a.has("InvAcctInfo"):
			b := a.sub("InvAcctInfo").sub("InvAcctFrom")
			want = append(want, "Investment account:", `BrokerID: "`+b.str("BrokerID")+`"`, `AcctID: "`+b.str("AcctID")+`"`)
		default:
			want = append(want, strings.TrimSpace("Unknown type: "+a.str("Name")+" "+a.str("Desc")))
		}
	}
	got := x.lines()
	if len(got) > len(want) {
		t.Violate("printed", "%d lines instead of %d: %s", len(got), len(want), x)
		return
	}
	for i, w := range want {
		if i >= len(got) || got[i] != w {
			l := "nothing"
			if i < len(got) {
				l = got[i]
			}
			t.Violate("printed", "line %d is %q instead of %q: %s", i, l, w, x)
			return
		}
	}
	t.Count("accounts compared", int64(len(d.Sets[0].Msgs[0].kids("AcctInfo"))))
	t.Count("account lists compared", 1)
	t.Distinct("case", x.out)
}

// c27any: no valid response crashes any of the commands, and the status of
// the signon decides whether they succeed.
func c27any(t *T) {
	d, _ := answer(t)
	cmd := pick(t.R, append(append([]string{}, transactions...), "get-accounts"))
	if t.R.IntN(3) != 0 {
		// make sure the command has something to print
		name := map[string]string{"transactions-bank": "StatementResponse", "transactions-cc": "CCStatementResponse", "transactions-inv": "InvStatementResponse", "get-accounts": "AcctInfoResponse"}[cmd]
		g := newG(t.R)
		d.Sets = nil
		for _, s := range respSets {
			for _, ty := range s.Types {
				if ty == name {
					st := structs[name]
					a := g.agg(st, st.XML)
					normalize(a)
					g.repair(a, d.Version)
					d.Sets = []*DocSet{{Set: s, Msgs: []*Agg{a}}}
				}
			}
		}
	}
	if t.R.IntN(3) == 0 {
		st := d.Signon.sub("Status")
		s := pick(t.R, statusList)
		st.F["Code"], st.F["Severity"] = intLeaf(s.Code), strLeaf(s.Severity)
	}
	if st := d.Signon.sub("Status"); st.has("Message") {
		// it is printed, and mustn't look like a result
		st.F["Message"] = strLeaf(word(t.R, 12))
	}
	x, ok := t.printing(cmd, d)
	if !ok {
		return
	}
	code := d.Signon.sub("Status").leaf("Code").Int
	if code != 0 {
		if !t.failed(x, fmt.Sprintf("the signon's status is %d", code)) {
			return
		}
		if !strings.Contains(x.out+x.err, fmt.Sprint(code)) {
			t.Violate("status", "the signon's status %d isn't reported: %s", code, x)
			return
		}
		if strings.Contains(x.out, "Balance:") || strings.Contains(x.out, "AcctID:") {
			t.Violate("status", "the signon failed with %d, but something was printed: %s", code, x)
			return
		}
		t.Count("failed signons reported", 1)
	} else if want := map[string]string{"transactions-bank": "BANKMSGSRSV1", "transactions-cc": "CREDITCARDMSGSRSV1", "transactions-inv": "INVSTMTMSGSRSV1", "get-accounts": "SIGNUPMSGSRSV1"}[cmd]; !d.hasSet(want) {
		// Whether that's a failure is left open (see "Not claimed"), but the
		// user has to be told, and nothing can be shown
		if len(x.lines()) == 0 && strings.TrimSpace(x.err) == "" {
			t.Violate("nothing received", "the response has no %s, but nothing was said about that: %s", want, x)
			return
		}
		for _, w := range []string{"Balance:", "Transactions", "AcctID:", "Unknown type:"} {
			if strings.Contains(x.out, w) {
				t.Violate("nothing received", "the response has no %s, but something was printed: %s", want, x)
				return
			}
		}
		t.Count("responses without the messages", 1)
	} else if !t.succeeded(x, "the response is valid and the signon's status is 0") {
		return
	}
	t.Count("any valid responses", 1)
	t.Distinct("case", cmd, t.files["response.ofx"])
	t.Distinct("command, signon status", cmd, fmt.Sprint(code))
}

// hasSet is whether there are messages in a message set.
func (d *Doc) hasSet(elem string) bool {
	for _, s := range d.Sets {
		if s.Set.Elem == elem && len(s.Msgs) > 0 {
			return true
		}
	}
	return false
}
