package main

import (
	_ "embed"
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"
)

//go:embed golden/status.txt
var statusText string

// StatusDef is one OFX status code.
type StatusDef struct {
	Code                          int64
	Severity, Meaning, Conditions string
}

var (
	statusList  []StatusDef
	statusCodes = map[int64]StatusDef{}
)

func init() {
	for _, l := range strings.Split(strings.TrimRight(statusText, "\n"), "\n") {
		p := strings.Split(l, "\t")
		code, err := strconv.ParseInt(p[0], 10, 64)
		if err != nil {
			panic(err)
		}
		d := StatusDef{code, p[1], p[2], p[3]}
		statusList = append(statusList, d)
		statusCodes[code] = d
	}
}

// What makes values valid, by our reading of the specification and of the
// documentation of /repo's types. Independent of /repo's code: it decides on
// the values of the document, not on decoded structs.

func (a *Agg) str(f string) string {
	if n := a.F[f]; n != nil && n.Leaf != nil {
		return n.Leaf.S
	}
	return ""
}

func (a *Agg) bool(f string) bool {
	n := a.F[f]
	return n != nil && n.Leaf.Bool
}

func (a *Agg) sub(f string) *Agg {
	if n := a.F[f]; n != nil && n.Agg != nil {
		return n.Agg
	}
	return &Agg{S: structs[a.S.field(f).Struct], F: map[string]*Node{}}
}

func (a *Agg) dated(f string) bool {
	n := a.F[f]
	return n != nil && !n.Leaf.Time.IsZero()
}

func (a *Agg) badUID() string {
	if n := len(a.str("TrnUID")); n == 0 || n > 36 {
		return "TrnUID"
	}
	return ""
}

// invalid tells why a message (or a part of one) isn't valid, "" if it is.
func invalid(a *Agg, version string) string {
	first := func(xs ...string) string {
		for _, x := range xs {
			if x != "" {
				return x
			}
		}
		return ""
	}
	switch a.S.Name {
	case "SignonRequest":
		n := func(f string, min, max int) string {
			if l := len(a.str(f)); l < min || l > max {
				return f + " length"
			}
			return ""
		}
		key := ""
		if (a.str("UserPass") == "") == (a.str("UserKey") == "") {
			key = "UserPass/UserKey"
		}
		lang := ""
		if l := len(a.str("Language")); l != 0 && l != 3 {
			lang = "Language"
		}
		return first(n("UserID", 1, 32), key, n("UserPass", 0, 32), n("UserKey", 0, 64), lang, n("AppID", 1, 5), n("AppVer", 1, 4))
	case "SignonResponse":
		if len(a.str("Language")) != 3 {
			return "Language"
		}
		return invalid(a.sub("Status"), version)
	case "Status":
		sev := a.str("Severity")
		code := int64(0)
		if n := a.F["Code"]; n != nil {
			code = n.Leaf.Int
		}
		if d, ok := statusCodes[code]; !ok || d.Severity != sev {
			return "Status"
		}
		return ""
	case "StatementRequest":
		if a.bool("IncludePending") && version < "220" {
			return "IncludePending"
		}
		if a.bool("IncTranImg") && version < "210" {
			return "IncTranImg"
		}
		return first(a.badUID(), invalid(a.sub("BankAcctFrom"), version))
	case "CCStatementRequest", "InvStatementRequest", "SecListRequest", "AcctInfoRequest", "ProfileRequest",
		"CCStatementResponse", "InvStatementResponse", "SecListResponse", "AcctInfoResponse", "ProfileResponse":
		return a.badUID()
	case "SecurityList":
		return ""
	case "BankAcct":
		if a.str("BankID") == "" || a.str("AcctID") == "" || a.F["AcctType"] == nil {
			return "BankAcct"
		}
		return ""
	case "CCAcct":
		if a.str("AcctID") == "" {
			return "CCAcct"
		}
		return ""
	case "StatementResponse":
		cur := ""
		if c := a.str("CurDef"); c == "" || c == "XXX" {
			cur = "CurDef"
		}
		when := ""
		if !a.dated("DtAsOf") {
			when = "DtAsOf"
		}
		avail := ""
		if a.has("AvailBalAmt") != a.has("AvailDtAsOf") {
			avail = "Avail"
		}
		list, listp := "", ""
		if a.has("BankTranList") {
			list = invalid(a.sub("BankTranList"), version)
		}
		if a.has("BankTranListP") {
			if version < "220" {
				listp = "BankTranListP version"
			} else {
				listp = invalid(a.sub("BankTranListP"), version)
			}
		}
		bal := ""
		for _, b := range a.kids("BalList") {
			bal = first(bal, invalid(b, version))
		}
		return first(a.badUID(), invalid(a.sub("Status"), version), cur, invalid(a.sub("BankAcctFrom"), version), when, avail, list, listp, bal)
	case "TransactionList":
		r := ""
		if !a.dated("DtStart") || !a.dated("DtEnd") {
			r = "TransactionList dates"
		}
		for _, t := range a.kids("Transactions") {
			r = first(r, invalid(t, version))
		}
		return r
	case "PendingTransactionList":
		r := ""
		if !a.dated("DtAsOf") {
			r = "PendingTransactionList date"
		}
		for _, t := range a.kids("Transactions") {
			r = first(r, invalid(t, version))
		}
		return r
	case "Balance":
		if a.str("Name") == "" || a.str("Desc") == "" || a.F["BalType"] == nil {
			return "Balance"
		}
		return ""
	case "Currency":
		if n := a.F["CurRate"]; n == nil || n.Leaf.Rat.Sign() == 0 {
			return "CurRate"
		}
		if c := a.str("CurSym"); c == "" || c == "XXX" {
			return "CurSym"
		}
		return ""
	case "Payee":
		for _, f := range []string{"Name", "Addr1", "City", "State", "PostalCode", "Phone"} {
			if a.str(f) == "" {
				return "Payee " + f
			}
		}
		if n := len(a.str("Country")); n != 0 && n != 3 {
			return "Payee Country"
		}
		return ""
	case "Transaction", "PendingTransaction":
		cur := func(f string) bool { return a.has(f) && invalid(a.sub(f), version) == "" }
		both := ""
		if cur("Currency") && cur("OrigCurrency") {
			both = "two currencies"
		}
		if a.F["TrnType"] == nil {
			return "TrnType"
		}
		if a.S.Name == "PendingTransaction" {
			if !a.dated("DtTran") {
				return "DtTran"
			}
			if a.str("Name") == "" {
				return "pending Name"
			}
			return both
		}
		r := ""
		switch {
		case a.str("TrnType") == "HOLD":
			r = "TrnType HOLD"
		case !a.dated("DtPosted"):
			r = "DtPosted"
		case a.str("FiTID") == "":
			r = "FiTID"
		case a.str("CorrectFiTID") != "" && !a.has("CorrectAction"):
			r = "CorrectAction"
		case a.str("Name") != "" && a.has("Payee"):
			r = "Name and Payee"
		case a.has("BankAcctTo") && a.has("CCAcctTo"):
			r = "BankAcctTo and CCAcctTo"
		case a.has("ImageData") && len(a.F["ImageData"].List) > 0 && version < "220":
			r = "ImageData version"
		case a.has("ImageData") && len(a.F["ImageData"].List) > 2:
			r = "ImageData count"
		}
		for _, f := range []string{"Payee", "BankAcctTo", "CCAcctTo"} {
			if a.has(f) {
				r = first(r, invalid(a.sub(f), version))
			}
		}
		return first(r, both)
	}
	panic("invalid: " + a.S.Name)
}

// repair makes a value valid by setting or removing what isn't.
func (g *G) repair(a *Agg, version string) {
	r := g.R
	need := func(f string, make func() *Node) {
		if n := a.F[f]; n == nil || n.Leaf != nil && n.Leaf.Kind == "string" && n.Leaf.S == "" {
			a.F[f] = make()
		}
	}
	text := func(min, max int) func() *Node { return func() *Node { return strLeaf(g.text(min, max)) } }
	length := func(f string, min, max int) {
		if l := len(a.str(f)); l < min || l > max {
			a.F[f] = strLeaf(g.text(min, max))
		}
	}
	sub := func(f string) *Agg {
		if !a.has(f) {
			fd := a.S.field(f)
			a.F[f] = &Node{Agg: &Agg{S: structs[fd.Struct], Tag: fd.Name(), F: map[string]*Node{}}}
		}
		return a.F[f].Agg
	}
	date := func(f string) {
		if !a.dated(f) {
			a.F[f] = dateLeaf(time.Unix(int64(r.IntN(1<<31)), 0))
		}
	}
	enum := func(f string) {
		if !a.has(f) {
			a.F[f] = &Node{Leaf: g.leaf(a.S.field(f))}
		}
	}
	curr := func(f string) {
		if s := a.str(f); s == "" || s == "XXX" {
			a.F[f] = currLeaf(pick(r, currencies))
		}
	}
	if _, ok := a.S.has("TrnUID"); ok && a.badUID() != "" {
		a.F["TrnUID"] = uidLeaf(g.uid())
	}
	switch a.S.Name {
	case "SignonRequest":
		length("UserID", 1, 32)
		if r.IntN(4) == 0 {
			delete(a.F, "UserPass")
			length("UserKey", 1, 64)
		} else {
			delete(a.F, "UserKey")
			length("UserPass", 1, 32)
		}
		if r.IntN(6) == 0 {
			a.F["UserID"] = strLeaf(pick(r, []string{"anonymous00000000000000000000000", "anonymous", "anonymous0000", "ANONYMOUS", "0", "NONE", "guest"}))
		}
		length("AppID", 1, 5)
		length("AppVer", 1, 4)
		if n := len(a.str("Language")); n != 3 {
			a.F["Language"] = strLeaf(pick(r, []string{"ENG", "FRA", "DEU", "abc"}))
		}
	case "SignonResponse":
		if n := len(a.str("Language")); n != 3 {
			a.F["Language"] = strLeaf(pick(r, []string{"ENG", "FRA", "DEU", "abc"}))
		}
		g.repair(sub("Status"), version)
	case "Status":
		if invalid(a, version) != "" {
			d := statusList[r.IntN(len(statusList))]
			if r.IntN(3) == 0 {
				d = statusList[0]
			}
			a.F["Code"], a.F["Severity"] = intLeaf(d.Code), strLeaf(d.Severity)
		}
	case "StatementRequest":
		if version < "220" {
			delete(a.F, "IncludePending")
		}
		if version < "210" {
			delete(a.F, "IncTranImg")
		}
		g.repair(sub("BankAcctFrom"), version)
	case "BankAcct":
		need("BankID", text(1, 9))
		need("AcctID", text(1, 22))
		enum("AcctType")
	case "CCAcct":
		need("AcctID", text(1, 22))
	case "StatementResponse":
		g.repair(sub("Status"), version)
		curr("CurDef")
		g.repair(sub("BankAcctFrom"), version)
		date("DtAsOf")
		if a.has("AvailBalAmt") != a.has("AvailDtAsOf") {
			delete(a.F, "AvailBalAmt")
			delete(a.F, "AvailDtAsOf")
		}
		if a.has("BankTranList") {
			g.repair(sub("BankTranList"), version)
		}
		if version < "220" {
			delete(a.F, "BankTranListP")
		} else if a.has("BankTranListP") {
			g.repair(sub("BankTranListP"), version)
		}
		for _, b := range a.kids("BalList") {
			g.repair(b, version)
		}
	case "TransactionList":
		date("DtStart")
		date("DtEnd")
		for _, t := range a.kids("Transactions") {
			g.repair(t, version)
		}
	case "PendingTransactionList":
		date("DtAsOf")
		for _, t := range a.kids("Transactions") {
			g.repair(t, version)
		}
	case "Balance":
		need("Name", text(1, 20))
		need("Desc", text(1, 20))
		enum("BalType")
	case "Payee":
		for _, f := range []string{"Name", "Addr1", "City", "State", "PostalCode", "Phone"} {
			need(f, text(1, 12))
		}
		if n := len(a.str("Country")); n != 0 && n != 3 {
			a.F["Country"] = strLeaf(pick(r, []string{"USA", "CAN", "GBR"}))
		}
	case "PendingTransaction":
		enum("TrnType")
		date("DtTran")
		need("Name", text(1, 20))
		if a.has("Currency") && a.has("OrigCurrency") {
			delete(a.F, pick(r, []string{"Currency", "OrigCurrency"}))
		}
	case "Transaction":
		for a.F["TrnType"] == nil || a.str("TrnType") == "HOLD" {
			a.F["TrnType"] = &Node{Leaf: g.leaf(a.S.field("TrnType"))}
		}
		date("DtPosted")
		need("FiTID", text(1, 20))
		if a.str("CorrectFiTID") != "" {
			enum("CorrectAction")
		}
		if a.has("Payee") {
			if a.has("Name") && r.IntN(2) == 0 {
				delete(a.F, "Payee")
			} else {
				delete(a.F, "Name")
				g.repair(sub("Payee"), version)
			}
		}
		if a.has("BankAcctTo") && a.has("CCAcctTo") {
			delete(a.F, pick(r, []string{"BankAcctTo", "CCAcctTo"}))
		}
		for _, f := range []string{"BankAcctTo", "CCAcctTo"} {
			if a.has(f) {
				g.repair(sub(f), version)
			}
		}
		if n := a.F["ImageData"]; n != nil {
			if version < "220" {
				delete(a.F, "ImageData")
			} else if len(n.List) > 2 {
				n.List = n.List[:2]
			}
		}
		if a.has("Currency") && a.has("OrigCurrency") {
			delete(a.F, pick(r, []string{"Currency", "OrigCurrency"}))
		}
	}
	if why := invalid2(a, version); why != "" {
		panic(fmt.Sprintf("repair of %s left %s", a.S.Name, why))
	}
}

func invalid2(a *Agg, version string) string {
	switch a.S.Name {
	case "InvTranList", "Currency":
		return ""
	}
	return invalid(a, version)
}

func (s *Struct) has(f string) (*Field, bool) {
	for _, x := range s.Fields {
		if x.Go == f {
			return x, true
		}
	}
	return nil, false
}

// normalize drops what has no Go value of its own: optional elements which
// hold zero values, and empty lists.
func normalize(a *Agg) bool {
	empty := true
	for _, f := range a.S.Fields {
		n := a.F[f.Go]
		if n == nil {
			continue
		}
		if n.List != nil || f.Slice || f.Kind == "poly" || f.Kind == "inline" || f.Kind == "msgsets" {
			if len(n.List) == 0 {
				delete(a.F, f.Go)
				continue
			}
			for _, k := range n.List {
				if k.Agg != nil {
					normalize(k.Agg)
				}
			}
			empty = false
			continue
		}
		if n.Agg != nil {
			if normalize(n.Agg) && !f.Ptr {
				delete(a.F, f.Go)
				continue
			}
			empty = false
			continue
		}
		if !f.Ptr && f.Opt {
			l := n.Leaf
			zero := false
			switch l.Kind {
			case "amount":
				zero = l.Rat.Sign() == 0
			case "boolean":
				zero = !l.Bool
			case "int":
				zero = l.Int == 0
			case "string", "uid":
				zero = l.S == ""
			case "currsymbol":
				zero = l.S == "XXX"
			}
			if zero {
				delete(a.F, f.Go)
				continue
			}
		}
		empty = false
	}
	return empty
}

// breakOne makes one part of a valid value invalid, or might: it returns what
// it did, "" if there was nothing to break.
func (g *G) breakOne(a *Agg, version string) string {
	r := g.R
	var spots []func() string
	add := func(what string, f func()) {
		spots = append(spots, func() string { f(); return a.S.Name + " " + what })
	}
	drop := func(f string) {
		if a.has(f) {
			add("without "+f, func() { delete(a.F, f) })
		}
	}
	set := func(f string, s string) { add(f+"="+clip(s, 10), func() { a.F[f] = strLeaf(s) }) }
	nodate := func(f string) {
		drop(f)
		add("zero "+f, func() {
			a.F[f] = &Node{Leaf: &Leaf{Kind: "date", Text: "00010101", Time: time.Time{}, Zone: "GMT"}}
		})
	}
	kid := func(f string) {
		if n := a.F[f]; n != nil && n.Agg != nil {
			spots = append(spots, func() string { return g.breakOne(n.Agg, version) })
			spots = append(spots, func() string { return g.breakOne(n.Agg, version) })
		}
	}
	kids := func(f string) {
		ks := a.kids(f)
		if len(ks) > 0 {
			for i := 0; i < 6; i++ {
				spots = append(spots, func() string { return g.breakOne(pick(r, ks), version) })
			}
		}
	}
	item := func(f string) {
		add("with "+f, func() {
			x := a.S.field(f)
			if x.Slice {
				n := &Node{}
				for i := 1 + r.IntN(4); i > 0; i-- {
					n.List = append(n.List, g.item(x))
				}
				a.F[f] = n
				return
			}
			a.F[f] = g.item(x)
			if a.F[f].Agg != nil && r.IntN(2) == 0 {
				switch a.F[f].Agg.S.Name {
				case "Payee", "BankAcct", "CCAcct":
					g.repair(a.F[f].Agg, version)
				}
			}
		})
	}
	long := func(f string, n int) {
		s := strings.Repeat("x", n)
		if r.IntN(2) == 0 {
			s = "é" + s[2:]
		}
		set(f, s)
		// what people might consider the same as a shorter value
		old := "2500"
		if o := a.str(f); o != "" && r.IntN(2) == 0 {
			old = o
		}
		for i := 0; i < 2; i++ {
			s := old
			switch r.IntN(5) {
			case 0, 1:
				s += pick(r, []string{".0", ".00", ".", "-1", " 1", "000", "v1", "_", ".0.0", "\u00a0", "é", "R1"})
			case 2:
				s = pick(r, []string{"0", "00", "v", "V.", "-", "+", "\u00a0", "QW", "0.", "x "}) + s
			case 3:
				s = shaped(r)
			}
			set(f, strings.TrimSpace(s))
		}
	}
	if _, ok := a.S.has("TrnUID"); ok {
		drop("TrnUID")
		for _, n := range []int{36, 37} {
			add(fmt.Sprint("TrnUID length ", n), func() { a.F["TrnUID"] = uidLeaf(strings.Repeat("a", n)) })
		}
	}
	switch a.S.Name {
	case "SignonRequest":
		drop("UserID")
		long("UserID", 32)
		long("UserID", 33)
		drop("UserPass")
		drop("UserKey")
		long("UserPass", 32)
		long("UserPass", 33)
		long("UserKey", 64)
		long("UserKey", 65)
		set("Language", "EN")
		set("Language", "ENGL")
		set("Language", "é1")
		drop("AppID")
		long("AppID", 5)
		long("AppID", 6)
		drop("AppVer")
		long("AppVer", 4)
		long("AppVer", 5)
	case "SignonResponse":
		drop("Language")
		set("Language", "EN")
		set("Language", "ENGL")
		kid("Status")
	case "Status":
		drop("Code")
		drop("Severity")
		add("other severity", func() { a.F["Severity"] = strLeaf(pick(r, []string{"INFO", "WARN", "ERROR", "info", "FATAL"})) })
		add("other code", func() {
			a.F["Code"] = intLeaf(pick(r, []int64{-1, 2, 999, 2013, 2024, 15509, 20000, 1 << 40, 15500, 0, 2000, 2028, 6501}))
		})
	case "StatementRequest":
		add("IncludePending", func() { a.F["IncludePending"] = boolLeaf(true) })
		add("IncTranImg", func() { a.F["IncTranImg"] = boolLeaf(true) })
		kid("BankAcctFrom")
	case "BankAcct":
		drop("BankID")
		drop("AcctID")
		drop("AcctType")
	case "CCAcct":
		drop("AcctID")
	case "StatementResponse":
		kid("Status")
		drop("CurDef")
		add("XXX", func() { a.F["CurDef"] = currLeaf("XXX") })
		kid("BankAcctFrom")
		nodate("DtAsOf")
		drop("AvailBalAmt")
		drop("AvailDtAsOf")
		if !a.has("AvailBalAmt") {
			item("AvailBalAmt")
			item("AvailDtAsOf")
		}
		for i := 0; i < 4; i++ {
			kid("BankTranList")
			kid("BankTranListP")
		}
		if !a.has("BankTranListP") {
			add("BankTranListP", func() {
				a.F["BankTranListP"] = g.item(a.S.field("BankTranListP"))
				g.repair(a.F["BankTranListP"].Agg, version)
			})
		}
		kids("BalList")
	case "TransactionList":
		nodate("DtStart")
		nodate("DtEnd")
		kids("Transactions")
		kids("Transactions")
	case "PendingTransactionList":
		nodate("DtAsOf")
		kids("Transactions")
	case "Balance":
		drop("Name")
		drop("Desc")
		drop("BalType")
	case "Payee":
		for _, f := range []string{"Name", "Addr1", "City", "State", "PostalCode", "Phone"} {
			drop(f)
		}
		set("Country", "US")
		set("Country", "USAX")
	case "PendingTransaction":
		drop("TrnType")
		nodate("DtTran")
		drop("Name")
		item("Currency")
		item("OrigCurrency")
		g.currencies(a, add)
	case "Transaction":
		drop("TrnType")
		add("HOLD", func() { a.F["TrnType"] = enumLeaf("trnType", "HOLD") })
		nodate("DtPosted")
		drop("FiTID")
		set("CorrectFiTID", "c1")
		drop("CorrectAction")
		set("Name", "n1")
		item("Payee")
		item("BankAcctTo")
		item("CCAcctTo")
		item("ImageData")
		item("Currency")
		item("OrigCurrency")
		g.currencies(a, add)
		kid("Payee")
		kid("BankAcctTo")
		kid("CCAcctTo")
	}
	if len(spots) == 0 {
		return ""
	}
	return spots[r.IntN(len(spots))]()
}

// coincide makes two elements close to each other hold the same value.
func (g *G) coincide(as []*Agg) string {
	r := g.R
	type at struct {
		a *Agg
		f string
		n *Node
	}
	var all []*Agg
	for _, a := range as {
		a.walk(func(a *Agg) { all = append(all, a) })
	}
	for try := 0; try < 5; try++ {
		base := pick(r, all)
		leaves := map[string][]at{}
		var names []string
		var walk func(a *Agg, depth int)
		walk = func(a *Agg, depth int) {
			for _, f := range a.S.Fields {
				n := a.F[f.Go]
				if n == nil {
					continue
				}
				for _, k := range append([]*Node{n}, n.List...) {
					if k.Agg != nil && depth < 2 {
						walk(k.Agg, depth+1)
					}
					if k.Leaf != nil && k.Leaf.Kind != "boolean" {
						key := k.Leaf.Kind + k.Leaf.Enum
						if leaves[key] == nil {
							names = append(names, key)
						}
						leaves[key] = append(leaves[key], at{a, f.Go, k})
					}
				}
			}
		}
		walk(base, 0)
		if len(names) == 0 {
			continue
		}
		var pairs [][2]at
		alike := r.IntN(2) == 0
		if !alike {
			names = []string{pick(r, names)}
		}
		for _, name := range names {
			for _, x := range leaves[name] {
				for _, y := range leaves[name] {
					if y.n != x.n && (!alike || y.f == x.f) && len(pairs) < 5000 {
						pairs = append(pairs, [2]at{x, y})
					}
				}
			}
		}
		if len(pairs) == 0 {
			continue
		}
		p := pick(r, pairs)
		x, y := p[0], p[1]
		c := *x.n.Leaf
		if c.Kind == "string" && r.IntN(6) == 0 {
			if s := strings.TrimSpace(nearly(r, c.S)); s != "" {
				c.S, c.Text = s, s
			}
		}
		y.n.Leaf = &c
		return fmt.Sprintf("%s.%s = %s.%s", y.a.S.Name, y.f, x.a.S.Name, x.f)
	}
	return ""
}

// currencies gives a transaction two currencies, which may be valid or not.
func (g *G) currencies(a *Agg, add func(string, func())) {
	one := func(f string) *Node {
		n := &Node{Agg: &Agg{S: structs["Currency"], Tag: a.S.field(f).Name(), F: map[string]*Node{}}}
		rate := pick(g.R, []string{"1", "0.0001", "-2.5", "1.33", "0", "0.00", "100000"})
		n.Agg.F["CurRate"] = amountLeaf(rate)
		n.Agg.F["CurSym"] = currLeaf(pick(g.R, append([]string{"XXX", "USD", "EUR"}, currencies...)))
		return n
	}
	add("two currencies", func() { a.F["Currency"], a.F["OrigCurrency"] = one("Currency"), one("OrigCurrency") })
}

var _ rand.Source
