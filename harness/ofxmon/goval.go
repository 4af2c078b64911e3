package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
)

// compareAgg compares a Go struct the code under test filled in with the
// value it should have.
func compareAgg(v reflect.Value, a *Agg, path string) error {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return fmt.Errorf("%s: nil instead of %s", path, a.S.Name)
		}
		v = v.Elem()
	}
	if v.Type().Name() != a.S.Name {
		return fmt.Errorf("%s: is a %s instead of %s", path, v.Type().Name(), a.S.Name)
	}
	if a.S.Name == "MessageSet" {
		if n := v.FieldByName("Name").String(); n != a.Tag {
			return fmt.Errorf("%s.Name: %q instead of %q", path, n, a.Tag)
		}
	}
	for _, f := range a.S.Fields {
		fv := v.FieldByName(f.Go)
		p := path + "." + f.Go
		if !fv.IsValid() {
			return fmt.Errorf("%s: no such field", p)
		}
		if err := compareField(fv, f, a.F[f.Go], p); err != nil {
			return err
		}
	}
	return nil
}

func compareField(fv reflect.Value, f *Field, n *Node, p string) error {
	if f.Slice || f.Kind == "poly" || f.Kind == "inline" || f.Kind == "msgsets" {
		var items []*Node
		if n != nil {
			items = n.List
		}
		if fv.Len() != len(items) {
			return fmt.Errorf("%s: has %d elements instead of %d", p, fv.Len(), len(items))
		}
		for i, it := range items {
			if err := compareItem(fv.Index(i), it, fmt.Sprintf("%s[%d]", p, i)); err != nil {
				return err
			}
			if it.Agg != nil {
				if err := compareAccessors(fv.Index(i), it.Agg, fmt.Sprintf("%s[%d]", p, i)); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if f.Ptr {
		if n == nil {
			if !fv.IsNil() {
				return fmt.Errorf("%s: present although absent from the document", p)
			}
			return nil
		}
		if fv.IsNil() {
			return fmt.Errorf("%s: absent although present in the document", p)
		}
		fv = fv.Elem()
	}
	if n == nil {
		return compareZero(fv, f, p)
	}
	return compareItem(fv, n, p)
}

func compareItem(v reflect.Value, n *Node, p string) error {
	if n.Leaf != nil {
		return compareLeaf(v, n.Leaf, p)
	}
	return compareAgg(v, n.Agg, p)
}

func addr(v reflect.Value) interface{} {
	if v.CanAddr() {
		return v.Addr().Interface()
	}
	x := reflect.New(v.Type())
	x.Elem().Set(v)
	return x.Interface()
}

func compareLeaf(v reflect.Value, l *Leaf, p string) error {
	bad := func() error {
		return fmt.Errorf("%s: is %s instead of %s (text %q)", p, show(v), l, clip(l.Text, 200))
	}
	switch x := addr(v).(type) {
	case *ofxgo.Amount:
		if l.Kind != "amount" || x.Rat.Cmp(l.Rat) != 0 {
			return bad()
		}
	case *ofxgo.Date:
		if l.Kind != "date" || !x.Time.Equal(l.Time) {
			return bad()
		}
		n1, o1 := x.Zone()
		_, o2 := l.Time.Zone()
		if o1 != o2 || l.Zone != "" && n1 != l.Zone {
			return bad()
		}
	case *ofxgo.Boolean:
		if l.Kind != "boolean" || bool(*x) != l.Bool {
			return bad()
		}
	case *ofxgo.Int:
		if l.Kind != "int" || int64(*x) != l.Int {
			return bad()
		}
	case *ofxgo.String:
		if l.Kind != "string" || string(*x) != l.S {
			return bad()
		}
	case *ofxgo.UID:
		if l.Kind != "uid" || string(*x) != l.S {
			return bad()
		}
	case *ofxgo.CurrSymbol:
		if l.Kind != "currsymbol" || x.String() != l.S {
			return bad()
		}
	default:
		if l.Kind != "enum" || v.Type().Name() != l.Enum {
			return fmt.Errorf("%s: a %s instead of a %s %s", p, v.Type(), l.Kind, l.Enum)
		}
		if v.Interface().(fmt.Stringer).String() != l.S {
			return bad()
		}
	}
	return nil
}

func show(v reflect.Value) string {
	switch x := addr(v).(type) {
	case *ofxgo.Amount:
		return x.Rat.RatString()
	case *ofxgo.Date:
		return x.Time.Format("2006-01-02T15:04:05.999999999 -0700 MST")
	case fmt.Stringer:
		return fmt.Sprintf("%q", clip(x.String(), 300))
	}
	return clip(fmt.Sprintf("%v", v.Interface()), 300)
}

// compareZero tells whether a value is the one of an absent element.
func compareZero(v reflect.Value, f *Field, p string) error {
	bad := func() error { return fmt.Errorf("%s: is %s although absent from the document", p, show(v)) }
	switch x := addr(v).(type) {
	case *ofxgo.Amount:
		if x.Sign() != 0 {
			return bad()
		}
	case *ofxgo.Date:
		if !x.IsZero() {
			return bad()
		}
	case *ofxgo.CurrSymbol:
		if x.String() != "XXX" {
			return bad()
		}
	default:
		if f.Kind == "struct" {
			st := structs[f.Struct]
			return compareAgg(v, &Agg{S: st, F: map[string]*Node{}}, p)
		}
		if !v.IsZero() {
			return bad()
		}
	}
	return nil
}

// compareAccessors checks what interfaces report about list elements.
func compareAccessors(v reflect.Value, a *Agg, p string) error {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	switch x := v.Interface().(type) {
	case ofxgo.InvTransaction:
		if x.TransactionType() != a.Tag {
			return fmt.Errorf("%s: TransactionType() is %q instead of %q", p, x.TransactionType(), a.Tag)
		}
		it := a.F["InvTran"]
		if w := a.F["InvBuy"]; w != nil {
			it = w.Agg.F["InvTran"]
		} else if w := a.F["InvSell"]; w != nil {
			it = w.Agg.F["InvTran"]
		}
		return compareSub(reflect.ValueOf(x.InvTransaction()), "InvTran", it, p+".InvTransaction()")
	case ofxgo.Position:
		if x.PositionType() != a.Tag {
			return fmt.Errorf("%s: PositionType() is %q instead of %q", p, x.PositionType(), a.Tag)
		}
		return compareSub(reflect.ValueOf(x.InvPosition()), "InvPosition", a.F["InvPos"], p+".InvPosition()")
	case ofxgo.OpenOrder:
		if x.OrderType() != a.Tag {
			return fmt.Errorf("%s: OrderType() is %q instead of %q", p, x.OrderType(), a.Tag)
		}
	case ofxgo.Security:
		if x.SecurityType() != a.Tag {
			return fmt.Errorf("%s: SecurityType() is %q instead of %q", p, x.SecurityType(), a.Tag)
		}
		return compareSub(reflect.ValueOf(x.SecurityInfo()), "SecInfo", a.F["SecInfo"], p+".SecurityInfo()")
	}
	return nil
}

func compareSub(v reflect.Value, name string, n *Node, p string) error {
	if n == nil {
		n = &Node{Agg: &Agg{S: structs[name], F: map[string]*Node{}}}
	}
	return compareAgg(v, n.Agg, p)
}

// compareResponse compares a whole response with its document.
func compareResponse(r *ofxgo.Response, d *Doc) error {
	if r.Version.String() != d.Version {
		return fmt.Errorf("Version: %s instead of %s", r.Version, d.Version)
	}
	if err := compareAgg(reflect.ValueOf(&r.Signon), d.Signon, "Signon"); err != nil {
		return err
	}
	rv := reflect.ValueOf(r).Elem()
	for _, s := range respSets {
		var want []*Agg
		for _, ds := range d.Sets {
			if ds.Set == s {
				want = append(want, ds.Msgs...)
			}
		}
		got := rv.FieldByName(s.Field)
		if got.Len() != len(want) {
			return fmt.Errorf("%s: %d messages instead of %d", s.Field, got.Len(), len(want))
		}
		for i, w := range want {
			p := fmt.Sprintf("%s[%d]", s.Field, i)
			m := got.Index(i).Interface().(ofxgo.Message)
			if m.Name() != w.Tag {
				return fmt.Errorf("%s: Name() is %q instead of %q", p, m.Name(), w.Tag)
			}
			if m.Type().String() != s.Elem {
				return fmt.Errorf("%s: Type() is %q instead of %q", p, m.Type(), s.Elem)
			}
			if err := compareAgg(got.Index(i), w, p); err != nil {
				return err
			}
		}
	}
	return nil
}

// goTypes are the structs which are reached through interfaces.
var goTypes = map[string]reflect.Type{}

func init() {
	for _, x := range []interface{}{
		ofxgo.AcctInfoRequest{}, ofxgo.StatementRequest{}, ofxgo.CCStatementRequest{}, ofxgo.InvStatementRequest{}, ofxgo.SecListRequest{}, ofxgo.ProfileRequest{},
		ofxgo.AcctInfoResponse{}, ofxgo.StatementResponse{}, ofxgo.CCStatementResponse{}, ofxgo.InvStatementResponse{}, ofxgo.SecListResponse{}, ofxgo.SecurityList{}, ofxgo.ProfileResponse{},
		ofxgo.BuyDebt{}, ofxgo.BuyMF{}, ofxgo.BuyOpt{}, ofxgo.BuyOther{}, ofxgo.BuyStock{}, ofxgo.ClosureOpt{}, ofxgo.Income{}, ofxgo.InvExpense{}, ofxgo.JrnlFund{}, ofxgo.JrnlSec{}, ofxgo.MarginInterest{}, ofxgo.Reinvest{}, ofxgo.RetOfCap{},
		ofxgo.SellDebt{}, ofxgo.SellMF{}, ofxgo.SellOpt{}, ofxgo.SellOther{}, ofxgo.SellStock{}, ofxgo.Split{}, ofxgo.Transfer{},
		ofxgo.DebtPosition{}, ofxgo.MFPosition{}, ofxgo.OptPosition{}, ofxgo.OtherPosition{}, ofxgo.StockPosition{},
		ofxgo.OOBuyDebt{}, ofxgo.OOBuyMF{}, ofxgo.OOBuyOpt{}, ofxgo.OOBuyOther{}, ofxgo.OOBuyStock{}, ofxgo.OOSellDebt{}, ofxgo.OOSellMF{}, ofxgo.OOSellOpt{}, ofxgo.OOSellOther{}, ofxgo.OOSellStock{}, ofxgo.OOSwitchMF{},
		ofxgo.DebtInfo{}, ofxgo.MFInfo{}, ofxgo.OptInfo{}, ofxgo.OtherInfo{}, ofxgo.StockInfo{},
	} {
		t := reflect.TypeOf(x)
		goTypes[t.Name()] = t
	}
}

// fill sets a Go struct to a value, leaving out what is absent.
func fill(v reflect.Value, a *Agg) {
	if a.S.Name == "MessageSet" {
		v.FieldByName("Name").SetString(a.Tag)
	}
	for _, f := range a.S.Fields {
		n := a.F[f.Go]
		if n == nil {
			continue
		}
		fv := v.FieldByName(f.Go)
		switch {
		case f.Kind == "poly":
			for _, it := range n.List {
				x := reflect.New(goTypes[it.Agg.S.Name]).Elem()
				fill(x, it.Agg)
				fv.Set(reflect.Append(fv, x))
			}
		case f.Slice || f.Kind == "inline" || f.Kind == "msgsets":
			for _, it := range n.List {
				x := reflect.New(fv.Type().Elem()).Elem()
				fillItem(x, it)
				fv.Set(reflect.Append(fv, x))
			}
		case f.Ptr:
			x := reflect.New(fv.Type().Elem())
			fillItem(x.Elem(), n)
			fv.Set(x)
		default:
			fillItem(fv, n)
		}
	}
}

func fillItem(v reflect.Value, n *Node) {
	if n.Leaf != nil {
		fillLeaf(v, n.Leaf)
	} else {
		fill(v, n.Agg)
	}
}

func fillLeaf(v reflect.Value, l *Leaf) {
	switch x := v.Addr().Interface().(type) {
	case *ofxgo.Amount:
		x.Rat.Set(l.Rat)
	case *ofxgo.Date:
		x.Time = l.Time
	case *ofxgo.Boolean:
		*x = ofxgo.Boolean(l.Bool)
	case *ofxgo.Int:
		*x = ofxgo.Int(l.Int)
	case *ofxgo.String:
		*x = ofxgo.String(l.S)
	case *ofxgo.UID:
		*x = ofxgo.UID(l.S)
	case *ofxgo.CurrSymbol:
		c, err := ofxgo.NewCurrSymbol(l.S)
		if err != nil {
			panic(fmt.Sprintf("NewCurrSymbol(%q): %v", l.S, err))
		}
		*x = *c
	case interface{ FromString(string) error }:
		if err := x.FromString(l.S); err != nil {
			panic(fmt.Sprintf("%s FromString(%q): %v", l.Enum, l.S, err))
		}
	default:
		panic("fillLeaf " + v.Type().String())
	}
}

// versionOf makes an OFX version, whose type isn't exported.
func setVersion(v interface{ FromString(string) error }, s string) {
	if err := v.FromString(s); err != nil {
		panic(err)
	}
}

func newMessage(a *Agg) ofxgo.Message {
	x := reflect.New(goTypes[a.S.Name])
	fill(x.Elem(), a)
	return x.Interface().(ofxgo.Message)
}

// goResponse builds the Response a document says.
func (d *Doc) goResponse() *ofxgo.Response {
	r := &ofxgo.Response{}
	setVersion(&r.Version, d.Version)
	fill(reflect.ValueOf(&r.Signon).Elem(), d.Signon)
	d.fillSets(reflect.ValueOf(r).Elem())
	return r
}

// goRequest builds the Request a document says.
func (d *Doc) goRequest() *ofxgo.Request {
	r := &ofxgo.Request{}
	setVersion(&r.Version, d.Version)
	fill(reflect.ValueOf(&r.Signon).Elem(), d.Signon)
	d.fillSets(reflect.ValueOf(r).Elem())
	return r
}

func (d *Doc) fillSets(rv reflect.Value) {
	for _, s := range d.Sets {
		fv := rv.FieldByName(s.Set.Field)
		for _, m := range s.Msgs {
			fv.Set(reflect.Append(fv, reflect.ValueOf(newMessage(m))))
		}
	}
}

// sortSets puts message sets in the order they have to be written in.
func (d *Doc) sortSets(order []*SetDef) {
	var out []*DocSet
	for _, s := range order {
		for _, ds := range d.Sets {
			if ds.Set == s {
				out = append(out, ds)
			}
		}
	}
	d.Sets = out
}

// clone copies a value.
func (a *Agg) clone() *Agg {
	b := &Agg{S: a.S, Tag: a.Tag, F: map[string]*Node{}}
	m := map[*Agg]*Agg{}
	for k, n := range a.F {
		b.F[k] = n.clone(m)
	}
	for _, o := range a.Order {
		b.Order = append(b.Order, m[o])
	}
	return b
}

func (n *Node) clone(m map[*Agg]*Agg) *Node {
	c := &Node{}
	if n.Leaf != nil {
		l := *n.Leaf
		if l.Rat != nil {
			l.Rat = new(big.Rat).Set(l.Rat)
		}
		c.Leaf = &l
	}
	if n.Agg != nil {
		c.Agg = n.Agg.clone()
		m[n.Agg] = c.Agg
	}
	if n.List != nil {
		c.List = []*Node{}
		for _, x := range n.List {
			c.List = append(c.List, x.clone(m))
		}
	}
	return c
}

func strLeaf(s string) *Node { return &Node{Leaf: &Leaf{Kind: "string", Text: s, S: s}} }
func uidLeaf(s string) *Node { return &Node{Leaf: &Leaf{Kind: "uid", Text: s, S: s}} }
func boolLeaf(b bool) *Node {
	t := "N"
	if b {
		t = "Y"
	}
	return &Node{Leaf: &Leaf{Kind: "boolean", Text: t, Bool: b}}
}
func intLeaf(i int64) *Node { return &Node{Leaf: &Leaf{Kind: "int", Text: fmt.Sprint(i), Int: i}} }
func enumLeaf(e, s string) *Node {
	return &Node{Leaf: &Leaf{Kind: "enum", Enum: e, Text: s, S: s}}
}
func amountLeaf(s string) *Node {
	r, ok := parseAmount(s)
	if !ok {
		panic(s)
	}
	return &Node{Leaf: &Leaf{Kind: "amount", Text: s, Rat: r}}
}
func currLeaf(s string) *Node { return &Node{Leaf: &Leaf{Kind: "currsymbol", Text: s, S: s}} }
func dateLeaf(t time.Time) *Node {
	return &Node{Leaf: &Leaf{Kind: "date", Text: t.UTC().Format("20060102150405.000"), Time: t.UTC(), Zone: "GMT"}}
}

var _ = strings.TrimSpace
