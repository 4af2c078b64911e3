package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/bits"
	oldrand "math/rand"
	"math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
)

// One enumeration, behind functions which don't mention its type.
type enumOps struct {
	def    *EnumDef
	consts []uint64
	make   func(s string) (uint64, error)
	from   func(old uint64, s string) (uint64, error)
	decode func(old uint64, s string) (uint64, error)
	str    func(v uint64) string
	valid  func(v uint64) bool
	encode func(v uint64) (string, error)
}

var enumOpsList []*enumOps

type enumValue interface {
	~uint
	String() string
	Valid() bool
}

type enumPtr[E any] interface {
	*E
	FromString(string) error
}

func enum[E enumValue, P enumPtr[E]](name string, ctor func(string) (E, error), consts ...E) {
	o := &enumOps{def: enums[name]}
	if o.def == nil {
		panic("enum " + name)
	}
	for _, c := range consts {
		o.consts = append(o.consts, uint64(c))
	}
	o.make = func(s string) (uint64, error) { v, err := ctor(s); return uint64(v), err }
	o.from = func(old uint64, s string) (uint64, error) {
		v := E(old)
		err := P(&v).FromString(s)
		return uint64(v), err
	}
	o.decode = func(old uint64, s string) (uint64, error) {
		v := E(old)
		err := unmarshal(s, &v)
		return uint64(v), err
	}
	o.str = func(v uint64) string { return E(v).String() }
	o.valid = func(v uint64) bool { return E(v).Valid() }
	o.encode = func(v uint64) (string, error) { return marshal(E(v)) }
	enumOpsList = append(enumOpsList, o)
}

func init() {
	register(&Check{ID: "C15", Quick: 20, Min: 300,
		Rule: "every value of every enumeration against the frozen table of texts and exported constants, through every way to make, print, decode and encode it; and random texts and numbers which aren't values; non-trivial: a distinct (enumeration, text or number)",
		Run: func(c *C) {
			c.Cases("values", len(enumList), func(t *T) { c15(t, enumOpsFor(t.Idx)) })
			c.Cases("others", c.N(60000, 3000000), func(t *T) { c15other(t, enumOpsFor(t.R.IntN(len(enumList)))) })
		}})
	register(&Check{ID: "C16", Min: 90,
		Rule: "every number from -20000 to 70000, the neighbourhoods of powers of two and random ones as status codes, with every severity, through all of the status methods, against the frozen table of the specification's codes; non-trivial: a distinct known code with each severity",
		Run: func(c *C) {
			c.Cases("range", 90, func(t *T) {
				for i := int64(0); i < 1000; i++ {
					c16(t, int64(t.Idx)*1000-20000+i)
				}
			})
			c.Cases("others", c.N(20000, 1000000), func(t *T) {
				if n, ok := dictInt(t.R, .1, -1<<63, 1<<63-1); ok {
					c16(t, n)
					return
				}
				switch t.R.IntN(3) {
				case 0:
					c16(t, int64(t.R.Uint64()))
				case 1:
					c16(t, int64(1)<<t.R.IntN(64)+int64(t.R.IntN(5))-2)
				case 2: // congruent to a code
					c16(t, pick(t.R, statusList).Code+int64(1)<<pick(t.R, []int{8, 16, 31, 32, 48}))
				}
			})
			c.Cases("document", c.N(3000, 100000), c16doc)
		}})
	register(&Check{ID: "C17", Quick: 1, Min: 5000,
		Rule: "UIDs drawn by several goroutines at once: each is checked for its form, all of them for being pairwise distinct, every bit for being unbiased (a deviation of over 8 standard deviations is a violation), and digits and bytes, within a UID and across two or three drawn one after another, for a million relations (joint values, equality, differences, sums, linear dependence) which chance would produce with a probability below 1e-20; non-trivial: a distinct UID",
		Run:  c17})
}

func enumOpsFor(i int) *enumOps { return enumOpsList[i] }

func c15(t *T, o *enumOps) {
	d := o.def
	if len(o.consts) != len(d.Values) {
		t.Violate("table", "%s: %d constants, %d texts", d.Name, len(o.consts), len(d.Values))
		return
	}
	seen := map[uint64]string{}
	for i, s := range d.Values {
		want := o.consts[i]
		bad := func(how string, got interface{}, err error) {
			t.Violate(d.Name+" "+s, "%s %s (constant %s, %d): %s is %v (%v)", d.Name, s, d.Consts[i], want, how, got, err)
		}
		if p, dup := seen[want]; dup || want == 0 {
			bad("constant of "+p+", too:", want, nil)
			return
		}
		seen[want] = s
		if v, err := o.make(s); err != nil || v != want {
			bad(d.Ctor, v, err)
		}
		for _, old := range []uint64{0, o.consts[0], o.consts[len(o.consts)-1], 99} {
			for _, p := range pads {
				if v, err := o.from(old, p+s+p); err != nil || v != want {
					bad("FromString", v, err)
				}
				if v, err := o.decode(old, p+s+p); err != nil || v != want {
					bad("the decoded value", v, err)
				}
				if v, err := o.make(p + s); err != nil || v != want {
					bad(d.Ctor, v, err)
				}
			}
		}
		if x := o.str(want); x != s {
			bad("String", x, nil)
		}
		if !o.valid(want) {
			bad("Valid", false, nil)
		}
		if x, err := o.encode(want); err != nil || x != s {
			bad("the encoded text", x, err)
		}
		t.Distinct("case", d.Name, s)
		t.Count("values", 1)
	}
	t.Sample("%s: %v", d.Name, d.Values)
	// everything one edit away from a value
	try := func(s string) {
		if knownValue(d.Name, strings.TrimSpace(s)) {
			return
		}
		if v, err := o.make(s); err == nil || v != 0 {
			t.Violate(d.Name+" text", "%s(%q) is %d (%v), but there is no such value", d.Ctor, s, v, err)
		}
		t.Count("texts without value", 1)
	}
	for k, s := range d.Values {
		if len(d.Values) > 60 && !t.Thorough() && (k*7+int(t.Seed))%8 != 0 {
			continue
		}
		for i := 0; i <= len(s); i++ {
			for c := byte(' '); c < 127; c++ {
				try(s[:i] + string(rune(c)) + s[i:])
				if i < len(s) {
					try(s[:i] + string(rune(c)) + s[i+1:])
				}
			}
			if i < len(s) {
				try(s[:i] + s[i+1:])
			}
			if i+1 < len(s) {
				try(s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:])
			}
			for j := i; j <= len(s); j++ {
				for _, q := range []string{"()", "[]", "{}", "<>", `""`, "''", "  ", "--", "__", "//", "**"} {
					try(s[:i] + q[:1] + s[i:j] + q[1:] + s[j:])
				}
				try(s[:i] + s[j:])
				try(s[:j] + s[i:])
				try(s[:i] + strings.ToLower(s[i:j]) + s[j:])
				try(s[:i])
				try(s[j:])
				try(s[i:j])
			}
		}
	}
	// numbers which aren't values
	for v := uint64(0); v < 300; v++ {
		if _, known := seen[v]; known {
			continue
		}
		c15number(t, o, v)
	}
}

func c15number(t *T, o *enumOps, v uint64) {
	if o.valid(v) {
		t.Violate(o.def.Name+" number", "%s(%d): Valid, but there is no such value", o.def.Name, v)
	}
	s := o.str(v)
	if knownValue(o.def.Name, s) {
		t.Violate(o.def.Name+" number", "%s(%d): String is %q, but that is another value's", o.def.Name, v, s)
	}
	if x, err := o.encode(v); err == nil && x != "" {
		t.Violate(o.def.Name+" number", "%s(%d): encoded as %q, but there is no such value", o.def.Name, v, x)
	}
	t.Count("numbers without value", 1)
	t.Distinct("case", o.def.Name, fmt.Sprint(v))
}

func c15other(t *T, o *enumOps) {
	r := t.R
	d := o.def
	if r.IntN(4) == 0 {
		v := r.Uint64() >> r.IntN(60)
		if n, ok := dictInt(r, .1, 0, 1<<62); ok {
			v = uint64(n)
		}
		for _, c := range o.consts {
			if c == v {
				return
			}
		}
		c15number(t, o, v)
		return
	}
	s := nearMiss(r, d)
	if knownValue(d.Name, strings.TrimSpace(s)) {
		return
	}
	old := o.consts[r.IntN(len(o.consts))]
	if v, err := o.make(s); err == nil || v != 0 {
		t.Violate(d.Name+" text", "%s(%q) is %d (%v), but there is no such value", d.Ctor, s, v, err)
	}
	if v, err := o.from(old, s); err == nil || v != 0 {
		t.Violate(d.Name+" text", "%s FromString(%q) is %d (%v), but there is no such value", d.Name, s, v, err)
	}
	if v, err := o.decode(old, s); err == nil {
		t.Violate(d.Name+" text", "%s %q is decoded as %d, but there is no such value", d.Name, s, v)
	}
	t.Count("texts without value", 1)
	t.Distinct("case", d.Name, s)
}

func nearMiss(r *rand.Rand, d *EnumDef) string {
	v := pick(r, d.Values)
	if s, ok := dictText(r, .1); ok {
		return s
	}
	switch r.IntN(11) {
	case 9, 10:
		return garble(r, v)
	case 0:
		return v[:r.IntN(len(v))]
	case 1:
		return v[r.IntN(len(v)):]
	case 2:
		i := r.IntN(len(v) + 1)
		return v[:i] + pick(r, []string{" ", "X", "-", "_", "0", "é"}) + v[i:]
	case 3:
		return strings.ToLower(v)
	case 4:
		i := r.IntN(len(v))
		return v[:i] + string(rune('A'+r.IntN(26))) + v[i+1:]
	case 5:
		o := pick(r, enumList)
		return pick(r, o.Values)
	case 6:
		return v + pick(r, d.Values)
	case 7:
		b := []byte(v)
		i, j := r.IntN(len(b)), r.IntN(len(b))
		b[i], b[j] = b[j], b[i]
		return string(b)
	}
	return fmt.Sprint(r.IntN(100))
}

func c16(t *T, code int64) {
	d, known := statusCodes[code]
	for _, sev := range []string{"INFO", "WARN", "ERROR", "", "info", "FATAL", "ERR", "INFO "} {
		s := ofxgo.Status{Code: ofxgo.Int(code), Severity: ofxgo.String(sev), Message: "m"}
		ok, err := s.Valid()
		if ok != (known && d.Severity == sev) || ok != (err == nil) {
			t.Violate(fmt.Sprint("valid ", code), "Status %d %q: Valid is %v (%v), the specification's severity is %q", code, sev, ok, err, d.Severity)
			return
		}
		m, err := s.CodeMeaning()
		if (err == nil) != known || known && m != d.Meaning || !known && m != "" {
			t.Violate(fmt.Sprint("meaning ", code), "Status %d: CodeMeaning is %q (%v) instead of %q", code, m, err, d.Meaning)
			return
		}
		x, err := s.CodeConditions()
		if (err == nil) != known || known && x != d.Conditions || !known && x != "" {
			t.Violate(fmt.Sprint("conditions ", code), "Status %d: CodeConditions is %q (%v) instead of %q", code, x, err, d.Conditions)
			return
		}
		if s.Code != ofxgo.Int(code) || string(s.Severity) != sev || s.Message != "m" {
			t.Violate("changed", "the status methods changed Status %d", code)
		}
		if known {
			t.Distinct("case", fmt.Sprint(code), sev)
			t.Count("known codes judged", 1)
		} else {
			t.Count("unknown codes judged", 1)
		}
	}
	if known {
		t.Sample("%d %s: %s", code, d.Severity, d.Meaning)
	}
}

// c16doc: the codes of statuses in documents are the ones which are judged.
func c16doc(t *T) {
	g := newG(t.R)
	g.Plain = true
	g.budget = 20
	d := g.response()
	var sts []*Agg
	for _, a := range d.all() {
		a.walk(func(x *Agg) {
			if x.S.Name == "Status" {
				sts = append(sts, x)
			}
		})
	}
	for _, s := range sts {
		def := pick(t.R, statusList)
		s.F["Code"] = intLeaf(def.Code)
		s.F["Severity"] = strLeaf(def.Severity)
	}
	// the signon's own may be wrong
	sev := statusCodes[d.Signon.sub("Status").F["Code"].Leaf.Int].Severity
	wrong := t.R.IntN(2) == 0
	if wrong {
		right := sev
		for sev == right {
			sev = pick(t.R, []string{"INFO", "WARN", "ERROR", "FATAL", "info", "Error", "ODD", "W"})
		}
		d.Signon.sub("Status").F["Severity"] = strLeaf(sev)
	}
	sp := canonical(t.R)
	text := sp.doc(d.Version, d.tree("RS", false))
	t.File("document.ofx", text)
	r, err := decode(text)
	if err != nil {
		t.Violate("decode error", "%v\n%s", err, clip(text, 2000))
		return
	}
	want := statusCodes[d.Signon.sub("Status").F["Code"].Leaf.Int]
	m, err := r.Signon.Status.CodeMeaning()
	c, err2 := r.Signon.Status.CodeConditions()
	ok, err3 := r.Signon.Status.Valid()
	if err != nil || err2 != nil || ok == wrong || wrong != (err3 != nil) || m != want.Meaning || c != want.Conditions {
		t.Violate("signon status", "signon status %d: %q %q %v (%v %v %v)", want.Code, m, c, ok, err, err2, err3)
	}
	if wrong {
		if ok, err := r.Signon.Valid(r.Version); ok || err == nil {
			t.Violate("signon valid", "a signon with status %d %s is valid", want.Code, sev)
		}
		if ok, err := r.Valid(); ok || err == nil {
			t.Violate("response valid", "a response with signon status %d %s is valid", want.Code, sev)
		}
		t.Count("wrong severities in documents", 1)
	}
	t.Count("statuses of documents", 1)
}

func c17(c *C) {
	const per = 500
	n := c.N(40, 4000)
	var mu sync.Mutex
	seen := map[string]bool{}
	var ones [128]int64
	var same [128][128]int64 // how often two bits of a UID were equal
	var next [128][128]int64 // and bits of one UID and the one drawn after it
	var bytesAt [16][256]int64
	pairs := newUIDPairs()
	total := int64(0)
	c.Cases("draw", n, func(t *T) {
		us := make([]string, 0, per)
		for i := 0; i < per; i++ {
			u, err := ofxgo.RandomUID()
			if err != nil || u == nil {
				t.Violate("error", "RandomUID: %v", err)
				return
			}
			s := string(*u)
			if ok, err := u.Valid(); !ok || err != nil {
				t.Violate("form", "RandomUID returned the invalid UID %q: %v", s, err)
				return
			}
			if ok, err := u.RecommendedFormat(); !ok || err != nil {
				t.Violate("form", "RandomUID returned %q, which isn't in the recommended format: %v", s, err)
				return
			}
			us = append(us, s)
		}
		mu.Lock()
		defer mu.Unlock()
		var prev [128]byte
		pairs.add(us)
		for k, s := range us {
			if seen[s] {
				t.Violate("repeated", "RandomUID returned %q twice within %d draws", s, len(seen))
				return
			}
			seen[s] = true
			h := strings.ReplaceAll(s, "-", "")
			if len(h) != 32 || strings.Trim(h, "0123456789abcdefABCDEF") != "" {
				t.Violate("form", "RandomUID returned %q", s)
				return
			}
			for i, b := range uidBytes(s) {
				bytesAt[i][b]++
			}
			var bits [128]byte
			for i := 0; i < 32; i++ {
				v := strings.IndexByte("0123456789abcdef", h[i]|0x20)
				if h[i] <= '9' {
					v = int(h[i] - '0')
				}
				for b := 0; b < 4; b++ {
					if v>>b&1 == 1 {
						ones[i*4+b]++
						bits[i*4+b] = 1
					}
				}
			}
			for i, a := range bits {
				for j, b := range bits {
					same[i][j] += int64(1 ^ a ^ b)
					if k > 0 {
						next[i][j] += int64(1 ^ prev[i] ^ b)
					}
				}
			}
			prev = bits
			total++
			t.Distinct("case", s)
		}
		t.Count("UIDs drawn", int64(len(us)))
		t.Sample("%s", us[0])
	})
	if c.replay != nil {
		return
	}
	c.Serial("bias", 1, func(t *T) {
		biased := 0
		for i, k := range ones {
			dev := 2*k - total // standard deviation sqrt(total)
			if dev*dev > 64*total {
				// the digits which RFC 4122 fixes may be constant
				if i/4 == 12 || i/4 == 16 {
					continue
				}
				biased++
			}
		}
		if biased > 0 {
			t.Violate("biased", "%d of the bits of %d random UIDs are biased", biased, total)
		}
		t.Count("bits tested for bias", 128)
		// All values of a byte are equally frequent
		var pooled [256]int64
		odd, where := 0, ""
		judge := func(k, of int64, name string) {
			mean := float64(of) / 256
			if z := (float64(k) - mean) / math.Sqrt(mean); math.Abs(z) > 8 && (z < 0 || z > 12 || mean > 1000) {
				odd++
				where = fmt.Sprintf("%s: %d times in %d", name, k, of)
			}
		}
		for i := range bytesAt {
			if i == 6 || i == 8 {
				continue // may hold RFC 4122's fixed digits
			}
			for v, k := range bytesAt[i] {
				pooled[v] += k
				judge(k, total, fmt.Sprintf("%02x as byte %d", v, i))
			}
		}
		for v, k := range pooled {
			judge(k, 14*total, fmt.Sprintf("%02x", v))
		}
		if odd > 0 {
			t.Violate("bytes", "%d byte values are too rare or too frequent in %d random UIDs, e.g. %s", odd, total, where)
		}
		t.Count("byte values tested for bias", 15*256)
		pairs.judge(t)
		related, pairs := 0, int64(0)
		for i := range ones {
			for j := range ones {
				if i/4 == 12 || i/4 == 16 || j/4 == 12 || j/4 == 16 {
					continue
				}
				if i < j {
					pairs++
					if dev := 2*same[i][j] - total; dev*dev > 81*total {
						related++
					}
				}
				pairs++
				after := total - int64(n) // each case's first has no UID before it
				if dev := 2*next[i][j] - after; dev*dev > 81*after {
					related++
				}
			}
		}
		if related > 0 {
			t.Violate("dependent", "%d pairs of bits of %d random UIDs, or of UIDs drawn one after the other, depend on each other", related, total)
		}
		t.Count("pairs of bits tested for independence", pairs)
	})
	c.Serial("predictable", c.N(2, 10), c17predict)
	c.Serial("processes", c.N(2, 20), c17processes)
}

// uidPairs counts how the bytes of UIDs, and of UIDs drawn one after another,
// relate to each other. Every count is one of independent events of a known
// probability if the bytes are random.
type uidPairs struct {
	n, after int64
	// of two bytes, which may belong to UIDs up to two draws apart: being
	// equal, and the nibbles' joint values
	equal   [3][16][16]int64
	nibbles [2][32][32][256]int64
	// of all differences, sums and exclusive ors of two bytes of a UID
	sub, add2, xor [16][16][256]int64
	// of how many different bytes and digits there are in a UID
	distinct [17]int64
	sums     [3][16]int64
	// bits as vectors over GF(2), in groups of UIDs drawn one after another
	basis [4]*gf2
}

// gf2 is the space of the bit vectors seen.
type gf2 struct {
	rows [513]*[9]uint64 // by their lowest bit
	rank int
	n    int
}

func (g *gf2) add(v [9]uint64) {
	g.n++
	for {
		lead := -1
		for w := range v {
			if v[w] != 0 {
				lead = w*64 + bits.TrailingZeros64(v[w])
				break
			}
		}
		if lead < 0 {
			return
		}
		b := g.rows[lead]
		if b == nil {
			g.rows[lead] = &v
			g.rank++
			return
		}
		for w := range v {
			v[w] ^= b[w]
		}
	}
}

func newUIDPairs() *uidPairs {
	p := &uidPairs{}
	for i := range p.basis {
		p.basis[i] = &gf2{}
	}
	return p
}

// fixedByte tells whether a byte may hold digits which RFC 4122 fixes.
func fixedByte(i int) bool { return i == 6 || i == 8 }

func (p *uidPairs) add(us []string) {
	bs := make([][]byte, len(us))
	for k, u := range us {
		if bs[k] = uidBytes(u); len(bs[k]) != 16 {
			return // reported elsewhere
		}
	}
	nib := func(b []byte, i int) int {
		if i%2 == 0 {
			return int(b[i/2] >> 4)
		}
		return int(b[i/2] & 15)
	}
	for k, b := range bs {
		p.n++
		for d := 0; d < 3 && d <= k; d++ {
			o := bs[k-d]
			for i := range b {
				for j := range b {
					if o[i] == b[j] {
						p.equal[d][i][j]++
					}
				}
			}
		}
		for d := 0; d < 2 && d <= k; d++ {
			o := bs[k-d]
			for i := 0; i < 32; i++ {
				for j := 0; j < 32; j++ {
					p.nibbles[d][i][j][nib(o, i)<<4|nib(b, j)]++
				}
			}
		}
		if k > 0 {
			p.after++
		}
		seen := map[byte]bool{}
		sum, x, digits := 0, byte(0), 0
		for i := range b {
			if fixedByte(i) {
				continue
			}
			seen[b[i]] = true
			sum += int(b[i])
			x ^= b[i]
			digits += int(b[i]>>4) + int(b[i]&15)
			for j := range b {
				p.sub[i][j][b[i]-b[j]]++
				p.add2[i][j][b[i]+b[j]]++
				p.xor[i][j][b[i]^b[j]]++
			}
		}
		p.distinct[len(seen)]++
		p.sums[0][sum%16]++
		p.sums[1][x%16]++
		p.sums[2][digits%16]++
		for g := range p.basis {
			// g+1 UIDs, and the constant
			if k < g || k%(g+1) != g || p.basis[g].n > 2000 {
				continue
			}
			v := [9]uint64{}
			for d := 0; d <= g; d++ {
				o := bs[k-d]
				v[2*d] = binary.LittleEndian.Uint64(o)
				v[2*d+1] = binary.LittleEndian.Uint64(o[8:])
			}
			v[8] = 1
			p.basis[g].add(v)
		}
	}
}

// unlikely tells whether k of n independent events of probability q is beyond
// what chance produces even in billions of tries: Chernoff's bound on the
// probability is below 1e-20.
func unlikely(k, n int64, q float64) bool {
	if n == 0 {
		return false
	}
	f := float64(k) / float64(n)
	kl := 0.0
	if f > 0 {
		kl += f * math.Log(f/q)
	}
	if f < 1 {
		kl += (1 - f) * math.Log((1-f)/(1-q))
	}
	return kl*float64(n) > 46
}

func (p *uidPairs) judge(t *T) {
	odd, tests, where := 0, int64(0), ""
	judge := func(k, n int64, q float64, f string, a ...interface{}) {
		tests++
		if unlikely(k, n, q) {
			odd++
			where = fmt.Sprintf(f, a...) + fmt.Sprintf(": %d times in %d", k, n)
		}
	}
	gap := []int64{p.n, p.after, p.after - (p.n - p.after)}
	for d := range p.equal {
		for i := 0; i < 16; i++ {
			for j := 0; j < 16; j++ {
				if fixedByte(i) || fixedByte(j) || d == 0 && i == j {
					continue
				}
				judge(p.equal[d][i][j], gap[d], 1./256, "byte %d equal to byte %d of the UID %d draws before", j, i, d)
			}
		}
	}
	for d := range p.nibbles {
		for i := 0; i < 32; i++ {
			for j := 0; j < 32; j++ {
				if fixedByte(i/2) && i%2 == 0 || fixedByte(j/2) && j%2 == 0 || d == 0 && i == j {
					continue
				}
				for v, k := range p.nibbles[d][i][j] {
					judge(k, gap[d], 1./256, "digit %d %x and digit %d of the UID %d draws before %x", j, v&15, i, d, v>>4)
				}
			}
		}
	}
	for i := 0; i < 16; i++ {
		for j := 0; j < 16; j++ {
			if fixedByte(i) || fixedByte(j) || i == j {
				continue
			}
			for v := 0; v < 256; v++ {
				judge(p.sub[i][j][v], p.n, 1./256, "difference of bytes %d and %d being %d", i, j, v)
				judge(p.add2[i][j][v], p.n, 1./256, "sum of bytes %d and %d being %d", i, j, v)
				judge(p.xor[i][j][v], p.n, 1./256, "exclusive or of bytes %d and %d being %d", i, j, v)
			}
		}
	}
	// how many different ones 14 random bytes have
	q := make([]float64, 16)
	q[0] = 1
	for i := 0; i < 14; i++ {
		for k := 15; k >= 0; k-- {
			x := q[k] * float64(k) / 256
			if k > 0 {
				x += q[k-1] * float64(256-(k-1)) / 256
			}
			q[k] = x
		}
	}
	for k := 1; k <= 14; k++ {
		judge(p.distinct[k], p.n, q[k], "%d different bytes", k)
	}
	for v := range p.sums[0] {
		judge(p.sums[0][v], p.n, 1./16, "sum of the bytes modulo 16 being %d", v)
		judge(p.sums[1][v], p.n, 1./16, "exclusive or of the bytes modulo 16 being %d", v)
		// (the sum of 28 random digits, each equally likely)
		judge(p.sums[2][v], p.n, 1./16, "sum of the digits modulo 16 being %d", v)
	}
	if odd > 0 {
		t.Violate("related", "%d relations within random UIDs are too rare or too frequent, e.g. %s", odd, where)
	}
	t.Count("relations of bytes tested", tests)
	for g, b := range p.basis {
		// RFC 4122 fixes 6 bits of each
		if want := 128*(g+1) + 1 - 6*(g+1); b.n > want+200 && b.rank < want {
			t.Violate("linear", "the bits of %d UIDs drawn one after another span %d dimensions only, in %d draws", g+1, b.rank, b.n)
		}
		t.Count("vectors tested for linear relations", int64(b.n))
	}
}

// uidBytes are the 16 bytes of a well-formed UID.
func uidBytes(s string) []byte {
	b, _ := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
	return b
}

// c17predict tries to predict UIDs from the ones drawn before and from the
// time, in the ways which the generator of math/rand allows.
func c17predict(t *T) {
	type draw struct {
		b        []byte
		from, to time.Time
	}
	var stream []byte
	var draws []draw
	for i := 0; i < 900; i++ {
		from := time.Now()
		u, err := ofxgo.RandomUID()
		to := time.Now()
		if err != nil {
			t.Violate("error", "RandomUID: %v", err)
			return
		}
		b := uidBytes(string(*u))
		if len(b) != 16 {
			t.Violate("form", "RandomUID returned %q", *u)
			return
		}
		stream = append(stream, b...)
		draws = append(draws, draw{b, from, to})
	}
	t.Distinct("case", fmt.Sprintf("%x", stream[:16]))
	// An additive lagged Fibonacci generator's numbers are the sums of the
	// ones 607 and 273 before them (plus a carry if their low bits are cut)
	for _, size := range []int{1, 2, 4, 7, 8} {
		for _, big := range []bool{false, true} {
			for at := 0; at < size; at++ {
				var x []uint64
				for i := at; i+size <= len(stream); i += size {
					var v uint64
					for k := 0; k < size; k++ {
						if big {
							v = v<<8 | uint64(stream[i+k])
						} else {
							v |= uint64(stream[i+k]) << (8 * k)
						}
					}
					x = append(x, v)
				}
				mask := ^uint64(0) >> (64 - 8*size)
				hits, of := 0, 0
				for i := 607; i < len(x); i++ {
					of++
					if d := (x[i] - x[i-607] - x[i-273]) & mask; d <= 1 {
						hits++
					}
				}
				t.Count("numbers predicted from former ones, to compare", int64(of))
				if hits > 20 && hits*3 > of {
					t.Violate("predictable", "%d of %d numbers within random UIDs are what the generator of math/rand makes of the numbers before them", hits, of)
					return
				}
			}
		}
	}
	// Generators may be seeded with the time of the call
	for i := 0; i < 12; i++ {
		d := draws[len(draws)-1-i*7]
		seeds := map[int64]bool{d.from.Unix(): true, d.to.Unix(): true, d.from.UnixMilli(): true, d.to.UnixMilli(): true}
		for us := d.from.UnixMicro(); us <= d.to.UnixMicro() && len(seeds) < 200; us++ {
			seeds[us] = true
		}
		for ns := d.from.UnixNano(); ns <= d.to.UnixNano() && len(seeds) < 3000; ns++ {
			seeds[ns] = true
		}
		for seed := range seeds {
			g := oldrand.New(oldrand.NewSource(seed))
			b := make([]byte, 16)
			g.Read(b)
			same := 0
			for k := range b {
				if b[k] == d.b[k] {
					same++
				}
			}
			if same >= 12 {
				t.Violate("predictable", "a random UID is what the generator of math/rand makes of the time as its seed")
				return
			}
		}
		t.Count("seeds tried", int64(len(seeds)))
	}
}

// c17processes starts processes at the same time which draw UIDs.
func c17processes(t *T) {
	const n = 8
	var mu sync.Mutex
	seen := map[string]int{}
	var wg sync.WaitGroup
	for p := 0; p < n; p++ {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "c17cold", "50")
			// what modules for older versions of Go get
			cmd.Env = append(os.Environ(), "GODEBUG=randautoseed=0")
			if p%2 == 0 {
				cmd.Env = os.Environ()
			}
			out, err := cmd.Output()
			us := strings.Fields(string(out))
			mu.Lock()
			defer mu.Unlock()
			if err != nil || len(us) != 50 {
				t.Violate("error", "drawing UIDs in a process of its own: %v %q", err, clip(string(out), 300))
				return
			}
			for _, u := range us {
				if q, ok := seen[u]; ok && q != p {
					t.Violate("repeated by processes", "two processes drew the UID %s", u)
					return
				}
				seen[u] = p
			}
			t.Count("UIDs drawn by processes", int64(len(us)))
			t.Distinct("case", us[0])
		}()
	}
	wg.Wait()
}

// c17cold is a process which draws UIDs.
func c17cold(arg string) {
	n, _ := strconv.Atoi(arg)
	for i := 0; i < n; i++ {
		u, err := ofxgo.RandomUID()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fmt.Println(*u)
	}
}
