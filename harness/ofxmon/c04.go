package main

import (
	"compress/gzip"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing/iotest"

	"github.com/aclindsa/ofxgo"
)

// C04: parsing is total; C05: incomplete input is never accepted.

// readErrors are the ways in which reading responses fails, other than by
// their end.
var readErrors = []error{
	errors.New("injected read error"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	io.ErrShortBuffer,
	os.ErrDeadlineExceeded,
	os.ErrClosed,
	net.ErrClosed,
	context.Canceled,
	context.DeadlineExceeded,
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.EAGAIN},
	&os.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	syscall.EINTR,
	fmt.Errorf("wrapped: %w", io.EOF),
	fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF),
	temporary{},
	errors.New("EOF"),
	errors.New("unexpected EOF"),
	http.ErrBodyReadAfterClose,
	gzip.ErrChecksum,
	tls.AlertError(20),
	strconv.ErrRange,
	errStalled,
}

// errStalled stands for a reader which returns nothing, and no error, forever.
var errStalled = errors.New("no data and no error, forever")

// temporary is an error of which callers may believe that it passes.
type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

// A broken reader fails after b, and forever.
type broken struct {
	b     []byte
	n     func() int
	err   error
	with  bool // the last piece comes with the error
	fails int  // reads since the failure
}

func (c *broken) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		c.fails++
		if c.fails > 100000 {
			panic("a failing reader was read again 100000 times")
		}
		if c.err == errStalled {
			return 0, nil
		}
		return 0, c.err
	}
	n := min(c.n(), len(p), len(c.b))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.with && c.err != errStalled {
		return n, c.err
	}
	return n, nil
}

var tokens = strings.Fields(`<OFX> </OFX> <SIGNONMSGSRSV1> </SIGNONMSGSRSV1> <SONRS> </SONRS> <STATUS> </STATUS> <BANKMSGSRSV1> </BANKMSGSRSV1> <STMTTRNRS> </STMTTRNRS>
<STMTRS> </STMTRS> <BANKTRANLIST> </BANKTRANLIST> <STMTTRN> </STMTTRN> <TRNAMT> </TRNAMT> <DTPOSTED> <CURRENCY> </CURRENCY> <INVSTMTMSGSRSV1> </INVSTMTMSGSRSV1> <INVTRANLIST> </INVTRANLIST>
<INVPOSLIST> </INVPOSLIST> <INVOOLIST> </INVOOLIST> <SECLIST> </SECLIST> <MSGSETLIST> </MSGSETLIST> <BUYSTOCK> </BUYSTOCK> <INVBUY> </INVBUY> <INVBANKTRAN> </INVBANKTRAN> <TRNUID> </TRNUID> <MESSAGE> </MESSAGE>
<NAME> </NAME> <MEMO> </MEMO> <PROFMSGSRSV1> <SECLISTMSGSRSV1> <X/> <X> </X> </> < > <! <!-- --> <![CDATA[ ]]> <? ?> <?xml?> <?OFX?> & &amp; &#0; &#x110000; &lt &unknown; <!DOCTYPE <OFX/> <OFX:A> <a:b/> xmlns="x" a=b ="`)

var scalarTexts = []string{"", " ", "-", "+", ".", ",", "1e999999999", "1e99999", "1/0", "0/0", "0x", "1_000", "NaN", "Inf", "99999999999999999999999999999999", "-0", "20200230", "00000000", "99999999999999.999[99:X]", "20200101[", "20200101]", "20200101[]", "20200101[:]", "20200101[-]", "20200101000000.000[-5.", "2020010100000", "Y", "N", "y", "YES", "XXX", "usd", "\x00", "\xff\xfe", "é", "\u2028", "1.2.3", "１２", "%s%n", "NULL", "-9223372036854775809", "9223372036854775808"}

// mutate damages a document.
func mutate(r *rand.Rand, s, other string) string {
	for k := 1 + r.IntN(4); k > 0; k-- {
		i := r.IntN(len(s) + 1)
		j := i + r.IntN(1+min(len(s)-i, []int{1, 5, 60, len(s)}[r.IntN(4)]))
		switch r.IntN(16) {
		case 0: // byte
			if i < len(s) {
				b := []byte(s)
				b[i] = byte(r.IntN(256))
				s = string(b)
			}
		case 1: // bit
			if i < len(s) {
				b := []byte(s)
				b[i] ^= 1 << r.IntN(8)
				s = string(b)
			}
		case 2:
			s = s[:i] + s[j:]
		case 3:
			s = s[:j] + s[i:j] + s[j:]
		case 4:
			s = s[:i]
		case 5, 6:
			s = s[:i] + tokenText(r) + s[i:]
		case 7: // replace a tag
			if a := strings.IndexByte(s[i:], '<'); a >= 0 {
				if b := strings.IndexByte(s[i+a:], '>'); b >= 0 {
					s = s[:i+a] + tokenText(r) + s[i+a+b+1:]
				}
			}
		case 8, 9, 10: // replace a leaf's text
			if a := strings.IndexByte(s[i:], '>'); a >= 0 {
				if b := strings.IndexByte(s[i+a:], '<'); b >= 0 {
					s = s[:i+a+1] + scalarText(r) + s[i+a+b:]
				}
			}
		case 11: // splice
			a := r.IntN(len(other) + 1)
			b := a + r.IntN(len(other)-a+1)
			s = s[:i] + other[a:b] + s[j:]
		case 12: // repeat
			if j-i < 200 {
				s = s[:i] + strings.Repeat(s[i:j], repeats(r)) + s[j:]
			}
		case 13: // drop a tag
			if a := strings.IndexByte(s[i:], '<'); a >= 0 {
				if b := strings.IndexByte(s[i+a:], '>'); b >= 0 {
					s = s[:i+a] + s[i+a+b+1:]
				}
			}
		case 14: // header
			if h := strings.Index(s, "<OFX>"); h > 0 {
				s = mutateHeader(r, s[:h]) + s[h:]
			}
		case 15: // bytes which aren't text
			b := make([]byte, 1+r.IntN(20))
			for n := range b {
				b[n] = byte(r.IntN(256))
			}
			s = s[:i] + string(b) + s[i:]
		}
		if len(s) > 1<<18 {
			s = s[:1<<18]
		}
	}
	return s
}

// someResponse is any response, or one which is valid before it is damaged.
func (g *G) someResponse() *Doc {
	if g.R.IntN(2) == 0 {
		return g.validResponse()
	}
	return g.response()
}

// anyNumber is a number of some magnitude.
func anyNumber(r *rand.Rand) string {
	if n, ok := dictInt(r, .1, -1<<40, 1<<40); ok {
		return fmt.Sprint(n)
	}
	var n int64
	switch r.IntN(6) {
	case 0, 1, 2:
		n = int64(r.IntN(20000))
	case 3:
		n = int64(r.IntN(100000))
	case 4:
		n = 1<<r.IntN(63) + int64(r.IntN(3)) - 1
	case 5:
		n = int64(r.Uint64() >> 1 >> r.IntN(63))
	}
	if r.IntN(8) == 0 {
		n = -n
	}
	return fmt.Sprint(n)
}

func tokenText(r *rand.Rand) string {
	if s, ok := dictText(r, .1); ok {
		if r.IntN(2) == 0 {
			return s
		}
		return "<" + s + ">"
	}
	return pick(r, tokens)
}

func scalarText(r *rand.Rand) string {
	if s, ok := dictText(r, .1); ok {
		return s
	}
	return pick(r, scalarTexts)
}

func repeats(r *rand.Rand) int {
	if n, ok := dictInt(r, .1, 1, 3000); ok {
		return int(n)
	}
	return 1 + r.IntN(50)
}

func mutateHeader(r *rand.Rand, h string) string {
	i := r.IntN(len(h) + 1)
	switch r.IntN(5) {
	case 0:
		return h[:i]
	case 1:
		return h[i:]
	case 2:
		return h[:i] + pick(r, []string{"\n", " ", "\x00", "OFXHEADER:", "OFXHEADER=", "\"", "<", "VERSION:", "999", "?>", "=", ":"}) + h[i:]
	case 3:
		return strings.Repeat(" ", r.IntN(3000)) + h
	}
	return h[:i] + h + h[i:]
}

func samplesDir() []string {
	var out []string
	for _, p := range []string{"/repo/samples/*/*"} {
		m, _ := filepath.Glob(p)
		for _, f := range m {
			if b, err := os.ReadFile(f); err == nil {
				out = append(out, string(b))
			}
		}
	}
	return out
}

// exercise uses everything a response offers.
func exercise(r *ofxgo.Response) {
	r.Valid()
	if b, err := r.Marshal(); err == nil {
		ofxgo.DecodeResponse(b)
	}
	exerciseValue(reflect.ValueOf(r).Elem(), 0)
}

func exerciseValue(v reflect.Value, depth int) {
	if depth > 40 {
		return
	}
	if v.CanInterface() && v.Kind() != reflect.Interface {
		if s, ok := addr(v).(fmt.Stringer); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
			_ = s.String()
		}
		if s, ok := addr(v).(*ofxgo.Amount); ok {
			s.Rat.Sign()
			return
		}
		if _, ok := addr(v).(*ofxgo.Date); ok {
			return
		}
		if _, ok := addr(v).(*ofxgo.CurrSymbol); ok {
			return
		}
		if s, ok := addr(v).(*ofxgo.Status); ok {
			s.CodeMeaning()
			s.CodeConditions()
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			switch x := v.Interface().(type) {
			case ofxgo.InvTransaction:
				x.TransactionType()
				x.InvTransaction()
			case ofxgo.Position:
				x.PositionType()
				x.InvPosition()
			case ofxgo.OpenOrder:
				x.OrderType()
			case ofxgo.Security:
				x.SecurityType()
				x.SecurityInfo()
			}
			exerciseValue(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				exerciseValue(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			exerciseValue(v.Index(i), depth+1)
		}
	}
}

// chunked makes a reader which hands the data out in some other way.
func chunked(r *rand.Rand, s string) (string, io.Reader) {
	switch r.IntN(6) {
	case 0:
		return "one byte", iotest.OneByteReader(strings.NewReader(s))
	case 1:
		return "half", iotest.HalfReader(strings.NewReader(s))
	case 2:
		return "data with EOF", iotest.DataErrReader(strings.NewReader(s))
	case 3:
		return "data with EOF, one byte", iotest.DataErrReader(iotest.OneByteReader(strings.NewReader(s)))
	case 4:
		return "random", &chunky{b: []byte(s), n: func() int { return 1 + r.IntN(700) }}
	}
	// Readers may also return nothing, now and then
	return "random with empty reads", &chunky{b: []byte(s), n: func() int { return r.IntN(40) }}
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func c04(t *T, s string) {
	t.File("document.ofx", s)
	r, err := ofxgo.DecodeResponse(strings.NewReader(s))
	if (r == nil) != (err != nil) {
		t.Violate("response and error", "DecodeResponse returned response %v with error %v", r != nil, err)
		return
	}
	p, perr := ofxgo.ParseResponse(strings.NewReader(s))
	if p == nil && perr == nil {
		t.Violate("neither", "ParseResponse returned neither a response nor an error")
		return
	}
	if (p == nil) != (r == nil) {
		t.Violate("decode and parse", "DecodeResponse returned %v, %v but ParseResponse %v, %v", r != nil, err, p != nil, perr)
		return
	}
	how, rd := chunked(t.R, s)
	r2, err2 := ofxgo.DecodeResponse(rd)
	if errText(err) != errText(err2) || !reflect.DeepEqual(r, r2) {
		t.Violate("chunks", "reading in other pieces (%s) changes the result: %v / %v\n%s", how, err, err2, clip(s, 1500))
		return
	}
	t.Count("read in pieces: "+how, 1)
	if r == nil {
		t.Count("rejected", 1)
		e := err.Error()
		if len(e) > 30 {
			e = e[:30]
		}
		t.Distinct("errors", e)
	} else {
		if ok, verr := r.Valid(); ok != (perr == nil) || errText(verr) != errText(perr) {
			t.Violate("decode and parse", "Valid says %v, %v but ParseResponse %v", ok, verr, perr)
			return
		}
		exercise(r)
		t.Count("accepted", 1)
	}
	t.Distinct("case", s)
}

func init() {
	register(&Check{ID: "C04", Quick: 1, Min: 500,
		Rule: "documents damaged in random ways (bytes, bits, tags, texts, headers, splices, repetitions, truncations, random data), generated documents and samples; decoded, parsed, decoded again from a reader which splits the data differently, and whatever is accepted validated, marshalled and printed; families of documents of which the time and memory which they take are compared between sizes; non-trivial: a distinct input",
		Run: func(c *C) {
			samples := samplesDir()
			c.Cases("mutated", c.N(9000, 400000), func(t *T) {
				doc := func() string {
					if len(samples) > 0 && t.R.IntN(5) == 0 {
						return pick(t.R, samples)
					}
					g := newG(t.R)
					g.budget = 15
					g.Opt *= .5
					d := g.someResponse()
					if t.R.IntN(2) == 0 {
						return canonical(t.R).doc(d.Version, d.tree("RS", false))
					}
					return randomSpell(t.R).doc(d.Version, d.tree("RS", false))
				}
				s := doc()
				o := s
				if t.R.IntN(4) == 0 {
					o = doc()
				}
				c04(t, mutate(t.R, s, o))
			})
			c.Cases("scalars", c.N(4000, 100000), func(t *T) {
				// a single leaf's text replaced
				g := newG(t.R)
				g.budget = 15
				d := g.someResponse()
				tree := d.tree("RS", false)
				var leaves []*Elem
				tree.leaves(&leaves)
				if len(leaves) == 0 {
					return
				}
				for k := 1 + t.R.IntN(2); k > 0; k-- {
					e := pick(t.R, leaves)
					e.Text = scalarText(t.R)
					if t.R.IntN(3) == 0 {
						e.Text = mutate(t.R, e.Leaf.Text, e.Leaf.Text)
					}
				}
				s := canonical(t.R)
				s.Close = t.R.Float64()
				c04(t, s.doc(d.Version, tree))
			})
			c.Cases("numbers", c.N(2500, 80000), func(t *T) {
				// numbers which nobody expects
				g := newG(t.R)
				g.budget = 40
				d := g.someResponse()
				tree := d.tree("RS", false)
				var leaves []*Elem
				tree.leaves(&leaves)
				p := t.R.Float64()
				for _, e := range leaves {
					if (e.Leaf.Kind == "int" || e.Leaf.Kind == "string" && t.R.IntN(8) == 0) && t.R.Float64() < p {
						e.Text = anyNumber(t.R)
						if n, err := strconv.Atoi(e.Text); err == nil {
							t.Distinct("numbers", e.Name, fmt.Sprint(n/16))
						}
					} else if e.Leaf.Kind == "amount" && t.R.Float64() < p {
						e.Text = anyNumber(t.R)
						if t.R.IntN(2) == 0 {
							e.Text += pick(t.R, []string{".", ","}) + strings.TrimLeft(anyNumber(t.R), "-")
						}
					}
				}
				c04(t, canonical(t.R).doc(d.Version, tree))
			})
			c.Cases("garbage", c.N(3000, 100000), func(t *T) {
				var b strings.Builder
				if t.R.IntN(3) != 0 {
					s := randomSpell(t.R)
					b.WriteString(s.header(pick(t.R, enums["ofxVersion"].Values)))
				}
				for k := t.R.IntN(60); k > 0; k-- {
					switch t.R.IntN(4) {
					case 0:
						b.WriteString(scalarText(t.R))
					case 1:
						b.WriteByte(byte(t.R.IntN(256)))
					default:
						b.WriteString(tokenText(t.R))
					}
				}
				c04(t, b.String())
			})
			c.Serial("growth", len(growFamilies()), c04growth)
			c.Cases("readers", c.N(1200, 40000), func(t *T) {
				// readers which fail while the document is being read
				g := newG(t.R)
				g.budget = 10
				d := g.someResponse()
				s := randomSpell(t.R).doc(d.Version, d.tree("RS", false))
				n := t.R.IntN(len(s))
				t.File("document.ofx", s[:n])
				end := strings.LastIndex(s, "</OFX>") + len("</OFX>")
				rd := &broken{b: []byte(s[:n]), n: func() int { return 1 + t.R.IntN(900) }, err: pick(t.R, readErrors), with: t.R.IntN(3) == 0}
				r, err := ofxgo.DecodeResponse(rd)
				if n < end && (err == nil || r != nil) {
					t.Violate("failed read accepted", "the reader failed (%v) after %d of %d bytes, but a response was returned", rd.err, n, len(s))
					return
				}
				if (err == nil) != (r != nil) {
					t.Violate("response and error", "DecodeResponse returned response %v with error %v", r != nil, err)
					return
				}
				t.Distinct("read errors", rd.err.Error())
				t.Count("failing readers", 1)
				t.Distinct("case", s[:n])
			})
		}})
	register(&Check{ID: "C05", Min: 500,
		Rule: "random proper prefixes (of some documents: all) of random documents and samples, ended by the end of the data or by a read error, in several spellings; non-trivial: a distinct prefix which ends before the document does",
		Run: func(c *C) {
			samples := samplesDir()
			var mu sync.Mutex
			kinds := map[string]bool{}
			run := func(t *T, s string) {
				end := strings.LastIndex(s, "</OFX>") + len("</OFX>")
				if _, err := decode(s[:end]); err != nil {
					t.Violate("rejected", "a complete document was rejected: %v\n%s", err, clip(s, 2000))
					return
				}
				every := end < 1500 && t.Idx%8 == 0 || t.Thorough()
				for n := 0; n < end; n++ {
					if !every && n < end-20 && t.R.IntN(end) > 130 {
						continue
					}
					for pass := 0; pass < 2; pass++ {
						var rd io.Reader = strings.NewReader(s[:n])
						how := "ends"
						if pass == 1 {
							if n%3 != 0 {
								continue
							}
							e := readErrors[(n/3+t.Idx)%len(readErrors)]
							rd = &broken{b: []byte(s[:n]), n: func() int { return 1 << 20 }, err: e, with: n%2 == 0}
							how = "fails (" + e.Error() + ")"
						}
						r, err := ofxgo.ParseResponse(rd)
						if r != nil || err == nil {
							t.File("document.ofx", s)
							t.File("prefix.ofx", s[:n])
							t.Violate("prefix accepted", "a document whose data %s after %d of %d bytes was accepted (error %v); it ends %q", how, n, end, err, s[max(0, n-60):n])
							return
						}
						mu.Lock()
						e := err.Error()
						if len(e) > 25 {
							e = e[:25]
						}
						kinds[e] = true
						mu.Unlock()
					}
					t.Count("prefixes", 1)
					t.Distinct("case", t.Stream, fmt.Sprint(t.Idx), fmt.Sprint(n))
				}
				t.Count("documents", 1)

				t.Sample("every prefix of %s", s)
			}
			c.Cases("prefixes", c.N(300, 2500), func(t *T) {
				g := newG(t.R)
				g.budget = 3
				g.MaxList = 1
				g.Opt *= .3
				d := g.response()
				run(t, randomSpell(t.R).doc(d.Version, d.tree("RS", false)))
			})
			c.Cases("samples", len(samples), func(t *T) { run(t, samples[t.Idx]) })
			for k := range kinds {
				c.Distinct("errors", k)
			}
		}})
}

func (e *Elem) leaves(out *[]*Elem) {
	if !e.Agg {
		*out = append(*out, e)
		return
	}
	for _, k := range e.Kids {
		k.leaves(out)
	}
}
