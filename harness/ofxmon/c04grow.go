package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/aclindsa/ofxgo"
)

// Growth: the time and memory which decoding and using responses take may only
// grow in proportion to the documents.

const (
	growXML  = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>\n<?OFX OFXHEADER=\"200\" VERSION=\"203\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>\n"
	growSGML = "OFXHEADER:100\nDATA:OFXSGML\nVERSION:102\nSECURITY:NONE\nENCODING:USASCII\nCHARSET:1252\nCOMPRESSION:NONE\nOLDFILEUID:NONE\nNEWFILEUID:NONE\n\n"
	growTrn  = "<STMTTRN><TRNTYPE>CREDIT</TRNTYPE><DTPOSTED>20200101</DTPOSTED><TRNAMT>%s</TRNAMT><FITID>1</FITID><NAME>x</NAME></STMTTRN>"
)

func growDoc(header, signon, rest string) string {
	return header + "<OFX><SIGNONMSGSRSV1><SONRS><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><DTSERVER>20200101</DTSERVER><LANGUAGE>ENG</LANGUAGE>" + signon + "</SONRS></SIGNONMSGSRSV1>" + rest + "</OFX>"
}

func growBank(list, end string) string {
	return "<BANKMSGSRSV1>" + growStmt(list, end) + "</BANKMSGSRSV1>"
}

func growStmt(list, end string) string {
	return "<STMTTRNRS><TRNUID>1</TRNUID><STATUS><CODE>0</CODE><SEVERITY>INFO</SEVERITY></STATUS><STMTRS><CURDEF>USD</CURDEF><BANKACCTFROM><BANKID>1</BANKID><ACCTID>1</ACCTID><ACCTTYPE>CHECKING</ACCTTYPE></BANKACCTFROM><BANKTRANLIST><DTSTART>20200101</DTSTART><DTEND>20200101</DTEND>" + list + "</BANKTRANLIST><LEDGERBAL><BALAMT>1</BALAMT><DTASOF>20200101</DTASOF></LEDGERBAL>" + end + "</STMTRS></STMTTRNRS>"
}

type growFamily struct {
	name string
	make func(n int) string // a document of roughly 100n bytes
}

func growFamilies() []growFamily {
	R := strings.Repeat
	var out []growFamily
	add := func(name string, f func(n int) string) { out = append(out, growFamily{name, f}) }
	trn := func(amt string) string { return fmt.Sprintf(growTrn, amt) }
	add("transactions", func(n int) string { return growDoc(growXML, "", growBank(R(trn("-12.34"), n), "")) })
	add("SGML transactions", func(n int) string {
		return growDoc(growSGML, "", growBank(R("<STMTTRN><TRNTYPE>CREDIT<DTPOSTED>20200101<TRNAMT>1<FITID>1<NAME>x</STMTTRN>\n", n), ""))
	})
	add("invalid transactions", func(n int) string {
		return growDoc(growXML, "", growBank(R("<STMTTRN><TRNTYPE>HOLD</TRNTYPE><TRNAMT>1</TRNAMT></STMTTRN>", n), ""))
	})
	add("invalid messages", func(n int) string {
		return growDoc(growXML, "", "<BANKMSGSRSV1>"+R("<STMTTRNRS><TRNUID></TRNUID><STATUS><CODE>0</CODE><SEVERITY>X</SEVERITY></STATUS></STMTTRNRS>", n)+"</BANKMSGSRSV1>")
	})
	add("messages", func(n int) string {
		return growDoc(growXML, "", "<BANKMSGSRSV1>"+R(growStmt("", ""), n/6+1)+"</BANKMSGSRSV1>")
	})
	add("message sets", func(n int) string { return growDoc(growXML, "", R("<BANKMSGSRSV1></BANKMSGSRSV1>", n*3)) })
	add("amounts with many digits", func(n int) string { return growDoc(growXML, "", growBank(R(trn(R("7", 9000)), n/90+1), "")) })
	add("amounts with many decimals", func(n int) string {
		return growDoc(growXML, "", growBank(R(trn("1."+R("3", 9000)), n/90+1), ""))
	})
	add("amounts with exponents", func(n int) string { return growDoc(growXML, "", growBank(R(trn("1e999"), n), "")) })
	add("amounts with negative exponents", func(n int) string { return growDoc(growXML, "", growBank(R(trn("1e-999"), n), "")) })
	for _, e := range []string{"1e9999", "1e99999", "1e999999", "1E+0999999", "1p99999", "1e-999999", "9e-99999"} {
		add("amounts like "+e, func(n int) string { return growDoc(growXML, "", growBank(R(trn(e), n), "")) })
	}
	one := func(name string, f func(n int) string) {
		add("long "+name, func(n int) string { return growDoc(growXML, f(n), "") })
	}
	one("string", func(n int) string { return "<USERKEY>" + R("a b\u00e9cde", n*12) + "</USERKEY>" })
	one("space", func(n int) string { return "<USERKEY>" + R(" \n", n*25) + "x" + R(" \n", n*25) + "</USERKEY>" })
	one("entities", func(n int) string { return "<USERKEY>" + R("&amp;", n*20) + "</USERKEY>" })
	one("bare ampersands", func(n int) string { return "<USERKEY>" + R("&", n*100) + "</USERKEY>" })
	one("CDATA", func(n int) string { return "<USERKEY>" + R("<![CDATA[x]]>", n*8) + "</USERKEY>" })
	one("comments", func(n int) string { return "<USERKEY>" + R("x<!---->", n*12) + "</USERKEY>" })
	one("comment", func(n int) string { return "<USERKEY>x<!--" + R("- ", n*50) + "--></USERKEY>" })
	one("character references", func(n int) string { return "<USERKEY>" + R("&#65;", n*20) + "</USERKEY>" })
	one("fraction of a date", func(n int) string { return "<DTPROFUP>20200101000000." + R("1", n*100) + "</DTPROFUP>" })
	one("zone of a date", func(n int) string { return "<DTPROFUP>20200101000000[-5:" + R("X", n*100) + "]</DTPROFUP>" })
	one("offset of a date", func(n int) string { return "<DTPROFUP>20200101000000[-" + R("0", n*100) + "5:X]</DTPROFUP>" })
	one("date", func(n int) string { return "<DTPROFUP>" + R("2", n*100) + "</DTPROFUP>" })
	one("unknown elements", func(n int) string { return R("<X.Y>1</X.Y>", n*8) })
	one("nested unknown elements", func(n int) string { return R("<X.Y>", n*10) + R("</X.Y>", n*10) })
	one("unknown attributes", func(n int) string { return "<X" + R(" a=\"b\"", n*16) + "/>" })
	one("name", func(n int) string { return "<" + R("X", n*50) + "></" + R("X", n*50) + ">" })
	one("name spaces", func(n int) string { return R("<X xmlns:a=\"b\">", n*5) + R("</X>", n*5) })
	one("processing instructions", func(n int) string { return R("<?x y?>", n*14) })
	one("status code", func(n int) string { return "<STATUS><CODE>" + R("0", n*100) + "</CODE></STATUS>" })
	one("unknown enumeration value", func(n int) string { return "<LANGUAGE>x</LANGUAGE><ACCTTYPE>" + R("A", n*100) + "</ACCTTYPE>" })
	one("unfinished tags", func(n int) string { return R("<X", n*50) })
	one("less-than signs", func(n int) string { return R("<", n*100) })
	one("end tags", func(n int) string { return R("</X>", n*25) })
	add("SGML unknown elements", func(n int) string { return growDoc(growSGML, R("<X>1", n*25), "") })
	add("SGML known elements", func(n int) string { return growDoc(growSGML, R("<USERKEY>1", n*10), "") })
	add("SGML message", func(n int) string { return growDoc(growSGML, "<MESSAGE>"+R("x &", n*33), "") })
	add("leading space", func(n int) string { return R("\r\n", n*50) + growDoc(growXML, "", "") })
	add("trailing space", func(n int) string { return growDoc(growXML, "", "") + R(" ", n*100) })
	add("XML header space", func(n int) string {
		return strings.Replace(growDoc(growXML, "", ""), "?>\n<?OFX", "?>"+R("\n", n*100)+"<?OFX", 1)
	})
	add("XML header value", func(n int) string {
		return strings.Replace(growDoc(growXML, "", ""), "NEWFILEUID=\"NONE", "NEWFILEUID=\""+R("0", n*100), 1)
	})
	add("SGML header value", func(n int) string {
		return strings.Replace(growDoc(growSGML, "", ""), "NEWFILEUID:NONE", "NEWFILEUID:"+R("0", n*100), 1)
	})
	add("SGML header space", func(n int) string { return strings.Replace(growDoc(growSGML, "", ""), "\n\n", R("\r\n", n*50), 1) })
	add("SGML header fields", func(n int) string {
		return strings.Replace(growDoc(growSGML, "", ""), "\n\n", R("\nX:Y", n*25)+"\n\n", 1)
	})
	for _, lp := range longPaths {
		add("list "+lp.target, nil)
	}
	return out
}

var growVerbose = os.Getenv("OFXMON_GROWTH") != ""

// A growCost is what using a document took.
type growCost struct {
	n, size         int
	decode, use     time.Duration // of the processor
	decodeMem, usMe uint64
	accepted        bool
}

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(1 /* RUSAGE_THREAD */, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func measure(n int, s string) (x growCost) {
	x.n, x.size = n, len(s)
	runtime.GC()
	m0, t0 := allocated(), cpuTime()
	r, err := ofxgo.DecodeResponse(strings.NewReader(s))
	t1, m1 := cpuTime(), allocated()
	x.decode, x.decodeMem = t1-t0, m1-m0
	if x.accepted = err == nil; x.accepted {
		t1 = cpuTime()
		if _, err := r.Valid(); err != nil {
			_ = err.Error()
		}
		r.Marshal()
		exerciseValue(reflect.ValueOf(r).Elem(), 0)
		t2, m2 := cpuTime(), allocated()
		x.use, x.usMe = t2-t1, m2-m1
	}
	return x
}

// c04growth compares the costs of documents of one family of two sizes.
func c04growth(t *T) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	f := growFamilies()[t.Idx]
	if f.make == nil {
		lp := longPaths[t.Idx-len(growFamilies())+len(longPaths)]
		seed := t.R.Uint64()
		f.make = func(n int) string {
			// elements repeat, so that they are the same for every n
			g := newG(rand.New(rand.NewPCG(seed, 1)))
			g.Plain, g.Marshal = true, true
			d := g.longList(lp, 20)
			d.Version = "220" // which has all the lists
			for _, a := range d.all() {
				normalize(a)
				g.repair(a, d.Version)
			}
			sp := canonical(rand.New(rand.NewPCG(seed, 2)))
			if !isSGML(d.Version) {
				sp.Close = 1
			}
			text := sp.doc(d.Version, repeatList(d, lp, n/2+20).tree("RS", false))
			return text
		}
	}
	minimum := time.Duration(t.N(12, 150)) * time.Millisecond
	const factor = 8
	var first string
	for try := 0; try < 4; try++ {
		n := 50
		s := f.make(n)
		a := measure(n, s)
		for a.decode+a.use < minimum && n < 1<<20 && len(s) < 1<<19*t.N(1, 4) {
			n *= 2
			s = f.make(n)
			a = measure(n, s)
		}
		if a.decode+a.use > 2*time.Second {
			first = fmt.Sprintf("using %d bytes takes %s", a.size, a.decode+a.use)
			continue
		}
		// the best of several, as caches and other programs interfere
		b := measure(n*factor, f.make(n*factor))
		big := n * factor
		for k := b.size; k < 3<<20; k *= 2 {
			big *= 2
		}
		c := b
		if big > n*factor && (b.decode+b.use)*time.Duration(big/(n*factor)) < 3*time.Second {
			c = measure(big, f.make(big))
		}
		for k := 0; k < try; k++ {
			if c := measure(n, s); c.decode < a.decode {
				a.decode = c.decode
			} else if c.use < a.use {
				a.use = c.use
			}
			c := measure(n*factor, f.make(n*factor))
			b.decode, b.use = min(b.decode, c.decode), min(b.use, c.use)
		}
		why := ""
		if ratio := float64(c.size) / float64(b.size); ratio > 1.5 {
			grows := func(what string, x, y time.Duration) {
				if growVerbose && y > 100*time.Millisecond {
					fmt.Printf("%-45s %s %8d %8s  %8d %8s  %4.1f\n", f.name, what, b.size, x, c.size, y, float64(y)/float64(x)/ratio)
				}
				if y > 500*time.Millisecond && float64(y) > 3.5*ratio*float64(max(x, 12*time.Millisecond)) {
					why = fmt.Sprintf("%s takes %s for %d bytes and %s for %d", what, x, b.size, y, c.size)
				}
			}
			grows("decoding", b.decode, c.decode)
			grows("using", b.use, c.use)
		}
		ratio := float64(b.size) / float64(a.size)
		times := func(what string, x, y time.Duration) {
			if y > 60*time.Millisecond && float64(y) > 2.6*ratio*float64(max(x, 12*time.Millisecond)) {
				why = fmt.Sprintf("%s takes %s for %d bytes and %s for %d", what, x, a.size, y, b.size)
			}
			if per := float64(y) / float64(b.size); y > 500*time.Millisecond && per > 150000 {
				why = fmt.Sprintf("%s takes %s for %d bytes", what, y, b.size)
			}
		}
		times("decoding", a.decode, b.decode)
		times("using", a.use, b.use)
		mem := func(what string, x, y uint64) {
			if y > 8<<20 && float64(y) > 2.2*ratio*math.Max(float64(x), 1<<18) {
				why = fmt.Sprintf("%s allocates %d bytes for %d bytes and %d for %d", what, x, a.size, y, b.size)
			}
			if y > 8<<20 && y > uint64(b.size)*6000 {
				why = fmt.Sprintf("%s allocates %d bytes for %d bytes", what, y, b.size)
			}
		}
		mem("decoding", a.decodeMem, b.decodeMem)
		mem("using", a.usMe, b.usMe)
		if why == "" {
			t.Count("growths found proportional", 1)
			t.Count("bytes of growing documents", int64(a.size+b.size))
			t.Distinct("growth", f.name, fmt.Sprint(a.accepted, b.accepted))
			t.Distinct("case", f.name, fmt.Sprint(a.n))
			if growVerbose {
				fmt.Printf("%-45s %v %8d %8d  decode %8s %8s %5.1f use %8s %8s %5.1f  mem %7d %7d %5.1f/B %5.1f | %5.1f/B %5.1f\n", f.name, a.accepted, a.size, b.size, a.decode.Round(time.Microsecond*100), b.decode.Round(time.Microsecond*100), float64(b.decode)/float64(a.decode+1)/ratio,
					a.use.Round(time.Microsecond*100), b.use.Round(time.Microsecond*100), float64(b.use)/float64(a.use+1)/ratio, a.decodeMem>>10, b.decodeMem>>10, float64(b.decodeMem)/float64(b.size), float64(b.decodeMem)/float64(a.decodeMem)/ratio, float64(b.usMe)/float64(b.size), float64(b.usMe)/float64(a.usMe+1)/ratio)
			}
			return
		}
		if growVerbose {
			fmt.Println("again:", f.name, why)
		}
		first = why
	}
	t.Violate("growth: "+f.name, "%s: %s", f.name, first)
}

// repeatList makes the entries of a long list n, by repeating them.
func repeatList(d *Doc, lp *longPath, n int) *Doc {
	for _, m := range d.Sets[0].Msgs {
		m.walk(func(a *Agg) {
			for f, x := range a.F {
				if a.S.Name+"."+f == lp.target && len(x.List) >= 20 {
					for len(x.List) < n {
						x.List = append(x.List, x.List[len(x.List)%20])
						if a.Order != nil {
							a.Order = append(a.Order, x.List[len(x.List)-1].Agg)
						}
					}
				}
			}
		})
	}
	return d
}
