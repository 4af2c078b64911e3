package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aclindsa/ofxgo"
)

func init() {
	register(&Check{ID: "C23", Quick: 1.5, Min: 30,
		Rule: "fresh processes whose first uses of the library are concurrent, and rounds of 2 to 16 goroutines on 1 to 16 processors which parse, validate, print, marshal and exchange documents, some shared, with injected delays, under the race detector; each result is compared with the documents' values and with what one goroutine got before; non-trivial: a distinct order of the operations' beginnings and ends within a round",
		Run: func(c *C) {
			if !raceEnabled {
				panic("C23 needs a build with -race")
			}
			c.cases("cold", c.N(24, 600), 4, c23cold)
			c.Serial("rounds", c.N(35, 1500), c23round)
			runtime.GOMAXPROCS(Workers)
		}})

	register(&Check{ID: "C24", Quick: 2.5, Min: 300,
		Rule: "random documents and requests, valid and damaged, processed before and after histories of 1 to 30 other operations (parsing hostile documents, failing and succeeding marshals, clients with other settings), and while other copies of them are scribbled over; non-trivial: a distinct (document, history)",
		Run: func(c *C) {
			c.Serial("zones", c.N(400, 10000), c24zones)
			c.Cases("history", c.N(250, 40000), c24history)
			c.Cases("pure", c.N(1500, 100000), c24pure)
			c.Cases("aliasing", c.N(1500, 100000), c24alias)
			c.Cases("blank", c.N(3000, 200000), c24blank)
			c.Cases("requests", c.N(2000, 100000), c24requests)
			c.Serial("defaults", c.N(120, 2000), c24defaults)
		}})
}

// delayReader lets other goroutines run while a document is being read.
type delayReader struct {
	r *rand.Rand
	s string
}

func (d *delayReader) Read(p []byte) (int, error) {
	if len(d.s) == 0 {
		return 0, io.EOF
	}
	pause(d.r)
	n := min(len(p), len(d.s), 1+d.r.IntN(2000))
	copy(p, d.s[:n])
	d.s = d.s[n:]
	return n, nil
}

func pause(r *rand.Rand) {
	switch r.IntN(8) {
	case 0:
		time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}

// shared is what the goroutines of a round have in common.
type shared struct {
	docs    []*Doc
	texts   []string
	resps   []*ofxgo.Response
	outs    []string // what resps marshal to
	broken  []string // documents which are rejected or invalid
	errs    []string
	clients []ofxgo.Client
	kinds   []int
	server  *server
	uids    sync.Map
}

func (s *shared) text(i int) string { return s.texts[i] }

func newShared(t *T) *shared {
	s := &shared{}
	for i := 0; i < 4; i++ {
		g := newG(t.R)
		g.Marshal = true
		g.MaxList = 3
		g.budget = 40
		d := g.response()
		for _, a := range d.all() {
			normalize(a)
			g.repair(a, d.Version)
		}
		s.docs = append(s.docs, d)
		s.texts = append(s.texts, randomSpell(t.R).doc(d.Version, d.tree("RS", false)))
		r := d.goResponse()
		b, err := d.goResponse().Marshal()
		if err != nil {
			t.Violate("marshal error", "%v", err)
			return nil
		}
		s.resps = append(s.resps, r)
		s.outs = append(s.outs, b.String())
		x := mutate(t.R, s.texts[i], s.texts[0])
		_, err = ofxgo.ParseResponse(strings.NewReader(x))
		s.broken = append(s.broken, x)
		s.errs = append(s.errs, errText(err))
	}
	for k := 0; k < numClients; k++ {
		bc := &ofxgo.BasicClient{AppID: "A" + fmt.Sprint(k), NoIndent: k%2 == 0, UserAgent: "ua"}
		setVersion(&bc.SpecVersion, "203")
		switch k {
		case discover:
			s.clients = append(s.clients, ofxgo.NewDiscoverCardClient(bc))
		case vanguard:
			s.clients = append(s.clients, ofxgo.NewVanguardClient(bc))
		case basicDefault:
			s.clients = append(s.clients, bc)
		default:
			bc.HTTPClient = &http.Client{Transport: &http.Transport{}}
			s.clients = append(s.clients, bc)
		}
		s.kinds = append(s.kinds, k)
	}
	// the server answers with the document the path asks for, to Vanguard
	// only after a cookie
	s.server = listen(goodTLS(), func(q *rawReq) reply {
		p := strings.Split(strings.Trim(q.Req.URL.Path, "/"), "/")
		i, _ := strconv.Atoi(p[0])
		if len(p) > 1 && q.Req.Header.Get("Cookie") == "" {
			return reply{pieces: []string{ok("", "Set-Cookie: id="+p[1])}}
		}
		if len(p) > 1 && q.Req.Header.Get("Cookie") != "id="+p[1] {
			return reply{pieces: []string{respond("400 Other's cookie", "")}}
		}
		return reply{pieces: []string{ok(s.texts[i])}}
	})
	return s
}

// op runs one random operation, and says what went wrong.
func (s *shared) op(t *T, r *rand.Rand, id string) (name, wrong string) {
	i := r.IntN(len(s.docs))
	switch r.IntN(11) {
	case 0, 1:
		resp, err := ofxgo.ParseResponse(&delayReader{r, s.texts[i]})
		if err != nil {
			return "parse", err.Error()
		}
		return "parse", errText(compareResponse(resp, s.docs[i]))
	case 2:
		resp, err := ofxgo.DecodeResponse(&delayReader{r, s.texts[i]})
		if err != nil {
			return "reserialize", err.Error()
		}
		pause(r)
		b, err := resp.Marshal()
		if err != nil {
			return "reserialize", err.Error()
		}
		return "reserialize", differ(s.outs[i], b.String())
	case 3, 4:
		b, err := s.resps[i].Marshal()
		if err != nil {
			return "marshal shared", err.Error()
		}
		return "marshal shared", differ(s.outs[i], b.String())
	case 5:
		if ok, err := s.resps[i].Valid(); !ok {
			return "validate shared", err.Error()
		}
		pause(r)
		exerciseValue(reflect.ValueOf(s.resps[i]).Elem(), 0)
		return "validate shared", ""
	case 6:
		_, err := ofxgo.ParseResponse(&delayReader{r, s.broken[i]})
		return "parse broken", differ(s.errs[i], errText(err))
	case 7:
		for k := 0; k < 5; k++ {
			u, err := ofxgo.RandomUID()
			if err != nil {
				return "uid", err.Error()
			}
			if _, dup := s.uids.LoadOrStore(string(*u), true); dup {
				return "uid", "repeated " + string(*u)
			}
		}
		return "uid", ""
	case 8:
		o := pick(r, enumOpsList)
		v := r.IntN(len(o.consts))
		if x, err := o.make(o.def.Values[v]); err != nil || x != o.consts[v] {
			return "enumeration", fmt.Sprint(o.def.Name, " ", o.def.Values[v], " is ", x, " ", err)
		}
		if x := o.str(o.consts[v]); x != o.def.Values[v] {
			return "enumeration", x
		}
		w := pick(r, statusList)
		st := ofxgo.Status{Code: ofxgo.Int(w.Code), Severity: ofxgo.String(w.Severity)}
		if m, err := st.CodeMeaning(); m != w.Meaning || err != nil {
			return "enumeration", m
		}
		return "enumeration", ""
	case 9:
		g := newG(r)
		g.MaxFrac = 20
		d := g.validRequest()
		c := pick(r, s.clients)
		d.Version = "203"
		for _, a := range d.all() {
			normalize(a)
			g.repair(a, d.Version)
		}
		q := d.goRequest()
		q.SetClientFields(c)
		pause(r)
		b, err := q.Marshal()
		if err != nil {
			return "request", err.Error()
		}
		d.Signon.F["DtClient"] = &Node{Leaf: &Leaf{Kind: "date", Time: q.Signon.DtClient.Time}}
		d.Signon.F["AppID"], d.Signon.F["AppVer"] = strLeaf(string(c.ID())), strLeaf(string(c.Version()))
		d.forced()
		_, root, _, err := parseMarshalled(b.String())
		if err != nil {
			return "request", err.Error()
		}
		return "request", errText(matchTree(d.tree("RQ", true), root, ""))
	}
	k := r.IntN(len(s.clients))
	g := newG(r)
	d := g.validRequest()
	d.Version = "203"
	for _, a := range d.all() {
		normalize(a)
		g.repair(a, d.Version)
	}
	q := d.goRequest()
	q.URL = s.server.url(fmt.Sprint("/", i))
	if s.kinds[k] == vanguard && r.IntN(2) == 0 {
		q.URL += "/" + id
	}
	name = "exchange by " + clientNames[s.kinds[k]]
	resp, err := s.clients[k].Request(q)
	if err != nil {
		return name, err.Error()
	}
	return name, errText(compareResponse(resp, s.docs[i]))
}

func differ(want, got string) string {
	if want == got {
		return ""
	}
	return "differs at " + firstDiff(want, got)
}

func c23round(t *T) {
	s := newShared(t)
	if s == nil {
		return
	}
	defer s.server.stop()
	procs := pick(t.R, []int{1, 2, 3, 4, 8, 8, 16})
	runtime.GOMAXPROCS(procs)
	n := 2 + t.R.IntN(15)
	ops := 6
	var mu sync.Mutex
	var trace bytes.Buffer
	event := func(g int, what string) {
		mu.Lock()
		fmt.Fprintf(&trace, "%d %s\n", g, what)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	var overlaps, running int64
	start := make(chan bool)
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = t.R.Uint64()
	}
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[g], 23))
			defer func() {
				if p := recover(); p != nil {
					t.Violate("panic", "%v in one of %d goroutines", p, n)
				}
			}()
			<-start
			for k := 0; k < ops; k++ {
				event(g, "begins")
				if atomic.AddInt64(&running, 1) > 1 {
					atomic.AddInt64(&overlaps, 1)
				}
				name, wrong := s.op(t, r, fmt.Sprintf("g%dop%d", g, k))
				atomic.AddInt64(&running, -1)
				event(g, name)
				if wrong != "" {
					t.Violate("wrong: "+name, "%s, while %d goroutines ran: %s", name, n, wrong)
				}
				t.Count("operations: "+name, 1)
			}
		}()
	}
	close(start)
	wg.Wait()
	// the shared documents are as they were
	for i, r := range s.resps {
		if err := compareResponse(r, s.docs[i]); err != nil {
			t.Violate("changed", "a shared response was changed: %v", err)
		}
	}
	t.Count("overlapping operations", overlaps)
	t.Distinct("case", trace.String())
	t.Distinct("interleaving", trace.String())
	t.Distinct("goroutines and processors", fmt.Sprint(n, procs))
	t.Sample("%d goroutines, %d processors:\n%s", n, procs, clip(trace.String(), 600))
}

// c23cold lets a fresh process' first uses of the library be concurrent.
func c23cold(t *T) {
	seed := t.R.Uint64()
	cmd := exec.Command(os.Args[0], "c23cold", fmt.Sprint(seed))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	switch {
	case err == nil && strings.HasPrefix(s, "ok "):
		var ops int64
		fmt.Sscan(s[3:], &ops)
		t.Count("concurrent first uses", ops)
		t.Distinct("case", s)
	case strings.Contains(s, "WARNING: DATA RACE"):
		t.Violate("data race", "concurrent first uses race:\n%s", s)
	case strings.Contains(s, "wrong: "), strings.Contains(s, "panic: "), strings.Contains(s, "fatal error: ") && !strings.Contains(s, "out of memory"):
		t.Violate("wrong", "concurrent first uses fail:\n%s", s)
	default:
		fmt.Fprintf(os.Stderr, "ofxmon: c23cold %d: %v\n%s", seed, err, s)
		os.Exit(2)
	}
}

// coldMain is the fresh process.
func coldMain(arg string) {
	seed, _ := strconv.ParseUint(arg, 10, 64)
	r := rand.New(rand.NewPCG(seed, 24))
	runtime.GOMAXPROCS(pick(r, []int{2, 4, 8, 16}))
	n := 2 + r.IntN(10)
	type job struct {
		d, q  *Doc
		text  string
		enums []int
	}
	jobs := make([]job, n)
	steps := r.Perm(7)
	first := r.Uint64()
	for i := range jobs {
		js := first // the same work
		if i > 0 && r.IntN(2) == 0 {
			js = r.Uint64()
		}
		r := rand.New(rand.NewPCG(js, 25))
		g := newG(r)
		g.Marshal = true
		d := g.response()
		for _, a := range d.all() {
			normalize(a)
			g.repair(a, d.Version)
		}
		jobs[i] = job{d, g.validRequest(), "", r.Perm(len(enumOpsList))}
		jobs[i].text = randomSpell(r).doc(d.Version, d.tree("RS", false))
		jobs[i].q.forced()
	}
	wrong := func(f string, a ...interface{}) {
		fmt.Printf("wrong: "+f+"\n", a...)
		os.Exit(1)
	}
	ops := 0
	for _, step := range steps {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range jobs {
			ops++
			wg.Add(1)
			go func() {
				defer wg.Done()
				j := jobs[i]
				<-start
				switch step {
				case 0:
					resp, err := ofxgo.ParseResponse(strings.NewReader(j.text))
					if err != nil {
						wrong("parse: %v", err)
					}
					if err := compareResponse(resp, j.d); err != nil {
						wrong("parse: %v", err)
					}
				case 1:
					if _, err := j.d.goResponse().Marshal(); err != nil {
						wrong("marshal: %v", err)
					}
				case 2:
					b, err := j.q.goRequest().Marshal()
					if err != nil {
						wrong("request: %v", err)
					}
					_, root, _, err := parseMarshalled(b.String())
					if err == nil {
						err = matchTree(j.q.tree("RQ", true), root, "")
					}
					if err != nil {
						wrong("request: %v", err)
					}
				case 3:
					for _, k := range j.enums {
						o := enumOpsList[k]
						for v := range o.consts {
							if x, err := o.make(o.def.Values[v]); err != nil || x != o.consts[v] || o.str(x) != o.def.Values[v] {
								wrong("enumeration %s", o.def.Name)
							}
						}
					}
				case 4:
					for _, w := range statusList {
						st := ofxgo.Status{Code: ofxgo.Int(w.Code), Severity: ofxgo.String(w.Severity)}
						if m, err := st.CodeMeaning(); m != w.Meaning || err != nil {
							wrong("status %d", w.Code)
						}
					}
				case 5:
					if u, err := ofxgo.RandomUID(); err != nil || len(*u) != 36 {
						wrong("uid")
					}
					if c, err := ofxgo.NewCurrSymbol("EUR"); err != nil || c.String() != "EUR" {
						wrong("currency")
					}
				case 6:
					bc := &ofxgo.BasicClient{}
					ofxgo.GetClient("https://ofx.discovercard.com", bc)
					c := ofxgo.GetClient("https://example.com", bc)
					j.q.goRequest().SetClientFields(c)
					if _, err := c.RawRequest("http://127.0.0.1:1/", strings.NewReader("")); err == nil {
						wrong("request over http")
					}
					_ = ofxgo.NewDate(2020, 1, 2, 3, 4, 5, 6, time.UTC).String()
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	fmt.Println("ok", ops, steps, n)
}

// c24op is one operation of a history.
func c24op(r *rand.Rand, g *G) {
	switch r.IntN(9) {
	case 0, 1: // hostile documents
		d := g.response()
		x := randomSpell(r).doc(d.Version, d.tree("RS", false))
		if resp, err := ofxgo.DecodeResponse(strings.NewReader(mutate(r, x, x))); err == nil {
			exercise(resp)
		}
	case 2:
		d := g.response()
		x := randomSpell(r).doc(d.Version, d.tree("RS", false))
		ofxgo.ParseResponse(strings.NewReader(x[:r.IntN(len(x))]))
	case 3: // failing marshals
		d := g.request()
		d.goRequest().Marshal()
	case 4:
		d := g.validRequest()
		q := d.goRequest()
		if f := (&format{noIndent: r.IntN(2) == 0, cr: r.IntN(2) == 0, client: 1 + r.IntN(3), appID: "ZZ", ver: "9"}); true {
			q.SetClientFields(f.make(pick(r, enums["ofxVersion"].Values)))
		}
		q.Marshal()
	case 5:
		d := g.response()
		d.goResponse().Marshal()
	case 6:
		for _, o := range enumOpsList {
			o.make(g.text(1, 8))
			o.from(1, pick(r, o.def.Values))
		}
	case 7:
		ofxgo.RandomUID()
		ofxgo.NewCurrSymbol(g.text(0, 4))
		ofxgo.GetClient("https://ofx.discovercard.com", &ofxgo.BasicClient{NoIndent: true})
	case 8: // requests which never leave
		c := (&format{client: 1 + r.IntN(3)}).make("")
		c.RawRequest("http://127.0.0.1:1/", strings.NewReader("x"))
	}
}

// c24history: results depend on arguments, not on what happened before.
func c24history(t *T) {
	g := newG(t.R)
	_, text := answer(t)
	if t.R.IntN(3) == 0 {
		text = mutate(t.R, text, text)
	}
	dq := newG(t.R).validRequest()
	f := randomFormat(t)
	version := pick(t.R, []string{dq.Version, dq.Version, ""})
	do := func() (string, *ofxgo.Response) {
		resp, err := ofxgo.ParseResponse(strings.NewReader(text))
		s := "error: " + errText(err) + "\n"
		if resp != nil {
			ok, err := resp.Valid()
			s += fmt.Sprint("valid: ", ok, " ", errText(err), "\n")
			b, err := resp.Marshal()
			if err == nil {
				s += b.String()
			} else {
				s += "marshal: " + err.Error()
			}
		}
		q := dq.goRequest()
		if f.client != 0 {
			c := f.make(version)
			s += fmt.Sprint("client: ", c.OfxVersion(), c.ID(), c.Version(), c.IndentRequests(), c.CarriageReturnNewLines(), "\n")
			q.SetClientFields(c)
			q.Signon.DtClient.Time = dq.Signon.F["DtClient"].Leaf.Time
		}
		b, err := q.Marshal()
		if err == nil {
			s += "\n" + b.String()
		} else {
			s += "\nmarshal: " + err.Error()
		}
		return s, resp
	}
	s1, r1 := do()
	n := 1 + t.R.IntN(30)
	if k, ok := dictInt(t.R, .05, 2, 600); ok {
		n = int(k)
	}
	for i := 0; i < n; i++ {
		c24op(t.R, g)
	}
	s2, r2 := do()
	if s1 != s2 || !reflect.DeepEqual(r1, r2) {
		t.File("document.ofx", text)
		t.Violate("history", "after %d other operations, the same calls give another result, which differs at %s", n, firstDiff(s1, s2))
		return
	}
	t.Count("operations of histories", int64(n))
	t.Count("repeated results", 1)
	t.Distinct("case", s1, fmt.Sprint(n, t.Idx))
}

// c24zones: what happens doesn't depend on the process's time zone.
func c24zones(t *T) {
	defer func(l *time.Location) { time.Local = l }(time.Local)
	g := newG(t.R)
	g.budget = 40
	time.Local = location(pick(t.R, zones)) // which some dates take up
	d := g.response()
	if t.R.IntN(2) == 0 {
		for _, a := range d.all() {
			normalize(a)
			g.repair(a, d.Version)
		}
	}
	text := randomSpell(t.R).doc(d.Version, d.tree("RS", false))
	if t.R.IntN(8) == 0 {
		text = mutate(t.R, text, text)
	}
	t.File("document.ofx", text)
	var first, where string
	var resp *ofxgo.Response
	for i := 0; i < 4; i++ {
		z := pick(t.R, zones)
		if i == 0 {
			z = time.Local.String()
		}
		time.Local = location(z)
		r, err := decode(text)
		got := errText(err)
		if r != nil {
			ok, verr := r.Valid()
			got += fmt.Sprint(ok, errText(verr))
			b, merr := r.Marshal()
			got += errText(merr)
			if merr == nil {
				got += b.String()
			}
		}
		if i == 0 {
			first, where, resp = got, z, r
			continue
		}
		if got != first {
			t.Violate("time zone", "with %s as its time zone the process does otherwise than with %s: it differs at %s", z, where, firstDiff(first, got))
			return
		}
		if !reflect.DeepEqual(r, resp) {
			t.Violate("time zone", "with %s as its time zone the process decodes another response than with %s", z, where)
			return
		}
		t.Count("time zones compared", 1)
	}
	t.Distinct("case", "zones", text)
}

// c24pure: validating, printing and marshalling change nothing.
func c24pure(t *T) {
	g := newG(t.R)
	d := g.response()
	if t.R.IntN(2) == 0 {
		for _, a := range d.all() {
			normalize(a)
			g.repair(a, d.Version)
		}
	}
	buf := []byte(randomSpell(t.R).doc(d.Version, d.tree("RS", false)))
	text := string(buf)
	t.File("document.ofx", text)
	resp, err := ofxgo.DecodeResponse(bytes.NewReader(buf))
	if err != nil {
		t.Violate("decode error", "%v\n%s", err, clip(text, 2000))
		return
	}
	if string(buf) != text {
		t.Violate("input changed", "parsing changed its input at %s", firstDiff(text, string(buf)))
		return
	}
	// the response doesn't live off its input
	for i := range buf {
		buf[i] = 'X'
	}
	var first, verdict string
	for i := 0; i < 3; i++ {
		ok, err := resp.Valid()
		v := fmt.Sprint(ok, errText(err))
		b, err := resp.Marshal()
		m := errText(err)
		if err == nil {
			m = b.String()
			b.Reset()
			b.WriteString(strings.Repeat("Y", 100))
		}
		exerciseValue(reflect.ValueOf(resp).Elem(), 0)
		if err := compareResponse(resp, d); err != nil {
			t.Violate("changed", "validating, marshalling or printing changed a response: %v", err)
			return
		}
		if i == 0 {
			first, verdict = m, v
		} else if m != first || v != verdict {
			t.Violate("unstable", "validating (%s, %s) or marshalling twice differs at %s", verdict, v, firstDiff(first, m))
			return
		}
	}
	t.Count("responses left unchanged", 1)
	t.Distinct("case", text)
}

// scribble overwrites every value a response refers to, in place.
func scribble(v reflect.Value, depth int) int {
	if depth > 60 {
		return 0
	}
	n := 0
	if v.CanAddr() && v.CanInterface() {
		switch x := v.Addr().Interface().(type) {
		case *ofxgo.Amount:
			x.Rat.SetFrac64(12345, 7)
			x.Rat.Num().SetBits(append(x.Rat.Num().Bits()[:0], 77))
			return 1
		case *ofxgo.Date:
			x.Time = x.Time.Add(12345 * time.Hour)
			return 1
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n += scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scribble(v.Index(i), depth+1)
		}
		if v.CanSet() && v.Len() > 0 {
			// appends into spare room must not reach anyone else's list
			_ = reflect.Append(v, v.Index(0))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(987654)
			n++
		}
	case reflect.Uint, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0)
			n++
		}
	}
	return n
}

// c24alias: responses don't share memory with one another.
func c24alias(t *T) {
	g := newG(t.R)
	d := g.response()
	text := randomSpell(t.R).doc(d.Version, d.tree("RS", false))
	t.File("document.ofx", text)
	var rs [3]*ofxgo.Response
	for i := range rs {
		if i == 2 {
			t.Count("values overwritten", int64(scribble(reflect.ValueOf(rs[0]).Elem(), 0)))
		}
		var err error
		if rs[i], err = decode(text); err != nil {
			t.Violate("decode error", "%v\n%s", err, clip(text, 2000))
			return
		}
	}
	for i := 1; i < 3; i++ {
		if err := compareResponse(rs[i], d); err != nil {
			t.Violate("aliasing", "overwriting one response changed another (parsed %s it): %v", []string{"", "before", "after"}[i], err)
			return
		}
	}
	// nor do the values within one: overwriting its first message leaves the
	// others alone
	if len(d.Sets) > 0 && len(d.Sets[0].Msgs) > 1 {
		rv := reflect.ValueOf(rs[1]).Elem().FieldByName(d.Sets[0].Set.Field)
		scribble(rv.Index(0), 0)
		var msgs []*Agg
		for _, ds := range d.Sets {
			if ds.Set == d.Sets[0].Set {
				msgs = append(msgs, ds.Msgs...)
			}
		}
		for k := 1; k < rv.Len(); k++ {
			if err := compareAgg(rv.Index(k), msgs[k], "message"); err != nil {
				t.Violate("aliasing", "overwriting one message changed another: %v", err)
				return
			}
		}
		t.Count("messages found separate", 1)
	}
	t.Count("responses found separate", 1)
	t.Distinct("case", text)
}

// c24requests: marshalling requests again, or after others shared their
// messages, yields the same.
func c24requests(t *T) {
	g := newG(t.R)
	d := g.validRequest()
	f := randomFormat(t)
	q := d.goRequest()
	if f.client != 0 {
		q.SetClientFields(f.make(d.Version))
	}
	b, err := q.Marshal()
	if err != nil {
		t.Violate("marshal error", "%v", err)
		return
	}
	text := b.String()
	// the buffer is the caller's
	b.Reset()
	b.WriteString(strings.Repeat("Z", len(text)))
	again := func(what string) bool {
		b, err := q.Marshal()
		if err != nil || b.String() != text {
			t.Violate("unstable", "marshalling a request again %s: error %v, differs at %s", what, err, firstDiff(text, b.String()))
			return false
		}
		t.Count("requests marshalled again", 1)
		return true
	}
	if !again("at once") {
		return
	}
	// another request refers to the same messages, in another version and
	// format
	q2 := *q
	q2.Signon.AppID = "other"
	setVersion(&q2.Version, pick(t.R, enums["ofxVersion"].Values))
	q2.Signon.Language = ""
	q2.Marshal()
	if !again("after another with the same messages") {
		return
	}
	// a refused marshal leaves nothing behind
	app := q.Signon.AppID
	q.Signon.AppID = ""
	if b, err := q.Marshal(); err == nil || b != nil {
		t.Violate("accepted", "a request without an application ID is marshalled")
		return
	}
	q.Signon.AppID = app
	if !again("after a refused one") {
		return
	}
	for i := t.R.IntN(3); i > 0; i-- {
		c24op(t.R, g)
	}
	if !again("after other operations") {
		return
	}
	t.Distinct("case", text)
}

// c24defaults: clients don't change the settings of the process or of the
// user's http.Client.
func c24defaults(t *T) {
	_, body := answer(t)
	kind := t.R.IntN(numClients)
	n := newNetCase(t, kind, t.R.IntN(numCalls))
	if old := http.DefaultTransport; t.R.IntN(2) == 0 {
		// one which wasn't used before
		http.DefaultTransport = &http.Transport{Proxy: http.ProxyFromEnvironment, ForceAttemptHTTP2: true, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second}
		defer func() {
			http.DefaultTransport.(*http.Transport).CloseIdleConnections()
			http.DefaultTransport = old
		}()
	}
	outcome := t.R.IntN(4)
	conf := goodTLS()
	if outcome == 3 {
		conf.Certificates[0] = cert("expired")
	}
	s := listen(conf, func(*rawReq) reply {
		switch outcome {
		case 0:
			return reply{pieces: []string{ok(body)}, close: true}
		case 1:
			return reply{pieces: []string{ok("", "Set-Cookie: a=b")}, close: true}
		}
		return reply{pieces: []string{respond("302 Found", "", "Location: http://127.0.0.1:1/")}, close: true}
	})
	defer s.stop()
	n.r.URL = s.url(pick(t.R, []string{"/", "/us/vanguard", "/?discovercard", "/ofx", "/vesnc.vanguard.com/us/OfxDirectConnectServlet", "/ofx.discovercard.com", "/citi/schwab/amex?ofx=1"}))
	hc := &http.Client{Transport: &http.Transport{}}
	var bc *ofxgo.BasicClient
	if x, ok := n.c.(*ofxgo.BasicClient); ok {
		bc = x
		if bc.HTTPClient != nil {
			bc.HTTPClient = hc
		}
	}
	tr := hc.Transport
	var saved ofxgo.BasicClient
	if bc != nil {
		saved = *bc
	}
	call(n.c, n.how, n.r, strings.NewReader("x"))
	if hc.CheckRedirect != nil || hc.Transport != tr || hc.Jar != nil || hc.Timeout != 0 {
		t.Violate("http.Client changed", "%s changed the user's http.Client: %+v", n.name(), hc)
		return
	}
	if bc != nil && !reflect.DeepEqual(saved, *bc) {
		t.Violate("client changed", "%s changed the client: %+v to %+v", n.name(), saved, *bc)
		return
	}
	dc := http.DefaultClient
	if dc.CheckRedirect != nil || dc.Transport != nil || dc.Jar != nil || dc.Timeout != 0 {
		t.Violate("default changed", "%s changed http.DefaultClient: %+v", n.name(), dc)
		return
	}
	dt, okt := http.DefaultTransport.(*http.Transport)
	if !okt || dt.TLSClientConfig != nil && (dt.TLSClientConfig.InsecureSkipVerify || dt.TLSClientConfig.CipherSuites != nil) || dt.DisableKeepAlives || dt.Proxy == nil {
		t.Violate("default changed", "%s changed http.DefaultTransport", n.name())
		return
	}
	hc.CloseIdleConnections()
	t.Count("settings found unchanged", 1)
	t.Distinct("case", n.name(), fmt.Sprint(outcome))
}

// dumpValue writes every value in v, with what nil and empty are.
func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case ofxgo.Amount:
			b.WriteString(x.RatString())
			return
		case ofxgo.Date:
			name, off := x.Zone()
			fmt.Fprint(b, x.Time.UnixNano(), x.Time.Unix(), name, off)
			return
		case ofxgo.CurrSymbol:
			b.WriteString(x.Unit.String())
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpValue(b, v.Field(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	default:
		fmt.Fprintf(b, "%q", fmt.Sprint(v))
	}
}

func dump(x interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(x), 0)
	return b.String()
}

// blank empties values at random: leaves become zero, what was left out
// becomes present but empty, or the other way round.
func blank(r *rand.Rand, v reflect.Value, p float64, depth int) (n int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		switch {
		case v.IsNil():
			if v.CanSet() && r.Float64() < p {
				v.Set(reflect.New(v.Type().Elem()))
				n++
			}
			return
		case v.CanSet() && depth > 2 && r.Float64() < p:
			v.Set(reflect.Zero(v.Type()))
			return n + 1
		}
		return blank(r, v.Elem(), p, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr {
			return blank(r, e.Elem(), p, depth+1)
		}
		// values within interfaces are replaced as a whole
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		if n = blank(r, c, p, depth+1); n > 0 && v.CanSet() {
			v.Set(c)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" || f.Name == "XMLName" {
				continue
			}
			x := v.Field(i)
			if x.Kind() == reflect.Ptr && x.IsNil() && x.CanSet() {
				// alternatives are both there
				for j := 0; j < v.NumField(); j++ {
					if y := v.Field(j); j != i && y.Type() == x.Type() && !y.IsNil() && r.Float64() < min(.3, 20*p) {
						x.Set(reflect.New(x.Type().Elem()))
						if r.IntN(2) == 0 {
							x.Elem().Set(y.Elem())
						}
						n++
						break
					}
				}
				if !x.IsNil() {
					continue
				}
			}
			if x.CanSet() && x.Kind() != reflect.Slice && x.Kind() != reflect.Ptr && x.Kind() != reflect.Interface && r.Float64() < p {
				x.Set(reflect.Zero(x.Type()))
				n++
				continue
			}
			switch x.Interface().(type) {
			case ofxgo.Amount, ofxgo.Date, ofxgo.CurrSymbol:
				continue
			}
			n += blank(r, x, p, depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += blank(r, v.Index(i), p, depth+1)
		}
	}
	return
}

// c24blank: neither validating nor marshalling changes what it is given, be it
// as odd as it may.
func c24blank(t *T) {
	g := newG(t.R)
	var m interface {
		Marshal() (*bytes.Buffer, error)
	}
	valid := func() string { return "" }
	if t.R.IntN(3) == 0 {
		d := g.request()
		if t.R.IntN(2) == 0 {
			d = g.validRequest()
		}
		m = d.goRequest()
	} else {
		d := g.response()
		if t.R.IntN(2) == 0 {
			for _, a := range d.all() {
				normalize(a)
				g.repair(a, d.Version)
			}
		}
		resp := d.goResponse()
		m = resp
		valid = func() string { ok, err := resp.Valid(); return fmt.Sprint(ok, errText(err)) }
	}
	p := pick(t.R, []float64{.001, .01, .05, .2})
	n := blank(t.R, reflect.ValueOf(m).Elem(), p, 0)
	if q, ok := m.(*ofxgo.Request); ok {
		// what requests always hold is filled in
		q.Signon.Language = "ENG"
		for _, set := range reflectSets(q) {
			for _, x := range set {
				if p, ok := x.(*ofxgo.ProfileRequest); ok {
					p.ClientRouting = "NONE"
				}
			}
		}
	}
	before := dump(m)
	var first string
	for i := 0; i < 2; i++ {
		now := func() (s string) {
			defer func() {
				if x := recover(); x != nil {
					// whether such values can be taken isn't judged here
					t.Count("values which panicked", 1)
					s = "panic"
				}
			}()
			s = valid()
			b, err := m.Marshal()
			s += errText(err)
			if err == nil {
				s += b.String()
			}
			return s
		}()
		if after := dump(m); after != before {
			t.File("before.txt", before)
			t.File("after.txt", after)
			t.Violate("changed", "validating and marshalling changed what they were given, at %s", firstDiff(before, after))
			return
		}
		if i > 0 && now != first {
			t.Violate("unstable", "validating and marshalling again differs at %s", firstDiff(first, now))
			return
		}
		first = now
	}
	t.Count("values emptied", int64(n))
	t.Count("odd values left unchanged", 1)
	t.Distinct("case", before)
}

// reflectSets are all of a request's message sets.
func reflectSets(q *ofxgo.Request) (sets [][]ofxgo.Message) {
	v := reflect.ValueOf(q).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath == "" {
			if ms, ok := v.Field(i).Interface().([]ofxgo.Message); ok {
				sets = append(sets, ms)
			}
		}
	}
	return
}
