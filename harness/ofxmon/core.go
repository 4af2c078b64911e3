// Command ofxmon drives the code of /repo under generated, hostile and
// concurrent workloads and decides the properties of /verif/properties.jsonl
// with monitors which observe its executions.
//
//	ofxmon ID [-tier quick|thorough] [-replay FILE]
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string  // how cases are made and what makes one non-trivial
	Quick float64 // factor of the quick tier's numbers of cases, 3 by default
	Min   int64   // fewest distinct non-trivial cases a run must observe
	Run   func(c *C)
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// C is the state of one run of one check.
type C struct {
	*Check
	Tier     string
	Seed     uint64
	Verif    string // root of /verif
	Scratch  string // private scratch directory, removed at the end
	replay   *Replay
	mu       sync.Mutex
	evals    int64
	counts   map[string]int64
	distinct map[string]map[uint64]struct{}
	samples  []string
	viol     []*Replay
	nviol    int64
	known    []string
	knownHit map[string]bool
}

// A Replay is everything needed to run one case again.
type Replay struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     uint64            `json:"seed"`
	Stream   string            `json:"stream"`
	Idx      int               `json:"idx"`
	Sig      string            `json:"sig"`
	Message  string            `json:"message"`
	Files    map[string]string `json:"files,omitempty"`
}

// T is one case: its random choices all come from R, which is determined by
// the seed, the property, the stream and the index.
type T struct {
	*C
	R      *rand.Rand
	Stream string
	Idx    int
	files  map[string]string
	tries  int  // how often the case was run before
	seen   bool // it violated the property this time
	doubt  int
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Thorough reports whether this is the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N picks the case count of a tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	f := c.Quick
	if f == 0 {
		f = 3
	}
	return max(quick, min(int(float64(quick)*f), thorough))
}

// Count records n observed events of a kind.
func (c *C) Count(kind string, n int64) {
	c.mu.Lock()
	c.counts[kind] += n
	c.mu.Unlock()
}

// Distinct records that a case of a kind, identified by key, was observed.
func (c *C) Distinct(kind string, key ...string) {
	h := hash64(key...)
	c.mu.Lock()
	m := c.distinct[kind]
	if m == nil {
		m = map[uint64]struct{}{}
		c.distinct[kind] = m
	}
	if len(m) < 5000000 {
		m[h] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (c *C) Sample(format string, args ...interface{}) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "…"
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// File attaches data to the case's replay, in case it violates the property.
func (t *T) File(name string, data string) {
	if t.files == nil {
		t.files = map[string]string{}
	}
	t.files[name] = data
}

// Violate reports that the property was observed to be broken. sig identifies
// what failed, for the known findings file.
func (t *T) Violate(sig, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	t.seen = true
	if t.tries == 0 && weather.MatchString(sig+" "+msg) {
		// The machine may have stalled or run out of something: the case has
		// to fail again before it counts.
		t.doubt++
		return
	}
	t.violate(sig, msg)
}

// weather are the signs of trouble which clients and servers of this very
// process, talking over the loopback interface, have when the machine does.
var weather = regexp.MustCompile(`(?i)time-?out|deadline|timed out|refused|reset by peer|broken pipe|cannot assign|too many open|temporarily unavailable|no buffer space|cannot allocate|number of requests`)

func (t *T) violate(sig, msg string) {
	c := t.C
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k == sig {
			if !c.knownHit[sig] {
				c.knownHit[sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, sig, oneLine(msg, 200))
			}
			return
		}
	}
	c.nviol++
	if len(c.viol) >= 5 {
		return
	}
	c.viol = append(c.viol, &Replay{c.ID, c.Tier, c.Seed, t.Stream, t.Idx, sig, msg, t.files})
}

func oneLine(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > n {
		s = s[:n] + "…"
	}
	return s
}

// Workers is how many cases run at once.
var Workers = runtime.GOMAXPROCS(0)

const caseWatchdog = 150 * time.Second

// No case needs more than a small part of this (the growing documents of C04
// some hundred megabytes).
const heapLimit = 12 << 30

// running holds the cases which are being run.
var running sync.Map

// watchMemory reports the cases which were running when the heap grew beyond
// all measure, before the system ends the process.
func (c *C) watchMemory() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for range time.Tick(100 * time.Millisecond) {
		metrics.Read(sample)
		if sample[0].Value.Uint64() < heapLimit {
			continue
		}
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		running.Range(func(k, _ interface{}) bool {
			k.(*T).violate("memory", fmt.Sprintf("the heap grew beyond %d bytes while this case ran\n%s", uint64(heapLimit), buf))
			return true
		})
		c.finish()
	}
}

// Cases runs f on n cases of a stream, several at once.
func (c *C) Cases(stream string, n int, f func(t *T)) { c.cases(stream, n, Workers, f) }

// Serial is like Cases, but one case after the other.
func (c *C) Serial(stream string, n int, f func(t *T)) { c.cases(stream, n, 1, f) }

func (c *C) cases(stream string, n, workers int, f func(t *T)) {
	lo := 0
	if c.replay != nil {
		if c.replay.Stream != stream {
			return
		}
		lo, n = c.replay.Idx, c.replay.Idx+1
	}
	next := int64(lo)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n {
					return
				}
				c.mu.Lock()
				stop := c.nviol >= 40
				c.mu.Unlock()
				if stop {
					return
				}
				c.one(stream, i, f)
			}
		}()
	}
	wg.Wait()
}

func (c *C) one(stream string, i int, f func(t *T)) {
	t := c.once(stream, i, 0, f)
	if t.doubt == 0 {
		return
	}
	for try := 1; try <= 3; try++ {
		if c.once(stream, i, try, f).seen {
			return
		}
	}
	c.Count("failures which didn't happen again", 1)
}

func (c *C) once(stream string, i, try int, f func(t *T)) (t *T) {
	h := hash64(c.ID, stream)
	t = &T{C: c, R: rand.New(rand.NewPCG(c.Seed^h, uint64(i)*0x9E3779B97F4A7C15+h)), Stream: stream, Idx: i, tries: try}
	// A case takes milliseconds. One that hasn't ended after minutes is hung
	// (and would hang its user): report it, as nothing can end the goroutine.
	wd := time.AfterFunc(caseWatchdog, func() {
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		t.violate("hang", fmt.Sprintf("case did not end within %s\n%s", caseWatchdog, buf))
		c.finish()
	})
	running.Store(t, nil)
	defer func() {
		wd.Stop()
		running.Delete(t)
		if p := recover(); p != nil {
			st := string(debug.Stack())
			t.Violate("panic: "+oneLine(fmt.Sprint(p), 80), "panic: %v\n%s", p, st)
		}
		if try == 0 {
			atomic.AddInt64(&c.evals, 1)
		}
	}()
	f(t)
	return t
}

var started = time.Now()

func (c *C) finish() {
	c.mu.Lock()
	nt := c.distinct["case"]
	kinds := map[string]int{}
	for k, m := range c.distinct {
		if k != "case" {
			kinds[k] = len(m)
		}
	}
	samples := c.samples
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         atomic.LoadInt64(&c.evals),
		"distinct_nontrivial": len(nt),
		"rule":                c.Rule,
		"samples":             samples,
		"observed_events":     c.counts,
		"observed_distinct":   kinds,
		"goroutines":          Workers,
		"race_detector":       raceEnabled,
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": int64(c.Seed), "level": c.Level,
		"coverage":    cov,
		"assumptions": []string{"held on the executions this run produced; see DESIGN.md for what the generators cannot reach"},
		"wall_s":      time.Since(started).Seconds(),
		"violations":  c.nviol,
	}
	if c.replay == nil {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0777)
		if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0666); err != nil {
			fmt.Fprintln(os.Stderr, "ofxmon: writing evidence:", err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n", c.ID, c.Tier, c.Seed, c.evals, len(nt), c.nviol, time.Since(started).Seconds())
	keys := make([]string, 0)
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  observed %-40s %d\n", k, c.counts[k])
	}
	for k, v := range kinds {
		fmt.Printf("  distinct %-40s %d\n", k, v)
	}
	if c.nviol > 0 {
		for i, v := range c.viol {
			fmt.Printf("--- violation %d of %d: stream=%s idx=%d sig=%q\n%s\n", i+1, c.nviol, v.Stream, v.Idx, v.Sig, clip(v.Message, 3000))
			writeReplay(c.Verif, v, i)
		}
		os.RemoveAll(c.Scratch)
		os.Exit(1)
	}
	if c.replay == nil && int64(len(nt)) < c.Min {
		fmt.Fprintf(os.Stderr, "ofxmon: inconclusive: observed only %d distinct non-trivial cases, want at least %d\n", len(nt), c.Min)
		os.RemoveAll(c.Scratch)
		os.Exit(3)
	}
	os.RemoveAll(c.Scratch)
	os.Exit(0)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func writeReplay(verif string, v *Replay, i int) {
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0777)
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", v.Property, i))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, p)
}

func knownFindings(verif, id string) []string {
	var out []string
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " sig="
		if strings.HasPrefix(l, p) {
			s, err := strconv.QuotedPrefix(l[len(p):])
			if err == nil {
				u, _ := strconv.Unquote(s)
				out = append(out, u)
			}
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		if len(os.Args) > 1 && helper(os.Args[1:]) {
			return
		}
		fmt.Fprintln(os.Stderr, "usage: ofxmon ID [-tier TIER] [-replay FILE]")
		os.Exit(2)
	}
	id := os.Args[1]
	fs := flag.NewFlagSet("ofxmon", flag.ExitOnError)
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := fs.String("replay", "", "replay file")
	verif := fs.String("verif", "/verif", "root of the framework")
	workers := fs.Int("workers", 0, "cases run at once")
	fs.Parse(os.Args[2:])
	if *tier != "thorough" {
		*tier = "quick"
	}
	if os.Getenv("OFXMON_CHILD") == "" {
		supervise(id, *tier, *verif)
		return
	}
	if *workers > 0 {
		Workers = *workers
	}
	seed := uint64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(s)
	}
	c := &C{Check: checks[id], Tier: *tier, Seed: seed, Verif: *verif,
		counts: map[string]int64{}, distinct: map[string]map[uint64]struct{}{}, knownHit: map[string]bool{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.replay = &Replay{}
		if err := json.Unmarshal(b, c.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Seed, c.Tier = c.replay.Seed, c.replay.Tier
	}
	c.known = knownFindings(c.Verif, id)
	// Nothing depends on where the process runs.
	zone := pick(rand.New(rand.NewPCG(c.Seed, hash64(id, "zone"))), append([]string{"UTC", "UTC"}, zones...))
	time.Local = location(zone)
	os.Setenv("TZ", zone)
	var err error
	c.Scratch = os.Getenv("OFXMON_CHILD")
	if err = os.MkdirAll(c.Scratch, 0777); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go c.watchMemory()
	c.Run(c)
	c.finish()
}

// supervise runs the check in a child process, so that a crash of the code
// under test which Go cannot recover from (stack exhaustion, concurrent map
// writes, deadlock, os.Exit, a data race report) is an observation like any
// other.
func supervise(id, tier, verif string) {
	scratch, err := os.MkdirTemp("", "ofxmon-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	makeCA(scratch)
	for _, e := range os.Environ() {
		switch k, _, _ := strings.Cut(e, "="); strings.ToLower(k) {
		case "http_proxy", "https_proxy", "all_proxy", "no_proxy", "ssl_cert_file", "ssl_cert_dir", "godebug":
		default:
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "SSL_CERT_FILE="+filepath.Join(scratch, "ca.pem"), "SSL_CERT_DIR="+filepath.Join(scratch, "none"), "OFXMON_CHILD="+filepath.Join(scratch, "s"), "GORACE=halt_on_error=1 exitcode=66", "TZ=UTC")
	cmd.Stdout = os.Stdout
	var tail ring
	cmd.Stderr = io.MultiWriter(os.Stderr, &tail)
	err = cmd.Run()
	os.RemoveAll(scratch)
	code := 0
	if err != nil {
		code = 99
		if ee, ok := err.(*exec.ExitError); ok && ee.Exited() {
			code = ee.ExitCode()
		}
	}
	switch {
	case code == 0 || code == 1 || code == 3:
		os.Exit(code)
	}
	out := tail.String()
	// Only a crash with a Go runtime report is an observation about the code;
	// anything else (being killed, running out of memory) is inconclusive.
	for _, sign := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: ", "goroutine stack exceeds", "checkptr:"} {
		if i := strings.Index(out, sign); i >= 0 {
			line, _ := bufio.NewReader(strings.NewReader(out[i:])).ReadString('\n')
			if strings.Contains(line, "out of memory") || strings.Contains(line, "cannot allocate") {
				break
			}
			writeReplay(verif, &Replay{Property: id, Tier: tier, Sig: "crash: " + strings.TrimSpace(line), Message: out}, 0)
			os.Exit(1)
		}
	}
	fmt.Fprintln(os.Stderr, "ofxmon: the check's process ended with", err)
	os.Exit(2)
}

type ring struct{ b bytes.Buffer }

func (r *ring) Write(p []byte) (int, error) {
	if r.b.Len() < 1<<20 {
		r.b.Write(p)
	}
	return len(p), nil
}
func (r *ring) String() string { return r.b.String() }
