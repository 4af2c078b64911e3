package main

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// The generator of the enumerations, as `go generate` runs it on copies of the
// working tree.

// What the generator wrote when it was right. Other output is judged by what
// it does; this is only to tell whose fault it is if it can't be built.
const generatedSum = "def5c74ada45bd82fa5ebb98d8125a36f29a15655cd50cf474679d6a45752478"

var (
	genOnce  sync.Once
	genTree  string // a freshly generated tree
	genFiles map[string]string
)

func init() {
	register(&Check{ID: "C30", Quick: 1, Min: 20,
		Rule: "go generate in copies of the tree, with missing, stale, longer and damaged older output and different settings of the process, the results compared with one another; then the library built from it, against the frozen table through all of C15's ways, its numbers against the repository's constants, and the generated tests; non-trivial: a distinct (older output, setting), and what C15 counts",
		Run: func(c *C) {
			c.Cases("generate", c.N(48, 400), c30generate)
			c.Serial("build", 1, c30build)
		}})
}

// copyTree copies the working tree, without its history.
func copyTree(to string) error {
	return filepath.WalkDir("/repo", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel("/repo", p)
		switch {
		case d.IsDir() && d.Name() == ".git":
			return filepath.SkipDir
		case d.IsDir():
			return os.MkdirAll(filepath.Join(to, rel), 0777)
		case !d.Type().IsRegular():
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		st, err := d.Info()
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, st.Mode().Perm())
	})
}

// treeOf is the contents of all files.
func treeOf(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// goTool runs the go command somewhere.
func goTool(dir string, env []string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "OFXMON_") && !strings.HasPrefix(e, "OFX_BIN") && !strings.HasPrefix(e, "TZ=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	out, err := cmd.CombinedOutput()
	return string(out), err
}

// python has a directory in which python is, whatever the system calls it.
func python(dir string) string {
	p, err := exec.LookPath("python")
	if err != nil {
		if p, err = exec.LookPath("python3"); err != nil {
			return ""
		}
	}
	os.MkdirAll(dir, 0777)
	os.Symlink(p, filepath.Join(dir, "python"))
	return dir
}

// generated makes the reference tree, once.
func (t *T) generated() bool {
	genOnce.Do(func() {
		tree := filepath.Join(t.Scratch, "generated")
		if err := copyTree(tree); err != nil {
			fmt.Fprintln(os.Stderr, "ofxmon:", err)
			os.Exit(2)
		}
		bin := python(filepath.Join(t.Scratch, "bin"))
		if bin == "" {
			fmt.Fprintln(os.Stderr, "ofxmon: there is no python")
			os.Exit(2)
		}
		before := treeOf(tree)
		out, err := goTool(tree, []string{"PATH=" + os.Getenv("PATH") + ":" + bin}, "generate", ".")
		if err != nil {
			t.Violate("generate", "go generate failed: %v: %s", err, clip(out, 2000))
			return
		}
		after := treeOf(tree)
		genFiles = after
		genTree = tree
		for f := range after {
			if before[f] == after[f] {
				continue
			}
			if f != "constants.go" && f != "constants_test.go" {
				t.Violate("files", "go generate changed %s, at %s", f, firstDiff(before[f], after[f]))
			}
			t.Count("files changed by generating", 1)
		}
		for f := range before {
			if _, ok := after[f]; !ok {
				t.Violate("files", "go generate removed %s", f)
			}
		}
	})
	return genTree != ""
}

// c30generate: generating gives the same, whatever was there before.
func c30generate(t *T) {
	if !t.generated() {
		return
	}
	dir := t.tempDir()
	defer os.RemoveAll(dir)
	tree := filepath.Join(dir, "a tree")
	if err := copyTree(tree); err != nil {
		fmt.Fprintln(os.Stderr, "ofxmon:", err)
		os.Exit(2)
	}
	r := t.R
	var how []string
	for _, f := range []string{"constants.go", "constants_test.go"} {
		p := filepath.Join(tree, f)
		b, err := os.ReadFile(p)
		if err != nil || len(b) < 100 {
			continue
		}
		h := pick(r, []string{"same", "none", "longer", "shorter", "empty", "old"})
		switch h {
		case "none":
			os.Remove(p)
		case "longer":
			b = append(b, strings.Repeat("\n// more of it, from longer ago", 1+r.IntN(3000))...)
		case "shorter":
			b = b[:20+r.IntN(len(b))*9/10]
		case "empty":
			b = []byte("package ofxgo\n")
		case "old":
			b = []byte("package ofxgo\n" + strings.ReplaceAll(string(b[min(len(b), 14):]), word(r, 1), word(r, 1)))
		}
		if h != "none" {
			os.WriteFile(p, b, 0666)
		}
		how = append(how, h)
	}
	env := []string{"PATH=" + os.Getenv("PATH") + ":" + filepath.Join(t.Scratch, "bin"),
		"PYTHONHASHSEED=" + fmt.Sprint(r.IntN(100000)),
		"PYTHONOPTIMIZE=" + pick(r, []string{"", "1", "2"}),
		"PYTHONUTF8=" + pick(r, []string{"0", "1"}),
		"LC_ALL=" + pick(r, []string{"C", "C.UTF-8", "POSIX", ""}),
		"TZ=" + pick(r, zones)}
	n := 1 + r.IntN(2)
	for i := 0; i < n; i++ {
		if out, err := goTool(tree, env, "generate", "."); err != nil {
			t.Violate("generate", "go generate failed over %v: %v: %s", how, err, clip(out, 2000))
			return
		}
	}
	got := treeOf(tree)
	var names []string
	for f := range got {
		names = append(names, f)
	}
	for f := range genFiles {
		if _, ok := got[f]; !ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		g, ok := got[f]
		if w, ok2 := genFiles[f]; g != w || ok != ok2 {
			t.File(filepath.Base(f), g)
			t.Violate("generated", "generating over %v with %q gives another %s, differing at %s", how, env[1:], f, firstDiff(w, g))
			return
		}
	}
	t.Count("files compared", int64(len(names)))
	t.Distinct("case", append(how, env[2:]...)...)
}

var testName = regexp.MustCompile(`(?m)^func (Test\w+)\(`)

// c30build: what is generated works like the standard's enumerations.
func c30build(t *T) {
	if !t.generated() {
		return
	}
	suspect := fmt.Sprintf("%x", sha256.Sum256([]byte(genFiles["constants.go"]+"\x00"+genFiles["constants_test.go"]))) != generatedSum
	bin := filepath.Join(t.Scratch, "ofxmon-generated")
	harness := filepath.Join(t.Verif, "harness")
	mod, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	sum, err2 := os.ReadFile(filepath.Join(harness, "go.sum"))
	if err != nil || err2 != nil {
		fmt.Fprintln(os.Stderr, "ofxmon:", err, err2)
		os.Exit(2)
	}
	modfile := filepath.Join(t.Scratch, "generated.mod")
	os.WriteFile(modfile, []byte(strings.ReplaceAll(string(mod), "=> /repo", "=> "+genTree)), 0666)
	os.WriteFile(filepath.Join(t.Scratch, "generated.sum"), sum, 0666)
	out, err := goTool(harness, nil, "build", "-modfile="+modfile, "-o", bin, "./ofxmon")
	if err == nil {
		out, err = goTool(genTree, nil, "test", "-vet=off", "-run", "^$", "./...")
	}
	if err != nil {
		t.File("constants.go", genFiles["constants.go"])
		if suspect {
			t.Violate("build", "with what is generated the library can't be built: %v: %s", err, clip(out, 3000))
		} else {
			// something else of the library, moved by hand
			t.Count("not built, with the right constants", 1)
		}
		return
	}
	t.Count("libraries built", 1)
	// Its enumerations are those of the standard.
	scratch := filepath.Join(t.Scratch, "verif")
	os.MkdirAll(scratch, 0777)
	tier := t.Tier
	env := []string{fmt.Sprintf("VERIF_SEED=%d", t.Seed)}
	run := func(args ...string) (string, error) {
		cmd := exec.Command(args[0], args[1:]...)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "OFXMON_") && !strings.HasPrefix(e, "VERIF_SEED=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, env...)
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	out, err = run(bin, "C15", "-tier", tier, "-verif", scratch)
	if err != nil {
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			fmt.Fprintln(os.Stderr, "ofxmon: can't judge what was generated:", err, clip(out, 2000))
			os.Exit(2)
		}
		t.File("constants.go", genFiles["constants.go"])
		t.Violate("enumerations", "what was generated isn't the standard's: %s", clip(strings.ReplaceAll(out, "VIOLATION property", "violation of"), 4000))
		return
	}
	for _, l := range strings.Split(out, "\n") {
		if f := strings.Fields(l); len(f) > 2 && f[0] == "observed" {
			t.Count("generated: "+strings.Join(f[1:len(f)-1], " "), 1)
		}
	}
	// Its numbers are the repository's.
	here, err := run(os.Args[0], "enums")
	there, err2 := run(bin, "enums")
	if err != nil || err2 != nil {
		t.Violate("enumerations", "printing the constants failed: %v, %v: %s", err, err2, clip(here+there, 2000))
		return
	}
	a, b := strings.Split(here, "\n"), strings.Split(there, "\n")
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			t.Violate("constants", "the repository has %q, generated is %q", a[i], b[min(i, len(b)-1)])
			return
		}
		t.Distinct("case", "constant", a[i])
	}
	t.Count("constants compared", int64(len(a)))
	// Its tests pass.
	var tests []string
	for _, m := range testName.FindAllStringSubmatch(genFiles["constants_test.go"], -1) {
		tests = append(tests, m[1])
	}
	if len(tests) < len(enumList) {
		t.Violate("tests", "%d tests were generated for %d enumerations", len(tests), len(enumList))
		return
	}
	out, err = goTool(genTree, nil, "test", "-count=1", "-vet=off", "-v", "-run", "^("+strings.Join(tests, "|")+")$", ".")
	if n := strings.Count(out, "--- PASS: Test"); err != nil || n != len(tests) {
		t.Violate("tests", "%d of %d generated tests passed: %v: %s", n, len(tests), err, clip(out, 3000))
		return
	}
	t.Count("generated tests passed", int64(len(tests)))
}

// enumsMain prints all constants.
func enumsMain() {
	for i := range enumList {
		o := enumOpsFor(i)
		for j, v := range o.consts {
			fmt.Printf("%s %d %d %s\n", o.def.Name, j, v, o.str(v))
		}
	}
}
