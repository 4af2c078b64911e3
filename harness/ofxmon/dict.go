package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The dictionary of numbers and texts which occur in the sources under test
// but didn't when the checks were written. What a change compares with, counts
// to or looks for is drawn by the generators now and then, so that what depends
// on it gets observed. It only adds cases: verdicts don't depend on it.

//go:embed literals.txt
var knownLiterals string

var (
	dictOnce  sync.Once
	dictInts  []int64
	dictTexts []string
)

// sourceLiterals counts the literals of each file.
func sourceLiterals() map[string]int {
	out := map[string]int{}
	fset := token.NewFileSet()
	for _, p := range []string{"/repo/*.go", "/repo/cmd/ofx/*.go"} {
		files, _ := filepath.Glob(p)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			a, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
			if err != nil {
				continue
			}
			name := strings.TrimPrefix(f, "/repo/")
			add := func(v constant.Value) {
				if v.Kind() == constant.String && len(constant.StringVal(v)) > 300 {
					return
				}
				out[name+" "+v.ExactString()]++
			}
			var eval func(x ast.Expr) constant.Value
			eval = func(x ast.Expr) (v constant.Value) {
				defer func() {
					if recover() != nil {
						v = nil
					}
				}()
				switch x := x.(type) {
				case *ast.BasicLit:
					v = constant.MakeFromLiteral(x.Value, x.Kind, 0)
				case *ast.ParenExpr:
					return eval(x.X)
				case *ast.BinaryExpr:
					a, b := eval(x.X), eval(x.Y)
					if a == nil || b == nil {
						return nil
					}
					switch x.Op {
					case token.SHL, token.SHR:
						n, _ := constant.Uint64Val(b)
						if n > 100 {
							return nil
						}
						v = constant.Shift(a, x.Op, uint(n))
					case token.ADD, token.SUB, token.MUL, token.REM:
						v = constant.BinaryOp(a, x.Op, b)
					case token.QUO:
						v = constant.BinaryOp(a, token.QUO_ASSIGN, b)
					default:
						return nil
					}
				default:
					return nil
				}
				if v != nil && v.Kind() == constant.Unknown {
					return nil
				}
				return v
			}
			ast.Inspect(a, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					x.Tag = nil
				case *ast.BinaryExpr:
					if v := eval(x); v != nil {
						add(v)
					}
				case *ast.BasicLit:
					if v := eval(x); v != nil {
						add(v)
						if x.Kind == token.CHAR {
							if k, ok := constant.Int64Val(v); ok && k > 0 && k < 1<<21 {
								add(constant.MakeString(string(rune(k))))
							}
						}
					}
				}
				return true
			})
		}
	}
	return out
}

// literalsMain prints the literals of the sources, for literals.txt.
func literalsMain() {
	var out []string
	for k, n := range sourceLiterals() {
		out = append(out, fmt.Sprintf("%d %s", n, k))
	}
	sort.Strings(out)
	for _, l := range out {
		fmt.Println(l)
	}
}

func loadDict() {
	known := map[string]int{}
	if os.Getenv("OFXMON_DICT") == "all" {
		knownLiterals = ""
	}
	for _, l := range strings.Split(knownLiterals, "\n") {
		if n, k, ok := strings.Cut(l, " "); ok {
			known[k], _ = strconv.Atoi(n)
		}
	}
	seen := map[string]bool{}
	var all []string
	for k, n := range sourceLiterals() {
		if n > known[k] {
			_, v, _ := strings.Cut(k, " ")
			all = append(all, v)
		}
	}
	sort.Strings(all)
	for _, v := range all {
		if seen[v] {
			continue
		}
		seen[v] = true
		if s, err := strconv.Unquote(v); err == nil {
			if s = strings.TrimSpace(s); s != "" {
				dictTexts = append(dictTexts, s)
				for _, w := range strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" <>:=/?&\"%\n\r\t,;|()[]{}", r) }) {
					if w != s && len(w) > 1 {
						dictTexts = append(dictTexts, w)
					}
				}
				if len(s) > 1 && len(s) < 2000 {
					dictInts = append(dictInts, int64(len(s)))
				}
			}
			if i, err := strconv.ParseInt(s, 10, 64); err == nil {
				dictInts = append(dictInts, i)
			}
			continue
		}
		if i, err := strconv.ParseInt(v, 10, 64); err == nil {
			dictInts = append(dictInts, i)
			dictTexts = append(dictTexts, v)
		} else if p, q, ok := strings.Cut(v, "/"); ok { // a fraction
			a, err1 := strconv.ParseFloat(p, 64)
			b, err2 := strconv.ParseFloat(q, 64)
			if err1 == nil && err2 == nil && b != 0 {
				dictTexts = append(dictTexts, strconv.FormatFloat(a/b, 'f', -1, 64))
			}
		}
	}
	if os.Getenv("OFXMON_DICT") == "show" {
		fmt.Fprintf(os.Stderr, "dictionary: %q %d\n", dictTexts, dictInts)
	}
}

// dictInt is a number of the dictionary, or next to one, between lo and hi.
func dictInt(r *rand.Rand, p float64, lo, hi int64) (int64, bool) {
	dictOnce.Do(loadDict)
	if len(dictInts) == 0 || r.Float64() >= p {
		return 0, false
	}
	for k := 0; k < 4; k++ {
		n := dictInts[r.IntN(len(dictInts))]
		switch r.IntN(8) {
		case 0:
			n--
		case 1, 2:
			n++
		case 3:
			n *= 2
		case 4:
			n += int64(r.IntN(10))
		}
		if n >= lo && n <= hi {
			return n, true
		}
	}
	return 0, false
}

// dictText is a text of the dictionary, or one with such a text in it.
func dictText(r *rand.Rand, p float64) (string, bool) {
	dictOnce.Do(loadDict)
	if len(dictTexts) == 0 || r.Float64() >= p {
		return "", false
	}
	s := dictTexts[r.IntN(len(dictTexts))]
	switch r.IntN(12) {
	case 0:
		s = strings.ToUpper(s)
	case 1:
		s = strings.ToLower(s)
	case 2:
		s += word(r, 1+r.IntN(4))
	case 3:
		s = word(r, 1+r.IntN(4)) + s
	case 4:
		s = word(r, 1+r.IntN(3)) + s + word(r, 1+r.IntN(3))
	case 5:
		s = word(r, 3) + " " + s + " " + word(r, 2)
	case 6:
		s += s
	}
	return s, true
}

var (
	sourceOnce  sync.Once
	sourceFiles [][]string
)

// sourceText is a text which occurs in the sources, new or not.
func sourceText(r *rand.Rand, p float64) (string, bool) {
	if r.Float64() >= p {
		return "", false
	}
	sourceOnce.Do(func() {
		files := map[string][]string{}
		var keys []string
		for k := range sourceLiterals() {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			f, v, _ := strings.Cut(k, " ")
			if s, err := strconv.Unquote(v); err == nil && strings.TrimSpace(s) != "" {
				files[f] = append(files[f], strings.TrimSpace(s))
			}
		}
		var names []string
		for f := range files {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			sourceFiles = append(sourceFiles, files[f])
		}
	})
	if len(sourceFiles) == 0 {
		return "", false
	}
	return pick(r, pick(r, sourceFiles)), true
}

// dictPlain is dictText reduced to some characters.
func dictPlain(r *rand.Rand, p float64, allowed string) (string, bool) {
	s, ok := dictText(r, p)
	if !ok {
		return "", false
	}
	s = strings.Map(func(c rune) rune {
		if c < 128 && (c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || strings.ContainsRune(allowed, c)) {
			return c
		}
		return -1
	}, s)
	return s, s != ""
}
