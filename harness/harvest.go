package main

// Words and numbers that occur in the sources of the code under test, used as
// additional vocabulary of the workloads.

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const repoDir = "/repo"

// value is that of a constant expression of literals.
func value(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = constant.MakeUnknown()
		}
	}()
	switch l := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(l.Value, l.Kind, 0)
	case *ast.ParenExpr:
		return value(l.X)
	case *ast.BinaryExpr:
		x, y := value(l.X), value(l.Y)
		switch l.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 64 {
				return constant.Shift(x, l.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(x, l.Op, y)
		}
	}
	return constant.MakeUnknown()
}

var novelWords []string // words of the sources that are not in vocab
var sizes []int         // sizes at which something may change

func init() {
	words, nums := map[string]bool{}, map[int]bool{}
	names, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
	more, _ := filepath.Glob(filepath.Join(repoDir, "*", "*.go"))
	for _, name := range append(names, more...) {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch l := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				if v, ok := constant.Int64Val(constant.ToInt(value(l))); ok && v > 0 && v < 1<<26 {
					nums[int(v)] = true
				}
			case *ast.BasicLit:
				switch l.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) <= 24 {
						words[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil {
						words[s] = true
					}
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v > 0 {
						words[strconv.FormatInt(v, 10)] = true
						if v < 1<<26 {
							nums[int(v)] = true
						}
					}
				}
			}
			return true
		})
	}
	for _, w := range vocab {
		delete(words, w)
	}
	for w := range words {
		novelWords = append(novelWords, w)
	}
	sort.Strings(novelWords)
	for k := 3; k <= 17; k++ {
		nums[1<<k] = true
	}
	for n := range nums {
		sizes = append(sizes, n)
	}
	sort.Ints(sizes)
}

var wordPlaces = []string{
	"when month[%s] == a", "when month[jan,%s]", "when weekday[%s]", "when weekday[mon .. %s]", "when weekday[%s .. fri] == a", "when time[10:30%s]", "when time[%s:30]", "when time[9:30 %s, 10:30]",
	"when date[2022-%s-10]", "when date[%s-10-10]", "when 5%s", "when a == 1.5 %s", "when -5%s", "when a + 2%s > 3", "when a %s b", "when a %s 5", "when %s[1,2]", "when a{%s}", "when a{\"x\",%s}", "when a:%s",
	"when a:1,%s", "when @%s", "trigger set %s = 1 when a", "trigger set v = %s; when @v", "trigger set v = 5%s when a", "trigger set a = 1; %s = 2; b = 3 when a", "when a repeat 5 %s 5s",
	"when a repeat %s", "when a repeat 5 every %s", "when a repeat 5 every 5%s", "when a reset %s 5s", "when a reset after %s", "when a reset after 5%s", "%s when a", "trigger %s when a", "when a %s",
	"when a reset after 5s %s", "when point[1,2]:5%s", "when point[%s,1]", "when line[[1,%s],[2,3]]:5%s", "when [%s]", "when [%s,%s]", "when [1,%s]", "when 1 .. %s", "when %s .. 2", "when a not %s b",
	"when a in %s[point[1,2]]", "when a in %s[line[[1,2],[3,4]]]", "when %s", "when not %s", "when (%s)", "when -%s", "when %s:1", "when %s{\"d\"}", "when %s{*}:1", "when \"%s\"", "when a{\"%s\"}", "when a == \"%s\" and b", "%s", "when a /*%s*/ + b", "when a // %s\n+ b",
	"when A%s", "when %sA + 1", "when a and %s and b or c", "when @%s + @A%s",
}

// wordPart puts every word of the vocabulary and of the sources wherever a
// word may matter.
func wordPart(check func(c *ctx, src string)) part {
	all := append(append([]string(nil), vocab...), novelWords...)
	n := len(all) * len(wordPlaces)
	return part{"words of the sources", n, 10 * n, func(c *ctx, r *rand.Rand, i int) {
		w := all[i%len(all)]
		if i >= n || r.Intn(4) == 0 {
			w = recaseASCII(w, []func(string) string{strings.ToUpper, strings.Title}[r.Intn(2)])
		}
		check(c, strings.ReplaceAll(wordPlaces[i/len(all)%len(wordPlaces)], "%s", w))
		if i%4 == 0 {
			s, _, _ := statement(r, anyStmt, i/4%4)
			p := pieces(s)
			k := r.Intn(len(p))
			check(c, strings.Join(p[:k], "")+" "+w+" "+strings.Join(p[k+r.Intn(2):], ""))
		}
	}}
}

// everyPart is wordPart without random choices, for observations that must
// not differ between processes.
func everyPart(see func(c *ctx, src string)) part {
	n := len(vocab) * len(wordPlaces)
	return part{"words " + everywhere, n, n, func(c *ctx, r *rand.Rand, i int) {
		see(c, strings.ReplaceAll(wordPlaces[i%len(wordPlaces)], "%s", vocab[i/len(wordPlaces)]))
	}}
}
