// instr writes a go build overlay that adds a step counter to every block of
// the repository's non-test code. Counters give logical time (to bound work
// without a clock) and coverage; they change nothing else. With a third
// argument "yield" the blocks give up the thread at random instead.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	yield := len(os.Args) > 3 && os.Args[3] == "yield"
	die(os.MkdirAll(out, 0o755))
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	die(err)
	path := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			path = strings.Trim(f[1], `"`)
		}
	}
	replace := map[string]string{}
	n, blocks := 0, []string{}
	var files []string
	die(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if b := d.Name(); p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	for _, p := range files {
		src, err := os.ReadFile(p)
		die(err)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		die(err)
		if f.Name.Name == "main" {
			continue
		}
		type ins struct {
			at   int
			text string
		}
		var list []ins
		add := func(pos token.Pos) {
			list = append(list, ins{fset.Position(pos).Offset, fmt.Sprintf("zzverif.Step(%d);", n)})
			rel, _ := filepath.Rel(repo, p)
			blocks = append(blocks, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
			n++
		}
		block := func(b *ast.BlockStmt) {
			if b != nil {
				add(b.Lbrace + 1)
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch t := x.(type) {
			case *ast.FuncDecl:
				block(t.Body)
			case *ast.FuncLit:
				block(t.Body)
			case *ast.IfStmt:
				block(t.Body)
				if b, ok := t.Else.(*ast.BlockStmt); ok {
					block(b)
				}
			case *ast.ForStmt:
				block(t.Body)
			case *ast.RangeStmt:
				block(t.Body)
			case *ast.CaseClause:
				add(t.Colon + 1)
			case *ast.CommClause:
				add(t.Colon + 1)
			}
			return true
		})
		if len(list) == 0 {
			continue
		}
		list = append(list, ins{fset.Position(f.Name.End()).Offset, fmt.Sprintf("; import zzverif %q", path+"/zzverif")})
		sort.SliceStable(list, func(i, j int) bool { return list[i].at < list[j].at })
		var b strings.Builder
		at := 0
		for _, i := range list {
			b.Write(src[at:i.at])
			b.WriteString(i.text)
			at = i.at
		}
		b.Write(src[at:])
		dst := filepath.Join(out, fmt.Sprintf("f%d.go", len(replace)))
		die(os.WriteFile(dst, []byte(b.String()), 0o644))
		replace[p] = dst
	}
	hook := fmt.Sprintf(`package zzverif

const N = %d

var (
	Hits  [N + 1]uint32
	Total uint64
	Limit uint64 = 1 << 62
	Trip  = func() {}
)

func Step(i int) {
	Hits[i]++
	Total++
	if Total > Limit {
		Trip()
	}
}

var Blocks = []string{
`, n)
	if yield {
		// no counters, which would be shared: the thread may be given up
		hook = fmt.Sprintf(`package zzverif

import (
	"math/rand/v2"
	"runtime"
)

const N = %d

func Step(i int) {
	if rand.Uint32()%%61 == 0 {
		runtime.Gosched()
	}
}

var Blocks = []string{
`, n)
	}
	for _, s := range blocks {
		hook += fmt.Sprintf("\t%q,\n", s)
	}
	hook += "}\n"
	dst := filepath.Join(out, "zzverif.go")
	die(os.WriteFile(dst, []byte(hook), 0o644))
	replace[filepath.Join(repo, "zzverif", "zzverif.go")] = dst
	js, err := json.Marshal(map[string]any{"Replace": replace})
	die(err)
	die(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
}
