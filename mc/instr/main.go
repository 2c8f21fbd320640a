// Command instr writes instrumented copies of Go source files and an overlay
// that puts them in the place of the originals: before every statement of
// every function a scheduling point is inserted, on the same line.
//
// usage: instr OUTDIR OVERLAY.json DIR[:FUNC,FUNC...] ...
// With a function list, only those functions of that directory's files.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var next int

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

func instrument(path string, funcs map[string]bool) ([]byte, int) {
	src, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		die(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, off(s.Pos()))
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if len(funcs) > 0 && !funcs[fd.Name.Name] {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.SwitchStmt:
				// its body is a list of clauses, not of statements
				for _, c := range v.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, c := range v.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, c := range v.Body.List {
					list(c.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				for _, s := range v.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(v.List)
			}
			return true
		})
	}
	if len(at) == 0 {
		return nil, 0
	}
	sort.Ints(at)
	var b strings.Builder
	pk := off(f.Name.End())
	b.Write(src[:pk])
	b.WriteString("; import sched_ \"verif/mc/sched\"")
	last := pk
	for i, o := range at {
		if i > 0 && at[i-1] == o {
			continue
		}
		b.Write(src[last:o])
		next++
		fmt.Fprintf(&b, "sched_.Point(%d); ", next)
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), len(at)
}

func main() {
	if len(os.Args) < 4 {
		die("usage: instr OUTDIR OVERLAY.json DIR[:FUNC,...] ...")
	}
	out, ov := os.Args[1], os.Args[2]
	repl := map[string]string{}
	for _, a := range os.Args[3:] {
		dir, fl, _ := strings.Cut(a, ":")
		funcs := map[string]bool{}
		if fl != "" {
			for _, f := range strings.Split(fl, ",") {
				funcs[f] = true
			}
		}
		var files []string
		_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if i.IsDir() {
				n := i.Name()
				if p != dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || n == "cref") {
					return filepath.SkipDir
				}
				return nil
			}
			if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		})
		sort.Strings(files)
		for _, p := range files {
			b, n := instrument(p, funcs)
			if n == 0 {
				continue
			}
			o := filepath.Join(out, fmt.Sprintf("f%03d.go", len(repl)))
			if err := os.WriteFile(o, b, 0o644); err != nil {
				die(err)
			}
			repl[p] = o
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		die(err)
	}
	fmt.Fprintf(os.Stderr, "instrumented %d files, %d points\n", len(repl), next)
}
