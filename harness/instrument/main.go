// Command instrument writes copies of Go files with scheduling points: before
// every statement, or at the start of every method.
//
//	instrument [-methods] [-atomic] outdir file...
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	methods := flag.Bool("methods", false, "only at the start of methods")
	atomics := flag.Bool("atomic", false, "also let operations of sync/atomic yield")
	flag.Parse()
	out := flag.Arg(0)
	for i, f := range flag.Args()[1:] {
		name := filepath.Base(f)
		if !*methods {
			name = fmt.Sprintf("%d_%s", i, name)
		}
		if err := rewrite(f, filepath.Join(out, name), *methods, *atomics); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
}

func rewrite(in, out string, methods, atomics bool) error {
	src, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, in, src, parser.ParseComments)
	if err != nil {
		return err
	}
	type edit struct {
		at, end int
		text    string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	insert := func(at int, text string) { edits = append(edits, edit{at, at, text}) }
	insert(off(f.Name.End()), `; import verifsched "aqlverif/sched"; var _ = verifsched.Yield`)
	if len(f.Imports) > 0 || hasImportDecl(f) {
		// declarations must follow the imports
		edits[0].text = `; import verifsched "aqlverif/sched"`
		insert(len(src), "\nvar _ = verifsched.Yield\n")
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			insert(off(s.Pos()), "verifsched.Yield();")
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		if methods {
			if fd.Recv != nil {
				insert(off(fd.Body.Lbrace)+1, "verifsched.Yield();")
			}
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				list(b.List)
			case *ast.CaseClause:
				list(b.Body)
			case *ast.CommClause:
				list(b.Body)
			}
			return true
		})
	}
	if atomics {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync/atomic"` {
				text := `"aqlverif/satomic"`
				if im.Name == nil {
					text = "atomic " + text
				}
				edits = append(edits, edit{off(im.Path.Pos()), off(im.Path.End()), text})
			}
		}
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
	for _, e := range edits {
		src = append(src[:e.at:e.at], append([]byte(e.text), src[e.end:]...)...)
	}
	return os.WriteFile(out, src, 0o600)
}

func hasImportDecl(f *ast.File) bool {
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			return true
		}
	}
	return false
}
