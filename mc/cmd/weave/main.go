// Command weave writes copies of a module's source files with a scheduling point before
// every statement, and the overlay file that puts them in place of the originals.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := flag.String("root", "", "module directory")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	replace := map[string]string{}
	points := 0
	err := filepath.WalkDir(*root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		name := d.Name()
		if d.IsDir() {
			if path != *root && (strings.HasPrefix(name, ".") || name == "testdata" || name == "wasm" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		text, n, err := weave(path, src)
		if err != nil {
			return err
		}
		if n == 0 {
			return nil
		}
		points += n
		rel, _ := filepath.Rel(*root, path)
		dst := filepath.Join(*out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		replace[path] = dst
		return os.WriteFile(dst, text, 0o644)
	})
	if err == nil {
		var js []byte
		js, err = json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(points)
}

func weave(path string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var at []int
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, visit(list))
	if len(at) == 0 {
		return nil, 0, nil
	}
	sort.Ints(at)
	var sb strings.Builder
	from := fset.Position(f.Name.End()).Offset
	sb.Write(src[:from])
	sb.WriteString(`; import vsched__ "verif/mc/vsched"`)
	last := -1
	n := 0
	for _, o := range at {
		if o == last {
			continue
		}
		last = o
		sb.Write(src[from:o])
		sb.WriteString("vsched__.P(); ")
		from = o
		n++
	}
	sb.Write(src[from:])
	return []byte(sb.String()), n, nil
}

func inspectOther(list func([]ast.Stmt), ns ...ast.Node) {
	for _, n := range ns {
		if n == nil {
			continue
		}
		switch x := n.(type) {
		case ast.Stmt:
			if x == nil {
				continue
			}
		case ast.Expr:
			if x == nil {
				continue
			}
		}
		ast.Inspect(n, visit(list))
	}
}

// visit is the recursive visitor.
func visit(list func([]ast.Stmt)) func(n ast.Node) bool {
	var v func(n ast.Node) bool
	v = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, v)
			}
			inspectOther(list, x.Init, x.Tag)
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, v)
			}
			inspectOther(list, x.Init, x.Assign)
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, v)
			}
			return false
		}
		return true
	}
	return v
}
