// Command instr writes instrumented copies of the server-side packages of the repository and an overlay file.
// Every statement gets a yield point before it; imports of net and sync are redirected to vnet and vsync.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var site int
var inner bool
var fn = flag.String("fn", "Yield", "what is called before every statement")
var sites []string

func yield(fset *token.FileSet, pos token.Pos) ast.Stmt {
	p := fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
	n := site
	site++
	name := *fn
	if inner {
		name = "Inner"
	}
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}},
	}}
}

func weave(fset *token.FileSet, list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		}
		out = append(out, yield(fset, s.Pos()), s)
	}
	return out
}

func weaveAll(fset *token.FileSet, f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			// the body of a switch or select holds clauses only
			b.List = weave(fset, b.List)
		case *ast.CaseClause:
			b.Body = weave(fset, b.Body)
		case *ast.CommClause:
			b.Body = weave(fset, b.Body)
		}
		return true
	})
}

func addImport(f *ast.File, uses int) {
	if uses > 0 {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"gevulotverif/vsched"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	noYield := flag.String("noyield", "pkg/pg", "directories (comma separated) that only get imports redirected")
	skip := flag.String("skip", "pkg/cli,pkg/pgmeta", "directories left alone")
	redirect := flag.Bool("redirect", true, "replace net and sync")
	flag.Parse()
	ctx := build.Default
	replace := map[string]string{}
	pre := func(dir, list string) bool {
		for _, d := range strings.Split(list, ",") {
			if d != "" && (dir == d || strings.HasPrefix(dir, d+"/")) {
				return true
			}
		}
		return false
	}
	err := filepath.Walk(filepath.Join(*repo, "pkg"), func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		dir := filepath.ToSlash(filepath.Dir(rel))
		if pre(dir, *skip) {
			return nil
		}
		if ok, err := ctx.MatchFile(filepath.Dir(path), filepath.Base(path)); err != nil || !ok {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, nil, 0)
		if err != nil {
			return err
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if *redirect && (p == "net" || p == "sync") {
				if im.Name == nil {
					im.Name = ast.NewIdent(p)
				}
				im.Path.Value = strconv.Quote("gevulotverif/v" + p)
			}
		}
		ticks := 0
		if pre(dir, *noYield) {
			tick := func(b *ast.BlockStmt) {
				ticks++
				b.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
					Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent("Tick")}}}}, b.List...)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.ForStmt:
					tick(b.Body)
				case *ast.RangeStmt:
					tick(b.Body)
				}
				return true
			})
			inner = true
			n0 := site
			weaveAll(fset, f)
			addImport(f, ticks+site-n0)
			site, sites, inner = n0, sites[:n0], false
		} else {
			n0 := site
			weaveAll(fset, f)
			addImport(f, site-n0)
		}
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, f); err != nil {
			return err
		}
		dst := filepath.Join(*out, strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			return err
		}
		replace[path] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	j, _ = json.Marshal(sites)
	_ = os.WriteFile(filepath.Join(*out, "sites.json"), j, 0o644)
	fmt.Println(len(sites), "sites in", len(replace), "files")
}
