package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// schedOverlay inserts a scheduling point before every statement of the
// package in /repo, and lists its variables.
func schedOverlay(dir string) {
	globals := instrument("/repo", "ogdl", "ogdlmc/vs", "ogdlmc/vsync", dir)
	var b strings.Builder
	b.WriteString("package ogdl\n\n// VerifGlobals lists the variables of the package\nfunc VerifGlobals() map[string]interface{} {\n\treturn map[string]interface{}{\n")
	for _, g := range globals {
		fmt.Fprintf(&b, "\t\t%q: &%s,\n", g, g)
	}
	b.WriteString("\t}\n}\n")
	dst := filepath.Join(dir, "ogdl_zz_verif.go")
	if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
		die(err)
	}
	replace["/repo/zz_verif.go"] = dst
}

// instrument inserts the points into the files of a package; it returns the
// names of its variables.
func instrument(repo, pkg, points, syncPkg, dir string) []string {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(repo)
	if err != nil {
		die(err)
	}
	var globals []string
	point := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifvs"), Sel: ast.NewIdent("Point")}}}
	}
	list := func(l []ast.Stmt) []ast.Stmt {
		var r []ast.Stmt
		for _, s := range l {
			r = append(r, point(), s)
		}
		return r
	}
	for _, e := range ents {
		name := e.Name()
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(repo, name), nil, parser.SkipObjectResolution)
		if err != nil {
			die(err)
		}
		if f.Name.Name != pkg {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						globals = append(globals, n.Name)
					}
				}
			}
		}
		for _, i := range f.Imports {
			if p, _ := strconv.Unquote(i.Path.Value); p == "sync" {
				i.Path.Value = strconv.Quote(syncPkg)
				if i.Name == nil {
					i.Name = ast.NewIdent("sync")
				}
			}
		}
		if directives(filepath.Join(repo, name)) {
			continue
		}
		n := 0
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.SwitchStmt:
				// (its body consists of clauses)
				for _, c := range x.Body.List {
					cc := c.(*ast.CaseClause)
					cc.Body = list(cc.Body)
				}
				n++
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					cc := c.(*ast.CaseClause)
					cc.Body = list(cc.Body)
				}
				n++
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					cc.Body = list(cc.Body)
				}
				n++
			case *ast.BlockStmt:
				clauses := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if !clauses {
					x.List = list(x.List)
					n++
				}
			}
			return true
		})
		// comments would end up in odd places
		f.Comments = nil
		if n > 0 {
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
				&ast.ImportSpec{Name: ast.NewIdent("verifvs"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(points)}}}}}, f.Decls...)
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{
				&ast.SelectorExpr{X: ast.NewIdent("verifvs"), Sel: ast.NewIdent("Point")}}}}})
		}
		var b bytes.Buffer
		if err := printer.Fprint(&b, fset, f); err != nil {
			die(err)
		}
		dst := filepath.Join(dir, pkg+"_"+name)
		if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
			die(err)
		}
		replace[filepath.Join(repo, name)] = dst
	}
	return globals
}

// directives tells whether a file has comments for the compiler (comments are lost)
func directives(file string) bool {
	b, err := os.ReadFile(file)
	return err != nil || bytes.Contains(b, []byte("\n//go:")) || bytes.HasPrefix(b, []byte("//go:"))
}
