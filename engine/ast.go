package main

import "go/ast"

func funcDecl(d ast.Decl) (*ast.FuncDecl, string) {
	fd, ok := d.(*ast.FuncDecl)
	if !ok || fd.Recv != nil {
		return nil, ""
	}
	return fd, fd.Name.Name
}
