package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

// rewriteCalls gives the sources of a package in which calls of other packages' functions go to the harness instead:
// rules are "import/path.Func=name" (the call becomes name(...)) or "import/path.*=name" (it becomes name.Func(...)).
// Everything else of the sources is kept.
func rewriteCalls(pkgDir string, rules []string) (map[string][]byte, error) {
	out := map[string][]byte{}
	if len(rules) == 0 {
		return out, nil
	}
	to := map[string]string{}
	for _, r := range rules {
		a, b, _ := strings.Cut(r, "=")
		to[a] = b
	}
	l, _ := filepath.Glob(filepath.Join(pkgDir, "*.go"))
	for _, f := range l {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		imp := map[string]string{}
		for _, s := range file.Imports {
			p, _ := strconv.Unquote(s.Path.Value)
			n := path.Base(p)
			if s.Name != nil {
				n = s.Name.Name
			}
			imp[n] = p
		}
		used := map[string]string{}
		ast.Inspect(file, func(n ast.Node) bool {
			c, ok := n.(*ast.CallExpr)
			if !ok {
				return true
			}
			s, ok := c.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || x.Obj != nil || imp[x.Name] == "" {
				return true
			}
			if t := to[imp[x.Name]+"."+s.Sel.Name]; t != "" {
				used[x.Name] = s.Sel.Name
				c.Fun = ast.NewIdent(t)
			} else if t := to[imp[x.Name]+".*"]; t != "" {
				used[x.Name] = s.Sel.Name
				s.X = ast.NewIdent(t)
			}
			return true
		})
		if len(used) == 0 {
			continue
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, file); err != nil {
			return nil, err
		}
		for p, fn := range used {
			b.WriteString("\nvar _ = " + p + "." + fn + "\n")
		}
		out[filepath.Base(f)] = b.Bytes()
	}
	return out, nil
}
