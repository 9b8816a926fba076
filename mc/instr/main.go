// Command instr rewrites a copy of the package for systematic exploration: a
// scheduling point before every statement, package vsync in place of sync, and
// a function VerifReset that puts every package level variable back to its
// initial value (for executions that each begin in a fresh state).
//
//	instr [-reset-only] DIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type varInit struct {
	names []string
	lhs   string
	expr  ast.Expr
	typ   ast.Expr
	deps  map[string]bool
	file  *ast.File
	order int
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

func main() {
	args := os.Args[1:]
	resetOnly := false
	if args[0] == "-reset-only" {
		resetOnly = true
		args = args[1:]
	}
	dir := args[0]
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	files := map[string]*ast.File{}
	var names []string
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			die(err)
		}
		files[f] = a
		names = append(names, f)
	}
	vars := map[string]bool{}
	funcs := map[string]*ast.FuncDecl{}
	var inits []*varInit
	initFuncs := 0
	var initNames []string
	unsupported := false
	for _, fn := range names {
		for _, d := range files[fn].Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					v := sp.(*ast.ValueSpec)
					var ns []string
					for _, n := range v.Names {
						ns = append(ns, n.Name)
						if n.Name != "_" {
							vars[n.Name] = true
						}
					}
					if len(v.Values) == len(ns) {
						for i, n := range ns {
							inits = append(inits, &varInit{names: []string{n}, lhs: n, expr: v.Values[i], file: files[fn], order: len(inits)})
						}
					} else if len(v.Values) == 1 {
						inits = append(inits, &varInit{names: ns, lhs: strings.Join(ns, ", "), expr: v.Values[0], file: files[fn], order: len(inits)})
					} else {
						for _, n := range ns {
							inits = append(inits, &varInit{names: []string{n}, lhs: n, typ: v.Type, file: files[fn], order: len(inits)})
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					initFuncs++
					d.Name.Name = fmt.Sprintf("verifInit%d", initFuncs)
					initNames = append(initNames, d.Name.Name)
				} else {
					funcs[d.Name.Name] = d // methods by their name: conservative
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
				unsupported = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					unsupported = true
				}
			}
			return true
		})
	}
	if unsupported && !resetOnly {
		die("the package starts goroutines or uses channels: not explored under the scheduler")
	}
	// the order of initialisation
	var deps func(n ast.Node, seen map[string]bool, out map[string]bool)
	deps = func(n ast.Node, seen, out map[string]bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			id, ok := m.(*ast.Ident)
			if !ok {
				return true
			}
			if vars[id.Name] {
				out[id.Name] = true
			}
			if f := funcs[id.Name]; f != nil && f.Body != nil && !seen[id.Name] {
				seen[id.Name] = true
				deps(f.Body, seen, out)
			}
			return true
		})
	}
	for _, v := range inits {
		v.deps = map[string]bool{}
		if v.expr != nil {
			deps(v.expr, map[string]bool{}, v.deps)
		}
		for _, n := range v.names {
			delete(v.deps, n)
		}
	}
	done := map[string]bool{}
	var order []*varInit
	for len(order) < len(inits) {
		var pick *varInit
		for _, v := range inits {
			if v.deps == nil {
				continue
			}
			ok := true
			for d := range v.deps {
				ok = ok && done[d]
			}
			if ok {
				pick = v
				break
			}
		}
		if pick == nil { // a cycle through functions: keep the source order
			for _, v := range inits {
				if v.deps != nil {
					pick = v
					break
				}
			}
		}
		pick.deps = nil
		for _, n := range pick.names {
			done[n] = true
		}
		order = append(order, pick)
	}
	// one reset function per variable, in its own file (for its imports)
	reset := map[*ast.File][]string{}
	var calls []string
	for i, v := range order {
		name := fmt.Sprintf("verifReset%d", i)
		var b bytes.Buffer
		if v.expr != nil {
			fmt.Fprintf(&b, "func %s() { %s = ", name, v.lhs)
			if err := format.Node(&b, fset, v.expr); err != nil {
				die(err)
			}
			b.WriteString(" }\n")
		} else {
			fmt.Fprintf(&b, "func %s() { var zero ", name)
			if err := format.Node(&b, fset, v.typ); err != nil {
				die(err)
			}
			fmt.Fprintf(&b, "; %s = zero }\n", v.lhs)
		}
		reset[v.file] = append(reset[v.file], b.String())
		calls = append(calls, "\t"+name+"()\n")
	}
	for _, n := range initNames {
		calls = append(calls, "\t"+n+"()\n")
	}
	pkg := ""
	for _, fn := range names {
		f := files[fn]
		pkg = f.Name.Name
		if !resetOnly {
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					im.Path.Value = `"verif/mc/vsync"`
					if im.Name == nil {
						im.Name = ast.NewIdent("sync")
					}
				}
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body != nil {
						instrument(d.Body, point(mentions(d.Body, vars)))
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						if v, ok := s.(*ast.ValueSpec); ok {
							for _, e := range v.Values {
								ast.Inspect(e, func(n ast.Node) bool {
									if fl, ok := n.(*ast.FuncLit); ok {
										instrument(fl.Body, point(true))
										return false
									}
									return true
								})
							}
						}
					}
				}
			}
		}
		var b bytes.Buffer
		f.Comments = nil
		if err := format.Node(&b, fset, f); err != nil {
			die(err)
		}
		for _, r := range reset[f] {
			b.WriteString("\n" + r)
		}
		src := b.String()
		if !resetOnly {
			// the import goes right after the package clause
			k := strings.Index(src, "package "+pkg)
			k += strings.Index(src[k:], "\n")
			src = src[:k] + "\n\nimport verifsched \"verif/mc/sched\"\n\nvar _ = verifsched.Active\n" + src[k:]
			// imports must come before declarations
			src = fixImports(src)
		}
		if err := os.WriteFile(fn, []byte(src), 0644); err != nil {
			die(err)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n", pkg)
	for _, n := range initNames {
		fmt.Fprintf(&b, "func init() { %s() }\n", n)
	}
	fmt.Fprintf(&b, "\nfunc VerifReset() {\n%s}\n", strings.Join(calls, ""))
	if err := os.WriteFile(filepath.Join(dir, "zz_verif_reset.go"), []byte(b.String()), 0644); err != nil {
		die(err)
	}
}

func fixImports(src string) string {
	const u = "var _ = verifsched.Active\n"
	src = strings.Replace(src, u, "", 1)
	return src + "\n" + u
}

func mentions(n ast.Node, vars map[string]bool) (yes bool) {
	ast.Inspect(n, func(m ast.Node) bool {
		if id, ok := m.(*ast.Ident); ok && vars[id.Name] {
			yes = true
		}
		if s, ok := m.(*ast.SelectorExpr); ok {
			switch s.Sel.Name {
			case "once", "mu", "Lock", "Unlock", "RLock", "RUnlock", "Do":
				yes = true
			}
		}
		return !yes
	})
	return
}

func point(shared bool) string {
	if shared {
		return "Shared"
	}
	return "Point"
}

// instrument puts a point before every statement of the block, and of the
// blocks and function literals in it.
func instrument(b *ast.BlockStmt, name string) {
	b.List = list(b.List, name)
}

func call(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent(name)}}}
}

func list(in []ast.Stmt, name string) (out []ast.Stmt) {
	for _, s := range in {
		inside(s, name)
		switch l := s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt:
			_ = l
			out = append(out, s)
		default:
			out = append(out, call(name), s)
		}
	}
	return
}

// inside handles the nested blocks of one statement.
func inside(s ast.Stmt, name string) {
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = list(x.List, name)
			return false
		case *ast.CaseClause:
			for _, e := range x.List {
				ast.Inspect(e, func(m ast.Node) bool {
					if fl, ok := m.(*ast.FuncLit); ok {
						fl.Body.List = list(fl.Body.List, name)
						return false
					}
					return true
				})
			}
			x.Body = list(x.Body, name)
			return false
		case *ast.CommClause:
			x.Body = list(x.Body, name)
			return false
		case *ast.SwitchStmt:
			if x.Init != nil {
				inside(x.Init, name)
			}
			for _, c := range x.Body.List {
				inside(c, name)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				inside(c, name)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				inside(c, name)
			}
			return false
		}
		return true
	})
}
