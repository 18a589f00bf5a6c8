// Command instr writes copies of the packages of a module with scheduling points inserted before
// every operation of sync and sync/atomic, every channel operation, every access to a
// package-level variable and at every function entry, and with a function that returns all
// package-level variables to their initial values.
//
// usage: instr REPO OUTDIR   (stdin: output of go list -e -export -deps -json; prints {target: file})
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
	Imports    []string
}

type edit struct {
	at    int
	order int
	text  string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

const sched = "zzsched"

func main() {
	repo, out := os.Args[1], os.Args[2]
	var pkgs []*pkg
	exports := map[string]string{}
	dec := json.NewDecoder(os.Stdin)
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && strings.HasPrefix(p.Dir, repo) {
			pkgs = append(pkgs, p)
		}
	}
	result := map[string]string{}
	var resets []string
	for _, p := range pkgs {
		if !instrument(p, exports, out, result) {
			continue
		}
		resets = append(resets, p.ImportPath)
	}
	sort.Strings(resets)
	b, _ := json.Marshal(map[string]any{"files": result, "packages": resets})
	os.Stdout.Write(b)
}

func instrument(p *pkg, exports map[string]string, out string, result map[string]string) bool {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	src := map[string][]byte{}
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		b, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		a, err := parser.ParseFile(fset, full, b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
		names = append(names, full)
		src[full] = b
	}
	if len(files) == 0 || files[0].Name.Name == "main" {
		return false
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	edits := map[string][]edit{}
	n := 0
	add := func(pos token.Pos, text string) {
		q := fset.Position(pos)
		n++
		edits[q.Filename] = append(edits[q.Filename], edit{q.Offset, n, text})
	}
	fromSync := func(t types.Type) bool {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		nt, ok := t.(*types.Named)
		if !ok || nt.Obj().Pkg() == nil {
			return false
		}
		pp := nt.Obj().Pkg().Path()
		return pp == "sync" || pp == "sync/atomic"
	}
	for _, f := range files {
		// statements that mention a package-level variable: a point before the statement
		mentions := func(nd ast.Node) bool {
			found := false
			ast.Inspect(nd, func(x ast.Node) bool {
				switch t := x.(type) {
				case *ast.FuncLit, *ast.BlockStmt:
					return false
				case *ast.Ident:
					if v, ok := info.Uses[t].(*types.Var); ok && v.Parent() == tp.Scope() {
						found = true
					}
				}
				return true
			})
			return found
		}
		chanOp := func(nd ast.Node) bool {
			found := false
			ast.Inspect(nd, func(x ast.Node) bool {
				switch t := x.(type) {
				case *ast.FuncLit, *ast.BlockStmt:
					return false
				case *ast.UnaryExpr:
					if t.Op == token.ARROW {
						found = true
					}
				case *ast.SendStmt:
					found = true
				}
				return true
			})
			return found
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.LabeledStmt); ok {
					continue
				}
				if _, ok := s.(*ast.SelectStmt); ok || chanOp(s) {
					add(s.Pos(), sched+".Point(0); ")
				} else if mentions(s) {
					add(s.Pos(), sched+".Point(1); ")
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch t := x.(type) {
			case *ast.FuncDecl:
				if t.Body != nil && t.Recv == nil && t.Name.Name == "init" {
					add(t.Body.Lbrace+1, " ")
				} else if t.Body != nil {
					add(t.Body.Lbrace+1, " "+sched+".Point(2); ")
				}
			case *ast.BlockStmt:
				stmts(t.List)
			case *ast.CaseClause:
				stmts(t.Body)
			case *ast.CommClause:
				stmts(t.Body)
			case *ast.CallExpr:
				sel, ok := ast.Unparen(t.Fun).(*ast.SelectorExpr)
				if !ok {
					return true
				}
				if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
					fn, ok := s.Obj().(*types.Func)
					if !ok {
						return true
					}
					sig := fn.Type().(*types.Signature)
					if sig.Recv() == nil || !fromSync(sig.Recv().Type()) {
						return true
					}
					if _, isPtr := s.Recv().Underlying().(*types.Pointer); isPtr {
						add(sel.X.Pos(), sched+".Val(")
						add(sel.X.End(), ")")
					} else if info.Types[sel.X].Addressable() {
						add(sel.X.Pos(), sched+".Ptr(&")
						add(sel.X.End(), ")")
					}
					return true
				}
				if id, ok := sel.X.(*ast.Ident); ok {
					if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" && len(t.Args) > 0 {
						add(t.Args[0].Pos(), sched+".Val(")
						add(t.Args[0].End(), ")")
					}
				}
			}
			return true
		})
	}
	// resets, in initialisation order, in the file that declares the variable
	embed := map[string]bool{}
	var zero []string
	inited := map[types.Object]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	tail := map[string]string{}
	where := map[types.Object]string{}
	for _, f := range files {
		fn := fset.Position(f.Pos()).Filename
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				emb := false
				for _, cg := range []*ast.CommentGroup{g.Doc, vs.Doc} {
					if cg != nil {
						for _, c := range cg.List {
							if strings.HasPrefix(c.Text, "//go:embed") {
								emb = true
							}
						}
					}
				}
				for _, id := range vs.Names {
					o := info.Defs[id]
					where[o] = fn
					if emb {
						embed[id.Name] = true
						continue
					}
					if id.Name != "_" && !inited[o] {
						zero = append(zero, id.Name)
						k := len(tail)
						_ = k
						tail[fn] += fmt.Sprintf("\nfunc zzZero_%s() { %s.Zero(&%s) }\n", id.Name, sched, id.Name)
					}
				}
			}
		}
	}
	var order []string
	for _, z := range zero {
		order = append(order, "zzZero_"+z+"()")
	}
	for i, in := range info.InitOrder {
		var lhs []string
		real := false
		fn := ""
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				real = true
			}
			fn = where[v]
		}
		if !real {
			continue
		}
		a, b := fset.Position(in.Rhs.Pos()), fset.Position(in.Rhs.End())
		text := string(src[a.Filename][a.Offset:b.Offset])
		tail[fn] += fmt.Sprintf("\nfunc zzInit_%d() { %s = %s }\n", i, strings.Join(lhs, ", "), text)
		order = append(order, fmt.Sprintf("zzInit_%d()", i))
	}
	// init functions
	k := 0
	for _, f := range files {
		fn := fset.Position(f.Pos()).Filename
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
				nm := "zzInitFunc_" + strconv.Itoa(k)
				k++
				q := fset.Position(fd.Name.Pos())
				n++
				edits[fn] = append(edits[fn], edit{q.Offset, n, nm + "() { zzInitBody_" + nm + "() }\n\nfunc init() { " + nm + "() }\n\nfunc zzInitBody_" + nm + "X"})
				order = append(order, nm+"()")
			}
		}
	}
	for i, full := range names {
		es := edits[full]
		sort.SliceStable(es, func(a, b int) bool {
			if es[a].at != es[b].at {
				return es[a].at < es[b].at
			}
			// at one place: closing brackets before openings, then statement points before wraps
			ca, cb := es[a].text == ")", es[b].text == ")"
			if ca != cb {
				return ca
			}
			pa, pb := strings.Contains(es[a].text, ".Point("), strings.Contains(es[b].text, ".Point(")
			if pa != pb {
				return pa
			}
			return es[a].order < es[b].order
		})
		var buf bytes.Buffer
		last := 0
		b := src[full]
		for _, e := range es {
			buf.Write(b[last:e.at])
			if strings.HasSuffix(e.text, "X") && strings.Contains(e.text, "zzInitBody_") {
				buf.WriteString(strings.TrimSuffix(e.text, "X"))
				last = e.at + len("init")
				continue
			}
			buf.WriteString(e.text)
			last = e.at
		}
		buf.Write(b[last:])
		text := buf.String()
		// the import goes right behind the package clause, on its line
		pe := fset.Position(files[i].Name.End()).Offset
		text = text[:pe] + "; import " + sched + " \"github.com/openrdap/rdap/zzsched\"" + text[pe:]
		text += "\nvar _ = " + sched + ".Point\n" + tail[full]
		o := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(full, "/"), "/", "__"))
		if err := os.WriteFile(o, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
		result[full] = o
	}
	body := "package " + files[0].Name.Name + "\n\n// ZzReset returns every package-level variable to its initial value.\nfunc ZzReset() {\n"
	for _, s := range order {
		body += "\t" + s + "\n"
	}
	body += "}\n"
	o := filepath.Join(out, "reset__"+strings.ReplaceAll(p.ImportPath, "/", "__")+".go")
	os.WriteFile(o, []byte(body), 0o644)
	result[filepath.Join(p.Dir, "zz_verif_reset.go")] = o
	return true
}
