// mutate lists, or writes out, small changes to the source of juju/worker. It
// is used to look for changes that neither the tests nor the checks notice.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	ID   string
	File string
	Line int
	Off  int
	End  int
	New  string
	Old  string
	Op   string
}

var (
	fset *token.FileSet
	src  = map[string][]byte{}
	out  []mutant
	repo string
	info *types.Info
	pkg  *types.Package
)

func text(n ast.Node) string {
	a, b := fset.Position(n.Pos()), fset.Position(n.End())
	return string(src[a.Filename][a.Offset:b.Offset])
}

func add(op string, n ast.Node, repl string) { addR(op, n.Pos(), n.End(), repl) }

func addR(op string, p, e token.Pos, repl string) {
	a, b := fset.Position(p), fset.Position(e)
	old := string(src[a.Filename][a.Offset:b.Offset])
	if old == repl {
		return
	}
	rel, _ := filepath.Rel(repo, a.Filename)
	out = append(out, mutant{File: rel, Line: a.Line, Off: a.Offset, End: b.Offset, New: repl, Old: old, Op: op})
}

func show(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func stmts(list []ast.Stmt, fn *ast.FuncDecl) {
	for i, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt:
			add("delete", s, "")
			if d, ok := x.(*ast.DeferStmt); ok {
				add("undefer", s, text(d.Call))
			}
		case *ast.GoStmt:
			add("ungo", s, text(x.Call))
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
				add("delete", s, "")
			}
			if x.Tok == token.DEFINE || x.Tok == token.ASSIGN {
				for j, r := range x.Rhs {
					_ = j
					t := info.TypeOf(r)
					if t == nil {
						continue
					}
					if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						add("negate-rhs", r, "!("+text(r)+")")
					}
				}
			}
		case *ast.IfStmt:
			init := ""
			if x.Init != nil {
				init = text(x.Init) + "; "
			}
			add("if-true", x.Cond, "true || ("+text(x.Cond)+")")
			add("if-false", x.Cond, "false && ("+text(x.Cond)+")")
			_ = init
			if len(x.Body.List) > 0 && x.Init == nil {
				add("delete-if", s, "if false && ("+text(x.Cond)+") {}")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				t := info.TypeOf(r)
				if t == nil {
					continue
				}
				if tv, ok := info.Types[r]; ok && tv.IsNil() {
					continue
				}
				switch u := t.Underlying().(type) {
				case *types.Interface, *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature:
					add("return-nil", r, "nil")
				case *types.Basic:
					if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
						add("return-not", r, "!("+text(r)+")")
					}
				}
			}
			if len(x.Results) == 0 {
				add("delete-return", s, "")
			}
		case *ast.BranchStmt:
			switch x.Tok {
			case token.CONTINUE:
				add("branch", s, "break")
				add("branch", s, "")
			case token.BREAK:
				add("branch", s, "continue")
				add("branch", s, "")
			case token.FALLTHROUGH:
				add("branch", s, "")
			}
		case *ast.RangeStmt:
			if len(x.Body.List) > 0 {
				addR("range-first", x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n")
			}
		}
		if i+1 < len(list) {
			t := list[i+1]
			if _, ok := s.(*ast.ReturnStmt); !ok {
				addR("swap", s.Pos(), t.End(), text(t)+"\n"+text(s))
			}
		}
	}
}

func main() {
	flag.StringVar(&repo, "repo", "/repo", "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: repo}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		fset, info, pkg = p.Fset, p.TypesInfo, p.Types
		for _, f := range p.Syntax {
			fn := fset.Position(f.Pos()).Filename
			if strings.HasSuffix(fn, "_test.go") {
				continue
			}
			src[fn], _ = os.ReadFile(fn)
			file(f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].File != out[j].File {
			return out[i].File < out[j].File
		}
		return out[i].Off < out[j].Off
	})
	seen := map[string]bool{}
	var res []mutant
	for _, m := range out {
		k := fmt.Sprint(m.File, m.Off, m.End, m.New)
		if seen[k] {
			continue
		}
		seen[k] = true
		m.ID = fmt.Sprintf("m%04d", len(res))
		res = append(res, m)
	}
	if *list {
		for _, m := range res {
			fmt.Printf("%s %s:%d %s: %q -> %q\n", m.ID, m.File, m.Line, m.Op, m.Old, m.New)
		}
		return
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// sameType lists identifiers and fields that could be confused.
func file(f *ast.File) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		// local variables by type
		locals := map[string][]*types.Var{}
		ast.Inspect(fd, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := info.Defs[id].(*types.Var); ok && !v.IsField() && v.Name() != "_" {
					k := v.Type().String()
					locals[k] = append(locals[k], v)
				}
			}
			return true
		})
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List, fd)
			case *ast.CaseClause:
				stmts(x.Body, fd)
				if x.List != nil {
					addR("case-drop", x.Pos(), x.End(), "")
				}
				if len(x.List) > 1 {
					for i := range x.List {
						var keep []string
						for j, e := range x.List {
							if i != j {
								keep = append(keep, text(e))
							}
						}
						addR("case-less", x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(keep, ", "))
					}
				}
			case *ast.CommClause:
				stmts(x.Body, fd)
				addR("comm-drop", x.Pos(), x.End(), "")
			case *ast.BinaryExpr:
				switch x.Op {
				case token.LAND, token.LOR:
					add("operand", x, text(x.X))
					add("operand", x, text(x.Y))
					o := "||"
					if x.Op == token.LOR {
						o = "&&"
					}
					add("logic", x, "("+text(x.X)+" "+o+" "+text(x.Y)+")")
				case token.EQL:
					add("cmp", x, "("+text(x.X)+" != "+text(x.Y)+")")
				case token.NEQ:
					add("cmp", x, "("+text(x.X)+" == "+text(x.Y)+")")
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					for _, o := range []string{"<", "<=", ">", ">="} {
						add("cmp", x, text(x.X)+" "+o+" "+text(x.Y))
					}
				case token.ADD, token.SUB, token.MUL:
					if b, ok := info.TypeOf(x).Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
						add("arith", x, text(x.X))
						for _, o := range []string{"+", "-", "*"} {
							add("arith", x, text(x.X)+" "+o+" "+text(x.Y))
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("unnot", x, text(x.X))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if x.Value == "0" {
						add("const", x, "1")
					} else {
						add("const", x, "0")
					}
					add("const", x, x.Value+"+1")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("const", x, "false")
				}
				if x.Name == "false" {
					add("const", x, "true")
				}
				if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() {
					for _, o := range locals[v.Type().String()] {
						if o != v && o.Name() != v.Name() && o.Pos() < x.Pos() && o.Parent() != nil && o.Parent().Contains(x.Pos()) {
							add("var", x, o.Name())
						}
					}
				}
				if k, ok := info.Uses[x].(*types.Const); ok && k.Pkg() != nil && !strings.HasPrefix(x.Name, "_") {
					sc := k.Pkg().Scope()
					n := 0
					for _, nm := range sc.Names() {
						if o, ok := sc.Lookup(nm).(*types.Const); ok && o != k && types.Identical(o.Type(), k.Type()) && n < 3 && (o.Exported() || o.Pkg() == pkg) {
							add("constname", x, nm)
							n++
						}
					}
				}
			case *ast.SelectorExpr:
				sel := info.Selections[x]
				if sel == nil {
					return true
				}
				if sel.Kind() == types.FieldVal {
					st, ok := deref(sel.Recv()).Underlying().(*types.Struct)
					if !ok || len(sel.Index()) != 1 {
						return true
					}
					for i := 0; i < st.NumFields(); i++ {
						o := st.Field(i)
						if i != sel.Index()[0] && types.Identical(o.Type(), sel.Type()) && (o.Exported() || o.Pkg() == pkg) {
							add("field", x.Sel, o.Name())
						}
					}
				} else if sel.Kind() == types.MethodVal {
					// methods of the same signature
					ms := types.NewMethodSet(types.NewPointer(deref(sel.Recv())))
					if types.IsInterface(sel.Recv()) {
						ms = types.NewMethodSet(sel.Recv())
					}
					for i := 0; i < ms.Len(); i++ {
						o := ms.At(i).Obj()
						if o != sel.Obj() && types.Identical(o.Type(), sel.Obj().Type()) && (o.Exported() || o.Pkg() == pkg) && !strings.HasSuffix(o.Name(), "f") {
							add("method", x.Sel, o.Name())
						}
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if _, ok := deref(info.TypeOf(x)).Underlying().(*types.Struct); ok {
							_ = kv
							end := e.End()
							f := fset.Position(end).Filename
							o := fset.Position(end).Offset
							if o < len(src[f]) && src[f][o] == ',' {
								end++
							}
							addR("elt-drop", e.Pos(), end, "")
						}
					}
				}
			case *ast.CallExpr:
				// drop wrapping error calls
				if len(x.Args) >= 1 {
					t := info.TypeOf(x)
					a := info.TypeOf(x.Args[0])
					if t != nil && a != nil && types.Identical(t, a) {
						add("unwrap", x, text(x.Args[0]))
					}
				}
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := info.TypeOf(x.Args[i]), info.TypeOf(x.Args[i+1])
					if a != nil && b != nil && types.Identical(a, b) {
						addR("args", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
					}
				}
			}
			return true
		})
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
