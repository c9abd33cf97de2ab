package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Prog is the typed program under verification: the package's current
// non-test source files plus the specification functions, as one package.
type Prog struct {
	fset    *token.FileSet
	pkg     *types.Package
	info    *types.Info
	files   []*ast.File
	isSpec  map[*ast.File]bool
	decls   map[*types.Func]*ast.FuncDecl
	specFn  map[*types.Func]bool
	byKey   map[string]*types.Func
	globals map[*types.Var]*Global
	src     map[string][]byte
	imports map[string]*types.Package
}

type Global struct {
	init     ast.Expr
	assigned bool
	isSpec   bool
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Name       string
	ImportMap  map[string]string
}

func goList(dir string, args ...string) (map[string]*listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Name,ImportMap"}, args...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v %s", err, eb.String())
	}
	res := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		q := p
		res[p.ImportPath] = &q
	}
	return res, nil
}

var listCache map[string]*listPkg

// loadProg type-checks import path `path` found under repo, together with specFiles.
func loadProg(repo, path string, specFiles []string, deps map[string]*types.Package) (*Prog, error) {
	if listCache == nil {
		l, err := goList(repo, "./...", "math", "math/big", "regexp", "bufio", "io", "bytes", "strings", "sort", "strconv", "crypto/md5", "crypto/rc4", "crypto/aes", "crypto/cipher", "compress/zlib", "compress/lzw", "encoding/hex", "encoding/binary", "fmt", "os", "path")
		if err != nil {
			return nil, err
		}
		listCache = l
	}
	lp := listCache[path]
	if lp == nil {
		return nil, fmt.Errorf("package %s not found", path)
	}
	p := &Prog{fset: token.NewFileSet(), isSpec: map[*ast.File]bool{}, decls: map[*types.Func]*ast.FuncDecl{}, specFn: map[*types.Func]bool{}, byKey: map[string]*types.Func{}, globals: map[*types.Var]*Global{}, src: map[string][]byte{}, imports: map[string]*types.Package{}}
	var names []string
	for _, f := range lp.GoFiles {
		names = append(names, filepath.Join(lp.Dir, f))
	}
	n := len(names)
	names = append(names, specFiles...)
	for i, f := range names {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p.src[f] = b
		af, err := parser.ParseFile(p.fset, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, af)
		if i >= n {
			p.isSpec[af] = true
		}
	}
	lookup := func(ip string) (io.ReadCloser, error) {
		q := listCache[ip]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", ip)
		}
		return os.Open(q.Export)
	}
	gc := importer.ForCompiler(p.fset, "gc", lookup)
	imp := importFunc(func(ip string) (*types.Package, error) {
		if d, ok := deps[ip]; ok {
			return d, nil
		}
		if m, ok := lp.ImportMap[ip]; ok {
			ip = m
		}
		q, err := gc.Import(ip)
		if err == nil {
			p.imports[ip] = q
		}
		return q, err
	})
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(path, p.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	p.pkg = pkg
	for _, af := range p.files {
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if fn, ok := p.info.Defs[d.Name].(*types.Func); ok {
					p.decls[fn] = d
					p.byKey[funcKey(fn, pkg)] = fn
					if p.isSpec[af] {
						p.specFn[fn] = true
					}
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok {
						for i, id := range vs.Names {
							if v, ok := p.info.Defs[id].(*types.Var); ok {
								g := &Global{isSpec: p.isSpec[af]}
								if len(vs.Values) == len(vs.Names) {
									g.init = vs.Values[i]
								}
								p.globals[v] = g
							}
						}
					}
				}
			}
		}
	}
	// mark globals that are assigned or whose address is taken anywhere
	for _, af := range p.files {
		ast.Inspect(af, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.ParenExpr:
						e = x.X
						continue
					case *ast.IndexExpr:
						e = x.X
						continue
					case *ast.SliceExpr:
						e = x.X
						continue
					case *ast.StarExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						// a variable of another package
						if _, sel := p.info.Selections[x]; !sel {
							if v, ok := p.info.Uses[x.Sel].(*types.Var); ok && v.Pkg() != pkg {
								p.globals[v] = &Global{assigned: true}
							}
						}
						return
					case *ast.Ident:
						if v, ok := p.info.Uses[x].(*types.Var); ok {
							if g, ok := p.globals[v]; ok {
								g.assigned = true
							}
						}
					}
					return
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			}
			return true
		})
	}
	return p, nil
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }

// funcKey names a function: Type.Method or Func inside the package, with the
// package name as prefix for functions of other packages.
func funcKey(fn *types.Func, home *types.Package) string {
	pre := ""
	if fn.Pkg() != nil && fn.Pkg() != home {
		pre = fn.Pkg().Path() + "."
	}
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pre + n.Obj().Name() + "." + fn.Name()
		}
		return pre + "?." + fn.Name()
	}
	return pre + fn.Name()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Prog) posStr(pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func trimLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
