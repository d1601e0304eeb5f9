package main

// Loading and type-checking /repo's current source.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	path  string
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
}

type program struct {
	dir    string
	fset   *token.FileSet
	pkgs   map[string]*pkgInfo
	order  []*pkgInfo
	funcs  map[*types.Func]*ast.FuncDecl
	fpkg   map[*types.Func]*pkgInfo
	byDecl map[*ast.FuncDecl]*pkgInfo
	lib    *pkgInfo
	cmd    *pkgInfo
	main   *pkgInfo
	spec   *pkgInfo
	nfiles int

	mutated    map[types.Object]bool
	initAssign map[types.Object]ast.Expr
}

type listed struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Version, Dir string }
	DepOnly    bool
	Error      *struct{ Err string }
}

const modPath = "github.com/Comcast/scte35-go"

func goList(dir string) ([]listed, error) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Module,DepOnly,Error", "./...")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "CGO_ENABLED=0")
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, se.String())
	}
	var r []listed
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var l listed
		if err := d.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		r = append(r, l)
	}
	return r, nil
}

type srcImporter struct {
	src map[string]*types.Package
	gc  types.Importer
}

func (s *srcImporter) Import(path string) (*types.Package, error) {
	if p := s.src[path]; p != nil {
		return p, nil
	}
	return s.gc.Import(path)
}

// load parses and type-checks the module's packages. extra maps an import path
// to additional source text checked together with that package.
func load(dir string, extra map[string]map[string]string) (*program, error) {
	ls, err := goList(dir)
	if err != nil {
		return nil, err
	}
	p := &program{dir: dir, fset: token.NewFileSet(), pkgs: map[string]*pkgInfo{}, funcs: map[*types.Func]*ast.FuncDecl{}, fpkg: map[*types.Func]*pkgInfo{}, byDecl: map[*ast.FuncDecl]*pkgInfo{}}
	exports := map[string]string{}
	for _, l := range ls {
		exports[l.ImportPath] = l.Export
	}
	gc := importer.ForCompiler(p.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &srcImporter{map[string]*types.Package{}, gc}
	for _, l := range ls {
		if l.Standard || l.Module == nil || l.Module.Path != modPath {
			continue
		}
		if l.Error != nil {
			return nil, fmt.Errorf("%s: %s", l.ImportPath, l.Error.Err)
		}
		if len(l.CgoFiles) > 0 {
			return nil, fmt.Errorf("%s uses cgo", l.ImportPath)
		}
		pi := &pkgInfo{path: l.ImportPath}
		for _, f := range l.GoFiles {
			af, err := parser.ParseFile(p.fset, filepath.Join(l.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pi.files = append(pi.files, af)
			p.nfiles++
		}
		var names []string
		for n := range extra[l.ImportPath] {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			af, err := parser.ParseFile(p.fset, n, extra[l.ImportPath][n], parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pi.files = append(pi.files, af)
		}
		pi.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, InitOrder: nil,
		}
		var terr error
		conf := types.Config{Importer: imp, Error: func(e error) {
			if terr == nil {
				terr = e
			}
		}}
		tp, _ := conf.Check(l.ImportPath, p.fset, pi.files, pi.info)
		if terr != nil {
			return nil, fmt.Errorf("type error: %v", terr)
		}
		pi.tpkg = tp
		imp.src[l.ImportPath] = tp
		p.pkgs[l.ImportPath] = pi
		p.order = append(p.order, pi)
		for _, f := range pi.files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					fn := pi.info.Defs[fd.Name].(*types.Func)
					p.funcs[fn] = fd
					p.fpkg[fn] = pi
					p.byDecl[fd] = pi
				}
			}
		}
	}
	p.lib = p.pkgs[modPath+"/pkg/scte35"]
	p.cmd = p.pkgs[modPath+"/cmd"]
	p.main = p.pkgs[modPath]
	if p.lib == nil {
		return nil, fmt.Errorf("package %s/pkg/scte35 not found", modPath)
	}
	return p, nil
}

func (p *program) pos(n token.Pos) string {
	ps := p.fset.Position(n)
	f := ps.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *program) isSpec(fn *types.Func) bool {
	return strings.HasPrefix(fn.Name(), "spec") && strings.HasPrefix(p.fset.Position(fn.Pos()).Filename, "spec")
}

// fn finds a function or method of the library by name ("T.m" or "f").
func (p *program) fn(pi *pkgInfo, name string) *types.Func {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		o := pi.tpkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, pi.tpkg, name[i+1:])
		f, _ := obj.(*types.Func)
		return f
	}
	f, _ := pi.tpkg.Scope().Lookup(name).(*types.Func)
	return f
}

func (p *program) typ(pi *pkgInfo, name string) *types.Named {
	o := pi.tpkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// nodeText renders a node compactly for reports.
func (p *program) where(fn *types.Func) string {
	if fn == nil {
		return "?"
	}
	return fn.FullName() + " (" + p.pos(fn.Pos()) + ")"
}
