package main

// Loader: parses the non-test Go files of the repository (honouring build
// constraints), type-checks them against the standard library (from source),
// the module cache (bolt) and type-only stand-ins of the dependencies that are
// missing in this sandbox, and builds SSA for every repository package.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/skycoin/cxo"

// repository packages that make the library (examples under intro are not)
var repoPkgs = []string{
	"node/log",
	"skyobject/statutil",
	"data",
	"data/cxds",
	"data/idxdb",
	"skyobject/registry",
	"skyobject",
	"node/msg",
	"node",
	"cxoutils",
	"cmd/cxod",
	"cmd/cxocli",
}

type Prog struct {
	succMemo map[*ssa.Function]bool
	Repo     string
	Stubs    string
	Fset     *token.FileSet
	SSA      *ssa.Program
	Pkgs     map[string]*ssa.Package // by path relative to the module
	Types    map[string]*types.Package
	Files    map[string][]*ast.File
	Infos    map[string]*types.Info
	Errs     []string

	std      types.ImporterFrom
	loading  map[string]bool
	deps     map[string]*types.Package
	Funcs    []*ssa.Function // all repository functions with bodies, closures included
	mods     map[*ssa.Function]map[string]bool
	addrOf   map[string][]*ssa.Function
	implsMem map[string][]*ssa.Function
}

func (p *Prog) errorf(f string, a ...interface{}) { p.Errs = append(p.Errs, fmt.Sprintf(f, a...)) }

// Import implements types.Importer
func (p *Prog) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
		return p.loadRepo(rel)
	}
	if pk := p.deps[path]; pk != nil {
		return pk, nil
	}
	if strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		var dir string
		for _, d := range []string{
			filepath.Join(p.Stubs, path),
			filepath.Join("/root/go/pkg/mod", strings.Replace(path, "github.com/boltdb/bolt", "github.com/boltdb/bolt@v1.3.1", 1)),
		} {
			if st, err := os.Stat(d); err == nil && st.IsDir() {
				dir = d
				break
			}
		}
		if dir == "" {
			return nil, fmt.Errorf("dependency %s is not available", path)
		}
		files, err := p.parseDir(dir)
		if err != nil {
			return nil, err
		}
		conf := types.Config{Importer: p, Error: func(error) {}, FakeImportC: true}
		pk, _ := conf.Check(path, p.Fset, files, nil)
		pk.MarkComplete()
		p.deps[path] = pk
		return pk, nil
	}
	return p.std.Import(path)
}

func (p *Prog) parseDir(dir string) (files []*ast.File, err error) {
	ctx := build.Default
	ctx.CgoEnabled = false
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, merr := ctx.MatchFile(dir, n); merr != nil || !ok {
			if merr != nil {
				return nil, merr
			}
			continue
		}
		f, perr := parser.ParseFile(p.Fset, filepath.Join(dir, n), nil, parser.ParseComments|parser.SkipObjectResolution)
		if perr != nil {
			return nil, perr
		}
		files = append(files, f)
	}
	return
}

func (p *Prog) loadRepo(rel string) (*types.Package, error) {
	if pk := p.Types[rel]; pk != nil {
		return pk, nil
	}
	if p.loading[rel] {
		return nil, fmt.Errorf("import cycle through %s", rel)
	}
	p.loading[rel] = true
	defer delete(p.loading, rel)
	files, err := p.parseDir(filepath.Join(p.Repo, rel))
	if err != nil {
		return nil, err
	}
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", rel)
	}
	newInfo := func() *types.Info {
		return &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Instances:    map[*ast.Ident]types.Instance{},
			Scopes:       map[ast.Node]*types.Scope{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			FileVersions: map[*ast.File]string{},
		}
	}
	info := newInfo()
	conf := types.Config{Importer: p, GoVersion: "go1.23", Error: func(e error) { p.errorf("type check: %v", e) }}
	path := filepath.ToSlash(filepath.Join(modPath, rel))
	pk, cerr := conf.Check(path, p.Fset, files, info)
	for _, norm := range []func([]*ast.File, *types.Info) bool{appendLoops, trimLoops, rangeInts} {
		if cerr == nil && norm(files, info) {
			info = newInfo()
			pk, cerr = conf.Check(path, p.Fset, files, info)
		}
	}
	if cerr != nil {
		return nil, cerr
	}
	p.Types[rel], p.Files[rel], p.Infos[rel] = pk, files, info
	return pk, nil
}

// Load everything below repo
func Load(repo, stubs string) *Prog {
	p := &Prog{
		Repo: repo, Stubs: stubs, Fset: token.NewFileSet(),
		Pkgs: map[string]*ssa.Package{}, Types: map[string]*types.Package{}, Files: map[string][]*ast.File{},
		Infos: map[string]*types.Info{}, loading: map[string]bool{}, deps: map[string]*types.Package{},
	}
	build.Default.CgoEnabled = false
	p.std = importer.ForCompiler(p.Fset, "source", nil).(types.ImporterFrom)
	for _, rel := range repoPkgs {
		if _, err := p.loadRepo(rel); err != nil {
			p.errorf("package %s: %v", rel, err)
		}
	}
	if len(p.Errs) > 0 {
		return p
	}
	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	p.SSA = prog
	created := map[*types.Package]bool{}
	var all func(pk *types.Package)
	all = func(pk *types.Package) {
		if created[pk] {
			return
		}
		created[pk] = true
		for _, i := range pk.Imports() {
			all(i)
		}
		for rel, t := range p.Types {
			if t == pk {
				p.Pkgs[rel] = prog.CreatePackage(pk, p.Files[rel], p.Infos[rel], true)
				return
			}
		}
		prog.CreatePackage(pk, nil, nil, true)
	}
	for _, rel := range repoPkgs {
		all(p.Types[rel])
	}
	for _, rel := range repoPkgs {
		p.Pkgs[rel].Build()
	}
	p.collect()
	return p
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, rel := range repoPkgs {
		pk := p.Pkgs[rel]
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if types.IsInterface(t) {
						continue
					}
					ms := types.NewMethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.SSA.MethodValue(ms.At(i))
						if fn != nil && fn.Pkg == pk && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
}

// isRepo tells whether the function belongs to the analysed packages
func (p *Prog) isRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	return f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), modPath)
}

// Func finds a package-level function
func (p *Prog) Func(rel, name string) *ssa.Function {
	if pk := p.Pkgs[rel]; pk != nil {
		return pk.Func(name)
	}
	return nil
}

// Named finds a named type
func (p *Prog) Named(rel, name string) *types.Named {
	if pk := p.Types[rel]; pk != nil {
		if o, ok := pk.Scope().Lookup(name).(*types.TypeName); ok {
			n, _ := types.Unalias(o.Type()).(*types.Named)
			return n
		}
	}
	return nil
}

// Method finds a method of a type declared in the repository
func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	n := p.Named(rel, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(n, name)
}

func (p *Prog) methodOf(n *types.Named, name string) *ssa.Function {
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				if f := p.SSA.FuncValue(s.Obj().(*types.Func)); f != nil && len(f.Blocks) > 0 {
					return f
				}
			}
		}
	}
	return nil
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fname is a short stable name of a function
func fname(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}
