package main

// Loading /repo with the harness overlay and building SSA.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/KitchenMishap/pudding-shed"

type Program struct {
	p       *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	ms      map[string]*ssa.Function
	errT    *types.Interface
	Dropped []string
}

var interpStd = map[string]bool{"io": true, "bufio": true, "bytes": true, "strings": true, "encoding/binary": true,
	"encoding/hex": true, "sort": true, "slices": true, "cmp": true, "math/bits": true, "unicode/utf8": true, "internal/byteorder": true,
	"container/heap": true, "container/list": true, "maps": true, "iter": true, "errors": true, "io/fs": true, "math": true, "strconv": true,
	"internal/bytealg": true}

func (pr *Program) interpretable(path string) bool {
	return strings.HasPrefix(path, modPath) || interpStd[path]
}

var initSkip = map[string]bool{"errors": true, "io/fs": true, "internal/bytealg": true, "strconv": false, "math": true, "internal/oserror": true}
var zeroPkgs = map[string]bool{"fmt": true, "log": true, "time": true, "runtime": true, "runtime/debug": true,
	"golang.org/x/text/message": true, "golang.org/x/text/language": true}

func (pr *Program) native(fn *ssa.Function) func(in *Interp, a []Val) Val {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := natives[name]; ok {
		return f
	}
	if ta := fn.TypeArgs(); name == "slices.insertionSortOrdered" && len(ta) == 1 {
		if w, signed, ok := intElem(ta[0]); ok {
			return orderedSort(w, signed)
		}
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && initSkip[p] {
			return func(in *Interp, a []Val) Val { return Val{} }
		}
		if zeroPkgs[p] && fn.Name() != "init" {
			return zeroOf(fn)
		}
	} else if fn.Signature.Recv() != nil {
		// wrapper methods are interpreted
	}
	return nil
}

func (pr *Program) typ(pkg, name string) types.Type {
	p := pr.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type not found: " + pkg + "." + name))
	}
	return o.Type()
}
func (pr *Program) glob(pkg, name string) *ssa.Global {
	p := pr.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	g, _ := p.Members[name].(*ssa.Global)
	if g == nil {
		panic(unsupported("global not found: " + pkg + "." + name))
	}
	return g
}
func (pr *Program) fn(pkg, name string) *ssa.Function {
	p := pr.pkgs[pkg]
	if p == nil {
		panic(unsupported("package not loaded: " + pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("function not found: " + pkg + "." + name))
	}
	return f
}
func (pr *Program) isError(t types.Type) bool {
	return types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
}
func (pr *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	return pr.p.LookupMethod(t, m.Pkg(), m.Name())
}
func (pr *Program) methodByName(t types.Type, name string) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	ms := pr.p.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return pr.p.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Load loads the given packages (import paths relative to the module) with the overlay.
func Load(modfile string, overlay map[string][]byte, pats []string) (*Program, []string, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:        repoRoot,
		Overlay:    overlay,
		BuildFlags: []string{"-mod=mod", "-buildvcs=false", "-modfile=" + modfile},
		Env:        append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, errs, nil
	}
	sp, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	pr := &Program{p: sp, pkgs: map[string]*ssa.Package{}, ms: map[string]*ssa.Function{}}
	for _, p := range sp.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	var paths []string
	for p := range pr.pkgs {
		if pr.interpretable(p) || p == "os" || p == "fmt" || p == "sync" {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		pr.pkgs[p].Build()
	}
	return pr, nil, nil
}

// initPackages resets the globals of the repository's packages and runs their initialisers.
func (in *Interp) initPackages(fn *ssa.Function) {
	for g, p := range in.globals {
		if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			*p = zero(g.Type().(*types.Pointer).Elem())
		}
	}
	if fn.Pkg != nil {
		in.call(nil, fn.Pkg.Func("init"), nil, nil)
	}
}

// HarnessFiles lists the harness files for the given property groups and builds the overlay.
func harnessOverlay(dir string, drop map[string]bool) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	src := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if drop[rel] {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repoRoot, filepath.Dir(rel), "zz_verif_"+filepath.Base(rel))
		ov[dst] = b
		src[dst] = rel
		return nil
	})
	if err != nil {
		return nil, nil, fmt.Errorf("harness overlay: %w", err)
	}
	return ov, src, nil
}

// repoRoot is the tree under test; VF_REPO names a scratch copy while developing.
var repoRoot = func() string {
	if r := os.Getenv("VF_REPO"); r != "" {
		return r
	}
	return "/repo"
}()
