package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/warthog618/sms"

// Prog is the type-checked program and its SSA form, loaded from the current
// working tree.
type Prog struct {
	loopMu     sync.Mutex
	loopMemo   map[*ssa.Function]bool
	sums       sumCache
	invMu      sync.Mutex
	invDropped map[string]bool
	invChanged bool
	invFmt     map[string]string // the format of the keys of a map type

	repo    string
	fset    *token.FileSet
	pkgs    map[string]*packages.Package // by path
	order   []*packages.Package
	ssa     *ssa.Program
	spkg    map[string]*ssa.Package
	fns     []*ssa.Function // all source functions, incl. anonymous
	taken   []*ssa.Function
	mutOnce sync.Once
	mut     map[*ssa.Global]bool
}

func repoDir() string {
	if d := os.Getenv("SMSVERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// loadProg loads every package of the module (not tests), with extra overlay
// files (path relative to the module root -> content).
func loadProg(overlay map[string]string) (*Prog, error) {
	repo := repoDir()
	p := &Prog{repo: repo, fset: token.NewFileSet(), pkgs: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}}
	ov := map[string][]byte{}
	for k, v := range overlay {
		ov[filepath.Join(repo, k)] = []byte(v)
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Fset:    p.fset,
		Overlay: ov,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly -buildvcs=false", "GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=0",
			"GOWORK=off"),
	}
	pats := []string{"./..."}
	seen := map[string]bool{}
	for k := range overlay {
		d := "./" + filepath.Dir(k)
		if !seen[d] {
			seen[d] = true
			pats = append(pats, d)
		}
	}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	packages.Visit(pk, nil, func(q *packages.Package) {
		p.pkgs[q.PkgPath] = q
	})
	p.order = pk
	sort.Slice(p.order, func(i, j int) bool { return p.order[i].PkgPath < p.order[j].PkgPath })
	prog, spk := ssautil.Packages(pk, ssa.InstantiateGenerics)
	p.ssa = prog
	prog.Build()
	for i, q := range pk {
		if spk[i] == nil {
			return nil, fmt.Errorf("no SSA form for %s", q.PkgPath)
		}
		p.spkg[q.PkgPath] = spk[i]
	}
	p.collect()
	return p, nil
}

// collect gathers every function with a body in the module.
func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 {
			p.fns = append(p.fns, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.order {
		sp := p.spkg[q.PkgPath]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.ssa.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.ssa.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "-"
	}
	q := p.fset.Position(x)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) inModule(k *types.Package) bool {
	return k != nil && (k.Path() == modPath || strings.HasPrefix(k.Path(), modPath+"/"))
}

// isLib: a library package (not a command, nor the README witness).
func (p *Prog) isLib(path string) bool {
	return (path == modPath || strings.HasPrefix(path, modPath+"/encoding/"))
}

// fname is a short printable function name.
func fname(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath, "sms")
}

// fn finds a function or method: ("encoding/tpdu", "", "NewDCS") or
// ("encoding/tpdu", "TPDU", "Marshal"). nil when absent.
func (p *Prog) fn(pkg, recv, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.spkg[path]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	m := sp.Type(recv)
	if m == nil {
		return nil
	}
	for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
		if s := p.ssa.MethodSets.MethodSet(t).Lookup(sp.Pkg, name); s != nil {
			if f := p.ssa.MethodValue(s); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) typ(pkg, name string) *types.Named {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	q := p.pkgs[path]
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}
