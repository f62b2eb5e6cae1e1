package main

// Loading /repo (and the analysed dependency packages) as SSA; syntactic
// may-write analysis.

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	rootPkg = "yunion.io/x/jsonutils"
	smPkg   = "yunion.io/x/pkg/sortedmap"
)

type World struct {
	prog       *ssa.Program
	pkg        *ssa.Package
	sm         *ssa.Package
	fset       *token.FileSet
	analysed   map[string]bool
	inlinePkgs map[string]bool // external packages whose bodies may be inlined
	funcs      map[string]*ssa.Function
	keyOf      map[*ssa.Function]string
	roGlobals  map[*ssa.Global]ssa.Value
	impls      []types.Type // implementers of JSONObject (pointer types)
	repo       string
	mw         map[*ssa.Function]map[string]bool
	mwVC       *VC
	ifaceImpl  map[string][]*ssa.Function
}

func loadWorld(repo string) *World {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, ".", smPkg, "yunion.io/x/pkg/utils", "yunion.io/x/pkg/tristate")
	if err != nil {
		fatal("cannot load %s: %v", repo, err)
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			fatal("cannot load %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w := &World{prog: prog, fset: prog.Fset, analysed: map[string]bool{rootPkg: true, smPkg: true, "yunion.io/x/pkg/util/reflectutils": true}, inlinePkgs: map[string]bool{"yunion.io/x/pkg/utils": true, "yunion.io/x/pkg/tristate": true}, funcs: map[string]*ssa.Function{}, keyOf: map[*ssa.Function]string{}, repo: repo, ifaceImpl: map[string][]*ssa.Function{}}
	for _, p := range pkgs {
		p.Build()
		switch p.Pkg.Path() {
		case rootPkg:
			w.pkg = p
		case smPkg:
			w.sm = p
		}
	}
	for _, p := range pkgs {
		w.indexPkg(p)
	}
	// instances of generic functions called from indexed ones
	var fs []*ssa.Function
	for _, f := range w.funcs {
		fs = append(fs, f)
	}
	for len(fs) > 0 {
		f := fs[0]
		fs = fs[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Origin() != nil && g.Blocks != nil {
						if k := w.key(g); w.funcs[k] == nil {
							w.funcs[k] = g
							fs = append(fs, g)
						}
					}
				}
			}
		}
	}
	// implementers of JSONObject
	ji := w.pkg.Type("JSONObject").Type().Underlying().(*types.Interface)
	var names []string
	for n, m := range w.pkg.Members {
		if _, ok := m.(*ssa.Type); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		t := w.pkg.Type(n).Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		pt := types.NewPointer(t)
		if types.Implements(pt, ji) {
			w.impls = append(w.impls, pt)
		}
		if types.Implements(t, ji) {
			w.impls = append(w.impls, t)
		}
	}
	w.findRO()
	return w
}

func (w *World) indexPkg(p *ssa.Package) {
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil {
			return
		}
		k := w.key(f)
		w.funcs[k] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(w.prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
}

// key: Name, (*T).Name, (T).Name for jsonutils; pkg-qualified otherwise.
func (w *World) key(f *ssa.Function) string {
	if k, ok := w.keyOf[f]; ok {
		return k
	}
	k := f.RelString(nil)
	// shorten package paths
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if o := f.Object(); o != nil {
		pk = o.Pkg()
	}
	k = shortenKey(k, pk)
	w.keyOf[f] = k
	return k
}

func shortenKey(k string, pk *types.Package) string {
	k = strings.ReplaceAll(k, rootPkg+".", "")
	for {
		i := strings.LastIndexByte(k, '/')
		if i < 0 {
			return k
		}
		j := i
		for j > 0 && strings.IndexByte("(*[] ,", k[j-1]) < 0 {
			j--
		}
		k = k[:j] + k[i+1:]
	}
}

func (w *World) typeByName(n string) types.Type {
	ptr := 0
	for strings.HasPrefix(n, "*") {
		ptr++
		n = n[1:]
	}
	slice := 0
	for strings.HasPrefix(n, "[]") {
		slice++
		n = n[2:]
	}
	var t types.Type
	for _, b := range types.Typ {
		if b.Name() == n {
			t = b
		}
	}
	if n == "byte" {
		t = types.Typ[types.Uint8]
	}
	if n == "interface{}" {
		t = types.NewInterfaceType(nil, nil)
	}
	if t == nil {
		p := w.pkg
		name := n
		if strings.HasPrefix(n, "sortedmap.") {
			p = w.sm
			name = n[len("sortedmap."):]
		} else if i := strings.IndexByte(n, '.'); i > 0 {
			name = n[i+1:]
			p = nil
			for _, q := range w.prog.AllPackages() {
				if shortPkg(q.Pkg) == n[:i] && q.Type(name) != nil {
					p = q
				}
			}
		}
		if p == nil || p.Type(name) == nil {
			return nil
		}
		t = p.Type(name).Type()
	}
	for ; slice > 0; slice-- {
		t = types.NewSlice(t)
	}
	for ; ptr > 0; ptr-- {
		t = types.NewPointer(t)
	}
	return t
}

func (w *World) pkgObject(vc *VC, name string, st *State) (SV, bool) {
	p := w.pkg
	if strings.HasPrefix(name, "sortedmap@") {
		p, name = w.sm, name[len("sortedmap@"):]
	}
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		tr := &Tr{vc: vc, w: w}
		return tr.constant(m.Value), true
	case *ssa.Global:
		tr := &Tr{vc: vc, w: w}
		return tr.loadGlobal(m, st), true
	}
	return SV{}, false
}

// globals that no analysed code outside package initialisers stores to
func (w *World) findRO() {
	w.roGlobals = map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	inits := map[*ssa.Global]ssa.Value{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg != w.pkg && f.Pkg != w.sm {
			continue
		}
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if x.Addr == g && isInit {
							if _, dup := inits[g]; dup {
								bad[g] = true
							}
							inits[g] = x.Val
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g, v := range inits {
		if !bad[g] {
			w.roGlobals[g] = v
		}
	}
}

func (w *World) method(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// strip promoted-method wrappers: returns the declared function behind a
// synthetic wrapper, if the wrapper only forwards
func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := w.fset.Position(p)
	return filepath.Base(ps.Filename) + ":" + itoa(ps.Line)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
