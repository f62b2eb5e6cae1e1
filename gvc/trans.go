package main

// SSA translator: forward symbolic translation, loops cut at their headers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

type Closure struct {
	fn   *ssa.Function
	free []SV
}

type write struct{ comp, ref string }

type Tr struct {
	rootMods map[string][]string
	root     *Frame
	vc       *VC
	w        *World
	fn       *ssa.Function
	key      string
	c        *Contract
	safety   bool
	termOn     bool
	entry    *State
	next0    string
	params   map[string]SV
	wlog     []write
	stack    []*ssa.Function
	oblN     map[string]int
	nloop    int
	decr0    []string // entry values of the decreases measure
	scc      map[*ssa.Function]bool
	covers   []string
	quickOff bool
	hseen    []string
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]SV
	parent *Frame
	c      *Contract // contract whose invariants apply (inline contracts)
	vars   map[string]SV
	entry  *State
	depth  int
	pfx    string
	params map[string]SV
	loops  map[*loopInfo]*loopRT
}

type edge struct {
	from  *ssa.BasicBlock
	pi    int // index in Preds
	guard string
	st    *State
}

type retEdge struct {
	guard string
	st    *State
	res   []SV
	pos   token.Pos
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	idx    int
}

// ---- CFG ----

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	ls := map[*ssa.BasicBlock]*loopInfo{}
	order := rpo(fn)
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := ls[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				var stk []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stk = append(stk, b)
				}
				for len(stk) > 0 {
					x := stk[len(stk)-1]
					stk = stk[:len(stk)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stk = append(stk, p)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range ls {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	// number loops in source order of their header position
	for i, h := range hs {
		ls[h].idx = i
	}
	return ls
}

func (tr *Tr) stateMerge(es []edge, guard string) *State {
	vc := tr.vc
	if len(es) == 1 {
		return es[0].st.clone()
	}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.h {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := &State{h: map[string]string{}}
	for _, k := range ks {
		t0 := vc.get(es[0].st, k)
		same := true
		for _, e := range es[1:] {
			if vc.get(e.st, k) != t0 {
				same = false
			}
		}
		if same {
			out.h[k] = t0
			continue
		}
		srt := vc.comps[k]
		if k == "next" {
			srt = "Int"
		}
		n := vc.fresh(k, srt)
		for _, e := range es {
			vc.assume(e.guard, "(= "+n+" "+vc.get(e.st, k)+")")
		}
		out.h[k] = n
	}
	return out
}

func (tr *Tr) svMerge(gs []string, vs []SV, t types.Type, name string) SV {
	vc := tr.vc
	same := true
	for _, v := range vs[1:] {
		if v.T != vs[0].T || v.Addr != nil || v.Clo != nil || v.Tup != nil {
			same = false
		}
	}
	if same && vs[0].Addr == nil {
		r := vs[0]
		if t != nil {
			r.Go = t
		}
		return r
	}
	for _, v := range vs {
		if v.Addr != nil {
			// identical addresses are fine
			ok := true
			for _, x := range vs {
				if x.Addr == nil || *x.Addr.flat() != *vs[0].Addr.flat() {
					ok = false
				}
			}
			if ok {
				return vs[0]
			}
			tr.unsupported("merge of addresses", token.NoPos, "true")
			break
		}
	}
	if len(vs[0].Tup) > 0 {
		r := SV{}
		for i := range vs[0].Tup {
			var xs []SV
			for _, v := range vs {
				xs = append(xs, v.Tup[i])
			}
			r.Tup = append(r.Tup, tr.svMerge(gs, xs, nil, name))
		}
		return r
	}
	if vs[0].Sort == "" {
		return vs[0]
	}
	n := vc.fresh(name, vs[0].Sort)
	for i, v := range vs {
		vc.assume(gs[i], "(= "+n+" "+tr.term(v)+")")
	}
	if t == nil {
		t = vs[0].Go
	}
	return SV{T: n, Sort: vs[0].Sort, Go: t}
}

type flatAddr struct{ comp, ref, idx, path string }

func (a *Addr) flat() *flatAddr {
	p := ""
	for _, e := range a.path {
		p += fmt.Sprintf("%s.%d;", e.st, e.fld)
	}
	return &flatAddr{a.comp, a.ref, a.idx, p}
}

// ---- obligations ----

func (tr *Tr) oblName(kind string) string {
	k := tr.key + "/" + kind
	tr.oblN[k]++
	if tr.oblN[k] > 1 {
		return fmt.Sprintf("%s#%d", k, tr.oblN[k])
	}
	return k
}

func (tr *Tr) obligation(kind, guard, goal string, pos token.Pos) *Obl {
	vc := tr.vc
	if vc.scratch > 0 {
		return &Obl{}
	}
	if goal == "true" || guard == "false" {
		// trivially discharged by the generator's simplifier: still counted
		o := &Obl{Name: tr.oblName(kind), Kind: kind, Pos: tr.w.pos(pos), At: len(vc.items), Guard: guard, Goal: goal, Cand: -1, Fn: tr.key, Status: "unsat", Solver: "simplifier"}
		vc.obls = append(vc.obls, o)
		return o
	}
	o := &Obl{Name: tr.oblName(kind), Kind: kind, Pos: tr.w.pos(pos), At: len(vc.items), Guard: guard, Goal: goal, Cand: -1, Fn: tr.key}
	vc.obls = append(vc.obls, o)
	return o
}

// a run-time check the Go semantics performs: an obligation when the property
// asks for safety, and in any case a fact afterwards
func (tr *Tr) check(kind, guard, goal string, pos token.Pos) {
	if tr.safety {
		tr.obligation("safety:"+kind, guard, goal, pos)
	}
	tr.vc.assume(guard, goal)
}

func (tr *Tr) unsupported(what string, pos token.Pos, guard string) {
	if tr.vc.scratch > 0 {
		return
	}
	o := tr.obligation("unsupported:"+what, guard, "false", pos)
	o.Why = "unsupported construct: " + what
	tr.vc.unsupported = append(tr.vc.unsupported, what+" at "+tr.w.pos(pos))
}

// ---- values ----

func (tr *Tr) constant(c *ssa.Const) SV {
	vc := tr.vc
	t := c.Type()
	if c.Value == nil {
		return SV{T: vc.zero(t), Sort: vc.sortOf(t), Go: t}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SV{T: fmt.Sprint(constant.BoolVal(c.Value)), Sort: "Bool", Go: t}
		case b.Info()&types.IsString != 0:
			return SV{T: vc.lit(constant.StringVal(c.Value)), Sort: "Str", Go: t}
		case b.Info()&types.IsFloat != 0:
			return SV{T: vc.flit(c.Value), Sort: "Flt", Go: t}
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, _ := new(big.Int).SetString(v.ExactString(), 10)
			return SV{T: smtInt(bi), Sort: "Int", Go: t}
		}
	}
	return SV{T: vc.fresh("const", vc.sortOf(t)), Sort: vc.sortOf(t), Go: t}
}

func (tr *Tr) loadGlobal(g *ssa.Global, st *State) SV {
	vc := tr.vc
	t := derefT(g.Type())
	if init, ok := tr.w.roGlobals[g]; ok {
		n := "glob$" + sanitize(shortPkg(g.Pkg.Pkg)+"."+g.Name())
		if vc.extFuns[n] == "" {
			s := fmt.Sprintf("(declare-const %s %s)\n", n, vc.sortOf(t))
			s += "(assert " + vc.typeok(n, t, "next!0") + ")\n"
			if nonNilInit(init) {
				s += "(assert (not (= " + n + " " + vc.zero(t) + ")))\n"
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if al, ok := init.(*ssa.Alloc); ok && al.Heap && types.NewInterfaceType(nil, nil) != nil {
					if st, ok := pt.Elem().Underlying().(*types.Struct); ok && st.NumFields() > 0 {
						// distinct allocations have distinct addresses
						for _, o := range vc.globAllocs {
							s += "(assert (not (= " + n + " " + o + ")))\n"
						}
						vc.globAllocs = append(vc.globAllocs, n)
					}
				}
			}
			vc.extFuns[n] = s
			vc.extOrd = append(vc.extOrd, n)
		}
		return SV{T: n, Sort: vc.sortOf(t), Go: t}
	}
	c := "glob$" + sanitize(shortPkg(g.Pkg.Pkg)+"."+g.Name())
	vc.comp(c, vc.sortOf(t))
	if _, ok := t.Underlying().(*types.Slice); ok {
		vc.emit("(assert %s)", vc.typeok(vc.get(st, c), t, vc.get(st, "next")))
	}
	return SV{T: vc.get(st, c), Sort: vc.sortOf(t), Go: t}
}

func nonNilInit(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeInterface:
		return true
	case *ssa.ChangeType:
		return nonNilInit(x.X)
	case *ssa.ChangeInterface:
		return nonNilInit(x.X)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.RelString(nil) {
			case "regexp.MustCompile", "errors.New", "reflect.TypeOf":
				return true
			}
		}
	}
	return false
}

func (tr *Tr) val(fr *Frame, v ssa.Value, st *State) SV {
	vc := tr.vc
	switch x := v.(type) {
	case *ssa.Const:
		return tr.constant(x)
	case *ssa.Global:
		t := derefT(x.Type())
		return SV{Addr: &Addr{comp: "glob", typ: t}, Sort: "Int", Go: x.Type(), T: "", Glob: x}
	case *ssa.Function:
		return SV{T: tr.funcConst(x), Sort: "Int", Go: x.Type(), Clo: &Closure{fn: x}}
	case *ssa.Builtin:
		return SV{}
	}
	if s, ok := fr.vals[v]; ok {
		return s
	}
	if vc.scratch == 0 {
		// value from a block not reached: arbitrary
	}
	t := v.Type()
	s := SV{T: vc.fresh("undef", vc.sortOf(t)), Sort: vc.sortOf(t), Go: t}
	if tup, ok := t.(*types.Tuple); ok {
		s = SV{}
		for i := 0; i < tup.Len(); i++ {
			et := tup.At(i).Type()
			s.Tup = append(s.Tup, SV{T: vc.fresh("undef", vc.sortOf(et)), Sort: vc.sortOf(et), Go: et})
		}
	}
	return s
}

func (tr *Tr) funcConst(f *ssa.Function) string {
	n := "fun$" + sanitize(tr.w.key(f))
	if tr.vc.extFuns[n] == "" {
		tr.vc.extFuns[n] = fmt.Sprintf("(declare-const %s Int)\n(assert (< 0 %s))", n, n)
		tr.vc.extOrd = append(tr.vc.extOrd, n)
	}
	return n
}

// the term of a value; materialises interior addresses
func (tr *Tr) term(v SV) string {
	vc := tr.vc
	if v.Addr != nil && v.T == "" {
		el := derefT(v.Go)
		if st, ok := el.Underlying().(*types.Struct); ok && (st.NumFields() == 0 || isOpaqueStruct(vc, el)) && v.Addr.ref != "" {
			// interior pointer to a stateless or opaque object
			n := "inner$" + sanitize(v.Addr.comp)
			if vc.extFuns[n] == "" {
				vc.extFuns[n] = fmt.Sprintf("(declare-fun %s (Int) Int)\n(assert (forall ((r Int)) (! (and (< 0 (%s r)) (=> (and (<= 0 r) (< r next!0)) (< (%s r) next!0))) :pattern ((%s r)))))", n, n, n, n)
				vc.extOrd = append(vc.extOrd, n)
			}
			return "(" + n + " " + v.Addr.ref + ")"
		}
		tr.unsupported("interior pointer used as a value", token.NoPos, "true")
		return vc.fresh("addr", "Int")
	}
	if v.Sort == "" && v.T == "" {
		return vc.fresh("noval", "Int")
	}
	return v.T
}

// addressOf: view a pointer value as an address descriptor
func (tr *Tr) addrOf(p SV, st *State) *Addr {
	vc := tr.vc
	if p.Glob != nil {
		t := derefT(p.Go)
		if _, ro := tr.w.roGlobals[p.Glob]; ro {
			return nil
		}
		c := "glob$" + sanitize(shortPkg(p.Glob.Pkg.Pkg)+"."+p.Glob.Name())
		vc.comp(c, vc.sortOf(t))
		return &Addr{comp: c, typ: t, esort: vc.sortOf(t)}
	}
	if p.Addr != nil {
		return p.Addr
	}
	el := derefT(p.Go)
	switch u := el.Underlying().(type) {
	case *types.Struct:
		return nil
	case *types.Array:
		return &Addr{comp: vc.memComp(u.Elem()), ref: p.T, typ: el, esort: vc.sortOf(el), arr: true}
	}
	return &Addr{comp: vc.cellComp(el), ref: p.T, typ: el, esort: vc.sortOf(el)}
}

func (tr *Tr) readBase(a *Addr, st *State) string {
	t := tr.vc.get(st, a.comp)
	if a.ref != "" {
		t = "(select " + t + " " + a.ref + ")"
	}
	if a.off != "" {
		t = tr.vc.at(t, a.off, a.k, a.esort)
	} else if a.idx != "" {
		t = "(select " + t + " " + a.idx + ")"
	}
	return t
}

func (tr *Tr) readAddr(a *Addr, st *State) string {
	t := tr.readBase(a, st)
	for _, p := range a.path {
		t = tr.selField(t, p)
	}
	return t
}

func (tr *Tr) selField(t string, p pathEl) string {
	vc := tr.vc
	if p.fld < 0 { // array index
		return "(select " + t + " " + p.idx + ")"
	}
	s := vc.sortOf(p.st)
	return "(" + fieldSel(s, p.st.Underlying().(*types.Struct), p.fld) + " " + t + ")"
}

func (tr *Tr) updPath(base string, path []pathEl, v string) string {
	vc := tr.vc
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.fld < 0 {
		return "(store " + base + " " + p.idx + " " + tr.updPath("(select "+base+" "+p.idx+")", path[1:], v) + ")"
	}
	u := p.st.Underlying().(*types.Struct)
	s := vc.sortOf(p.st)
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		f := "(" + fieldSel(s, u, i) + " " + base + ")"
		if i == p.fld {
			f = tr.updPath(f, path[1:], v)
		}
		fs = append(fs, f)
	}
	return "(mk_" + s + " " + strings.Join(fs, " ") + ")"
}

func (tr *Tr) setComp(st *State, comp, term string) {
	srt := tr.vc.comps[comp]
	if comp == "next" {
		srt = "Int"
	}
	st.h[comp] = tr.vc.def(comp, srt, term)
}

func (tr *Tr) writeAddr(a *Addr, st *State, v string) {
	vc := tr.vc
	nv := v
	if len(a.path) > 0 {
		nv = tr.updPath(tr.readBase(a, st), a.path, v)
	}
	cur := vc.get(st, a.comp)
	tr.wlog = append(tr.wlog, write{a.comp, a.ref})
	switch {
	case a.ref == "":
		tr.setComp(st, a.comp, nv)
	case a.idx == "":
		tr.setComp(st, a.comp, "(store "+cur+" "+a.ref+" "+nv+")")
	default:
		tr.setComp(st, a.comp, "(store "+cur+" "+a.ref+" (store (select "+cur+" "+a.ref+") "+a.idx+" "+nv+"))")
	}
}

func (tr *Tr) nilcheck(p SV, guard string, pos token.Pos) {
	if p.Addr != nil || p.Glob != nil {
		return
	}
	tr.check("nil-dereference", guard, "(not (= "+p.T+" 0))", pos)
}

func (tr *Tr) load(p SV, st *State, guard string, pos token.Pos) SV {
	vc := tr.vc
	if p.Glob != nil {
		return tr.loadGlobal(p.Glob, st)
	}
	el := derefT(p.Go)
	srt := vc.sortOf(el)
	tr.nilcheck(p, guard, pos)
	if a := tr.addrOf(p, st); a != nil {
		t := vc.def("ld", srt, tr.readAddr(a, st))
		vc.assume(guard, vc.typeok(t, el, vc.get(st, "next")))
		return SV{T: t, Sort: srt, Go: el}
	}
	if isOpaqueStruct(vc, el) {
		n := "opq$" + sanitize(srt)
		vc.comp(n, "(Array Int "+srt+")")
		return SV{T: "(select " + vc.get(st, n) + " " + p.T + ")", Sort: srt, Go: el}
	}
	u := el.Underlying().(*types.Struct)
	if u.NumFields() == 0 {
		return SV{T: "mk_" + srt, Sort: srt, Go: el}
	}
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, tr.loadField(p.T, el, i, st))
	}
	t := vc.def("ld", srt, "(mk_"+srt+" "+strings.Join(fs, " ")+")")
	vc.assume(guard, vc.typeok(t, el, vc.get(st, "next")))
	return SV{T: t, Sort: srt, Go: el}
}

func (tr *Tr) loadField(ref string, t types.Type, i int, st *State) string {
	vc := tr.vc
	u := t.Underlying().(*types.Struct)
	ft := u.Field(i).Type()
	if fu, ok := ft.Underlying().(*types.Struct); ok && fu.NumFields() == 0 && !isOpaqueStruct(vc, ft) {
		return "mk_" + vc.sortOf(ft)
	}
	return "(select " + vc.get(st, vc.fieldComp(t, i)) + " " + ref + ")"
}

func (tr *Tr) store(p SV, v SV, st *State, guard string, pos token.Pos) {
	vc := tr.vc
	tr.nilcheck(p, guard, pos)
	vt := tr.term(v)
	if p.Glob != nil && tr.w.roGlobals[p.Glob] != nil {
		return // package initialiser only
	}
	if a := tr.addrOf(p, st); a != nil {
		tr.writeAddr(a, st, vt)
		return
	}
	el := derefT(p.Go)
	tr.storeStruct(p.T, el, vt, st)
	_ = vc
}

func (tr *Tr) storeStruct(ref string, el types.Type, vt string, st *State) {
	vc := tr.vc
	srt := vc.sortOf(el)
	if isOpaqueStruct(vc, el) {
		n := "opq$" + sanitize(srt)
		vc.comp(n, "(Array Int "+srt+")")
		tr.wlog = append(tr.wlog, write{n, ref})
		tr.setComp(st, n, "(store "+vc.get(st, n)+" "+ref+" "+vt+")")
		return
	}
	u := el.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if fu, ok := ft.Underlying().(*types.Struct); ok && fu.NumFields() == 0 && !isOpaqueStruct(vc, ft) {
			continue
		}
		c := vc.fieldComp(el, i)
		tr.wlog = append(tr.wlog, write{c, ref})
		fv := "(" + fieldSel(srt, u, i) + " " + vt + ")"
		if strings.HasPrefix(vt, "(mk_") {
			if sx := parseSexps(vt); len(sx) == 1 && len(sx[0].L) == u.NumFields()+1 {
				fv = sx[0].L[i+1].String()
			}
		}
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+ref+" "+fv+")")
	}
}

// allocate a zeroed object of type t; returns its reference
func (tr *Tr) alloc(t types.Type, st *State, name string) string {
	vc := tr.vc
	if u, ok := t.Underlying().(*types.Struct); ok && u.NumFields() == 0 && !isOpaqueStruct(vc, t) {
		// zero-size objects: distinct variables may share an address
		r := vc.fresh("zobj", "Int")
		nx := vc.get(st, "next")
		nn := vc.fresh("next", "Int")
		vc.emit("(assert (= %s (+ %s 1)))", nn, nx)
		vc.emit("(assert (and (< 0 %s) (< %s %s)))", r, r, nn)
		st.h["next"] = nn
		return r
	}
	r := tr.bump(st, name)
	switch u := t.Underlying().(type) {
	case *types.Array:
		c := vc.memComp(u.Elem())
		tr.wlog = append(tr.wlog, write{c, r})
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+r+" "+vc.zeroArr(u.Elem())+")")
	case *types.Struct:
		if isOpaqueStruct(vc, t) {
			if isBuf(t) {
				vc.comp("gho$buf", "(Array Int Str)")
				tr.wlog = append(tr.wlog, write{"gho$buf", r})
				tr.setComp(st, "gho$buf", "(store "+vc.get(st, "gho$buf")+" "+r+" sempty)")
			}
			tr.storeStruct(r, t, vc.zero(t), st)
		} else {
			tr.storeStruct(r, t, vc.zero(t), st)
		}
	default:
		c := vc.cellComp(t)
		tr.wlog = append(tr.wlog, write{c, r})
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+r+" "+vc.zero(t)+")")
	}
	return r
}

func isBuf(t types.Type) bool {
	n := typeName(t)
	return n == "bytes.Buffer" || n == "strings.Builder"
}

func (tr *Tr) bump(st *State, name string) string {
	vc := tr.vc
	nx := vc.get(st, "next")
	r := vc.def("ref_"+name, "Int", nx)
	nn := vc.fresh("next", "Int")
	vc.emit("(assert (= %s (+ %s 1)))", nn, nx)
	st.h["next"] = nn
	return r
}

// ---- function execution ----

type runCtx struct {
	fr      *Frame
	order   []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*loopInfo
	in      map[*ssa.BasicBlock][]edge
	rets    []retEdge
	region  map[*ssa.BasicBlock]bool // nil: whole function
	header  *ssa.BasicBlock          // region header: edges to it are back edges
	back    []edge
	dry     bool
}

func (tr *Tr) exec(fr *Frame, st *State, guard string) []retEdge {
	if fr.fn.Blocks == nil {
		tr.unsupported("function without body "+fr.fn.String(), token.NoPos, guard)
		return nil
	}
	rc := &runCtx{fr: fr, order: rpo(fr.fn), loops: findLoops(fr.fn), in: map[*ssa.BasicBlock][]edge{}}
	rc.in[fr.fn.Blocks[0]] = []edge{{guard: guard, st: st}}
	for _, b := range rc.order {
		tr.block(rc, b)
	}
	return rc.rets
}

func (tr *Tr) addEdge(rc *runCtx, from, to *ssa.BasicBlock, nth int, guard string, st *State) {
	pi := -1
	c := 0
	for i, p := range to.Preds {
		if p == from {
			if c == nth {
				pi = i
				break
			}
			c++
		}
	}
	e := edge{from, pi, guard, st}
	if rc.region != nil && to == rc.header {
		rc.back = append(rc.back, e)
		return
	}
	if rc.region != nil && !rc.region[to] {
		return // leaves the dry-run region
	}
	if l := rc.loops[to]; l != nil && l.blocks[from] {
		tr.backEdge(rc, l, e)
		return
	}
	rc.in[to] = append(rc.in[to], e)
}

func (tr *Tr) block(rc *runCtx, b *ssa.BasicBlock) {
	if rc.region != nil && !rc.region[b] {
		return
	}
	es := rc.in[b]
	if len(es) == 0 {
		return
	}
	vc := tr.vc
	fr := rc.fr
	var gs []string
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	guard := or(gs...)
	if guard == "false" {
		return
	}
	guard = vc.def("b"+itoa(b.Index), "Bool", guard)
	st := tr.stateMerge(es, guard)
	if l := rc.loops[b]; l != nil && !(rc.region != nil && b == rc.header) {
		tr.loopHead(rc, l, es, guard, st)
	} else if rc.region != nil && b == rc.header {
		// phis already set by the dry-run driver
	} else {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []SV
			for _, e := range es {
				vs = append(vs, tr.val(fr, phi.Edges[e.pi], e.st))
			}
			fr.vals[phi] = tr.svMerge(gs, vs, phi.Type(), phiName(phi))
		}
	}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			c := tr.val(fr, x.Cond, st)
			ct := tr.term(c)
			g1 := vc.def("g", "Bool", and(guard, ct))
			g2 := vc.def("g", "Bool", and(guard, not(ct)))
			n2 := 0
			if b.Succs[0] == b.Succs[1] {
				n2 = 1
			}
			tr.addEdge(rc, b, b.Succs[0], 0, g1, st.clone())
			tr.addEdge(rc, b, b.Succs[1], n2, g2, st.clone())
			return
		case *ssa.Jump:
			tr.addEdge(rc, b, b.Succs[0], 0, guard, st)
			return
		case *ssa.Return:
			var rs []SV
			for _, r := range x.Results {
				v := tr.val(fr, r, st)
				if v.Addr != nil && v.T == "" {
					v = SV{T: tr.term(v), Sort: "Int", Go: r.Type()}
				}
				v.Go = r.Type()
				rs = append(rs, v)
			}
			rc.rets = append(rc.rets, retEdge{guard, st, rs, x.Pos()})
			return
		case *ssa.Panic:
			tr.check("explicit-panic", guard, "false", x.Pos())
			return
		default:
			guard = tr.instr(fr, in, st, guard)
			if guard == "false" {
				return
			}
		}
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// ---- loops ----

type loopRT struct {
	l       *loopInfo
	cands   []*candRT
	meas    []*measRT
	hst     *State // header state (havoced)
	pre     *State // state at loop entry
	nextLE  string
	fr      *Frame
	entryPhi map[*ssa.Phi]SV
}

type candRT struct {
	c    *Cand
	eval func(st *State, look func(ssa.Value) SV) (string, bool)
}

type measRT struct {
	c    *Cand
	m0   []string
	eval func(st *State, look func(ssa.Value) SV) ([]string, bool)
}

func (tr *Tr) isInv(term string, snap int) bool {
	for i := 0; i < len(term); i++ {
		if term[i] == '!' {
			j := i + 1
			for j < len(term) && term[j] >= '0' && term[j] <= '9' {
				j++
			}
			if n, err := strconv.Atoi(term[i+1 : j]); err == nil && n > snap {
				return false
			}
		}
	}
	return true
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func (tr *Tr) havocPhi(p *ssa.Phi, st *State, guard string) SV {
	vc := tr.vc
	t := p.Type()
	s := vc.sortOf(t)
	n := vc.fresh(phiName(p), s)
	vc.assume(guard, vc.typeok(n, t, vc.get(st, "next")))
	return SV{T: n, Sort: s, Go: t}
}

// dry run of the loop body: which components change, and at which references
func (tr *Tr) dryRun(rc *runCtx, l *loopInfo, st *State) (map[string]bool, []write, bool) {
	vc := tr.vc
	vc.scratch++
	save := tr.wlog
	tr.wlog = nil
	fr := *rc.fr
	fr.vals = map[ssa.Value]SV{}
	for k, v := range rc.fr.vals {
		fr.vals[k] = v
	}
	h := st.clone()
	for _, p := range phisOf(l.header) {
		fr.vals[p] = tr.havocPhi(p, h, "true")
	}
	sub := &runCtx{fr: &fr, order: rc.order, loops: rc.loops, in: map[*ssa.BasicBlock][]edge{}, region: l.blocks, header: l.header, dry: true}
	sub.in[l.header] = []edge{{guard: "dry", st: h}}
	h0 := h.clone()
	for _, b := range rc.order {
		tr.block(sub, b)
	}
	mod := map[string]bool{}
	for _, e := range sub.back {
		for k, v := range e.st.h {
			o, ok := h0.h[k]
			if !ok {
				o = sanitize(k) + "!0"
			}
			if o != v {
				mod[k] = true
			}
		}
	}
	log := tr.wlog
	tr.wlog = append(save, log...)
	vc.scratch--
	return mod, log, len(sub.back) > 0
}

func (tr *Tr) loopHead(rc *runCtx, l *loopInfo, es []edge, guard string, st *State) {
	vc := tr.vc
	fr := rc.fr
	phis := phisOf(l.header)
	var gs []string
	for _, e := range es {
		gs = append(gs, e.guard)
	}
	entryPhi := map[*ssa.Phi]SV{}
	for _, p := range phis {
		var vs []SV
		for _, e := range es {
			vs = append(vs, tr.val(fr, p.Edges[e.pi], e.st))
		}
		entryPhi[p] = tr.svMerge(gs, vs, p.Type(), phiName(p)+"_entry")
	}
	pre := st.clone()
	snap := vc.n
	mod, log, _ := tr.dryRun(rc, l, st)
	rt := &loopRT{l: l, pre: pre, nextLE: vc.get(pre, "next"), fr: fr, entryPhi: entryPhi}
	// havoc
	var ms []string
	for k := range mod {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	if mod["next"] {
		n := vc.fresh("next", "Int")
		vc.emit("(assert (<= %s %s))", vc.get(st, "next"), n)
		st.h["next"] = n
	}
	for _, k := range ms {
		if k == "next" {
			continue
		}
		st.h[k] = vc.fresh(k, vc.comps[k])
	}
	for _, p := range phis {
		if e := entryPhi[p]; e.Addr != nil && e.T == "" {
			fr.vals[p] = e
			tr.unsupported("address-valued loop variable", p.Pos(), guard)
			continue
		}
		fr.vals[p] = tr.havocPhi(p, st, guard)
	}
	tr.paramsOK(st)
	rt.hst = st.clone()
	// candidates
	if vc.scratch == 0 {
		tr.nloop++
		hlook := func(v ssa.Value) SV { return tr.val(fr, v, st) }
		elook := func(v ssa.Value) SV {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
				return entryPhi[p]
			}
			return tr.val(fr, v, pre)
		}
		tr.makeCands(rc, rt, mod, log, snap, elook, hlook)
		var live []*candRT
		var hs []string
		for _, c := range rt.cands {
			e, ok1 := c.eval(pre, elook)
			h, ok2 := c.eval(st, hlook)
			if !ok1 || !ok2 || h == "true" {
				continue
			}
			meta := c.c.Meta
			c.c = vc.newCand(c.c.Desc, fmt.Sprintf("%s loop %d", tr.key, l.idx), c.c.User)
			c.c.Meta = meta
			tr.candObl(c.c, "entry", guard, e)
			hs = append(hs, h)
			live = append(live, c)
		}
		for i, c := range live {
			vc.emit("(assert (=> (and %s %s) %s))", c.c.Name, guard, hs[i])
		}
		rt.cands = live
		if tr.termOn {
			tr.makeMeasures(rc, rt, hlook, st)
		}
	}
	fr.setLoop(l, rt)
}

// slices held directly in an object a parameter points to are well-formed in
// every state
func (tr *Tr) paramsOK(st *State) {
	if len(tr.stack) == 0 {
		return
	}
	for _, p := range tr.stack[0].Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		u, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		v, ok := tr.root.vals[p]
		if !ok || v.T == "" {
			continue
		}
		for i := 0; i < u.NumFields(); i++ {
			if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
				t := "(select " + tr.vc.get(st, tr.vc.fieldComp(pt.Elem(), i)) + " " + v.T + ")"
				tr.vc.assume("true", imp("(not (= "+v.T+" 0))", tr.vc.typeok(t, u.Field(i).Type(), tr.vc.get(st, "next"))))
			}
		}
	}
}

func (vc *VC) newCand(desc, loop string, user bool) *Cand {
	c := &Cand{ID: len(vc.cands), Name: fmt.Sprintf("act!c%d", len(vc.cands)), Desc: desc, Loop: loop, Alive: true, User: user}
	vc.cands = append(vc.cands, c)
	vc.emit("(declare-const %s Bool)", c.Name)
	return c
}

func (tr *Tr) candObl(c *Cand, what, guard, goal string) {
	vc := tr.vc
	o := &Obl{Name: fmt.Sprintf("%s/invariant[%s]:%s", tr.key, c.Desc, what), Kind: "invariant-" + what, At: len(vc.items), Guard: guard, Goal: goal, Cand: c.ID, Fn: tr.key}
	vc.obls = append(vc.obls, o)
	c.Obls = append(c.Obls, o)
}

func (fr *Frame) setLoop(l *loopInfo, rt *loopRT) {
	if fr.loops == nil {
		fr.loops = map[*loopInfo]*loopRT{}
	}
	fr.loops[l] = rt
}

func (tr *Tr) backEdge(rc *runCtx, l *loopInfo, e edge) {
	vc := tr.vc
	rt := rc.fr.loops[l]
	if rt == nil || vc.scratch > 0 {
		return
	}
	fr := rc.fr
	look := func(v ssa.Value) SV {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			return tr.val(fr, p.Edges[e.pi], e.st)
		}
		return tr.val(fr, v, e.st)
	}
	for _, c := range rt.cands {
		g, ok := c.eval(e.st, look)
		if !ok {
			g = "false"
		}
		tr.candObl(c.c, "preserved", e.guard, g)
	}
	for _, m := range rt.meas {
		ms, ok := m.eval(e.st, look)
		g := "false"
		if ok {
			g = lexLess(ms, m.m0)
		}
		tr.candObl(m.c, "decreases", e.guard, g)
	}
}

func lexLess(a, b []string) string {
	// a < b lexicographically, all components of b non-negative
	s := "false"
	for i := len(a) - 1; i >= 0; i-- {
		lt := "(and (<= 0 " + b[i] + ") (< " + a[i] + " " + b[i] + "))"
		if i == len(a)-1 {
			s = lt
		} else {
			s = "(or " + lt + " (and (= " + a[i] + " " + b[i] + ") " + s + "))"
		}
	}
	return s
}
