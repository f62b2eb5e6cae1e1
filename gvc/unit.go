package main

// Verification units: a function against its contract, an implementation
// against an interface contract, or a lemma.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type UnitID struct {
	Kind string // func iface lemma
	Key  string
	Impl string // for iface: implementing type name
}

func (u UnitID) String() string {
	if u.Kind == "iface" {
		return u.Key + "@" + u.Impl
	}
	if u.Kind == "lemma" {
		return "lemma " + u.Key
	}
	return u.Key
}

type UnitResult struct {
	ID         UnitID
	VC         *VC
	Err        string
	Obls       []*Obl // final obligations (no candidates)
	Dropped    []string
	Kept       int
	Covers     string
	Robust     bool
	Retried    bool
	SolverTime float64
}

func (vc *VC) reset() {
	vc.items = nil
	vc.obls = nil
	vc.cands = nil
	vc.n = 0
	vc.extFuns = map[string]string{}
	vc.extOrd = nil
	vc.globAllocs = nil
	vc.unsupported = nil
	vc.noContract = map[string]bool{}
	vc.usedContracts = map[string]bool{}
	vc.inlined = map[string]bool{}
	vc.trusted = map[string]bool{}
}

func buildUnit(w *World, db *SpecDB, id UnitID, prop *Property, robust bool) (vc *VC, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s: %s", id, x.msg)
				return
			}
			panic(r)
		}
	}()
	vc = newVC(w, db, id.String(), prop)
	vc.robust = robust
	if id.Kind == "lemma" {
		l := db.Lemmas[id.Key]
		if l == nil {
			return nil, fmt.Errorf("unknown lemma %s", id.Key)
		}
		vc.curLemma = id.Key
		vc.lemmaUnit(l)
		return vc, nil
	}
	for pass := 0; pass < 2; pass++ {
		vc.reset()
		if err := vc.funcUnit(id); err != nil {
			return nil, err
		}
	}
	return vc, nil
}

func (vc *VC) funcUnit(id UnitID) error {
	w := vc.w
	c := vc.db.forProp(vc.db.Contracts[id.Key], vc.prop)
	if c == nil {
		return fmt.Errorf("no contract for %s", id.Key)
	}
	var fn *ssa.Function
	var recvT types.Type
	if id.Kind == "iface" {
		for _, t := range w.impls {
			if typeName(t) == id.Impl {
				recvT = t
				fn = w.method(t, lastName(id.Key))
			}
		}
	} else {
		fn = w.funcs[id.Key]
	}
	if fn == nil {
		return fmt.Errorf("function %s not found in the source", id)
	}
	if fn.Blocks == nil {
		return fmt.Errorf("function %s has no body", id)
	}
	var im *Contract
	if id.Kind == "iface" {
		if im = vc.db.forProp(vc.db.Impls[w.key(fn)], vc.prop); im != nil {
			c2 := *c
			c2.Clauses = append(append([]*Clause(nil), im.Clauses...), c.Clauses...)
			c2.Use = append(append([]string(nil), c.Use...), im.Use...)
			c2.CallHints = append(append([]*Clause(nil), c.CallHints...), im.CallHints...)
			c = &c2
		}
	}
	for _, u := range c.Use {
		vc.useTheory(u)
	}
	safety, term := false, false
	if vc.prop != nil {
		safety, term = vc.prop.Safety && !vc.prop.NoSafety[id.String()], vc.prop.Term
	}
	tr := &Tr{vc: vc, w: w, fn: fn, key: id.String(), c: c, safety: safety, termOn: term, params: map[string]SV{}, oblN: map[string]int{}}
	st := &State{h: map[string]string{"next": "next!0"}}
	for _, k := range vc.compOrd {
		st.h[k] = sanitize(k) + "!0"
	}
	vc.emit("(assert (<= 1 next!0))")
	fr := &Frame{fn: fn, vals: map[ssa.Value]SV{}, c: c}
	for i, p := range fn.Params {
		t := p.Type()
		v := SV{T: vc.fresh("p_"+p.Name(), vc.sortOf(t)), Sort: vc.sortOf(t), Go: t}
		vc.assume("true", vc.typeok(v.T, t, "next!0"))
		fr.vals[p] = v
		if i < len(c.Params) {
			if i == 0 && id.Kind == "iface" {
				bv := v
				bv.Go = recvT
				tr.params[c.Params[0]] = SV{T: vc.def("this", "Iface", vc.box(bv)), Sort: "Iface", Go: w.typeByName("JSONObject")}
			} else {
				tr.params[c.Params[i]] = v
			}
		}
		if im != nil && i < len(im.Params) && (i > 0 || im.Params[0] != c.Params[0]) {
			tr.params[im.Params[i]] = v
		}
	}
	if len(c.Params) != len(fn.Params) {
		return fmt.Errorf("contract %s lists %d parameters, the function has %d", id, len(c.Params), len(fn.Params))
	}
	for _, fv := range fn.FreeVars {
		fr.vals[fv] = SV{T: vc.fresh("fv_"+fv.Name(), vc.sortOf(fv.Type())), Sort: vc.sortOf(fv.Type()), Go: fv.Type()}
	}
	tr.entry = st.clone()
	vc.h0 = ""
	if vc.theories["doc"] {
		vc.h0 = vc.hTerm(tr.entry)
	}
	vc.mentioned = map[string]bool{}
	fr.entry = tr.entry
	fr.params = tr.params
	tr.root = fr
	tr.stack = []*ssa.Function{fn}
	tr.paramsOK(st)
	env := &Env{vc: vc, vars: map[string]SV{}, cur: tr.entry, old: tr.entry}
	for k, v := range tr.params {
		env.vars[k] = v
	}
	if id.Kind == "iface" && !isPtr(recvT.Underlying()) {
		return fmt.Errorf("non-pointer implementer %s", recvT)
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "requires" && tr.propOK(cl.Tags) {
			vc.assume("true", env.eval(cl.E).T)
		}
	}
	if term {
		tr.scc = tr.findSCC(fn)
		for _, cl := range c.Clauses {
			if cl.Kind == "decreases" {
				for _, e := range cl.Es {
					tr.decr0 = append(tr.decr0, vc.def("measure", "Int", env.eval(e).T))
				}
			}
		}
		if tr.recursive(fn) && tr.decr0 == nil {
			tr.obligation("termination: recursive function has no measure", "true", "false", fn.Pos())
		}
	}
	vc.emit("; ---- body ----")
	vc.coverPre = len(vc.items)
	tr.stack = []*ssa.Function{fn}
	tr.rootMods = tr.modSet(env, c)
	rets := tr.exec(fr, st.clone(), "true")
	// postconditions
	ens := 0
	var gs []string
	var es []edge
	for _, r := range rets {
		gs = append(gs, r.guard)
		es = append(es, edge{guard: r.guard, st: r.st})
	}
	for ri, r := range rets {
		e2 := &Env{vc: vc, vars: map[string]SV{}, cur: r.st, old: tr.entry}
		for k, v := range tr.params {
			e2.vars[k] = v
		}
		resultNames(e2, r.res)
		for _, g := range c.Ghosts {
			return fmt.Errorf("ghost result %s on a verified function", g.Name)
		}
		for ci, cl := range c.Clauses {
			if cl.Kind == "hint" {
				reqs, enss := vc.lemmaInst(e2, cl.Names[0], cl.Es)
				when := "true"
				if cl.E != nil {
					when = e2.eval(cl.E).T
				}
				vc.assume(and(r.guard, when), imp(and(reqs...), and(enss...)))
				continue
			}
			if cl.Kind == "assert" {
				g := e2.eval(cl.E).T
				o := tr.obligation(fmt.Sprintf("assert %d", ci), r.guard, g, r.pos)
				o.Name += fmt.Sprintf("@ret%d", ri)
				vc.assume(r.guard, g)
				continue
			}
			if cl.Kind != "ensures" || !tr.propOK(cl.Tags) {
				continue
			}
			lab := cl.Label
			if lab == "" {
				lab = fmt.Sprint(ci)
			}
			ens++
			g := e2.eval(cl.E).T
			for pi, part := range splitAnd(g) {
				k := "ensures " + lab
				if pi > 0 {
					k += fmt.Sprintf(".%d", pi)
				}
				o := tr.obligation(k, r.guard, part, r.pos)
				o.Name += fmt.Sprintf("@ret%d", ri)
			}
			vc.assume(r.guard, g)
		}
	}
	// frame
	if len(rets) > 0 {
		ng := vc.def("exit", "Bool", or(gs...))
		vc.cover = ng
		ms := tr.stateMerge(es, ng)
		mods := tr.rootMods
		var ks []string
		for k := range ms.h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if k == "next" || strings.HasPrefix(k, "iter$") {
				continue
			}
			init := vc.get(tr.entry, k)
			if ms.h[k] == init || contains(mods[k], "*") {
				continue
			}
			if !strings.HasPrefix(vc.comps[k], "(Array Int") || strings.HasPrefix(k, "glob$") {
				tr.obligation("frame "+k, ng, "(= "+ms.h[k]+" "+init+")", fn.Pos())
				continue
			}
			r := vc.fresh("fr", "Int")
			conds := []string{"(<= 0 " + r + ")", "(< " + r + " next!0)"}
			for _, m := range mods[k] {
				conds = append(conds, "(not (= "+r+" "+m+"))")
			}
			tr.obligation("frame "+k, ng, imp(and(conds...), "(= (select "+ms.h[k]+" "+r+") (select "+init+" "+r+"))"), fn.Pos())
		}
	}
	_ = ens
	return nil
}

// split a top-level conjunction so that failures are named precisely
func splitAnd(t string) []string {
	if !strings.HasPrefix(t, "(and ") || len(t) > 20000 {
		return []string{t}
	}
	sx := parseSexps(t)
	if len(sx) != 1 {
		return []string{t}
	}
	var out []string
	for _, x := range sx[0].L[1:] {
		out = append(out, splitAnd(x.String())...)
	}
	return out
}

func (tr *Tr) callGraph(f *ssa.Function) []*ssa.Function {
	_, cs := tr.localWrites(f)
	return cs
}

// functions in the same recursion component as f (through analysed bodies)
func (tr *Tr) findSCC(f *ssa.Function) map[*ssa.Function]bool {
	reach := func(g *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var visit func(h *ssa.Function)
		visit = func(h *ssa.Function) {
			for _, c := range tr.callGraph(h) {
				if !seen[c] {
					seen[c] = true
					visit(c)
				}
			}
		}
		visit(g)
		return seen
	}
	out := map[*ssa.Function]bool{}
	for g := range reach(f) {
		if reach(g)[f] {
			out[g] = true
		}
	}
	return out
}

func (tr *Tr) recursive(f *ssa.Function) bool { return tr.scc[f] }

func (tr *Tr) sccIface(key string) bool {
	for _, f := range tr.w.ifaceMethods(key) {
		if tr.scc[f] {
			return true
		}
	}
	return false
}

// ---- lemmas ----

// instance of a (separately proved) lemma
func (vc *VC) lemmaInst(env *Env, name string, args []*Ex) (reqs, enss []string) {
	t := vc.db.Lemmas[name]
	if t == nil {
		env.fail("unknown lemma %s", name)
	}
	vc.useTheory(name)
	e2 := &Env{vc: vc, vars: map[string]SV{}, spec: true}
	if len(args) != len(t.Params) {
		env.fail("lemma %s: wrong number of arguments", name)
	}
	for i, p := range t.Params {
		v := env.eval(args[i])
		if v.Sort != t.PSorts[i] {
			env.fail("lemma %s: argument %d has sort %s, want %s", name, i, v.Sort, t.PSorts[i])
		}
		e2.vars[p] = v
		if t.PSorts[i] == "H" && e2.hterm == "" {
			e2.hterm = v.T
		}
	}
	for _, c := range t.Clauses {
		switch c.Kind {
		case "requires":
			reqs = append(reqs, e2.eval(c.E).T)
		case "ensures":
			enss = append(enss, e2.eval(c.E).T)
		}
	}
	return
}

func (vc *VC) lemmaUnit(l *Contract) {
	for _, u := range l.Use {
		vc.useTheory(u)
	}
	env := &Env{vc: vc, vars: map[string]SV{}, spec: true}
	for i, p := range l.Params {
		n := vc.fresh(p, l.PSorts[i])
		env.vars[p] = SV{T: n, Sort: l.PSorts[i]}
		if l.PSorts[i] == "H" && env.hterm == "" {
			env.hterm = n
		}
	}
	obl := func(kind, guard, goal string) {
		vc.obls = append(vc.obls, &Obl{Name: "lemma " + l.Key + "/" + kind, Kind: kind, At: len(vc.items), Guard: guard, Goal: goal, Cand: -1, Fn: l.Key})
	}
	for _, c := range l.Clauses {
		if c.Kind == "requires" {
			vc.assume("true", env.eval(c.E).T)
		}
	}
	var m0 []string
	for _, c := range l.Clauses {
		if c.Kind == "decreases" {
			for _, e := range c.Es {
				m0 = append(m0, vc.def("measure", "Int", env.eval(e).T))
			}
		}
	}
	vc.coverPre = len(vc.items)
	for hi, h := range l.Hints {
		switch h.Kind {
		case "assert":
			g := env.eval(h.E).T
			obl(fmt.Sprintf("assert %d", hi), "true", g)
			vc.assume("true", g)
		case "use", "useall":
			t := vc.db.Lemmas[h.Name]
			if t == nil {
				env.fail("unknown lemma %s", h.Name)
			}
			if h.Name != l.Key {
				vc.useTheory(h.Name)
			}
			e1 := *env
			var binders []string
			if h.Kind == "useall" {
				e1.vars = map[string]SV{}
				for k, v := range env.vars {
					e1.vars[k] = v
				}
				for _, v := range h.Vars {
					vc.n++
					nm := fmt.Sprintf("%s?%d", v.Name, vc.n)
					s := v.Sort
					e1.vars[v.Name] = SV{T: nm, Sort: s}
					binders = append(binders, "("+nm+" "+s+")")
				}
			}
			e2 := &Env{vc: vc, vars: map[string]SV{}, spec: true}
			for i, p := range t.Params {
				v := e1.eval(h.Args[i])
				e2.vars[p] = v
				if t.PSorts[i] == "H" && e2.hterm == "" {
					e2.hterm = v.T
				}
			}
			when := "true"
			if h.When != nil {
				when = e1.eval(h.When).T
			}
			var reqs, enss, dec []string
			for _, c := range t.Clauses {
				switch c.Kind {
				case "requires":
					reqs = append(reqs, e2.eval(c.E).T)
				case "ensures":
					enss = append(enss, e2.eval(c.E).T)
				case "decreases":
					if h.Name == l.Key {
						for _, e := range c.Es {
							dec = append(dec, e2.eval(e).T)
						}
					}
				}
			}
			if h.Name == l.Key {
				if len(dec) == 0 {
					env.fail("lemma %s: self-use without decreases", l.Key)
				}
				var nn []string
				for _, m := range m0 {
					nn = append(nn, "(<= 0 "+m+")")
				}
				dec = []string{and(append(nn, lexLess(dec, m0))...)}
			}
			if h.Kind == "useall" {
				body := imp(and(append(append([]string{when}, reqs...), dec...)...), and(enss...))
				pats := ""
				for _, g := range h.Trigs {
					pat := ""
					for _, t := range g {
						pat += " " + e1.eval(t).T
					}
					pats += " :pattern (" + strings.TrimSpace(pat) + ")"
				}
				if pats != "" {
					body = "(! " + body + pats + ")"
				}
				vc.emit("(assert (forall (%s) %s))", strings.Join(binders, " "), body)
			} else {
				for i, r := range reqs {
					obl(fmt.Sprintf("use %s %d requires %d", h.Name, hi, i), when, r)
				}
				for _, d := range dec {
					obl(fmt.Sprintf("use %s %d decreases", h.Name, hi), when, d)
				}
				vc.assume(when, and(enss...))
			}
		}
	}
	for i, c := range l.Clauses {
		if c.Kind == "ensures" {
			for j, p := range splitAnd(env.eval(c.E).T) {
				obl(fmt.Sprintf("ensures %d.%d", i, j), "true", p)
			}
		}
	}
}
