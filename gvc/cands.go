package main

// Loop invariant candidates: user-supplied (resolved by name, or by trying
// values of fitting sort for names that do not resolve) and automatic ones.
// Every candidate is proved (entry + preserved) before it is used; candidates
// that cannot be proved are dropped.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bind struct {
	v    ssa.Value
	off  int
	addr bool
}

func (tr *Tr) lookupName(fr *Frame, header *ssa.BasicBlock, name string) (bind, bool) {
	// the iteration over a map that this loop performs, and the map
	if name == "mapiter" || name == "itermap" {
		for _, in := range header.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if r, ok := n.Iter.(*ssa.Range); ok {
					if name == "itermap" {
						return bind{v: r.X}, true
					}
					return bind{v: r}, true
				}
			}
		}
		return bind{}, false
	}
	for _, p := range phisOf(header) {
		if p.Comment == name {
			return bind{v: p}, true
		}
	}
	// a variable that lives in memory is denoted by its cell
	for b := header.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
				return bind{v: a, addr: true}, true
			}
		}
	}
	for b := header.Idom(); b != nil; b = b.Idom() {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			switch x := b.Instrs[i].(type) {
			case *ssa.DebugRef:
				if id, ok := x.Expr.(*ast.Ident); ok && id.Name == name {
					if x.IsAddr {
						return bind{v: x.X, addr: true}, true
					}
					return bind{v: x.X}, true
				}
			case *ssa.Phi:
				if x.Comment == name {
					return bind{v: x}, true
				}
			case *ssa.Alloc:
				if x.Comment == name {
					return bind{v: x, addr: true}, true
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return bind{v: p}, true
		}
	}
	return bind{}, false
}

// the variable a name denotes just before instruction x
func (tr *Tr) lookupAt(fr *Frame, x *ssa.Call, name string) (bind, bool) {
	if x.Parent() != fr.fn {
		return bind{}, false
	}
	for _, in := range x.Block().Instrs {
		if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
			return bind{v: a, addr: true}, true
		}
	}
	var best *bind
	for _, in := range x.Block().Instrs {
		if in == ssa.Instruction(x) {
			break
		}
		if d, ok := in.(*ssa.DebugRef); ok {
			if id, ok := d.Expr.(*ast.Ident); ok && id.Name == name {
				best = &bind{v: d.X, addr: d.IsAddr}
			}
		}
	}
	if best != nil {
		return *best, true
	}
	return tr.lookupName(fr, x.Block(), name)
}

func (tr *Tr) bindSV(b bind, st *State, look func(ssa.Value) SV) SV {
	s := look(b.v)
	if b.addr {
		el := derefT(b.v.Type())
		if s.Addr == nil && s.Glob == nil {
			if _, ok := el.Underlying().(*types.Struct); ok {
				s.Go = b.v.Type()
				return s // struct variable: use its address (field access works on it)
			}
		}
		tr.vc.scratch++
		r := tr.load(s, st, "true", token.NoPos)
		// recompute without the fresh definition
		tr.vc.scratch--
		if a := tr.addrOf(s, st); a != nil {
			r.T = tr.readAddr(a, st)
		}
		return r
	}
	if b.off != 0 {
		s.T = fmt.Sprintf("(+ %s %d)", s.T, b.off)
	}
	return s
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (tr *Tr) propOK(tags []string) bool {
	return len(tags) == 0 || tr.vc.prop == nil || contains(tags, tr.vc.prop.ID)
}

func (tr *Tr) makeCands(rc *runCtx, rt *loopRT, mod map[string]bool, log []write, snap int, elook, hlook func(ssa.Value) SV) {
	vc := tr.vc
	fr := rc.fr
	h := rt.l.header
	add := func(desc string, user bool, f func(st *State, look func(ssa.Value) SV) (string, bool)) {
		rt.cands = append(rt.cands, &candRT{c: &Cand{Desc: desc, User: user}, eval: f})
	}
	// ---- user invariants ----
	type src struct {
		c     *Contract
		vars  map[string]SV
		entry *State
		own   bool
	}
	srcs := []src{{tr.c, tr.params, tr.entry, fr.depth == 0}}
	if fr.c != nil && fr.c != tr.c {
		srcs = append(srcs, src{fr.c, fr.params, fr.entry, true})
	}
	for _, s := range srcs {
		if s.c == nil {
			continue
		}
		for ci, cl := range s.c.Clauses {
			if cl.Kind != "invariant" || !tr.propOK(cl.Tags) {
				continue
			}
			if cl.Loop >= 0 && (!s.own || cl.Loop != rt.l.idx) && !vc.robust {
				continue
			}
			ids := map[string]bool{}
			freeIDs(vc.db.expand(cl.E), map[string]bool{}, ids)
			binds := map[string]bind{}
			var meta []string
			var names []string
			for n := range ids {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if v, ok := s.vars[n]; ok && v.Sort == "Iface" && len(s.c.Params) > 0 && n == s.c.Params[0] && s.c.Kind == "iface" {
					continue // the receiver as an interface value
				}
				if b, ok := tr.lookupName(fr, h, n); ok {
					binds[n] = b
					continue
				}
				if _, ok := s.vars[n]; ok {
					continue
				}
				switch n {
				case "true", "false", "nil", "nilslice", "heap", "next":
					continue
				}
				if sg := vc.db.sig(n); sg != nil && len(sg.args) == 0 {
					continue
				}
				if _, ok := tr.w.pkgObject(vc, n, tr.entry); ok {
					continue
				}
				meta = append(meta, n)
			}
			if ids["mapiter"] && binds["mapiter"].v == nil || ids["itermap"] && binds["itermap"].v == nil {
				continue // not the loop it speaks of
			}
			lab := cl.Label
			if lab == "" {
				lab = fmt.Sprintf("%s.%d", s.c.Key, ci)
			}
			mk := func(binds map[string]bind) func(st *State, look func(ssa.Value) SV) (string, bool) {
				return func(st *State, look func(ssa.Value) SV) (string, bool) {
					env := &Env{vc: vc, vars: map[string]SV{}, cur: st, old: s.entry}
					for k, v := range s.vars {
						env.vars[k] = v
					}
					env.look = func(n string) (SV, bool) {
						if b, ok := binds[n]; ok {
							return tr.bindSV(b, st, look), true
						}
						return SV{}, false
					}
					for n := range binds {
						delete(env.vars, n)
					}
					env.loopPre = rt.pre
					env.preLook = func(n string) (SV, bool) {
						if b, ok := binds[n]; ok {
							return tr.bindSV(b, rt.pre, elook), true
						}
						return SV{}, false
					}
					v, err := env.tryEval(cl.E)
					if err != nil {
						if debugEval {
							fmt.Printf("  [eval] %s: %v\n", lab, err)
						}
						return "", false
					}
					return v.T, true
				}
			}
			// a parameter that the code assigns to: the name stands for the variable, or,
			// as the contract may mean it, for the value passed
			pre := map[string]bind{}
			assigned := false
			for n, b := range binds {
				if _, ok := s.vars[n]; ok {
					if _, isp := b.v.(*ssa.Parameter); !isp && !b.addr {
						assigned = true
						continue
					}
				}
				pre[n] = b
			}
			if len(meta) == 0 {
				add(lab, true, mk(binds))
				if assigned && vc.robust {
					add(lab+" (as passed)", true, mk(pre))
				}
				continue
			}
			var pool []bind
			for _, p := range phisOf(h) {
				pool = append(pool, bind{v: p})
				if p.Comment == "rangeindex" {
					pool = append(pool, bind{v: p, off: 1})
				}
			}
			if len(meta) <= 2 {
				// other values in scope
				seen := map[ssa.Value]bool{}
				for b := h.Idom(); b != nil; b = b.Idom() {
					for _, in := range b.Instrs {
						if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr && !seen[d.X] {
							switch d.X.(type) {
							case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
								continue
							}
							seen[d.X] = true
							pool = append(pool, bind{v: d.X})
						}
						if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" && !seen[a] {
							seen[a] = true
							pool = append(pool, bind{v: a, addr: true})
						}
					}
				}
			}
			n := 0
			var rec func(i int, cur map[string]bind)
			rec = func(i int, cur map[string]bind) {
				if n > 200 {
					return
				}
				if i == len(meta) {
					bb := map[string]bind{}
					for k, v := range binds {
						bb[k] = v
					}
					d := ""
					for _, m := range meta {
						bb[m] = cur[m]
						d += fmt.Sprintf(" %s=%s", m, bindName(cur[m]))
					}
					f := mk(bb)
					if _, ok := f(rt.hst, hlook); ok {
						n++
						add(lab+"{"+strings.TrimSpace(d)+"}", true, f)
						rt.cands[len(rt.cands)-1].c.Meta = true
					}
					if assigned {
						bc := map[string]bind{}
						for k, v := range pre {
							bc[k] = v
						}
						for _, m := range meta {
							bc[m] = bb[m]
						}
						f := mk(bc)
						if _, ok := f(rt.hst, hlook); ok {
							n++
							add(lab+" (as passed){"+strings.TrimSpace(d)+"}", true, f)
							rt.cands[len(rt.cands)-1].c.Meta = true
						}
					}
					return
				}
				num := usedAsNumber(vc.db.expand(cl.E), meta[i])
				for _, b := range pool {
					if num && b.v != nil {
						t := b.v.Type()
						if b.addr {
							t = derefT(t)
						}
						if bt, ok := t.Underlying().(*types.Basic); !ok || bt.Info()&(types.IsInteger|types.IsString) == 0 {
							continue
						}
					}
					cur[meta[i]] = b
					rec(i+1, cur)
				}
			}
			rec(0, map[string]bind{})
		}
	}
	// ---- automatic candidates ----
	phis := phisOf(h)
	next0 := vc.get(tr.entry, "next")
	nextLE := rt.nextLE
	for _, p := range phis {
		p := p
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				continue
			}
			ev := rt.entryPhi[p].T
			add("auto:"+phiName(p)+">=entry", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				return "(>= " + look(p).T + " " + ev + ")", true
			})
			for _, x := range tr.bounds(rt, p) {
				x := x
				xs := tr.boundTerm(x, hlook)
				if !tr.isInv(xs, snap) {
					continue
				}
				add("auto:"+phiName(p)+"<="+x.Name(), false, func(st *State, look func(ssa.Value) SV) (string, bool) {
					return "(<= " + look(p).T + " " + xs + ")", true
				})
				add("auto:"+phiName(p)+"<"+x.Name(), false, func(st *State, look func(ssa.Value) SV) (string, bool) {
					return "(< " + look(p).T + " " + xs + ")", true
				})
			}
			if countsDown(p, rt) {
				add("auto:"+phiName(p)+"<=entry", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
					return "(<= " + look(p).T + " " + ev + ")", true
				})
				for _, x := range tr.bounds(rt, p) {
					x := x
					xs := tr.boundTerm(x, hlook)
					if !tr.isInv(xs, snap) {
						continue
					}
					add("auto:"+phiName(p)+">="+x.Name(), false, func(st *State, look func(ssa.Value) SV) (string, bool) {
						return "(>= " + look(p).T + " " + xs + ")", true
					})
					add("auto:"+phiName(p)+">="+x.Name()+"-1", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
						return "(>= " + look(p).T + " (- " + xs + " 1))", true
					})
				}
			}
			if p.Comment == "rangeindex" {
				if x := rangeLen(h); x != nil {
					xs := tr.boundTerm(x, hlook)
					add("auto:rangeindex<len", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
						return "(or (= " + look(p).T + " (- 1)) (< " + look(p).T + " " + xs + "))", true
					})
				}
			}
		case *types.Slice:
			ev := rt.entryPhi[p].T
			add("auto:"+phiName(p)+" fresh or nil", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				t := look(p).T
				return "(or (= " + t + " nilslice) (>= (sbase " + t + ") " + next0 + "))", true
			})
			add("auto:"+phiName(p)+" fresh or entry", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				t := look(p).T
				return "(or (= (sbase " + t + ") (sbase " + ev + ")) (>= (sbase " + t + ") " + nextLE + "))", true
			})
			add("auto:"+phiName(p)+" non-nil", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				return "(not (= (sbase " + look(p).T + ") 0))", true
			})
		case *types.Pointer:
			add("auto:"+phiName(p)+" non-nil", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				return "(not (= " + look(p).T + " 0))", true
			})
		case *types.Interface:
			add("auto:"+phiName(p)+" nil", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
				return "(= " + look(p).T + " inil)", true
			})
		}
	}
	for _, it := range iteratorsAt(h) {
		it := it
		add("auto:iterator "+it.Name(), false, func(st *State, look func(ssa.Value) SV) (string, bool) {
			env := &Env{vc: vc, vars: map[string]SV{}, cur: st, old: tr.entry, loopPre: rt.pre}
			env.look = func(n string) (SV, bool) { return tr.bindSV(bind{v: it}, st, look), n == "it" }
			env.preLook = func(n string) (SV, bool) { return tr.bindSV(bind{v: it}, rt.pre, elook), n == "it" }
			v, err := env.tryEval(iterInv)
			return v.T, err == nil
		})
	}
	var ms []string
	for k := range mod {
		ms = append(ms, k)
	}
	sort.Strings(ms)
	// storage reachable from slices that the loop may extend in place
	var bases []string
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			bases = append(bases, "(sbase "+rt.entryPhi[p].T+")")
		}
	}
	for _, k := range ms {
		if vc.comps[k] != "(Array Int Slice)" {
			continue
		}
		seen := map[string]bool{}
		for _, wr := range log {
			if wr.comp == k && wr.ref != "" && tr.isInv(wr.ref, snap) && !seen[wr.ref] {
				seen[wr.ref] = true
				bases = append(bases, "(sbase (select "+vc.get(rt.pre, k)+" "+wr.ref+"))")
			}
		}
	}
	for _, k := range ms {
		k := k
		srt := vc.comps[k]
		if k == "next" || !strings.HasPrefix(srt, "(Array Int") {
			continue
		}
		inv := map[string]bool{}
		var invs []string
		for _, wr := range log {
			if wr.comp == k && wr.ref != "" && tr.isInv(wr.ref, snap) && !inv[wr.ref] {
				inv[wr.ref] = true
				invs = append(invs, wr.ref)
			}
		}
		frame := func(lim string, base *State, ws []string) func(st *State, look func(ssa.Value) SV) (string, bool) {
			bt := vc.get(base, k)
			return func(st *State, look func(ssa.Value) SV) (string, bool) {
				cur := vc.get(st, k)
				if cur == bt {
					return "true", true
				}
				cond := []string{"(<= 0 r)", "(< r " + lim + ")"}
				for _, w := range ws {
					cond = append(cond, "(not (= r "+w+"))")
				}
				return "(forall ((r Int)) (! (=> " + and(cond...) + " (= (select " + cur + " r) (select " + bt + " r))) :pattern ((select " + cur + " r))))", true
			}
		}
		add("auto:frame "+k+" since loop entry", false, frame(nextLE, rt.pre, invs))
		if vc.get(rt.pre, k) != vc.get(tr.entry, k) {
			add("auto:frame "+k+" since entry", false, frame(next0, tr.entry, invs))
		}
		if strings.HasPrefix(k, "mem$") && len(bases) > 0 {
			add("auto:frame "+k+" in place or new", false, frame(nextLE, rt.pre, append(append([]string(nil), invs...), bases...)))
		}
		if ws := tr.rootMods[k]; len(ws) > 0 && !contains(ws, "*") {
			add("auto:frame "+k+" as declared", false, frame(next0, tr.entry, ws))
		}
		if len(invs) > 0 {
			add("auto:frame "+k+" no write to old objects", false, frame(next0, rt.pre, nil))
		}
		if srt == "(Array Int Slice)" {
			for _, w := range invs {
				w := w
				ev := "(select " + vc.get(rt.pre, k) + " " + w + ")"
				add("auto:"+k+"@"+w+" base fresh", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
					t := "(select " + vc.get(st, k) + " " + w + ")"
					return "(or (= " + t + " nilslice) (>= (sbase " + t + ") " + next0 + "))", true
				})
				add("auto:"+k+"@"+w+" base fresh or entry", false, func(st *State, look func(ssa.Value) SV) (string, bool) {
					t := "(select " + vc.get(st, k) + " " + w + ")"
					return "(or (= (sbase " + t + ") (sbase " + ev + ")) (>= (sbase " + t + ") " + nextLE + "))", true
				})
			}
		}
	}
}

func exprOf(src string) *Ex {
	p := &parser{ts: lex(src, "builtin"), file: "builtin", db: &SpecDB{}}
	return p.expr()
}

var iterInv = exprOf("0 <= it.index && it.index <= len(it.smap) && it.smap == pre(it.smap)")
var iterMeasure = exprOf("len(it.smap) - it.index")

// the iterators over sorted maps that are in scope at a loop
func iteratorsAt(h *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for b := h.Idom(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			pt, ok := v.Type().Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "SSortedMapIterator" {
				out = append(out, v)
			}
		}
	}
	return out
}

// the loop takes a constant off the variable on its way round
func countsDown(p *ssa.Phi, rt *loopRT) bool {
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && rt.l.blocks[b.Block()] && b.X == p {
			if c, ok := constInt(b.Y); ok && (b.Op == token.SUB && c.Sign() > 0 || b.Op == token.ADD && c.Sign() < 0) {
				return true
			}
		}
	}
	return false
}

func bindName(b bind) string {
	n := b.v.Name()
	if p, ok := b.v.(*ssa.Phi); ok {
		n = phiName(p)
	}
	if b.off != 0 {
		n += fmt.Sprintf("+%d", b.off)
	}
	return n
}

// values the phi (or phi+-const) is compared with inside the loop
func (tr *Tr) bounds(rt *loopRT, p *ssa.Phi) []ssa.Value {
	rel := map[ssa.Value]bool{p: true}
	for b := range rt.l.blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
				if bo.X == p {
					if _, c := bo.Y.(*ssa.Const); c {
						rel[bo] = true
					}
				}
			}
		}
	}
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var bs []*ssa.BasicBlock
	for b := range rt.l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				var o ssa.Value
				if rel[bo.X] {
					o = bo.Y
				} else if rel[bo.Y] {
					o = bo.X
				} else {
					continue
				}
				if in, ok := o.(ssa.Instruction); ok && rt.l.blocks[in.Block()] {
					// len(x) recomputed in the loop of a loop-invariant x
					if c, ok := o.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							if ai, ok := c.Call.Args[0].(ssa.Instruction); !ok || !rt.l.blocks[ai.Block()] {
								if !seen[o] {
									seen[o] = true
									out = append(out, o)
								}
							}
						}
					}
					continue
				}
				if !seen[o] {
					seen[o] = true
					out = append(out, o)
				}
			}
		}
	}
	return out
}

func rangeLen(h *ssa.BasicBlock) ssa.Value {
	for _, in := range h.Instrs {
		if bo, ok := in.(*ssa.BinOp); ok && bo.Op == token.LSS {
			return bo.Y
		}
	}
	return nil
}

// ---- termination measures ----

func (tr *Tr) makeMeasures(rc *runCtx, rt *loopRT, hlook func(ssa.Value) SV, st *State) {
	vc := tr.vc
	h := rt.l.header
	fr := rc.fr
	for b := range rt.l.blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && n.Block() == h {
				return // range over a map or string: finite by Go semantics
			}
		}
	}
	add := func(desc string, f func(st *State, look func(ssa.Value) SV) ([]string, bool)) {
		ms, ok := f(st, hlook)
		if !ok {
			return
		}
		var m0 []string
		for _, m := range ms {
			m0 = append(m0, vc.def("measure", "Int", m))
		}
		c := vc.newCand("measure "+desc, fmt.Sprintf("%s loop %d", tr.key, rt.l.idx), false)
		c.Measure = true
		rt.meas = append(rt.meas, &measRT{c: c, m0: m0, eval: f})
	}
	for _, c := range []*Contract{tr.c, fr.c} {
		if c == nil {
			continue
		}
		for _, cl := range c.Clauses {
			if cl.Kind != "loopdecreases" {
				continue
			}
			cl := cl
			vars := tr.params
			add(cl.Es[0].String(), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
				env := &Env{vc: vc, vars: map[string]SV{}, cur: st, old: tr.entry}
				for k, v := range vars {
					env.vars[k] = v
				}
				env.look = func(n string) (SV, bool) {
					if b, ok := tr.lookupName(fr, h, n); ok {
						return tr.bindSV(b, st, look), true
					}
					return SV{}, false
				}
				var out []string
				for _, e := range cl.Es {
					v, err := env.tryEval(e)
					if err != nil {
						return nil, false
					}
					out = append(out, v.T)
				}
				return out, true
			})
		}
		if tr.c == fr.c {
			break
		}
	}
	for _, it := range iteratorsAt(h) {
		it := it
		add("iterator "+it.Name(), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
			env := &Env{vc: vc, vars: map[string]SV{}, cur: st, old: tr.entry}
			env.look = func(n string) (SV, bool) { return tr.bindSV(bind{v: it}, st, look), n == "it" }
			v, err := env.tryEval(iterMeasure)
			return []string{v.T}, err == nil
		})
	}
	var ips []*ssa.Phi
	for _, p := range phisOf(h) {
		p := p
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ips = append(ips, p)
				for _, x := range tr.bounds(rt, p) {
					xs := tr.boundTerm(x, hlook)
					if _, isPhi := x.(*ssa.Phi); isPhi {
						continue
					}
					add(phiName(p)+" up to "+x.Name(), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
						return []string{"(- " + xs + " " + look(p).T + ")"}, true
					})
					add(phiName(p)+" down to "+x.Name(), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
						return []string{"(- " + look(p).T + " " + xs + ")"}, true
					})
				}
			}
		case *types.Slice:
			add("len "+phiName(p), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
				return []string{"(sln " + look(p).T + ")"}, true
			})
		}
	}
	for _, p := range ips {
		for _, q := range ips {
			if p != q {
				p, q := p, q
				add(phiName(p)+"-"+phiName(q), func(st *State, look func(ssa.Value) SV) ([]string, bool) {
					return []string{"(+ 1 (- " + look(p).T + " " + look(q).T + "))"}, true
				})
			}
		}
	}
	// bool flags: "!stop" loops
	for _, p := range phisOf(h) {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			for _, q := range ips {
				q := q
				for _, x := range tr.bounds(rt, q) {
					xs := tr.boundTerm(x, hlook)
					if _, isPhi := x.(*ssa.Phi); isPhi {
						continue
					}
					add("("+phiName(p)+","+phiName(q)+")", func(st *State, look func(ssa.Value) SV) ([]string, bool) {
						return []string{"(ite " + look(p).T + " 0 1)", "(- " + xs + " " + look(q).T + ")"}, true
					})
				}
			}
		}
	}
	o := tr.obligation(fmt.Sprintf("termination:loop %d", rt.l.idx), "true", "measure", h.Instrs[0].Pos())
	o.Kind = "termination"
	o.Status = ""
	for _, m := range rt.meas {
		o.Meas = append(o.Meas, m.c)
	}
}

func (tr *Tr) boundTerm(x ssa.Value, look func(ssa.Value) SV) string {
	if c, ok := x.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			a := look(c.Call.Args[0])
			switch a.Sort {
			case "Slice":
				return "(sln " + a.T + ")"
			case "Str":
				return "(slen " + a.T + ")"
			}
		}
	}
	return look(x).T
}

// usedAsNumber tells whether the name is an operand of an order or of arithmetic.
func usedAsNumber(e *Ex, n string) bool {
	if e == nil {
		return false
	}
	if e.Op == "bin" {
		switch e.Name {
		case "<", "<=", ">", ">=", "+", "-", "*", "div", "mod":
			for _, a := range e.Args {
				if a.Op == "id" && a.Name == n {
					return true
				}
			}
		}
	}
	for _, a := range e.Args {
		if usedAsNumber(a, n) {
			return true
		}
	}
	return false
}
