package main

// Instruction and call semantics.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (tr *Tr) set(fr *Frame, v ssa.Value, t string) {
	fr.vals[v] = SV{T: t, Sort: tr.vc.sortOf(v.Type()), Go: v.Type()}
}

func (tr *Tr) setDef(fr *Frame, v ssa.Value, t string) {
	s := tr.vc.sortOf(v.Type())
	n := v.Name()
	fr.vals[v] = SV{T: tr.vc.def(n, s, t), Sort: s, Go: v.Type()}
}

func (tr *Tr) freshVal(t types.Type, st *State, guard, name string) SV {
	vc := tr.vc
	if tup, ok := t.(*types.Tuple); ok {
		s := SV{}
		for i := 0; i < tup.Len(); i++ {
			s.Tup = append(s.Tup, tr.freshVal(tup.At(i).Type(), st, guard, name))
		}
		return s
	}
	s := vc.sortOf(t)
	n := vc.fresh(name, s)
	vc.assume(guard, vc.typeok(n, t, vc.get(st, "next")))
	return SV{T: n, Sort: s, Go: t}
}

// returns the guard after the instruction ("false" when control never passes)
func (tr *Tr) instr(fr *Frame, in ssa.Instruction, st *State, guard string) string {
	vc := tr.vc
	V := func(v ssa.Value) SV { return tr.val(fr, v, st) }
	T := func(v ssa.Value) string { return tr.term(tr.val(fr, v, st)) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		r := tr.alloc(derefT(x.Type()), st, x.Comment)
		fr.vals[x] = SV{T: r, Sort: "Int", Go: x.Type()}
	case *ssa.Store:
		tr.store(V(x.Addr), V(x.Val), st, guard, x.Pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := V(x.X)
			p.Go = x.X.Type()
			fr.vals[x] = tr.load(p, st, guard, x.Pos())
		case token.NOT:
			tr.set(fr, x, not(T(x.X)))
		case token.SUB:
			v := V(x.X)
			if v.Sort == "Flt" {
				tr.setDef(fr, x, vc.ext("fneg", []string{"Flt"}, "Flt", tr.term(v)))
			} else {
				tr.setDef(fr, x, wrap("(- "+tr.term(v)+")", x.Type()))
			}
		case token.XOR:
			tr.setDef(fr, x, wrap("(- (- "+T(x.X)+") 1)", x.Type()))
		default:
			tr.unsupported("operator "+x.Op.String(), x.Pos(), guard)
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
		}
	case *ssa.BinOp:
		tr.binop(fr, x, st, guard)
	case *ssa.FieldAddr:
		p := V(x.X)
		p.Go = x.X.Type()
		stt := derefT(x.X.Type())
		ft := derefT(x.Type())
		if a := tr.addrOf2(p, st); a != nil {
			na := *a
			na.path = append(append([]pathEl(nil), a.path...), pathEl{st: stt, fld: x.Field})
			na.typ = ft
			fr.vals[x] = SV{Addr: &na, Sort: "Int", Go: x.Type()}
			break
		}
		tr.nilcheck(p, guard, x.Pos())
		if isOpaqueStruct(vc, stt) {
			tr.unsupported("field of "+typeName(stt), x.Pos(), guard)
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
			break
		}
		if ar, ok := ft.Underlying().(*types.Array); ok {
			_ = ar
		}
		fr.vals[x] = SV{Addr: &Addr{comp: vc.fieldComp(stt, x.Field), ref: tr.term(p), typ: ft, esort: vc.sortOf(ft)}, Sort: "Int", Go: x.Type()}
	case *ssa.Field:
		v := V(x.X)
		s := vc.sortOf(x.X.Type())
		u := x.X.Type().Underlying().(*types.Struct)
		if strings.HasPrefix(s, "O_") {
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
			break
		}
		tr.setDef(fr, x, "("+fieldSel(s, u, x.Field)+" "+tr.term(v)+")")
	case *ssa.IndexAddr:
		tr.indexAddr(fr, x, st, guard)
	case *ssa.Index:
		i := T(x.Index)
		c := V(x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic:
			tr.check("index", guard, "(and (<= 0 "+i+") (< "+i+" (slen "+c.T+")))", x.Pos())
			tr.setDef(fr, x, "(sat "+tr.term(c)+" "+i+")")
		case *types.Array:
			tr.check("index", guard, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, u.Len()), x.Pos())
			tr.setDef(fr, x, "(select "+tr.term(c)+" "+i+")")
		}
	case *ssa.Lookup:
		tr.lookup(fr, x, st, guard)
	case *ssa.Slice:
		tr.slice(fr, x, st, guard)
	case *ssa.MakeSlice:
		ln, cp := T(x.Len), T(x.Cap)
		tr.check("makeslice", guard, "(and (<= 0 "+ln+") (<= "+ln+" "+cp+"))", x.Pos())
		// allocation beyond the address space is memory exhaustion, outside the model
		vc.assume(guard, "(<= "+cp+" "+maxLen+")")
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := tr.bump(st, "mk")
		c := vc.memComp(el)
		tr.wlog = append(tr.wlog, write{c, r})
		z := vc.zeroArr(el)
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+r+" "+z+")")
		if el.Underlying() == types.Typ[types.Uint8] {
			// nothing more: contents are zero
		}
		tr.setDef(fr, x, fmt.Sprintf("(mkslice %s 0 %s %s)", r, ln, cp))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		d, v, l := vc.mapComps(mt)
		r := tr.bump(st, "map")
		ks, vs := vc.sortOf(mt.Key()), vc.sortOf(mt.Elem())
		tr.wlog = append(tr.wlog, write{d, r}, write{v, r}, write{l, r})
		tr.setComp(st, d, "(store "+vc.get(st, d)+" "+r+" ((as const (Array "+ks+" Bool)) false))")
		_ = vs
		tr.setComp(st, l, "(store "+vc.get(st, l)+" "+r+" 0)")
		fr.vals[x] = SV{T: r, Sort: "Int", Go: x.Type()}
	case *ssa.MapUpdate:
		m, k, v := T(x.Map), T(x.Key), T(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		d, vv, l := vc.mapComps(mt)
		tr.check("nil-map-write", guard, "(not (= "+m+" 0))", x.Pos())
		tr.wlog = append(tr.wlog, write{d, m}, write{vv, m}, write{l, m})
		dc, vcur, lc := vc.get(st, d), vc.get(st, vv), vc.get(st, l)
		tr.setComp(st, l, "(store "+lc+" "+m+" (ite (select (select "+dc+" "+m+") "+k+") (select "+lc+" "+m+") (+ 1 (select "+lc+" "+m+"))))")
		tr.setComp(st, d, "(store "+dc+" "+m+" (store (select "+dc+" "+m+") "+k+" true))")
		tr.setComp(st, vv, "(store "+vcur+" "+m+" (store (select "+vcur+" "+m+") "+k+" "+v+"))")
	case *ssa.MakeInterface:
		v := V(x.X)
		v.Go = x.X.Type()
		if v.Addr != nil {
			v.T = tr.term(v)
		}
		tr.setDef(fr, x, vc.box(v))
	case *ssa.ChangeInterface:
		v := V(x.X)
		v.Go = x.Type()
		fr.vals[x] = v
	case *ssa.ChangeType:
		v := V(x.X)
		if v.T == "" && v.Addr == nil && v.Tup == nil && v.Glob == nil && v.Clo == nil {
			v.T = tr.term(v)
		}
		v.Go = x.Type()
		fr.vals[x] = v
	case *ssa.Convert:
		tr.convert(fr, x, st, guard)
	case *ssa.TypeAssert:
		tr.typeAssert(fr, x, st, guard)
	case *ssa.Extract:
		t := V(x.Tuple)
		if x.Index < len(t.Tup) {
			e := t.Tup[x.Index]
			if e.T != "" {
				e.Go = x.Type()
			}
			fr.vals[x] = e
		} else {
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
		}
	case *ssa.MakeClosure:
		var free []SV
		for _, b := range x.Bindings {
			free = append(free, V(b))
		}
		f := x.Fn.(*ssa.Function)
		n := vc.fresh("clo", "Int")
		vc.emit("(assert (< 0 %s))", n)
		fr.vals[x] = SV{T: n, Sort: "Int", Go: x.Type(), Clo: &Closure{f, free}}
	case *ssa.Range:
		tr.rangeInit(fr, x, st)
	case *ssa.Next:
		tr.next(fr, x, st, guard)
	case *ssa.Call:
		return tr.call(fr, x, st, guard)
	case *ssa.Defer, *ssa.Go, *ssa.RunDefers, *ssa.Send, *ssa.Select:
		if _, ok := in.(*ssa.RunDefers); ok {
			break
		}
		tr.unsupported(fmt.Sprintf("%T", in), in.Pos(), guard)
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = tr.freshVal(v.Type(), st, guard, v.Name())
		}
	default:
		tr.unsupported(fmt.Sprintf("%T", in), in.Pos(), guard)
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = tr.freshVal(v.Type(), st, guard, v.Name())
		}
	}
	return guard
}

func (tr *Tr) addrOf2(p SV, st *State) *Addr {
	if p.Glob != nil {
		return tr.addrOf(p, st)
	}
	return p.Addr
}

func wrap(t string, ty types.Type) string {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	_, _, bits, signed := intRange(b)
	if signed {
		return "(wrapS " + t + " " + new(big.Int).Lsh(big.NewInt(1), uint(bits-1)).String() + ")"
	}
	return "(wrapU " + t + " " + new(big.Int).Lsh(big.NewInt(1), uint(bits)).String() + ")"
}

func constInt(v ssa.Value) (*big.Int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return nil, false
	}
	k := constant.ToInt(c.Value)
	if k.Kind() != constant.Int {
		return nil, false
	}
	b, ok := new(big.Int).SetString(k.ExactString(), 10)
	return b, ok
}

// declare an uninterpreted function and apply it
func (vc *VC) ext(name string, args []string, ret string, ts ...string) string {
	n := "ext$" + sanitize(name)
	if vc.extFuns[n] == "" {
		vc.extFuns[n] = "(declare-fun " + n + " (" + strings.Join(args, " ") + ") " + ret + ")"
		vc.extOrd = append(vc.extOrd, n)
	}
	if len(ts) == 0 {
		return n
	}
	return "(" + n + " " + strings.Join(ts, " ") + ")"
}

func (tr *Tr) binop(fr *Frame, x *ssa.BinOp, st *State, guard string) {
	vc := tr.vc
	a, b := tr.val(fr, x.X, st), tr.val(fr, x.Y, st)
	at, bt := tr.term(a), tr.term(b)
	t := x.X.Type()
	srt := vc.sortOf(t)
	switch x.Op {
	case token.EQL, token.NEQ:
		var e string
		switch {
		case srt == "Str":
			e = "(seqeq " + at + " " + bt + ")"
		case srt == "Flt":
			e = "(feq " + at + " " + bt + ")"
		case srt == "Slice": // comparison with nil
			o := at
			if isNilConst(x.X) {
				o = bt
			}
			e = "(= (sbase " + o + ") 0)"
		case vc.sortOf(x.X.Type()) == "Iface" && vc.sortOf(x.Y.Type()) != "Iface":
			y := b
			y.Go = x.Y.Type()
			e = "(= " + at + " " + vc.box(y) + ")"
		case vc.sortOf(x.Y.Type()) == "Iface" && vc.sortOf(x.X.Type()) != "Iface":
			y := a
			y.Go = x.X.Type()
			e = "(= " + vc.box(y) + " " + bt + ")"
		default:
			e = "(= " + at + " " + bt + ")"
		}
		if x.Op == token.NEQ {
			e = not(e)
		}
		tr.setDef(fr, x, e)
		return
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var e string
		switch srt {
		case "Str":
			switch x.Op {
			case token.LSS:
				e = "(strlt " + at + " " + bt + ")"
			case token.GTR:
				e = "(strlt " + bt + " " + at + ")"
			case token.LEQ:
				e = "(not (strlt " + bt + " " + at + "))"
			case token.GEQ:
				e = "(not (strlt " + at + " " + bt + "))"
			}
		case "Flt":
			switch x.Op {
			case token.LSS:
				e = "(flt " + at + " " + bt + ")"
			case token.GTR:
				e = "(flt " + bt + " " + at + ")"
			case token.LEQ:
				e = "(or (flt " + at + " " + bt + ") (feq " + at + " " + bt + "))"
			case token.GEQ:
				e = "(or (flt " + bt + " " + at + ") (feq " + at + " " + bt + "))"
			}
		default:
			op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]
			e = "(" + op + " " + at + " " + bt + ")"
		}
		tr.setDef(fr, x, e)
		return
	}
	if srt == "Str" && x.Op == token.ADD {
		r := vc.def(x.Name(), "Str", "(scat "+at+" "+bt+")")
		vc.assume(guard, "(<= (slen "+r+") "+maxLen+")")
		tr.set(fr, x, r)
		return
	}
	if srt == "Flt" {
		tr.setDef(fr, x, vc.ext("f"+opName(x.Op), []string{"Flt", "Flt"}, "Flt", at, bt))
		return
	}
	if srt == "Bool" {
		switch x.Op {
		case token.AND, token.LAND:
			tr.setDef(fr, x, and(at, bt))
		case token.OR, token.LOR:
			tr.setDef(fr, x, or(at, bt))
		default:
			tr.setDef(fr, x, "(xor "+at+" "+bt+")")
		}
		return
	}
	var e string
	switch x.Op {
	case token.ADD, token.SUB, token.MUL:
		op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*"}[x.Op]
		e = wrap("("+op+" "+at+" "+bt+")", t)
	case token.QUO:
		tr.check("divide-by-zero", guard, "(not (= "+bt+" 0))", x.Pos())
		e = wrap("(gdiv "+at+" "+bt+")", t)
	case token.REM:
		tr.check("divide-by-zero", guard, "(not (= "+bt+" 0))", x.Pos())
		e = "(gmod " + at + " " + bt + ")"
	case token.SHL:
		if c, ok := constInt(x.Y); ok && c.IsInt64() && c.Int64() < 64 && c.Sign() >= 0 {
			e = wrap("(* "+at+" "+new(big.Int).Lsh(big.NewInt(1), uint(c.Int64())).String()+")", t)
		}
	case token.SHR:
		if c, ok := constInt(x.Y); ok && c.IsInt64() && c.Int64() < 64 && c.Sign() >= 0 {
			e = "(div " + at + " " + new(big.Int).Lsh(big.NewInt(1), uint(c.Int64())).String() + ")"
		}
	case token.AND:
		if m := maskOf(x, at, bt); m != nil {
			e = m.and
		} else {
			e = tr.bitop("bitand", at, bt, t)
		}
	case token.OR:
		if m := maskOf(x, at, bt); m != nil {
			e = wrap("(- (+ "+m.a+" "+m.c+") "+m.and+")", t)
		} else {
			e = tr.bitop("bitor", at, bt, t)
			tr.disjoint("bitor", x, at, bt)
		}
	case token.XOR:
		if m := maskOf(x, at, bt); m != nil {
			e = wrap("(- (+ "+m.a+" "+m.c+") (* 2 "+m.and+"))", t)
		} else {
			e = tr.bitop("bitxor", at, bt, t)
			tr.disjoint("bitxor", x, at, bt)
		}
	case token.AND_NOT:
		if m := maskOf(x, at, bt); m != nil && m.right {
			e = wrap("(- "+m.a+" "+m.and+")", t)
		} else {
			e = tr.bitop("bitandnot", at, bt, t)
		}
	}
	if e == "" {
		e = tr.bitop("shift"+fmt.Sprint(int(x.Op)), at, bt, t)
	}
	tr.setDef(fr, x, e)
	vc.assume("true", vc.typeok(fr.vals[x].T, x.Type(), "0"))
}

// mask describes a bit operation one operand of which is the constant c, whose one
// bits are adjacent (2^h - 2^l): and is the term of a & c.
type mask struct {
	a, c, and string
	right     bool
}

func maskOf(x *ssa.BinOp, at, bt string) *mask {
	for i, o := range []ssa.Value{x.Y, x.X} {
		c, ok := constInt(o)
		if !ok || c.Sign() <= 0 {
			continue
		}
		low := new(big.Int).Lsh(big.NewInt(1), c.TrailingZeroBits())
		high := new(big.Int).Add(c, low)
		if new(big.Int).And(high, new(big.Int).Sub(high, big.NewInt(1))).Sign() != 0 {
			continue
		}
		a := []string{at, bt}[i]
		and := "(mod " + a + " " + high.String() + ")"
		if low.Cmp(big.NewInt(1)) > 0 {
			and = "(- " + and + " (mod " + a + " " + low.String() + "))"
		}
		return &mask{a, c.String(), and, i == 0}
	}
	return nil
}

// disjoint states what a bit operation gives where the operands share no bits because
// one of them was shifted: their sum.
func (tr *Tr) disjoint(op string, x *ssa.BinOp, at, bt string) {
	for i, o := range []ssa.Value{x.X, x.Y} {
		for {
			if c, ok := o.(*ssa.Convert); ok {
				o = c.X
				continue
			}
			break
		}
		b, ok := o.(*ssa.BinOp)
		if !ok || b.Op != token.SHL && b.Op != token.MUL {
			continue
		}
		for _, y := range []ssa.Value{b.Y, b.X} {
			c, ok := constInt(y)
			if !ok || c.Sign() <= 0 {
				continue
			}
			m := ""
			if b.Op == token.SHL && y == b.Y && c.IsInt64() && c.Int64() < 64 {
				m = new(big.Int).Lsh(big.NewInt(1), uint(c.Int64())).String()
			} else if b.Op == token.MUL && new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() == 0 {
				m = c.String()
			} else {
				continue
			}
			hi, lo := at, bt
			if i == 1 {
				hi, lo = bt, at
			}
			tr.vc.assume("true", fmt.Sprintf("(=> (and (<= 0 %s) (= (mod %s %s) 0) (<= 0 %s) (< %s %s)) (= (ext$%s %s %s) (+ %s %s)))", hi, hi, m, lo, lo, m, op, at, bt, at, bt))
		}
	}
}

func (tr *Tr) bitop(n, a, b string, t types.Type) string {
	return wrap(tr.vc.ext(n, []string{"Int", "Int"}, "Int", a, b), t)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (tr *Tr) indexAddr(fr *Frame, x *ssa.IndexAddr, st *State, guard string) {
	vc := tr.vc
	p := tr.val(fr, x.X, st)
	i := tr.term(tr.val(fr, x.Index, st))
	el := derefT(x.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := tr.term(p)
		tr.check("index", guard, "(and (<= 0 "+i+") (< "+i+" (sln "+s+")))", x.Pos())
		fr.vals[x] = SV{Addr: &Addr{comp: vc.memComp(el), ref: vc.def("base", "Int", "(sbase "+s+")"), idx: vc.def("idx", "Int", "(+ (soff "+s+") "+i+")"), off: "(soff " + s + ")", k: i, typ: el, esort: vc.sortOf(el)}, Sort: "Int", Go: x.Type()}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		tr.check("index", guard, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", i, i, ar.Len()), x.Pos())
		p.Go = x.X.Type()
		if a := tr.addrOf2(p, st); a != nil {
			na := *a
			na.path = append(append([]pathEl(nil), a.path...), pathEl{fld: -1, idx: i})
			na.typ = el
			fr.vals[x] = SV{Addr: &na, Sort: "Int", Go: x.Type()}
			return
		}
		tr.nilcheck(p, guard, x.Pos())
		fr.vals[x] = SV{Addr: &Addr{comp: vc.memComp(el), ref: p.T, idx: i, typ: el, esort: vc.sortOf(el)}, Sort: "Int", Go: x.Type()}
	}
}

func (tr *Tr) lookup(fr *Frame, x *ssa.Lookup, st *State, guard string) {
	vc := tr.vc
	m, k := tr.term(tr.val(fr, x.X, st)), tr.term(tr.val(fr, x.Index, st))
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		tr.check("index", guard, "(and (<= 0 "+k+") (< "+k+" (slen "+m+")))", x.Pos())
		tr.setDef(fr, x, "(sat "+m+" "+k+")")
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	d, v, _ := vc.mapComps(mt)
	has := vc.def("has", "Bool", "(and (not (= "+m+" 0)) (select (select "+vc.get(st, d)+" "+m+") "+k+"))")
	es := vc.sortOf(mt.Elem())
	r := vc.def("mv", es, "(ite "+has+" (select (select "+vc.get(st, v)+" "+m+") "+k+") "+vc.zero(mt.Elem())+")")
	vc.assume(guard, vc.typeok(r, mt.Elem(), vc.get(st, "next")))
	rv := SV{T: r, Sort: es, Go: mt.Elem()}
	if x.CommaOk {
		fr.vals[x] = SV{Tup: []SV{rv, {T: has, Sort: "Bool", Go: types.Typ[types.Bool]}}}
	} else {
		fr.vals[x] = rv
	}
}

func (tr *Tr) slice(fr *Frame, x *ssa.Slice, st *State, guard string) {
	vc := tr.vc
	p := tr.val(fr, x.X, st)
	lo := "0"
	if x.Low != nil {
		lo = tr.term(tr.val(fr, x.Low, st))
	}
	hi, mx := "", ""
	if x.High != nil {
		hi = tr.term(tr.val(fr, x.High, st))
	}
	if x.Max != nil {
		mx = tr.term(tr.val(fr, x.Max, st))
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := tr.term(p)
		if hi == "" {
			hi = "(slen " + s + ")"
		}
		tr.check("slice-bounds", guard, "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" (slen "+s+")))", x.Pos())
		tr.setDef(fr, x, "(ssub "+s+" "+lo+" "+hi+")")
		r := fr.vals[x].T
		vc.assume(guard, "(= (slen "+r+") (- "+hi+" "+lo+"))")
	case *types.Slice:
		s := tr.term(p)
		if hi == "" {
			hi = "(sln " + s + ")"
		}
		if mx == "" {
			mx = "(scap " + s + ")"
		}
		tr.check("slice-bounds", guard, "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+mx+") (<= "+mx+" (scap "+s+")))", x.Pos())
		// a nil slice sliced [0:0] stays nil
		r := vc.def(x.Name(), "Slice", fmt.Sprintf("(ite (= (sbase %s) 0) nilslice (mkslice (sbase %s) (+ (soff %s) %s) (- %s %s) (- %s %s)))", s, s, s, lo, hi, lo, mx, lo))
		tr.set(fr, x, r)
		vc.assume(guard, "(sliceok "+r+" "+vc.get(st, "next")+")")
		if lo != "0" {
			es := vc.sortOf(u.Elem())
			vc.assume(guard, fmt.Sprintf("(forall ((a (Array Int %s)) (k Int)) (! (= %s %s) :pattern (%s)))", es, vc.at("a", "(soff "+r+")", "k", es), vc.at("a", "(soff "+s+")", "(+ "+lo+" k)", es), vc.at("a", "(soff "+r+")", "k", es)))
		}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(ar.Len())
		if hi == "" {
			hi = n
		}
		if mx == "" {
			mx = n
		}
		if p.Addr != nil || p.Glob != nil {
			tr.unsupported("slice of embedded array", x.Pos(), guard)
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
			return
		}
		tr.check("slice-bounds", guard, "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" "+mx+") (<= "+mx+" "+n+"))", x.Pos())
		tr.setDef(fr, x, fmt.Sprintf("(mkslice %s %s (- %s %s) (- %s %s))", p.T, lo, hi, lo, mx, lo))
	}
}

func (tr *Tr) convert(fr *Frame, x *ssa.Convert, st *State, guard string) {
	vc := tr.vc
	v := tr.val(fr, x.X, st)
	vt := tr.term(v)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		flo, fhi, fbits, fs := intRange(fb)
		_, _, tbits, ts := intRange(tb)
		_, _ = flo, fhi
		if ts == fs && tbits >= fbits || ts && !fs && tbits > fbits {
			tr.set(fr, x, vt)
		} else {
			tr.setDef(fr, x, wrap(vt, x.Type()))
		}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 {
			tr.setDef(fr, x, "(f64to32 (i2f "+vt+"))")
		} else {
			tr.setDef(fr, x, "(i2f "+vt+")")
		}
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		tr.setDef(fr, x, wrap("(f2i "+vt+")", x.Type()))
	case fok && tok && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() == types.Float64 {
			tr.setDef(fr, x, "(f64to32 "+vt+")")
		} else {
			tr.set(fr, x, vt)
		}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		r := vc.def(x.Name(), "Str", vc.ext("runestr", []string{"Int"}, "Str", vt))
		vc.assume(guard, "(<= 1 (slen "+r+") 4)")
		tr.set(fr, x, r)
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(to):
		el := to.(*types.Slice).Elem()
		c := vc.memComp(el)
		r := tr.bump(st, "bytes")
		a := vc.fresh("bytes", "(Array Int Int)")
		n := "(slen " + vt + ")"
		vc.emit("(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s k) (sat %s k))) :pattern ((select %s k)))))", n, a, vt, a)
		vc.emit("(assert (= (seqof %s 0 %s) %s))", a, n, vt)
		tr.wlog = append(tr.wlog, write{c, r})
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+r+" "+a+")")
		cp := vc.fresh("cap", "Int")
		vc.emit("(assert (and (<= %s %s) (<= %s %s)))", n, cp, cp, maxLen)
		tr.setDef(fr, x, fmt.Sprintf("(mkslice %s 0 %s %s)", r, n, cp))
	case isByteSlice(from) && tok && tb.Info()&types.IsString != 0:
		c := vc.memComp(from.(*types.Slice).Elem())
		s := vc.def(x.Name(), "Str", fmt.Sprintf("(seqof (select %s (sbase %s)) (soff %s) (sln %s))", vc.get(st, c), vt, vt, vt))
		vc.assume(guard, "(<= (slen "+s+") "+maxLen+")")
		tr.set(fr, x, s)
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		tr.set(fr, x, vt)
	default:
		if vc.sortOf(x.X.Type()) == vc.sortOf(x.Type()) && (isPtr(from) || fok && fb.Kind() == types.UnsafePointer) {
			tr.set(fr, x, vt)
			return
		}
		// rune slices and the like: an unknown value of the type
		if sl, ok := to.(*types.Slice); ok {
			r := tr.bump(st, "conv")
			n := vc.fresh("len", "Int")
			vc.emit("(assert (and (<= 0 %s) (<= %s %s)))", n, n, maxLen)
			c := vc.memComp(sl.Elem())
			a := vc.fresh("conv", elemSort(vc.comps[c]))
			tr.wlog = append(tr.wlog, write{c, r})
			tr.setComp(st, c, "(store "+vc.get(st, c)+" "+r+" "+a+")")
			tr.setDef(fr, x, fmt.Sprintf("(mkslice %s 0 %s %s)", r, n, n))
			return
		}
		fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
	}
}

func isPtr(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (vc *VC) typeTest(v string, t types.Type) string {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 {
			return "(not (= " + v + " inil))"
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "JSONObject" {
			return "(and ((_ is iref) " + v + ") (isJSONTag (it " + v + ")))"
		}
		n := "impl$" + sanitize(typeName(t))
		if vc.extFuns[n] == "" {
			s := "(declare-fun " + n + " (Int) Bool)\n"
			for _, im := range vc.w.impls {
				s += fmt.Sprintf("(assert (= (%s %d) %v))\n", n, vc.tagOfType(im), types.Implements(im, it))
			}
			vc.extFuns[n] = s
			vc.extOrd = append(vc.extOrd, n)
		}
		return "(and (not (= " + v + " inil)) (" + n + " (itag " + v + ")))"
	}
	return fmt.Sprintf("(and ((_ is %s) %s) (= (itag %s) %d))", vc.ctorOf(t), v, v, vc.tagOfType(t))
}

func (tr *Tr) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State, guard string) {
	vc := tr.vc
	v := tr.term(tr.val(fr, x.X, st))
	ok := vc.def("ok", "Bool", vc.typeTest(v, x.AssertedType))
	var r string
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		r = v
	} else {
		r = vc.unbox(v, x.AssertedType)
	}
	s := vc.sortOf(x.AssertedType)
	if x.CommaOk {
		r = vc.def(x.Name(), s, ite(ok, r, vc.zero(x.AssertedType)))
		fr.vals[x] = SV{Tup: []SV{{T: r, Sort: s, Go: x.AssertedType}, {T: ok, Sort: "Bool", Go: types.Typ[types.Bool]}}}
	} else {
		tr.check("type-assertion", guard, ok, x.Pos())
		r = vc.def(x.Name(), s, r)
		fr.vals[x] = SV{T: r, Sort: s, Go: x.AssertedType}
	}
	vc.assume(and(guard, ok), vc.typeok(r, x.AssertedType, vc.get(st, "next")))
}

// ---- range over maps and strings ----

func (tr *Tr) rangeInit(fr *Frame, x *ssa.Range, st *State) {
	vc := tr.vc
	v := tr.val(fr, x.X, st)
	vt := tr.term(v)
	id := tr.bump(st, "iter")
	switch u := x.X.Type().Underlying().(type) {
	case *types.Map:
		ks := vc.sortOf(u.Key())
		c := "iter$" + sanitize(ks)
		vc.comp(c, "(Array Int (Array "+ks+" Bool))")
		tr.wlog = append(tr.wlog, write{c, id})
		tr.setComp(st, c, "(store "+vc.get(st, c)+" "+id+" ((as const (Array "+ks+" Bool)) false))")
		vc.comp("iter$count", "(Array Int Int)")
		tr.wlog = append(tr.wlog, write{"iter$count", id})
		tr.setComp(st, "iter$count", "(store "+vc.get(st, "iter$count")+" "+id+" 0)")
	default:
		vc.comp("iter$pos", "(Array Int Int)")
		tr.wlog = append(tr.wlog, write{"iter$pos", id})
		tr.setComp(st, "iter$pos", "(store "+vc.get(st, "iter$pos")+" "+id+" 0)")
	}
	fr.vals[x] = SV{T: id, Sort: "Int", Go: x.X.Type(), Tup: []SV{{T: vt, Sort: v.Sort, Go: x.X.Type()}}}
}

func (tr *Tr) next(fr *Frame, x *ssa.Next, st *State, guard string) {
	vc := tr.vc
	it := tr.val(fr, x.Iter, st)
	if len(it.Tup) == 0 {
		fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
		return
	}
	src := it.Tup[0].T
	if x.IsString {
		cur := vc.get(st, "iter$pos")
		pos := vc.def("pos", "Int", "(select "+cur+" "+it.T+")")
		ok := vc.def("ok", "Bool", "(< "+pos+" (slen "+src+"))")
		rn := vc.fresh("rune", "Int")
		w := vc.fresh("width", "Int")
		vc.assume(ok, fmt.Sprintf("(and (<= 0 %s) (<= %s 1114111) (<= 1 %s) (<= %s 4) (<= (+ %s %s) (slen %s)) (=> (< (sat %s %s) 128) (and (= %s 1) (= %s (sat %s %s)))) (=> (>= (sat %s %s) 128) (>= %s 128)))", rn, rn, w, w, pos, w, src, src, pos, w, rn, src, pos, src, pos, rn))
		tr.wlog = append(tr.wlog, write{"iter$pos", it.T})
		tr.setComp(st, "iter$pos", "(store "+cur+" "+it.T+" (ite "+ok+" (+ "+pos+" "+w+") "+pos+"))")
		vc.assume(guard, "(and (<= 0 "+pos+") (<= "+pos+" (slen "+src+")))")
		fr.vals[x] = SV{Tup: []SV{{T: ok, Sort: "Bool", Go: types.Typ[types.Bool]}, {T: pos, Sort: "Int", Go: types.Typ[types.Int]}, {T: rn, Sort: "Int", Go: types.Typ[types.Int32]}}}
		return
	}
	mt := it.Go.Underlying().(*types.Map)
	d, v, l := vc.mapComps(mt)
	ks, es := vc.sortOf(mt.Key()), vc.sortOf(mt.Elem())
	c := "iter$" + sanitize(ks)
	vis := "(select " + vc.get(st, c) + " " + it.T + ")"
	dom := "(select " + vc.get(st, d) + " " + src + ")"
	ok := vc.fresh("ok", "Bool")
	k := vc.fresh("key", ks)
	vc.assume(guard, imp(ok, "(and (not (= "+src+" 0)) (select "+dom+" "+k+") (not (select "+vis+" "+k+")) "+vc.typeok(k, mt.Key(), vc.get(st, "next"))+")"))
	vc.assume(guard, imp(not(ok), "(or (= "+src+" 0) (forall ((k "+ks+")) (! (=> (select "+dom+" k) (select "+vis+" k)) :pattern ((select "+dom+" k)))))"))
	cnt := "(select " + vc.get(st, "iter$count") + " " + it.T + ")"
	vc.assume(guard, imp(not(ok), "(or (= "+src+" 0) (= "+cnt+" (select "+vc.get(st, l)+" "+src+")))"))
	val := vc.def("mval", es, "(select (select "+vc.get(st, v)+" "+src+") "+k+")")
	vc.assume(and(guard, ok), vc.typeok(val, mt.Elem(), vc.get(st, "next")))
	tr.wlog = append(tr.wlog, write{c, it.T}, write{"iter$count", it.T})
	tr.setComp(st, c, "(store "+vc.get(st, c)+" "+it.T+" (ite "+ok+" (store "+vis+" "+k+" true) "+vis+"))")
	tr.setComp(st, "iter$count", "(store "+vc.get(st, "iter$count")+" "+it.T+" (ite "+ok+" (+ 1 "+cnt+") "+cnt+"))")
	fr.vals[x] = SV{Tup: []SV{{T: ok, Sort: "Bool", Go: types.Typ[types.Bool]}, {T: k, Sort: ks, Go: mt.Key()}, {T: val, Sort: es, Go: mt.Elem()}}}
}

// ---- append / copy ----

func (tr *Tr) appendCall(fr *Frame, x *ssa.Call, st *State, guard string) {
	vc := tr.vc
	a := x.Call.Args
	s := tr.term(tr.val(fr, a[0], st))
	el := x.Type().Underlying().(*types.Slice).Elem()
	c := vc.memComp(el)
	m := vc.get(st, c)
	es := vc.sortOf(el)
	arr := "(Array Int " + es + ")"
	bytes := isByteSlice(x.Type())
	var n string
	var get func(k string) string
	single := ""
	addView := ""
	if isString(a[1].Type()) {
		t := tr.term(tr.val(fr, a[1], st))
		n = "(slen " + t + ")"
		get = func(k string) string { return "(sat " + t + " " + k + ")" }
		addView = t
	} else {
		tv := tr.val(fr, a[1], st)
		t := tr.term(tv)
		n = "(sln " + t + ")"
		src := "(select " + m + " (sbase " + t + "))"
		get = func(k string) string { return vc.at(src, "(soff "+t+")", k, es) }
		if bytes {
			addView = fmt.Sprintf("(seqof %s (soff %s) (sln %s))", src, t, t)
		}
		// varargs of a single element: append(s, e)
		if sl, ok := a[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
				if ar, ok := derefT(al.Type()).Underlying().(*types.Array); ok && ar.Len() == 1 {
					single = vc.def("elem", es, "(select (select "+m+" "+tr.val(fr, al, st).T+") 0)")
					n = "1"
					if bytes {
						addView = "(sunit " + single + ")"
						vc.assume("true", "(and (<= 0 "+single+") (<= "+single+" 255))")
					}
				}
			}
		}
	}
	ln := vc.def("alen", "Int", "(+ (sln "+s+") "+n+")")
	// growing beyond the address space is memory exhaustion, outside the model
	vc.assume(guard, "(<= "+ln+" "+maxLen+")")
	inpl := vc.def("inplace", "Bool", "(<= "+ln+" (scap "+s+"))")
	nb := tr.bump(st, "append")
	oldA := vc.def("olda", arr, "(select "+m+" (sbase "+s+"))")
	start := vc.def("start", "Int", "(+ (soff "+s+") (sln "+s+"))")
	// in-place contents
	var a1 string
	if single != "" {
		a1 = "(store " + oldA + " " + start + " " + single + ")"
	} else {
		a1 = vc.fresh("ina", arr)
		vc.emit("(assert (forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k (+ %s %s))) %s (select %s k))) :pattern ((select %s k)))))", a1, start, start, n, get("(- k "+start+")"), oldA, a1)
		vc.emit("(assert (forall ((o Int) (k Int)) (! (= %s (ite (and (<= %s (+ o k)) (< (+ o k) (+ %s %s))) %s %s)) :pattern (%s))))", vc.at(a1, "o", "k", es), start, start, n, get("(- (+ o k) "+start+")"), vc.at(oldA, "o", "k", es), vc.at(a1, "o", "k", es))
	}
	// fresh contents, zero where nothing is stored
	zero := vc.zero(el)
	a2 := vc.fresh("freshbuf", arr)
	body := fmt.Sprintf("(= (select %s k) (ite (and (<= 0 k) (< k (sln %s))) (select %s (+ (soff %s) k)) ", a2, s, oldA, s)
	if single != "" {
		body += "(ite (= k (sln " + s + ")) " + single + " " + zero + ")))"
	} else {
		body += "(ite (and (<= (sln " + s + ") k) (< k " + ln + ")) " + get("(- k (sln "+s+"))") + " " + zero + ")))"
	}
	vc.emit("(assert (forall ((k Int)) (! %s :pattern ((select %s k)))))", body, a2)
	if single != "" {
		vc.emit("(assert (= (select %s (sln %s)) %s))", a2, s, single)
	}
	ncap := vc.fresh("ncap", "Int")
	vc.emit("(assert (and (<= %s %s) (<= %s %s)))", ln, ncap, ncap, maxLen)
	res := vc.def(x.Name(), "Slice", fmt.Sprintf("(ite (= %s 0) %s (ite %s (mkslice (sbase %s) (soff %s) %s (scap %s)) (mkslice %s 0 %s %s)))", n, s, inpl, s, s, ln, s, nb, ln, ncap))
	if single != "" {
		res = vc.def(x.Name(), "Slice", fmt.Sprintf("(ite %s (mkslice (sbase %s) (soff %s) %s (scap %s)) (mkslice %s 0 %s %s))", inpl, s, s, ln, s, nb, ln, ncap))
	}
	nm := vc.fresh(c, vc.comps[c])
	vc.assume("true", "(=> "+inpl+" (= "+nm+" (store "+m+" (sbase "+s+") "+a1+")))")
	vc.assume("true", "(=> (not "+inpl+") (= "+nm+" (store "+m+" "+nb+" "+a2+")))")
	// when nothing is appended in place the array is unchanged by construction
	tr.wlog = append(tr.wlog, write{c, "(sbase " + s + ")"}, write{c, nb})
	st.h[c] = nm
	if bytes {
		ov := fmt.Sprintf("(seqof %s (soff %s) (sln %s))", oldA, s, s)
		vc.emit("(assert (= (seqof (select %s (sbase %s)) (soff %s) (sln %s)) (scat %s %s)))", nm, res, res, res, ov, addView)
	}
	vc.emit("(assert (= (select %s (sbase %s)) (ite %s %s %s)))", nm, res, inpl, a1, a2)
	ra := "(select " + nm + " (sbase " + res + "))"
	el1 := single
	if el1 == "" {
		el1 = get("(- k (sln " + s + "))")
	}
	rat := vc.at(ra, "(soff "+res+")", "k", es)
	vc.emit("(assert (forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= %s (ite (< k (sln %s)) %s %s))) :pattern (%s))))", ln, rat, s, vc.at(oldA, "(soff "+s+")", "k", es), el1, rat)
	if single != "" {
		vc.emit("(assert (= %s %s))", vc.at(ra, "(soff "+res+")", "(sln "+s+")", es), single)
	}
	tr.set(fr, x, res)
	vc.assume(guard, "(sliceok "+res+" "+vc.get(st, "next")+")")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (tr *Tr) copyCall(fr *Frame, x *ssa.Call, st *State, guard string) {
	vc := tr.vc
	a := x.Call.Args
	d := tr.term(tr.val(fr, a[0], st))
	el := a[0].Type().Underlying().(*types.Slice).Elem()
	c := vc.memComp(el)
	m := vc.get(st, c)
	arr := elemSort(vc.comps[c])
	sv := tr.term(tr.val(fr, a[1], st))
	var sl string
	var get func(k string) string
	if isString(a[1].Type()) {
		sl = "(slen " + sv + ")"
		get = func(k string) string { return "(sat " + sv + " " + k + ")" }
	} else {
		sl = "(sln " + sv + ")"
		get = func(k string) string {
			return vc.at("(select "+m+" (sbase "+sv+"))", "(soff "+sv+")", k, elemSort(arr))
		}
	}
	n := vc.def("ncopy", "Int", "(imin (sln "+d+") "+sl+")")
	na := vc.fresh("copya", arr)
	old := "(select " + m + " (sbase " + d + "))"
	off := "(soff " + d + ")"
	vc.emit("(assert (forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k (+ %s %s))) %s (select %s k))) :pattern ((select %s k)))))", na, off, off, n, get("(- k "+off+")"), old, na)
	es := elemSort(arr)
	vc.emit("(assert (forall ((o Int) (k Int)) (! (= %s (ite (and (<= %s (+ o k)) (< (+ o k) (+ %s %s))) %s %s)) :pattern (%s))))", vc.at(na, "o", "k", es), off, off, n, get("(- (+ o k) "+off+")"), vc.at(old, "o", "k", es), vc.at(na, "o", "k", es))
	tr.wlog = append(tr.wlog, write{c, "(sbase " + d + ")"})
	tr.setComp(st, c, ite("(= "+n+" 0)", m, "(store "+m+" (sbase "+d+") "+na+")"))
	fr.vals[x] = SV{T: n, Sort: "Int", Go: x.Type()}
}

// ---- calls ----

// callhint "key" L(args) [when c]: an instance of lemma L after every call of
// key (a function key, an interface method key, "append" or "copy"); a0, a1, ...
// name the arguments, r0, r1, ... the results, old(..) the state before the call.
func (tr *Tr) call(fr *Frame, x *ssa.Call, st *State, guard string) string {
	if tr.c == nil || len(tr.c.CallHints) == 0 {
		return tr.call1(fr, x, st, guard)
	}
	cc := x.Common()
	key := ""
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		key = bi.Name()
	} else if cc.IsInvoke() {
		key = strings.TrimPrefix(typeName(cc.Value.Type()), "jsonutils.") + "." + cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		key = tr.w.key(f)
	}
	var hs []*Clause
	for _, h := range tr.c.CallHints {
		if h.Label == key {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		return tr.call1(fr, x, st, guard)
	}
	pre := st.clone()
	e := &Env{vc: tr.vc, vars: map[string]SV{}, cur: st, old: pre}
	for k, v := range tr.params {
		e.vars[k] = v
	}
	as := cc.Args
	if cc.IsInvoke() {
		as = append([]ssa.Value{cc.Value}, as...)
	}
	for i, a := range as {
		v := tr.val(fr, a, st)
		v.Go = a.Type()
		e.vars[fmt.Sprintf("a%d", i)] = v
	}
	g := tr.call1(fr, x, st, guard)
	if v, ok := fr.vals[x]; ok {
		if v.Tup != nil {
			for i, t := range v.Tup {
				e.vars[fmt.Sprintf("r%d", i)] = t
			}
		} else {
			v.Go = x.Type()
			e.vars["r0"] = v
		}
	}
	for _, h := range hs {
		// names of local variables; a name that does not resolve stands for every
		// integer loop variable in scope (each instance of a lemma is valid)
		ids := map[string]bool{}
		for _, x := range h.Es {
			freeIDs(tr.vc.db.expand(x), map[string]bool{}, ids)
		}
		if h.E != nil {
			freeIDs(tr.vc.db.expand(h.E), map[string]bool{}, ids)
		}
		binds := map[string]bind{}
		meta := ""
		for n := range ids {
			if _, ok := e.vars[n]; ok || tr.vc.db.sig(n) != nil {
				continue
			}
			switch n {
			case "true", "false", "nil", "nilslice", "heap", "next":
				continue
			}
			if b, ok := tr.lookupAt(fr, x, n); ok {
				binds[n] = b
			} else if _, ok := tr.w.pkgObject(tr.vc, n, st); !ok {
				meta = n
			}
		}
		pool := []bind{{}}
		if meta != "" {
			pool = nil
			for b := x.Block(); b != nil; b = b.Idom() {
				for _, p := range phisOf(b) {
					if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						pool = append(pool, bind{v: p})
						if p.Comment == "rangeindex" {
							pool = append(pool, bind{v: p, off: 1})
						}
					}
				}
			}
		}
		for _, mb := range pool {
			bs := map[string]bind{}
			for k, v := range binds {
				bs[k] = v
			}
			if meta != "" {
				bs[meta] = mb
			}
			e.look = func(n string) (SV, bool) {
				if b, ok := bs[n]; ok {
					return tr.bindSV(b, pre, func(v ssa.Value) SV { return tr.val(fr, v, pre) }), true
				}
				return SV{}, false
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if ee, ok := r.(evalErr); ok {
							if debugEval {
								fmt.Printf("  [eval] callhint %s: %v\n", h.Names[0], ee.msg)
							}
							return // a hint that does not fit here is left out
						}
						panic(r)
					}
				}()
				reqs, enss := tr.vc.lemmaInst(e, h.Names[0], h.Es)
				when := "true"
				if h.E != nil {
					when = e.eval(h.E).T
				}
				tr.vc.assume(and(g, when), imp(and(reqs...), and(enss...)))
			}()
		}
	}
	return g
}

func (tr *Tr) call1(fr *Frame, x *ssa.Call, st *State, guard string) string {
	vc := tr.vc
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return tr.builtin(fr, x, bi, st, guard)
	}
	var args []SV
	if cc.IsInvoke() {
		recv := tr.val(fr, cc.Value, st)
		recv.Go = cc.Value.Type()
		args = append(args, recv)
		for _, a := range cc.Args {
			v := tr.val(fr, a, st)
			v.Go = a.Type()
			args = append(args, v)
		}
		// the receiver was boxed here: its method is known
		if mi, ok := cc.Value.(*ssa.MakeInterface); ok {
			if ms := tr.w.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(cc.Method.Pkg(), cc.Method.Name()); ms != nil {
				if f := tr.w.prog.MethodValue(ms); f != nil && f.Blocks != nil {
					v := tr.val(fr, mi.X, st)
					v.Go = mi.X.Type()
					return tr.callStatic(fr, x, f, append([]SV{v}, args[1:]...), nil, st, guard)
				}
			}
		}
		tr.check("nil-interface-call", guard, "(not (= "+recv.T+" inil))", x.Pos())
		key := typeName(cc.Value.Type())
		key = strings.TrimPrefix(key, "jsonutils.") + "." + cc.Method.Name()
		if c := vc.db.forProp(vc.db.Contracts[key], vc.prop); c != nil {
			return tr.callContract(fr, x, c, key, args, cc.Signature(), st, guard, nil)
		}
		if isJSONObject(cc.Value.Type()) {
			return tr.dispatch(fr, x, args, cc.Method.Name(), st, guard)
		}
		tr.noContract(key, x, st, guard)
		fr.vals[x] = tr.havocAll(x, args, st, guard)
		return guard
	}
	for _, a := range cc.Args {
		v := tr.val(fr, a, st)
		v.Go = a.Type()
		args = append(args, v)
	}
	callee := cc.StaticCallee()
	var free []SV
	if callee == nil {
		v := tr.val(fr, cc.Value, st)
		if v.Clo != nil {
			callee = v.Clo.fn
			free = v.Clo.free
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		free = tr.val(fr, mc, st).Clo.free
	}
	if callee == nil {
		tr.noContract("dynamic call", x, st, guard)
		fr.vals[x] = tr.havocAll(x, args, st, guard)
		return guard
	}
	return tr.callStatic(fr, x, callee, args, free, st, guard)
}

func isJSONObject(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "JSONObject"
}

func (tr *Tr) callStatic(fr *Frame, x *ssa.Call, callee *ssa.Function, args, free []SV, st *State, guard string) string {
	vc := tr.vc
	key := tr.w.key(callee)
	c := vc.db.forProp(vc.db.Contracts[key], vc.prop)
	if c != nil && !c.Inline && !(c.Internal && vc.robust) {
		return tr.callContract(fr, x, c, key, args, callee.Signature, st, guard, callee)
	}
	if c == nil && callee.Signature.Recv() != nil && len(args) > 0 && args[0].Addr == nil {
		if ic := tr.w.ifaceContract(vc.db, callee); ic != nil {
			bv := args[0]
			bv.Go = callee.Signature.Recv().Type()
			if bv.T == "" {
				bv.T = tr.term(bv)
			}
			tr.check("nil-receiver", guard, "(not (= "+bv.T+" 0))", x.Pos())
			a2 := append([]SV{{T: vc.def("recv", "Iface", vc.box(bv)), Sort: "Iface", Go: tr.w.typeByName("JSONObject")}}, args[1:]...)
			return tr.callContract(fr, x, ic, ic.Key, a2, callee.Signature, st, guard, nil)
		}
	}
	pk := callee.Package()
	canInline := callee.Blocks != nil && (pk == tr.w.pkg || pk == tr.w.sm || pk == nil || pk != nil && tr.w.inlinePkgs[pk.Pkg.Path()])
	if callee.Synthetic != "" && callee.Blocks != nil && (pk == nil || vc.w.analysed[pk.Pkg.Path()]) {
		canInline = true
	}
	for _, s := range tr.stack {
		if s == callee {
			canInline = false
		}
	}
	if canInline && len(tr.stack) < 12 {
		return tr.inline(fr, x, callee, c, args, free, st, guard)
	}
	// external function over scalars: an unknown but deterministic function
	if tr.pureExtern(fr, x, key, callee, args, st, guard) {
		return guard
	}
	tr.noContract(key, x, st, guard)
	fr.vals[x] = tr.havocAll(x, args, st, guard)
	return guard
}

func scalarType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0
}

func (tr *Tr) pureExtern(fr *Frame, x *ssa.Call, key string, callee *ssa.Function, args []SV, st *State, guard string) bool {
	vc := tr.vc
	sg := callee.Signature
	if sg.Recv() != nil {
		return false
	}
	for i := 0; i < sg.Params().Len(); i++ {
		if !scalarType(sg.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < sg.Results().Len(); i++ {
		if !scalarType(sg.Results().At(i).Type()) {
			return false
		}
	}
	if sg.Results().Len() == 0 {
		return false
	}
	var ss, ts []string
	for _, a := range args {
		ss = append(ss, a.Sort)
		ts = append(ts, tr.term(a))
	}
	vc.trusted[key+": deterministic function of its scalar arguments"] = true
	var rs []SV
	for i := 0; i < sg.Results().Len(); i++ {
		rt := sg.Results().At(i).Type()
		n := key
		if i > 0 {
			n += fmt.Sprint("$", i)
		}
		t := vc.ext(n, ss, vc.sortOf(rt), ts...)
		r := vc.def(x.Name(), vc.sortOf(rt), t)
		vc.assume(guard, vc.typeok(r, rt, vc.get(st, "next")))
		rs = append(rs, SV{T: r, Sort: vc.sortOf(rt), Go: rt})
	}
	tr.setResults(fr, x, rs)
	return true
}

func (tr *Tr) setResults(fr *Frame, x *ssa.Call, rs []SV) {
	if x == nil {
		return
	}
	if len(rs) == 1 {
		fr.vals[x] = rs[0]
	} else {
		fr.vals[x] = SV{Tup: rs}
	}
}

func (tr *Tr) noContract(key string, x *ssa.Call, st *State, guard string) {
	if tr.vc.scratch == 0 {
		tr.vc.noContract[key] = true
	}
	if tr.safety && tr.vc.scratch == 0 {
		o := tr.obligation("safety:call of unspecified "+key, guard, "false", x.Pos())
		o.Why = "no contract for " + key
	}
}

func (tr *Tr) havocAll(x *ssa.Call, args []SV, st *State, guard string) SV {
	vc := tr.vc
	for _, k := range append([]string(nil), vc.compOrd...) {
		tr.wlog = append(tr.wlog, write{k, "!unknown!999999999"})
		st.h[k] = vc.fresh(k, vc.comps[k])
	}
	n := vc.fresh("next", "Int")
	vc.emit("(assert (<= %s %s))", vc.get(st, "next"), n)
	st.h["next"] = n
	return tr.freshVal(x.Type(), st, guard, x.Name())
}

func (tr *Tr) inline(fr *Frame, x *ssa.Call, callee *ssa.Function, c *Contract, args, free []SV, st *State, guard string) string {
	vc := tr.vc
	nf := &Frame{fn: callee, vals: map[ssa.Value]SV{}, parent: fr, c: c, entry: st.clone(), depth: fr.depth + 1, params: map[string]SV{}}
	if vc.scratch == 0 {
		vc.inlined[tr.w.key(callee)] = true
	}
	for i, p := range callee.Params {
		if i < len(args) {
			a := args[i]
			if a.Addr == nil && a.Glob == nil && a.Clo == nil && a.T == "" {
				a.T = tr.term(a)
			}
			if !isIfaceT(p.Type()) || isIfaceT(a.Go) {
				a.Go = p.Type()
			}
			nf.vals[p] = a
			if c != nil && i < len(c.Params) {
				nf.params[c.Params[i]] = a
			}
		}
	}
	for i, f := range callee.FreeVars {
		if i < len(free) {
			nf.vals[f] = free[i]
		}
	}
	tr.stack = append(tr.stack, callee)
	rets := tr.exec(nf, st.clone(), guard)
	tr.stack = tr.stack[:len(tr.stack)-1]
	if len(rets) == 0 {
		if x != nil {
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, "noreturn")
		}
		return "false"
	}
	var es []edge
	var gs []string
	for _, r := range rets {
		es = append(es, edge{guard: r.guard, st: r.st})
		gs = append(gs, r.guard)
	}
	ng := vc.def("ret", "Bool", or(gs...))
	ms := tr.stateMerge(es, ng)
	st.h = ms.h
	var rs []SV
	for i := range rets[0].res {
		var vs []SV
		for _, r := range rets {
			vs = append(vs, r.res[i])
		}
		rs = append(rs, tr.svMerge(gs, vs, callee.Signature.Results().At(i).Type(), "res"))
	}
	tr.setResults(fr, x, rs)
	return ng
}

func isIfaceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// interface method call without an interface contract: case split over the
// implementing types
func (tr *Tr) dispatch(fr *Frame, x *ssa.Call, args []SV, name string, st *State, guard string) string {
	vc := tr.vc
	recv := args[0].T
	var es []edge
	var gs []string
	var vals []SV
	var tests []string
	for _, t := range tr.w.impls {
		f := tr.w.method(t, name)
		if f == nil {
			continue
		}
		test := fmt.Sprintf("(= (itag %s) %d)", recv, vc.tagOfType(t))
		tests = append(tests, test)
		g := vc.def("disp", "Bool", and(guard, test))
		s2 := st.clone()
		na := append([]SV(nil), args...)
		na[0] = SV{T: vc.def("recv", "Int", vc.unbox(recv, t)), Sort: "Int", Go: t}
		ng := tr.callStatic(fr, x, f, na, nil, s2, g)
		if ng == "false" {
			continue
		}
		es = append(es, edge{guard: ng, st: s2})
		gs = append(gs, ng)
		vals = append(vals, fr.vals[x])
	}
	vc.assume(guard, or(tests...))
	if len(es) == 0 {
		fr.vals[x] = tr.freshVal(x.Type(), st, guard, "noreturn")
		return "false"
	}
	ng := vc.def("dispret", "Bool", or(gs...))
	ms := tr.stateMerge(es, ng)
	st.h = ms.h
	if x.Call.Signature().Results().Len() > 0 {
		if len(vals[0].Tup) > 0 {
			var rs []SV
			for i := range vals[0].Tup {
				var vs []SV
				for _, v := range vals {
					vs = append(vs, v.Tup[i])
				}
				rs = append(rs, tr.svMerge(gs, vs, x.Call.Signature().Results().At(i).Type(), "res"))
			}
			fr.vals[x] = SV{Tup: rs}
		} else {
			fr.vals[x] = tr.svMerge(gs, vals, x.Type(), "res")
		}
	}
	return ng
}

func (tr *Tr) builtin(fr *Frame, x *ssa.Call, bi *ssa.Builtin, st *State, guard string) string {
	vc := tr.vc
	a := x.Call.Args
	switch bi.Name() {
	case "len", "cap":
		v := tr.val(fr, a[0], st)
		t := tr.term(v)
		switch u := a[0].Type().Underlying().(type) {
		case *types.Basic:
			tr.setDef(fr, x, "(slen "+t+")")
		case *types.Slice:
			if bi.Name() == "cap" {
				tr.setDef(fr, x, "(scap "+t+")")
			} else {
				tr.setDef(fr, x, "(sln "+t+")")
			}
		case *types.Array:
			tr.set(fr, x, fmt.Sprint(u.Len()))
		case *types.Map:
			_, _, l := vc.mapComps(u)
			tr.setDef(fr, x, "(ite (= "+t+" 0) 0 (select "+vc.get(st, l)+" "+t+"))")
			vc.assume(guard, "(and (<= 0 "+fr.vals[x].T+") (<= "+fr.vals[x].T+" "+maxLen+"))")
		default:
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, "len")
		}
	case "append":
		tr.appendCall(fr, x, st, guard)
	case "copy":
		tr.copyCall(fr, x, st, guard)
	case "print", "println":
	case "min", "max":
		t := tr.term(tr.val(fr, a[0], st))
		for _, b := range a[1:] {
			t = "(i" + bi.Name() + " " + t + " " + tr.term(tr.val(fr, b, st)) + ")"
		}
		tr.setDef(fr, x, t)
	case "delete":
		m, k := tr.term(tr.val(fr, a[0], st)), tr.term(tr.val(fr, a[1], st))
		mt := a[0].Type().Underlying().(*types.Map)
		d, _, l := vc.mapComps(mt)
		dc, lc := vc.get(st, d), vc.get(st, l)
		tr.wlog = append(tr.wlog, write{d, m}, write{l, m})
		tr.setComp(st, l, "(store "+lc+" "+m+" (ite (select (select "+dc+" "+m+") "+k+") (- (select "+lc+" "+m+") 1) (select "+lc+" "+m+")))")
		tr.setComp(st, d, "(store "+dc+" "+m+" (store (select "+dc+" "+m+") "+k+" false))")
	case "ssa:wrapnilchk":
		v := tr.val(fr, a[0], st)
		tr.nilcheck(v, guard, x.Pos())
		fr.vals[x] = v
	default:
		tr.unsupported("builtin "+bi.Name(), x.Pos(), guard)
		if x.Type() != nil {
			fr.vals[x] = tr.freshVal(x.Type(), st, guard, x.Name())
		}
	}
	return guard
}

// ---- calls by contract ----

func resultNames(env *Env, rs []SV) {
	for i, r := range rs {
		env.vars[fmt.Sprintf("result%d", i)] = r
	}
	if len(rs) > 0 {
		env.vars["result"] = rs[0]
	}
}

type modLoc struct{ comp, ref string }

// locations named by a modifies clause
func (tr *Tr) evalLoc(env *Env, e *Ex) []modLoc {
	vc := tr.vc
	switch e.Op {
	case "call":
		switch e.Name {
		case "view":
			x := env.eval(e.Args[0])
			if x.Sort == "Int" {
				vc.comp("gho$buf", "(Array Int Str)")
				return []modLoc{{"gho$buf", x.T}}
			}
			fallthrough
		case "mem":
			x := env.eval(e.Args[0])
			el := x.Go.Underlying().(*types.Slice).Elem()
			return []modLoc{{vc.memComp(el), "(sbase " + x.T + ")"}}
		case "all":
			n := e.Args[0].Name
			if !vc.ensureComp(n) {
				env.fail("unknown component %s", n)
			}
			return []modLoc{{sanitize(n), "*"}}
		case "map":
			x := env.eval(e.Args[0])
			d, v, l := vc.mapComps(x.Go.Underlying().(*types.Map))
			return []modLoc{{d, x.T}, {v, x.T}, {l, x.T}}
		case "cell":
			x := env.eval(e.Args[0])
			return []modLoc{{vc.cellComp(derefT(x.Go)), x.T}}
		case "obj": // every field of the object
			x := env.eval(e.Args[0])
			t := derefT(x.Go)
			u := t.Underlying().(*types.Struct)
			var out []modLoc
			for i := 0; i < u.NumFields(); i++ {
				if fu, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && fu.NumFields() == 0 {
					continue
				}
				out = append(out, modLoc{vc.fieldComp(t, i), x.T})
			}
			return out
		}
	case "sel":
		x := env.eval(e.Args[0])
		t := derefT(x.Go)
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == e.Name {
				return []modLoc{{vc.fieldComp(t, i), x.T}}
			}
		}
	case "id":
		if g, ok := tr.w.pkg.Members[e.Name].(*ssa.Global); ok {
			c := "glob$" + sanitize("jsonutils."+g.Name())
			vc.comp(c, vc.sortOf(derefT(g.Type())))
			return []modLoc{{c, "*"}}
		}
	}
	fatal("bad modifies location %s", e)
	return nil
}

func (tr *Tr) modSet(env *Env, c *Contract) map[string][]string {
	ms := map[string][]string{}
	for _, cl := range c.Clauses {
		if cl.Kind != "modifies" || !tr.propOK(cl.Tags) {
			continue
		}
		for _, e := range cl.Es {
			for _, l := range tr.evalLoc(env, e) {
				ms[l.comp] = append(ms[l.comp], l.ref)
			}
		}
	}
	return ms
}

func (tr *Tr) contractEnv(c *Contract, args []SV, sg *types.Signature, st, old *State) *Env {
	env := &Env{vc: tr.vc, vars: map[string]SV{}, cur: st, old: old}
	for i, p := range c.Params {
		if i < len(args) {
			env.vars[p] = args[i]
		}
	}
	return env
}

func (tr *Tr) callContract(fr *Frame, x *ssa.Call, c *Contract, key string, args []SV, sg *types.Signature, st *State, guard string, callee *ssa.Function) string {
	vc := tr.vc
	for i := range args {
		if args[i].Addr != nil && args[i].T == "" || args[i].Glob != nil {
			args[i] = SV{T: tr.term(args[i]), Sort: "Int", Go: args[i].Go}
		} else if args[i].T == "" {
			args[i].T = tr.term(args[i])
		}
	}
	for _, u := range c.Use {
		vc.useTheory(u)
	}
	if vc.scratch == 0 {
		vc.usedContracts[key] = true
		if c.Kind == "extern" {
			vc.trusted["assumed contract on "+key] = true
		}
	}
	old := st.clone()
	env := tr.contractEnv(c, args, sg, st, old)
	for _, cl := range c.Clauses {
		if cl.Kind != "requires" || !tr.propOK(cl.Tags) {
			continue
		}
		g := env.eval(cl.E).T
		lab := cl.Label
		if lab == "" {
			lab = cl.Src
		}
		if isInternalRequire(cl) && !tr.safety {
			vc.assume(guard, g)
			continue
		}
		if vc.prop != nil && vc.prop.Trust[key+": "+lab] {
			if vc.scratch == 0 {
				vc.trusted["assumed: precondition "+lab+" of "+key+" at "+tr.fn.String()] = true
			}
			vc.assume(guard, g)
			continue
		}
		tr.obligation("precondition of "+key+": "+lab, guard, g, x.Pos())
		vc.assume(guard, g)
	}
	// termination of recursion
	if tr.termOn && callee != nil && tr.scc[callee] && tr.decr0 != nil || tr.termOn && c.Kind == "iface" && tr.decr0 != nil && tr.sccIface(c.Key) {
		var ms []string
		for _, cl := range c.Clauses {
			if cl.Kind == "decreases" {
				for _, e := range cl.Es {
					ms = append(ms, env.eval(e).T)
				}
			}
		}
		if ms == nil {
			tr.obligation("termination: "+key+" has no measure", guard, "false", x.Pos())
		} else {
			for len(ms) < len(tr.decr0) {
				ms = append(ms, "0")
			}
			tr.obligation("termination of recursive call "+key, guard, lexLess(ms[:len(tr.decr0)], tr.decr0), x.Pos())
		}
	}
	// effects
	ms := tr.modSet(env, c)
	mayw := map[string]bool{}
	if callee != nil && (c.Kind == "func") {
		mayw = tr.mayWrite(callee)
	} else if c.Kind == "iface" {
		mayw = tr.mayWriteIface(c.Key)
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "allocates" {
			for _, n := range cl.Names {
				if _, ok := vc.comps[n]; !ok {
					if s := knownComps[n]; s != "" {
						vc.comp(n, s)
					} else if n != "next" {
						continue
					}
				}
				mayw[n] = true
			}
		}
	}
	for k := range ms {
		mayw[k] = true
	}
	var ks []string
	for k := range mayw {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	oldNext := vc.get(st, "next")
	if len(ks) > 0 {
		n := vc.fresh("next", "Int")
		vc.emit("(assert (<= %s %s))", oldNext, n)
		st.h["next"] = n
	}
	for _, k := range ks {
		if k == "next" {
			continue
		}
		o := vc.get(st, k)
		srt := vc.comps[k]
		n := vc.fresh(k, srt)
		st.h[k] = n
		refs := ms[k]
		if contains(refs, "*") || !strings.HasPrefix(srt, "(Array Int") || strings.HasPrefix(k, "glob$") {
			tr.wlog = append(tr.wlog, write{k, "!unknown!999999999"})
			if strings.HasPrefix(k, "glob$") && len(refs) == 0 {
				st.h[k] = o // not listed: unchanged
			}
			continue
		}
		tr.wlog = append(tr.wlog, write{k, "!fresh!999999999"})
		conds := []string{"(<= 0 r)", "(< r " + oldNext + ")"}
		for _, r := range refs {
			conds = append(conds, "(not (= r "+r+"))")
			tr.wlog = append(tr.wlog, write{k, r})
		}
		vc.emit("(assert (forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r)))))", and(conds...), n, o, n)
	}
	// results
	var rs []SV
	res := sg.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, tr.freshVal(res.At(i).Type(), st, guard, "r_"+lastName(key)))
	}
	env.cur = st
	resultNames(env, rs)
	for _, gh := range c.Ghosts {
		s := gh.Sort
		if s == "Ref" {
			s = "Int"
		}
		env.vars[gh.Name] = SV{T: vc.fresh("gh_"+gh.Name, s), Sort: s}
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "ensures" && tr.propOK(cl.Tags) {
			vc.assume(guard, env.eval(cl.E).T)
		}
	}
	if x != nil {
		tr.setResults(fr, x, rs)
	}
	if c.NoReturn {
		return "false"
	}
	return guard
}

func isInternalRequire(cl *Clause) bool { return cl.Label == "nonpanic" }

func lastName(k string) string {
	i := strings.LastIndexByte(k, '.')
	return k[i+1:]
}

// ---- may-write analysis (which heap components a call can change) ----

func (tr *Tr) mayWrite(f *ssa.Function) map[string]bool {
	vc := tr.vc
	if vc.mw == nil {
		vc.mw = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := vc.mw[f]; ok {
		return cloneSet(m)
	}
	// fixpoint over the reachable call graph
	var all []*ssa.Function
	calls := map[*ssa.Function][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	loc := map[*ssa.Function]map[string]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		all = append(all, g)
		w, cs := tr.localWrites(g)
		loc[g] = w
		calls[g] = cs
		for _, c := range cs {
			visit(c)
		}
	}
	visit(f)
	for ch := true; ch; {
		ch = false
		for _, g := range all {
			for _, c := range calls[g] {
				for k := range loc[c] {
					if !loc[g][k] {
						loc[g][k] = true
						ch = true
					}
				}
			}
		}
	}
	for _, g := range all {
		vc.mw[g] = loc[g]
	}
	return cloneSet(loc[f])
}

func cloneSet(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

func (tr *Tr) mayWriteIface(key string) map[string]bool {
	out := map[string]bool{}
	for _, f := range tr.w.ifaceMethods(key) {
		for k := range tr.mayWrite(f) {
			out[k] = true
		}
	}
	return out
}

// the interface contract a document method is verified against
func (w *World) ifaceContract(db *SpecDB, f *ssa.Function) *Contract {
	rt := f.Signature.Recv().Type()
	for _, t := range w.impls {
		if types.Identical(t, rt) {
			c := db.Contracts["JSONObject."+f.Name()]
			if c == nil || c.Kind != "iface" {
				return nil
			}
			for _, cl := range c.Clauses {
				if cl.Kind == "except" && contains(cl.Names, typeName(t)) {
					return nil
				}
			}
			return c
		}
	}
	return nil
}

// implementations of an interface method, for keys like "JSONObject.Equals"
func (w *World) ifaceMethods(key string) []*ssa.Function {
	if fs, ok := w.ifaceImpl[key]; ok {
		return fs
	}
	var out []*ssa.Function
	i := strings.LastIndexByte(key, '.')
	if key[:i] == "JSONObject" || key[:i] == "gotypes.ISerializable" || key[:i] == "writeSource" {
		for _, t := range w.impls {
			if f := w.method(t, key[i+1:]); f != nil {
				out = append(out, f)
			}
		}
	}
	w.ifaceImpl[key] = out
	return out
}

func (tr *Tr) addrComps(v ssa.Value) []string {
	vc := tr.vc
	switch x := v.(type) {
	case *ssa.FieldAddr:
		// nested: the outermost component
		switch y := x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if c := tr.addrComps(y); len(c) > 0 {
				return c
			}
		}
		t := derefT(x.X.Type())
		if isOpaqueStruct(vc, t) {
			return nil
		}
		return []string{vc.fieldComp(t, x.Field)}
	case *ssa.IndexAddr:
		switch y := x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if isPtr(y.Type().Underlying()) {
				if c := tr.addrComps(y.(ssa.Value)); len(c) > 0 {
					return c
				}
			}
		}
		return []string{vc.memComp(derefT(x.Type()))}
	case *ssa.Global:
		c := "glob$" + sanitize(shortPkg(x.Pkg.Pkg)+"."+x.Name())
		vc.comp(c, vc.sortOf(derefT(x.Type())))
		return []string{c}
	}
	return tr.objComps(derefT(v.Type()))
}

func (tr *Tr) objComps(t types.Type) []string {
	vc := tr.vc
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isOpaqueStruct(vc, t) {
			n := "opq$" + sanitize(vc.sortOf(t))
			vc.comp(n, "(Array Int "+vc.sortOf(t)+")")
			if isBuf(t) {
				vc.comp("gho$buf", "(Array Int Str)")
				return []string{n, "gho$buf"}
			}
			return []string{n}
		}
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			if fu, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && fu.NumFields() == 0 {
				continue
			}
			out = append(out, vc.fieldComp(t, i))
		}
		return out
	case *types.Array:
		return []string{vc.memComp(u.Elem())}
	}
	return []string{vc.cellComp(t)}
}

func (tr *Tr) localWrites(g *ssa.Function) (map[string]bool, []*ssa.Function) {
	vc := tr.vc
	w := map[string]bool{}
	var cs []*ssa.Function
	add := func(xs ...string) {
		for _, x := range xs {
			w[x] = true
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				add("next")
				add(tr.objComps(derefT(x.Type()))...)
			case *ssa.Store:
				add(tr.addrComps(x.Addr)...)
			case *ssa.MakeSlice:
				add("next", vc.memComp(x.Type().Underlying().(*types.Slice).Elem()))
			case *ssa.MakeMap:
				d, v, l := vc.mapComps(x.Type().Underlying().(*types.Map))
				add("next", d, v, l)
			case *ssa.MapUpdate:
				d, v, l := vc.mapComps(x.Map.Type().Underlying().(*types.Map))
				add(d, v, l)
			case *ssa.Range:
				add("next")
				if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
					ks := vc.sortOf(mt.Key())
					c := "iter$" + sanitize(ks)
					vc.comp(c, "(Array Int (Array "+ks+" Bool))")
					vc.comp("iter$count", "(Array Int Int)")
					add(c, "iter$count")
				} else {
					vc.comp("iter$pos", "(Array Int Int)")
					add("iter$pos")
				}
			case *ssa.Convert:
				if sl, ok := x.Type().Underlying().(*types.Slice); ok {
					add("next", vc.memComp(sl.Elem()))
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy":
						add("next", vc.memComp(cc.Args[0].Type().Underlying().(*types.Slice).Elem()))
					case "delete":
						d, v, l := vc.mapComps(cc.Args[0].Type().Underlying().(*types.Map))
						add(d, v, l)
					}
					continue
				}
				if cc.IsInvoke() {
					key := strings.TrimPrefix(typeName(cc.Value.Type()), "jsonutils.") + "." + cc.Method.Name()
					if c := vc.db.Contracts[key]; c != nil && c.Kind == "extern" {
						add(tr.externWrites(c, cc)...)
						continue
					}
					cs = append(cs, tr.w.ifaceMethods(key)...)
					continue
				}
				callee := cc.StaticCallee()
				if callee == nil {
					continue
				}
				key := tr.w.key(callee)
				if c := vc.db.Contracts[key]; c != nil && c.Kind == "extern" {
					add(tr.externWrites(c, cc)...)
					continue
				}
				if callee.Blocks != nil && (callee.Package() == nil || vc.w.analysed[callee.Package().Pkg.Path()] || vc.w.inlinePkgs[callee.Package().Pkg.Path()]) {
					cs = append(cs, callee)
				}
			case *ssa.MakeClosure:
				cs = append(cs, x.Fn.(*ssa.Function))
			}
		}
	}
	return w, cs
}

func (tr *Tr) externWrites(c *Contract, cc *ssa.CallCommon) []string {
	vc := tr.vc
	var out []string
	// evaluate the modifies locations with placeholder arguments
	env := &Env{vc: vc, vars: map[string]SV{}, cur: &State{h: map[string]string{}}, old: &State{h: map[string]string{}}}
	var ts []types.Type
	if cc.IsInvoke() {
		ts = append(ts, cc.Value.Type())
	}
	for _, a := range cc.Args {
		ts = append(ts, a.Type())
	}
	for i, p := range c.Params {
		if i < len(ts) {
			env.vars[p] = SV{T: "dummy", Sort: vc.sortOf(ts[i]), Go: ts[i]}
		}
	}
	for k := range tr.modSet(env, c) {
		out = append(out, k)
	}
	for _, cl := range c.Clauses {
		if cl.Kind == "allocates" {
			for _, n := range cl.Names {
				if _, ok := vc.comps[n]; !ok && knownComps[n] != "" {
					vc.comp(n, knownComps[n])
				}
				if _, ok := vc.comps[n]; ok {
					out = append(out, n)
				}
			}
			out = append(out, "next")
		}
	}
	return out
}

func opName(t token.Token) string {
	switch t {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	}
	return "op"
}
