// ---- unmarshalling (C22, C23): what is stored through reflection ----
use docs
theory curr : strconv `
; number texts written as amounts of money, and the number that is meant
(declare-fun uscur (Str) Bool)
(declare-fun eucur (Str) Bool)
(declare-fun srepl (Str Str Str) Str)
(declare-fun trim (Str) Str)
(declare-fun sidx (Str Int) Int)
`
use curr
spec named eunorm(s Str) Str = sidx(s, 44) < 0 ? srepl(s, ".", "") : srepl(ssub(s, 0, sidx(s, 44)), ".", "") ++ "." ++ ssub(s, sidx(s, 44) + 1, slen(s))
spec named norm(s Str) Str = uscur(s) ? srepl(s, ",", "") : (eucur(s) ? eunorm(s) : s)
extern "strings.IndexByte" (s, c) {
  use curr
  ensures i: result == sidx(s, c) && 0-1 <= result && result < len(s)
  modifies nothing
}
extern "strings.Replace" (s, a, b, n) {
  use curr
  ensures all: n < 0 ==> result == srepl(s, a, b)
  modifies nothing
}
use docs
theory rkinds `
; the value a reflected value was made from
(declare-fun rvsrc (O_reflect.Value) Iface)
; the type of a reflected value; the type of an interface value
(declare-fun rtyp (O_reflect.Value) Iface)
(declare-fun dyn (Iface) Iface)
; a type: its kind (reflect.Kind), what it points to, assignability to another
(declare-fun tkind (Iface) Int)
(declare-fun telem (Iface) Iface)
(declare-fun tassign (Iface Iface) Bool)
; may the value be set; is it, or is it within what is below, the other
(declare-fun rset (O_reflect.Value) Bool)
(assert (forall ((v O_reflect.Value)) (! (=> (rset v) (not (= (rtyp v) inil))) :pattern ((rset v)))))
(declare-fun rparent (O_reflect.Value) O_reflect.Value)
(declare-fun under (O_reflect.Value O_reflect.Value) Bool)
(assert (forall ((v O_reflect.Value)) (! (under v v) :pattern ((under v v)))))
(assert (forall ((w O_reflect.Value) (e O_reflect.Value)) (! (=> (under w e) (under w (rparent e))) :pattern ((under w e) (rparent e)))))
(declare-fun raddr (O_reflect.Value) Bool)
(assert (forall ((v O_reflect.Value)) (! (=> (rset v) (raddr v)) :pattern ((rset v)))))
(assert (forall ((v O_reflect.Value)) (! (=> (raddr v) (not (= (rtyp v) inil))) :pattern ((raddr v)))))
(assert (= (tkind inil) 0))
; was it obtained through exported fields only
(declare-fun rexp (O_reflect.Value) Bool)
(assert (forall ((v O_reflect.Value)) (! (=> (rset v) (rexp v)) :pattern ((rset v)))))
; nilness: a store may change that of what can be set
(define-fun nilkeep ((a (Array O_reflect.Value Bool)) (b (Array O_reflect.Value Bool))) Bool (forall ((v O_reflect.Value)) (! (=> (not (rset v)) (= (select a v) (select b v))) :pattern ((select b v)))))
; is what the value stands for storage of a target, not a node of a document
(declare-fun rown (O_reflect.Value) Bool)
(assert (rown zero_O_reflect.Value))
; a pointer to storage made by reflect.New, or given as the target
(declare-fun rnew (Iface) Bool)
; the element at a place, the number of elements, the fields of a struct: of the values that are held at a time
(declare-fun ridx ((Array O_reflect.Value Iface) O_reflect.Value Int) O_reflect.Value)
(declare-fun rlen ((Array O_reflect.Value Iface) O_reflect.Value) Int)
(declare-fun rnfld ((Array O_reflect.Value Iface) O_reflect.Value) Int)
(declare-fun rfld ((Array O_reflect.Value Iface) O_reflect.Value Int) O_reflect.Value)
(declare-fun fign ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fdep ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fomz ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fome ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fomf ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fstr ((Array O_reflect.Value Iface) O_reflect.Value Int) Bool)
(declare-fun fname ((Array O_reflect.Value Iface) O_reflect.Value Int) Str)
(declare-fun rhas ((Array O_reflect.Value Iface) O_reflect.Value O_reflect.Value) Bool)
; the name a field is marshalled under
(declare-fun mname (Int) Str)
; neither the value, nor what it points to or holds, decodes itself from JSON
(declare-fun nostd (O_reflect.Value) Bool)
; the same for encoding itself, which times do but are not asked to
(declare-fun nostdm (O_reflect.Value) Bool)
(declare-fun nostdi (Iface) Bool)
; the number of methods of a type
(declare-fun nmeth (Iface) Int)
(declare-const tyJI Iface) (declare-const tyJF Iface) (declare-const tyJB Iface) (declare-const tyJS Iface) (declare-const tyJA Iface) (declare-const tyJD Iface)
(declare-const tyPJI Iface) (declare-const tyPJF Iface) (declare-const tyPJB Iface) (declare-const tyPJS Iface) (declare-const tyPJA Iface) (declare-const tyPJD Iface)
(declare-const tyJO Iface) (declare-const tyTri Iface) (declare-const tyTime Iface)
(declare-const tyInt64 Iface) (declare-const tyFloat64 Iface) (declare-const tyBool Iface) (declare-const tyString Iface) (declare-const tyFloat32 Iface)
(assert (distinct tyJI tyJF tyJB tyJS tyJA tyJD tyPJI tyPJF tyPJB tyPJS tyPJA tyPJD tyJO tyTri tyTime tyInt64 tyFloat64 tyBool tyString))
(assert (and (= (tkind tyJI) 25) (= (tkind tyJF) 25) (= (tkind tyJB) 25) (= (tkind tyJS) 25) (= (tkind tyJA) 25) (= (tkind tyJD) 25)))
(assert (and (= (tkind tyPJI) 22) (= (tkind tyPJF) 22) (= (tkind tyPJB) 22) (= (tkind tyPJS) 22) (= (tkind tyPJA) 22) (= (tkind tyPJD) 22)))
(assert (and (= (telem tyPJI) tyJI) (= (telem tyPJF) tyJF) (= (telem tyPJB) tyJB) (= (telem tyPJS) tyJS) (= (telem tyPJA) tyJA) (= (telem tyPJD) tyJD)))
(assert (and (= (tkind tyJO) 20) (= (tkind tyTri) 24) (= (tkind tyTime) 25) (= (tkind tyInt64) 6) (= (tkind tyFloat64) 14) (= (tkind tyBool) 1) (= (tkind tyString) 24) (= (tkind tyFloat32) 13)))
(assert (forall ((t Iface)) (! (tassign t t) :pattern ((tassign t t)))))
(assert (and (tassign tyPJI tyJO) (tassign tyPJF tyJO) (tassign tyPJB tyJO) (tassign tyPJS tyJO) (tassign tyPJA tyJO) (tassign tyPJD tyJO)))
(define-fun isintk ((k Int)) Bool (and (<= 2 k) (<= k 6)))
(define-fun isuintk ((k Int)) Bool (and (<= 7 k) (<= k 11)))
(define-fun isfltk ((k Int)) Bool (or (= k 13) (= k 14)))
; the document types, and the pointers to them
(define-fun isjty ((t Iface)) Bool (or (= t tyJI) (= t tyJF) (= t tyJB) (= t tyJS) (= t tyJA) (= t tyJD)))
(define-fun ispjty ((t Iface)) Bool (or (= t tyPJI) (= t tyPJF) (= t tyPJB) (= t tyPJS) (= t tyPJA) (= t tyPJD)))
(define-fun plainty ((t Iface)) Bool (not (or (isjty t) (ispjty t) (= t tyJO) (= t tyTri) (= t tyTime))))
(define-fun fitsi ((k Int) (d Int)) Bool (ite (= k 3) (and (<= (- 128) d) (< d 128)) (ite (= k 4) (and (<= (- 32768) d) (< d 32768)) (ite (= k 5) (and (<= (- 2147483648) d) (< d 2147483648)) (and (<= (- 9223372036854775808) d) (< d 9223372036854775808))))))
(define-fun fitsu ((k Int) (d Int)) Bool (and (<= 0 d) (ite (= k 8) (< d 256) (ite (= k 9) (< d 65536) (ite (= k 10) (< d 4294967296) (< d 18446744073709551616))))))
(define-fun tbits ((k Int)) Int (ite (or (= k 3) (= k 8)) 8 (ite (or (= k 4) (= k 9)) 16 (ite (or (= k 5) (= k 10) (= k 13)) 32 64))))
; larger than any 32-bit float
(declare-fun fover32 (Flt) Bool)
(assert (forall ((n Int)) (! (not (fover32 (i2f n))) :pattern ((fover32 (i2f n))))))
; what is stored by SetInt and its like
(define-fun mkint ((d Int)) Iface (iint 0 d))
(define-fun mkuint ((d Int)) Iface (iint 1 d))
(define-fun mkflt ((k Int) (d Flt)) Iface (iflt 0 (ite (= k 13) (f64to32 d) d)))
(define-fun mkbool ((d Bool)) Iface (ibool 0 d))
(define-fun mkstr ((d Str)) Iface (istr 0 d))
; the type at the end of a chain of pointers
(declare-fun tbase (Iface) Iface)
(assert (forall ((t Iface)) (! (= (tbase t) (ite (and (= (tkind t) 22) (not (ispjty t))) (tbase (telem t)) t)) :pattern ((tbase t) (telem t)))))
(assert (forall ((t Iface)) (! (=> (or (not (= (tkind t) 22)) (ispjty t)) (= (tbase t) t)) :pattern ((tbase t)))))
; the same for strings, which also go to the only element of a slice
(declare-fun sbase (Iface) Iface)
(assert (forall ((t Iface)) (! (= (sbase t) (ite (or (and (= (tkind t) 22) (not (ispjty t))) (= (tkind t) 23)) (sbase (telem t)) t)) :pattern ((sbase t) (telem t)))))
(assert (forall ((t Iface)) (! (=> (and (or (not (= (tkind t) 22)) (ispjty t)) (not (= (tkind t) 23))) (= (sbase t) t)) :pattern ((sbase t)))))
; the order of floats is total but for NaN
(assert (forall ((a Flt) (b Flt)) (! (and (=> (flt a b) (and (not (fnan a)) (not (fnan b)))) (or (fnan a) (fnan b) (flt a b) (feq a b) (flt b a))) :pattern ((flt a b)))))
; truncation of floats in the range of the integers
(assert (forall ((a Flt)) (! (=> (and (not (fnan a)) (not (flt a (i2f (- 9223372036854775808))))) (<= (- 9223372036854775808) (f2i a))) :pattern ((f2i a)))))
(assert (forall ((a Flt)) (! (=> (flt a (i2f 9223372036854775808)) (< (f2i a) 9223372036854775808)) :pattern ((f2i a)))))
(assert (forall ((a Flt)) (! (=> (flt (i2f (- 1)) a) (<= 0 (f2i a))) :pattern ((f2i a)))))
(assert (forall ((a Flt)) (! (=> (flt a (i2f 18446744073709551616)) (< (f2i a) 18446744073709551616)) :pattern ((f2i a)))))
`
use rkinds
axiom dyn_of(x Iface) {
  trigger dyn(x)
  ensures (typeis(x, "jsonutils.JSONInt") && is(x, "iopq") <==> dyn(x) == tyJI) && (typeis(x, "jsonutils.JSONFloat") && is(x, "iopq") <==> dyn(x) == tyJF) && (typeis(x, "jsonutils.JSONBool") && is(x, "iopq") <==> dyn(x) == tyJB)
  ensures (typeis(x, "jsonutils.JSONString") && is(x, "iopq") <==> dyn(x) == tyJS) && (typeis(x, "jsonutils.JSONArray") && is(x, "iopq") <==> dyn(x) == tyJA) && (typeis(x, "jsonutils.JSONDict") && is(x, "iopq") <==> dyn(x) == tyJD)
  ensures (typeis(x, "*jsonutils.JSONInt") && is(x, "iref") <==> dyn(x) == tyPJI) && (typeis(x, "*jsonutils.JSONFloat") && is(x, "iref") <==> dyn(x) == tyPJF) && (typeis(x, "*jsonutils.JSONBool") && is(x, "iref") <==> dyn(x) == tyPJB)
  ensures (typeis(x, "*jsonutils.JSONString") && is(x, "iref") <==> dyn(x) == tyPJS) && (typeis(x, "*jsonutils.JSONArray") && is(x, "iref") <==> dyn(x) == tyPJA) && (typeis(x, "*jsonutils.JSONDict") && is(x, "iref") <==> dyn(x) == tyPJD)
  ensures (typeis(x, "int64") && is(x, "iint") <==> dyn(x) == tyInt64) && (typeis(x, "float64") && is(x, "iflt") <==> dyn(x) == tyFloat64) && (typeis(x, "bool") && is(x, "ibool") <==> dyn(x) == tyBool) && (typeis(x, "string") && is(x, "istr") <==> dyn(x) == tyString)
  ensures (typeis(x, "time.Time") && is(x, "iopq") <==> dyn(x) == tyTime) && (typeis(x, "tristate.TriState") && is(x, "istr") <==> dyn(x) == tyTri)
}
use docs, fmtth, rkinds, dyn_of, errth
macro where() = comp("glob$reflect.where")
macro nilg() = comp("glob$reflect.nil")
macro what() = comp("glob$reflect.what")
// what Interface gives: the value held
macro cur() = comp("glob$reflect.cur")
// the words the dependency takes for true
macro TS() = comp("glob$utils.TRUE_STRS")
macro truestr(i) = at(select(comp("mem$string"), TS().base), TS().off, i)
macro truestrs() = len(TS()) == 4 && truestr(0) == "1" && truestr(1) == "true" && truestr(2) == "on" && truestr(3) == "yes"
macro tobool(s) = let l = lower(trim(s)) in l == "1" || l == "true" || l == "on" || l == "yes"
// the package variables hold the types they are named for
macro types() = JSONIntType == tyJI && JSONFloatType == tyJF && JSONBoolType == tyJB && JSONStringType == tyJS && JSONArrayType == tyJA && JSONDictType == tyJD
  && JSONIntPtrType == tyPJI && JSONFloatPtrType == tyPJF && JSONBoolPtrType == tyPJB && JSONStringPtrType == tyPJS && JSONArrayPtrType == tyPJA && JSONDictPtrType == tyPJD
  && JSONObjectType == tyJO && comp("glob$gotypes.TimeType") == tyTime && comp("glob$tristate.TriStateType") == tyTri
  && truestrs()
  && rvsrc(comp("glob$tristate.TriStateTrueValue")) == triv("true") && rvsrc(comp("glob$tristate.TriStateFalseValue")) == triv("false") && rvsrc(comp("glob$tristate.TriStateNoneValue")) == triv("")
  && rtyp(comp("glob$tristate.TriStateTrueValue")) == tyTri && rtyp(comp("glob$tristate.TriStateFalseValue")) == tyTri && rtyp(comp("glob$tristate.TriStateNoneValue")) == tyTri
macro mismatch(e) = e == iface(ErrTypeMismatch) || e != nil && ewraps(e) == iface(ErrTypeMismatch)
macro triv(s) = iface(val(s, "tristate.TriState"))
// the fields of a target, and the targets a session keeps, are targets
macro fval(f, j) = val(at(mem(f), f.off, j), "reflectutils.SStructFieldValue")
macro fown(f) = 0 <= len(f) && (forall j Int :: {at(mem(f), f.off, j)} 0 <= j && j < len(f) ==> rown(fval(f, j).Value) && (fval(f, j).Parent != nil ==> rown(fval(f, j).Parent.Field)))
macro tvown() = forall r Int, j Int :: {select(select(comp("mem$reflect.Value"), r), j)} rown(select(select(comp("mem$reflect.Value"), r), j))
extern "reflect.ValueOf" (x) {
  ensures stdm: nostdi(x) ==> nostdm(result)
  ensures cur: select(cur(), result) == x && (x == nil ==> rtyp(result) == nil) && (x != nil ==> rexp(result)) && tkind(rtyp(result)) != 20
  ensures own: rown(result)
  ensures src: rvsrc(result) == x && (is(x, "iref") ==> (select(nilg(), result) <==> ir(x) == 0))
  ensures typ: rtyp(result) == dyn(x) && (x != nil ==> dyn(x) != nil)
  modifies nothing
}
extern "(reflect.Value).Type" (v) {
  requires nonpanic: rtyp(v) != nil
  ensures t: result == rtyp(v) && result != nil
  modifies nothing
}
extern "(reflect.Value).Kind" (v) {
  ensures k: result == tkind(rtyp(v))
  modifies nothing
}
extern "(reflect.Value).CanSet" (v) {
  ensures s: result <==> rset(v)
  modifies nothing
}
extern "(reflect.Value).Interface" (v) {
  ensures cur: result == select(cur(), v) && (tkind(rtyp(v)) == 20 ==> (result == nil <==> select(nilg(), v)))
  ensures stdm: nostdm(v) && rtyp(v) != tyTime && nmeth(rtyp(v)) > 0 ==> !implements(result, "json.Marshaler")
  ensures impl: ispjty(rtyp(v)) || rtyp(v) == tyJO && result != nil ==> implements(result, "jsonutils.JSONObject")
  ensures form: tkind(dyn(result)) == 1 ==> is(result, "ibool")
  ensures form2: isintk(tkind(dyn(result))) ==> is(result, "iint") && fitsi(tkind(dyn(result)), iiv(result))
  ensures form3: isuintk(tkind(dyn(result))) ==> is(result, "iint") && fitsu(tkind(dyn(result)), iiv(result))
  ensures form4: isfltk(tkind(dyn(result))) ==> is(result, "iflt")
  ensures form5: tkind(dyn(result)) == 24 ==> is(result, "istr")
  requires nonpanic: rexp(v) && rtyp(v) != nil
  ensures t: tkind(rtyp(v)) != 20 ==> dyn(result) == rtyp(v)
  ensures std: nostd(v) ==> !implements(result, "json.Unmarshaler")
  ensures dict: typeis(result, "jsonutils.JSONDict") ==> let d = unbox(result, "jsonutils.JSONDict").data in 0 <= len(d) && msorted(mem(d), d.off, len(d))
  modifies nothing
}
// the value pointed to or held; the zero Value when there is none
extern "(reflect.Value).Elem" (v) {
  ensures cur: tkind(rtyp(v)) == 20 && !select(nilg(), v) ==> select(cur(), result) == select(cur(), v) && rtyp(result) == dyn(select(cur(), v)) && tkind(rtyp(result)) != 20
  ensures held: !select(nilg(), v) && tkind(rtyp(result)) != 20 ==> dyn(select(cur(), result)) == rtyp(result)
  ensures stdm: nostdm(v) ==> nostdm(result)
  ensures own: rown(v) && (tkind(rtyp(v)) != 22 || !isjty(telem(rtyp(v))) || rnew(rvsrc(v)) || where() == v && rnew(what())) ==> rown(result)
  requires nonpanic: tkind(rtyp(v)) == 22 || tkind(rtyp(v)) == 20
  ensures nil: select(nilg(), v) ==> rtyp(result) == nil
  ensures in: rparent(result) == v
  ensures typ: !select(nilg(), v) ==> rtyp(result) != nil && (tkind(rtyp(v)) == 22 ==> rtyp(result) == telem(rtyp(v)))
  ensures set: !select(nilg(), v) ==> (rset(result) <==> tkind(rtyp(v)) == 22 && rexp(v))
  ensures exp: rexp(v) && !select(nilg(), v) ==> rexp(result)
  ensures std: nostd(v) ==> nostd(result)
  modifies nothing
}
extern "(reflect.Value).CanAddr" (v) {
  ensures a: result <==> raddr(v)
  modifies nothing
}
extern "(reflect.Value).CanInterface" (v) {
  requires nonpanic: rtyp(v) != nil
  ensures a: result <==> rexp(v)
  modifies nothing
}
extern "(reflect.Value).Addr" (v) {
  ensures own: rown(v) ==> rown(result)
  requires nonpanic: raddr(v)
  ensures typ: rtyp(result) != nil && tkind(rtyp(result)) == 22 && telem(rtyp(result)) == rtyp(v) && !select(nilg(), result) && !rset(result)
  ensures exp: rexp(result) <==> rexp(v)
  ensures std: nostd(v) ==> nostd(result)
  modifies nothing
}
extern "reflect.Type.Name" (t) {
  modifies nothing
}
extern "reflect.Type.NumMethod" (t) {
  ensures n: result == nmeth(t)
  modifies nothing
}
extern "(reflect.Value).Set" (v, x) {
  requires own: rown(v)
  requires nonpanic: rset(v) && tassign(rtyp(x), rtyp(v))
  ensures w: where() == v && what() == rvsrc(x) && (select(nilg(), v) <==> select(old(nilg()), x))
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).SetInt" (v, d) {
  requires own: rown(v)
  requires nonpanic: rset(v) && isintk(tkind(rtyp(v)))
  ensures w: where() == v && (fitsi(tkind(rtyp(v)), d) ==> what() == mkint(d))
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).SetUint" (v, d) {
  requires own: rown(v)
  requires nonpanic: rset(v) && (isuintk(tkind(rtyp(v))) || tkind(rtyp(v)) == 12)
  ensures w: where() == v && (fitsu(tkind(rtyp(v)), d) ==> what() == mkuint(d))
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).SetFloat" (v, d) {
  requires own: rown(v)
  requires nonpanic: rset(v) && isfltk(tkind(rtyp(v)))
  ensures w: where() == v && what() == mkflt(tkind(rtyp(v)), d)
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).SetBool" (v, d) {
  requires own: rown(v)
  requires nonpanic: rset(v) && tkind(rtyp(v)) == 1
  ensures w: where() == v && what() == mkbool(d)
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).SetString" (v, d) {
  requires own: rown(v)
  requires nonpanic: rset(v) && tkind(rtyp(v)) == 24
  ensures w: where() == v && what() == mkstr(d)
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).OverflowInt" (v, d) {
  requires nonpanic: isintk(tkind(rtyp(v)))
  ensures o: result <==> !fitsi(tkind(rtyp(v)), d)
  modifies nothing
}
extern "(reflect.Value).OverflowUint" (v, d) {
  requires nonpanic: isuintk(tkind(rtyp(v))) || tkind(rtyp(v)) == 12
  ensures o: result <==> !fitsu(tkind(rtyp(v)), d)
  modifies nothing
}
extern "(reflect.Value).OverflowFloat" (v, d) {
  requires nonpanic: isfltk(tkind(rtyp(v)))
  ensures o: result <==> tkind(rtyp(v)) == 13 && fover32(d)
  modifies nothing
}
extern "(reflect.Value).IsNil" (v) {
  requires nonpanic: is(rvsrc(v), "iref") || 18 <= tkind(rtyp(v)) && tkind(rtyp(v)) <= 23 || tkind(rtyp(v)) == 26
  ensures nil: result <==> select(nilg(), v)
  ensures src: is(rvsrc(v), "iref") ==> (result <==> ir(rvsrc(v)) == 0)
  modifies nothing
}
extern "(reflect.Value).Len" (v) {
  ensures r: result == rlen(cur(), v)
  requires nonpanic: let k = tkind(rtyp(v)) in k == 17 || k == 18 || k == 21 || k == 23 || k == 24
  ensures n: 0 <= result
  modifies nothing
}
extern "(reflect.Value).Cap" (v) {
  requires nonpanic: let k = tkind(rtyp(v)) in k == 17 || k == 18 || k == 23
  ensures n: 0 <= result
  modifies nothing
}
extern "(reflect.Value).SetLen" (v, n) {
  requires own: rown(v)
  requires nonpanic: rset(v) && tkind(rtyp(v)) == 23 && 0 <= n
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "(reflect.Value).Index" (v, i) {
  ensures r: result == ridx(cur(), v, i) && rtyp(result) != nil
  ensures exp: rexp(v) ==> rexp(result)
  ensures held: tkind(rtyp(result)) != 20 ==> dyn(select(cur(), result)) == rtyp(result)
  ensures own: rown(v) ==> rown(result)
  requires nonpanic: let k = tkind(rtyp(v)) in k == 17 || k == 23 || k == 24
  ensures in: rparent(result) == v
  ensures typ: tkind(rtyp(v)) != 24 ==> rtyp(result) == telem(rtyp(v))
  ensures set: tkind(rtyp(v)) == 23 && rexp(v) || tkind(rtyp(v)) == 17 && rset(v) ==> rset(result)
  ensures std: nostd(v) ==> nostd(result)
  modifies nothing
}
extern "reflect.MakeSlice" (t, n, c) {
  requires nonpanic: tkind(t) == 23 && 0 <= n && n <= c
  ensures typ: rtyp(result) == t
  modifies nothing
}
extern "reflect.New" (t) {
  ensures own: rown(result) && rnew(rvsrc(result))
  requires nonpanic: t != nil
  ensures typ: rtyp(result) != nil && !select(nilg(), result) && rexp(result) && tkind(rtyp(result)) == 22 && telem(rtyp(result)) == t && (forall u Iface :: {telem(u)} tkind(u) == 22 && telem(u) == t ==> tassign(rtyp(result), u))
  modifies nothing
}
extern "reflect.Type.Elem" (t) {
  requires nonpanic: let k = tkind(t) in k == 17 || k == 18 || k == 21 || k == 22 || k == 23
  ensures e: result == telem(t) && result != nil
  modifies nothing
}
extern "reflect.Type.AssignableTo" (t, u) {
  ensures a: result <==> tassign(t, u)
  modifies nothing
}
extern "reflect.Type.Bits" (t) {
  ensures b: result == tbits(tkind(t))
  modifies nothing
}
extern "strconv.FormatBool" (b) {
  ensures t: result == (b ? "true" : "false")
  modifies nothing
}
extern "regutils.MatchUSCurrency" (s) {
  use curr
  ensures m: result <==> uscur(s)
  modifies nothing
}
extern "regutils.MatchEUCurrency" (s) {
  use curr
  ensures m: result <==> eucur(s)
  modifies nothing
}
// conversions between scalars that keep the value
extern "(reflect.Value).Convert" (v, t) {
  ensures typ: rtyp(result) == t
  ensures exp: rexp(v) ==> rexp(result)
  ensures int: isintk(tkind(rtyp(v))) && t == tyInt64 ==> select(cur(), result) == iface(val(iiv(select(cur(), v)), "int64"))
  ensures uint: isuintk(tkind(rtyp(v))) && t == tyInt64 && fitsi(6, iiv(select(cur(), v))) ==> select(cur(), result) == iface(val(iiv(select(cur(), v)), "int64"))
  ensures f64: isfltk(tkind(rtyp(v))) && t == tyFloat64 ==> select(cur(), result) == iface(val(ifv(select(cur(), v)), "float64"))
  ensures f32: tkind(rtyp(v)) == 13 && t == tyFloat32 ==> select(cur(), result) == iface(val(ifv(select(cur(), v)), "float32"))
  ensures str: tkind(rtyp(v)) == 24 && t == tyString ==> select(cur(), result) == iface(val(isv(select(cur(), v)), "string"))
  modifies nothing
}
extern "(reflect.Value).Bool" (v) {
  requires nonpanic: tkind(rtyp(v)) == 1
  ensures b: result <==> ibv(select(cur(), v))
  modifies nothing
}
extern "(reflect.Value).Int" (v) {
  requires nonpanic: isintk(tkind(rtyp(v)))
  ensures b: result == iiv(select(cur(), v)) && fitsi(tkind(rtyp(v)), result)
  modifies nothing
}
extern "(reflect.Value).Uint" (v) {
  requires nonpanic: isuintk(tkind(rtyp(v))) || tkind(rtyp(v)) == 12
  ensures b: isuintk(tkind(rtyp(v))) ==> result == iiv(select(cur(), v)) && fitsu(tkind(rtyp(v)), result)
  modifies nothing
}
extern "(reflect.Value).Float" (v) {
  requires nonpanic: isfltk(tkind(rtyp(v)))
  ensures b: result == ifv(select(cur(), v))
  modifies nothing
}
extern "(reflect.Value).String" (v) {
  ensures b: tkind(rtyp(v)) == 24 ==> result == isv(select(cur(), v))
  modifies nothing
}
extern "gotypes.IsNil" (x) {
  ensures n: x == nil ==> result
  modifies nothing
}
// values do not change while they are marshalled, whatever their own methods do
extern "json.Marshaler.MarshalJSON" (u) {
  modifies nothing
}
extern "(reflect.Value).MapKeys" (v) {
  requires nonpanic: tkind(rtyp(v)) == 21
  ensures n: 0 <= len(result) && fresh(result)
  allocates "mem$reflect.Value"
  ensures k: forall j Int :: {at(mem(result), result.off, j)} 0 <= j && j < len(result) ==> rtyp(at(mem(result), result.off, j)) != nil && rhas(cur(), v, at(mem(result), result.off, j))
  modifies nothing
}
macro tkeys(x) = unbox(x, "jsonutils.tMapKeys")
extern "sort.Sort" (x) {
  requires t: typeis(x, "jsonutils.tMapKeys") || typeis(x, "jsonutils.sStringSegments")
  ensures p: typeis(x, "jsonutils.tMapKeys") ==> forall j Int :: {at(mem(tkeys(x)), tkeys(x).off, j)} 0 <= j && j < len(tkeys(x)) ==> (exists i Int :: {at(old(mem(tkeys(x))), tkeys(x).off, i)} 0 <= i && i < len(tkeys(x)) && at(mem(tkeys(x)), tkeys(x).off, j) == at(old(mem(tkeys(x))), tkeys(x).off, i))
  modifies mem(tkeys(x))
}
extern "(reflect.Value).SetMapIndex" (v, k, e) {
  requires own: rown(v)
  requires nonpanic: rset(v) && tkind(rtyp(v)) == 21
  ensures n: nilkeep(old(nilg()), nilg())
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "reflect.MakeMap" (t) {
  requires nonpanic: tkind(t) == 21
  ensures typ: rtyp(result) == t && !select(nilg(), result)
  modifies nothing
}
extern "(reflect.Value).NumField" (v) {
  requires nonpanic: tkind(rtyp(v)) == 25
  ensures n: 0 <= result
  modifies nothing
}
extern "(reflect.Value).Field" (v, i) {
  ensures own: rown(v) ==> rown(result)
  requires nonpanic: tkind(rtyp(v)) == 25
  modifies nothing
}
extern "(reflect.Value).IsValid" (v) {
  ensures v: result <==> rtyp(v) != nil
  modifies nothing
}
extern "(reflect.Value).MethodByName" (v, n) {
  modifies nothing
}
extern "(reflect.Value).Call" (v, args) {
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "reflect.Type.Key" (t) {
  modifies nothing
}
extern "reflect.Type.Kind" (t) {
  ensures k: result == tkind(t)
  modifies nothing
}
extern "reflect.Type.Field" (t, i) {
  modifies nothing
}
extern "reflect.Type.Implements" (t, u) {
  modifies nothing
}
extern "reflect.Indirect" (v) {
  ensures own: rown(v) && (tkind(rtyp(v)) != 22 || !isjty(telem(rtyp(v))) || rnew(rvsrc(v)) || where() == v && rnew(what())) ==> rown(result)
  ensures p: tkind(rtyp(v)) == 22 && !select(nilg(), v) ==> rparent(result) == v && rtyp(result) == telem(rtyp(v)) && rtyp(result) != nil && (rexp(v) ==> rset(result)) && (nostd(v) ==> nostd(result))
  ensures n: tkind(rtyp(v)) != 22 ==> result == v
  modifies nothing
}
extern "gotypes.NewSerializable" (t) {
  modifies nothing
}
extern "(*reflectutils.SStructFieldInfo).MarshalName" (i) {
  requires nonpanic: i != nil
  ensures n: result == mname(i)
  modifies nothing
}
extern "reflectutils.FetchStructFieldValueSet" (v) {
  ensures n: 0 <= len(result) && len(result) == rnfld(cur(), v) && (cap(result) == 0 || fresh(result))
  allocates "mem$reflectutils.SStructFieldValue", "fld$reflectutils.SStructFieldInfo.Ignore", "fld$reflectutils.SStructFieldInfo.OmitEmpty", "fld$reflectutils.SStructFieldInfo.OmitFalse", "fld$reflectutils.SStructFieldInfo.OmitZero", "fld$reflectutils.SStructFieldInfo.ForceString", "fld$reflectutils.SStructFieldInfo.Tags", "mapd$string.string", "mapv$string.string", "mapl$string.string"
  ensures f: rexp(v) ==> (forall j Int :: {at(mem(result), result.off, j)} {rfld(cur(), v, j)} 0 <= j && j < len(result) ==> fval(result, j).Value == rfld(cur(), v, j) && rtyp(rfld(cur(), v, j)) != nil && rexp(rfld(cur(), v, j)) && (tkind(rtyp(rfld(cur(), v, j))) != 20 ==> dyn(select(cur(), rfld(cur(), v, j))) == rtyp(rfld(cur(), v, j))))
  ensures i: forall j Int :: {at(mem(result), result.off, j)} {rfld(cur(), v, j)} 0 <= j && j < len(result) ==> (let i = fval(result, j).Info in i != nil && 0 < i && i < next && 0 <= i.Tags && i.Tags < next && (i.Ignore <==> fign(cur(), v, j)) && (mapdom(i.Tags)["yunion-deprecated-by"] <==> fdep(cur(), v, j)) && (i.OmitZero <==> fomz(cur(), v, j)) && (i.OmitEmpty <==> fome(cur(), v, j)) && (i.OmitFalse <==> fomf(cur(), v, j)) && (i.ForceString <==> fstr(cur(), v, j)) && mname(i) == fname(cur(), v, j))
  ensures own: rown(v) ==> fown(result)
  modifies nothing
}
extern "(reflectutils.SStructFieldValueSet).GetStructFieldIndexesMap" (s) {
  modifies nothing
}
extern "(reflectutils.SStructFieldValueSet).GetStructFieldIndexes2" (s, k, strict) {
  modifies nothing
}

// further functions of the package, for code that would use them
extern "(reflect.Value).MapIndex" (v, k) {
  requires nonpanic: tkind(rtyp(v)) == 21
  ensures own: rown(v) ==> rown(result)
  ensures exp: rexp(v) ==> rexp(result)
  ensures held: tkind(rtyp(result)) != 20 ==> dyn(select(cur(), result)) == rtyp(result)
  ensures key: rhas(cur(), v, k) ==> rtyp(result) != nil
  ensures typ: rtyp(result) == nil || rtyp(result) == telem(rtyp(v))
  ensures std: nostd(v) ==> nostd(result)
  modifies nothing
}
extern "(reflect.Value).IsZero" (v) {
  requires nonpanic: rtyp(v) != nil
  modifies nothing
}
extern "reflect.Zero" (t) {
  requires nonpanic: t != nil
  ensures own: rown(result)
  ensures typ: rtyp(result) == t
  modifies nothing
}
extern "reflect.TypeOf" (x) {
  ensures typ: result == dyn(x) && (x != nil ==> result != nil)
  modifies nothing
}
extern "reflect.MakeMapWithSize" (t, n) {
  requires nonpanic: tkind(t) == 21
  ensures typ: rtyp(result) == t && !select(nilg(), result)
  modifies nothing
}
extern "reflect.PointerTo" (t) {
  requires nonpanic: t != nil
  ensures typ: result != nil && tkind(result) == 22 && telem(result) == t
  modifies nothing
}
extern "reflect.PtrTo" (t) {
  requires nonpanic: t != nil
  ensures typ: result != nil && tkind(result) == 22 && telem(result) == t
  modifies nothing
}
extern "reflect.Type.String" (t) {
  modifies nothing
}
extern "reflect.Type.PkgPath" (t) {
  modifies nothing
}
extern "reflect.Type.NumField" (t) {
  ensures n: 0 <= result
  modifies nothing
}
extern "reflect.Type.ConvertibleTo" (t, u) {
  modifies nothing
}
extern "reflect.Type.Comparable" (t) {
  modifies nothing
}
extern "reflect.Type.Len" (t) {
  ensures n: 0 <= result
  modifies nothing
}
extern "(reflect.Value).NumMethod" (v) {
  ensures n: 0 <= result
  modifies nothing
}
