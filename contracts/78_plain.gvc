// ---- plain Go views (C24) ----
use docs, eqs
theory plain0 : doc `
(define-fun isgslice ((v Iface)) Bool (and ((_ is iopq) v) (= (iot v) 13) (= v (iopq 13 (box_Slice (unbox_Slice (iov v)))))))
(define-fun gslice ((v Iface)) Slice (unbox_Slice (iov v)))
(define-fun isgmap ((v Iface)) Bool (and ((_ is iref) v) (= (it v) 14)))
(define-fun gint ((i Int)) Iface (iint 9 i))
(define-fun gbool ((b Bool)) Iface (ibool 10 b))
(define-fun gflt ((f Flt)) Iface (iflt 11 f))
(define-fun gstr ((s Str)) Iface (istr 12 s))
(declare-fun psame ((Array Int (Array Int Iface)) (Array Int (Array Str Bool)) (Array Int (Array Str Iface)) (Array Int (Array Int Iface)) (Array Int (Array Str Bool)) (Array Int (Array Str Iface)) Int Int) Bool)
(assert (forall ((mi (Array Int (Array Int Iface))) (md (Array Int (Array Str Bool))) (mv (Array Int (Array Str Iface))) (mi2 (Array Int (Array Int Iface))) (md2 (Array Int (Array Str Bool))) (mv2 (Array Int (Array Str Iface))) (lo Int) (hi Int)) (!
 (= (psame mi md mv mi2 md2 mv2 lo hi) (forall ((r Int)) (! (=> (and (<= lo r) (< r hi)) (and (= (select mi r) (select mi2 r)) (= (select md r) (select md2 r)) (= (select mv r) (select mv2 r)))) :pattern ((select mi2 r)) :pattern ((select md2 r)) :pattern ((select mv2 r)))))
 :pattern ((psame mi md mv mi2 md2 mv2 lo hi)))))
`
use docs, eqs, plain0
// v is the plain Go view of the document x; its slices and maps lie in [lo, hi)
spec opaque gview(h H, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int, n Int) Bool =
  n > 0
  && (jk(x) == 7 ==> v == nil)
  && (jk(x) == 4 ==> v == gbool(select(hB(h), jr(x))))
  && (jk(x) == 2 ==> v == gint(select(hI(h), jr(x))))
  && (jk(x) == 3 ==> v == gflt(select(hF(h), jr(x))))
  && (jk(x) == 1 ==> v == gstr(select(hS(h), jr(x))))
  && (jk(x) == 5 ==> isgslice(v) && lo <= gslice(v).base && gslice(v).base < hi && len(gslice(v)) == alen(h, x) && (forall i Int :: {ael(h, x, i)} {at(select(mi, gslice(v).base), gslice(v).off, i)} 0 <= i && i < alen(h, x) ==> gview(h, ael(h, x, i), mi, md, mv, at(select(mi, gslice(v).base), gslice(v).off, i), lo, hi, n-1)))
  && (jk(x) == 6 ==> isgmap(v) && lo <= ir(v) && ir(v) < hi && (forall k Str :: {dfind(h, x, k)} {select(select(md, ir(v)), k)} (select(select(md, ir(v)), k) <==> dfind(h, x, k) >= 0) && (dfind(h, x, k) >= 0 ==> gview(h, dget(h, x, k), mi, md, mv, select(select(mv, ir(v)), k), lo, hi, n-1))))
spec rgv(h H, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int) Bool = gview(h, x, mi, md, mv, v, lo, hi, rank(h, x))
lemma gview_fuel(h H, b Int, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int, n Int, m Int) {
  requires doc(h, b, x, n) && doc(h, b, x, m)
  ensures gview(h, x, mi, md, mv, v, lo, hi, n) == gview(h, x, mi, md, mv, v, lo, hi, m)
  use doc_get
  useall i Int {ael(h, x, i)} {at(select(mi, gslice(v).base), gslice(v).off, i)} gview_fuel(h, b, ael(h, x, i), mi, md, mv, at(select(mi, gslice(v).base), gslice(v).off, i), lo, hi, n-1, m-1)
  useall k Str {dfind(h, x, k)} {select(select(md, ir(v)), k)} gview_fuel(h, b, dget(h, x, k), mi, md, mv, select(select(mv, ir(v)), k), lo, hi, n-1, m-1)
  decreases n
}
lemma gview_frame(h H, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, mi2 `(Array Int (Array Int Iface))`, md2 `(Array Int (Array Str Bool))`, mv2 `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int, lo2 Int, hi2 Int, n Int) {
  requires psame(mi, md, mv, mi2, md2, mv2, lo, hi) && lo2 <= lo && hi <= hi2
  requires gview(h, x, mi, md, mv, v, lo, hi, n)
  ensures gview(h, x, mi2, md2, mv2, v, lo2, hi2, n)
  useall i Int {ael(h, x, i)} {at(select(mi2, gslice(v).base), gslice(v).off, i)} gview_frame(h, ael(h, x, i), mi, md, mv, mi2, md2, mv2, at(select(mi, gslice(v).base), gslice(v).off, i), lo, hi, lo2, hi2, n-1)
  useall k Str {dfind(h, x, k)} {select(select(md2, ir(v)), k)} gview_frame(h, dget(h, x, k), mi, md, mv, mi2, md2, mv2, select(select(mv, ir(v)), k), lo, hi, lo2, hi2, n-1)
  decreases n
}
lemma rgv_frame(h H, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, mi2 `(Array Int (Array Int Iface))`, md2 `(Array Int (Array Str Bool))`, mv2 `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int, lo2 Int, hi2 Int) {
  trigger rgv(h, x, mi, md, mv, v, lo, hi), rgv(h, x, mi2, md2, mv2, v, lo2, hi2)
  requires psame(mi, md, mv, mi2, md2, mv2, lo, hi) && lo2 <= lo && hi <= hi2
  requires rgv(h, x, mi, md, mv, v, lo, hi)
  ensures rgv(h, x, mi2, md2, mv2, v, lo2, hi2)
  use gview_frame(h, x, mi, md, mv, mi2, md2, mv2, v, lo, hi, lo2, hi2, rank(h, x))
}
lemma rgv_flat(h H, b Int, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int) {
  trigger rgv(h, x, mi, md, mv, v, lo, hi), isdoc(h, b, x)
  requires isdoc(h, b, x)
  ensures jk(x) == 7 ==> (rgv(h, x, mi, md, mv, v, lo, hi) <==> v == nil)
  ensures jk(x) == 4 ==> (rgv(h, x, mi, md, mv, v, lo, hi) <==> v == gbool(select(hB(h), jr(x))))
  ensures jk(x) == 2 ==> (rgv(h, x, mi, md, mv, v, lo, hi) <==> v == gint(select(hI(h), jr(x))))
  ensures jk(x) == 3 ==> (rgv(h, x, mi, md, mv, v, lo, hi) <==> v == gflt(select(hF(h), jr(x))))
  ensures jk(x) == 1 ==> (rgv(h, x, mi, md, mv, v, lo, hi) <==> v == gstr(select(hS(h), jr(x))))
}
lemma rgv_arr(h H, b Int, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int) {
  trigger rgv(h, x, mi, md, mv, v, lo, hi), isdoc(h, b, x)
  requires isdoc(h, b, x) && jk(x) == 5
  ensures rgv(h, x, mi, md, mv, v, lo, hi) <==> (isgslice(v) && lo <= gslice(v).base && gslice(v).base < hi && len(gslice(v)) == alen(h, x) && (forall i Int :: {ael(h, x, i)} {at(select(mi, gslice(v).base), gslice(v).off, i)} 0 <= i && i < alen(h, x) ==> rgv(h, ael(h, x, i), mi, md, mv, at(select(mi, gslice(v).base), gslice(v).off, i), lo, hi)))
  use rank_def
  use isdoc_elem
  useall i Int {ael(h, x, i)} {at(select(mi, gslice(v).base), gslice(v).off, i)} gview_fuel(h, b, ael(h, x, i), mi, md, mv, at(select(mi, gslice(v).base), gslice(v).off, i), lo, hi, rank(h, x)-1, rank(h, ael(h, x, i)))
}
lemma rgv_dict(h H, b Int, x Iface, mi `(Array Int (Array Int Iface))`, md `(Array Int (Array Str Bool))`, mv `(Array Int (Array Str Iface))`, v Iface, lo Int, hi Int) {
  trigger rgv(h, x, mi, md, mv, v, lo, hi), isdoc(h, b, x)
  requires isdoc(h, b, x) && jk(x) == 6
  ensures rgv(h, x, mi, md, mv, v, lo, hi) <==> (isgmap(v) && lo <= ir(v) && ir(v) < hi && (forall k Str :: {dfind(h, x, k)} {select(select(md, ir(v)), k)} (select(select(md, ir(v)), k) <==> dfind(h, x, k) >= 0) && (dfind(h, x, k) >= 0 ==> rgv(h, dget(h, x, k), mi, md, mv, select(select(mv, ir(v)), k), lo, hi))))
  use rank_def
  use doc_get
  useall k Str {dfind(h, x, k)} {select(select(md, ir(v)), k)} gview_fuel(h, b, dget(h, x, k), mi, md, mv, select(select(mv, ir(v)), k), lo, hi, rank(h, x)-1, rank(h, dget(h, x, k)))
}
theory plain : plain0, docs, rgv_frame, rgv_flat, rgv_arr, rgv_dict ` `
use plain, docs, mfind_char, mfind_step, mfind_zero, m_split
macro GVL(x, v, lo) = rgv(old(hash()), x, comp("mem$interface__"), comp("mapd$string.interface__"), comp("mapv$string.interface__"), v, lo, next)
macro GV(x, v) = rgv(old(hash()), x, comp("mem$interface__"), comp("mapd$string.interface__"), comp("mapv$string.interface__"), v, old(next), next)
iface "JSONObject.Interface" (this) {
  requires d: isdoc(hash(), next, this)
  ensures v: GV(this, result)
  modifies nothing
  decreases rank(hash(), this)
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray).Interface" (this) {
  invariant el: forall j Int :: {ael(old(hash()), this, j)} {ret[j]} 0 <= j && j < i ==> GVL(ael(old(hash()), this, j), ret[j], ret.base + 1)
  invariant b: 0 <= i && i <= alen(old(hash()), this)
  decreases loop 0 alen(old(hash()), this) - i
}
impl "(*JSONDict).Interface" (this) {
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == dsl(old(hash()), this)
  invariant dom: forall k Str :: {mapdom(mapping)[k]} {mfind(mem(iter.smap), iter.smap.off, iter.index, k)} mapdom(mapping)[k] <==> mfind(mem(iter.smap), iter.smap.off, iter.index, k) >= 0
  invariant val: forall k Str :: {mapdom(mapping)[k]} {mfind(mem(iter.smap), iter.smap.off, iter.index, k)} mapdom(mapping)[k] ==> GVL(mget(mem(iter.smap), iter.smap.off, iter.index, k), mapval(mapping)[k], mapping + 1)
  decreases loop 0 len(iter.smap) - iter.index
}
property C24 {
  funcs "JSONObject.Interface"
  safety termination
}
