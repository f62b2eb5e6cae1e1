// ---- deep copies (C13) ----
use docs, eqs
theory dcp0 : doc `
; h2 is as h in the addresses [lo, hi), the storage at ex aside
(declare-fun hsame (H H Int Int Int) Bool)
(assert (forall ((g H) (h H) (lo Int) (hi Int) (ex Int)) (! (= (hsame g h lo hi ex) (forall ((r Int)) (! (=> (and (<= lo r) (< r hi)) (and
 (= (select (hS g) r) (select (hS h) r))
 (= (select (hI g) r) (select (hI h) r))
 (= (select (hF g) r) (select (hF h) r))
 (= (select (hFb g) r) (select (hFb h) r))
 (= (select (hB g) r) (select (hB h) r))
 (= (select (hA g) r) (select (hA h) r))
 (= (select (hD g) r) (select (hD h) r))
 (or (= r ex) (and (= (select (hMO g) r) (select (hMO h) r)) (= (select (hMI g) r) (select (hMI h) r))))))
 :pattern ((select (hS h) r)) :pattern ((select (hI h) r)) :pattern ((select (hF h) r)) :pattern ((select (hFb h) r)) :pattern ((select (hB h) r)) :pattern ((select (hA h) r)) :pattern ((select (hD h) r)) :pattern ((select (hMO h) r)) :pattern ((select (hMI h) r)))))
 :pattern ((hsame g h lo hi ex)))))
`
use docs, eqs, dcp0
// y in heap h has the content of x in heap g; its nodes (nulls aside, which
// hold nothing) and their storage lie in [lo, hi), no storage at ex
spec opaque dcp(g H, x Iface, h H, y Iface, lo Int, hi Int, ex Int, n Int) Bool =
  n > 0 && is(y, "iref") && jk(x) == jk(y) && 1 <= jk(y) && jk(y) <= 7 && 0 < jr(y) && jr(y) < hi && (jk(y) != 7 ==> lo <= jr(y))
  && (jk(x) == 1 ==> select(hS(g), jr(x)) == select(hS(h), jr(y)))
  && (jk(x) == 2 ==> select(hI(g), jr(x)) == select(hI(h), jr(y)))
  && (jk(x) == 3 ==> select(hF(g), jr(x)) == select(hF(h), jr(y)) && select(hFb(g), jr(x)) == select(hFb(h), jr(y)))
  && (jk(x) == 4 ==> (select(hB(g), jr(x)) <==> select(hB(h), jr(y))))
  && (jk(x) == 5 ==> lo <= asl(h, y).base && asl(h, y).base < hi && asl(h, y).base != ex && alen(g, x) == alen(h, y) && (forall i Int :: {ael(g, x, i)} {ael(h, y, i)} 0 <= i && i < alen(g, x) ==> dcp(g, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, n-1)))
  && (jk(x) == 6 ==> lo <= dsl(h, y).base && dsl(h, y).base < hi && dsl(h, y).base != ex && 0 <= dlen(h, y) && dsorted(h, y) && (forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} (dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0) && (dfind(g, x, k) >= 0 ==> dcp(g, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, n-1))))
spec rdc(g H, x Iface, h H, y Iface, lo Int, hi Int, ex Int) Bool = dcp(g, x, h, y, lo, hi, ex, rank(g, x))
lemma dcp_fuel(g H, b Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int, n Int, m Int) {
  requires doc(g, b, x, n) && doc(g, b, x, m)
  ensures dcp(g, x, h, y, lo, hi, ex, n) == dcp(g, x, h, y, lo, hi, ex, m)
  use doc_get
  useall i Int {ael(g, x, i)} {ael(h, y, i)} dcp_fuel(g, b, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, n-1, m-1)
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} dcp_fuel(g, b, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, n-1, m-1)
  decreases n
}
lemma dcp_frame(g H, x Iface, h H, h2 H, y Iface, lo Int, hi Int, ex Int, lo2 Int, hi2 Int, ex2 Int, n Int) {
  requires hsame(h, h2, lo, hi, ex) && lo2 <= lo && hi <= hi2 && (ex2 == ex || ex2 < lo || ex2 >= hi)
  requires dcp(g, x, h, y, lo, hi, ex, n)
  ensures dcp(g, x, h2, y, lo2, hi2, ex2, n)
  useall i Int {ael(g, x, i)} {ael(h2, y, i)} dcp_frame(g, ael(g, x, i), h, h2, ael(h, y, i), lo, hi, ex, lo2, hi2, ex2, n-1)
  useall k Str {dfind(g, x, k)} {dfind(h2, y, k)} dcp_frame(g, dget(g, x, k), h, h2, dget(h, y, k), lo, hi, ex, lo2, hi2, ex2, n-1)
  decreases n
}
lemma rdc_frame(g H, x Iface, h H, h2 H, y Iface, lo Int, hi Int, ex Int, lo2 Int, hi2 Int, ex2 Int) {
  trigger rdc(g, x, h, y, lo, hi, ex), rdc(g, x, h2, y, lo2, hi2, ex2)
  requires hsame(h, h2, lo, hi, ex) && lo2 <= lo && hi <= hi2 && (ex2 == ex || ex2 < lo || ex2 >= hi)
  requires rdc(g, x, h, y, lo, hi, ex)
  ensures rdc(g, x, h2, y, lo2, hi2, ex2)
  use dcp_frame(g, x, h, h2, y, lo, hi, ex, lo2, hi2, ex2, rank(g, x))
}
lemma dcp_src(g H, g2 H, b Int, c Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int, n Int) {
  requires agree(g, g2, b) && c <= b && doc(g, c, x, n)
  ensures dcp(g, x, h, y, lo, hi, ex, n) == dcp(g2, x, h, y, lo, hi, ex, n)
  use doc_get
  useall i Int {ael(g, x, i)} {ael(h, y, i)} dcp_src(g, g2, b, c, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, n-1)
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} dcp_src(g, g2, b, c, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, n-1)
  decreases n
}
lemma rdc_src(g H, g2 H, b Int, c Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int) {
  trigger agree(g, g2, b), rdc(g2, x, h, y, lo, hi, ex), isdoc(g, c, x)
  requires agree(g, g2, b) && c <= b && isdoc(g, c, x)
  ensures rdc(g2, x, h, y, lo, hi, ex) == rdc(g, x, h, y, lo, hi, ex)
  use isdoc_frame(g, g2, b, c, x)
  use dcp_src(g, g2, b, c, x, h, y, lo, hi, ex, rank(g, x))
}
lemma rdc_flat(g H, b Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int) {
  trigger rdc(g, x, h, y, lo, hi, ex), isdoc(g, b, x)
  requires isdoc(g, b, x)
  ensures rdc(g, x, h, y, lo, hi, ex) ==> is(y, "iref") && jk(x) == jk(y) && 0 < jr(y) && jr(y) < hi && (jk(y) != 7 ==> lo <= jr(y))
  ensures is(y, "iref") && jk(x) == jk(y) && 0 < jr(y) && jr(y) < hi && (jk(y) != 7 ==> lo <= jr(y)) ==>
    (jk(x) == 1 ==> (rdc(g, x, h, y, lo, hi, ex) <==> select(hS(g), jr(x)) == select(hS(h), jr(y))))
    && (jk(x) == 2 ==> (rdc(g, x, h, y, lo, hi, ex) <==> select(hI(g), jr(x)) == select(hI(h), jr(y))))
    && (jk(x) == 3 ==> (rdc(g, x, h, y, lo, hi, ex) <==> select(hF(g), jr(x)) == select(hF(h), jr(y)) && select(hFb(g), jr(x)) == select(hFb(h), jr(y))))
    && (jk(x) == 4 ==> (rdc(g, x, h, y, lo, hi, ex) <==> (select(hB(g), jr(x)) <==> select(hB(h), jr(y)))))
    && (jk(x) == 7 ==> rdc(g, x, h, y, lo, hi, ex))
}
lemma rdc_arr(g H, b Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int) {
  trigger rdc(g, x, h, y, lo, hi, ex), isdoc(g, b, x)
  requires isdoc(g, b, x) && jk(x) == 5
  ensures rdc(g, x, h, y, lo, hi, ex) <==> (is(y, "iref") && jk(y) == 5 && 0 < jr(y) && jr(y) < hi && lo <= jr(y) && lo <= asl(h, y).base && asl(h, y).base < hi && asl(h, y).base != ex && alen(g, x) == alen(h, y) && (forall i Int :: {ael(g, x, i)} {ael(h, y, i)} 0 <= i && i < alen(g, x) ==> rdc(g, ael(g, x, i), h, ael(h, y, i), lo, hi, ex)))
  use rank_def
  use isdoc_elem
  useall i Int {ael(g, x, i)} {ael(h, y, i)} dcp_fuel(g, b, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, rank(g, x)-1, rank(g, ael(g, x, i)))
}
lemma rdc_dict(g H, b Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int) {
  trigger rdc(g, x, h, y, lo, hi, ex), isdoc(g, b, x)
  requires isdoc(g, b, x) && jk(x) == 6
  ensures rdc(g, x, h, y, lo, hi, ex) <==> (is(y, "iref") && jk(y) == 6 && 0 < jr(y) && jr(y) < hi && lo <= jr(y) && lo <= dsl(h, y).base && dsl(h, y).base < hi && dsl(h, y).base != ex && 0 <= dlen(h, y) && dsorted(h, y) && (forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} (dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0) && (dfind(g, x, k) >= 0 ==> rdc(g, dget(g, x, k), h, dget(h, y, k), lo, hi, ex))))
  use rank_def
  use doc_get
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} dcp_fuel(g, b, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, rank(g, x)-1, rank(g, dget(g, x, k)))
}
// what the relation means: same content, a document, made of new nodes only
lemma dcp_eq(g H, x Iface, h H, y Iface, lo Int, hi Int, ex Int, n Int) {
  requires dcp(g, x, h, y, lo, hi, ex, n)
  ensures deqn(true, g, x, h, y, n)
  useall i Int {ael(g, x, i)} {ael(h, y, i)} dcp_eq(g, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, n-1)
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} dcp_eq(g, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, n-1)
  decreases n
}
lemma rdc_eq(g H, b Int, x Iface, h H, y Iface, lo Int, hi Int, ex Int) {
  requires rdc(g, x, h, y, lo, hi, ex)
  ensures deq(true, g, x, h, y)
  use dcp_eq(g, x, h, y, lo, hi, ex, rank(g, x))
}
lemma dcp_doc(g H, x Iface, h H, y Iface, lo Int, hi Int, ex Int, n Int) {
  requires dcp(g, x, h, y, lo, hi, ex, n) && lo >= 0 && (forall i Int :: {ael(g, x, i)} true)
  requires doc(g, hi, x, n)
  ensures doc(h, hi, y, n)
  use mfind_char, doc_get
  useall i Int {ael(h, y, i)} dcp_doc(g, ael(g, x, i), h, ael(h, y, i), lo, hi, ex, n-1)
  useall k Str {dfind(h, y, k)} dcp_doc(g, dget(g, x, k), h, dget(h, y, k), lo, hi, ex, n-1)
  assert forall i Int :: {dval(h, y, i)} {dkey(h, y, i)} jk(y) == 6 && 0 <= i && i < dlen(h, y) ==> dfind(h, y, dkey(h, y, i)) == i && dget(h, y, dkey(h, y, i)) == dval(h, y, i)
  decreases n
}
theory dcps : dcp0, docs, rdc_frame, rdc_src, rdc_flat, rdc_arr, rdc_dict ` `
use docs, paths, dcps, rkinds, dyn_of, mfind_char
func "DeepCopy" (obj) {
  requires d: obj == nil || isdoc(hash(), next, obj)
  ensures nil: obj == nil ==> result == nil
  ensures copy: obj != nil ==> rdc(old(hash()), obj, hash(), result, old(next), next, 0-1)
  modifies nothing
  decreases obj == nil ? 0 : rank(hash(), obj)
  invariant el: forall j Int :: {elemsC[j]} {ael(old(hash()), obj, j)} 0 <= j && j < i ==> rdc(old(hash()), ael(old(hash()), obj, j), hash(), elemsC[j], elemsC.base + 1, next, 0-1)
  invariant b: 0 <= i && i <= alen(old(hash()), obj)
  decreases loop 0 alen(old(hash()), obj) - i
  invariant own: fresh(vc) && fresh(vc.data) && d_ok(vc) && 0 <= len(vc.data)
  invariant keys: forall k Str :: {d_find(vc, k)} {select(select(comp("iter$Str"), mapiter), k)} d_has(vc, k) <==> select(select(comp("iter$Str"), mapiter), k)
  invariant dom: forall k Str :: {d_find(vc, k)} d_has(vc, k) ==> mapdom(itermap)[k]
  invariant vals: forall k Str :: {d_find(vc, k)} {dfind(old(hash()), obj, k)} d_has(vc, k) ==> rdc(old(hash()), dget(old(hash()), obj, k), hash(), d_get(vc, k), vc + 1, next, vc.data.base)
  // for a loop that appends to a list, or to the list of a new array
  invariant loop 9 app: len(vs) == ix && 0 <= ix && ix <= alen(old(hash()), obj) && fresh(vs) && (forall j Int :: {vs[j]} {ael(old(hash()), obj, j)} 0 <= j && j < ix ==> rdc(old(hash()), ael(old(hash()), obj, j), hash(), vs[j], old(next), next, vs.base))
  invariant loop 9 arr: len(arr.data) == ix && 0 <= ix && ix <= alen(old(hash()), obj) && fresh(arr) && fresh(arr.data) && (forall j Int :: {at(mem(arr.data), arr.data.off, j)} {ael(old(hash()), obj, j)} 0 <= j && j < ix ==> rdc(old(hash()), ael(old(hash()), obj, j), hash(), at(mem(arr.data), arr.data.off, j), arr + 1, next, arr.data.base))
  // for a loop over the entries in their order
  invariant loop 9 ikeys: forall k Str :: {d_find(vc, k)} {dfind(old(hash()), obj, k)} d_has(vc, k) <==> (0 <= dfind(old(hash()), obj, k) && dfind(old(hash()), obj, k) < iter.index)
}
property C13 {
  funcs "DeepCopy"
  lemmas rdc_eq, dcp_doc
  safety termination
}
