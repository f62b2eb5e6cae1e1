// ---- what a text denotes, and that the parser returns it (C04) ----
use gram, docs
theory psd0 : doc, gram0 `
; h2 is as h at every address below hi for scalars, and in [lo, hi) for arrays
; and dictionaries, the storage at ex aside
(declare-fun vsame (H H Int Int Int) Bool)
(assert (forall ((g H) (h H) (lo Int) (hi Int) (ex Int)) (! (= (vsame g h lo hi ex) (and
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r hi)) (and
 (= (select (hS g) r) (select (hS h) r))
 (= (select (hI g) r) (select (hI h) r))
 (= (select (hF g) r) (select (hF h) r))
 (= (select (hFb g) r) (select (hFb h) r))
 (= (select (hB g) r) (select (hB h) r))))
 :pattern ((select (hS h) r)) :pattern ((select (hI h) r)) :pattern ((select (hF h) r)) :pattern ((select (hFb h) r)) :pattern ((select (hB h) r))))
 (forall ((r Int)) (! (=> (and (<= lo r) (< r hi)) (and
 (= (select (hA g) r) (select (hA h) r))
 (= (select (hD g) r) (select (hD h) r))
 (= (select (hN g) r) (select (hN h) r))
 (or (= r ex) (= (select (hMO g) r) (select (hMO h) r)))
 (or (= r ex) (= (select (hMI g) r) (select (hMI h) r)))))
 :pattern ((select (hA h) r)) :pattern ((select (hD h) r)) :pattern ((select (hN h) r)) :pattern ((select (hMO h) r)) :pattern ((select (hMI h) r))))))
 :pattern ((vsame g h lo hi ex)))))
`
// in heap h, x is the document the value at i denotes; its arrays and
// dictionaries lie in [lo, hi), their storage not at ex
spec opaque mv(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int) Bool =
  0 <= i && i < slen(s) && is(x, "iref") && 0 < jr(x) && jr(x) < hi && 1 <= jk(x) && jk(x) <= 7
  && (sat(s, i) == 34 ==> jk(x) == 1 && select(hS(h), jr(x)) == qval(s, 34, i+1, sempty))
  && (sat(s, i) != 34 && sat(s, i) != 91 && sat(s, i) != 123 ==>
      (let t = ssub(s, i, tend(s, i)) in
       (t == "null" ? jk(x) == 7 :
       (t == "true" ? jk(x) == 4 && select(hB(h), jr(x)) :
       (t == "false" ? jk(x) == 4 && !select(hB(h), jr(x)) :
       (pintok(t) ? jk(x) == 2 && select(hI(h), jr(x)) == pint(t) : jk(x) == 3 && select(hF(h), jr(x)) == pfval(t)))))))
  && (sat(s, i) == 91 ==> jk(x) == 5 && lo <= jr(x) && 0 <= alen(h, x) && 0 <= asl(h, x).base && asl(h, x).base < hi
      && alen(h, x) == gcnt(s, i+1)
      && (alen(h, x) > 0 ==> lo <= asl(h, x).base && asl(h, x).base != ex)
      && (forall k Int :: {ael(h, x, k)} {gael(s, i+1, k)} 0 <= k && k < alen(h, x) ==> gael(s, i+1, k) > i && mv(s, gael(s, i+1, k), h, ael(h, x, k), lo, hi, ex)))
  && (sat(s, i) == 123 ==> jk(x) == 6 && lo <= jr(x) && 0 <= dlen(h, x) && lo <= dsl(h, x).base && dsl(h, x).base < hi && dsl(h, x).base != ex
      && dsorted(h, x) && select(hN(h), jr(x)) <= 0
      && (forall q Str :: {dfind(h, x, q)} {glast(s, i+1, q)} (dfind(h, x, q) >= 0 <==> glast(s, i+1, q) >= 0) && (dfind(h, x, q) >= 0 ==> glast(s, i+1, q) > i && mv(s, glast(s, i+1, q), h, dget(h, x, q), lo, hi, ex))))
use gram, docs, psd0
lemma mv_frame0(s Str, i Int, h H, h2 H, x Iface, lo Int, hi Int, ex Int, lo2 Int, hi2 Int, ex2 Int) {
  requires vsame(h, h2, lo, hi, ex) && lo2 <= lo && hi <= hi2 && (ex2 == ex || ex2 < lo || ex2 >= hi) && 0 <= lo
  requires mv(s, i, h, x, lo, hi, ex)
  ensures mv(s, i, h2, x, lo2, hi2, ex2)
  useall k Int {ael(h2, x, k)} {gael(s, i+1, k)} mv_frame0(s, gael(s, i+1, k), h, h2, ael(h, x, k), lo, hi, ex, lo2, hi2, ex2) when gael(s, i+1, k) > i
  useall q Str {dfind(h2, x, q)} {glast(s, i+1, q)} mv_frame0(s, glast(s, i+1, q), h, h2, dget(h, x, q), lo, hi, ex, lo2, hi2, ex2) when glast(s, i+1, q) > i
  decreases slen(s) - i
}
lemma mv_frame(s Str, i Int, h H, h2 H, x Iface, lo Int, hi Int, ex Int, lo2 Int, hi2 Int, ex2 Int) {
  trigger mv(s, i, h, x, lo, hi, ex), mv(s, i, h2, x, lo2, hi2, ex2)
  requires vsame(h, h2, lo, hi, ex) && lo2 <= lo && hi <= hi2 && (ex2 == ex || ex2 < lo || ex2 >= hi) && 0 <= lo
  requires mv(s, i, h, x, lo, hi, ex)
  ensures mv(s, i, h2, x, lo2, hi2, ex2)
  use mv_frame0(s, i, h, h2, x, lo, hi, ex, lo2, hi2, ex2)
}
lemma mv_flat(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int) {
  trigger mv(s, i, h, x, lo, hi, ex)
  requires 0 <= i && i < slen(s) && sat(s, i) != 91 && sat(s, i) != 123
  ensures mv(s, i, h, x, lo, hi, ex) <==> (is(x, "iref") && 0 < jr(x) && jr(x) < hi && 1 <= jk(x) && jk(x) <= 7
  && (sat(s, i) == 34 ==> jk(x) == 1 && select(hS(h), jr(x)) == qval(s, 34, i+1, sempty))
  && (sat(s, i) != 34 ==>
      (let t = ssub(s, i, tend(s, i)) in
       (t == "null" ? jk(x) == 7 :
       (t == "true" ? jk(x) == 4 && select(hB(h), jr(x)) :
       (t == "false" ? jk(x) == 4 && !select(hB(h), jr(x)) :
       (pintok(t) ? jk(x) == 2 && select(hI(h), jr(x)) == pint(t) : jk(x) == 3 && select(hF(h), jr(x)) == pfval(t))))))))
}
lemma mv_arr(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int, j Int) {
  trigger mv(s, i, h, x, lo, hi, ex), gcnt(s, j)
  requires 0 <= i && i < slen(s) && sat(s, i) == 91 && j == i + 1
  ensures mv(s, i, h, x, lo, hi, ex) <==> (is(x, "iref") && 0 < jr(x) && jr(x) < hi && jk(x) == 5 && lo <= jr(x) && 0 <= alen(h, x) && 0 <= asl(h, x).base && asl(h, x).base < hi
      && alen(h, x) == gcnt(s, j)
      && (alen(h, x) > 0 ==> lo <= asl(h, x).base && asl(h, x).base != ex)
      && (forall k Int :: {ael(h, x, k)} {gael(s, j, k)} 0 <= k && k < alen(h, x) ==> gael(s, j, k) > i && mv(s, gael(s, j, k), h, ael(h, x, k), lo, hi, ex)))
}
lemma mv_dict(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int, j Int) {
  trigger mv(s, i, h, x, lo, hi, ex), gd(s, j)
  requires 0 <= i && i < slen(s) && sat(s, i) == 123 && j == i + 1
  ensures mv(s, i, h, x, lo, hi, ex) <==> (is(x, "iref") && 0 < jr(x) && jr(x) < hi && jk(x) == 6 && lo <= jr(x) && 0 <= dlen(h, x) && lo <= dsl(h, x).base && dsl(h, x).base < hi && dsl(h, x).base != ex
      && dsorted(h, x) && select(hN(h), jr(x)) <= 0
      && (forall q Str :: {dfind(h, x, q)} {glast(s, j, q)} (dfind(h, x, q) >= 0 <==> glast(s, j, q) >= 0) && (dfind(h, x, q) >= 0 ==> glast(s, j, q) > i && mv(s, glast(s, j, q), h, dget(h, x, q), lo, hi, ex))))
}
// such a document is a finite acyclic document
lemma mv_doc(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int, n Int) {
  use mfind_char
  requires mv(s, i, h, x, lo, hi, ex) && 0 <= lo && slen(s) - i <= n
  ensures doc(h, hi, x, n)
  useall k Int {ael(h, x, k)} mv_doc(s, gael(s, i+1, k), h, ael(h, x, k), lo, hi, ex, n-1) when gael(s, i+1, k) > i
  useall q Str {dfind(h, x, q)} mv_doc(s, glast(s, i+1, q), h, dget(h, x, q), lo, hi, ex, n-1) when glast(s, i+1, q) > i
  assert forall j Int :: {dval(h, x, j)} {dkey(h, x, j)} jk(x) == 6 && 0 <= j && j < dlen(h, x) ==> dfind(h, x, dkey(h, x, j)) == j && dget(h, x, dkey(h, x, j)) == dval(h, x, j)
  decreases n
}
lemma mv_isdoc(s Str, i Int, h H, x Iface, lo Int, hi Int, ex Int) {
  requires mv(s, i, h, x, lo, hi, ex) && 0 <= lo
  ensures isdoc(h, hi, x)
  use mv_doc(s, i, h, x, lo, hi, ex, slen(s) - i)
  use rank_def(h, hi, x, slen(s) - i)
}
theory parsed : psd0, gram, docs, mv_frame, mv_flat, mv_arr, mv_dict ` `
