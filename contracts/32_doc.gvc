// ---- documents ----
// doc(h, b, x, n): in heap h, x is the root of a document of height at most n
// all of whose nodes lie below address b (pointers to node ids excluded)
use doc
theory doc : json, smap `
(define-fun jk ((x Iface)) Int (ite ((_ is iref) x) (it x) 0))
(define-fun jr ((x Iface)) Int (ir x))
; least height of the document at x; see axiom rank_def
(declare-fun rank (H Iface) Int)
(declare-fun mention (Bool) Bool)
; g and h agree on everything below address b
(declare-fun agree (H H Int) Bool)
(assert (forall ((g H) (h H) (b Int)) (! (= (agree g h b) (and
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hS g) r) (select (hS h) r))) :pattern ((select (hS g) r)) :pattern ((select (hS h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hI g) r) (select (hI h) r))) :pattern ((select (hI g) r)) :pattern ((select (hI h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hF g) r) (select (hF h) r))) :pattern ((select (hF g) r)) :pattern ((select (hF h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hFb g) r) (select (hFb h) r))) :pattern ((select (hFb g) r)) :pattern ((select (hFb h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hB g) r) (select (hB h) r))) :pattern ((select (hB g) r)) :pattern ((select (hB h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hA g) r) (select (hA h) r))) :pattern ((select (hA g) r)) :pattern ((select (hA h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hD g) r) (select (hD h) r))) :pattern ((select (hD g) r)) :pattern ((select (hD h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hN g) r) (select (hN h) r))) :pattern ((select (hN g) r)) :pattern ((select (hN h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hMO g) r) (select (hMO h) r))) :pattern ((select (hMO g) r)) :pattern ((select (hMO h) r))))
 (forall ((r Int)) (! (=> (and (<= 0 r) (< r b)) (= (select (hMI g) r) (select (hMI h) r))) :pattern ((select (hMI g) r)) :pattern ((select (hMI h) r))))))
 :pattern ((agree g h b)))))
`
// scalar contents, elements of arrays, entries of dictionaries
spec asl(h H, x Iface) Slice = select(hA(h), jr(x))
spec dsl(h H, x Iface) Slice = select(hD(h), jr(x))
spec alen(h H, x Iface) Int = len(asl(h, x))
spec dlen(h H, x Iface) Int = len(dsl(h, x))
spec ael(h H, x Iface, i Int) Iface = at(select(hMO(h), asl(h, x).base), asl(h, x).off, i)
spec dval(h H, x Iface, i Int) Iface = ival(at(select(hMI(h), dsl(h, x).base), dsl(h, x).off, i))
spec dkey(h H, x Iface, i Int) Str = ikey(at(select(hMI(h), dsl(h, x).base), dsl(h, x).off, i))
spec dfind(h H, x Iface, k Str) Int = mfind(select(hMI(h), dsl(h, x).base), dsl(h, x).off, dlen(h, x), k)
spec dget(h H, x Iface, k Str) Iface = mget(select(hMI(h), dsl(h, x).base), dsl(h, x).off, dlen(h, x), k)
spec dsorted(h H, x Iface) Bool = msorted(select(hMI(h), dsl(h, x).base), dsl(h, x).off, dlen(h, x))
spec opaque doc(h H, b Int, x Iface, n Int) Bool =
  n > 0 && is(x, "iref") && 1 <= jk(x) && jk(x) <= 7 && 0 < jr(x) && jr(x) < b
  && (jk(x) == 5 ==> 0 <= asl(h, x).base && asl(h, x).base < b && 0 <= alen(h, x) && (forall i Int :: {ael(h, x, i)} 0 <= i && i < alen(h, x) ==> doc(h, b, ael(h, x, i), n-1)))
  && (jk(x) == 6 ==> 0 <= dsl(h, x).base && dsl(h, x).base < b && 0 <= dlen(h, x) && dsorted(h, x) && (forall i Int :: {dval(h, x, i)} {dkey(h, x, i)} 0 <= i && i < dlen(h, x) ==> doc(h, b, dval(h, x, i), n-1)))
spec isdoc(h H, b Int, x Iface) Bool = doc(h, b, x, rank(h, x))
// rank(h, x) is the least height, so every height bound is a bound on it
axiom rank_def(h H, b Int, x Iface, n Int) {
  trigger doc(h, b, x, n)
  requires doc(h, b, x, n)
  ensures doc(h, b, x, rank(h, x)) && rank(h, x) <= n
}
lemma doc_mono(h H, b Int, c Int, x Iface, n Int, m Int) {
  requires doc(h, b, x, n) && n <= m && b <= c
  ensures doc(h, c, x, m)
  useall i Int {ael(h, x, i)} doc_mono(h, b, c, ael(h, x, i), n-1, m-1)
  useall i Int {dval(h, x, i)} doc_mono(h, b, c, dval(h, x, i), n-1, m-1)
  decreases n
}
lemma doc_frame(g H, h H, b Int, c Int, x Iface, n Int) {
  requires agree(g, h, b) && c <= b && doc(g, c, x, n)
  ensures doc(h, c, x, n)
  useall i Int {ael(g, x, i)} doc_frame(g, h, b, c, ael(g, x, i), n-1)
  useall i Int {dval(g, x, i)} doc_frame(g, h, b, c, dval(g, x, i), n-1)
  decreases n
}
lemma agree_sym(g H, h H, b Int) {
  requires agree(g, h, b)
  ensures agree(h, g, b)
}
lemma isdoc_frame(g H, h H, b Int, c Int, x Iface) {
  trigger agree(g, h, b), isdoc(g, c, x)
  requires agree(g, h, b) && c <= b && isdoc(g, c, x)
  ensures isdoc(h, c, x) && rank(h, x) == rank(g, x)
  use rank_def
  use agree_sym(g, h, b)
  use doc_frame(g, h, b, c, x, rank(g, x))
  use doc_frame(h, g, b, c, x, rank(h, x))
}
lemma isdoc_up(h H, b Int, c Int, x Iface) {
  trigger isdoc(h, b, x), isdoc(h, c, x)
  requires isdoc(h, b, x) && b <= c
  ensures isdoc(h, c, x)
  use doc_mono(h, b, c, x, rank(h, x), rank(h, x))
}
lemma isdoc_shape(h H, b Int, x Iface) {
  trigger isdoc(h, b, x)
  requires isdoc(h, b, x)
  ensures rank(h, x) > 0 && is(x, "iref") && 1 <= jk(x) && jk(x) <= 7 && 0 < jr(x) && jr(x) < b
  ensures jk(x) == 5 ==> 0 <= asl(h, x).base && asl(h, x).base < b && 0 <= alen(h, x)
  ensures jk(x) == 6 ==> 0 <= dsl(h, x).base && dsl(h, x).base < b && 0 <= dlen(h, x) && dsorted(h, x)
}
lemma isdoc_elem(h H, b Int, x Iface, i Int) {
  trigger isdoc(h, b, x), ael(h, x, i)
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= i && i < alen(h, x)
  ensures isdoc(h, b, ael(h, x, i)) && rank(h, ael(h, x, i)) < rank(h, x)
  use rank_def
}
lemma isdoc_val(h H, b Int, x Iface, i Int) {
  trigger isdoc(h, b, x), dval(h, x, i)
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= i && i < dlen(h, x)
  ensures isdoc(h, b, dval(h, x, i)) && rank(h, dval(h, x, i)) < rank(h, x)
  use rank_def
}
lemma isdoc_get(h H, b Int, x Iface, k Str) {
  trigger isdoc(h, b, x), dfind(h, x, k)
  requires isdoc(h, b, x) && jk(x) == 6 && dfind(h, x, k) >= 0
  ensures isdoc(h, b, dget(h, x, k)) && rank(h, dget(h, x, k)) < rank(h, x)
  use mfind_char
  use isdoc_val(h, b, x, dfind(h, x, k))
}
