// ---- C19: order of dotted query keys ----
use segs
theory segs ` `
// the mathematical comparison of two segments: numbers before texts, numbers
// by value, texts by bytes
spec scmp(a `St_jsonutils.sTextNumber`, b `St_jsonutils.sTextNumber`) Int =
  let x = val(a, "sTextNumber") in let y = val(b, "sTextNumber") in
  (x.isNumber && !y.isNumber ? 0-1 : (!x.isNumber && y.isNumber ? 1 :
    (x.isNumber ? (x.number < y.number ? 0-1 : (x.number > y.number ? 1 : 0))
                : (x.text < y.text ? 0-1 : (y.text < x.text ? 1 : 0)))))
spec sident(a `St_jsonutils.sTextNumber`, b `St_jsonutils.sTextNumber`) Bool =
  let x = val(a, "sTextNumber") in let y = val(b, "sTextNumber") in
  x.isNumber == y.isNumber && (x.isNumber ? x.number == y.number : x.text == y.text)
// lexicographic comparison of two segment lists of equal length from position k
spec slex(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, k Int, n Int) Int =
  k >= n ? 0 : (scmp(at(a, ao, k), at(b, bo, k)) != 0 ? scmp(at(a, ao, k), at(b, bo, k)) : slex(a, ao, b, bo, k+1, n))
spec segless(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, n Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, m Int) Bool =
  n < m || (n == m && slex(a, ao, b, bo, 0, n) < 0)

func "(sTextNumber).compare" (tn, tn2) {
  ensures cmp: result == scmp(tn, tn2)
  modifies nothing
}
func "(sStringSegments).Less" (ss, i, j) {
  requires nonpanic: 0 <= i && i < len(ss) && 0 <= j && j < len(ss)
  ensures lt: result == segless(mem(ss[i]), ss[i].off, len(ss[i]), mem(ss[j]), ss[j].off, len(ss[j]))
  modifies nothing
  invariant sofar: slex(mem(ss[i]), ss[i].off, mem(ss[j]), ss[j].off, 0, len(ss[i])) == slex(mem(ss[i]), ss[i].off, mem(ss[j]), ss[j].off, ii, len(ss[i]))
  invariant r: 0 <= ii && ii <= len(ss[i]) && len(ss[i]) == len(ss[j])
}
func "(sStringSegments).Len" (ss) {
  ensures n: result == len(ss)
  modifies nothing
}
func "(sStringSegments).Swap" (ss, i, j) {
  requires nonpanic: 0 <= i && i < len(ss) && 0 <= j && j < len(ss)
  ensures swapped: ss[i] == old(ss[j]) && ss[j] == old(ss[i])
  ensures rest: forall k Int :: 0 <= k && k < len(ss) && k != i && k != j ==> ss[k] == old(ss[k])
  modifies mem(ss)
}
lemma slex_antisym(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, k Int, n Int) {
  ensures slex(a, ao, b, bo, k, n) == 0 - slex(b, bo, a, ao, k, n)
  use slex_antisym(a, ao, b, bo, k+1, n) when k < n
  decreases n - k
}
lemma slex_trans(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, c `(Array Int St_jsonutils.sTextNumber)`, co Int, k Int, n Int) {
  requires slex(a, ao, b, bo, k, n) <= 0 && slex(b, bo, c, co, k, n) <= 0
  ensures slex(a, ao, c, co, k, n) <= 0
  ensures slex(a, ao, c, co, k, n) == 0 ==> slex(a, ao, b, bo, k, n) == 0 && slex(b, bo, c, co, k, n) == 0
  use slex_trans(a, ao, b, bo, c, co, k+1, n) when k < n && slex(a, ao, b, bo, k+1, n) <= 0 && slex(b, bo, c, co, k+1, n) <= 0
  decreases n - k
}
lemma slex_ident(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, k Int, n Int) {
  requires slex(a, ao, b, bo, k, n) == 0
  ensures forall i Int :: {at(a, ao, i)} k <= i && i < n ==> sident(at(a, ao, i), at(b, bo, i))
  use slex_ident(a, ao, b, bo, k+1, n) when k < n
  decreases n - k
}
// the order is irreflexive, asymmetric, transitive, and total up to identical segments
lemma segless_order(a `(Array Int St_jsonutils.sTextNumber)`, ao Int, n Int, b `(Array Int St_jsonutils.sTextNumber)`, bo Int, m Int, c `(Array Int St_jsonutils.sTextNumber)`, co Int, l Int) {
  ensures irrefl: !segless(a, ao, n, a, ao, n)
  ensures asym: !(segless(a, ao, n, b, bo, m) && segless(b, bo, m, a, ao, n))
  ensures trans: segless(a, ao, n, b, bo, m) && segless(b, bo, m, c, co, l) ==> segless(a, ao, n, c, co, l)
  ensures inc: !segless(a, ao, n, b, bo, m) && !segless(b, bo, m, a, ao, n) && !segless(b, bo, m, c, co, l) && !segless(c, co, l, b, bo, m) ==> !segless(a, ao, n, c, co, l) && !segless(c, co, l, a, ao, n)
  ensures total: segless(a, ao, n, b, bo, m) || segless(b, bo, m, a, ao, n) || (n == m && (forall i Int :: {at(a, ao, i)} 0 <= i && i < n ==> sident(at(a, ao, i), at(b, bo, i))))
  use slex_antisym(a, ao, a, ao, 0, n)
  use slex_antisym(a, ao, b, bo, 0, n)
  use slex_antisym(b, bo, c, co, 0, n)
  use slex_antisym(a, ao, c, co, 0, n)
  use slex_trans(a, ao, b, bo, c, co, 0, n) when slex(a, ao, b, bo, 0, n) <= 0 && slex(b, bo, c, co, 0, n) <= 0
  use slex_trans(c, co, b, bo, a, ao, 0, n) when slex(c, co, b, bo, 0, n) <= 0 && slex(b, bo, a, ao, 0, n) <= 0
  use slex_ident(a, ao, b, bo, 0, n) when slex(a, ao, b, bo, 0, n) == 0
}
