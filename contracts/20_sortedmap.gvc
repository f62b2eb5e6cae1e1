// ---- sorted maps (yunion.io/x/pkg/sortedmap, verified from its source) ----
use smap
theory smap ` `
macro ikey(x) = val(x, "sortedmap.sItem").key
macro ival(x) = val(x, "sortedmap.sItem").value
// index of key k among the first n items, -1 when absent
spec opaque mfind(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) Int =
  n <= 0 ? 0-1 : (ikey(at(a, o, n-1)) == k ? n-1 : mfind(a, o, n-1, k))
// number of items with a key below k
spec opaque mlb(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) Int =
  n <= 0 ? 0 : (ikey(at(a, o, n-1)) < k ? 1 + mlb(a, o, n-1, k) : mlb(a, o, n-1, k))
spec msorted(a `(Array Int St_sortedmap.sItem)`, o Int, n Int) Bool =
  forall i Int, j Int :: {at(a, o, i), at(a, o, j)} 0 <= i && i < j && j < n ==> ikey(at(a, o, i)) < ikey(at(a, o, j))
spec mget(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) Iface =
  mfind(a, o, n, k) >= 0 ? ival(at(a, o, mfind(a, o, n, k))) : nil

macro sm_sorted(s) = msorted(mem(s), s.off, len(s))
macro sm_find(s, k) = mfind(mem(s), s.off, len(s), k)
macro sm_has(s, k) = mfind(mem(s), s.off, len(s), k) >= 0
macro sm_get(s, k) = mget(mem(s), s.off, len(s), k)

lemma mfind_range(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) {
  ensures 0-1 <= mfind(a, o, n, k) && (n >= 0 ==> mfind(a, o, n, k) < n)
  ensures mfind(a, o, n, k) >= 0 ==> ikey(at(a, o, mfind(a, o, n, k))) == k
  use mfind_range(a, o, n-1, k) when n > 0
  decreases n
}
lemma mfind_last(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str, i Int) {
  requires 0 <= i && i < n && ikey(at(a, o, i)) == k
  ensures i <= mfind(a, o, n, k)
  use mfind_last(a, o, n-1, k, i) when i < n-1
  decreases n
}
lemma mfind_char(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) {
  trigger mfind(a, o, n, k)
  ensures 0-1 <= mfind(a, o, n, k) && (n >= 0 ==> mfind(a, o, n, k) < n)
  ensures mfind(a, o, n, k) >= 0 ==> ikey(at(a, o, mfind(a, o, n, k))) == k
  ensures forall i Int :: {at(a, o, i)} 0 <= i && i < n && ikey(at(a, o, i)) == k ==> i <= mfind(a, o, n, k)
  use mfind_range(a, o, n, k)
  useall i Int {at(a, o, i)} mfind_last(a, o, n, k, i)
}
lemma mlb_induct(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) {
  requires msorted(a, o, n) && n >= 0
  ensures 0 <= mlb(a, o, n, k) && mlb(a, o, n, k) <= n
  ensures forall i Int :: {at(a, o, i)} 0 <= i && i < n ==> (i < mlb(a, o, n, k) <==> ikey(at(a, o, i)) < k)
  assert n > 0 ==> ikey(at(a, o, n-1)) == ikey(at(a, o, n-1)) && ikey(at(a, o, n-2)) == ikey(at(a, o, n-2))
  use mlb_induct(a, o, n-1, k) when n > 0
  assert n > 1 && ikey(at(a, o, n-1)) < k ==> ikey(at(a, o, n-2)) < k
  decreases n
}
lemma mlb_char(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) {
  trigger mlb(a, o, n, k)
  requires msorted(a, o, n) && n >= 0
  ensures 0 <= mlb(a, o, n, k) && mlb(a, o, n, k) <= n
  ensures mlb(a, o, n, k) < n ==> !(ikey(at(a, o, mlb(a, o, n, k))) < k)
  ensures mlb(a, o, n, k) > 0 ==> ikey(at(a, o, mlb(a, o, n, k)-1)) < k
  ensures forall i Int :: {at(a, o, i)} 0 <= i && i < n ==> (i < mlb(a, o, n, k) <==> ikey(at(a, o, i)) < k)
  use mlb_induct(a, o, n, k)
}
use smap, mfind_char, mlb_char
// b is a with (key, v) inserted at position p
lemma m_insert(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, b `(Array Int St_sortedmap.sItem)`, bo Int, p Int, key Str, v Iface) {
  requires msorted(a, ao, n) && 0 <= p && p <= n
  requires forall i Int :: {at(a, ao, i)} 0 <= i && i < p ==> ikey(at(a, ao, i)) < key
  requires forall i Int :: {at(a, ao, i)} p <= i && i < n ==> key < ikey(at(a, ao, i))
  requires forall i Int :: {at(b, bo, i)} 0 <= i && i < p ==> at(b, bo, i) == at(a, ao, i)
  requires ikey(at(b, bo, p)) == key && ival(at(b, bo, p)) == v
  requires forall i Int :: {at(b, bo, i)} p < i && i <= n ==> at(b, bo, i) == at(a, ao, i-1)
  ensures msorted(b, bo, n+1)
  ensures forall k Str :: {mfind(b, bo, n+1, k)} (mfind(b, bo, n+1, k) >= 0 <==> (k == key || mfind(a, ao, n, k) >= 0))
  ensures forall k Str :: {mfind(b, bo, n+1, k)} mget(b, bo, n+1, k) == (k == key ? v : mget(a, ao, n, k))
  assert forall k Str :: {mfind(b, bo, n+1, k)} mfind(a, ao, n, k) >= 0 ==> ikey(at(b, bo, mfind(a, ao, n, k) < p ? mfind(a, ao, n, k) : mfind(a, ao, n, k)+1)) == k
}
lemma m_update(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, b `(Array Int St_sortedmap.sItem)`, bo Int, p Int, v Iface) {
  requires msorted(a, ao, n) && 0 <= p && p < n
  requires forall i Int :: {at(b, bo, i)} 0 <= i && i < n && i != p ==> at(b, bo, i) == at(a, ao, i)
  requires ikey(at(b, bo, p)) == ikey(at(a, ao, p)) && ival(at(b, bo, p)) == v
  ensures msorted(b, bo, n)
  ensures forall k Str :: {mfind(b, bo, n, k)} (mfind(b, bo, n, k) >= 0 <==> mfind(a, ao, n, k) >= 0)
  ensures forall k Str :: {mfind(b, bo, n, k)} mget(b, bo, n, k) == (k == ikey(at(a, ao, p)) ? v : mget(a, ao, n, k))
  assert forall k Str :: {mfind(b, bo, n, k)} mfind(a, ao, n, k) >= 0 ==> ikey(at(b, bo, mfind(a, ao, n, k))) == k
}
lemma m_remove(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, b `(Array Int St_sortedmap.sItem)`, bo Int, p Int) {
  requires msorted(a, ao, n) && 0 <= p && p < n
  requires forall i Int :: {at(b, bo, i)} 0 <= i && i < p ==> at(b, bo, i) == at(a, ao, i)
  requires forall i Int :: {at(b, bo, i)} p <= i && i < n-1 ==> at(b, bo, i) == at(a, ao, i+1)
  ensures msorted(b, bo, n-1)
  ensures forall k Str :: {mfind(b, bo, n-1, k)} (mfind(b, bo, n-1, k) >= 0 <==> (k != ikey(at(a, ao, p)) && mfind(a, ao, n, k) >= 0))
  ensures forall k Str :: {mfind(b, bo, n-1, k)} mget(b, bo, n-1, k) == (k == ikey(at(a, ao, p)) ? nil : mget(a, ao, n, k))
  assert forall k Str :: {mfind(b, bo, n-1, k)} mfind(a, ao, n, k) >= 0 && k != ikey(at(a, ao, p)) ==> ikey(at(b, bo, mfind(a, ao, n, k) < p ? mfind(a, ao, n, k) : mfind(a, ao, n, k)-1)) == k
  assert forall k Str :: {mfind(b, bo, n-1, k)} mfind(b, bo, n-1, k) >= 0 ==> mfind(a, ao, n, k) == (mfind(b, bo, n-1, k) < p ? mfind(b, bo, n-1, k) : mfind(b, bo, n-1, k)+1)
}

func "(sortedmap.SSortedMap).find" (ss, needle) {
  requires s: sm_sorted(ss)
  ensures found: result1 ==> 0 <= result0 && result0 < len(ss) && ss[result0].key == needle && result0 == sm_find(ss, needle)
  ensures absent: !result1 ==> 0 <= result0 && result0 <= len(ss) && sm_find(ss, needle) == 0-1 && result0 == mlb(mem(ss), ss.off, len(ss), needle)
  ensures below: !result1 ==> (forall i Int :: {ss[i]} 0 <= i && i < result0 ==> ss[i].key < needle)
  ensures above: !result1 ==> (forall i Int :: {ss[i]} result0 <= i && i < len(ss) ==> needle < ss[i].key)
  modifies nothing
  invariant loop 0 r: 0 <= i && i <= j + 1 && j < len(ss)
  invariant loop 0 lo: forall k Int :: {ss[k]} 0 <= k && k < i ==> ss[k].key < needle
  invariant loop 0 hi: forall k Int :: {ss[k]} j < k && k < len(ss) ==> needle < ss[k].key
  decreases loop 0 j - i + 1
}
func "(sortedmap.SSortedMap).findIgnoreCase" (ss, needle) {
  requires s: sm_sorted(ss)
  ensures exact: sm_has(ss, needle) ==> result1 && result0 == sm_find(ss, needle)
  ensures found: result1 ==> 0 <= result0 && result0 < len(ss) && eqfold(ss[result0].key, needle)
  ensures absent: !result1 ==> (forall i Int :: {ss[i]} 0 <= i && i < len(ss) ==> !eqfold(ss[i].key, needle))
  modifies nothing
  use fold
  invariant loop 0 r: 0 <= i && i <= len(ss)
  invariant loop 0 none: forall k Int :: {ss[k]} 0 <= k && k < i ==> !eqfold(ss[k].key, needle)
}
theory fold `
; strings.EqualFold: an equivalence relation on byte strings
(declare-fun eqfold (Str Str) Bool)
(assert (forall ((a Str)) (! (eqfold a a) :pattern ((eqfold a a)))))
(assert (forall ((a Str) (b Str)) (! (=> (= a b) (eqfold a b)) :pattern ((eqfold a b)))))
`
extern "strings.EqualFold" (s, t) {
  use fold
  ensures r: result == eqfold(s, t)
  modifies nothing
}
func "sortedmap.NewSortedMapWithCapa" (capa) {
  requires nonpanic: 0 <= capa
  ensures r: len(result) == 0 && fresh(result) && result.off == 0
  modifies nothing
}
func "sortedmap.NewSortedMap" () {
  ensures r: len(result) == 0 && fresh(result) && result.off == 0
  modifies nothing
}
func "sortedmap.Add" (ss, key, value) {
  requires s: sm_sorted(ss)
  hint m_insert(old(mem(ss)), ss.off, len(ss), mem(result), result.off, mlb(old(mem(ss)), ss.off, len(ss), key), key, value) when !old(sm_has(ss, key))
  hint m_update(old(mem(ss)), ss.off, len(ss), mem(result), result.off, old(sm_find(ss, key)), value) when old(sm_has(ss, key))
  ensures sorted: sm_sorted(result)
  ensures len: len(result) == len(ss) + (old(sm_has(ss, key)) ? 0 : 1)
  ensures dom: forall k Str :: {sm_find(result, k)} sm_has(result, k) <==> (k == key || old(sm_has(ss, k)))
  ensures view: forall k Str :: {sm_find(result, k)} sm_get(result, k) == (k == key ? value : old(sm_get(ss, k)))
  ensures own: result.base == ss.base || fresh(result)
  ensures nn: result != nil
  modifies mem(ss)
}
func "sortedmap.deleteInternal" (ss, key, ignoreCase) {
  use fold
  requires s: sm_sorted(ss)
  hint m_remove(old(mem(ss)), ss.off, len(ss), mem(result0), result0.off, old(sm_find(ss, result1))) when result2
  ensures hit: result2 ==> old(sm_has(ss, result1)) && eqfold(result1, key)
  ensures exact: !ignoreCase ==> (result2 <==> old(sm_has(ss, key))) && (result2 ==> result1 == key)
  ensures prefer: ignoreCase && old(sm_has(ss, key)) ==> result2 && result1 == key
  ensures miss: ignoreCase && !result2 ==> (forall k Str :: {sm_find(ss, k)} old(sm_has(ss, k)) ==> !eqfold(k, key))
  ensures same: !result2 ==> result0 == ss && mem(result0) == old(mem(ss)) && result1 == ""
  ensures sorted: sm_sorted(result0)
  ensures len: result2 ==> len(result0) == len(ss) - 1
  ensures dom: result2 ==> (forall k Str :: {sm_find(result0, k)} sm_has(result0, k) <==> (k != result1 && old(sm_has(ss, k))))
  ensures view: result2 ==> (forall k Str :: {sm_find(result0, k)} sm_get(result0, k) == (k == result1 ? nil : old(sm_get(ss, k))))
  ensures own: result0.base == ss.base
  modifies mem(ss)
}
func "sortedmap.Delete" (ss, key) {
  requires s: sm_sorted(ss)
  ensures hit: result1 <==> old(sm_has(ss, key))
  ensures same: !result1 ==> result0 == ss && mem(result0) == old(mem(ss))
  ensures sorted: sm_sorted(result0)
  ensures len: len(result0) == len(ss) - (result1 ? 1 : 0)
  ensures dom: forall k Str :: {sm_find(result0, k)} sm_has(result0, k) <==> (k != key && old(sm_has(ss, k)))
  ensures view: forall k Str :: {sm_find(result0, k)} sm_get(result0, k) == (k == key ? nil : old(sm_get(ss, k)))
  ensures own: result0.base == ss.base
  modifies mem(ss)
}
func "sortedmap.DeleteIgnoreCase" (ss, key) {
  use fold
  requires s: sm_sorted(ss)
  ensures hit: result2 ==> old(sm_has(ss, result1)) && eqfold(result1, key)
  ensures prefer: old(sm_has(ss, key)) ==> result2 && result1 == key
  ensures miss: !result2 ==> (forall k Str :: {sm_find(ss, k)} old(sm_has(ss, k)) ==> !eqfold(k, key))
  ensures same: !result2 ==> result0 == ss && mem(result0) == old(mem(ss))
  ensures sorted: sm_sorted(result0)
  ensures len: len(result0) == len(ss) - (result2 ? 1 : 0)
  ensures dom: result2 ==> (forall k Str :: {sm_find(result0, k)} sm_has(result0, k) <==> (k != result1 && old(sm_has(ss, k))))
  ensures view: result2 ==> (forall k Str :: {sm_find(result0, k)} sm_get(result0, k) == (k == result1 ? nil : old(sm_get(ss, k))))
  ensures own: result0.base == ss.base
  modifies mem(ss)
}
func "(sortedmap.SSortedMap).Get" (ss, key) {
  requires s: sm_sorted(ss)
  ensures r: result1 == sm_has(ss, key) && result0 == sm_get(ss, key)
  modifies nothing
}
func "(sortedmap.SSortedMap).GetIgnoreCase" (ss, key) {
  use fold
  requires s: sm_sorted(ss)
  ensures exact: sm_has(ss, key) ==> result2 && result1 == key
  ensures hit: result2 ==> sm_has(ss, result1) && result0 == sm_get(ss, result1) && eqfold(result1, key)
  ensures miss: !result2 ==> result0 == nil && (forall k Str :: {sm_find(ss, k)} sm_has(ss, k) ==> !eqfold(k, key))
  modifies nothing
}
func "(sortedmap.SSortedMap).Contains" (ss, needle) {
  requires s: sm_sorted(ss)
  ensures r: result == sm_has(ss, needle)
  modifies nothing
}
func "(sortedmap.SSortedMap).Keys" (ss) {
  ensures len: len(result) == len(ss)
  ensures keys: forall i Int :: {result[i]} 0 <= i && i < len(ss) ==> result[i] == ss[i].key
  ensures fr: fresh(result)
  modifies nothing
  invariant k: forall j Int :: {ret[j]} 0 <= j && j < i ==> ret[j] == ss[j].key
  invariant r: 0 <= i && i <= len(ss)
}

// ---- merging and splitting ----
lemma mfind_step(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, m Int, k Str) {
  trigger mfind(a, o, n, k), mfind(a, o, m, k)
  requires n == m + 1 && m >= 0
  ensures mfind(a, o, n, k) == (ikey(at(a, o, m)) == k ? m : mfind(a, o, m, k))
}
lemma mfind_zero(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, k Str) {
  trigger mfind(a, o, n, k)
  requires n <= 0
  ensures mfind(a, o, n, k) == 0-1
}
// a window of a sorted array followed by the next one
lemma m_split(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, p Int, m Int, k Str) {
  trigger mfind(a, o, n, k), mfind(a, p, m, k)
  requires n >= 0 && m >= 0 && p == o + n && msorted(a, o, n + m)
  ensures mfind(a, o, n + m, k) >= 0 <==> (mfind(a, o, n, k) >= 0 || mfind(a, p, m, k) >= 0)
  ensures mget(a, o, n + m, k) == (mfind(a, o, n, k) >= 0 ? mget(a, o, n, k) : mget(a, p, m, k))
  assert forall i Int :: {at(a, p, i)} at(a, p, i) == at(a, o, n + i)
  assert mfind(a, p, m, k) >= 0 ==> ikey(at(a, o, n + mfind(a, p, m, k))) == k
  assert mfind(a, o, n, k) >= 0 ==> ikey(at(a, o, mfind(a, o, n, k))) == k
  assert mfind(a, o, n + m, k) >= n ==> ikey(at(a, p, mfind(a, o, n + m, k) - n)) == k
  assert mfind(a, o, n + m, k) >= 0 && mfind(a, o, n + m, k) < n ==> mfind(a, o, n, k) >= mfind(a, o, n + m, k)
}
// r is a followed by s
lemma m_concat(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, s `(Array Int St_sortedmap.sItem)`, so Int, m Int, r `(Array Int St_sortedmap.sItem)`, ro Int) {
  requires n >= 0 && m >= 0 && msorted(a, ao, n) && msorted(s, so, m)
  requires n > 0 && m > 0 ==> ikey(at(a, ao, n-1)) < ikey(at(s, so, 0))
  requires forall i Int :: {at(r, ro, i)} 0 <= i && i < n ==> at(r, ro, i) == at(a, ao, i)
  requires forall i Int :: {at(r, ro, i)} n <= i && i < n + m ==> at(r, ro, i) == at(s, so, i - n)
  ensures msorted(r, ro, n + m)
  ensures forall k Str :: {mfind(r, ro, n + m, k)} mfind(r, ro, n + m, k) >= 0 <==> (mfind(a, ao, n, k) >= 0 || mfind(s, so, m, k) >= 0)
  ensures forall k Str :: {mfind(r, ro, n + m, k)} mget(r, ro, n + m, k) == (mfind(a, ao, n, k) >= 0 ? mget(a, ao, n, k) : mget(s, so, m, k))
  assert n > 0 && m > 0 ==> (forall i Int :: {at(a, ao, i)} 0 <= i && i < n ==> !(ikey(at(a, ao, n-1)) < ikey(at(a, ao, i))))
  assert n > 0 && m > 0 ==> (forall i Int :: {at(s, so, i)} 0 <= i && i < m ==> !(ikey(at(s, so, i)) < ikey(at(s, so, 0))))
  assert forall i Int, j Int :: {at(a, ao, i), at(s, so, j)} 0 <= i && i < n && 0 <= j && j < m ==> ikey(at(a, ao, i)) < ikey(at(s, so, j))
  assert msorted(r, ro, n + m)
  assert forall k Str :: {mfind(r, ro, n + m, k)} mfind(a, ao, n, k) >= 0 ==> ikey(at(r, ro, mfind(a, ao, n, k))) == k
  assert forall k Str :: {mfind(r, ro, n + m, k)} mfind(s, so, m, k) >= 0 ==> ikey(at(r, ro, n + mfind(s, so, m, k))) == k
  assert forall k Str :: {mfind(r, ro, n + m, k)} mfind(r, ro, n + m, k) >= n ==> ikey(at(s, so, mfind(r, ro, n + m, k) - n)) == k
  assert forall k Str :: {mfind(r, ro, n + m, k)} mfind(r, ro, n + m, k) >= 0 && mfind(r, ro, n + m, k) < n ==> ikey(at(a, ao, mfind(r, ro, n + m, k))) == k
}
lemma m_snoc(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, s `(Array Int St_sortedmap.sItem)`, so Int, m Int, r `(Array Int St_sortedmap.sItem)`, ro Int) {
  requires n >= 0 && m == 1 && msorted(a, ao, n)
  requires n > 0 ==> ikey(at(a, ao, n-1)) < ikey(at(s, so, 0))
  requires forall i Int :: {at(r, ro, i)} 0 <= i && i < n ==> at(r, ro, i) == at(a, ao, i)
  requires at(r, ro, n) == at(s, so, 0)
  ensures msorted(r, ro, n + 1)
  ensures forall k Str :: {mfind(r, ro, n + 1, k)} mfind(r, ro, n + 1, k) >= 0 <==> (mfind(a, ao, n, k) >= 0 || ikey(at(s, so, 0)) == k)
  ensures forall k Str :: {mfind(r, ro, n + 1, k)} mget(r, ro, n + 1, k) == (ikey(at(s, so, 0)) == k ? ival(at(s, so, 0)) : mget(a, ao, n, k))
  assert n > 0 ==> (forall i Int :: {at(a, ao, i)} 0 <= i && i < n ==> !(ikey(at(a, ao, n-1)) < ikey(at(a, ao, i))))
  assert msorted(s, so, 1)
  use m_concat(a, ao, n, s, so, 1, r, ro)
  assert forall k Str :: {mfind(r, ro, n + 1, k)} mfind(a, ao, n, k) >= 0 ==> ikey(at(a, ao, mfind(a, ao, n, k))) == k && ikey(at(s, so, 0)) != k
  assert forall k Str :: {mfind(s, so, 1, k)} mfind(s, so, 1, k) == (ikey(at(s, so, 0)) == k ? 0 : 0-1)
}
use mfind_step, mfind_zero, m_split
macro pfx(s, n, k) = mfind(mem(s), s.off, n, k)
macro pfxget(s, n, k) = mget(mem(s), s.off, n, k)

func "sortedmap.Merge" (a, b) {
  requires s: sm_sorted(a) && sm_sorted(b)
  ensures sorted: sm_sorted(result)
  ensures dom: forall k Str :: {sm_find(result, k)} sm_has(result, k) <==> (sm_has(a, k) || sm_has(b, k))
  ensures view: forall k Str :: {sm_find(result, k)} sm_get(result, k) == (sm_has(b, k) ? sm_get(b, k) : sm_get(a, k))
  ensures own: fresh(result) && result != nil
  modifies nothing
  callhint "append" m_snoc(old(mem(a0)), a0.off, len(a0), old(mem(a1)), a1.off, len(a1), mem(r0), r0.off) when len(a1) == 1
  callhint "append" m_concat(old(mem(a0)), a0.off, len(a0), old(mem(a1)), a1.off, len(a1), mem(r0), r0.off)
  invariant loop 0 r: 0 <= i && i <= len(a) && 0 <= j && j <= len(b)
  invariant loop 0 own: fresh(ret) && ret != nil
  invariant loop 0 sorted: sm_sorted(ret)
  invariant loop 0 la: i < len(a) ==> (forall x Int :: {ret[x]} 0 <= x && x < len(ret) ==> ret[x].key < a[i].key)
  invariant loop 0 lb: j < len(b) ==> (forall x Int :: {ret[x]} 0 <= x && x < len(ret) ==> ret[x].key < b[j].key)
  invariant loop 0 dom: forall k Str :: {sm_find(ret, k)} sm_has(ret, k) <==> (pfx(a, i, k) >= 0 || pfx(b, j, k) >= 0)
  invariant loop 0 view: forall k Str :: {sm_find(ret, k)} sm_get(ret, k) == (pfx(b, j, k) >= 0 ? pfxget(b, j, k) : pfxget(a, i, k))
  decreases loop 0 len(a) - i + len(b) - j
}
func "sortedmap.Split" (a, b) {
  requires s: sm_sorted(a) && sm_sorted(b)
  ensures sorted: sm_sorted(result0) && sm_sorted(result1) && sm_sorted(result2) && sm_sorted(result3)
  ensures onlya: forall k Str :: {sm_find(result0, k)} {sm_find(a, k)} sm_has(result0, k) <==> (sm_has(a, k) && !sm_has(b, k))
  ensures onlyaval: forall k Str :: {sm_find(result0, k)} {sm_find(a, k)} sm_has(result0, k) ==> sm_get(result0, k) == sm_get(a, k)
  ensures botha: forall k Str :: {sm_find(result1, k)} {sm_find(b, k)} sm_has(result1, k) <==> (sm_has(a, k) && sm_has(b, k))
  ensures bothaval: forall k Str :: {sm_find(result1, k)} {sm_find(b, k)} sm_has(result1, k) ==> sm_get(result1, k) == sm_get(a, k)
  ensures bothb: forall k Str :: {sm_find(result2, k)} {sm_find(a, k)} sm_has(result2, k) <==> (sm_has(a, k) && sm_has(b, k))
  ensures bothbval: forall k Str :: {sm_find(result2, k)} {sm_find(a, k)} sm_has(result2, k) ==> sm_get(result2, k) == sm_get(b, k)
  ensures onlyb: forall k Str :: {sm_find(result3, k)} {sm_find(b, k)} sm_has(result3, k) <==> (sm_has(b, k) && !sm_has(a, k))
  ensures onlybval: forall k Str :: {sm_find(result3, k)} {sm_find(b, k)} sm_has(result3, k) ==> sm_get(result3, k) == sm_get(b, k)
  ensures own: fresh(result0) && fresh(result1) && fresh(result2) && fresh(result3)
  ensures ne: (len(result0) > 0 ==> sm_has(result0, result0[0].key)) && (len(result3) > 0 ==> sm_has(result3, result3[0].key))
  ensures sep: result0.base != result1.base && result0.base != result2.base && result0.base != result3.base && result1.base != result2.base && result1.base != result3.base && result2.base != result3.base
  ensures nn: result0 != nil && result1 != nil && result2 != nil && result3 != nil
  modifies nothing
  callhint "append" m_snoc(old(mem(a0)), a0.off, len(a0), old(mem(a1)), a1.off, len(a1), mem(r0), r0.off) when len(a1) == 1
  callhint "append" m_concat(old(mem(a0)), a0.off, len(a0), old(mem(a1)), a1.off, len(a1), mem(r0), r0.off)
  invariant loop 0 r: 0 <= i && i <= len(a) && 0 <= j && j <= len(b)
  invariant loop 0 own0: fresh(a_b) && a_b != nil
  invariant loop 0 own1: fresh(anbA) && anbA != nil
  invariant loop 0 own2: fresh(anbB) && anbB != nil
  invariant loop 0 own3: fresh(b_a) && b_a != nil
  invariant loop 0 sep: a_b.base != anbA.base && a_b.base != anbB.base && a_b.base != b_a.base && anbA.base != anbB.base && anbA.base != b_a.base && anbB.base != b_a.base
  invariant loop 0 sorted0: sm_sorted(a_b)
  invariant loop 0 sorted1: sm_sorted(anbA)
  invariant loop 0 sorted2: sm_sorted(anbB)
  invariant loop 0 sorted3: sm_sorted(b_a)
  invariant loop 0 oa: i < len(a) ==> (forall x Int :: {at(mem(b), b.off, x)} 0 <= x && x < j ==> b[x].key < a[i].key)
  invariant loop 0 ob: j < len(b) ==> (forall x Int :: {at(mem(a), a.off, x)} 0 <= x && x < i ==> a[x].key < b[j].key)
  invariant loop 0 l0: i < len(a) ==> (forall x Int :: {a_b[x]} 0 <= x && x < len(a_b) ==> a_b[x].key < a[i].key)
  invariant loop 0 l1: i < len(a) ==> (forall x Int :: {anbA[x]} 0 <= x && x < len(anbA) ==> anbA[x].key < a[i].key)
  invariant loop 0 l2: j < len(b) ==> (forall x Int :: {anbB[x]} 0 <= x && x < len(anbB) ==> anbB[x].key < b[j].key)
  invariant loop 0 l3: j < len(b) ==> (forall x Int :: {b_a[x]} 0 <= x && x < len(b_a) ==> b_a[x].key < b[j].key)
  invariant loop 0 d0: forall k Str :: {sm_find(a_b, k)} sm_has(a_b, k) <==> (pfx(a, i, k) >= 0 && pfx(b, j, k) < 0)
  invariant loop 0 v0: forall k Str :: {sm_find(a_b, k)} sm_has(a_b, k) ==> sm_get(a_b, k) == pfxget(a, i, k)
  invariant loop 0 d1: forall k Str :: {sm_find(anbA, k)} sm_has(anbA, k) <==> (pfx(a, i, k) >= 0 && pfx(b, j, k) >= 0)
  invariant loop 0 v1: forall k Str :: {sm_find(anbA, k)} sm_has(anbA, k) ==> sm_get(anbA, k) == pfxget(a, i, k)
  invariant loop 0 d2: forall k Str :: {sm_find(anbB, k)} sm_has(anbB, k) <==> (pfx(a, i, k) >= 0 && pfx(b, j, k) >= 0)
  invariant loop 0 v2: forall k Str :: {sm_find(anbB, k)} sm_has(anbB, k) ==> sm_get(anbB, k) == pfxget(b, j, k)
  invariant loop 0 d3: forall k Str :: {sm_find(b_a, k)} sm_has(b_a, k) <==> (pfx(b, j, k) >= 0 && pfx(a, i, k) < 0)
  invariant loop 0 v3: forall k Str :: {sm_find(b_a, k)} sm_has(b_a, k) ==> sm_get(b_a, k) == pfxget(b, j, k)
  decreases loop 0 len(a) - i + len(b) - j
}
func "sortedmap.NewIterator" (smap) {
  ensures r: result != nil && fresh(result) && result.smap == smap && result.index == 0
  modifies nothing
}
