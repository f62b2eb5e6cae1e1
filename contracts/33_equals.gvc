// ---- structural equality (C12) ----
// deqn(s, g, x, h, y, n): the documents x in heap g and y in heap h have the
// same content down to depth n; with s set, floats must be the same value and
// bit size, otherwise equal as Go compares them
use deqth, doc
theory deqth : doc ` `
spec opaque deqn(s Bool, g H, x Iface, h H, y Iface, n Int) Bool =
  n > 0 && is(y, "iref") && jk(x) == jk(y)
  && (jk(x) == 1 ==> select(hS(g), jr(x)) == select(hS(h), jr(y)))
  && (jk(x) == 2 ==> select(hI(g), jr(x)) == select(hI(h), jr(y)))
  && (jk(x) == 3 ==> (s ? select(hF(g), jr(x)) == select(hF(h), jr(y)) && select(hFb(g), jr(x)) == select(hFb(h), jr(y)) : feq(select(hF(g), jr(x)), select(hF(h), jr(y)))))
  && (jk(x) == 4 ==> (select(hB(g), jr(x)) <==> select(hB(h), jr(y))))
  && (jk(x) == 5 ==> alen(g, x) == alen(h, y) && (forall i Int :: {ael(g, x, i)} {ael(h, y, i)} 0 <= i && i < alen(g, x) ==> deqn(s, g, ael(g, x, i), h, ael(h, y, i), n-1)))
  && (jk(x) == 6 ==> (forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} (dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0) && (dfind(g, x, k) >= 0 ==> deqn(s, g, dget(g, x, k), h, dget(h, y, k), n-1))))
spec deq(s Bool, g H, x Iface, h H, y Iface) Bool = deqn(s, g, x, h, y, rank(g, x))

lemma doc_get(h H, b Int, x Iface, n Int, k Str) {
  trigger doc(h, b, x, n), dfind(h, x, k)
  requires doc(h, b, x, n) && jk(x) == 6 && dfind(h, x, k) >= 0
  ensures doc(h, b, dget(h, x, k), n-1)
  use mfind_char
  assert dval(h, x, dfind(h, x, k)) == dget(h, x, k)
}
lemma deqn_fuel(s Bool, g H, b Int, x Iface, h H, y Iface, n Int, m Int) {
  requires doc(g, b, x, n) && doc(g, b, x, m)
  ensures deqn(s, g, x, h, y, n) == deqn(s, g, x, h, y, m)
  use doc_get
  useall i Int {ael(g, x, i)} {ael(h, y, i)} deqn_fuel(s, g, b, ael(g, x, i), h, ael(h, y, i), n-1, m-1)
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} deqn_fuel(s, g, b, dget(g, x, k), h, dget(h, y, k), n-1, m-1)
  decreases n
}
lemma deq_flat(s Bool, g H, b Int, x Iface, h H, y Iface) {
  trigger deq(s, g, x, h, y), isdoc(g, b, x)
  requires isdoc(g, b, x)
  ensures deq(s, g, x, h, y) ==> is(y, "iref") && jk(x) == jk(y)
  ensures jk(x) == 1 && is(y, "iref") && jk(y) == 1 ==> (deq(s, g, x, h, y) <==> select(hS(g), jr(x)) == select(hS(h), jr(y)))
  ensures jk(x) == 2 && is(y, "iref") && jk(y) == 2 ==> (deq(s, g, x, h, y) <==> select(hI(g), jr(x)) == select(hI(h), jr(y)))
  ensures jk(x) == 3 && is(y, "iref") && jk(y) == 3 ==> (deq(s, g, x, h, y) <==> (s ? select(hF(g), jr(x)) == select(hF(h), jr(y)) && select(hFb(g), jr(x)) == select(hFb(h), jr(y)) : feq(select(hF(g), jr(x)), select(hF(h), jr(y)))))
  ensures jk(x) == 4 && is(y, "iref") && jk(y) == 4 ==> (deq(s, g, x, h, y) <==> (select(hB(g), jr(x)) <==> select(hB(h), jr(y))))
  ensures jk(x) == 7 && is(y, "iref") && jk(y) == 7 ==> deq(s, g, x, h, y)
}
lemma deq_arr(s Bool, g H, b Int, x Iface, h H, y Iface) {
  trigger deq(s, g, x, h, y), isdoc(g, b, x)
  requires isdoc(g, b, x) && jk(x) == 5
  ensures deq(s, g, x, h, y) <==> (is(y, "iref") && jk(y) == 5 && alen(g, x) == alen(h, y) && (forall i Int :: {ael(g, x, i)} {ael(h, y, i)} 0 <= i && i < alen(g, x) ==> deq(s, g, ael(g, x, i), h, ael(h, y, i))))
  use rank_def
  use isdoc_elem
  useall i Int {ael(g, x, i)} {ael(h, y, i)} deqn_fuel(s, g, b, ael(g, x, i), h, ael(h, y, i), rank(g, x)-1, rank(g, ael(g, x, i)))
}
lemma deq_dict(s Bool, g H, b Int, x Iface, h H, y Iface) {
  trigger deq(s, g, x, h, y), isdoc(g, b, x)
  requires isdoc(g, b, x) && jk(x) == 6
  ensures deq(s, g, x, h, y) <==> (is(y, "iref") && jk(y) == 6 && (forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} (dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0) && (dfind(g, x, k) >= 0 ==> deq(s, g, dget(g, x, k), h, dget(h, y, k)))))
  use rank_def
  use doc_get
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} deqn_fuel(s, g, b, dget(g, x, k), h, dget(h, y, k), rank(g, x)-1, rank(g, dget(g, x, k)))
}
// frame: equality of documents that did not change
lemma deqn_frame(s Bool, g H, h H, b Int, c Int, x Iface, d Int, y Iface, n Int) {
  requires agree(g, h, b) && c <= b && d <= b && doc(g, c, x, n) && isdoc(g, d, y)
  ensures deqn(s, g, x, g, y, n) == deqn(s, h, x, h, y, n)
  use doc_get, isdoc_elem, isdoc_get, isdoc_shape
  useall i Int {ael(g, x, i)} {ael(g, y, i)} deqn_frame(s, g, h, b, c, ael(g, x, i), d, ael(g, y, i), n-1)
  useall k Str {dfind(g, x, k)} {dfind(g, y, k)} deqn_frame(s, g, h, b, c, dget(g, x, k), d, dget(g, y, k), n-1)
  decreases n
}
lemma deq_frame(s Bool, g H, h H, b Int, c Int, x Iface, d Int, y Iface) {
  trigger agree(g, h, b), deq(s, h, x, h, y), isdoc(g, c, x), isdoc(g, d, y)
  requires agree(g, h, b) && c <= b && d <= b && isdoc(g, c, x) && isdoc(g, d, y)
  ensures deq(s, h, x, h, y) == deq(s, g, x, g, y)
  use isdoc_frame(g, h, b, c, x)
  use deqn_frame(s, g, h, b, c, x, d, y, rank(g, x))
}
// equivalence
spec opaque nonan(h H, x Iface, n Int) Bool =
  n > 0 && (jk(x) == 3 ==> !fnan(select(hF(h), jr(x))))
  && (jk(x) == 5 ==> (forall i Int :: {ael(h, x, i)} 0 <= i && i < alen(h, x) ==> nonan(h, ael(h, x, i), n-1)))
  && (jk(x) == 6 ==> (forall i Int :: {dval(h, x, i)} 0 <= i && i < dlen(h, x) ==> nonan(h, dval(h, x, i), n-1)))
lemma deqn_refl(s Bool, h H, b Int, x Iface, n Int) {
  requires doc(h, b, x, n) && (!s ==> nonan(h, x, n))
  ensures deqn(s, h, x, h, x, n)
  use doc_get, mfind_char
  useall i Int {ael(h, x, i)} deqn_refl(s, h, b, ael(h, x, i), n-1)
  useall k Str {dfind(h, x, k)} deqn_refl(s, h, b, dget(h, x, k), n-1)
  assert forall k Str :: {dfind(h, x, k)} jk(x) == 6 && dfind(h, x, k) >= 0 ==> dval(h, x, dfind(h, x, k)) == dget(h, x, k)
  decreases n
}
lemma deq_refl(s Bool, h H, b Int, x Iface) {
  requires isdoc(h, b, x) && (!s ==> nonan(h, x, rank(h, x)))
  ensures deq(s, h, x, h, x)
  use deqn_refl(s, h, b, x, rank(h, x))
}
lemma deqn_height(s Bool, g H, x Iface, h H, c Int, y Iface, n Int, m Int) {
  requires deqn(s, g, x, h, y, n) && doc(h, c, y, m)
  ensures doc(h, c, y, n)
  use mfind_char, doc_get
  useall i Int {ael(h, y, i)} deqn_height(s, g, ael(g, x, i), h, c, ael(h, y, i), n-1, m-1)
  useall k Str {dfind(h, y, k)} deqn_height(s, g, dget(g, x, k), h, c, dget(h, y, k), n-1, m-1)
  assert forall i Int :: {dval(h, y, i)} {dkey(h, y, i)} jk(y) == 6 && 0 <= i && i < dlen(h, y) ==> dfind(h, y, dkey(h, y, i)) == i && dget(h, y, dkey(h, y, i)) == dval(h, y, i)
  decreases n
}
lemma deqn_sym(s Bool, g H, b Int, x Iface, h H, y Iface, n Int) {
  requires deqn(s, g, x, h, y, n) && doc(g, b, x, n)
  ensures deqn(s, h, y, g, x, n)
  use doc_get
  useall i Int {ael(g, x, i)} {ael(h, y, i)} deqn_sym(s, g, b, ael(g, x, i), h, ael(h, y, i), n-1)
  useall k Str {dfind(g, x, k)} {dfind(h, y, k)} deqn_sym(s, g, b, dget(g, x, k), h, dget(h, y, k), n-1)
  decreases n
}
lemma deqn_trans(s Bool, g H, b Int, x Iface, h H, c Int, y Iface, f H, z Iface, n Int) {
  requires doc(g, b, x, n) && doc(h, c, y, n) && deqn(s, g, x, h, y, n) && deqn(s, h, y, f, z, n)
  ensures deqn(s, g, x, f, z, n)
  use doc_get
  useall i Int {ael(g, x, i)} {ael(f, z, i)} deqn_trans(s, g, b, ael(g, x, i), h, c, ael(h, y, i), f, ael(f, z, i), n-1)
  useall k Str {dfind(g, x, k)} {dfind(f, z, k)} deqn_trans(s, g, b, dget(g, x, k), h, c, dget(h, y, k), f, dget(f, z, k), n-1)
  assert forall i Int :: {ael(g, x, i)} {ael(f, z, i)} ael(h, y, i) == ael(h, y, i)
  assert forall k Str :: {dfind(g, x, k)} {dfind(f, z, k)} dfind(h, y, k) == dfind(h, y, k)
  decreases n
}
lemma deq_sym(s Bool, h H, b Int, x Iface, y Iface) {
  requires isdoc(h, b, x) && isdoc(h, b, y)
  ensures deq(s, h, x, h, y) <==> deq(s, h, y, h, x)
  use rank_def
  use deqn_height(s, h, x, h, b, y, rank(h, x), rank(h, y)) when deq(s, h, x, h, y)
  use deqn_sym(s, h, b, x, h, y, rank(h, x)) when deq(s, h, x, h, y)
  use deqn_fuel(s, h, b, y, h, x, rank(h, x), rank(h, y)) when deq(s, h, x, h, y)
  use deqn_height(s, h, y, h, b, x, rank(h, y), rank(h, x)) when deq(s, h, y, h, x)
  use deqn_sym(s, h, b, y, h, x, rank(h, y)) when deq(s, h, y, h, x)
  use deqn_fuel(s, h, b, x, h, y, rank(h, y), rank(h, x)) when deq(s, h, y, h, x)
}
lemma deq_trans(s Bool, h H, b Int, x Iface, y Iface, z Iface) {
  requires isdoc(h, b, x) && isdoc(h, b, y) && isdoc(h, b, z)
  requires deq(s, h, x, h, y) && deq(s, h, y, h, z)
  ensures deq(s, h, x, h, z)
  use rank_def
  use deqn_height(s, h, x, h, b, y, rank(h, x), rank(h, y))
  use deqn_fuel(s, h, b, y, h, z, rank(h, y), rank(h, x))
  use deqn_trans(s, h, b, x, h, b, y, h, z, rank(h, x))
}
// two sorted lists with the same keys have the same length
lemma m_same(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, b `(Array Int St_sortedmap.sItem)`, bo Int, m Int) {
  requires n >= 0 && m >= 0 && msorted(a, ao, n) && msorted(b, bo, m)
  requires forall k Str :: {mfind(a, ao, n, k)} {mfind(b, bo, m, k)} mfind(a, ao, n, k) >= 0 <==> mfind(b, bo, m, k) >= 0
  ensures n == m
  use mfind_char
  assert n > 0 ==> mfind(a, ao, n, ikey(at(a, ao, n-1))) == n-1
  assert m > 0 ==> mfind(b, bo, m, ikey(at(b, bo, m-1))) == m-1
  assert n > 0 && m > 0 ==> ikey(at(b, bo, mfind(b, bo, m, ikey(at(a, ao, n-1))))) == ikey(at(a, ao, n-1)) && (ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1)) || ikey(at(a, ao, n-1)) < ikey(at(b, bo, m-1)))
  assert n > 0 && m > 0 ==> ikey(at(a, ao, mfind(a, ao, n, ikey(at(b, bo, m-1))))) == ikey(at(b, bo, m-1)) && (ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1)) || ikey(at(b, bo, m-1)) < ikey(at(a, ao, n-1)))
  assert n > 0 && m > 0 ==> ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1))
  use m_same(a, ao, n-1, b, bo, m-1) when n > 0 && m > 0
  decreases n
}
lemma deq_len(s Bool, g H, b Int, x Iface, h H, c Int, y Iface) {
  requires isdoc(g, b, x) && isdoc(h, c, y) && jk(x) == 6 && deq(s, g, x, h, y)
  ensures dlen(g, x) == dlen(h, y)
  use m_same(select(hMI(g), dsl(g, x).base), dsl(g, x).off, dlen(g, x), select(hMI(h), dsl(h, y).base), dsl(h, y).off, dlen(h, y))
}

use docs, eqs
theory docs : doc, rank_def, isdoc_frame, isdoc_up, isdoc_shape, isdoc_elem, isdoc_val, isdoc_get ` `
theory eqs : docs, deqth, deq_flat, deq_arr, deq_dict, deq_frame ` `
iface "JSONObject.Equals" (this, obj) {
  requires d: isdoc(hash(), next, this)
  requires e: obj == nil || isdoc(hash(), next, obj)
  ensures eq: result <==> (obj != nil && deq(false, old(hash()), this, old(hash()), obj))
  modifies nothing
  decreases rank(hash(), this)
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray).Equals" (this, obj) {
  invariant eq: forall j Int :: {ael(old(hash()), this, j)} 0 <= j && j < ix ==> deq(false, old(hash()), ael(old(hash()), this, j), old(hash()), ael(old(hash()), obj, j))
  // for a loop that counts down
  invariant loop 9 rev: forall j Int :: {ael(old(hash()), this, j)} n < j && j < alen(old(hash()), this) ==> deq(false, old(hash()), ael(old(hash()), this, j), old(hash()), ael(old(hash()), obj, j))
}
impl "(*JSONDict).Equals" (this, obj) {
  use deq_len
  hint deq_len(false, old(hash()), old(next), this, old(hash()), old(next), obj) when obj != nil && isdoc(old(hash()), old(next), obj)
  invariant eq: forall k Str :: {dfind(old(hash()), this, k)} sm_has(aB, k) && sm_find(aB, k) < ix ==> deq(false, old(hash()), dget(old(hash()), this, k), old(hash()), dget(old(hash()), obj, k))
}
property C12 {
  funcs "JSONObject.Equals"
  lemmas deq_refl, deq_sym, deq_trans, deq_flat, deq_arr, deq_dict
  safety termination
}
