// ---- merging and comparing dictionaries (C15, C16) ----
use smap, mfind_char, mlb_char, mfind_step, mfind_zero, m_split, json, docs, eqs
func "(*JSONDict).Update" (dict, json) {
  requires nonpanic: dict != nil
  requires d: d_ok(dict) && (jk(json) == 6 ==> jr(json) > 0 && dsorted(hash(), json))
  ensures other: jk(json) != 6 ==> dict.data == old(dict.data)
  ensures sorted: d_ok(dict)
  ensures dom: jk(json) == 6 ==> (forall k Str :: {d_find(dict, k)} d_has(dict, k) <==> (old(d_has(dict, k)) || dfind(old(hash()), json, k) >= 0))
  ensures over: jk(json) == 6 ==> (forall k Str :: {d_find(dict, k)} dfind(old(hash()), json, k) >= 0 ==> d_get(dict, k) == dget(old(hash()), json, k))
  ensures kept: jk(json) == 6 ==> (forall k Str :: {d_find(dict, k)} dfind(old(hash()), json, k) < 0 ==> d_get(dict, k) == old(d_get(dict, k)))
  modifies dict.data
}
func "(*JSONDict).UpdateDefault" (dict, json) {
  requires nonpanic: dict != nil
  requires d: d_ok(dict) && (jk(json) == 6 ==> jr(json) > 0 && dsorted(hash(), json))
  ensures other: jk(json) != 6 ==> dict.data == old(dict.data)
  ensures sorted: d_ok(dict)
  ensures dom: jk(json) == 6 ==> (forall k Str :: {d_find(dict, k)} d_has(dict, k) <==> (old(d_has(dict, k)) || dfind(old(hash()), json, k) >= 0))
  ensures kept: forall k Str :: {d_find(dict, k)} old(d_has(dict, k)) ==> d_get(dict, k) == old(d_get(dict, k))
  ensures fill: jk(json) == 6 ==> (forall k Str :: {d_find(dict, k)} !old(d_has(dict, k)) ==> d_get(dict, k) == dget(old(hash()), json, k))
  modifies dict.data
}
property C15 {
  funcs "(*JSONDict).Update", "(*JSONDict).UpdateDefault"
  safety termination
}
// the entry at a position is the one found under its key, and no other
lemma m_at(a `(Array Int St_sortedmap.sItem)`, o Int, n Int, i Int, key Str) {
  use smap, mfind_char
  requires 0 <= i && i < n && msorted(a, o, n) && ikey(at(a, o, i)) == key
  ensures mfind(a, o, n, key) == i
  ensures forall k Str :: {mfind(a, o, n, k)} mfind(a, o, n, k) == i ==> k == key
}
use smap, mfind_char, json, docs, deqth, deq_frame
macro dv(h, a, k) = dget(h, iface(a), k)
macro dh(h, a, k) = dfind(h, iface(a), k) >= 0
macro same(h, a, b, k) = deq(false, h, dget(h, iface(a), k), h, dget(h, iface(b), k))
func "Diff" (a, b) {
  requires nonpanic: a != nil && b != nil
  requires d: isdoc(hash(), next, iface(a)) && isdoc(hash(), next, iface(b))
  ensures onlya: forall k Str :: {d_find(result0, k)} {dfind(old(hash()), iface(a), k)} d_has(result0, k) <==> (dh(old(hash()), a, k) && !dh(old(hash()), b, k))
  ensures onlyaval: forall k Str :: {d_find(result0, k)} d_has(result0, k) ==> d_get(result0, k) == dv(old(hash()), a, k)
  ensures diff: forall k Str :: {d_find(result1, k)} {dfind(old(hash()), iface(a), k)} d_has(result1, k) <==> (dh(old(hash()), a, k) && dh(old(hash()), b, k) && !same(old(hash()), a, b, k))
  ensures pair: forall k Str :: {d_find(result1, k)} d_has(result1, k) ==> let v = d_get(result1, k) in (jk(v) == 5 && alen(hash(), v) == 2 && ael(hash(), v, 0) == dv(old(hash()), a, k) && ael(hash(), v, 1) == dv(old(hash()), b, k))
  ensures both: forall k Str :: {d_find(result2, k)} {dfind(old(hash()), iface(a), k)} d_has(result2, k) <==> (dh(old(hash()), a, k) && dh(old(hash()), b, k) && same(old(hash()), a, b, k))
  ensures bothval: forall k Str :: {d_find(result2, k)} d_has(result2, k) ==> d_get(result2, k) == dv(old(hash()), a, k)
  ensures onlyb: forall k Str :: {d_find(result3, k)} {dfind(old(hash()), iface(b), k)} d_has(result3, k) <==> (dh(old(hash()), b, k) && !dh(old(hash()), a, k))
  ensures onlybval: forall k Str :: {d_find(result3, k)} d_has(result3, k) ==> d_get(result3, k) == dv(old(hash()), b, k)
  ensures sorted: d_ok(result0) && d_ok(result1) && d_ok(result2) && d_ok(result3)
  ensures own: fresh(result0) && fresh(result1) && fresh(result2) && fresh(result3)
  modifies nothing
  callhint "(sortedmap.SSortedMap).Get" m_at(mem(a0), a0.off, len(a0), ix, a1)
  invariant own: fresh(aDiffB.data) && fresh(aAndB.data) && d_ok(aDiffB) && d_ok(aAndB)
  invariant sep: aDiffB.data.base != aAndB.data.base && aDiffB.data.base != aNoB.data.base && aDiffB.data.base != bNoA.data.base && aDiffB.data.base != aData.base && aDiffB.data.base != bData.base && aAndB.data.base != aNoB.data.base && aAndB.data.base != bNoA.data.base && aAndB.data.base != aData.base && aAndB.data.base != bData.base
  invariant diff: forall k Str :: {d_find(aDiffB, k)} {sm_find(aData, k)} d_has(aDiffB, k) <==> (sm_has(aData, k) && sm_find(aData, k) < ix && !same(old(hash()), a, b, k))
  invariant both: forall k Str :: {d_find(aAndB, k)} {sm_find(aData, k)} d_has(aAndB, k) <==> (sm_has(aData, k) && sm_find(aData, k) < ix && same(old(hash()), a, b, k))
  invariant pair: forall k Str :: {d_find(aDiffB, k)} d_has(aDiffB, k) ==> let v = d_get(aDiffB, k) in (jk(v) == 5 && 0 < jr(v) && jr(v) < next && 0 <= asl(hash(), v).base && asl(hash(), v).base < next && alen(hash(), v) == 2 && ael(hash(), v, 0) == dv(old(hash()), a, k) && ael(hash(), v, 1) == dv(old(hash()), b, k))
  invariant bothval: forall k Str :: {d_find(aAndB, k)} d_has(aAndB, k) ==> d_get(aAndB, k) == dv(old(hash()), a, k)
}
property C16 {
  funcs "Diff"
  safety termination
}
