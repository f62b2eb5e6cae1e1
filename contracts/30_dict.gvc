// ---- dictionaries ----
use smap, mfind_char, mlb_char, json
theory json `
; an interface value holding a non-nil document node
(define-fun isjson ((v Iface)) Bool (and ((_ is iref) v) (isJSONTag (it v)) (< 0 (ir v))))
`
// the stored values of a dictionary are documents
spec mjson(a `(Array Int St_sortedmap.sItem)`, o Int, n Int) Bool =
  forall i Int :: {at(a, o, i)} 0 <= i && i < n ==> isjson(ival(at(a, o, i)))
macro d_ok(d) = sm_sorted(d.data)
macro d_has(d, k) = sm_has(d.data, k)
macro d_find(d, k) = sm_find(d.data, k)
macro d_get(d, k) = sm_get(d.data, k)

func "(*JSONDict).Set" (this, key, value) {
  requires nonpanic: this != nil
  requires s: d_ok(this)
  ensures sorted: d_ok(this)
  ensures size: len(this.data) == old(len(this.data)) + (old(d_has(this, key)) ? 0 : 1)
  ensures dom: forall k Str :: {d_find(this, k)} d_has(this, k) <==> (k == key || old(d_has(this, k)))
  ensures view: forall k Str :: {d_find(this, k)} d_get(this, k) == (k == key ? value : old(d_get(this, k)))
  ensures own: this.data.base == old(this.data.base) || fresh(this.data)
  ensures nn: this.data != nil
  modifies this.data, mem(this.data)
}
func "(*JSONDict).remove" (this, key, caseSensitive) {
  internal
  use fold
  requires nonpanic: this != nil
  requires s: d_ok(this)
  ensures sorted: d_ok(this)
  ensures exact: caseSensitive ==> (result <==> old(d_has(this, key)))
  ensures size: len(this.data) == old(len(this.data)) - (result ? 1 : 0)
  ensures same: !result ==> this.data == old(this.data) && mem(this.data) == old(mem(this.data))
  ensures dom: caseSensitive ==> (forall k Str :: {d_find(this, k)} d_has(this, k) <==> (k != key && old(d_has(this, k))))
  ensures view: caseSensitive ==> (forall k Str :: {d_find(this, k)} d_get(this, k) == (k == key ? nil : old(d_get(this, k))))
  ensures ifound: !caseSensitive && result ==> (exists c Str :: {old(d_find(this, c))} old(d_has(this, c)) && eqfold(c, key) && (forall k Str :: {d_find(this, k)} (d_has(this, k) <==> (k != c && old(d_has(this, k)))) && d_get(this, k) == (k == c ? nil : old(d_get(this, k)))))
  ensures imiss: !caseSensitive && !result ==> (forall k Str :: {old(d_find(this, k))} old(d_has(this, k)) ==> !eqfold(k, key))
  ensures own: this.data.base == old(this.data.base)
  modifies this.data, mem(this.data)
}
func "(*JSONDict).Remove" (this, key) {
  requires nonpanic: this != nil
  requires s: d_ok(this)
  ensures sorted: d_ok(this)
  ensures hit: result <==> old(d_has(this, key))
  ensures size: len(this.data) == old(len(this.data)) - (result ? 1 : 0)
  ensures dom: forall k Str :: {d_find(this, k)} d_has(this, k) <==> (k != key && old(d_has(this, k)))
  ensures view: forall k Str :: {d_find(this, k)} d_get(this, k) == (k == key ? nil : old(d_get(this, k)))
  modifies this.data, mem(this.data)
}
func "(*JSONDict).RemoveIgnoreCase" (this, key) {
  use fold
  requires nonpanic: this != nil
  requires s: d_ok(this)
  ensures sorted: d_ok(this)
  ensures gone: forall k Str :: {d_find(this, k)} d_has(this, k) ==> !eqfold(k, key)
  ensures kept: forall k Str :: {d_find(this, k)} d_has(this, k) <==> (old(d_has(this, k)) && !eqfold(k, key))
  ensures view: forall k Str :: {d_find(this, k)} d_has(this, k) ==> d_get(this, k) == old(d_get(this, k))
  ensures hit: result <==> (exists k Str :: {old(d_find(this, k))} old(d_has(this, k)) && eqfold(k, key))
  modifies this.data, mem(this.data)
  invariant sorted: d_ok(this)
  invariant own: this.data.base == old(this.data.base)
  invariant sub: forall k Str :: {d_find(this, k)} d_has(this, k) ==> old(d_has(this, k)) && d_get(this, k) == old(d_get(this, k))
  invariant other: forall k Str :: {d_find(this, k)} {old(d_find(this, k))} old(d_has(this, k)) && !eqfold(k, key) ==> d_has(this, k)
  invariant none: !someRemoved ==> this.data == old(this.data) && mem(this.data) == old(mem(this.data))
  invariant some: someRemoved ==> (exists k Str :: {old(d_find(this, k))} old(d_has(this, k)) && eqfold(k, key))
  decreases loop 0 len(this.data)
}
func "(*JSONDict).Size" (this) {
  requires nonpanic: this != nil
  ensures n: result == len(this.data)
  modifies nothing
}
func "(*JSONDict).Length" (this) {
  requires nonpanic: this != nil
  ensures n: result == len(this.data)
  modifies nothing
}
func "(*JSONDict).SortedKeys" (this) {
  requires nonpanic: this != nil
  requires s: d_ok(this)
  ensures len: len(result) == len(this.data)
  ensures keys: forall i Int :: {result[i]} 0 <= i && i < len(result) ==> result[i] == this.data[i].key && d_has(this, result[i])
  ensures all: forall k Str :: {d_find(this, k)} d_has(this, k) ==> 0 <= d_find(this, k) && d_find(this, k) < len(result) && result[d_find(this, k)] == k
  ensures asc: forall i Int, j Int :: {result[i], result[j]} 0 <= i && i < j && j < len(result) ==> result[i] < result[j]
  modifies nothing
}
