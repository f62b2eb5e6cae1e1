// ---- filtered copies (C14) ----
use smap, mfind_char, mlb_char, mfind_step, mfind_zero, m_split, json, docs
func "utils.InArray2[string]" (val, array) {
  ensures in: result0 <==> (exists j Int :: {array[j]} 0 <= j && j < len(array) && array[j] == val)
  modifies nothing
  invariant none: forall j Int :: {array[j]} 0 <= j && j < ix ==> array[j] != val
  invariant nok: !ok
}
func "utils.InStringArray" (val, array) {
  ensures in: result0 <==> (exists j Int :: {array[j]} 0 <= j && j < len(array) && array[j] == val)
  modifies nothing
}
// v is among the first n of the names
macro among(k, ks) = exists j Int :: {ks[j]} 0 <= j && j < len(ks) && ks[j] == k
macro itm(it) = mem(it.smap)
func "(*JSONDict).CopyExcludes" (this, excludes) {
  requires nonpanic: this != nil
  requires d: d_ok(this) && mjson(mem(this.data), this.data.off, len(this.data))
  ensures new: result != nil && fresh(result) && fresh(result.data) && d_ok(result)
  ensures keys: forall k Str :: {d_find(result, k)} {old(d_find(this, k))} d_has(result, k) <==> (old(d_has(this, k)) && !old(among(k, excludes)))
  ensures vals: forall k Str :: {d_find(result, k)} d_has(result, k) ==> d_get(result, k) == old(d_get(this, k))
  modifies nothing
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == old(this.data)
  invariant own: fresh(dict.data) && d_ok(dict)
  invariant keys: forall k Str :: {d_find(dict, k)} {mfind(old(mem(this.data)), iter.smap.off, iter.index, k)} d_has(dict, k) <==> (mfind(old(mem(this.data)), iter.smap.off, iter.index, k) >= 0 && !old(among(k, excludes)))
  invariant vals: forall k Str :: {d_find(dict, k)} d_has(dict, k) ==> d_get(dict, k) == mget(old(mem(this.data)), iter.smap.off, iter.index, k)
  decreases loop 0 len(iter.smap) - iter.index
}
func "(*JSONDict).CopyIncludes" (this, includes) {
  requires nonpanic: this != nil
  requires d: d_ok(this) && mjson(mem(this.data), this.data.off, len(this.data))
  ensures new: result != nil && fresh(result) && fresh(result.data) && d_ok(result)
  ensures keys: forall k Str :: {d_find(result, k)} {old(d_find(this, k))} d_has(result, k) <==> (old(d_has(this, k)) && old(among(k, includes)))
  ensures vals: forall k Str :: {d_find(result, k)} d_has(result, k) ==> d_get(result, k) == old(d_get(this, k))
  modifies nothing
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == old(this.data)
  invariant own: fresh(dict.data) && d_ok(dict)
  invariant keys: forall k Str :: {d_find(dict, k)} {mfind(old(mem(this.data)), iter.smap.off, iter.index, k)} d_has(dict, k) <==> (mfind(old(mem(this.data)), iter.smap.off, iter.index, k) >= 0 && old(among(k, includes)))
  invariant vals: forall k Str :: {d_find(dict, k)} d_has(dict, k) ==> d_get(dict, k) == mget(old(mem(this.data)), iter.smap.off, iter.index, k)
  decreases loop 0 len(iter.smap) - iter.index
}
func "(*JSONDict).Copy" (this, excludes) {
  requires nonpanic: this != nil
  requires d: d_ok(this) && mjson(mem(this.data), this.data.off, len(this.data))
  ensures new: result != nil && fresh(result) && fresh(result.data) && d_ok(result)
  ensures keys: forall k Str :: {d_find(result, k)} {old(d_find(this, k))} d_has(result, k) <==> (old(d_has(this, k)) && !old(among(k, excludes)))
  ensures vals: forall k Str :: {d_find(result, k)} d_has(result, k) ==> d_get(result, k) == old(d_get(this, k))
  modifies nothing
}
property C14 {
  funcs "(*JSONDict).Copy", "(*JSONDict).CopyExcludes", "(*JSONDict).CopyIncludes", "(*JSONArray).Copy"
  safety termination
}
