// ---- arrays (C11) ----
use smap
func "NewArray" (objs) {
  ensures new: result != nil && fresh(result) && fresh(result.data)
  ensures len: len(result.data) == len(objs)
  ensures el: forall i Int :: {result.data[i]} 0 <= i && i < len(objs) ==> result.data[i] == old(objs[i])
  modifies nothing
  invariant len: len(arr.data) == ix && fresh(arr.data)
  invariant el: forall j Int :: {arr.data[j]} 0 <= j && j < ix ==> arr.data[j] == old(objs[j])
}
func "(*JSONArray).GetAt" (this, i, keys) {
  requires nonpanic: this != nil
  ensures keys: len(keys) > 0 ==> result0 == nil && result1 != nil
  ensures pos: len(keys) == 0 && 0 <= i && i < len(this.data) ==> result0 == this.data[i] && result1 == nil
  ensures neg: len(keys) == 0 && 0-len(this.data) <= i && i < 0 ==> result0 == this.data[len(this.data) + i] && result1 == nil
  ensures out: len(keys) == 0 && (i >= len(this.data) || i < 0-len(this.data)) ==> result0 == nil && result1 != nil
  modifies nothing
}
func "(*JSONArray).SetAt" (this, idx, obj) {
  requires nonpanic: this != nil && 0 <= idx && idx < len(this.data)
  ensures set: this.data[idx] == obj
  ensures others: forall j Int :: {this.data[j]} 0 <= j && j < len(this.data) && j != idx ==> this.data[j] == old(this.data[j])
  ensures same: this.data == old(this.data)
  modifies mem(this.data)
}
func "(*JSONArray).Add" (this, objs) {
  requires nonpanic: this != nil
  requires apart: objs == nil || objs.base != this.data.base || len(this.data) == cap(this.data)
  ensures full: old(len(this.data) == cap(this.data)) ==> select(comp("mem$jsonutils.JSONObject"), old(this.data.base)) == old(select(comp("mem$jsonutils.JSONObject"), this.data.base))
  ensures len: len(this.data) == old(len(this.data)) + len(objs)
  ensures kept: forall i Int :: {this.data[i]} 0 <= i && i < old(len(this.data)) ==> this.data[i] == old(this.data[i])
  ensures new: forall i Int :: {this.data[i]} old(len(this.data)) <= i && i < len(this.data) ==> this.data[i] == old(objs[i - len(this.data)])
  ensures own: this.data.base == old(this.data.base) || fresh(this.data)
  modifies this.data, mem(this.data)
  invariant full: old(len(this.data) == cap(this.data)) ==> select(comp("mem$jsonutils.JSONObject"), old(this.data.base)) == old(select(comp("mem$jsonutils.JSONObject"), this.data.base)) && (this.data == old(this.data) || fresh(this.data))
  invariant len: len(this.data) == old(len(this.data)) + ix
  invariant kept: forall i Int :: {this.data[i]} 0 <= i && i < old(len(this.data)) ==> this.data[i] == old(this.data[i])
  invariant new: forall i Int :: {this.data[i]} old(len(this.data)) <= i && i < len(this.data) ==> this.data[i] == old(objs[i - len(this.data)])
  invariant own: this.data.base == old(this.data.base) || fresh(this.data)
}
func "(*JSONArray).GetArray" (this, keys) {
  requires nonpanic: this != nil
  ensures keys: len(keys) > 0 ==> result1 != nil && len(result0) == 0
  ensures ok: len(keys) == 0 ==> result1 == nil && len(result0) == len(this.data) && fresh(result0)
  ensures el: len(keys) == 0 ==> (forall i Int :: {result0[i]} 0 <= i && i < len(this.data) ==> result0[i] == this.data[i])
  modifies nothing
  invariant el: forall j Int :: {ret[j]} 0 <= j && j < ix ==> ret[j] == this.data[j]
}
func "(*JSONArray).Copy" (this) {
  requires nonpanic: this != nil
  ensures new: result != nil && fresh(result) && fresh(result.data)
  ensures len: len(result.data) == len(this.data)
  ensures el: forall i Int :: {result.data[i]} 0 <= i && i < len(this.data) ==> result.data[i] == this.data[i]
  modifies nothing
  invariant len: len(arr.data) == ix && fresh(arr.data)
  invariant el: forall j Int :: {arr.data[j]} 0 <= j && j < ix ==> arr.data[j] == this.data[j]
}
func "(*JSONArray).Length" (this) {
  requires nonpanic: this != nil
  ensures n: result == len(this.data)
  modifies nothing
}
func "(*JSONArray).Size" (this) {
  requires nonpanic: this != nil
  ensures n: result == len(this.data)
  modifies nothing
}
property C11 {
  funcs "JSONObject.GetAt", "JSONObject.GetArray", "NewArray", "(*JSONArray).GetAt", "(*JSONArray).SetAt", "(*JSONArray).Add", "(*JSONArray).GetArray", "(*JSONArray).Copy", "(*JSONArray).Length", "(*JSONArray).Size"
  safety termination
}
