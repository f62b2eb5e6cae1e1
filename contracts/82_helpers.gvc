// ---- list and field helpers (C26) ----
use docs, paths, texts, errth, pget_one, rtext_frame
// what GetString gives for the member k of x, empty if there is none
macro one(h, x, k) = jk(x) == 6 ? dget(h, x, k) : nil
macro strof(h, v) = v == nil ? "" : (jk(v) == 1 ? select(hS(h), jr(v)) : rtext(h, v))
macro isnull(v) = v == iface(JSONNull)
// the i-th required field is missing or the shared null
macro offends(h, x, f) = dfind(h, x, f) < 0 || isnull(dget(h, x, f))
func "CheckRequiredFields" (data, fields) {
  requires nonpanic: data != nil
  requires d: isdoc(hash(), next, data)
  ensures kind: jk(data) != 6 ==> result != nil
  ensures ok: jk(data) == 6 ==> (result == nil <==> (forall j Int :: {fields[j]} 0 <= j && j < len(fields) ==> !offends(old(hash()), data, fields[j])))
  ensures first: jk(data) == 6 && result != nil ==> (exists j Int :: {fields[j]} 0 <= j && j < len(fields) && offends(old(hash()), data, fields[j]) && emsg(result) == fields[j] && ewraps(result) == (dfind(old(hash()), data, fields[j]) < 0 ? iface(ErrMissingInputField) : iface(ErrNilInputField)) && (forall i Int :: {fields[i]} 0 <= i && i < j ==> !offends(old(hash()), data, fields[i])))
  modifies nothing
  invariant ok: forall j Int :: {fields[j]} 0 <= j && j < ix ==> !offends(old(hash()), data, fields[j])
}
func "JSONArray2StringArray" (arr) {
  requires d: forall j Int :: {arr[j]} 0 <= j && j < len(arr) ==> isdoc(hash(), next, arr[j])
  ensures len: len(result) == len(arr) && fresh(result)
  ensures el: forall j Int :: {result[j]} 0 <= j && j < len(arr) ==> result[j] == strof(old(hash()), arr[j])
  modifies nothing
  invariant el: forall j Int :: {ret[j]} 0 <= j && j < ix ==> ret[j] == strof(old(hash()), arr[j])
}
func "(*JSONArray).GetStringArray" (this) {
  requires nonpanic: this != nil
  requires d: isdoc(hash(), next, iface(this))
  ensures len: len(result) == len(this.data) && fresh(result)
  ensures el: forall j Int :: {result[j]} 0 <= j && j < len(this.data) ==> result[j] == strof(old(hash()), ael(old(hash()), iface(this), j))
  modifies nothing
  invariant el: forall j Int :: {ret[j]} 0 <= j && j < ix ==> ret[j] == strof(old(hash()), ael(old(hash()), iface(this), j))
}
func "GetStringArray" (o, key) {
  requires nonpanic: o != nil
  requires d: isdoc(hash(), next, o)
  ensures arr: let v = PV(old(hash()), o, key) in (jk(v) == 5 ==> result1 == nil && len(result0) == alen(old(hash()), v) && (forall j Int :: {result0[j]} 0 <= j && j < len(result0) ==> result0[j] == strof(old(hash()), ael(old(hash()), v, j))))
  ensures one: let v = PV(old(hash()), o, key) in (1 <= jk(v) && jk(v) <= 4 ==> result1 == nil && len(result0) == 1 && result0[0] == strof(old(hash()), v))
  ensures other: let v = PV(old(hash()), o, key) in (v == nil || jk(v) == 6 || jk(v) == 7 ==> result1 != nil && len(result0) == 0)
  modifies nothing
}
func "NewStringArray" (arr) {
  ensures new: result != nil && fresh(result) && fresh(result.data)
  ensures len: len(result.data) == len(arr)
  ensures el: forall j Int :: {result.data[j]} 0 <= j && j < len(arr) ==> jk(result.data[j]) == 1 && fresh(result.data[j]) && select(hS(hash()), jr(result.data[j])) == old(arr[j])
  modifies nothing
  invariant own: fresh(ret) && fresh(ret.data) && len(ret.data) == ix
  invariant el: forall j Int :: {ret.data[j]} 0 <= j && j < ix ==> jk(ret.data[j]) == 1 && fresh(ret.data[j]) && select(hS(hash()), jr(ret.data[j])) == old(arr[j])
}
macro named(h, x, k) = strof(h, one(h, x, k))
func "GetAnyString2" (json, keys) {
  requires d: json == nil || isdoc(hash(), next, json)
  ensures none: json == nil || (forall j Int :: {keys[j]} 0 <= j && j < len(keys) ==> named(old(hash()), json, keys[j]) == "") ==> result0 == "" && result1 == ""
  ensures some: json != nil && (exists j Int :: {keys[j]} 0 <= j && j < len(keys) && named(old(hash()), json, keys[j]) != "") ==> (exists j Int :: {keys[j]} 0 <= j && j < len(keys) && result1 == keys[j] && result0 != "" && result0 == named(old(hash()), json, keys[j]) && (forall i Int :: {keys[i]} 0 <= i && i < j ==> named(old(hash()), json, keys[i]) == ""))
  modifies nothing
  invariant none: forall j Int :: {keys[j]} 0 <= j && j < ix ==> named(old(hash()), json, keys[j]) == ""
}
func "GetAnyString" (json, keys) {
  requires d: json == nil || isdoc(hash(), next, json)
  ensures none: json == nil || (forall j Int :: {keys[j]} 0 <= j && j < len(keys) ==> named(old(hash()), json, keys[j]) == "") ==> result == ""
  ensures some: json != nil && (exists j Int :: {keys[j]} 0 <= j && j < len(keys) && named(old(hash()), json, keys[j]) != "") ==> (exists j Int :: {keys[j]} 0 <= j && j < len(keys) && result != "" && result == named(old(hash()), json, keys[j]) && (forall i Int :: {keys[i]} 0 <= i && i < j ==> named(old(hash()), json, keys[i]) == ""))
  modifies nothing
}
macro nth(h, x, p, i) = one(h, x, p ++ "." ++ itoa(i))
func "GetArrayOfPrefix" (json, prefix) {
  requires d: json == nil || isdoc(hash(), next, json)
  ensures nil: json == nil ==> len(result) == 0
  ensures el: json != nil ==> (forall j Int :: {result[j]} 0 <= j && j < len(result) ==> result[j] == nth(old(hash()), json, prefix, j) && result[j] != nil && !isnull(result[j]))
  ensures gap: json != nil ==> nth(old(hash()), json, prefix, len(result)) == nil || isnull(nth(old(hash()), json, prefix, len(result)))
  modifies nothing
  invariant n: len(retArray) == idx && fresh(retArray)
  invariant el: forall j Int :: {retArray[j]} 0 <= j && j < idx ==> retArray[j] == nth(old(hash()), json, prefix, j) && retArray[j] != nil && !isnull(retArray[j])
}
func "GetQueryStringArray" (query, key) {
  requires d: query == nil || isdoc(hash(), next, query)
  ensures nil: query == nil ==> len(result) == 0
  ensures none: query != nil ==> let v = one(old(hash()), query, key) in (v == nil || jk(v) == 2 || jk(v) == 3 || jk(v) == 4 || jk(v) == 7 ==> len(result) == 0)
  ensures arr: query != nil ==> let v = one(old(hash()), query, key) in (jk(v) == 5 ==> len(result) == alen(old(hash()), v) && (forall j Int :: {result[j]} 0 <= j && j < len(result) ==> result[j] == strof(old(hash()), ael(old(hash()), v, j))))
  ensures str: query != nil ==> let v = one(old(hash()), query, key) in (jk(v) == 1 ==> len(result) == 1 && result[0] == select(hS(old(hash())), jr(v)))
  ensures dict: query != nil ==> let v = one(old(hash()), query, key) in (jk(v) == 6 ==> dfind(old(hash()), v, itoa(len(result))) < 0 && (forall j Int :: {result[j]} {itoa(j)} 0 <= j && j < len(result) ==> dfind(old(hash()), v, itoa(j)) >= 0 && result[j] == strof(old(hash()), dget(old(hash()), v, itoa(j)))))
  modifies nothing
  invariant n: len(arr) == idx && fresh(arr)
  invariant el: let v = one(old(hash()), query, key) in (forall j Int :: {arr[j]} {itoa(j)} 0 <= j && j < idx ==> dfind(old(hash()), v, itoa(j)) >= 0 && arr[j] == strof(old(hash()), dget(old(hash()), v, itoa(j))))
}
property C26 {
  funcs "CheckRequiredFields", "JSONArray2StringArray", "(*JSONArray).GetStringArray", "GetStringArray", "NewStringArray", "GetAnyString", "GetAnyString2", "GetArrayOfPrefix", "GetQueryStringArray"
  safety
}
