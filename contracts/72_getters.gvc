// ---- typed getters (C18) and element access through a path (C11) ----
use docs, paths, strconv, fold
macro PV(h, x, ks) = pget(h, x, mem(ks), ks.off, len(ks))
iface "JSONObject.Get" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures hit: jk(this) == 6 && PV(old(hash()), this, keys) != nil ==> result1 == nil && result0 == PV(old(hash()), this, keys)
  ensures miss: jk(this) != 6 || PV(old(hash()), this, keys) == nil ==> result0 == nil && result1 != nil
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.Contains" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures r: result <==> (jk(this) == 6 && PV(old(hash()), this, keys) != nil)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.Int" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures int: let v = PV(old(hash()), this, keys) in (jk(v) == 2 ==> result1 == nil && result0 == select(hI(old(hash())), jr(v)))
  ensures str: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && pintok(select(hS(old(hash())), jr(v))) ==> result1 == nil && result0 == pint(select(hS(old(hash())), jr(v))))
  ensures bad: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && !pintok(select(hS(old(hash())), jr(v))) ==> result1 != nil && result0 == 0)
  ensures other: let v = PV(old(hash()), this, keys) in (jk(v) != 1 && jk(v) != 2 ==> result1 != nil && result0 == 0)
  modifies nothing
  decreases jk(this) == 6 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.Float" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures flt: let v = PV(old(hash()), this, keys) in (jk(v) == 3 ==> result1 == nil && result0 == select(hF(old(hash())), jr(v)))
  ensures int: let v = PV(old(hash()), this, keys) in (jk(v) == 2 ==> result1 == nil && result0 == i2f(select(hI(old(hash())), jr(v))))
  ensures str: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && pfok(select(hS(old(hash())), jr(v))) ==> result1 == nil && result0 == pfval(select(hS(old(hash())), jr(v))))
  ensures bad: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && !pfok(select(hS(old(hash())), jr(v))) ==> result1 != nil && result0 == flt_zero)
  ensures other: let v = PV(old(hash()), this, keys) in (jk(v) != 1 && jk(v) != 2 && jk(v) != 3 ==> result1 != nil && result0 == flt_zero)
  modifies nothing
  decreases jk(this) == 6 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
macro wtrue(s) = eqfold(s, "true") || eqfold(s, "on") || eqfold(s, "yes") || s == "1"
macro wfalse(s) = eqfold(s, "false") || eqfold(s, "off") || eqfold(s, "no") || s == "0"
iface "JSONObject.Bool" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures bool: let v = PV(old(hash()), this, keys) in (jk(v) == 4 ==> result1 == nil && (result0 <==> select(hB(old(hash())), jr(v))))
  ensures yes: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && wtrue(select(hS(old(hash())), jr(v))) ==> result1 == nil && result0)
  ensures no: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && !wtrue(select(hS(old(hash())), jr(v))) && wfalse(select(hS(old(hash())), jr(v))) ==> result1 == nil && !result0)
  ensures bad: let v = PV(old(hash()), this, keys) in (jk(v) == 1 && !wtrue(select(hS(old(hash())), jr(v))) && !wfalse(select(hS(old(hash())), jr(v))) ==> result1 != nil && !result0)
  ensures other: let v = PV(old(hash()), this, keys) in (jk(v) != 1 && jk(v) != 4 ==> result1 != nil && !result0)
  modifies nothing
  decreases jk(this) == 6 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.GetString" (this, keys) {
  use texts
  requires d: isdoc(hash(), next, this)
  ensures str: let v = PV(old(hash()), this, keys) in (jk(v) == 1 ==> result1 == nil && result0 == select(hS(old(hash())), jr(v)))
  ensures text: let v = PV(old(hash()), this, keys) in (v != nil && jk(v) != 1 ==> result1 == nil && result0 == rtext(old(hash()), v))
  ensures none: let v = PV(old(hash()), this, keys) in (v == nil ==> result1 != nil && result0 == "")
  modifies nothing
  decreases len(keys) > 0 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.GetAt" (this, i, keys) {
  requires d: isdoc(hash(), next, this)
  ensures pos: let v = PV(old(hash()), this, keys) in (jk(v) == 5 && 0 <= i && i < alen(old(hash()), v) ==> result1 == nil && result0 == ael(old(hash()), v, i))
  ensures neg: let v = PV(old(hash()), this, keys) in (jk(v) == 5 && 0-alen(old(hash()), v) <= i && i < 0 ==> result1 == nil && result0 == ael(old(hash()), v, alen(old(hash()), v) + i))
  ensures out: let v = PV(old(hash()), this, keys) in (jk(v) != 5 || i >= alen(old(hash()), v) || i < 0-alen(old(hash()), v) ==> result1 != nil && result0 == nil)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.GetArray" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures arr: let v = PV(old(hash()), this, keys) in (jk(v) == 5 ==> result1 == nil && len(result0) == alen(old(hash()), v) && fresh(result0) && (forall i Int :: {result0[i]} 0 <= i && i < len(result0) ==> result0[i] == ael(old(hash()), v, i)))
  ensures one: let v = PV(old(hash()), this, keys) in (1 <= jk(v) && jk(v) <= 4 ==> result1 == nil && len(result0) == 1 && result0[0] == v && fresh(result0))
  ensures other: let v = PV(old(hash()), this, keys) in (v == nil || jk(v) == 6 || jk(v) == 7 ==> result1 != nil && len(result0) == 0)
  modifies nothing
  decreases jk(this) == 6 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.GetMap" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures map: let v = PV(old(hash()), this, keys) in (jk(v) == 6 ==> result1 == nil && result0 != nil && fresh(result0) && (forall k Str :: {mapdom(result0)[k]} {dfind(old(hash()), v, k)} (mapdom(result0)[k] <==> dfind(old(hash()), v, k) >= 0) && (mapdom(result0)[k] ==> mapval(result0)[k] == dget(old(hash()), v, k))))
  ensures other: let v = PV(old(hash()), this, keys) in (jk(v) != 6 ==> result1 != nil && result0 == nil)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray).GetArray" (this, keys) {
  invariant el: forall j Int :: {ret[j]} 0 <= j && j < ix ==> ret[j] == ael(old(hash()), this, j)
}
impl "(*JSONDict).GetMap" (this, keys) {
  use mfind_step, mfind_zero, m_split
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == dsl(old(hash()), obj) && jk(obj) == 6
  invariant m: forall k Str :: {mapdom(ret)[k]} {mfind(mem(iter.smap), iter.smap.off, iter.index, k)} (mapdom(ret)[k] <==> mfind(mem(iter.smap), iter.smap.off, iter.index, k) >= 0) && (mapdom(ret)[k] ==> mapval(ret)[k] == mget(mem(iter.smap), iter.smap.off, iter.index, k))
  decreases loop 0 len(iter.smap) - iter.index
}
property C18 {
  funcs "JSONObject.Int", "JSONObject.Float", "JSONObject.Bool", "JSONObject.GetString", "JSONObject.Get", "JSONObject.GetArray", "JSONObject.GetMap", "JSONObject.GetAt"
  safety termination
}
