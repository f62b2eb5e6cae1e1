// ---- key paths (C08, C09) ----
use docs, path
theory path : docs ` `
// value reached from x by the first n keys, nil when there is none
spec opaque pget(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) Iface =
  n <= 0 ? x : (jk(pget(h, x, ks, o, n-1)) == 6 ? dget(h, pget(h, x, ks, o, n-1), at(ks, o, n-1)) : nil)
// every dictionary on the path is sorted and holds documents only
spec dwf(h H, x Iface) Bool = jr(x) > 0 && dlen(h, x) >= 0 && dsorted(h, x) && mjson(select(hMI(h), dsl(h, x).base), dsl(h, x).off, dlen(h, x))
spec opaque pwf(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) Bool =
  forall m Int :: {pget(h, x, ks, o, m)} 0 <= m && m < n && jk(pget(h, x, ks, o, m)) == 6 ==> dwf(h, pget(h, x, ks, o, m))
lemma pget_0(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger pget(h, x, ks, o, n)
  requires n <= 0
  ensures pget(h, x, ks, o, n) == x
}
lemma pget_one(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger pget(h, x, ks, o, n)
  requires n == 1
  ensures pget(h, x, ks, o, n) == (jk(x) == 6 ? dget(h, x, at(ks, o, 0)) : nil)
}
lemma pget_step(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, m Int) {
  trigger pget(h, x, ks, o, n), pget(h, x, ks, o, m)
  requires n == m+1 && m >= 0
  ensures pget(h, x, ks, o, n) == (jk(pget(h, x, ks, o, m)) == 6 ? dget(h, pget(h, x, ks, o, m), at(ks, o, m)) : nil)
}
lemma pget_nil(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, m Int) {
  trigger pget(h, x, ks, o, n), pget(h, x, ks, o, m)
  requires 0 <= m && m < n && jk(pget(h, x, ks, o, m)) != 6
  ensures pget(h, x, ks, o, n) == nil
  use pget_nil(h, x, ks, o, n-1, m) when m < n-1
  decreases n
}
lemma pget_flat(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger pget(h, x, ks, o, n)
  requires n > 0 && jk(x) != 6
  ensures pget(h, x, ks, o, n) == nil
  use pget_nil(h, x, ks, o, n, 0)
}
lemma pwf_at(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, m Int) {
  trigger pwf(h, x, ks, o, n), pget(h, x, ks, o, m)
  requires pwf(h, x, ks, o, n) && 0 <= m && m < n && jk(pget(h, x, ks, o, m)) == 6
  ensures dwf(h, pget(h, x, ks, o, m))
}
lemma isdoc_path(h H, b Int, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger isdoc(h, b, x), pget(h, x, ks, o, n)
  requires isdoc(h, b, x)
  ensures pget(h, x, ks, o, n) == nil || isdoc(h, b, pget(h, x, ks, o, n)) && rank(h, pget(h, x, ks, o, n)) <= rank(h, x)
  use isdoc_path(h, b, x, ks, o, n-1) when n > 0
  decreases n
}
lemma isdoc_dwf(h H, b Int, x Iface) {
  requires isdoc(h, b, x) && jk(x) == 6
  ensures dwf(h, x)
  use isdoc_shape, isdoc_val
}
lemma isdoc_pwf(h H, b Int, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger isdoc(h, b, x), pwf(h, x, ks, o, n)
  requires isdoc(h, b, x)
  ensures pwf(h, x, ks, o, n)
  use isdoc_path, isdoc_shape
  useall m Int {pget(h, x, ks, o, m)} isdoc_dwf(h, b, pget(h, x, ks, o, m))
}
use docs, path, fold, ipathth
theory ipathth : path, fold ` `
// a step under key k may go to any entry c that is k up to case, to k itself when present
spec istep(h H, p Iface, k Str, c Str) Bool = dfind(h, p, c) >= 0 && eqfold(c, k) && (dfind(h, p, k) >= 0 ==> c == k)
spec opaque ipath(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, v Iface) Bool =
  n <= 0 ? v == x : (exists p Iface, c Str :: {ipath(h, x, ks, o, n-1, p), dfind(h, p, c)} ipath(h, x, ks, o, n-1, p) && jk(p) == 6 && istep(h, p, at(ks, o, n-1), c) && v == dget(h, p, c))
lemma ipath_0(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, v Iface) {
  trigger ipath(h, x, ks, o, n, v)
  requires n <= 0
  ensures ipath(h, x, ks, o, n, v) <==> v == x
}
lemma ipath_step(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, p Iface, c Str) {
  trigger ipath(h, x, ks, o, n, p), dfind(h, p, c)
  requires n >= 0 && ipath(h, x, ks, o, n, p) && jk(p) == 6 && istep(h, p, at(ks, o, n), c)
  ensures ipath(h, x, ks, o, n+1, dget(h, p, c))
}
theory ipaths : ipathth, ipath_0, ipath_step ` `
theory paths : path, pget_0, pget_step, pget_nil, pget_flat, pwf_at, isdoc_path, isdoc_pwf ` `
use docs, paths
func "(*JSONDict)._get" (this, caseSensitive, keys) {
  internal
  requires nonpanic: this != nil
  requires w: caseSensitive ==> pwf(hash(), iface(this), mem(keys), keys.off, len(keys))
  ensures hit: caseSensitive && pget(old(hash()), iface(this), mem(keys), keys.off, len(keys)) != nil ==> result1 == nil && result0 == pget(old(hash()), iface(this), mem(keys), keys.off, len(keys))
  ensures miss: caseSensitive && pget(old(hash()), iface(this), mem(keys), keys.off, len(keys)) == nil ==> result0 == nil && result1 != nil
  requires wi: !caseSensitive ==> isdoc(hash(), next, iface(this))
  use ipaths
  ensures ihit: !caseSensitive && result1 == nil ==> ipath(old(hash()), iface(this), mem(keys), keys.off, len(keys), result0) && result0 != nil
  ensures imiss: !caseSensitive && result1 != nil ==> result0 == nil && (exists m Int, p Iface :: {ipath(old(hash()), iface(this), mem(keys), keys.off, m, p)} 0 <= m && m < len(keys) && ipath(old(hash()), iface(this), mem(keys), keys.off, m, p) && (jk(p) != 6 || (forall k Str :: {dfind(old(hash()), p, k)} dfind(old(hash()), p, k) >= 0 ==> !eqfold(k, keys[m]))))
  modifies nothing
  invariant iat: !caseSensitive ==> ipath(old(hash()), iface(pre(this)), mem(keys), keys.off, i, iface(this)) && isdoc(old(hash()), old(next), iface(this))
  invariant at: caseSensitive ==> iface(this) == pget(old(hash()), iface(pre(this)), mem(keys), keys.off, i) && this != nil
  // for a loop that walks down with a variable of its own
  invariant loop 9 iat2: !caseSensitive ==> ipath(old(hash()), iface(this), mem(keys), keys.off, ix, iface(node)) && isdoc(old(hash()), old(next), iface(node))
  invariant loop 9 at2: caseSensitive ==> iface(node) == pget(old(hash()), iface(this), mem(keys), keys.off, ix) && node != nil
}
func "(*JSONDict).Get" (this, keys) {
  requires nonpanic: this != nil
  requires w: pwf(hash(), iface(this), mem(keys), keys.off, len(keys))
  ensures hit: pget(old(hash()), iface(this), mem(keys), keys.off, len(keys)) != nil ==> result1 == nil && result0 == pget(old(hash()), iface(this), mem(keys), keys.off, len(keys))
  ensures miss: pget(old(hash()), iface(this), mem(keys), keys.off, len(keys)) == nil ==> result0 == nil && result1 != nil
  modifies nothing
}
func "(*JSONDict).Contains" (this, keys) {
  requires nonpanic: this != nil
  requires w: pwf(hash(), iface(this), mem(keys), keys.off, len(keys))
  ensures r: result <==> pget(old(hash()), iface(this), mem(keys), keys.off, len(keys)) != nil
  modifies nothing
}
func "(*JSONDict).GetIgnoreCases" (this, keys) {
  use ipaths
  requires nonpanic: this != nil
  requires wi: isdoc(hash(), next, iface(this))
  ensures ihit: result1 == nil ==> ipath(old(hash()), iface(this), mem(keys), keys.off, len(keys), result0) && result0 != nil
  ensures imiss: result1 != nil ==> result0 == nil && (exists m Int, p Iface :: {ipath(old(hash()), iface(this), mem(keys), keys.off, m, p)} 0 <= m && m < len(keys) && ipath(old(hash()), iface(this), mem(keys), keys.off, m, p) && (jk(p) != 6 || (forall k Str :: {dfind(old(hash()), p, k)} dfind(old(hash()), p, k) >= 0 ==> !eqfold(k, keys[m]))))
  modifies nothing
}
func "(*JSONDict).ContainsIgnoreCases" (this, keys) {
  use ipaths
  requires nonpanic: this != nil
  requires wi: isdoc(hash(), next, iface(this))
  ensures ihit: result ==> (exists v Iface :: {ipath(old(hash()), iface(this), mem(keys), keys.off, len(keys), v)} ipath(old(hash()), iface(this), mem(keys), keys.off, len(keys), v))
  ensures imiss: !result ==> (exists m Int, p Iface :: {ipath(old(hash()), iface(this), mem(keys), keys.off, m, p)} 0 <= m && m < len(keys) && ipath(old(hash()), iface(this), mem(keys), keys.off, m, p) && (jk(p) != 6 || (forall k Str :: {dfind(old(hash()), p, k)} dfind(old(hash()), p, k) >= 0 ==> !eqfold(k, keys[m]))))
  modifies nothing
}
// a single key: succeeds exactly when some case variant exists, and takes the
// exact key when there is one
lemma iget_single(h H, x Iface, ks `(Array Int Str)`, o Int, v Iface) {
  use ipaths
  requires ipath(h, x, ks, o, 1, v)
  ensures jk(x) == 6 && (exists c Str :: {dfind(h, x, c)} istep(h, x, at(ks, o, 0), c) && v == dget(h, x, c))
  ensures dfind(h, x, at(ks, o, 0)) >= 0 ==> v == dget(h, x, at(ks, o, 0))
}
property C10 {
  funcs "(*JSONDict).GetIgnoreCases", "(*JSONDict).ContainsIgnoreCases", "(*JSONDict).RemoveIgnoreCase"
  lemmas iget_single
  safety termination
}
property C08 {
  funcs "(*JSONDict).Set", "(*JSONDict).Remove", "(*JSONDict).RemoveIgnoreCase", "(*JSONDict).Get", "(*JSONDict).Contains", "(*JSONDict).Size", "(*JSONDict).Length", "(*JSONDict).SortedKeys"
  safety termination
}
// ---- insertion under a path ----
use docs, paths
// lookups do not change where the dictionaries passed keep theirs
lemma pget_frame(g H, h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  requires forall m Int :: {pget(g, x, ks, o, m)} 0 <= m && m < n && jk(pget(g, x, ks, o, m)) == 6 ==> dsl(h, pget(g, x, ks, o, m)) == dsl(g, pget(g, x, ks, o, m)) && select(hMI(h), dsl(g, pget(g, x, ks, o, m)).base) == select(hMI(g), dsl(g, pget(g, x, ks, o, m)).base)
  ensures pget(h, x, ks, o, n) == pget(g, x, ks, o, n)
  use pget_frame(g, h, x, ks, o, n-1) when n > 0
  decreases n
}
lemma pget_frames(g H, h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  requires forall m Int :: {pget(g, x, ks, o, m)} 0 <= m && m < n && jk(pget(g, x, ks, o, m)) == 6 ==> dsl(h, pget(g, x, ks, o, m)) == dsl(g, pget(g, x, ks, o, m)) && select(hMI(h), dsl(g, pget(g, x, ks, o, m)).base) == select(hMI(g), dsl(g, pget(g, x, ks, o, m)).base)
  ensures forall m Int :: {pget(h, x, ks, o, m)} {pget(g, x, ks, o, m)} 0 <= m && m <= n ==> pget(h, x, ks, o, m) == pget(g, x, ks, o, m)
  useall m Int {pget(h, x, ks, o, m)} {pget(g, x, ks, o, m)} pget_frame(g, h, x, ks, o, m)
}
lemma mjson_view(a `(Array Int St_sortedmap.sItem)`, o Int, n Int) {
  requires msorted(a, o, n) && n >= 0
  requires forall k Str :: {mfind(a, o, n, k)} mfind(a, o, n, k) >= 0 ==> isjson(mget(a, o, n, k))
  ensures mjson(a, o, n)
  use mfind_char
  assert forall i Int :: {at(a, o, i)} 0 <= i && i < n ==> mfind(a, o, n, ikey(at(a, o, i))) == i
}
// the dictionaries on a path are distinct and do not share storage
spec opaque psep(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) Bool =
  forall i Int, j Int :: {pget(h, x, ks, o, i), pget(h, x, ks, o, j)} 0 <= i && i < j && j < n && jk(pget(h, x, ks, o, i)) == 6 && jk(pget(h, x, ks, o, j)) == 6 ==> jr(pget(h, x, ks, o, i)) != jr(pget(h, x, ks, o, j)) && dsl(h, pget(h, x, ks, o, i)).base != dsl(h, pget(h, x, ks, o, j)).base
lemma psep_at(h H, x Iface, ks `(Array Int Str)`, o Int, n Int, i Int, j Int) {
  trigger psep(h, x, ks, o, n), pget(h, x, ks, o, i), pget(h, x, ks, o, j)
  requires psep(h, x, ks, o, n)
  requires 0 <= i && i < j && j < n && jk(pget(h, x, ks, o, i)) == 6 && jk(pget(h, x, ks, o, j)) == 6
  ensures jr(pget(h, x, ks, o, i)) != jr(pget(h, x, ks, o, j)) && dsl(h, pget(h, x, ks, o, i)).base != dsl(h, pget(h, x, ks, o, j)).base
}
lemma psep_1(h H, x Iface, ks `(Array Int Str)`, o Int, n Int) {
  trigger psep(h, x, ks, o, n)
  requires n <= 1
  ensures psep(h, x, ks, o, n)
}
func "NewDict" (objs) {
  ensures new: result != nil && fresh(result) && d_ok(result)
  ensures emp: len(objs) == 0 ==> len(result.data) == 0
  ensures fr: fresh(result.data)
  modifies nothing
  invariant e: len(objs) == 0 ==> len(dict.data) == 0
  invariant s: d_ok(dict) && fresh(dict.data)
}
// from g to h only the entry under key m+1 of the path changed
spec pone(g H, h H, b Int, x Iface, ks `(Array Int Str)`, o Int, m Int) Bool =
  jk(pget(g, x, ks, o, m)) == 6
  && (forall r Int :: {select(hD(h), r)} 0 <= r && r < b && r != jr(pget(g, x, ks, o, m)) ==> select(hD(h), r) == select(hD(g), r))
  && (forall r Int :: {select(hMI(h), r)} 0 <= r && r < b && r != dsl(g, pget(g, x, ks, o, m)).base ==> select(hMI(h), r) == select(hMI(g), r))
  && (forall k Str :: {dfind(h, pget(g, x, ks, o, m), k)} k != at(ks, o, m) ==> (dfind(h, pget(g, x, ks, o, m), k) >= 0 <==> dfind(g, pget(g, x, ks, o, m), k) >= 0) && dget(h, pget(g, x, ks, o, m), k) == dget(g, pget(g, x, ks, o, m), k))
macro PG(h, x, ks, n) = pget(h, iface(x), mem(ks), ks.off, n)
func "(*JSONDict).Add" (this, o, keys) {
  use psep_at, mjson_view
  requires nonpanic: this != nil
  requires w: isdoc(hash(), next, iface(this))
  requires sep: psep(hash(), iface(this), mem(keys), keys.off, len(keys))
  requires v: isjson(o)
  ensures none: len(keys) == 0 ==> result == nil && agree(old(hash()), hash(), old(next))
  ensures fail: result != nil ==> agree(old(hash()), hash(), old(next))
  ensures found: result == nil && len(keys) > 0 ==> PG(hash(), this, keys, len(keys)) == o
  ensures one: result == nil && len(keys) > 0 ==> (exists m Int :: {PG(old(hash()), this, keys, m)} 0 <= m && m < len(keys) && pone(old(hash()), hash(), old(next), iface(this), mem(keys), keys.off, m))
  ensures why: result != nil ==> (exists m Int :: {PG(old(hash()), this, keys, m)} 0 < m && m < len(keys) && jk(PG(old(hash()), this, keys, m)) != 6 && PG(old(hash()), this, keys, m) != nil && PG(old(hash()), this, keys, m) != iface(JSONNull))
  ensures ok: result == nil ==> (forall m Int :: {PG(old(hash()), this, keys, m)} 0 < m && m < len(keys) ==> jk(PG(old(hash()), this, keys, m)) == 6 || PG(old(hash()), this, keys, m) == nil || PG(old(hash()), this, keys, m) == iface(JSONNull))
  ensures one1: len(keys) == 1 ==> d_ok(this) && 0 <= len(this.data) && (this.data.base == old(this.data.base) || fresh(this.data))
  invariant one1: len(keys) == 1 ==> d_ok(this) && (this.data.base == old(this.data.base) || fresh(this.data)) && (i == 0 ==> this.data == old(this.data)) && obj == this
  modifies all("fld$JSONDict.data"), all("mem$sortedmap.sItem")
  callhint "(*JSONDict).Set" pget_frames(old(hash()), hash(), iface(this), mem(keys), keys.off, ix)
  callhint "NewDict" pget_frames(old(hash()), hash(), iface(this), mem(keys), keys.off, ix)
  callhint "(sortedmap.SSortedMap).Get" pget_step(hash(), iface(this), mem(keys), keys.off, ix+1, ix)
  callhint "(sortedmap.SSortedMap).Get" pget_step(old(hash()), iface(this), mem(keys), keys.off, ix+1, ix)
  invariant nn: obj != nil
  invariant cur: i < len(keys) || i == 0 ==> PG(hash(), this, keys, i) == iface(obj)
  invariant done: i == len(keys) && i > 0 ==> PG(hash(), this, keys, i) == o
  invariant phase: i < len(keys) || i == 0 ==> hash() == old(hash()) || (fresh(obj) && d_ok(obj) && len(obj.data) == 0 && fresh(obj.data))
  invariant one: i < len(keys) || i == 0 ==> hash() == old(hash()) || (exists m Int :: {PG(old(hash()), this, keys, m)} 0 <= m && m < i && PG(hash(), this, keys, m) == PG(old(hash()), this, keys, m) && pone(old(hash()), hash(), old(next), iface(this), mem(keys), keys.off, m))
  invariant done1: i == len(keys) && i > 0 ==> (exists m Int :: {PG(old(hash()), this, keys, m)} 0 <= m && m < i && PG(hash(), this, keys, m) == PG(old(hash()), this, keys, m) && pone(old(hash()), hash(), old(next), iface(this), mem(keys), keys.off, m))
  invariant ok: forall m Int :: {PG(old(hash()), this, keys, m)} 0 < m && m < len(keys) && (m <= i || hash() != old(hash())) ==> jk(PG(old(hash()), this, keys, m)) == 6 || PG(old(hash()), this, keys, m) == nil || PG(old(hash()), this, keys, m) == iface(JSONNull)
  invariant bnd: i < len(keys) || i == 0 ==> 0 < obj && obj < next && 0 <= obj.data.base && obj.data.base < next && (forall j Int :: {PG(hash(), this, keys, j)} 0 <= j && j < i && jk(PG(hash(), this, keys, j)) == 6 ==> 0 < jr(PG(hash(), this, keys, j)) && jr(PG(hash(), this, keys, j)) < next && 0 <= dsl(hash(), PG(hash(), this, keys, j)).base && dsl(hash(), PG(hash(), this, keys, j)).base < next)
  invariant sep: i < len(keys) || i == 0 ==> forall j Int :: {PG(hash(), this, keys, j)} 0 <= j && j < i && jk(PG(hash(), this, keys, j)) == 6 ==> jr(PG(hash(), this, keys, j)) != jr(PG(hash(), this, keys, i)) && dsl(hash(), PG(hash(), this, keys, j)).base != dsl(hash(), PG(hash(), this, keys, i)).base
}
property C09 {
  funcs "(*JSONDict).Get", "(*JSONDict).Contains", "(*JSONDict).Add"
  safety termination
}
