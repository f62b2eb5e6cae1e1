// ---- query-string form (C20) ----
theory urlth `
(declare-fun qesc (Str) Str)
`
use urlth
extern "url.QueryEscape" (s) {
  ensures r: result == qesc(s)
  modifies nothing
}
theory jointh : urlth ` `
spec opaque sjoin(a `(Array Int Str)`, o Int, n Int, sep Str) Str =
  n <= 0 ? sempty : (n == 1 ? at(a, o, 0) : sjoin(a, o, n-1, sep) ++ sep ++ at(a, o, n-1))
extern "strings.Join" (l, sep) {
  use jointh
  ensures r: result == sjoin(mem(l), l.off, len(l), sep)
  modifies nothing
}
// the item of one scalar: key=value, both escaped; the side that is empty is left out
theory queryth : jointh, fmtth, docs, qtext ` `
spec named sq(k Str, v Str) Str = slen(k) > 0 && slen(v) > 0 ? qesc(k) ++ "=" ++ qesc(v) : (slen(v) > 0 ? qesc(v) : (slen(k) > 0 ? qesc(k) : sempty))
spec named dotted(k Str, m Str) Str = slen(k) > 0 ? k ++ "." ++ m : m
spec opaque qs(h H, x Iface, key Str, n Int) Str =
  n <= 0 ? sempty :
  (jk(x) == 1 ? sq(key, select(hS(h), jr(x))) :
  (jk(x) == 2 ? sq(key, itoa(select(hI(h), jr(x)))) :
  (jk(x) == 3 ? sq(key, ftoa(select(hF(h), jr(x)), fbits(select(hFb(h), jr(x))))) :
  (jk(x) == 4 ? sq(key, (select(hB(h), jr(x)) ? "true" : "false")) :
  (jk(x) == 5 ? aqs(h, x, key, alen(h, x), n-1) :
  (jk(x) == 6 ? dqs(h, x, key, dlen(h, x), n-1) : sq(key, sempty)))))))
spec opaque aqs(h H, x Iface, key Str, i Int, n Int) Str =
  i <= 0 ? sempty : (i == 1 ? qs(h, ael(h, x, 0), dotted(key, itoa(0)), n) : aqs(h, x, key, i-1, n) ++ "&" ++ qs(h, ael(h, x, i-1), dotted(key, itoa(i-1)), n))
spec opaque dqs(h H, x Iface, key Str, i Int, n Int) Str =
  i <= 0 ? sempty : (i == 1 ? qs(h, dval(h, x, 0), dotted(key, dkey(h, x, 0)), n) : dqs(h, x, key, i-1, n) ++ "&" ++ qs(h, dval(h, x, i-1), dotted(key, dkey(h, x, i-1)), n))
spec rqs(h H, x Iface, key Str) Str = qs(h, x, key, rank(h, x))
use queryth
lemma aqs_fuel(h H, x Iface, key Str, i Int, n Int, m Int) {
  requires forall j Int :: {ael(h, x, j)} 0 <= j && j < i ==> qs(h, ael(h, x, j), dotted(key, itoa(j)), n) == qs(h, ael(h, x, j), dotted(key, itoa(j)), m)
  ensures aqs(h, x, key, i, n) == aqs(h, x, key, i, m)
  use aqs_fuel(h, x, key, i-1, n, m) when i > 1
  decreases i
}
lemma dqs_fuel(h H, x Iface, key Str, i Int, n Int, m Int) {
  requires forall j Int :: {dval(h, x, j)} 0 <= j && j < i ==> qs(h, dval(h, x, j), dotted(key, dkey(h, x, j)), n) == qs(h, dval(h, x, j), dotted(key, dkey(h, x, j)), m)
  ensures dqs(h, x, key, i, n) == dqs(h, x, key, i, m)
  use dqs_fuel(h, x, key, i-1, n, m) when i > 0
  decreases i
}
lemma qs_fuel(h H, b Int, x Iface, key Str, n Int, m Int) {
  requires doc(h, b, x, n) && doc(h, b, x, m)
  ensures qs(h, x, key, n) == qs(h, x, key, m)
  useall i Int {ael(h, x, i)} qs_fuel(h, b, ael(h, x, i), dotted(key, itoa(i)), n-1, m-1)
  useall i Int {dval(h, x, i)} qs_fuel(h, b, dval(h, x, i), dotted(key, dkey(h, x, i)), n-1, m-1)
  use aqs_fuel(h, x, key, alen(h, x), n-1, m-1) when jk(x) == 5
  use dqs_fuel(h, x, key, dlen(h, x), n-1, m-1) when jk(x) == 6
  decreases n
}
lemma qs_flat(h H, b Int, x Iface, key Str) {
  trigger rqs(h, x, key), isdoc(h, b, x)
  requires isdoc(h, b, x)
  ensures jk(x) == 1 ==> rqs(h, x, key) == sq(key, select(hS(h), jr(x)))
  ensures jk(x) == 2 ==> rqs(h, x, key) == sq(key, itoa(select(hI(h), jr(x))))
  ensures jk(x) == 3 ==> rqs(h, x, key) == sq(key, ftoa(select(hF(h), jr(x)), fbits(select(hFb(h), jr(x)))))
  ensures jk(x) == 4 ==> rqs(h, x, key) == sq(key, (select(hB(h), jr(x)) ? "true" : "false"))
  ensures jk(x) == 7 ==> rqs(h, x, key) == sq(key, sempty)
}
// what strings.Join gives for the members' items
lemma join_a(a `(Array Int Str)`, o Int, h H, b Int, x Iface, key Str, n Int) {
  use queryth, rank_def
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= n && n <= alen(h, x)
  requires forall j Int :: {at(a, o, j)} 0 <= j && j < n ==> at(a, o, j) == rqs(h, ael(h, x, j), dotted(key, itoa(j)))
  ensures sjoin(a, o, n, "&") == aqs(h, x, key, n, rank(h, x)-1)
  use join_a(a, o, h, b, x, key, n-1) when n > 0
  use qs_fuel(h, b, ael(h, x, n-1), dotted(key, itoa(n-1)), rank(h, x)-1, rank(h, ael(h, x, n-1))) when n > 0
  assert n > 0 ==> at(a, o, n-1) == rqs(h, ael(h, x, n-1), dotted(key, itoa(n-1)))
  decreases n
}
lemma join_d(a `(Array Int Str)`, o Int, h H, b Int, x Iface, key Str, n Int) {
  use queryth, rank_def
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= n && n <= dlen(h, x)
  requires forall j Int :: {at(a, o, j)} 0 <= j && j < n ==> at(a, o, j) == rqs(h, dval(h, x, j), dotted(key, dkey(h, x, j)))
  ensures sjoin(a, o, n, "&") == dqs(h, x, key, n, rank(h, x)-1)
  use join_d(a, o, h, b, x, key, n-1) when n > 0
  use qs_fuel(h, b, dval(h, x, n-1), dotted(key, dkey(h, x, n-1)), rank(h, x)-1, rank(h, dval(h, x, n-1))) when n > 0
  assert n > 0 ==> at(a, o, n-1) == rqs(h, dval(h, x, n-1), dotted(key, dkey(h, x, n-1)))
  decreases n
}
lemma qs_join_a(a `(Array Int Str)`, o Int, h H, b Int, x Iface, key Str, n Int) {
  trigger sjoin(a, o, n, "&"), rqs(h, x, key), isdoc(h, b, x)
  requires isdoc(h, b, x) && jk(x) == 5 && n == alen(h, x)
  requires forall j Int :: {at(a, o, j)} 0 <= j && j < n ==> at(a, o, j) == rqs(h, ael(h, x, j), dotted(key, itoa(j)))
  ensures rqs(h, x, key) == sjoin(a, o, n, "&")
  use join_a(a, o, h, b, x, key, n)
}
lemma qs_join_d(a `(Array Int Str)`, o Int, h H, b Int, x Iface, key Str, n Int) {
  trigger sjoin(a, o, n, "&"), rqs(h, x, key), isdoc(h, b, x)
  requires isdoc(h, b, x) && jk(x) == 6 && n == dlen(h, x)
  requires forall j Int :: {at(a, o, j)} 0 <= j && j < n ==> at(a, o, j) == rqs(h, dval(h, x, j), dotted(key, dkey(h, x, j)))
  ensures rqs(h, x, key) == sjoin(a, o, n, "&")
  use join_d(a, o, h, b, x, key, n)
}
theory queries : queryth, qs_flat, qs_join_a, qs_join_d ` `
use queries, texts, docs
func "simpleQueryString" (key, val) {
  ensures r: result == sq(key, val)
  modifies nothing
}
iface "JSONObject._queryString" (this, key) {
  requires d: isdoc(hash(), next, this)
  ensures q: result == rqs(hash(), this, key)
  modifies nothing
  decreases rank(hash(), this)
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray)._queryString" (this, key) {
  invariant n: len(rets) == ix && fresh(rets)
  invariant el: forall j Int :: {rets[j]} 0 <= j && j < ix ==> rets[j] == rqs(hash(), ael(hash(), this, j), dotted(key, itoa(j)))
}
impl "(*JSONDict)._queryString" (this, key) {
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == dsl(hash(), this)
  invariant n: len(rets) == iter.index && fresh(rets)
  decreases loop 0 len(iter.smap) - iter.index
  invariant el: forall j Int :: {rets[j]} 0 <= j && j < iter.index ==> rets[j] == rqs(hash(), dval(hash(), this, j), dotted(key, dkey(hash(), this, j)))
}
func "(*JSONDict).QueryString" (this) {
  requires nonpanic: this != nil
  requires d: isdoc(hash(), next, iface(this))
  ensures q: result == rqs(hash(), iface(this), "")
  modifies nothing
}
// ---- reading a query string back ----
theory pqth : queryth, strconv `
; what url.ParseQuery makes of a text: whether the text is well formed, how many
; parameters it has, how many values a key is given, and which
(declare-fun pqok (Str) Bool)
(declare-fun pqm (Str) Int)
(declare-fun pqn (Str Str) Int)
(declare-fun pqv (Str Str Int) Str)
`
spec named pit(k Str, v Str) Str = qesc(k) ++ "=" ++ qesc(v)
use pqth, texts, docs
axiom pq_empty() {
  ensures pqok(sempty) && pqm(sempty) == 1 && (forall q Str :: {pqn(sempty, q)} pqn(sempty, q) == 0)
}
axiom pq_one(k Str, v Str) {
  ensures pqok(pit(k, v)) && pqm(pit(k, v)) == 1 && pqn(pit(k, v), k) == 1 && pqv(pit(k, v), k, 0) == v
  ensures forall q Str :: {pqn(pit(k, v), q)} q != k ==> pqn(pit(k, v), q) == 0
}
axiom pq_more(s Str, k Str, v Str) {
  requires pqok(s)
  ensures let t = s ++ "&" ++ pit(k, v) in pqok(t) && pqm(t) == pqm(s) + 1 && pqn(t, k) == pqn(s, k) + 1 && pqv(t, k, pqn(s, k)) == v
  ensures let t = s ++ "&" ++ pit(k, v) in (forall q Str :: {pqn(t, q)} q != k ==> pqn(t, q) == pqn(s, q))
  ensures let t = s ++ "&" ++ pit(k, v) in (forall q Str, j Int :: {pqv(t, q, j)} 0 <= j && j < pqn(s, q) ==> pqv(t, q, j) == pqv(s, q, j))
}
extern "url.ParseQuery" (s) {
  ensures ok: pqok(s) && pqm(s) <= 10000 ==> result1 == nil
  ensures new: result0 != nil && fresh(result0)
  ensures keys: pqok(s) && pqm(s) <= 10000 ==> (forall k Str :: {mapdom(result0)[k]} {pqn(s, k)} mapdom(result0)[k] <==> pqn(s, k) > 0)
  ensures vals: pqok(s) && pqm(s) <= 10000 ==> (forall k Str :: {mapval(result0)[k]} mapdom(result0)[k] ==> len(mapval(result0)[k]) == pqn(s, k) && fresh(val(mapval(result0)[k], "[]string")))
  ensures each: pqok(s) && pqm(s) <= 10000 ==> (forall k Str, j Int :: {at(mem(val(mapval(result0)[k], "[]string")), mapval(result0)[k].off, j)} mapdom(result0)[k] && 0 <= j && j < pqn(s, k) ==> at(mem(val(mapval(result0)[k], "[]string")), mapval(result0)[k].off, j) == pqv(s, k, j))
  allocates "mem$string"
  modifies nothing
}
// a key that stands for itself: neither empty nor numeric, without dots
spec named plainkey(k Str) Bool = slen(k) > 0 && !pintok(k) && (forall i Int :: {sat(k, i)} 0 <= i && i < slen(k) ==> sat(k, i) != 46)
theory splitth : pqth `
; the parts strings.Split makes of a text
(declare-fun splitn (Str Str) Int)
(declare-fun splitp (Str Str Int) Str)
`
spec opaque spjoin(s Str, sep Str, n Int) Str =
  n <= 0 ? sempty : (n == 1 ? splitp(s, sep, 0) : spjoin(s, sep, n-1) ++ sep ++ splitp(s, sep, n-1))
use splitth, texts, docs
extern "strings.Split" (s, sep) {
  ensures n: len(result) == splitn(s, sep) && fresh(result)
  ensures parts: forall i Int :: {result[i]} 0 <= i && i < len(result) ==> result[i] == splitp(s, sep, i)
  ensures some: slen(sep) > 0 ==> 0 < len(result)
  ensures join: slen(sep) > 0 ==> spjoin(s, sep, len(result)) == s
  ensures one: sep == "." && plainkey(s) ==> len(result) == 1 && result[0] == s
  allocates "mem$string"
  modifies nothing
}
// the segment a part stands for, and the part a segment is written as
spec isseg(g `St_jsonutils.sTextNumber`, p Str) Bool = let t = val(g, "sTextNumber") in (pintok(p) ? t.isNumber && t.number == pint(p) : !t.isNumber && t.text == p)
spec segtext(g `St_jsonutils.sTextNumber`) Str = let t = val(g, "sTextNumber") in (t.isNumber ? itoa(t.number) : t.text)
spec opaque segjoin(a `(Array Int St_jsonutils.sTextNumber)`, o Int, n Int) Str =
  n <= 0 ? sempty : (n == 1 ? segtext(at(a, o, 0)) : segjoin(a, o, n-1) ++ "." ++ segtext(at(a, o, n-1)))
// every numeric part is in canonical decimal form
spec named canon(s Str) Bool = forall i Int :: {splitp(s, ".", i)} 0 <= i && i < splitn(s, ".") && pintok(splitp(s, ".", i)) ==> itoa(pint(splitp(s, ".", i))) == splitp(s, ".", i)
lemma segjoin_of(a `(Array Int St_jsonutils.sTextNumber)`, o Int, b `(Array Int Str)`, p Int, n Int) {
  requires forall i Int :: {at(b, p, i)} 0 <= i && i < n ==> at(b, p, i) == segtext(at(a, o, i))
  ensures segjoin(a, o, n) == sjoin(b, p, n, ".")
  use segjoin_of(a, o, b, p, n-1) when n > 1
  assert n > 0 ==> at(b, p, n-1) == segtext(at(a, o, n-1))
  decreases n
}
lemma segs_part(s Str, a `(Array Int St_jsonutils.sTextNumber)`, o Int, n Int) {
  requires canon(s) && n <= splitn(s, ".")
  requires forall i Int :: {at(a, o, i)} 0 <= i && i < n ==> isseg(at(a, o, i), splitp(s, ".", i))
  ensures segjoin(a, o, n) == spjoin(s, ".", n)
  use segs_part(s, a, o, n-1) when n > 1
  assert n > 0 ==> isseg(at(a, o, n-1), splitp(s, ".", n-1)) && segtext(at(a, o, n-1)) == splitp(s, ".", n-1)
  decreases n
}
func "string2TextNumber" (str) {
  ensures text: !pintok(str) ==> !result.isNumber && result.text == str
  ensures num: pintok(str) ==> result.isNumber && result.number == pint(str)
  modifies nothing
}
func "(sTextNumber).String" (tn) {
  ensures r: result == (tn.isNumber ? itoa(tn.number) : tn.text)
  modifies nothing
}
func "string2Segments" (str) {
  ensures n: len(result) == splitn(str, ".") && 0 < len(result) && fresh(result)
  ensures each: forall i Int :: {at(mem(result), result.off, i)} 0 <= i && i < len(result) ==> isseg(at(mem(result), result.off, i), splitp(str, ".", i))
  hint segs_part(str, mem(result), result.off, len(result)) when canon(str)
  ensures one: plainkey(str) ==> len(result) == 1 && !result[0].isNumber && result[0].text == str
  ensures back: canon(str) ==> segjoin(mem(result), result.off, len(result)) == str
  modifies nothing
  invariant n: len(ret) == ix
  invariant el: forall i Int :: {at(mem(ret), ret.off, i)} 0 <= i && i < ix ==> isseg(at(mem(ret), ret.off, i), splitp(str, ".", i))
}
lemma sjoin_1(a `(Array Int Str)`, o Int, n Int, sep Str) {
  trigger sjoin(a, o, n, sep)
  requires n == 1
  ensures sjoin(a, o, n, sep) == at(a, o, 0)
}
lemma segjoin_1(a `(Array Int St_jsonutils.sTextNumber)`, o Int, n Int) {
  trigger segjoin(a, o, n)
  requires n == 1
  ensures segjoin(a, o, n) == segtext(at(a, o, 0))
}
func "segments2string" (segs) {
  use sjoin_1, segjoin_1
  callhint "strings.Join" segjoin_of(mem(segs), segs.off, mem(a0), a0.off, len(segs))
  ensures r: result == segjoin(mem(segs), segs.off, len(segs))
  ensures one: len(segs) == 1 && !segs[0].isNumber ==> result == segs[0].text
  modifies nothing
  invariant n: len(segStrs) == ix
  invariant own: len(segStrs) == 0 || fresh(segStrs)
  invariant el: forall j Int :: {at(mem(segStrs), segStrs.off, j)} 0 <= j && j < ix ==> segStrs[j] == segtext(at(mem(segs), segs.off, j))
}
func "strings2stringSegments" (strs) {
  ensures n: len(result) == len(strs) && fresh(result)
  ensures own: forall i Int :: {result[i]} 0 <= i && i < len(result) ==> fresh(result[i])
  ensures one: forall i Int :: {result[i]} {strs[i]} 0 <= i && i < len(result) && plainkey(strs[i]) ==> len(result[i]) == 1 && !result[i][0].isNumber && result[i][0].text == strs[i]
  modifies nothing
  invariant n: len(ret) == ix
  invariant own: forall j Int :: {ret[j]} 0 <= j && j < ix ==> fresh(ret[j])
  invariant one: forall j Int :: {ret[j]} 0 <= j && j < ix && plainkey(strs[j]) ==> len(ret[j]) == 1 && !ret[j][0].isNumber && ret[j][0].text == strs[j]
}
func "stringSegments2Strings" (ss) {
  ensures n: len(result) == len(ss)
  ensures each: forall i Int :: {result[i]} 0 <= i && i < len(ss) ==> result[i] == segjoin(mem(ss[i]), ss[i].off, len(ss[i]))
  modifies nothing
  invariant n: len(ret) == ix
  invariant each: forall i Int :: {ret[i]} 0 <= i && i < ix ==> ret[i] == segjoin(mem(ss[i]), ss[i].off, len(ss[i]))
}
// a dictionary that holds strings only
theory flatth : pqth ` `
spec named fstrs(h H, b Int, x Iface) Bool = forall k Str :: {dfind(h, x, k)} dfind(h, x, k) >= 0 ==> jk(dget(h, x, k)) == 1 && is(dget(h, x, k), "iref") && 0 < jr(dget(h, x, k)) && jr(dget(h, x, k)) < b
lemma flat_doc(h H, b Int, x Iface) {
  use docs, mfind_char, flatth
  requires is(x, "iref") && jk(x) == 6 && 0 < jr(x) && jr(x) < b && 0 <= dsl(h, x).base && dsl(h, x).base < b && 0 <= dlen(h, x) && dsorted(h, x) && fstrs(h, b, x)
  ensures isdoc(h, b, x)
  use rank_def
  assert forall i Int :: {dval(h, x, i)} {dkey(h, x, i)} 0 <= i && i < dlen(h, x) ==> dfind(h, x, dkey(h, x, i)) == i && dget(h, x, dkey(h, x, i)) == dval(h, x, i)
  assert forall i Int :: {dval(h, x, i)} {dkey(h, x, i)} 0 <= i && i < dlen(h, x) ==> doc(h, b, dval(h, x, i), 1)
  assert doc(h, b, x, 2)
}
macro fs(h, x, k) = select(hS(h), jr(dget(h, x, k)))
use flatth, splitth, texts, docs, paths, pget_one, psep_1
func "addQueryStringSeg" (body, segs, val) {
  requires v: len(val) == 1
  requires b: len(segs) == 0 || len(segs) == 1 && !segs[0].isNumber && body != nil && jk(body) == 6 && isdoc(hash(), next, body) && fstrs(hash(), next, body)
  ensures leaf: len(segs) == 0 ==> result1 == nil && is(result0, "iref") && jk(result0) == 1 && fresh(ptr(result0, "*jsonutils.JSONString")) && jr(result0) < next && select(hS(hash()), jr(result0)) == val[0]
  ensures same: len(segs) == 0 ==> agree(old(hash()), hash(), old(next))
  ensures ok: len(segs) == 1 ==> result1 == nil && result0 == body
  ensures fs: len(segs) == 1 ==> fstrs(hash(), next, body)
  hint flat_doc(hash(), next, body) when len(segs) == 1
  ensures doc: len(segs) == 1 ==> isdoc(hash(), next, body)
  ensures dom: len(segs) == 1 ==> (forall k Str :: {dfind(hash(), body, k)} dfind(hash(), body, k) >= 0 <==> (k == segs[0].text || dfind(old(hash()), body, k) >= 0))
  ensures kept: len(segs) == 1 ==> (forall k Str :: {dfind(hash(), body, k)} dfind(old(hash()), body, k) >= 0 ==> fs(hash(), body, k) == fs(old(hash()), body, k))
  ensures new: len(segs) == 1 && dfind(old(hash()), body, segs[0].text) < 0 ==> fs(hash(), body, segs[0].text) == val[0]
  modifies all("fld$JSONDict.data"), all("mem$sortedmap.sItem")
  decreases len(segs)
}
macro skeys(x) = unbox(x, "jsonutils.sStringSegments")
extend [C20] "sort.Sort" (x) {
  ensures in: typeis(x, "jsonutils.sStringSegments") ==> forall j Int :: {at(mem(skeys(x)), skeys(x).off, j)} 0 <= j && j < len(skeys(x)) ==> (exists i Int :: {at(old(mem(skeys(x))), skeys(x).off, i)} 0 <= i && i < len(skeys(x)) && at(mem(skeys(x)), skeys(x).off, j) == at(old(mem(skeys(x))), skeys(x).off, i))
  ensures all: typeis(x, "jsonutils.sStringSegments") ==> forall i Int :: {at(old(mem(skeys(x))), skeys(x).off, i)} 0 <= i && i < len(skeys(x)) ==> (exists j Int :: {at(mem(skeys(x)), skeys(x).off, j)} 0 <= j && j < len(skeys(x)) && at(mem(skeys(x)), skeys(x).off, j) == at(old(mem(skeys(x))), skeys(x).off, i))
  modifies mem(skeys(x))
}
spec named qmark(j Int) Bool = true
macro qplain(s) = pqok(s) && pqm(s) <= 10000 && (forall k Str :: {pqn(s, k)} (pqn(s, k) == 0 || pqn(s, k) == 1) && (pqn(s, k) > 0 ==> plainkey(k)))
func "(*JSONDict).parseQueryString" (this, str) {
  requires nonpanic: this != nil
  requires d: isdoc(hash(), next, iface(this)) && len(this.data) == 0
  requires q: qplain(str)
  ensures ok: result == nil
  ensures doc: isdoc(hash(), next, iface(this)) && fstrs(hash(), next, iface(this))
  ensures dom: forall k Str :: {dfind(hash(), iface(this), k)} dfind(hash(), iface(this), k) >= 0 <==> pqn(str, k) > 0
  ensures val: forall k Str :: {dfind(hash(), iface(this), k)} dfind(hash(), iface(this), k) >= 0 ==> fs(hash(), iface(this), k) == pqv(str, k, 0)
  modifies all("fld$JSONDict.data"), all("mem$sortedmap.sItem"), all("mem$reflect.Value"), all("mem$[]jsonutils.sTextNumber")
  invariant loop 0 own: fresh(keys) && 0 <= len(keys)
  invariant loop 0 in: forall j Int :: {at(mem(keys), keys.off, j)} 0 <= j && j < len(keys) ==> mapdom(itermap)[keys[j]]
  invariant loop 0 all: forall k Str :: {select(select(comp("iter$Str"), mapiter), k)} select(select(comp("iter$Str"), mapiter), k) ==> (exists j Int :: {qmark(j)} {at(mem(keys), keys.off, j)} qmark(j) && 0 <= j && j < len(keys) && at(mem(keys), keys.off, j) == k)
  invariant loop 0 vals: forall k Str :: {mapval(itermap)[k]} mapdom(itermap)[k] ==> len(mapval(itermap)[k]) == 1 && mapval(itermap)[k].base != keys.base && at(mem(val(mapval(itermap)[k], "[]string")), mapval(itermap)[k].off, 0) == pqv(str, k, 0)
  invariant loop 1 all: forall k Str :: {pqn(str, k)} pqn(str, k) > 0 ==> (exists j Int :: {at(mem(segmentKeys), segmentKeys.off, j)} 0 <= j && j < len(segmentKeys) && segmentKeys[j][0].text == k)
  invariant loop 1 seg: forall j Int :: {at(mem(segmentKeys), segmentKeys.off, j)} 0 <= j && j < len(segmentKeys) ==> len(segmentKeys[j]) == 1 && !segmentKeys[j][0].isNumber && pqn(str, segmentKeys[j][0].text) > 0
  invariant loop 1 ok: isdoc(hash(), next, iface(this)) && fstrs(hash(), next, iface(this))
  invariant loop 1 sub: forall k Str :: {dfind(hash(), iface(this), k)} dfind(hash(), iface(this), k) >= 0 ==> pqn(str, k) > 0 && fs(hash(), iface(this), k) == pqv(str, k, 0)
  invariant loop 1 done: forall j Int :: {at(mem(segmentKeys), segmentKeys.off, j)} 0 <= j && j < ix ==> dfind(hash(), iface(this), segmentKeys[j][0].text) >= 0
}
func "ParseQueryString" (str) {
  use mfind_char, mfind_zero
  callhint "NewDict" flat_doc(hash(), next, iface(r0))
  requires q: qplain(str)
  ensures ok: result1 == nil && jk(result0) == 6 && isdoc(hash(), next, result0) && fstrs(hash(), next, result0)
  ensures dom: forall k Str :: {dfind(hash(), result0, k)} dfind(hash(), result0, k) >= 0 <==> pqn(str, k) > 0
  ensures val: forall k Str :: {dfind(hash(), result0, k)} dfind(hash(), result0, k) >= 0 ==> fs(hash(), result0, k) == pqv(str, k, 0)
  modifies all("fld$JSONDict.data"), all("mem$sortedmap.sItem"), all("mem$reflect.Value"), all("mem$[]jsonutils.sTextNumber")
}
// what the text of a flat dictionary of strings denotes
spec named flatd(h H, x Iface) Bool = jk(x) == 6 && (forall i Int :: {dval(h, x, i)} {dkey(h, x, i)} 0 <= i && i < dlen(h, x) ==> plainkey(dkey(h, x, i)) && jk(dval(h, x, i)) == 1 && slen(select(hS(h), jr(dval(h, x, i)))) > 0)
lemma dqs_back(h H, b Int, x Iface, i Int) {
  use flatth, mfind_char, docs
  requires isdoc(h, b, x) && flatd(h, x) && 0 <= i && i <= dlen(h, x)
  ensures let t = dqs(h, x, sempty, i, rank(h, x)-1) in pqok(t) && pqm(t) == (i > 0 ? i : 1)
  ensures let t = dqs(h, x, sempty, i, rank(h, x)-1) in (forall k Str :: {pqn(t, k)} {dfind(h, x, k)} pqn(t, k) == (0 <= dfind(h, x, k) && dfind(h, x, k) < i ? 1 : 0))
  ensures let t = dqs(h, x, sempty, i, rank(h, x)-1) in (forall k Str :: {pqv(t, k, 0)} {dfind(h, x, k)} 0 <= dfind(h, x, k) && dfind(h, x, k) < i ==> pqv(t, k, 0) == select(hS(h), jr(dget(h, x, k))))
  use dqs_back(h, b, x, i-1) when i > 0
  use pq_empty() when i == 0
  use pq_one(dkey(h, x, i-1), select(hS(h), jr(dval(h, x, i-1)))) when i == 1
  use pq_more(dqs(h, x, sempty, i-1, rank(h, x)-1), dkey(h, x, i-1), select(hS(h), jr(dval(h, x, i-1)))) when i > 1
  use isdoc_val(h, b, x, i-1) when i > 0
  use m_at(select(hMI(h), dsl(h, x).base), dsl(h, x).off, dlen(h, x), i-1, dkey(h, x, i-1)) when i > 0
  assert i > 0 ==> qs(h, dval(h, x, i-1), dkey(h, x, i-1), rank(h, x)-1) == pit(dkey(h, x, i-1), select(hS(h), jr(dval(h, x, i-1))))
  assert i > 0 ==> dotted(sempty, dkey(h, x, i-1)) == dkey(h, x, i-1)
  assert i == 1 ==> dqs(h, x, sempty, i, rank(h, x)-1) == pit(dkey(h, x, 0), select(hS(h), jr(dval(h, x, 0))))
  assert i > 1 ==> dqs(h, x, sempty, i, rank(h, x)-1) == dqs(h, x, sempty, i-1, rank(h, x)-1) ++ "&" ++ pit(dkey(h, x, i-1), select(hS(h), jr(dval(h, x, i-1))))
  assert i > 0 ==> dget(h, x, dkey(h, x, i-1)) == dval(h, x, i-1)
  decreases i
}
// the text of a flat dictionary may be read back ...
lemma back_plain(h H, b Int, x Iface) {
  use flatth, mfind_char, docs
  requires isdoc(h, b, x) && flatd(h, x) && dlen(h, x) <= 10000
  ensures let t = rqs(h, x, sempty) in qplain(t)
  ensures let t = rqs(h, x, sempty) in (forall k Str :: {pqn(t, k)} {dfind(h, x, k)} pqn(t, k) > 0 <==> dfind(h, x, k) >= 0)
  ensures let t = rqs(h, x, sempty) in (forall k Str :: {pqv(t, k, 0)} {dfind(h, x, k)} dfind(h, x, k) >= 0 ==> pqv(t, k, 0) == fs(h, x, k))
  use dqs_back(h, b, x, dlen(h, x))
  assert rqs(h, x, sempty) == dqs(h, x, sempty, dlen(h, x), rank(h, x)-1)
  assert forall k Str :: {dfind(h, x, k)} dfind(h, x, k) >= 0 ==> dkey(h, x, dfind(h, x, k)) == k && dfind(h, x, k) < dlen(h, x)
}
// ... and the result equals the dictionary
lemma back_equal(g H, b Int, x Iface, h H, c Int, y Iface) {
  use flatth, mfind_char, docs, deqth, deq_dict, deq_flat
  requires isdoc(g, b, x) && flatd(g, x) && dlen(g, x) <= 10000
  requires isdoc(h, c, y) && jk(y) == 6 && fstrs(h, c, y)
  requires let t = rqs(g, x, sempty) in (forall k Str :: {dfind(h, y, k)} dfind(h, y, k) >= 0 <==> pqn(t, k) > 0)
  requires let t = rqs(g, x, sempty) in (forall k Str :: {dfind(h, y, k)} dfind(h, y, k) >= 0 ==> fs(h, y, k) == pqv(t, k, 0))
  ensures deq(true, g, x, h, y)
  use back_plain(g, b, x)
  assert forall k Str :: {dfind(g, x, k)} dfind(g, x, k) >= 0 ==> dget(g, x, k) == dval(g, x, dfind(g, x, k)) && jk(dget(g, x, k)) == 1 && isdoc(g, b, dget(g, x, k))
  assert forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0
  assert forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} dfind(g, x, k) >= 0 ==> deq(true, g, dget(g, x, k), h, dget(h, y, k))
}
property C19 {
  funcs "(sStringSegments).Less", "(sTextNumber).compare", "(sStringSegments).Len", "(sStringSegments).Swap", "string2Segments", "segments2string", "stringSegments2Strings"
  lemmas segless_order
  safety termination
}
property C20 {
  funcs "simpleQueryString", "JSONObject._queryString", "(*JSONDict).QueryString", "strings2stringSegments", "segments2string", "addQueryStringSeg", "ParseQueryString"
  lemmas qs_flat, qs_join_a, qs_join_d, back_plain, back_equal
  safety termination
}
