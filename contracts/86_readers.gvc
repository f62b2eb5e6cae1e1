// ---- pretty text (C06, C17) ----
// the level of a member, in machine arithmetic
theory prettyth : textth `
(define-fun lup ((l Int) (k Int)) Int (wrapS (+ l k) 9223372036854775808))
`
spec opaque ind(n Int) Str = n <= 0 ? sempty : ind(n-1) ++ "  "
spec opaque ptext(h H, x Iface, lv Int, n Int) Str =
  n <= 0 ? sempty :
  (jk(x) == 5 ? ind(lv) ++ sunit(91) ++ aptext(h, x, lv, alen(h, x), n-1) ++ (alen(h, x) > 0 ? sunit(10) ++ ind(lv) : sempty) ++ sunit(93) :
  (jk(x) == 6 ? ind(lv) ++ sunit(123) ++ dptext(h, x, lv, dlen(h, x), n-1) ++ (dlen(h, x) > 0 ? sunit(10) ++ ind(lv) : sempty) ++ sunit(125) :
   ind(lv) ++ text(h, x, n)))
spec opaque aptext(h H, x Iface, lv Int, i Int, n Int) Str =
  i <= 0 ? sempty : aptext(h, x, lv, i-1, n) ++ (i > 1 ? "," : sempty) ++ sunit(10) ++ ptext(h, ael(h, x, i-1), lup(lv, 1), n)
spec opaque dptext(h H, x Iface, lv Int, i Int, n Int) Str =
  i <= 0 ? sempty : dptext(h, x, lv, i-1, n) ++ (i > 1 ? "," : sempty) ++ sunit(10) ++ ind(lv) ++ "  " ++ quoted(dkey(h, x, i-1)) ++ sunit(58)
    ++ (jk(dval(h, x, i-1)) == 5 || jk(dval(h, x, i-1)) == 6 ? sunit(10) ++ ptext(h, dval(h, x, i-1), lup(lv, 2), n) : sunit(32) ++ text(h, dval(h, x, i-1), n))
spec rptext(h H, x Iface, lv Int) Str = ptext(h, x, lv, rank(h, x))
spec raptext(h H, x Iface, lv Int, i Int) Str = aptext(h, x, lv, i, rank(h, x)-1)
spec rdptext(h H, x Iface, lv Int, i Int) Str = dptext(h, x, lv, i, rank(h, x)-1)
use docs, textth, prettyth
lemma aptext_fuel(h H, x Iface, lv Int, i Int, n Int, m Int) {
  requires forall j Int :: {ael(h, x, j)} 0 <= j && j < i ==> ptext(h, ael(h, x, j), lup(lv, 1), n) == ptext(h, ael(h, x, j), lup(lv, 1), m)
  ensures aptext(h, x, lv, i, n) == aptext(h, x, lv, i, m)
  use aptext_fuel(h, x, lv, i-1, n, m) when i > 0
  assert i > 0 ==> ael(h, x, i-1) == ael(h, x, i-1)
  decreases i
}
lemma dptext_fuel(h H, x Iface, lv Int, i Int, n Int, m Int) {
  requires forall j Int :: {dval(h, x, j)} 0 <= j && j < i ==> ptext(h, dval(h, x, j), lup(lv, 2), n) == ptext(h, dval(h, x, j), lup(lv, 2), m) && text(h, dval(h, x, j), n) == text(h, dval(h, x, j), m)
  ensures dptext(h, x, lv, i, n) == dptext(h, x, lv, i, m)
  use dptext_fuel(h, x, lv, i-1, n, m) when i > 0
  decreases i
}
lemma ptext_fuel(h H, b Int, x Iface, lv Int, n Int, m Int) {
  requires doc(h, b, x, n) && doc(h, b, x, m)
  ensures ptext(h, x, lv, n) == ptext(h, x, lv, m)
  use text_fuel(h, b, x, n, m)
  useall i Int {ael(h, x, i)} ptext_fuel(h, b, ael(h, x, i), lup(lv, 1), n-1, m-1)
  useall i Int {dval(h, x, i)} ptext_fuel(h, b, dval(h, x, i), lup(lv, 2), n-1, m-1)
  useall i Int {dval(h, x, i)} text_fuel(h, b, dval(h, x, i), n-1, m-1)
  use aptext_fuel(h, x, lv, alen(h, x), n-1, m-1) when jk(x) == 5
  use dptext_fuel(h, x, lv, dlen(h, x), n-1, m-1) when jk(x) == 6
  decreases n
}
lemma ptext_flat(h H, b Int, x Iface, lv Int) {
  trigger rptext(h, x, lv), isdoc(h, b, x)
  requires isdoc(h, b, x)
  ensures jk(x) == 5 && alen(h, x) > 0 ==> rptext(h, x, lv) == ind(lv) ++ sunit(91) ++ raptext(h, x, lv, alen(h, x)) ++ sunit(10) ++ ind(lv) ++ sunit(93)
  ensures jk(x) == 5 && alen(h, x) <= 0 ==> rptext(h, x, lv) == ind(lv) ++ sunit(91) ++ sunit(93)
  ensures jk(x) == 6 && dlen(h, x) > 0 ==> rptext(h, x, lv) == ind(lv) ++ sunit(123) ++ rdptext(h, x, lv, dlen(h, x)) ++ sunit(10) ++ ind(lv) ++ sunit(125)
  ensures jk(x) == 6 && dlen(h, x) <= 0 ==> rptext(h, x, lv) == ind(lv) ++ sunit(123) ++ sunit(125)
  ensures jk(x) != 5 && jk(x) != 6 ==> rptext(h, x, lv) == ind(lv) ++ rtext(h, x)
}
lemma ptext_a0(h H, x Iface, lv Int, i Int) {
  trigger raptext(h, x, lv, i)
  ensures i <= 0 ==> raptext(h, x, lv, i) == sempty
}
lemma ptext_d0(h H, x Iface, lv Int, i Int) {
  trigger rdptext(h, x, lv, i)
  ensures i <= 0 ==> rdptext(h, x, lv, i) == sempty
}
lemma ptext_a(h H, b Int, x Iface, lv Int, i Int, j Int) {
  trigger isdoc(h, b, x), raptext(h, x, lv, i), raptext(h, x, lv, j)
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= i && j == i + 1 && j <= alen(h, x)
  ensures i == 0 ==> raptext(h, x, lv, j) == sunit(10) ++ rptext(h, ael(h, x, i), lup(lv, 1))
  ensures i > 0 ==> raptext(h, x, lv, j) == raptext(h, x, lv, i) ++ "," ++ sunit(10) ++ rptext(h, ael(h, x, i), lup(lv, 1))
  use ptext_fuel(h, b, ael(h, x, i), lup(lv, 1), rank(h, x)-1, rank(h, ael(h, x, i)))
}
lemma ptext_d(h H, b Int, x Iface, lv Int, i Int, j Int) {
  trigger isdoc(h, b, x), rdptext(h, x, lv, i), rdptext(h, x, lv, j)
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= i && j == i + 1 && j <= dlen(h, x)
  ensures i == 0 && (jk(dval(h, x, i)) == 5 || jk(dval(h, x, i)) == 6) ==> rdptext(h, x, lv, j) == sunit(10) ++ ind(lv) ++ "  " ++ quoted(dkey(h, x, i)) ++ sunit(58) ++ sunit(10) ++ rptext(h, dval(h, x, i), lup(lv, 2))
  ensures i == 0 && jk(dval(h, x, i)) != 5 && jk(dval(h, x, i)) != 6 ==> rdptext(h, x, lv, j) == sunit(10) ++ ind(lv) ++ "  " ++ quoted(dkey(h, x, i)) ++ sunit(58) ++ sunit(32) ++ rtext(h, dval(h, x, i))
  ensures i > 0 && (jk(dval(h, x, i)) == 5 || jk(dval(h, x, i)) == 6) ==> rdptext(h, x, lv, j) == rdptext(h, x, lv, i) ++ "," ++ sunit(10) ++ ind(lv) ++ "  " ++ quoted(dkey(h, x, i)) ++ sunit(58) ++ sunit(10) ++ rptext(h, dval(h, x, i), lup(lv, 2))
  ensures i > 0 && jk(dval(h, x, i)) != 5 && jk(dval(h, x, i)) != 6 ==> rdptext(h, x, lv, j) == rdptext(h, x, lv, i) ++ "," ++ sunit(10) ++ ind(lv) ++ "  " ++ quoted(dkey(h, x, i)) ++ sunit(58) ++ sunit(32) ++ rtext(h, dval(h, x, i))
  use ptext_fuel(h, b, dval(h, x, i), lup(lv, 2), rank(h, x)-1, rank(h, dval(h, x, i)))
  use text_fuel(h, b, dval(h, x, i), rank(h, x)-1, rank(h, dval(h, x, i)))
}
lemma ind_step(n Int, m Int) {
  trigger ind(n), ind(m)
  requires 0 <= n && m == n + 1
  ensures ind(m) == ind(n) ++ "  "
}
lemma ind_zero(n Int) {
  trigger ind(n)
  requires n <= 0
  ensures ind(n) == sempty
}
theory pretties : prettyth, ind_step, ind_zero, ptext_flat, ptext_a0, ptext_d0, ptext_a, ptext_d ` `
use docs, texts, pretties
func "jsonPrettyString" (o, level) {
  requires nonpanic: o != nil
  requires d: isdoc(hash(), next, o)
  ensures t: level <= 0 ==> result == rtext(hash(), o)
  ensures u: level > 0 ==> result == ind(level) ++ rtext(hash(), o)
  modifies nothing
  invariant i: 0 <= i && (i <= level || i == 0)
  invariant t: view(buffer) == ind(i)
  invariant loop 9 down: (n >= 0 || n == level) && n <= level && view(sbuf) == ind(level - n)
}
iface "JSONObject.prettyString" (this, level) {
  requires d: isdoc(hash(), next, this)
  ensures t: result == rptext(hash(), this, level)
  modifies nothing
  decreases rank(hash(), this)
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray).prettyString" (this, level) {
  invariant i: 0 <= i && (i <= level || i == 0)
  invariant lb: view(linebuf) == ind(i)
  invariant t: view(buffer) == ind(level) ++ sunit(91) ++ raptext(hash(), this, level, ix)
  invariant loop 9 down: (n >= 0 || n == level) && n <= level && view(sbuf) == ind(level - n)
  invariant loop 9 first: first <==> ix == 0
  invariant loop 9 more: more <==> ix > 0
}
impl "(*JSONDict).prettyString" (this, level) {
  decreases loop 1 len(iter.smap) - iter.index
  invariant i: 0 <= i && (i <= level || i == 0)
  invariant lb: view(linebuf) == ind(i)
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == dsl(hash(), this)
  invariant n: idx == iter.index
  invariant loop 9 down: (n >= 0 || n == level) && n <= level && view(sbuf) == ind(level - n)
  invariant loop 9 first: first <==> iter.index == 0
  invariant loop 9 more: more <==> iter.index > 0
  invariant t: view(buffer) == ind(level) ++ sunit(123) ++ rdptext(hash(), this, level, iter.index)
}
iface "JSONObject.PrettyString" (this) {
  requires d: isdoc(hash(), next, this)
  ensures t: jk(this) == 5 || jk(this) == 6 ==> result == rptext(hash(), this, 0)
  ensures s: jk(this) != 5 && jk(this) != 6 ==> result == rtext(hash(), this)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
// ---- the remaining readers (C17) ----
use docs, texts, paths
extern "timeutils.ParseTimeStr" (s) {
  modifies nothing
}
extern "time.Parse" (f, s) {
  modifies nothing
}
extern "strings.TrimSpace" (s) {
  use curr
  ensures t: result == trim(s)
  modifies nothing
}
iface "JSONObject.GetTime" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures bad: let v = PV(old(hash()), this, keys) in (jk(v) != 1 ==> result1 != nil)
  modifies nothing
  decreases jk(this) == 6 ? 1 : 0
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.GetIgnoreCases" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures other: jk(this) != 6 ==> result0 == nil && result1 != nil
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.ContainsIgnoreCases" (this, keys) {
  requires d: isdoc(hash(), next, this)
  ensures other: jk(this) != 6 ==> !result
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.QueryString" (this) {
  requires d: isdoc(hash(), next, this)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.isCompond" (this) {
  requires d: isdoc(hash(), next, this)
  ensures c: result <==> (jk(this) == 5 || jk(this) == 6)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.IsZero" (this) {
  requires d: isdoc(hash(), next, this)
  ensures null: jk(this) == 7 ==> result
  ensures str: jk(this) == 1 ==> (result <==> select(hS(hash()), jr(this)) == "")
  ensures int: jk(this) == 2 ==> (result <==> select(hI(hash()), jr(this)) == 0)
  ensures bool: jk(this) == 4 ==> (result <==> !select(hB(hash()), jr(this)))
  ensures arr: jk(this) == 5 ==> (result <==> alen(hash(), this) == 0)
  ensures dict: jk(this) == 6 ==> (result <==> dlen(hash(), this) == 0)
  modifies nothing
  except "*jsonutils.sJSONPointer"
}
func "(*JSONString).Length" (this) {
  requires nonpanic: this != nil
  ensures r: result == slen(this.data)
  modifies nothing
}
func "(*JSONString).Value" (this) {
  requires nonpanic: this != nil
  ensures r: result == this.data
  modifies nothing
}
func "(*JSONInt).Value" (this) {
  requires nonpanic: this != nil
  ensures r: result == this.data
  modifies nothing
}
func "(*JSONFloat).Value" (this) {
  requires nonpanic: this != nil
  ensures r: result == this.data
  modifies nothing
}
func "(*JSONBool).Value" (this) {
  requires nonpanic: this != nil
  ensures r: result == this.data
  modifies nothing
}
func "(*JSONDict).Value" (this) {
  requires nonpanic: this != nil
  requires d: isdoc(hash(), next, iface(this))
  modifies nothing
}
func "(*JSONArray).Value" (this) {
  requires nonpanic: this != nil
  requires d: isdoc(hash(), next, iface(this))
  modifies nothing
}
func "utils.ToBool" (s) {
  use strconv, curr
  ensures yes: old(truestrs()) ==> (result <==> tobool(s))
  invariant k: truestrs() ==> (forall j Int :: {truestr(j)} 0 <= j && j <= ix ==> truestr(j) != lower(trim(s)))
  modifies nothing
}
func "QueryBoolean" (query, key, defVal) {
  use pget_one
  requires d: query == nil || isdoc(hash(), next, query)
  ensures def: query == nil || jk(query) != 6 || dfind(old(hash()), query, key) < 0 ==> result == defVal
  modifies nothing
}
property C17 {
  funcs "JSONObject.buildString", "JSONObject.String", "jsonPrettyString", "JSONObject.prettyString", "JSONObject.PrettyString", "simpleQueryString", "JSONObject._queryString", "JSONObject.QueryString", "(*JSONDict).QueryString", "JSONObject.Equals", "JSONObject.Get", "(*JSONDict).Get", "(*JSONDict)._get", "JSONObject.Contains", "(*JSONDict).Contains", "JSONObject.GetIgnoreCases", "(*JSONDict).GetIgnoreCases", "JSONObject.ContainsIgnoreCases", "(*JSONDict).ContainsIgnoreCases", "JSONObject.Int", "JSONObject.Float", "JSONObject.Bool", "JSONObject.GetString", "JSONObject.GetTime", "JSONObject.GetAt", "JSONObject.GetArray", "JSONObject.GetMap", "(*JSONArray).GetAt", "(*JSONArray).GetArray", "JSONObject.Interface", "JSONObject.isCompond", "JSONObject.IsZero", "(*JSONString).Length", "(*JSONArray).Length", "(*JSONDict).Length", "(*JSONArray).Size", "(*JSONDict).Size", "(*JSONDict).SortedKeys", "(*JSONString).Value", "(*JSONInt).Value", "(*JSONFloat).Value", "(*JSONBool).Value", "(*JSONDict).Value", "(*JSONArray).Value", "(*JSONDict).Copy", "(*JSONDict).CopyExcludes", "(*JSONDict).CopyIncludes", "(*JSONArray).Copy", "DeepCopy", "Diff", "QueryBoolean", "CheckRequiredFields", "JSONArray2StringArray", "(*JSONArray).GetStringArray", "GetStringArray", "GetAnyString", "GetAnyString2", "GetArrayOfPrefix", "GetQueryStringArray"
}
