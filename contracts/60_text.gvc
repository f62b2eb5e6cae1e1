// ---- compact text (C05, C07) ----
use fmtth, docs, qtext
theory fmtth : json `
(declare-fun itoa (Int) Str)
(declare-fun ftoa (Flt Int) Str)
; the six-decimal text of a float
(declare-fun f6 (Flt) Str)
(define-fun fbits ((b Int)) Int (ite (= b 32) 32 64))
`
extern "fmt.Sprintf" (f, args) {
  ensures d: f == "%d" && len(args) == 1 && is(args[0], "iint") ==> result == itoa(iiv(args[0]))
  ensures f: f == "%f" && len(args) == 1 && is(args[0], "iflt") ==> result == f6(ifv(args[0]))
  ensures v: f == "%v" && len(args) == 1 && is(args[0], "ibool") ==> result == (ibv(args[0]) ? "true" : "false")
  ensures ss: f == "%s.%s" && len(args) == 2 && is(args[0], "istr") && is(args[1], "istr") ==> result == isv(args[0]) ++ "." ++ isv(args[1])
  ensures sd: f == "%s.%d" && len(args) == 2 && is(args[0], "istr") && is(args[1], "iint") ==> result == isv(args[0]) ++ "." ++ itoa(iiv(args[1]))
  modifies nothing
}
extern "strconv.FormatInt" (i, base) {
  requires nonpanic: 2 <= base && base <= 36
  ensures d: base == 10 ==> result == itoa(i)
  modifies nothing
}
extern "strconv.Itoa" (i) {
  ensures d: result == itoa(i)
  modifies nothing
}
extern "strconv.FormatFloat" (f, fmt, prec, bits) {
  requires nonpanic: bits == 32 || bits == 64
  ensures f: fmt == 102 && prec == 0-1 ==> result == ftoa(f, bits)
  modifies nothing
}
theory textth : fmtth, docs, qtext ` `
spec named dhead(h H, x Iface) Str = select(hN(h), jr(x)) > 0 ? quoted("___jnid_") ++ sunit(58) ++ itoa(select(hN(h), jr(x))) : sempty
spec opaque text(h H, x Iface, n Int) Str =
  n <= 0 ? sempty :
  (jk(x) == 1 ? quoted(select(hS(h), jr(x))) :
  (jk(x) == 2 ? itoa(select(hI(h), jr(x))) :
  (jk(x) == 3 ? ftoa(select(hF(h), jr(x)), fbits(select(hFb(h), jr(x)))) :
  (jk(x) == 4 ? (select(hB(h), jr(x)) ? "true" : "false") :
  (jk(x) == 5 ? sunit(91) ++ atext(h, x, alen(h, x), n-1) ++ sunit(93) :
  (jk(x) == 6 ? sunit(123) ++ dtext(h, x, dlen(h, x), n-1) ++ sunit(125) : "null"))))))
spec opaque atext(h H, x Iface, i Int, n Int) Str =
  i <= 0 ? sempty : (i == 1 ? text(h, ael(h, x, 0), n) : atext(h, x, i-1, n) ++ sunit(44) ++ text(h, ael(h, x, i-1), n))
spec opaque dtext(h H, x Iface, i Int, n Int) Str =
  i <= 0 ? dhead(h, x) :
  (i == 1 && select(hN(h), jr(x)) <= 0 ? quoted(dkey(h, x, 0)) ++ sunit(58) ++ text(h, dval(h, x, 0), n) :
   dtext(h, x, i-1, n) ++ sunit(44) ++ quoted(dkey(h, x, i-1)) ++ sunit(58) ++ text(h, dval(h, x, i-1), n))
spec rtext(h H, x Iface) Str = text(h, x, rank(h, x))
spec ratext(h H, x Iface, i Int) Str = atext(h, x, i, rank(h, x)-1)
spec rdtext(h H, x Iface, i Int) Str = dtext(h, x, i, rank(h, x)-1)
use fmtth, docs, qtext, textth
lemma atext_fuel(h H, x Iface, i Int, n Int, m Int) {
  requires forall j Int :: {ael(h, x, j)} 0 <= j && j < i ==> text(h, ael(h, x, j), n) == text(h, ael(h, x, j), m)
  ensures atext(h, x, i, n) == atext(h, x, i, m)
  use atext_fuel(h, x, i-1, n, m) when i > 1
  decreases i
}
lemma dtext_fuel(h H, x Iface, i Int, n Int, m Int) {
  requires forall j Int :: {dval(h, x, j)} 0 <= j && j < i ==> text(h, dval(h, x, j), n) == text(h, dval(h, x, j), m)
  ensures dtext(h, x, i, n) == dtext(h, x, i, m)
  use dtext_fuel(h, x, i-1, n, m) when i > 0
  decreases i
}
lemma text_fuel(h H, b Int, x Iface, n Int, m Int) {
  requires doc(h, b, x, n) && doc(h, b, x, m)
  ensures text(h, x, n) == text(h, x, m)
  useall i Int {ael(h, x, i)} text_fuel(h, b, ael(h, x, i), n-1, m-1)
  useall i Int {dval(h, x, i)} text_fuel(h, b, dval(h, x, i), n-1, m-1)
  use atext_fuel(h, x, alen(h, x), n-1, m-1) when jk(x) == 5
  use dtext_fuel(h, x, dlen(h, x), n-1, m-1) when jk(x) == 6
  decreases n
}
lemma text_flat(h H, b Int, x Iface) {
  trigger rtext(h, x), isdoc(h, b, x)
  requires isdoc(h, b, x)
  ensures jk(x) == 1 ==> rtext(h, x) == quoted(select(hS(h), jr(x)))
  ensures jk(x) == 2 ==> rtext(h, x) == itoa(select(hI(h), jr(x)))
  ensures jk(x) == 3 ==> rtext(h, x) == ftoa(select(hF(h), jr(x)), fbits(select(hFb(h), jr(x))))
  ensures jk(x) == 4 && select(hB(h), jr(x)) ==> rtext(h, x) == "true"
  ensures jk(x) == 4 && !select(hB(h), jr(x)) ==> rtext(h, x) == "false"
  ensures jk(x) == 5 ==> rtext(h, x) == sunit(91) ++ ratext(h, x, alen(h, x)) ++ sunit(93)
  ensures jk(x) == 6 ==> rtext(h, x) == sunit(123) ++ rdtext(h, x, dlen(h, x)) ++ sunit(125)
  ensures jk(x) == 7 ==> rtext(h, x) == "null"
}
lemma text_a0(h H, x Iface, i Int) {
  trigger ratext(h, x, i)
  ensures i <= 0 ==> ratext(h, x, i) == sempty
}
lemma text_d0(h H, x Iface, i Int) {
  trigger rdtext(h, x, i)
  ensures i <= 0 ==> rdtext(h, x, i) == dhead(h, x)
}
lemma text_a(h H, b Int, x Iface, i Int, j Int) {
  trigger isdoc(h, b, x), ratext(h, x, i), ratext(h, x, j)
  use doc, docs, textth, rank_def
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= i && j == i + 1 && j <= alen(h, x)
  ensures i == 0 ==> ratext(h, x, j) == rtext(h, ael(h, x, i))
  ensures i > 0 ==> ratext(h, x, j) == ratext(h, x, i) ++ sunit(44) ++ rtext(h, ael(h, x, i))
  use text_fuel(h, b, ael(h, x, i), rank(h, x)-1, rank(h, ael(h, x, i)))
}
lemma text_d(h H, b Int, x Iface, i Int, j Int) {
  trigger isdoc(h, b, x), rdtext(h, x, i), rdtext(h, x, j)
  use doc, docs, textth, rank_def
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= i && j == i + 1 && j <= dlen(h, x)
  ensures i == 0 && select(hN(h), jr(x)) <= 0 ==> rdtext(h, x, j) == quoted(dkey(h, x, i)) ++ sunit(58) ++ rtext(h, dval(h, x, i))
  ensures i > 0 || select(hN(h), jr(x)) > 0 ==> rdtext(h, x, j) == rdtext(h, x, i) ++ sunit(44) ++ quoted(dkey(h, x, i)) ++ sunit(58) ++ rtext(h, dval(h, x, i))
  use text_fuel(h, b, dval(h, x, i), rank(h, x)-1, rank(h, dval(h, x, i)))
}
// frame: the text of a document that did not change
lemma atext_frame(g H, h H, b Int, c Int, x Iface, i Int, n Int) {
  requires agree(g, h, b) && c <= b && doc(g, c, x, n+1) && jk(x) == 5 && i <= alen(g, x)
  requires forall j Int :: {ael(g, x, j)} 0 <= j && j < alen(g, x) ==> text(g, ael(g, x, j), n) == text(h, ael(g, x, j), n)
  ensures atext(g, x, i, n) == atext(h, x, i, n)
  assert i > 0 ==> ael(g, x, i-1) == ael(h, x, i-1)
  assert i > 0 ==> ael(g, x, 0) == ael(h, x, 0)
  use atext_frame(g, h, b, c, x, i-1, n) when i > 1
  decreases i
}
lemma dtext_frame(g H, h H, b Int, c Int, x Iface, i Int, n Int) {
  requires agree(g, h, b) && c <= b && doc(g, c, x, n+1) && jk(x) == 6 && i <= dlen(g, x)
  requires forall j Int :: {dval(g, x, j)} 0 <= j && j < dlen(g, x) ==> text(g, dval(g, x, j), n) == text(h, dval(g, x, j), n)
  ensures dtext(g, x, i, n) == dtext(h, x, i, n)
  assert i > 0 ==> dval(g, x, i-1) == dval(h, x, i-1) && dkey(g, x, i-1) == dkey(h, x, i-1)
  assert i > 0 ==> dval(g, x, 0) == dval(h, x, 0) && dkey(g, x, 0) == dkey(h, x, 0)
  assert dhead(g, x) == dhead(h, x)
  use dtext_frame(g, h, b, c, x, i-1, n) when i > 0
  decreases i
}
lemma text_frame(g H, h H, b Int, c Int, x Iface, n Int) {
  requires agree(g, h, b) && c <= b && doc(g, c, x, n)
  ensures text(g, x, n) == text(h, x, n)
  useall i Int {ael(g, x, i)} text_frame(g, h, b, c, ael(g, x, i), n-1)
  useall i Int {dval(g, x, i)} text_frame(g, h, b, c, dval(g, x, i), n-1)
  use atext_frame(g, h, b, c, x, alen(g, x), n-1) when jk(x) == 5
  use dtext_frame(g, h, b, c, x, dlen(g, x), n-1) when jk(x) == 6
  decreases n
}
lemma rtext_frame(g H, h H, b Int, c Int, x Iface) {
  trigger agree(g, h, b), rtext(h, x), isdoc(g, c, x)
  requires agree(g, h, b) && c <= b && isdoc(g, c, x)
  ensures rtext(h, x) == rtext(g, x)
  use isdoc_frame(g, h, b, c, x)
  use text_frame(g, h, b, c, x, rank(g, x))
}
theory texts : textth, text_flat, text_a0, text_d0, text_a, text_d ` `
use texts, docs
iface "JSONObject.buildString" (this, sb) {
  requires d: isdoc(hash(), next, this)
  requires nonpanic: sb != nil
  ensures t: view(sb) == old(view(sb)) ++ rtext(hash(), this)
  modifies view(sb)
  decreases 2*rank(hash(), this) + (jk(this) == 5 || jk(this) == 6 ? 0 : 1)
  except "*jsonutils.sJSONPointer"
}
iface "JSONObject.String" (this) {
  requires d: isdoc(hash(), next, this)
  ensures t: result == rtext(hash(), this)
  modifies nothing
  decreases 2*rank(hash(), this) + (jk(this) == 5 || jk(this) == 6 ? 1 : 0)
  except "*jsonutils.sJSONPointer"
}
impl "(*JSONArray).buildString" (this, sb) {
  invariant t: view(sb) == old(view(sb)) ++ sunit(91) ++ ratext(hash(), this, ix)
  invariant loop 9 first: first <==> ix == 0
  invariant loop 9 more: more <==> ix > 0
}
impl "(*JSONDict).buildString" (this, sb) {
  invariant b: 0 <= iter.index && iter.index <= len(iter.smap) && iter.smap == dsl(hash(), this)
  invariant n: idx == iter.index + (select(hN(hash()), jr(this)) > 0 ? 1 : 0)
  invariant loop 9 first: first <==> (iter.index == 0 && select(hN(hash()), jr(this)) <= 0)
  invariant loop 9 more: more <==> !(iter.index == 0 && select(hN(hash()), jr(this)) <= 0)
  decreases loop 0 len(iter.smap) - iter.index
  invariant t: view(sb) == old(view(sb)) ++ sunit(123) ++ rdtext(hash(), this, iter.index)
}
// ---- the text depends on the content alone ----
spec opaque nonode(h H, x Iface, n Int) Bool =
  n > 0
  && (jk(x) == 5 ==> (forall i Int :: {ael(h, x, i)} 0 <= i && i < alen(h, x) ==> nonode(h, ael(h, x, i), n-1)))
  && (jk(x) == 6 ==> select(hN(h), jr(x)) <= 0 && (forall i Int :: {dval(h, x, i)} 0 <= i && i < dlen(h, x) ==> nonode(h, dval(h, x, i), n-1)))
lemma m_same_at(a `(Array Int St_sortedmap.sItem)`, ao Int, n Int, b `(Array Int St_sortedmap.sItem)`, bo Int, m Int) {
  requires n >= 0 && m >= 0 && msorted(a, ao, n) && msorted(b, bo, m)
  requires forall k Str :: {mfind(a, ao, n, k)} {mfind(b, bo, m, k)} mfind(a, ao, n, k) >= 0 <==> mfind(b, bo, m, k) >= 0
  ensures n == m && (forall i Int :: {at(a, ao, i)} {at(b, bo, i)} 0 <= i && i < n ==> ikey(at(a, ao, i)) == ikey(at(b, bo, i)))
  use mfind_char
  assert n > 0 ==> mfind(a, ao, n, ikey(at(a, ao, n-1))) == n-1
  assert m > 0 ==> mfind(b, bo, m, ikey(at(b, bo, m-1))) == m-1
  assert n > 0 && m > 0 ==> ikey(at(b, bo, mfind(b, bo, m, ikey(at(a, ao, n-1))))) == ikey(at(a, ao, n-1)) && (ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1)) || ikey(at(a, ao, n-1)) < ikey(at(b, bo, m-1)))
  assert n > 0 && m > 0 ==> ikey(at(a, ao, mfind(a, ao, n, ikey(at(b, bo, m-1))))) == ikey(at(b, bo, m-1)) && (ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1)) || ikey(at(b, bo, m-1)) < ikey(at(a, ao, n-1)))
  assert n > 0 && m > 0 ==> ikey(at(a, ao, n-1)) == ikey(at(b, bo, m-1))
  use m_same_at(a, ao, n-1, b, bo, m-1) when n > 0 && m > 0
  decreases n
}
lemma atext_same(g H, x Iface, h H, y Iface, i Int, n Int) {
  requires forall j Int :: {ael(g, x, j)} {ael(h, y, j)} 0 <= j && j < i ==> text(g, ael(g, x, j), n) == text(h, ael(h, y, j), n)
  ensures atext(g, x, i, n) == atext(h, y, i, n)
  use atext_same(g, x, h, y, i-1, n) when i > 1
  decreases i
}
lemma dtext_same(g H, x Iface, h H, y Iface, i Int, n Int) {
  requires select(hN(g), jr(x)) <= 0 && select(hN(h), jr(y)) <= 0
  requires forall j Int :: {dval(g, x, j)} {dval(h, y, j)} 0 <= j && j < i ==> dkey(g, x, j) == dkey(h, y, j) && text(g, dval(g, x, j), n) == text(h, dval(h, y, j), n)
  ensures dtext(g, x, i, n) == dtext(h, y, i, n)
  use dtext_same(g, x, h, y, i-1, n) when i > 0
  decreases i
}
lemma text_same(g H, b Int, x Iface, h H, c Int, y Iface, n Int) {
  use fmtth, docs, qtext, textth, eqs, mfind_char, doc_get
  requires doc(g, b, x, n) && doc(h, c, y, n) && deqn(true, g, x, h, y, n) && nonode(g, x, n) && nonode(h, y, n)
  ensures text(g, x, n) == text(h, y, n)
  use m_same_at(select(hMI(g), dsl(g, x).base), dsl(g, x).off, dlen(g, x), select(hMI(h), dsl(h, y).base), dsl(h, y).off, dlen(h, y)) when jk(x) == 6
  useall i Int {ael(g, x, i)} {ael(h, y, i)} text_same(g, b, ael(g, x, i), h, c, ael(h, y, i), n-1)
  useall i Int {dval(g, x, i)} {dval(h, y, i)} text_same(g, b, dval(g, x, i), h, c, dval(h, y, i), n-1)
  assert forall i Int :: {dval(g, x, i)} {dval(h, y, i)} jk(x) == 6 && 0 <= i && i < dlen(g, x) ==> dkey(g, x, i) == dkey(h, y, i) && dfind(g, x, dkey(g, x, i)) == i && dfind(h, y, dkey(h, y, i)) == i && dget(g, x, dkey(g, x, i)) == dval(g, x, i) && dget(h, y, dkey(h, y, i)) == dval(h, y, i)
  use atext_same(g, x, h, y, alen(g, x), n-1) when jk(x) == 5
  use dtext_same(g, x, h, y, dlen(g, x), n-1) when jk(x) == 6
  decreases n
}
lemma text_canon(g H, b Int, x Iface, h H, c Int, y Iface) {
  use fmtth, docs, qtext, textth, eqs, rank_def
  requires isdoc(g, b, x) && isdoc(h, c, y) && deq(true, g, x, h, y) && nonode(g, x, rank(g, x)) && nonode(h, y, rank(g, x))
  ensures rtext(g, x) == rtext(h, y)
  use deqn_height(true, g, x, h, c, y, rank(g, x), rank(h, y))
  use text_same(g, b, x, h, c, y, rank(g, x))
  use text_fuel(h, c, y, rank(g, x), rank(h, y))
}
property C07 {
  funcs "JSONObject.buildString", "JSONObject.String"
  lemmas text_canon, text_flat, text_a, text_d
  safety termination
}
