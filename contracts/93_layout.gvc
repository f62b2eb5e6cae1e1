// C05, C06: the text of a document, parsed back, is the same document
use chars, strconv, utf, qdec, qtext, gram0
theory occth : gram0 `
; the text t stands at position i of s
(declare-fun occ (Str Int Str) Bool)
(assert (forall ((s Str) (i Int) (t Str)) (! (= (occ s i t) (and (<= 0 i) (<= (+ i (slen t)) (slen s))
 (forall ((k Int)) (! (=> (and (<= 0 k) (< k (slen t))) (= (sat s (+ i k)) (sat t k))) :pattern ((sat t k))))))
 :pattern ((occ s i t)))))
`
use chars, strconv, utf, qdec, qtext, gram0, occth
lemma occ_cat(s Str, i Int, a Str, b Str) {
  requires occ(s, i, a ++ b)
  ensures occ(s, i, a) && occ(s, i + slen(a), b)
  assert forall k Int :: {sat(a, k)} 0 <= k && k < slen(a) ==> sat(a ++ b, k) == sat(a, k)
  assert forall k Int :: {sat(b, k)} 0 <= k && k < slen(b) ==> sat(a ++ b, slen(a) + k) == sat(b, k)
}
lemma occ_unit(s Str, i Int, c Int) {
  requires occ(s, i, sunit(c)) && 0 <= c && c < 256
  ensures 0 <= i && i < slen(s) && sat(s, i) == c
  assert sat(sunit(c), 0) == c
}
lemma occ_sub(s Str, i Int, t Str) {
  requires occ(s, i, t)
  ensures ssub(s, i, i + slen(t)) == t
}
lemma occ_all(s Str) {
  ensures occ(s, 0, s)
}
// a quoted string inside a text
lemma oq_at(s Str, i Int, v Str, k Int, j Int) {
  requires occ(s, i, quoted(v)) && 0 <= k && k < slen(v) && 0 <= j && j < slen(esc(sat(v, k)))
  ensures sat(s, i + epos(v, k) + j) == sat(esc(sat(v, k)), j)
  ensures epos(v, k) + slen(esc(sat(v, k))) == epos(v, k+1) && epos(v, k+1) < slen(quoted(v)) && i + slen(quoted(v)) <= slen(s)
  use q_at(v, k, j)
}
lemma oq_back(s Str, i Int, v Str, k Int, acc Str) {
  requires 0 <= k && k <= slen(v) && occ(s, i, quoted(v))
  ensures jstr(s, i + epos(v, k)) == i + slen(quoted(v))
  ensures qval(s, 34, i + epos(v, k), acc) == acc ++ ssub(v, k, slen(v))
  useall j Int {sat(s, j)} oq_at(s, i, v, k, j - i - epos(v, k))
  use oq_at(s, i, v, k, 0) when k < slen(v)
  assert k == slen(v) ==> sat(s, i + epos(v, k)) == sat(quoted(v), epos(v, k)) && sat(quoted(v), epos(v, k)) == 34
  use oq_back(s, i, v, k+1, acc ++ sunit(sat(v, k))) when k < slen(v)
  decreases slen(v) - k
}
lemma oq(s Str, i Int, v Str) {
  requires occ(s, i, quoted(v))
  ensures 0 <= i && i < slen(s) && sat(s, i) == 34
  ensures jstr(s, i+1) == i + slen(quoted(v)) && qval(s, 34, i+1, sempty) == v
  use escs_0(v, 0)
  use oq_back(s, i, v, 0, sempty)
  assert sat(quoted(v), 0) == 34
}
// numbers: what strconv writes is a JSON number, and reading it back gives the value
use chars, strconv, utf, qdec, qtext, gram0, occth, fmtth
theory numth : gram0, fmtth `
(declare-fun ffin (Flt) Bool)
`
axiom itoa_num(n Int) {
  trigger itoa(n)
  requires 0-9223372036854775807-1 <= n && n <= 9223372036854775807
  ensures isnum(itoa(n)) && pintok(itoa(n)) && pint(itoa(n)) == n
}
axiom ftoa_num(f Flt) {
  trigger ftoa(f, 64)
  requires ffin(f)
  ensures !fnan(f)
  ensures isnum(ftoa(f, 64))
  ensures pintok(ftoa(f, 64)) ==> feq(i2f(pint(ftoa(f, 64))), f)
  ensures !pintok(ftoa(f, 64)) ==> pfok(ftoa(f, 64)) && pfval(ftoa(f, 64)) == f
}
use chars, strconv, utf, qdec, qtext, gram0, occth, fmtth, numth
lemma rnum_tok(t Str, i Int, q Int, k Int) {
  requires rnum(t, i, q) && 0 <= i && i <= k && k < slen(t)
  ensures istok(sat(t, k)) && sat(t, k) != 34 && sat(t, k) != 91 && sat(t, k) != 123
  use rnum_tok(t, i+1, nstep(q, sat(t, i)), k) when i < k
  decreases slen(t) - i
}
spec named delim(s Str, e Int) Bool = e >= slen(s) || !istok(sat(s, e))
// a token inside a text
lemma otok(s Str, i Int, t Str) {
  requires occ(s, i, t) && delim(s, i + slen(t)) && (forall k Int :: {sat(t, k)} 0 <= k && k < slen(t) ==> istok(sat(t, k)))
  ensures tend(s, i) == i + slen(t) && ssub(s, i, tend(s, i)) == t
  assert forall k Int :: {sat(s, k)} i <= k && k < i + slen(t) ==> sat(s, k) == sat(t, k - i)
  use tend_at(s, i, i + slen(t))
  use occ_sub(s, i, t)
}
lemma otokv(s Str, i Int, t Str) {
  requires occ(s, i, t) && delim(s, i + slen(t)) && gtok(t)
  ensures gv(s, i) == i + slen(t) && tend(s, i) == i + slen(t) && ssub(s, i, tend(s, i)) == t
  ensures 0 <= i && i < slen(s) && slen(t) > 0 && istok(sat(s, i)) && sat(s, i) != 34 && sat(s, i) != 91 && sat(s, i) != 123 && gv(s, i) > i
  use num_first(t) when isnum(t)
  useall k Int {sat(t, k)} rnum_tok(t, 0, 0, k) when isnum(t)
  assert t == "null" ==> slen(t) == 4 && sat(t, 0) == 110 && sat(t, 1) == 117 && sat(t, 2) == 108 && sat(t, 3) == 108
  assert t == "true" ==> slen(t) == 4 && sat(t, 0) == 116 && sat(t, 1) == 114 && sat(t, 2) == 117 && sat(t, 3) == 101
  assert t == "false" ==> slen(t) == 5 && sat(t, 0) == 102 && sat(t, 1) == 97 && sat(t, 2) == 108 && sat(t, 3) == 115 && sat(t, 4) == 101
  use otok(s, i, t)
  assert sat(s, i) == sat(t, 0)
}
use chars, strconv, utf, qdec, qtext, gram, occth, numth
// an array text whose element k stands at P[k] and ends at E[k], J[k] being where
// the parser goes on after the bracket or comma before it
lemma lay_arr(s Str, J `(Array Int Int)`, P `(Array Int Int)`, E `(Array Int Int)`, n Int, k Int) {
  requires 0 <= k && k < n
  requires forall m Int :: {select(P, m)} 0 <= m && m < n ==> 0 <= select(J, m) && skip(s, select(J, m)) == select(P, m) && select(P, m) < slen(s) && sat(s, select(P, m)) != 93 && gv(s, select(P, m)) == select(E, m) && select(E, m) > select(P, m) && skip(s, select(E, m)) < slen(s)
  requires forall m Int :: {select(P, m)} 0 <= m && m < n - 1 ==> sat(s, skip(s, select(E, m))) == 44 && select(J, m+1) == skip(s, select(E, m)) + 1
  requires sat(s, skip(s, select(E, n-1))) == 93
  ensures ga(s, select(J, k)) == skip(s, select(E, n-1)) + 1
  ensures gcnt(s, select(J, k)) == n - k
  ensures forall m Int :: {gael(s, select(J, k), m)} 0 <= m && m < n - k ==> gael(s, select(J, k), m) == select(P, k + m)
  assert skip(s, select(J, k)) == select(P, k) && anx(s, select(J, k)) == skip(s, select(E, k))
  use lay_arr(s, J, P, E, n, k+1) when k + 1 < n
  assert k + 1 < n ==> anx(s, select(J, k)) + 1 == select(J, k+1) && skip(s, select(J, k+1)) == select(P, k+1)
  assert forall m Int :: {gael(s, select(J, k), m)} 0 < m && m < n - k ==> gael(s, select(J, k), m) == gael(s, select(J, k+1), m-1)
  decreases n - k
}
// the member at a has its value at p and the key q
theory membth : gram `
(declare-fun memb (Str Int Int Str) Bool)
`
axiom memb_def(s Str, a Int, p Int, q Str) {
  trigger memb(s, a, p, q)
  ensures memb(s, a, p, q) <==> (mok(s, a) && mpos(s, a) == p && mkey(s, a) == q)
}
// one member
lemma gd_in(s Str, j Int, a Int, p Int, k Str, e Int, f Int, q Str) {
  use gram0, membth, memb_def, skip_pos
  requires 0 <= j && skip(s, j) == a && memb(s, a, p, k) && gv(s, p) == e && e > p && skip(s, e) == f && f < slen(s)
  ensures sat(s, f) == 125 ==> gd(s, j) == f + 1 && glast(s, j, q) == (k == q ? p : 0-1)
  ensures sat(s, f) == 44 && gd(s, f+1) >= 0 && sat(s, skip(s, f+1)) == 34 ==> gd(s, j) == gd(s, f+1)
  ensures sat(s, f) == 44 ==> glast(s, j, q) == (glast(s, f+1, q) >= 0 ? glast(s, f+1, q) : (k == q ? p : 0-1))
}
lemma memb_at(s Str, a Int, p Int, q Str) {
  use membth, memb_def, skip_pos
  requires memb(s, a, p, q)
  ensures a < slen(s) && sat(s, a) == 34 && p > a && p < slen(s)
}
// an object text whose member k has its key at A[k], its value at P[k]
lemma lay_dict(s Str, J `(Array Int Int)`, A `(Array Int Int)`, P `(Array Int Int)`, E `(Array Int Int)`, Q `(Array Int Str)`, n Int, k Int, q Str, f Int) {
  use gram0, membth
  requires 0 <= k && k < n && f < n
  requires forall m Int :: {select(P, m)} 0 <= m && m < n ==> 0 <= select(J, m) && skip(s, select(J, m)) == select(A, m) && memb(s, select(A, m), select(P, m), select(Q, m)) && gv(s, select(P, m)) == select(E, m) && select(E, m) > select(P, m) && skip(s, select(E, m)) < slen(s)
  requires forall m Int :: {select(P, m)} 0 <= m && m < n - 1 ==> sat(s, skip(s, select(E, m))) == 44 && select(J, m+1) == skip(s, select(E, m)) + 1
  requires sat(s, skip(s, select(E, n-1))) == 125
  requires forall m Int :: {select(P, m)} 0 <= m && m < n ==> (select(Q, m) == q <==> m == f)
  ensures gd(s, select(J, k)) == skip(s, select(E, n-1)) + 1
  ensures glast(s, select(J, k), q) == (f >= k ? select(P, f) : 0-1)
  use gd_in(s, select(J, k), select(A, k), select(P, k), select(Q, k), select(E, k), skip(s, select(E, k)), q)
  use lay_dict(s, J, A, P, E, Q, n, k+1, q, f) when k + 1 < n
  assert k + 1 < n ==> skip(s, select(J, k+1)) == select(A, k+1) && memb(s, select(A, k+1), select(P, k+1), select(Q, k+1))
  use memb_at(s, select(A, k+1), select(P, k+1), select(Q, k+1)) when k + 1 < n
  use skip_pos(s, select(J, n-1))
  use memb_at(s, select(A, n-1), select(P, n-1), select(Q, n-1))
  assert select(P, n-1) >= 0 && select(E, n-1) >= 0
  use skip_pos(s, select(E, n-1))
  assert k + 1 < n ==> select(J, k+1) == skip(s, select(E, k)) + 1 && sat(s, skip(s, select(E, k))) == 44
  assert k + 1 < n ==> gd(s, select(J, k+1)) == skip(s, select(E, n-1)) + 1 && gd(s, select(J, k+1)) >= 0
  assert k + 1 < n ==> gd(s, select(J, k)) == gd(s, select(J, k+1))
  assert k + 1 >= n ==> gd(s, select(J, k)) == skip(s, select(E, n-1)) + 1
  use skip_pos(s, select(J, f)) when f >= k
  assert f >= k ==> memb(s, select(A, f), select(P, f), select(Q, f)) && select(A, f) >= 0
  use memb_at(s, select(A, f), select(P, f), select(Q, f)) when f >= k
  assert f >= k ==> select(P, f) >= 0
  decreases n - k
}
// ---- compact text ----
theory rtth : numth, doc ` `
use chars, strconv, utf, qdec, qtext, gram0, occth, numth, membth, docs, texts, rtth
// documents whose text is read back: finite 64-bit floats, machine integers, no
// reserved key
spec opaque plaind(h H, x Iface, n Int) Bool =
  n > 0
  && (jk(x) == 2 ==> 0-9223372036854775807-1 <= select(hI(h), jr(x)) && select(hI(h), jr(x)) <= 9223372036854775807)
  && (jk(x) == 3 ==> ffin(select(hF(h), jr(x))) && fbits(select(hFb(h), jr(x))) == 64)
  && (jk(x) == 5 ==> (forall i Int :: {ael(h, x, i)} 0 <= i && i < alen(h, x) ==> plaind(h, ael(h, x, i), n-1)))
  && (jk(x) == 6 ==> select(hN(h), jr(x)) <= 0 && (forall i Int :: {dval(h, x, i)} {dkey(h, x, i)} 0 <= i && i < dlen(h, x) ==> dkey(h, x, i) != "___jnid_" && plaind(h, dval(h, x, i), n-1)))
spec named sepk(k Int) Int = k > 0 ? 1 : 0
// element k of a compact array text from j on: its place and the comma before it
lemma ra_occ(s Str, j Int, h H, b Int, x Iface, k Int, n Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= k && k < n && n <= alen(h, x) && occ(s, j, ratext(h, x, n))
  ensures occ(s, j + slen(ratext(h, x, k)) + sepk(k), rtext(h, ael(h, x, k)))
  ensures slen(ratext(h, x, k+1)) == slen(ratext(h, x, k)) + sepk(k) + slen(rtext(h, ael(h, x, k)))
  ensures k > 0 ==> sat(s, j + slen(ratext(h, x, k))) == 44
  use text_a(h, b, x, n-1, n)
  use occ_cat(s, j, ratext(h, x, n-1) ++ sunit(44), rtext(h, ael(h, x, n-1))) when n > 1
  use occ_cat(s, j, ratext(h, x, n-1), sunit(44)) when n > 1
  use occ_unit(s, j + slen(ratext(h, x, n-1)), 44) when n > 1
  use ra_occ(s, j, h, b, x, k, n-1) when k < n-1
  decreases n
}
lemma rd_occ(s Str, j Int, h H, b Int, x Iface, k Int, n Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && select(hN(h), jr(x)) <= 0 && 0 <= k && k < n && n <= dlen(h, x) && occ(s, j, rdtext(h, x, n))
  ensures occ(s, j + slen(rdtext(h, x, k)) + sepk(k), quoted(dkey(h, x, k)))
  ensures sat(s, j + slen(rdtext(h, x, k)) + sepk(k) + slen(quoted(dkey(h, x, k)))) == 58
  ensures occ(s, j + slen(rdtext(h, x, k)) + sepk(k) + slen(quoted(dkey(h, x, k))) + 1, rtext(h, dval(h, x, k)))
  ensures slen(rdtext(h, x, k+1)) == slen(rdtext(h, x, k)) + sepk(k) + slen(quoted(dkey(h, x, k))) + 1 + slen(rtext(h, dval(h, x, k)))
  ensures k > 0 ==> sat(s, j + slen(rdtext(h, x, k))) == 44
  use text_d(h, b, x, n-1, n)
  use occ_cat(s, j, rdtext(h, x, n-1) ++ sunit(44) ++ quoted(dkey(h, x, n-1)) ++ sunit(58), rtext(h, dval(h, x, n-1))) when n > 1
  use occ_cat(s, j, rdtext(h, x, n-1) ++ sunit(44) ++ quoted(dkey(h, x, n-1)), sunit(58)) when n > 1
  use occ_cat(s, j, rdtext(h, x, n-1) ++ sunit(44), quoted(dkey(h, x, n-1))) when n > 1
  use occ_cat(s, j, rdtext(h, x, n-1), sunit(44)) when n > 1
  use occ_unit(s, j + slen(rdtext(h, x, n-1)), 44) when n > 1
  use occ_unit(s, j + slen(rdtext(h, x, n-1)) + 1 + slen(quoted(dkey(h, x, n-1))), 58) when n > 1
  use occ_cat(s, j, quoted(dkey(h, x, 0)) ++ sunit(58), rtext(h, dval(h, x, 0))) when n == 1
  use occ_cat(s, j, quoted(dkey(h, x, 0)), sunit(58)) when n == 1
  use occ_unit(s, j + slen(quoted(dkey(h, x, 0))), 58) when n == 1
  use rd_occ(s, j, h, b, x, k, n-1) when k < n-1
  decreases n
}
// where the elements and members of a compact text stand (j: just after the bracket)
theory compth : membth, textth, rtth `
(declare-fun caP (H Iface Int) (Array Int Int))
(declare-fun caE (H Iface Int) (Array Int Int))
(declare-fun cdA (H Iface Int) (Array Int Int))
(declare-fun cdP (H Iface Int) (Array Int Int))
(declare-fun cdE (H Iface Int) (Array Int Int))
(declare-fun cdQ (H Iface) (Array Int Str))
`
axiom ca_def(h H, x Iface, j Int, k Int) {
  trigger select(caP(h, x, j), k)
  ensures select(caP(h, x, j), k) == j + slen(ratext(h, x, k)) + sepk(k)
  ensures select(caE(h, x, j), k) == j + slen(ratext(h, x, k+1))
}
axiom cd_def(h H, x Iface, j Int, k Int) {
  trigger select(cdP(h, x, j), k)
  ensures select(cdA(h, x, j), k) == j + slen(rdtext(h, x, k)) + sepk(k)
  ensures select(cdP(h, x, j), k) == select(cdA(h, x, j), k) + slen(quoted(dkey(h, x, k))) + 1
  ensures select(cdE(h, x, j), k) == j + slen(rdtext(h, x, k+1))
  ensures select(cdQ(h, x), k) == dkey(h, x, k)
}
use chars, strconv, utf, qdec, qtext, gram0, occth, numth, membth, compth, docs, texts, ca_def, cd_def
lemma skip_here(s Str, i Int) {
  requires 0 <= i && i < slen(s) && !isws(sat(s, i))
  ensures skip(s, i) == i
  use skip_at(s, i, i)
}
// a member whose key, colon and value follow each other
lemma rt_memb(s Str, a Int, q Str, c Int, p Int) {
  use memb_def
  requires occ(s, a, quoted(q)) && q != "___jnid_" && skip(s, a + slen(quoted(q))) == c && a + slen(quoted(q)) <= c && c < slen(s) && sat(s, c) == 58 && skip(s, c+1) == p && c < p && p < slen(s)
  ensures memb(s, a, p, q)
  use oq(s, a, q)
}
lemma rt_ael(s Str, i Int, h H, b Int, x Iface, k Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rtext(h, x)) && 0 <= k && k < alen(h, x)
  ensures i < select(caP(h, x, i+1), k) && select(caE(h, x, i+1), k) < slen(s) && select(caE(h, x, i+1), k) == select(caP(h, x, i+1), k) + slen(rtext(h, ael(h, x, k))) && occ(s, select(caP(h, x, i+1), k), rtext(h, ael(h, x, k))) && delim(s, select(caE(h, x, i+1), k))
  ensures skip(s, select(caE(h, x, i+1), k)) == select(caE(h, x, i+1), k)
  ensures k < alen(h, x) - 1 ==> sat(s, select(caE(h, x, i+1), k)) == 44 && select(caP(h, x, i+1), k+1) == select(caE(h, x, i+1), k) + 1
  ensures k == alen(h, x) - 1 ==> sat(s, select(caE(h, x, i+1), k)) == 93
  ensures istok(sat(s, select(caP(h, x, i+1), k))) && select(caP(h, x, i+1), k) < slen(s) ==> skip(s, select(caP(h, x, i+1), k)) == select(caP(h, x, i+1), k) && sat(s, select(caP(h, x, i+1), k)) != 93
  use text_flat(h, b, x)
  use occ_cat(s, i, sunit(91) ++ ratext(h, x, alen(h, x)), sunit(93))
  use occ_cat(s, i, sunit(91), ratext(h, x, alen(h, x)))
  use occ_unit(s, i + 1 + slen(ratext(h, x, alen(h, x))), 93)
  use ra_occ(s, i+1, h, b, x, k, alen(h, x))
  use ra_occ(s, i+1, h, b, x, k+1, alen(h, x)) when k+1 < alen(h, x)
  use ca_def(h, x, i+1, k)
  use ca_def(h, x, i+1, k+1)
  use skip_here(s, select(caE(h, x, i+1), k))
  use skip_here(s, select(caP(h, x, i+1), k)) when istok(sat(s, select(caP(h, x, i+1), k))) && select(caP(h, x, i+1), k) < slen(s)
}
use chars, gram0, occth, numth, compth, doc, textth
lemma rt_arr(s Str, i Int, h H, b Int, x Iface) {
  use chars, gram0, occth, numth, compth, doc, textth
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rtext(h, x))
  requires forall k Int :: {select(caP(h, x, i+1), k)} 0 <= k && k < alen(h, x) ==> gv(s, select(caP(h, x, i+1), k)) == select(caE(h, x, i+1), k) && istok(sat(s, select(caP(h, x, i+1), k))) && select(caE(h, x, i+1), k) > select(caP(h, x, i+1), k) && select(caP(h, x, i+1), k) < slen(s)
  ensures gv(s, i) == i + slen(rtext(h, x)) && sat(s, i) == 91 && gcnt(s, i+1) == alen(h, x)
  ensures forall k Int :: {gael(s, i+1, k)} 0 <= k && k < alen(h, x) ==> gael(s, i+1, k) == select(caP(h, x, i+1), k)
  use text_flat(h, b, x)
  use text_a0(h, x, 0)
  use occ_cat(s, i, sunit(91) ++ ratext(h, x, alen(h, x)), sunit(93))
  use occ_cat(s, i, sunit(91), ratext(h, x, alen(h, x)))
  use occ_unit(s, i, 91)
  use occ_unit(s, i + 1 + slen(ratext(h, x, alen(h, x))), 93)
  use gv_arr(s, i, i+1)
  use skip_here(s, i+1) when alen(h, x) == 0
  assert alen(h, x) == 0 ==> ga(s, i+1) == i + 2 && gcnt(s, i+1) == 0
  useall k Int {select(caP(h, x, i+1), k)} rt_ael(s, i, h, b, x, k)
  use ca_def(h, x, i+1, 0)
  use ca_def(h, x, i+1, alen(h, x)-1)
  assert alen(h, x) > 0 ==> select(caP(h, x, i+1), 0) == i + 1
  assert alen(h, x) > 0 ==> select(caP(h, x, i+1), alen(h, x)-1) > i && sat(s, skip(s, select(caE(h, x, i+1), alen(h, x)-1))) == 93
  use lay_arr(s, caP(h, x, i+1), caP(h, x, i+1), caE(h, x, i+1), alen(h, x), 0) when alen(h, x) > 0
}
use chars, strconv, utf, qdec, qtext, gram0, occth, numth, membth, compth, docs, texts, ca_def, cd_def
lemma rt_del(s Str, i Int, h H, b Int, x Iface, k Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && select(hN(h), jr(x)) <= 0 && occ(s, i, rtext(h, x)) && 0 <= k && k < dlen(h, x) && dkey(h, x, k) != "___jnid_"
  ensures i < select(cdA(h, x, i+1), k) && select(cdA(h, x, i+1), k) < select(cdP(h, x, i+1), k) && select(cdE(h, x, i+1), k) < slen(s) && select(cdE(h, x, i+1), k) == select(cdP(h, x, i+1), k) + slen(rtext(h, dval(h, x, k))) && occ(s, select(cdP(h, x, i+1), k), rtext(h, dval(h, x, k))) && delim(s, select(cdE(h, x, i+1), k))
  ensures skip(s, select(cdE(h, x, i+1), k)) == select(cdE(h, x, i+1), k) && skip(s, select(cdA(h, x, i+1), k)) == select(cdA(h, x, i+1), k)
  ensures k < dlen(h, x) - 1 ==> sat(s, select(cdE(h, x, i+1), k)) == 44 && select(cdA(h, x, i+1), k+1) == select(cdE(h, x, i+1), k) + 1
  ensures k == dlen(h, x) - 1 ==> sat(s, select(cdE(h, x, i+1), k)) == 125
  ensures istok(sat(s, select(cdP(h, x, i+1), k))) && select(cdP(h, x, i+1), k) < slen(s) ==> memb(s, select(cdA(h, x, i+1), k), select(cdP(h, x, i+1), k), dkey(h, x, k))
  use text_flat(h, b, x)
  use occ_cat(s, i, sunit(123) ++ rdtext(h, x, dlen(h, x)), sunit(125))
  use occ_cat(s, i, sunit(123), rdtext(h, x, dlen(h, x)))
  use occ_unit(s, i + 1 + slen(rdtext(h, x, dlen(h, x))), 125)
  use rd_occ(s, i+1, h, b, x, k, dlen(h, x))
  use rd_occ(s, i+1, h, b, x, k+1, dlen(h, x)) when k+1 < dlen(h, x)
  use cd_def(h, x, i+1, k)
  use cd_def(h, x, i+1, k+1)
  use oq(s, select(cdA(h, x, i+1), k), dkey(h, x, k))
  use skip_here(s, select(cdE(h, x, i+1), k))
  use skip_here(s, select(cdA(h, x, i+1), k))
  use skip_here(s, select(cdP(h, x, i+1), k) - 1)
  use skip_here(s, select(cdP(h, x, i+1), k)) when istok(sat(s, select(cdP(h, x, i+1), k))) && select(cdP(h, x, i+1), k) < slen(s)
  use rt_memb(s, select(cdA(h, x, i+1), k), dkey(h, x, k), select(cdP(h, x, i+1), k) - 1, select(cdP(h, x, i+1), k)) when istok(sat(s, select(cdP(h, x, i+1), k))) && select(cdP(h, x, i+1), k) < slen(s)
}
use chars, gram0, occth, numth, membth, compth, doc, textth
lemma rt_dict0(s Str, i Int, h H, b Int, x Iface, q Str, f Int) {
  use chars, gram0, occth, numth, membth, compth, doc, textth
  requires isdoc(h, b, x) && jk(x) == 6 && select(hN(h), jr(x)) <= 0 && occ(s, i, rtext(h, x))
  requires forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) ==> dkey(h, x, k) != "___jnid_" && gv(s, select(cdP(h, x, i+1), k)) == select(cdE(h, x, i+1), k) && istok(sat(s, select(cdP(h, x, i+1), k))) && select(cdE(h, x, i+1), k) > select(cdP(h, x, i+1), k) && select(cdP(h, x, i+1), k) < slen(s)
  requires f < dlen(h, x) && (f >= 0 - 1) && (forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) ==> (select(cdQ(h, x), k) == q <==> k == f))
  ensures gv(s, i) == i + slen(rtext(h, x)) && sat(s, i) == 123
  ensures glast(s, i+1, q) == (f >= 0 ? select(cdP(h, x, i+1), f) : 0-1)
  use text_flat(h, b, x)
  use text_d0(h, x, 0)
  use occ_cat(s, i, sunit(123) ++ rdtext(h, x, dlen(h, x)), sunit(125))
  use occ_cat(s, i, sunit(123), rdtext(h, x, dlen(h, x)))
  use occ_unit(s, i, 123)
  use occ_unit(s, i + 1 + slen(rdtext(h, x, dlen(h, x))), 125)
  use gv_dict(s, i, i+1)
  use skip_here(s, i+1) when dlen(h, x) == 0
  assert dlen(h, x) == 0 ==> gd(s, i+1) == i + 2 && glast(s, i+1, q) == 0-1
  useall k Int {select(cdP(h, x, i+1), k)} rt_del(s, i, h, b, x, k)
  useall k Int {select(cdP(h, x, i+1), k)} cd_def(h, x, i+1, k)
  use cd_def(h, x, i+1, 0)
  use cd_def(h, x, i+1, dlen(h, x)-1)
  assert dlen(h, x) > 0 ==> select(cdP(h, x, i+1), 0) > i + 1 && select(cdA(h, x, i+1), 0) == i + 1
  assert dlen(h, x) > 0 ==> select(cdP(h, x, i+1), dlen(h, x)-1) > i && sat(s, skip(s, select(cdE(h, x, i+1), dlen(h, x)-1))) == 125
  assert forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) - 1 ==> sat(s, skip(s, select(cdE(h, x, i+1), k))) == 44 && select(cdA(h, x, i+1), k+1) == skip(s, select(cdE(h, x, i+1), k)) + 1
  assert forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) ==> skip(s, select(cdA(h, x, i+1), k)) == select(cdA(h, x, i+1), k) && memb(s, select(cdA(h, x, i+1), k), select(cdP(h, x, i+1), k), select(cdQ(h, x), k))
  use lay_dict(s, cdA(h, x, i+1), cdA(h, x, i+1), cdP(h, x, i+1), cdE(h, x, i+1), cdQ(h, x), dlen(h, x), 0, q, f) when dlen(h, x) > 0
}
lemma rt_dict(s Str, i Int, h H, b Int, x Iface, q Str) {
  use compth, docs, mfind_char
  requires isdoc(h, b, x) && jk(x) == 6 && select(hN(h), jr(x)) <= 0 && occ(s, i, rtext(h, x))
  requires forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) ==> dkey(h, x, k) != "___jnid_" && gv(s, select(cdP(h, x, i+1), k)) == select(cdE(h, x, i+1), k) && istok(sat(s, select(cdP(h, x, i+1), k))) && select(cdE(h, x, i+1), k) > select(cdP(h, x, i+1), k) && select(cdP(h, x, i+1), k) < slen(s)
  ensures gv(s, i) == i + slen(rtext(h, x)) && sat(s, i) == 123
  ensures glast(s, i+1, q) == (dfind(h, x, q) >= 0 ? select(cdP(h, x, i+1), dfind(h, x, q)) : 0-1)
  assert dfind(h, x, q) >= 0 ==> dfind(h, x, q) < dlen(h, x) && dkey(h, x, dfind(h, x, q)) == q
  assert dfind(h, x, q) < dlen(h, x) && dfind(h, x, q) >= 0-1
  useall k Int {select(cdP(h, x, i+1), k)} cd_def(h, x, i+1, k)
  assert forall k Int :: {select(cdP(h, x, i+1), k)} 0 <= k && k < dlen(h, x) ==> (dkey(h, x, k) == q <==> k == dfind(h, x, q))
  use rt_dict0(s, i, h, b, x, q, dfind(h, x, q))
}

// ---- the whole document ----
// y is what x is read back as: equal, but for a float that comes back as the
// integer with its value
theory simth : rtth, parsed, fmtth ` `
spec opaque sim(g H, x Iface, h H, y Iface, n Int) Bool =
  n > 0 && is(y, "iref")
  && (jk(x) == 1 ==> jk(y) == 1 && select(hS(g), jr(x)) == select(hS(h), jr(y)))
  && (jk(x) == 2 ==> jk(y) == 2 && select(hI(g), jr(x)) == select(hI(h), jr(y)))
  && (jk(x) == 3 ==> (pintok(ftoa(select(hF(g), jr(x)), 64))
      ? jk(y) == 2 && select(hI(h), jr(y)) == pint(ftoa(select(hF(g), jr(x)), 64)) && feq(i2f(select(hI(h), jr(y))), select(hF(g), jr(x)))
      : jk(y) == 3 && select(hF(g), jr(x)) == select(hF(h), jr(y)) && !fnan(select(hF(g), jr(x)))))
  && (jk(x) == 4 ==> jk(y) == 4 && (select(hB(g), jr(x)) <==> select(hB(h), jr(y))))
  && (jk(x) == 7 ==> jk(y) == 7)
  && (jk(x) == 5 ==> jk(y) == 5 && alen(g, x) == alen(h, y) && (forall i Int :: {ael(g, x, i)} {ael(h, y, i)} 0 <= i && i < alen(g, x) ==> sim(g, ael(g, x, i), h, ael(h, y, i), n-1)))
  && (jk(x) == 6 ==> jk(y) == 6 && (forall k Str :: {dfind(g, x, k)} {dfind(h, y, k)} (dfind(g, x, k) >= 0 <==> dfind(h, y, k) >= 0) && (dfind(g, x, k) >= 0 ==> sim(g, dget(g, x, k), h, dget(h, y, k), n-1))))
use chars, gram0, occth, numth, compth, docs, textth
lemma rt_scalar(s Str, i Int, h H, b Int, x Iface, n Int) {
  use text_flat, fmtth, qtext, qdec
  requires isdoc(h, b, x) && plaind(h, x, n) && occ(s, i, rtext(h, x)) && delim(s, i + slen(rtext(h, x))) && jk(x) != 5 && jk(x) != 6
  ensures gv(s, i) == i + slen(rtext(h, x)) && gv(s, i) > i && 0 <= i && i < slen(s) && istok(sat(s, i)) && sat(s, i) != 91 && sat(s, i) != 123
  ensures jk(x) == 1 ==> sat(s, i) == 34 && qval(s, 34, i+1, sempty) == select(hS(h), jr(x))
  ensures jk(x) != 1 ==> sat(s, i) != 34 && ssub(s, i, tend(s, i)) == rtext(h, x)
  use itoa_num(select(hI(h), jr(x))) when jk(x) == 2
  use ftoa_num(select(hF(h), jr(x))) when jk(x) == 3
  use oq(s, i, select(hS(h), jr(x))) when jk(x) == 1
  use otokv(s, i, rtext(h, x)) when jk(x) != 1
}
lemma rt_gv(s Str, i Int, h H, b Int, x Iface, n Int) {
  requires isdoc(h, b, x) && plaind(h, x, n) && occ(s, i, rtext(h, x)) && delim(s, i + slen(rtext(h, x)))
  ensures gv(s, i) == i + slen(rtext(h, x)) && gv(s, i) > i && 0 <= i && i < slen(s) && istok(sat(s, i))
  use rt_scalar(s, i, h, b, x, n) when jk(x) != 5 && jk(x) != 6
  useall k Int {select(caP(h, x, i+1), k)} rt_ael(s, i, h, b, x, k)
  useall k Int {select(caP(h, x, i+1), k)} rt_gv(s, select(caP(h, x, i+1), k), h, b, ael(h, x, k), n-1) when jk(x) == 5
  use rt_arr(s, i, h, b, x) when jk(x) == 5
  useall k Int {select(cdP(h, x, i+1), k)} rt_del(s, i, h, b, x, k)
  useall k Int {select(cdP(h, x, i+1), k)} rt_gv(s, select(cdP(h, x, i+1), k), h, b, dval(h, x, k), n-1) when jk(x) == 6
  use rt_dict(s, i, h, b, x, sempty) when jk(x) == 6
  assert jk(x) == 5 ==> slen(rtext(h, x)) >= 2
  decreases n
}
lemma rt_mv(s Str, i Int, h H, b Int, x Iface, n Int, g H, y Iface, lo Int, hi Int, ex Int) {
  use mfind_char, simth, psd0, parsed
  requires isdoc(h, b, x) && plaind(h, x, n) && occ(s, i, rtext(h, x)) && delim(s, i + slen(rtext(h, x))) && mv(s, i, g, y, lo, hi, ex)
  ensures sim(h, x, g, y, n)
  use rt_scalar(s, i, h, b, x, n) when jk(x) != 5 && jk(x) != 6
  use mv_flat(s, i, g, y, lo, hi, ex) when jk(x) != 5 && jk(x) != 6
  use text_flat(h, b, x)
  use itoa_num(select(hI(h), jr(x))) when jk(x) == 2
  use ftoa_num(select(hF(h), jr(x))) when jk(x) == 3
  use num_first(rtext(h, x)) when jk(x) == 2 || jk(x) == 3
  useall k Int {select(caP(h, x, i+1), k)} rt_ael(s, i, h, b, x, k)
  useall k Int {select(caP(h, x, i+1), k)} rt_gv(s, select(caP(h, x, i+1), k), h, b, ael(h, x, k), n-1) when jk(x) == 5
  use rt_arr(s, i, h, b, x) when jk(x) == 5
  use mv_arr(s, i, g, y, lo, hi, ex, i+1) when jk(x) == 5
  useall k Int {ael(h, x, k)} {ael(g, y, k)} rt_mv(s, select(caP(h, x, i+1), k), h, b, ael(h, x, k), n-1, g, ael(g, y, k), lo, hi, ex) when jk(x) == 5
  useall k Int {select(cdP(h, x, i+1), k)} rt_del(s, i, h, b, x, k)
  useall k Int {select(cdP(h, x, i+1), k)} rt_gv(s, select(cdP(h, x, i+1), k), h, b, dval(h, x, k), n-1) when jk(x) == 6
  use rt_dict(s, i, h, b, x, sempty) when jk(x) == 6
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} rt_dict(s, i, h, b, x, q) when jk(x) == 6
  use mv_dict(s, i, g, y, lo, hi, ex, i+1) when jk(x) == 6
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} rt_mv(s, select(cdP(h, x, i+1), dfind(h, x, q)), h, b, dget(h, x, q), n-1, g, dget(g, y, q), lo, hi, ex) when jk(x) == 6 && dfind(h, x, q) >= 0
  decreases n
}
lemma roundtrip(h H, b Int, x Iface, g H, y Iface, lo Int, hi Int, ex Int) {
  use simth, parsed
  requires isdoc(h, b, x) && plaind(h, x, rank(h, x))
  ensures skip(rtext(h, x), 0) == 0 && gv(rtext(h, x), 0) == slen(rtext(h, x))
  ensures mv(rtext(h, x), 0, g, y, lo, hi, ex) ==> sim(h, x, g, y, rank(h, x))
  use occ_all(rtext(h, x))
  use rt_gv(rtext(h, x), 0, h, b, x, rank(h, x))
  use skip_here(rtext(h, x), 0)
  use rt_mv(rtext(h, x), 0, h, b, x, rank(h, x), g, y, lo, hi, ex) when mv(rtext(h, x), 0, g, y, lo, hi, ex)
}
// without floats it is equal
spec opaque nofl(h H, x Iface, n Int) Bool =
  n > 0 && jk(x) != 3
  && (jk(x) == 5 ==> (forall i Int :: {ael(h, x, i)} 0 <= i && i < alen(h, x) ==> nofl(h, ael(h, x, i), n-1)))
  && (jk(x) == 6 ==> (forall i Int :: {dval(h, x, i)} 0 <= i && i < dlen(h, x) ==> nofl(h, dval(h, x, i), n-1)))
use docs, simth, deqth
lemma sim_deq(h H, b Int, x Iface, g H, y Iface, n Int) {
  use mfind_char
  requires doc(h, b, x, n) && nofl(h, x, n) && sim(h, x, g, y, n)
  ensures deqn(true, h, x, g, y, n)
  useall k Int {ael(h, x, k)} {ael(g, y, k)} sim_deq(h, b, ael(h, x, k), g, ael(g, y, k), n-1) when jk(x) == 5 && 0 <= k && k < alen(h, x)
  assert forall q Str :: {dfind(h, x, q)} jk(x) == 6 && dfind(h, x, q) >= 0 ==> dval(h, x, dfind(h, x, q)) == dget(h, x, q) && dfind(h, x, q) < dlen(h, x)
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} sim_deq(h, b, dget(h, x, q), g, dget(g, y, q), n-1) when jk(x) == 6 && dfind(h, x, q) >= 0
  decreases n
}
// two documents one document is read back as are equal
lemma simsim(h H, b Int, x Iface, g H, y Iface, f H, z Iface, n Int) {
  requires doc(h, b, x, n) && sim(h, x, g, y, n) && sim(h, x, f, z, n)
  ensures deqn(false, g, y, f, z, n)
  useall k Int {ael(g, y, k)} {ael(f, z, k)} simsim(h, b, ael(h, x, k), g, ael(g, y, k), f, ael(f, z, k), n-1) when jk(x) == 5 && 0 <= k && k < alen(h, x)
  assert forall q Str :: {dfind(h, x, q)} jk(x) == 6 && dfind(h, x, q) >= 0 ==> dval(h, x, dfind(h, x, q)) == dget(h, x, q) && dfind(h, x, q) < dlen(h, x)
  useall q Str {dfind(g, y, q)} {dfind(f, z, q)} simsim(h, b, dget(h, x, q), g, dget(g, y, q), f, dget(f, z, q), n-1) when jk(x) == 6 && dfind(h, x, q) >= 0
  use mfind_char
  decreases n
}
// an equal document has the height of the original
lemma sim_doc(h H, b Int, x Iface, g H, c Int, y Iface, n Int, m Int) {
  requires doc(h, b, x, n) && sim(h, x, g, y, n) && doc(g, c, y, m)
  ensures doc(g, c, y, n)
  use mfind_char
  useall k Int {ael(g, y, k)} sim_doc(h, b, ael(h, x, k), g, c, ael(g, y, k), n-1, m-1) when jk(x) == 5 && 0 <= k && k < alen(h, x)
  useall q Str {dfind(g, y, q)} sim_doc(h, b, dget(h, x, q), g, c, dget(g, y, q), n-1, m-1) when jk(x) == 6 && dfind(h, x, q) >= 0
  assert forall q Str :: {dfind(h, x, q)} jk(x) == 6 && dfind(h, x, q) >= 0 ==> dval(h, x, dfind(h, x, q)) == dget(h, x, q) && dfind(h, x, q) < dlen(h, x)
  assert forall i Int :: {dval(g, y, i)} {dkey(g, y, i)} jk(y) == 6 && 0 <= i && i < dlen(g, y) ==> dfind(g, y, dkey(g, y, i)) == i && dget(g, y, dkey(g, y, i)) == dval(g, y, i)
  decreases n
}
use docs, simth, deqth
lemma roundtrip_eq(h H, b Int, x Iface, g H, y Iface, lo Int, hi Int, ex Int) {
  requires isdoc(h, b, x) && plaind(h, x, rank(h, x)) && nofl(h, x, rank(h, x)) && mv(rtext(h, x), 0, g, y, lo, hi, ex)
  ensures deq(true, h, x, g, y)
  use roundtrip(h, b, x, g, y, lo, hi, ex)
  use sim_deq(h, b, x, g, y, rank(h, x))
}
