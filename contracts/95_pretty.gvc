// ---- pretty text, read back (C06) ----
use chars, strconv, utf, qdec, qtext, gram0, occth, numth, membth, rtth, docs, pretties
theory prtth : compth, prettyth `
(declare-fun paJ (H Iface Int Int) (Array Int Int))
(declare-fun paP (H Iface Int Int) (Array Int Int))
(declare-fun paE (H Iface Int Int) (Array Int Int))
(declare-fun pdJ (H Iface Int Int) (Array Int Int))
(declare-fun pdA (H Iface Int Int) (Array Int Int))
(declare-fun pdP (H Iface Int Int) (Array Int Int))
(declare-fun pdE (H Iface Int Int) (Array Int Int))
`
// the length of the indentation of a value (of a member's value)
spec named il(n Int) Int = slen(ind(n))
spec named ivl(h H, x Iface, lv Int, k Int) Int = jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6 ? slen(ind(lup(lv, 2))) : 0
// where elements and members stand (j: just after the bracket)
axiom pa_def(h H, x Iface, lv Int, j Int, k Int) {
  trigger select(paP(h, x, lv, j), k)
  ensures select(paJ(h, x, lv, j), k) == j + slen(raptext(h, x, lv, k)) + sepk(k)
  ensures select(paP(h, x, lv, j), k) == select(paJ(h, x, lv, j), k) + 1 + il(lup(lv, 1))
  ensures select(paE(h, x, lv, j), k) == j + slen(raptext(h, x, lv, k+1))
}
axiom pd_def(h H, x Iface, lv Int, j Int, k Int) {
  trigger select(pdP(h, x, lv, j), k)
  ensures select(pdJ(h, x, lv, j), k) == j + slen(rdptext(h, x, lv, k)) + sepk(k)
  ensures select(pdA(h, x, lv, j), k) == select(pdJ(h, x, lv, j), k) + 1 + il(lv) + 2
  ensures select(pdP(h, x, lv, j), k) == select(pdA(h, x, lv, j), k) + slen(quoted(dkey(h, x, k))) + 2 + ivl(h, x, lv, k)
  ensures select(pdE(h, x, lv, j), k) == j + slen(rdptext(h, x, lv, k+1))
  ensures select(cdQ(h, x), k) == dkey(h, x, k)
}
use chars, gram0, occth, numth, membth, prtth, docs
lemma occ_catt(s Str, i Int, a Str, b Str) {
  trigger occ(s, i, a ++ b)
  requires occ(s, i, a ++ b)
  ensures occ(s, i, a) && occ(s, i + slen(a), b)
  use occ_cat(s, i, a, b)
}
lemma occ_unitt(s Str, i Int, c Int) {
  trigger occ(s, i, sunit(c))
  requires occ(s, i, sunit(c)) && 0 <= c && c < 256
  ensures 0 <= i && i < slen(s) && sat(s, i) == c
  use occ_unit(s, i, c)
}
lemma occ_comma(s Str, i Int) {
  trigger occ(s, i, ",")
  requires occ(s, i, ",")
  ensures sat(s, i) == 44
  assert sat(",", 0) == 44
}
lemma occ_two(s Str, i Int) {
  trigger occ(s, i, "  ")
  requires occ(s, i, "  ")
  ensures sat(s, i) == 32 && sat(s, i+1) == 32 && slen("  ") == 2
  assert sat("  ", 0) == 32 && sat("  ", 1) == 32
}
theory occs : prtth, occ_catt, occ_unitt, occ_comma, occ_two ` `
use chars, gram0, occth, numth, membth, prtth, docs
lemma ind_ws(s Str, i Int, n Int, k Int) {
  requires occ(s, i, ind(n)) && i <= k && k < i + il(n)
  ensures sat(s, k) == 32
  assert n > 0 ==> il(n) == il(n-1) + 2
  use occ_cat(s, i, ind(n-1), "  ") when n > 0
  use occ_two(s, i + il(n-1)) when n > 0
  use ind_ws(s, i, n-1, k) when n > 0 && k < i + il(n-1)
  decreases n
}
// from the line end at i past the indentation that follows
lemma skip_ind(s Str, i Int, n Int) {
  requires 0 <= i && i < slen(s) && sat(s, i) == 10 && occ(s, i+1, ind(n)) && i + 1 + il(n) < slen(s) && !isws(sat(s, i + 1 + il(n)))
  ensures skip(s, i) == i + 1 + il(n)
  useall k Int {sat(s, k)} ind_ws(s, i+1, n, k)
  use skip_at(s, i, i + 1 + il(n))
}
// the same with two more blanks
lemma skip_ind2(s Str, i Int, n Int) {
  requires 0 <= i && i < slen(s) && sat(s, i) == 10 && occ(s, i+1, ind(n)) && sat(s, i+1+il(n)) == 32 && sat(s, i+2+il(n)) == 32 && i + 3 + il(n) < slen(s) && !isws(sat(s, i + 3 + il(n)))
  ensures skip(s, i) == i + 3 + il(n)
  useall k Int {sat(s, k)} ind_ws(s, i+1, n, k)
  use skip_at(s, i, i + 3 + il(n))
}
lemma skip_ind0(s Str, i Int, n Int) {
  requires 0 <= i && occ(s, i, ind(n)) && i + il(n) < slen(s) && !isws(sat(s, i + il(n)))
  ensures skip(s, i) == i + il(n)
  useall k Int {sat(s, k)} ind_ws(s, i, n, k)
  use skip_at(s, i, i + il(n))
}
use chars, gram0, occth, prtth, doc
lemma el_occ(s Str, j Int, r Str, u Str, J Int) {
  use occs
  requires occ(s, j, r ++ "," ++ sunit(10) ++ u) && J == j + slen(r) + 1
  ensures occ(s, j, r) && sat(s, J - 1) == 44 && sat(s, J) == 10 && occ(s, J + 1, u) && slen(r ++ "," ++ sunit(10) ++ u) == slen(r) + 2 + slen(u)
  assert slen(",") == 1
}
lemma el_occ0(s Str, j Int, u Str) {
  use occs
  requires occ(s, j, sunit(10) ++ u)
  ensures sat(s, j) == 10 && occ(s, j + 1, u) && slen(sunit(10) ++ u) == 1 + slen(u)
}
lemma pa_pre(s Str, j Int, h H, b Int, x Iface, lv Int, k Int, n Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= k && k <= n && n <= alen(h, x) && occ(s, j, raptext(h, x, lv, n))
  ensures k > 0 ==> occ(s, j, raptext(h, x, lv, k))
  use ptext_a(h, b, x, lv, n-1, n) when n > 0
  use el_occ(s, j, raptext(h, x, lv, n-1), rptext(h, ael(h, x, n-1), lup(lv, 1)), j + slen(raptext(h, x, lv, n-1)) + 1) when n > 1
  use pa_pre(s, j, h, b, x, lv, k, n-1) when k < n && n > 1
  decreases n
}
lemma pa_occ(s Str, j Int, h H, b Int, x Iface, lv Int, k Int, n Int, J Int, E Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && 0 <= k && k < n && n <= alen(h, x) && occ(s, j, raptext(h, x, lv, n))
  requires J == j + slen(raptext(h, x, lv, k)) + sepk(k) && E == j + slen(raptext(h, x, lv, k+1))
  ensures sat(s, J) == 10 && occ(s, J + 1, rptext(h, ael(h, x, k), lup(lv, 1)))
  ensures E == J + 1 + slen(rptext(h, ael(h, x, k), lup(lv, 1)))
  ensures k > 0 ==> sat(s, J - 1) == 44
  use pa_pre(s, j, h, b, x, lv, k+1, n)
  use ptext_a(h, b, x, lv, k, k+1)
  use ptext_a0(h, x, lv, 0)
  use el_occ(s, j, raptext(h, x, lv, k), rptext(h, ael(h, x, k), lup(lv, 1)), J) when k > 0
  use el_occ0(s, j, rptext(h, ael(h, x, k), lup(lv, 1))) when k == 0
}
use chars, gram0, occth, prtth, doc
// a member, its parts one after the other
lemma mem_occ(s Str, j Int, r Str, d Str, q Str, w Int, u Str, J Int, A Int, P Int) {
  use occs
  requires occ(s, j, r ++ "," ++ sunit(10) ++ d ++ "  " ++ q ++ sunit(58) ++ sunit(w) ++ u) && J == j + slen(r) + 1 && A == J + 3 + slen(d) && P == A + slen(q) + 2 && 0 <= w && w < 256
  ensures sat(s, J - 1) == 44 && sat(s, J) == 10 && occ(s, J + 1, d) && sat(s, J + 1 + slen(d)) == 32 && sat(s, J + 2 + slen(d)) == 32
  ensures occ(s, A, q) && sat(s, P - 2) == 58 && sat(s, P - 1) == w && occ(s, P, u)
  assert slen(",") == 1 && slen("  ") == 2
}
lemma mem_occ0(s Str, j Int, d Str, q Str, w Int, u Str, J Int, A Int, P Int) {
  use occs
  requires occ(s, j, sunit(10) ++ d ++ "  " ++ q ++ sunit(58) ++ sunit(w) ++ u) && J == j && A == J + 3 + slen(d) && P == A + slen(q) + 2 && 0 <= w && w < 256
  ensures sat(s, J) == 10 && occ(s, J + 1, d) && sat(s, J + 1 + slen(d)) == 32 && sat(s, J + 2 + slen(d)) == 32
  ensures occ(s, A, q) && sat(s, P - 2) == 58 && sat(s, P - 1) == w && occ(s, P, u)
  assert slen("  ") == 2
}
lemma mem_len(r Str, d Str, q Str, w Int, u Str) {
  ensures slen(r ++ "," ++ sunit(10) ++ d ++ "  " ++ q ++ sunit(58) ++ sunit(w) ++ u) == slen(r) + 6 + slen(d) + slen(q) + slen(u)
  ensures slen(sunit(10) ++ d ++ "  " ++ q ++ sunit(58) ++ sunit(w) ++ u) == 5 + slen(d) + slen(q) + slen(u)
  assert slen(",") == 1 && slen("  ") == 2
}
lemma mem_pre(s Str, j Int, r Str, d Str, q Str, w Int, u Str) {
  use occs
  requires occ(s, j, r ++ "," ++ sunit(10) ++ d ++ "  " ++ q ++ sunit(58) ++ sunit(w) ++ u)
  ensures occ(s, j, r)
}
// the text of the first members is a prefix
lemma pd_pre(s Str, j Int, h H, b Int, x Iface, lv Int, k Int, n Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= k && k <= n && n <= dlen(h, x) && occ(s, j, rdptext(h, x, lv, n))
  ensures k > 0 ==> occ(s, j, rdptext(h, x, lv, k))
  use ptext_d(h, b, x, lv, n-1, n) when n > 0
  use mem_pre(s, j, rdptext(h, x, lv, n-1), ind(lv), quoted(dkey(h, x, n-1)), 10, rptext(h, dval(h, x, n-1), lup(lv, 2))) when n > 1 && (jk(dval(h, x, n-1)) == 5 || jk(dval(h, x, n-1)) == 6)
  use mem_pre(s, j, rdptext(h, x, lv, n-1), ind(lv), quoted(dkey(h, x, n-1)), 32, rtext(h, dval(h, x, n-1))) when n > 1 && jk(dval(h, x, n-1)) != 5 && jk(dval(h, x, n-1)) != 6
  use pd_pre(s, j, h, b, x, lv, k, n-1) when k < n && n > 1
  decreases n
}
lemma pd_occ(s Str, j Int, h H, b Int, x Iface, lv Int, k Int, n Int, J Int, A Int, P Int, E Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && 0 <= k && k < n && n <= dlen(h, x) && occ(s, j, rdptext(h, x, lv, n))
  requires J == j + slen(rdptext(h, x, lv, k)) + sepk(k) && A == J + 3 + il(lv) && P == A + slen(quoted(dkey(h, x, k))) + 2 && E == j + slen(rdptext(h, x, lv, k+1))
  ensures sat(s, J) == 10 && occ(s, J + 1, ind(lv)) && sat(s, J + 1 + il(lv)) == 32 && sat(s, J + 2 + il(lv)) == 32
  ensures occ(s, A, quoted(dkey(h, x, k))) && sat(s, P - 2) == 58
  ensures jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6 ==> sat(s, P - 1) == 10 && occ(s, P, rptext(h, dval(h, x, k), lup(lv, 2)))
  ensures jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6 ==> sat(s, P - 1) == 32 && occ(s, P, rtext(h, dval(h, x, k)))
  ensures jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6 ==> E == P + slen(rptext(h, dval(h, x, k), lup(lv, 2)))
  ensures jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6 ==> E == P + slen(rtext(h, dval(h, x, k)))
  ensures k > 0 ==> sat(s, J - 1) == 44
  use pd_pre(s, j, h, b, x, lv, k+1, n)
  use ptext_d(h, b, x, lv, k, k+1)
  use isdoc_shape(h, b, x)
  use ptext_d0(h, x, lv, 0)
  use mem_occ(s, j, rdptext(h, x, lv, k), ind(lv), quoted(dkey(h, x, k)), 10, rptext(h, dval(h, x, k), lup(lv, 2)), J, A, P) when k > 0 && (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use mem_occ0(s, j, ind(lv), quoted(dkey(h, x, k)), 10, rptext(h, dval(h, x, k), lup(lv, 2)), J, A, P) when k == 0 && (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use mem_len(rdptext(h, x, lv, k), ind(lv), quoted(dkey(h, x, k)), 10, rptext(h, dval(h, x, k), lup(lv, 2)))
  use mem_occ(s, j, rdptext(h, x, lv, k), ind(lv), quoted(dkey(h, x, k)), 32, rtext(h, dval(h, x, k)), J, A, P) when k > 0 && !(jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use mem_occ0(s, j, ind(lv), quoted(dkey(h, x, k)), 32, rtext(h, dval(h, x, k)), J, A, P) when k == 0 && !(jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use mem_len(rdptext(h, x, lv, k), ind(lv), quoted(dkey(h, x, k)), 32, rtext(h, dval(h, x, k)))
}

use chars, gram0, occth, numth, membth, prtth, docs
lemma pt_arr0(s Str, i Int, h H, b Int, x Iface, lv Int, v Int) {
  use occs
  requires isdoc(h, b, x) && jk(x) == 5 && alen(h, x) == 0 && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && sat(s, v) == 91 && gcnt(s, v+1) == 0 && v + 1 < slen(s) && 0 <= v
  use ptext_flat(h, b, x, lv)
  use gv_arr(s, v, v+1)
  use skip_here(s, v+1)
}
lemma pt_first(s Str, i Int, h H, b Int, x Iface, lv Int, v Int) {
  use occs
  requires isdoc(h, b, x) && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  ensures occ(s, i, ind(lv)) && 0 <= i
  ensures jk(x) == 5 ==> sat(s, v) == 91 && v < slen(s)
  ensures jk(x) == 6 ==> sat(s, v) == 123 && v < slen(s)
  ensures jk(x) != 5 && jk(x) != 6 ==> occ(s, v, rtext(h, x)) && v + slen(rtext(h, x)) == i + slen(rptext(h, x, lv))
  use ptext_flat(h, b, x, lv)
}
use chars, gram0, occth, membth, prtth, doc
// the parts of the text of a list, of an object
lemma box_occ(s Str, i Int, d Str, o Int, r Str, c Int, v Int, l Int) {
  use occs
  requires occ(s, i, d ++ sunit(o) ++ r ++ sunit(10) ++ d ++ sunit(c)) && l == slen(d) && v == i + l && 0 <= c && c < 256
  ensures 0 <= i && i <= v && occ(s, v+1, r) && sat(s, v+1+slen(r)) == 10 && occ(s, v+2+slen(r), d) && sat(s, v+2+slen(r)+l) == c
  ensures v+2+slen(r)+l < slen(s) && v+3+slen(r)+l == i + slen(d ++ sunit(o) ++ r ++ sunit(10) ++ d ++ sunit(c))
}
lemma pt_aflat(s Str, i Int, h H, b Int, x Iface, lv Int, v Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rptext(h, x, lv)) && 0 < alen(h, x) && v == i + il(lv)
  ensures 0 <= i && i <= v && occ(s, v+1, raptext(h, x, lv, alen(h, x))) && sat(s, v+1+slen(raptext(h, x, lv, alen(h, x)))) == 10 && occ(s, v+2+slen(raptext(h, x, lv, alen(h, x))), ind(lv)) && sat(s, v+2+slen(raptext(h, x, lv, alen(h, x))) + il(lv)) == 93
  ensures v+2+slen(raptext(h, x, lv, alen(h, x))) + il(lv) < slen(s) && v+3+slen(raptext(h, x, lv, alen(h, x))) + il(lv) == i + slen(rptext(h, x, lv))
  use ptext_flat(h, b, x, lv)
  use box_occ(s, i, ind(lv), 91, raptext(h, x, lv, alen(h, x)), 93, v, il(lv))
}
lemma pt_dflat(s Str, i Int, h H, b Int, x Iface, lv Int, v Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && 0 < dlen(h, x) && v == i + il(lv)
  ensures 0 <= i && i <= v && occ(s, v+1, rdptext(h, x, lv, dlen(h, x))) && sat(s, v+1+slen(rdptext(h, x, lv, dlen(h, x)))) == 10 && occ(s, v+2+slen(rdptext(h, x, lv, dlen(h, x))), ind(lv)) && sat(s, v+2+slen(rdptext(h, x, lv, dlen(h, x))) + il(lv)) == 125
  ensures v+2+slen(rdptext(h, x, lv, dlen(h, x))) + il(lv) < slen(s) && v+3+slen(rdptext(h, x, lv, dlen(h, x))) + il(lv) == i + slen(rptext(h, x, lv))
  use ptext_flat(h, b, x, lv)
  use box_occ(s, i, ind(lv), 123, rdptext(h, x, lv, dlen(h, x)), 125, v, il(lv))
}
use chars, gram0, occth, membth, prtth, doc
// the places of one element
lemma pt_apos(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < alen(h, x) && v == i + il(lv)
  ensures v < select(paJ(h, x, lv, v+1), k) && select(paJ(h, x, lv, v+1), k) < select(paP(h, x, lv, v+1), k) && select(paE(h, x, lv, v+1), k) < slen(s) && 0 <= v && 0 <= i
  ensures select(paE(h, x, lv, v+1), k) == select(paJ(h, x, lv, v+1), k) + 1 + slen(rptext(h, ael(h, x, k), lup(lv, 1))) && occ(s, select(paJ(h, x, lv, v+1), k) + 1, rptext(h, ael(h, x, k), lup(lv, 1))) && sat(s, select(paJ(h, x, lv, v+1), k)) == 10 && select(paP(h, x, lv, v+1), k) == select(paJ(h, x, lv, v+1), k) + 1 + il(lup(lv, 1))
  ensures k < alen(h, x) - 1 ==> sat(s, select(paE(h, x, lv, v+1), k)) == 44 && select(paJ(h, x, lv, v+1), k+1) == select(paE(h, x, lv, v+1), k) + 1
  ensures k == alen(h, x) - 1 ==> sat(s, select(paE(h, x, lv, v+1), k)) == 10 && occ(s, select(paE(h, x, lv, v+1), k) + 1, ind(lv)) && sat(s, select(paE(h, x, lv, v+1), k) + 1 + il(lv)) == 93 && select(paE(h, x, lv, v+1), k) + 1 + il(lv) < slen(s) && select(paE(h, x, lv, v+1), k) + 2 + il(lv) == i + slen(rptext(h, x, lv))
  use pt_aflat(s, i, h, b, x, lv, v)
  use pa_def(h, x, lv, v+1, k)
  use pa_def(h, x, lv, v+1, k+1)
  use pa_occ(s, v+1, h, b, x, lv, k, alen(h, x), select(paJ(h, x, lv, v+1), k), select(paE(h, x, lv, v+1), k))
  use pa_occ(s, v+1, h, b, x, lv, k+1, alen(h, x), select(paE(h, x, lv, v+1), k) + 1, select(paE(h, x, lv, v+1), k+1)) when k+1 < alen(h, x)
}
lemma pt_ael(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < alen(h, x) && v == i + il(lv)
  ensures v < select(paJ(h, x, lv, v+1), k) && select(paJ(h, x, lv, v+1), k) < select(paP(h, x, lv, v+1), k) && select(paE(h, x, lv, v+1), k) < slen(s) && select(paE(h, x, lv, v+1), k) == select(paJ(h, x, lv, v+1), k) + 1 + slen(rptext(h, ael(h, x, k), lup(lv, 1))) && occ(s, select(paJ(h, x, lv, v+1), k) + 1, rptext(h, ael(h, x, k), lup(lv, 1))) && delim(s, select(paE(h, x, lv, v+1), k)) && delim(s, select(paJ(h, x, lv, v+1), k) + 1 + slen(rptext(h, ael(h, x, k), lup(lv, 1))))
  ensures k < alen(h, x) - 1 ==> skip(s, select(paE(h, x, lv, v+1), k)) == select(paE(h, x, lv, v+1), k) && sat(s, select(paE(h, x, lv, v+1), k)) == 44 && select(paJ(h, x, lv, v+1), k+1) == select(paE(h, x, lv, v+1), k) + 1
  ensures k == alen(h, x) - 1 ==> skip(s, select(paE(h, x, lv, v+1), k)) == select(paE(h, x, lv, v+1), k) + 1 + il(lv) && sat(s, skip(s, select(paE(h, x, lv, v+1), k))) == 93 && skip(s, select(paE(h, x, lv, v+1), k)) < slen(s) && skip(s, select(paE(h, x, lv, v+1), k)) + 1 == i + slen(rptext(h, x, lv))
  use pt_apos(s, i, h, b, x, lv, v, k)
  use skip_here(s, select(paE(h, x, lv, v+1), k)) when k+1 < alen(h, x)
  use skip_ind(s, select(paE(h, x, lv, v+1), k), lv) when k+1 == alen(h, x)
}
lemma pt_askip(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < alen(h, x) && v == i + il(lv)
  requires istok(sat(s, select(paP(h, x, lv, v+1), k))) && select(paP(h, x, lv, v+1), k) < slen(s) && occ(s, select(paJ(h, x, lv, v+1), k) + 1, ind(lup(lv, 1)))
  ensures skip(s, select(paJ(h, x, lv, v+1), k)) == select(paP(h, x, lv, v+1), k) && sat(s, select(paP(h, x, lv, v+1), k)) != 93
  use pt_apos(s, i, h, b, x, lv, v, k)
  use skip_ind(s, select(paJ(h, x, lv, v+1), k), lup(lv, 1))
}
use chars, gram0, occth, prtth, doc
lemma pt_arr(s Str, i Int, h H, b Int, x Iface, lv Int, v Int) {
  requires isdoc(h, b, x) && jk(x) == 5 && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  requires forall k Int :: {select(paP(h, x, lv, v+1), k)} 0 <= k && k < alen(h, x) ==> gv(s, select(paP(h, x, lv, v+1), k)) == select(paE(h, x, lv, v+1), k) && istok(sat(s, select(paP(h, x, lv, v+1), k))) && select(paE(h, x, lv, v+1), k) > select(paP(h, x, lv, v+1), k) && select(paP(h, x, lv, v+1), k) < slen(s) && occ(s, select(paJ(h, x, lv, v+1), k) + 1, ind(lup(lv, 1)))
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && sat(s, v) == 91 && gcnt(s, v+1) == alen(h, x)
  ensures forall k Int :: {gael(s, v+1, k)} 0 <= k && k < alen(h, x) ==> gael(s, v+1, k) == select(paP(h, x, lv, v+1), k)
  use isdoc_shape(h, b, x)
  use pt_first(s, i, h, b, x, lv, v)
  use pt_arr0(s, i, h, b, x, lv, v) when alen(h, x) == 0
  use gv_arr(s, v, v+1)
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_ael(s, i, h, b, x, lv, v, k)
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_askip(s, i, h, b, x, lv, v, k)
  use ptext_a0(h, x, lv, 0)
  use pa_def(h, x, lv, v+1, 0)
  use pa_def(h, x, lv, v+1, alen(h, x)-1)
  assert alen(h, x) > 0 ==> select(paJ(h, x, lv, v+1), 0) == v + 1 && select(paP(h, x, lv, v+1), 0) > v
  assert alen(h, x) > 0 ==> select(paP(h, x, lv, v+1), alen(h, x)-1) > v && sat(s, skip(s, select(paE(h, x, lv, v+1), alen(h, x)-1))) == 93 && skip(s, select(paE(h, x, lv, v+1), alen(h, x)-1)) + 1 == i + slen(rptext(h, x, lv))
  use lay_arr(s, paJ(h, x, lv, v+1), paP(h, x, lv, v+1), paE(h, x, lv, v+1), alen(h, x), 0) when alen(h, x) > 0
}

use chars, gram0, occth, membth, prtth, doc
// the places of one member
lemma pt_dpos(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < dlen(h, x) && v == i + il(lv)
  ensures v < select(pdJ(h, x, lv, v+1), k) && select(pdJ(h, x, lv, v+1), k) < select(pdA(h, x, lv, v+1), k) && select(pdA(h, x, lv, v+1), k) < select(pdP(h, x, lv, v+1), k) && 0 <= v && 0 <= i && select(pdP(h, x, lv, v+1), k) <= select(pdE(h, x, lv, v+1), k) && select(pdE(h, x, lv, v+1), k) < slen(s)
  ensures select(pdA(h, x, lv, v+1), k) == select(pdJ(h, x, lv, v+1), k) + 3 + il(lv)
  ensures (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), rptext(h, dval(h, x, k), lup(lv, 2))) && select(pdE(h, x, lv, v+1), k) == select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)) + slen(rptext(h, dval(h, x, k), lup(lv, 2)))
  ensures jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6 ==> occ(s, select(pdP(h, x, lv, v+1), k), rtext(h, dval(h, x, k))) && select(pdE(h, x, lv, v+1), k) == select(pdP(h, x, lv, v+1), k) + slen(rtext(h, dval(h, x, k)))
  ensures (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> sat(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 1) == 10 && select(pdP(h, x, lv, v+1), k) == select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 2 + il(lup(lv, 2))
  ensures jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6 ==> sat(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 1) == 32 && select(pdP(h, x, lv, v+1), k) == select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 2
  ensures sat(s, select(pdJ(h, x, lv, v+1), k)) == 10 && occ(s, select(pdJ(h, x, lv, v+1), k) + 1, ind(lv)) && sat(s, select(pdJ(h, x, lv, v+1), k) + 1 + il(lv)) == 32 && sat(s, select(pdJ(h, x, lv, v+1), k) + 2 + il(lv)) == 32
  ensures occ(s, select(pdA(h, x, lv, v+1), k), quoted(dkey(h, x, k))) && sat(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k)))) == 58
  ensures k < dlen(h, x) - 1 ==> sat(s, select(pdE(h, x, lv, v+1), k)) == 44 && select(pdJ(h, x, lv, v+1), k+1) == select(pdE(h, x, lv, v+1), k) + 1
  ensures k == dlen(h, x) - 1 ==> sat(s, select(pdE(h, x, lv, v+1), k)) == 10 && occ(s, select(pdE(h, x, lv, v+1), k) + 1, ind(lv)) && sat(s, select(pdE(h, x, lv, v+1), k) + 1 + il(lv)) == 125 && select(pdE(h, x, lv, v+1), k) + 1 + il(lv) < slen(s) && select(pdE(h, x, lv, v+1), k) + 2 + il(lv) == i + slen(rptext(h, x, lv))
  use pt_dflat(s, i, h, b, x, lv, v)
  use pd_def(h, x, lv, v+1, k)
  use pd_def(h, x, lv, v+1, k+1)
  use pd_occ(s, v+1, h, b, x, lv, k, dlen(h, x), select(pdJ(h, x, lv, v+1), k), select(pdA(h, x, lv, v+1), k), select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 2, select(pdE(h, x, lv, v+1), k))
  use pd_occ(s, v+1, h, b, x, lv, k+1, dlen(h, x), select(pdE(h, x, lv, v+1), k) + 1, select(pdE(h, x, lv, v+1), k) + 4 + il(lv), select(pdE(h, x, lv, v+1), k) + 4 + il(lv) + slen(quoted(dkey(h, x, k+1))) + 2, select(pdE(h, x, lv, v+1), k+1)) when k+1 < dlen(h, x)
}
lemma pt_del(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < dlen(h, x) && v == i + il(lv) && dkey(h, x, k) != "___jnid_"
  ensures v < select(pdJ(h, x, lv, v+1), k) && select(pdJ(h, x, lv, v+1), k) < select(pdA(h, x, lv, v+1), k) && select(pdA(h, x, lv, v+1), k) < select(pdP(h, x, lv, v+1), k) && select(pdE(h, x, lv, v+1), k) < slen(s) && delim(s, select(pdE(h, x, lv, v+1), k))
  ensures (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), rptext(h, dval(h, x, k), lup(lv, 2))) && select(pdE(h, x, lv, v+1), k) == select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)) + slen(rptext(h, dval(h, x, k), lup(lv, 2))) && delim(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)) + slen(rptext(h, dval(h, x, k), lup(lv, 2))))
  ensures jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6 ==> occ(s, select(pdP(h, x, lv, v+1), k), rtext(h, dval(h, x, k))) && select(pdE(h, x, lv, v+1), k) == select(pdP(h, x, lv, v+1), k) + slen(rtext(h, dval(h, x, k))) && delim(s, select(pdP(h, x, lv, v+1), k) + slen(rtext(h, dval(h, x, k))))
  ensures skip(s, select(pdJ(h, x, lv, v+1), k)) == select(pdA(h, x, lv, v+1), k)
  ensures k < dlen(h, x) - 1 ==> skip(s, select(pdE(h, x, lv, v+1), k)) == select(pdE(h, x, lv, v+1), k) && sat(s, select(pdE(h, x, lv, v+1), k)) == 44 && select(pdJ(h, x, lv, v+1), k+1) == select(pdE(h, x, lv, v+1), k) + 1
  ensures k == dlen(h, x) - 1 ==> skip(s, select(pdE(h, x, lv, v+1), k)) == select(pdE(h, x, lv, v+1), k) + 1 + il(lv) && sat(s, skip(s, select(pdE(h, x, lv, v+1), k))) == 125 && skip(s, select(pdE(h, x, lv, v+1), k)) < slen(s) && skip(s, select(pdE(h, x, lv, v+1), k)) + 1 == i + slen(rptext(h, x, lv))
  use pt_dpos(s, i, h, b, x, lv, v, k)
  use oq(s, select(pdA(h, x, lv, v+1), k), dkey(h, x, k))
  use skip_here(s, select(pdE(h, x, lv, v+1), k)) when k+1 < dlen(h, x)
  use skip_ind(s, select(pdE(h, x, lv, v+1), k), lv) when k+1 == dlen(h, x)
  use skip_ind2(s, select(pdJ(h, x, lv, v+1), k), lv)
}
lemma pt_memb(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < dlen(h, x) && v == i + il(lv) && dkey(h, x, k) != "___jnid_"
  requires istok(sat(s, select(pdP(h, x, lv, v+1), k))) && select(pdP(h, x, lv, v+1), k) < slen(s) && ((jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), ind(lup(lv, 2))))
  ensures memb(s, select(pdA(h, x, lv, v+1), k), select(pdP(h, x, lv, v+1), k), dkey(h, x, k))
  use pt_dpos(s, i, h, b, x, lv, v, k)
  use skip_here(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))))
  use skip_ind(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 1, lup(lv, 2)) when (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use skip_at(s, select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))) + 1, select(pdP(h, x, lv, v+1), k)) when !(jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  use rt_memb(s, select(pdA(h, x, lv, v+1), k), dkey(h, x, k), select(pdA(h, x, lv, v+1), k) + slen(quoted(dkey(h, x, k))), select(pdP(h, x, lv, v+1), k))
}
use chars, gram0, occth, numth, membth, prtth, docs
lemma pt_dict1(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, q Str) {
  use occs
  requires isdoc(h, b, x) && jk(x) == 6 && dlen(h, x) == 0 && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && sat(s, v) == 123 && glast(s, v+1, q) == 0-1 && v + 1 < slen(s) && 0 <= v
  use ptext_flat(h, b, x, lv)
  use gv_dict(s, v, v+1)
  use skip_here(s, v+1)
}
use chars, gram0, occth, numth, membth, prtth, doc
lemma pt_dict0(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, q Str, f Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  requires forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) ==> dkey(h, x, k) != "___jnid_" && gv(s, select(pdP(h, x, lv, v+1), k)) == select(pdE(h, x, lv, v+1), k) && istok(sat(s, select(pdP(h, x, lv, v+1), k))) && select(pdE(h, x, lv, v+1), k) > select(pdP(h, x, lv, v+1), k) && select(pdP(h, x, lv, v+1), k) < slen(s) && (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6 ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), ind(lup(lv, 2))))
  requires f < dlen(h, x) && (f >= 0 - 1) && (forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) ==> (select(cdQ(h, x), k) == q <==> k == f))
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && sat(s, v) == 123
  ensures glast(s, v+1, q) == (f >= 0 ? select(pdP(h, x, lv, v+1), f) : 0-1)
  use isdoc_shape(h, b, x)
  use pt_first(s, i, h, b, x, lv, v)
  use pt_dict1(s, i, h, b, x, lv, v, q) when dlen(h, x) == 0
  use gv_dict(s, v, v+1)
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_del(s, i, h, b, x, lv, v, k)
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_memb(s, i, h, b, x, lv, v, k)
  useall k Int {select(pdP(h, x, lv, v+1), k)} pd_def(h, x, lv, v+1, k)
  use ptext_d0(h, x, lv, 0)
  use pd_def(h, x, lv, v+1, 0)
  use pd_def(h, x, lv, v+1, dlen(h, x)-1)
  assert dlen(h, x) > 0 ==> select(pdP(h, x, lv, v+1), 0) > v && select(pdJ(h, x, lv, v+1), 0) == v + 1
  assert dlen(h, x) > 0 ==> select(pdP(h, x, lv, v+1), dlen(h, x)-1) > v && sat(s, skip(s, select(pdE(h, x, lv, v+1), dlen(h, x)-1))) == 125 && skip(s, select(pdE(h, x, lv, v+1), dlen(h, x)-1)) + 1 == i + slen(rptext(h, x, lv))
  assert forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) - 1 ==> sat(s, skip(s, select(pdE(h, x, lv, v+1), k))) == 44 && select(pdJ(h, x, lv, v+1), k+1) == skip(s, select(pdE(h, x, lv, v+1), k)) + 1
  assert forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) ==> skip(s, select(pdJ(h, x, lv, v+1), k)) == select(pdA(h, x, lv, v+1), k) && memb(s, select(pdA(h, x, lv, v+1), k), select(pdP(h, x, lv, v+1), k), select(cdQ(h, x), k))
  use lay_dict(s, pdJ(h, x, lv, v+1), pdA(h, x, lv, v+1), pdP(h, x, lv, v+1), pdE(h, x, lv, v+1), cdQ(h, x), dlen(h, x), 0, q, f) when dlen(h, x) > 0
}
lemma pt_dict(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, q Str) {
  use docs, mfind_char
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && v == i + il(lv)
  requires forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) ==> dkey(h, x, k) != "___jnid_" && gv(s, select(pdP(h, x, lv, v+1), k)) == select(pdE(h, x, lv, v+1), k) && istok(sat(s, select(pdP(h, x, lv, v+1), k))) && select(pdE(h, x, lv, v+1), k) > select(pdP(h, x, lv, v+1), k) && select(pdP(h, x, lv, v+1), k) < slen(s) && (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6 ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), ind(lup(lv, 2))))
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && sat(s, v) == 123
  ensures glast(s, v+1, q) == (dfind(h, x, q) >= 0 ? select(pdP(h, x, lv, v+1), dfind(h, x, q)) : 0-1)
  assert dfind(h, x, q) >= 0 ==> dfind(h, x, q) < dlen(h, x) && dkey(h, x, dfind(h, x, q)) == q
  assert dfind(h, x, q) < dlen(h, x) && dfind(h, x, q) >= 0-1
  useall k Int {select(pdP(h, x, lv, v+1), k)} pd_def(h, x, lv, v+1, k)
  assert forall k Int :: {select(pdP(h, x, lv, v+1), k)} 0 <= k && k < dlen(h, x) ==> (dkey(h, x, k) == q <==> k == dfind(h, x, q))
  use pt_dict0(s, i, h, b, x, lv, v, q, dfind(h, x, q))
}

lemma pt_len(h H, b Int, x Iface, lv Int) {
  use docs, ptext_flat
  requires isdoc(h, b, x) && (jk(x) == 5 || jk(x) == 6)
  ensures slen(rptext(h, x, lv)) >= il(lv) + 2
  use ptext_flat(h, b, x, lv)
}

use chars, gram0, occth, prtth, doc
lemma pt_dstep(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, k Int) {
  requires isdoc(h, b, x) && jk(x) == 6 && occ(s, i, rptext(h, x, lv)) && 0 <= k && k < dlen(h, x) && v == i + il(lv) && dkey(h, x, k) != "___jnid_"
  requires (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> gv(s, select(pdP(h, x, lv, v+1), k)) == select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)) + slen(rptext(h, dval(h, x, k), lup(lv, 2))) && occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), ind(lup(lv, 2)))
  requires !(jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> gv(s, select(pdP(h, x, lv, v+1), k)) == select(pdP(h, x, lv, v+1), k) + slen(rtext(h, dval(h, x, k)))
  requires gv(s, select(pdP(h, x, lv, v+1), k)) > select(pdP(h, x, lv, v+1), k) && select(pdP(h, x, lv, v+1), k) < slen(s) && istok(sat(s, select(pdP(h, x, lv, v+1), k)))
  ensures gv(s, select(pdP(h, x, lv, v+1), k)) == select(pdE(h, x, lv, v+1), k) && select(pdE(h, x, lv, v+1), k) > select(pdP(h, x, lv, v+1), k) && ((jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), ind(lup(lv, 2))))
  use pt_del(s, i, h, b, x, lv, v, k)
}
use chars, gram0, occth, membth, prtth, doc, isdoc_elem, isdoc_val
lemma pt_gv(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, n Int) {
  use rtth
  requires isdoc(h, b, x) && plaind(h, x, n) && occ(s, i, rptext(h, x, lv)) && delim(s, i + slen(rptext(h, x, lv))) && v == i + il(lv)
  ensures gv(s, v) == i + slen(rptext(h, x, lv)) && gv(s, v) > v && 0 <= i && v < slen(s) && istok(sat(s, v)) && occ(s, i, ind(lv))
  use pt_first(s, i, h, b, x, lv, v)
  use rt_scalar(s, v, h, b, x, n) when jk(x) != 5 && jk(x) != 6
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_ael(s, i, h, b, x, lv, v, k) when jk(x) == 5
  useall k Int {select(paP(h, x, lv, v+1), k)} pa_def(h, x, lv, v+1, k)
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_gv(s, select(paJ(h, x, lv, v+1), k) + 1, h, b, ael(h, x, k), lup(lv, 1), select(paP(h, x, lv, v+1), k), n-1) when jk(x) == 5
  use pt_arr(s, i, h, b, x, lv, v) when jk(x) == 5
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_del(s, i, h, b, x, lv, v, k) when jk(x) == 6
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_gv(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), h, b, dval(h, x, k), lup(lv, 2), select(pdP(h, x, lv, v+1), k), n-1) when jk(x) == 6 && (jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6)
  useall k Int {select(pdP(h, x, lv, v+1), k)} rt_scalar(s, select(pdP(h, x, lv, v+1), k), h, b, dval(h, x, k), n-1) when jk(x) == 6 && jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_dstep(s, i, h, b, x, lv, v, k) when jk(x) == 6
  use pt_dict(s, i, h, b, x, lv, v, sempty) when jk(x) == 6
  use pt_len(h, b, x, lv) when jk(x) == 5 || jk(x) == 6
  decreases n
}
use chars, gram0, occth, membth, prtth, doc, isdoc_elem, isdoc_val
// the member of an object that a key finds
lemma pt_key(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, n Int, q Str) {
  use rtth, isdoc_get, mfind_char
  requires isdoc(h, b, x) && jk(x) == 6 && plaind(h, x, n) && occ(s, i, rptext(h, x, lv)) && delim(s, i + slen(rptext(h, x, lv))) && v == i + il(lv)
  ensures glast(s, v+1, q) == (dfind(h, x, q) >= 0 ? select(pdP(h, x, lv, v+1), dfind(h, x, q)) : 0-1)
  ensures dfind(h, x, q) >= 0 ==> isdoc(h, b, dget(h, x, q)) && plaind(h, dget(h, x, q), n-1) && n >= 1
  ensures dfind(h, x, q) >= 0 && (jk(dget(h, x, q)) == 5 || jk(dget(h, x, q)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)) - il(lup(lv, 2)), rptext(h, dget(h, x, q), lup(lv, 2))) && delim(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)) - il(lup(lv, 2)) + slen(rptext(h, dget(h, x, q), lup(lv, 2))))
  ensures dfind(h, x, q) >= 0 && !(jk(dget(h, x, q)) == 5 || jk(dget(h, x, q)) == 6) ==> occ(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)), rtext(h, dget(h, x, q))) && delim(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)) + slen(rtext(h, dget(h, x, q))))
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_del(s, i, h, b, x, lv, v, k)
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_gv(s, select(pdP(h, x, lv, v+1), k) - il(lup(lv, 2)), h, b, dval(h, x, k), lup(lv, 2), select(pdP(h, x, lv, v+1), k), n-1) when jk(dval(h, x, k)) == 5 || jk(dval(h, x, k)) == 6
  useall k Int {select(pdP(h, x, lv, v+1), k)} rt_scalar(s, select(pdP(h, x, lv, v+1), k), h, b, dval(h, x, k), n-1) when jk(dval(h, x, k)) != 5 && jk(dval(h, x, k)) != 6
  useall k Int {select(pdP(h, x, lv, v+1), k)} pt_dstep(s, i, h, b, x, lv, v, k)
  use pt_dict(s, i, h, b, x, lv, v, q)
  assert dfind(h, x, q) >= 0 ==> dfind(h, x, q) < dlen(h, x) && dval(h, x, dfind(h, x, q)) == dget(h, x, q)
}
// lists: what is read back
lemma pt_mv(s Str, i Int, h H, b Int, x Iface, lv Int, v Int, n Int, g H, y Iface, lo Int, hi Int, ex Int) {
  use rtth, mfind_char, simth, parsed
  requires isdoc(h, b, x) && plaind(h, x, n) && occ(s, i, rptext(h, x, lv)) && delim(s, i + slen(rptext(h, x, lv))) && v == i + il(lv) && mv(s, v, g, y, lo, hi, ex)
  ensures sim(h, x, g, y, n)
  use pt_first(s, i, h, b, x, lv, v)
  use rt_mv(s, v, h, b, x, n, g, y, lo, hi, ex) when jk(x) != 5 && jk(x) != 6
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_ael(s, i, h, b, x, lv, v, k) when jk(x) == 5
  useall k Int {select(paP(h, x, lv, v+1), k)} pa_def(h, x, lv, v+1, k)
  useall k Int {select(paP(h, x, lv, v+1), k)} pt_gv(s, select(paJ(h, x, lv, v+1), k) + 1, h, b, ael(h, x, k), lup(lv, 1), select(paP(h, x, lv, v+1), k), n-1) when jk(x) == 5
  use pt_arr(s, i, h, b, x, lv, v) when jk(x) == 5
  use mv_arr(s, v, g, y, lo, hi, ex, v+1) when jk(x) == 5
  useall k Int {ael(h, x, k)} {ael(g, y, k)} pt_mv(s, select(paJ(h, x, lv, v+1), k) + 1, h, b, ael(h, x, k), lup(lv, 1), select(paP(h, x, lv, v+1), k), n-1, g, ael(g, y, k), lo, hi, ex) when jk(x) == 5
  assert jk(x) == 5 ==> sim(h, x, g, y, n)
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} pt_key(s, i, h, b, x, lv, v, n, q) when jk(x) == 6
  use mv_dict(s, v, g, y, lo, hi, ex, v+1) when jk(x) == 6
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} pt_mv(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)) - il(lup(lv, 2)), h, b, dget(h, x, q), lup(lv, 2), select(pdP(h, x, lv, v+1), dfind(h, x, q)), n-1, g, dget(g, y, q), lo, hi, ex) when jk(x) == 6 && dfind(h, x, q) >= 0 && (jk(dget(h, x, q)) == 5 || jk(dget(h, x, q)) == 6)
  useall q Str {dfind(h, x, q)} {dfind(g, y, q)} rt_mv(s, select(pdP(h, x, lv, v+1), dfind(h, x, q)), h, b, dget(h, x, q), n-1, g, dget(g, y, q), lo, hi, ex) when jk(x) == 6 && dfind(h, x, q) >= 0 && jk(dget(h, x, q)) != 5 && jk(dget(h, x, q)) != 6
  assert jk(x) == 6 ==> sim(h, x, g, y, n)
  decreases n
}
use chars, gram0, occth, numth, membth, prtth, docs
lemma prettytrip(h H, b Int, x Iface, g H, y Iface, lo Int, hi Int, ex Int) {
  use simth, parsed
  requires isdoc(h, b, x) && plaind(h, x, rank(h, x))
  ensures skip(rptext(h, x, 0), 0) == 0 && gv(rptext(h, x, 0), 0) == slen(rptext(h, x, 0))
  ensures mv(rptext(h, x, 0), 0, g, y, lo, hi, ex) ==> sim(h, x, g, y, rank(h, x))
  assert il(0) == 0
  use occ_all(rptext(h, x, 0))
  use pt_gv(rptext(h, x, 0), 0, h, b, x, 0, 0, rank(h, x))
  use skip_here(rptext(h, x, 0), 0)
  use pt_mv(rptext(h, x, 0), 0, h, b, x, 0, 0, rank(h, x), g, y, lo, hi, ex) when mv(rptext(h, x, 0), 0, g, y, lo, hi, ex)
}
use docs, simth, deqth, prettyth
// both texts are read back as equal documents
lemma sametrip(h H, b Int, x Iface, g H, c Int, y Iface, lo Int, hi Int, ex Int, f H, z Iface, lo2 Int, hi2 Int, ex2 Int) {
  requires isdoc(h, b, x) && plaind(h, x, rank(h, x)) && mv(rtext(h, x), 0, g, y, lo, hi, ex) && mv(rptext(h, x, 0), 0, f, z, lo2, hi2, ex2) && isdoc(g, c, y)
  ensures deq(false, g, y, f, z)
  use roundtrip(h, b, x, g, y, lo, hi, ex)
  use prettytrip(h, b, x, f, z, lo2, hi2, ex2)
  use simsim(h, b, x, g, y, f, z, rank(h, x))
  use sim_doc(h, b, x, g, c, y, rank(h, x), rank(g, y))
  use deqn_fuel(false, g, c, y, f, z, rank(h, x), rank(g, y))
}
property C06 {
  funcs "JSONObject.prettyString", "JSONObject.PrettyString", "JSONObject.String", "ParseString"
  lemmas prettytrip, roundtrip, sametrip, pt_gv, pt_mv, simsim, mv_isdoc, mv_flat, mv_arr, mv_dict
  safety termination
}
