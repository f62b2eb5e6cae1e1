// ---- RFC 8259 texts and their meaning (C04) ----
use chars, strconv, utf, qdec, qtext
// strings.ToLower on the words and numbers of JSON
axiom lower_words(t Str) {
  trigger lower(t)
  ensures t == "null" ==> lower(t) == "null"
  ensures t == "true" ==> lower(t) == "true"
  ensures t == "false" ==> lower(t) == "false"
  ensures slen(t) > 0 && sat(t, 0) < 128 ==> slen(lower(t)) > 0 && sat(lower(t), 0) == (65 <= sat(t, 0) && sat(t, 0) <= 90 ? sat(t, 0) + 32 : sat(t, 0))
}
theory gram0 : strconv, qtext ` `
// end of the unquoted token at i
spec opaque tend(s Str, i Int) Int = i < slen(s) && istok(sat(s, i)) ? tend(s, i+1) : i
// end of the RFC string whose text goes on at i (-1: ill-formed)
spec opaque jstr(s Str, i Int) Int =
  i >= slen(s) ? 0-1 :
  (sat(s, i) == 34 ? i + 1 :
  (sat(s, i) < 32 ? 0-1 :
  (sat(s, i) != 92 ? jstr(s, i+1) :
  (i + 1 < slen(s) && simpleesc(sat(s, i+1)) ? jstr(s, i+2) :
  (i + 5 < slen(s) && sat(s, i+1) == 117 && hex4ok(s, i+2) ? jstr(s, i+6) : 0-1)))))
// the RFC number automaton: 0 start, 1 after -, 2 leading zero, 3 integer digits,
// 4 after the point, 5 fraction digits, 6 after e, 7 after its sign, 8 exponent digits
spec named isdig(c Int) Bool = 48 <= c && c <= 57
spec named nstep(q Int, c Int) Int =
  q == 0 ? (c == 45 ? 1 : (c == 48 ? 2 : (isdig(c) ? 3 : 0-1))) :
  (q == 1 ? (c == 48 ? 2 : (isdig(c) ? 3 : 0-1)) :
  (q == 2 ? (c == 46 ? 4 : (c == 101 || c == 69 ? 6 : 0-1)) :
  (q == 3 ? (isdig(c) ? 3 : (c == 46 ? 4 : (c == 101 || c == 69 ? 6 : 0-1))) :
  (q == 4 ? (isdig(c) ? 5 : 0-1) :
  (q == 5 ? (isdig(c) ? 5 : (c == 101 || c == 69 ? 6 : 0-1)) :
  (q == 6 ? (c == 43 || c == 45 ? 7 : (isdig(c) ? 8 : 0-1)) :
  (isdig(c) ? 8 : 0-1)))))))
spec opaque rnum(t Str, i Int, q Int) Bool =
  i >= slen(t) ? (q == 2 || q == 3 || q == 5 || q == 8) : (nstep(q, sat(t, i)) >= 0 && rnum(t, i+1, nstep(q, sat(t, i))))
spec named isnum(t Str) Bool = rnum(t, 0, 0)
// the tokens that are values: literals, and numbers in the range of int64 or float64
spec named gtok(t Str) Bool = t == "null" || t == "true" || t == "false" || (isnum(t) && (pintok(t) || pfok(t)))
// gv: end of the value at i; ga, gd: end of the array or object from just after
// its bracket or one of its commas; ge, gm: the same from an element or member at a
spec opaque gv(s Str, i Int) Int =
  i < 0 || i >= slen(s) ? 0-1 :
  (sat(s, i) == 34 ? jstr(s, i+1) :
  (sat(s, i) == 91 ? ga(s, i+1) :
  (sat(s, i) == 123 ? gd(s, i+1) :
  (gtok(ssub(s, i, tend(s, i))) ? tend(s, i) : 0-1))))
spec opaque ga(s Str, i Int) Int =
  skip(s, i) >= slen(s) ? 0-1 : (sat(s, skip(s, i)) == 93 ? skip(s, i) + 1 : ge(s, skip(s, i)))
spec opaque ge(s Str, a Int) Int =
  let e = gv(s, a) in e <= a ? 0-1 :
  (let f = skip(s, e) in f >= slen(s) ? 0-1 :
  (sat(s, f) == 93 ? f + 1 : (sat(s, f) == 44 ? ge(s, skip(s, f+1)) : 0-1)))
// a member's key, the place of its value, whether it is well-formed so far
spec named mkey(s Str, a Int) Str = qval(s, 34, a+1, sempty)
spec named mcol(s Str, a Int) Int = skip(s, jstr(s, a+1))
spec named mpos(s Str, a Int) Int = skip(s, mcol(s, a) + 1)
spec named mok(s Str, a Int) Bool =
  a < slen(s) && sat(s, a) == 34 && jstr(s, a+1) > a && mkey(s, a) != "___jnid_"
  && mcol(s, a) < slen(s) && sat(s, mcol(s, a)) == 58 && mcol(s, a) > a && mpos(s, a) < slen(s) && mpos(s, a) > a
spec opaque gd(s Str, i Int) Int =
  skip(s, i) >= slen(s) ? 0-1 : (sat(s, skip(s, i)) == 125 ? skip(s, i) + 1 : gm(s, skip(s, i)))
spec opaque gm(s Str, a Int) Int =
  !mok(s, a) ? 0-1 :
  (let e = gv(s, mpos(s, a)) in e <= mpos(s, a) ? 0-1 :
  (let f = skip(s, e) in f >= slen(s) ? 0-1 :
  (sat(s, f) == 125 ? f + 1 : (sat(s, f) == 44 ? gm(s, skip(s, f+1)) : 0-1))))
// the end of the separator or bracket after the element or member in state i
spec named anx(s Str, i Int) Int = skip(s, gv(s, skip(s, i)))
spec named dnx(s Str, i Int) Int = skip(s, gv(s, mpos(s, skip(s, i))))
// number and places of the elements from state i on
spec opaque gcnt(s Str, i Int) Int =
  sat(s, skip(s, i)) == 93 || gv(s, skip(s, i)) <= skip(s, i) ? 0 :
  (sat(s, anx(s, i)) == 44 ? 1 + gcnt(s, anx(s, i) + 1) : 1)
spec opaque gael(s Str, i Int, k Int) Int =
  k <= 0 ? skip(s, i) : gael(s, anx(s, i) + 1, k-1)
// the place of the value of the last member named q from state i on, -1 if none
spec opaque glast(s Str, i Int, q Str) Int =
  sat(s, skip(s, i)) == 125 || gv(s, mpos(s, skip(s, i))) <= mpos(s, skip(s, i)) ? 0-1 :
  (let r = (sat(s, dnx(s, i)) == 44 ? glast(s, dnx(s, i) + 1, q) : 0-1) in
   (r >= 0 ? r : (mkey(s, skip(s, i)) == q ? mpos(s, skip(s, i)) : 0-1)))
use chars, strconv, utf, qdec, qtext, gram0
lemma num_first(t Str) {
  use gram0
  trigger isnum(t)
  requires isnum(t)
  ensures slen(t) > 0 && (sat(t, 0) == 45 || isdig(sat(t, 0)))
}
lemma skip_pos(s Str, i Int) {
  trigger skip(s, i)
  ensures skip(s, i) >= i && (i <= slen(s) ==> skip(s, i) <= slen(s)) && (0 <= i && skip(s, i) < slen(s) ==> !isws(sat(s, skip(s, i))))
  use skip_pos(s, i+1) when i < slen(s)
  decreases slen(s) - i
}
lemma tend_pos(s Str, i Int) {
  trigger tend(s, i)
  ensures tend(s, i) >= i && (i <= slen(s) ==> tend(s, i) <= slen(s))
  use tend_pos(s, i+1) when i < slen(s)
  decreases slen(s) - i
}
lemma tend_at(s Str, i Int, j Int) {
  requires 0 <= i && i <= j && j <= slen(s) && (forall k Int :: {sat(s, k)} i <= k && k < j ==> istok(sat(s, k))) && (j < slen(s) ==> !istok(sat(s, j)))
  ensures tend(s, i) == j
  use tend_at(s, i+1, j) when i < j
  decreases j - i
}
lemma jstr_q(s Str, i Int) {
  trigger jstr(s, i)
  requires 0 <= i && jstr(s, i) >= 0
  ensures qend(s, 34, i) == jstr(s, i) && i < jstr(s, i) && jstr(s, i) <= slen(s)
  assert i < slen(s)
  assert sat(s, i) == 92 && simpleesc(sat(s, i+1)) ==> qnx(s, i) == i + 2
  assert sat(s, i) == 92 && !simpleesc(sat(s, i+1)) ==> jstr(s, i) == jstr(s, i+6)
  use jstr_q(s, i+1) when sat(s, i) != 34 && sat(s, i) != 92
  use jstr_q(s, i+2) when sat(s, i) == 92 && simpleesc(sat(s, i+1))
  use jstr_q(s, i+6) when sat(s, i) == 92 && !simpleesc(sat(s, i+1))
  use jstr_q(s, i+12) when sat(s, i) == 92 && !simpleesc(sat(s, i+1)) && surr(s, i)
  assert sat(s, i) == 92 && !simpleesc(sat(s, i+1)) ==> i + 6 < slen(s)
  assert sat(s, i) == 92 && !simpleesc(sat(s, i+1)) && !surr(s, i) ==> qnx(s, i) == i + 6
  assert sat(s, i) == 92 && !simpleesc(sat(s, i+1)) && surr(s, i) ==> qnx(s, i) == i + 12 && jstr(s, i+6) == jstr(s, i+12)
  decreases slen(s) - i
}
lemma gv_flat(s Str, i Int) {
  trigger gv(s, i)
  requires 0 <= i
  ensures i >= slen(s) ==> gv(s, i) == 0-1
  ensures i < slen(s) && sat(s, i) == 34 ==> gv(s, i) == jstr(s, i+1)
  ensures i < slen(s) && sat(s, i) != 34 && sat(s, i) != 91 && sat(s, i) != 123 && gv(s, i) >= 0 ==> gv(s, i) == tend(s, i) && gtok(ssub(s, i, tend(s, i)))
}
lemma gv_q39(s Str, i Int) {
  trigger gv(s, i)
  use num_first, tend_pos
  requires 0 <= i && i < slen(s) && sat(s, i) == 39
  ensures gv(s, i) < 0
  assert gv(s, i) >= 0 ==> tend(s, i) <= slen(s) && sat(ssub(s, i, tend(s, i)), 0) == 39
  assert "null"[0] == 110 && "true"[0] == 116 && "false"[0] == 102
}
lemma gv_arr(s Str, i Int, j Int) {
  trigger gv(s, i), ga(s, j)
  requires 0 <= i && i < slen(s) && sat(s, i) == 91 && j == i + 1
  ensures gv(s, i) == ga(s, j)
}
lemma gv_dict(s Str, i Int, j Int) {
  trigger gv(s, i), gd(s, j)
  requires 0 <= i && i < slen(s) && sat(s, i) == 123 && j == i + 1
  ensures gv(s, i) == gd(s, j)
}
lemma ga_flat(s Str, i Int) {
  trigger ga(s, i)
  requires 0 <= i && ga(s, i) >= 0
  ensures skip(s, i) < slen(s)
  ensures sat(s, skip(s, i)) == 93 ==> ga(s, i) == skip(s, i) + 1
  ensures sat(s, skip(s, i)) != 93 ==> gv(s, skip(s, i)) > skip(s, i) && anx(s, i) < slen(s) && (sat(s, anx(s, i)) == 93 || sat(s, anx(s, i)) == 44)
  ensures sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 93 ==> ga(s, i) == anx(s, i) + 1
}
lemma ga_step(s Str, i Int, j Int) {
  trigger ga(s, i), ga(s, j)
  requires 0 <= i && ga(s, i) >= 0 && sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 44 && j == anx(s, i) + 1
  ensures ga(s, i) == ga(s, j) && sat(s, skip(s, j)) != 93
  use skip_pos
  use gv_flat(s, skip(s, j))
}
lemma gcnt_flat(s Str, i Int) {
  trigger gcnt(s, i), ga(s, i)
  requires 0 <= i && ga(s, i) >= 0
  ensures sat(s, skip(s, i)) == 93 ==> gcnt(s, i) == 0
  ensures sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 93 ==> gcnt(s, i) == 1
  use ga_flat
}
lemma gcnt_step(s Str, i Int, j Int) {
  trigger gcnt(s, i), gcnt(s, j), ga(s, i)
  requires 0 <= i && ga(s, i) >= 0 && sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 44 && j == anx(s, i) + 1
  ensures gcnt(s, i) == 1 + gcnt(s, j)
  use ga_flat
}
lemma gcnt_pos(s Str, i Int) {
  trigger gcnt(s, i), ga(s, i)
  requires 0 <= i && ga(s, i) >= 0
  ensures gcnt(s, i) >= 0
  use ga_flat, skip_pos, ga_step
  assert sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 44 ==> ga(s, anx(s, i) + 1) == ga(s, i)
  use gcnt_pos(s, anx(s, i) + 1) when sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 44
  use gcnt_step(s, i, anx(s, i) + 1) when sat(s, skip(s, i)) != 93 && sat(s, anx(s, i)) == 44
  decreases slen(s) - i
}
lemma gael_0(s Str, i Int, k Int) {
  trigger gael(s, i, k)
  ensures k <= 0 ==> gael(s, i, k) == skip(s, i)
}
lemma gael_step(s Str, i Int, k Int, j Int, m Int) {
  trigger gael(s, i, k), gael(s, j, m)
  requires k > 0 && j == anx(s, i) + 1 && m == k - 1
  ensures gael(s, i, k) == gael(s, j, m)
}
lemma gd_flat(s Str, i Int) {
  trigger gd(s, i)
  requires 0 <= i && gd(s, i) >= 0
  ensures skip(s, i) < slen(s)
  ensures sat(s, skip(s, i)) == 125 ==> gd(s, i) == skip(s, i) + 1
  ensures sat(s, skip(s, i)) != 125 ==> mok(s, skip(s, i)) && gv(s, mpos(s, skip(s, i))) > mpos(s, skip(s, i)) && dnx(s, i) < slen(s) && (sat(s, dnx(s, i)) == 125 || sat(s, dnx(s, i)) == 44)
  ensures sat(s, skip(s, i)) != 125 && sat(s, dnx(s, i)) == 125 ==> gd(s, i) == dnx(s, i) + 1
}
lemma gd_step(s Str, i Int, j Int) {
  trigger gd(s, i), gd(s, j)
  requires 0 <= i && gd(s, i) >= 0 && sat(s, skip(s, i)) != 125 && sat(s, dnx(s, i)) == 44 && j == dnx(s, i) + 1
  ensures gd(s, i) == gd(s, j) && sat(s, skip(s, j)) != 125
}
lemma glast_flat(s Str, i Int, q Str) {
  trigger glast(s, i, q), gd(s, i)
  requires 0 <= i && gd(s, i) >= 0
  ensures sat(s, skip(s, i)) == 125 ==> glast(s, i, q) == 0-1
  ensures sat(s, skip(s, i)) != 125 && sat(s, dnx(s, i)) == 125 ==> glast(s, i, q) == (mkey(s, skip(s, i)) == q ? mpos(s, skip(s, i)) : 0-1)
  use gd_flat
}
lemma glast_step(s Str, i Int, j Int, q Str) {
  trigger glast(s, i, q), glast(s, j, q), gd(s, i)
  requires 0 <= i && gd(s, i) >= 0 && sat(s, skip(s, i)) != 125 && sat(s, dnx(s, i)) == 44 && j == dnx(s, i) + 1
  ensures glast(s, j, q) >= 0 ==> glast(s, i, q) == glast(s, j, q)
  ensures glast(s, j, q) < 0 ==> glast(s, i, q) == (mkey(s, skip(s, i)) == q ? mpos(s, skip(s, i)) : 0-1)
  use gd_flat
}
theory gram : gram0, skip_pos, tend_pos, jstr_q, gv_flat, gv_q39, gv_arr, gv_dict, ga_flat, ga_step, gcnt_flat, gcnt_step, gcnt_pos, gael_0, gael_step, gd_flat, gd_step, glast_flat, glast_step ` `
