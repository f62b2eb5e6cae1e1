// ---- quoting of strings (C02, C03) ----
use chars, utf, qdec, quote
theory quote : qdec `
(define-fun hi4 ((c Int)) Int (div c 16))
(define-fun lo4 ((c Int)) Int (mod c 16))
(define-fun hexdig ((n Int)) Int (ite (< n 10) (+ 48 n) (+ 87 n)))
`
// the text standing for one byte
spec named esc(c Int) Str =
  c == 34 ? sunit(92) ++ sunit(34) : (c == 92 ? sunit(92) ++ sunit(92) :
  (c == 8 ? sunit(92) ++ sunit(98) : (c == 12 ? sunit(92) ++ sunit(102) :
  (c == 10 ? sunit(92) ++ sunit(110) : (c == 13 ? sunit(92) ++ sunit(114) :
  (c == 9 ? sunit(92) ++ sunit(116) :
  (c < 32 ? sunit(92) ++ sunit(117) ++ sunit(48) ++ sunit(48) ++ sunit(hexdig(hi4(c))) ++ sunit(hexdig(lo4(c))) : sunit(c))))))))
// the text of the first n bytes
spec opaque escs(s Str, n Int) Str = n <= 0 ? sempty : escs(s, n-1) ++ esc(sat(s, n-1))
lemma escs_0(s Str, n Int) {
  trigger escs(s, n)
  ensures n <= 0 ==> escs(s, n) == sempty
}
lemma escs_step(s Str, n Int, m Int) {
  trigger escs(s, n), escs(s, m)
  requires 0 <= n && m == n + 1
  ensures escs(s, m) == escs(s, n) ++ esc(sat(s, n))
}
theory quoted : quote, escs_0, escs_step ` `
spec named quoted(s Str) Str = sunit(34) ++ escs(s, slen(s)) ++ sunit(34)
func "escapeJsonChar" (sb, ch) {
  use chars, utf, qdec, quoted
  internal
  requires nonpanic: sb != nil
  ensures t: view(sb) == old(view(sb)) ++ esc(ch)
  modifies view(sb)
}
func "quoteString" (str) {
  use chars, utf, qdec, quoted
  ensures q: result == quoted(str)
  modifies nothing
  invariant b: 0 <= i && i <= len(str)
  invariant t: view(sb) == sunit(34) ++ escs(str, i)
  decreases loop 0 len(str) - i
}
// ---- quoted text is an RFC 8259 string, and decodes to the original ----
spec named simpleesc(c Int) Bool = c == 34 || c == 92 || c == 47 || c == 98 || c == 102 || c == 110 || c == 114 || c == 116
// rstr(t, i): from i on, t is the rest of a string literal that ends with t
spec opaque rstr(t Str, i Int) Bool =
  i < slen(t) && (sat(t, i) == 34 ? i + 1 == slen(t) :
  (sat(t, i) < 32 ? false :
  (sat(t, i) != 92 ? rstr(t, i+1) :
  (i + 1 < slen(t) && simpleesc(sat(t, i+1)) ? rstr(t, i+2) :
  (i + 5 < slen(t) && sat(t, i+1) == 117 && hex4ok(t, i+2) && rstr(t, i+6))))))
lemma escs_len(s Str, k Int, n Int) {
  trigger escs(s, k), escs(s, n)
  requires 0 <= k && k <= n
  ensures slen(escs(s, k)) + (n - k) <= slen(escs(s, n))
  use escs_len(s, k, n-1) when k < n
  decreases n
}
lemma escs_pre(s Str, k Int, n Int, j Int) {
  requires 0 <= k && k <= n && 0 <= j && j < slen(escs(s, k))
  ensures sat(escs(s, n), j) == sat(escs(s, k), j)
  use escs_pre(s, k, n-1, j) when k < n
  use escs_len
  decreases n
}
use quoted
// where the text of byte k stands
spec epos(s Str, k Int) Int = 1 + slen(escs(s, k))
lemma q_at(s Str, k Int, j Int) {
  use escs_0, escs_step, escs_len
  requires 0 <= k && k < slen(s) && 0 <= j && j < slen(esc(sat(s, k)))
  ensures sat(quoted(s), epos(s, k) + j) == sat(esc(sat(s, k)), j)
  ensures epos(s, k) + slen(esc(sat(s, k))) == epos(s, k+1) && epos(s, k+1) < slen(quoted(s))
  use escs_pre(s, k+1, slen(s), slen(escs(s, k)) + j)
}
theory qtext : quoted, escs_0, escs_step, escs_len ` `
use qtext
lemma q_rstr(s Str, k Int) {
  requires 0 <= k && k <= slen(s)
  ensures rstr(quoted(s), epos(s, k))
  useall j Int {sat(quoted(s), j)} q_at(s, k, j - epos(s, k))
  use q_at(s, k, 0) when k < slen(s)
  use q_rstr(s, k+1) when k < slen(s)
  decreases slen(s) - k
}
lemma q_wellformed(s Str) {
  ensures slen(quoted(s)) >= 2 && sat(quoted(s), 0) == 34 && rstr(quoted(s), 1)
  use escs_0(s, 0)
  use q_rstr(s, 0)
}
lemma q_pass(s Str, k Int) {
  requires 0 <= k && k < slen(s) && sat(s, k) >= 32 && sat(s, k) != 34 && sat(s, k) != 92
  ensures sat(quoted(s), epos(s, k)) == sat(s, k) && epos(s, k+1) == epos(s, k) + 1
  use q_at(s, k, 0)
}
lemma q_back(s Str, k Int, acc Str) {
  requires 0 <= k && k <= slen(s)
  ensures qend(quoted(s), 34, epos(s, k)) == slen(quoted(s))
  ensures qval(quoted(s), 34, epos(s, k), acc) == acc ++ ssub(s, k, slen(s))
  useall j Int {sat(quoted(s), j)} q_at(s, k, j - epos(s, k))
  use q_at(s, k, 0) when k < slen(s)
  use q_back(s, k+1, acc ++ sunit(sat(s, k))) when k < slen(s)
  decreases slen(s) - k
}
lemma q_inverse(s Str) {
  ensures qend(quoted(s), 34, 1) == slen(quoted(s))
  ensures qval(quoted(s), 34, 1, sempty) == s
  use escs_0(s, 0)
  use q_back(s, 0, sempty)
}

use qtext, skip_at, json
func "(*JSONString).String" (this) {
  requires nonpanic: this != nil
  ensures q: result == quoted(this.data)
  modifies nothing
}
lemma q_skip(s Str) {
  ensures skip(quoted(s), 0) == 0
  use skip_at(quoted(s), 0, 0)
}
property C02 {
  funcs "quoteString", "(*JSONString).String"
  lemmas q_wellformed, q_pass
  safety termination
}
property C03 {
  funcs "quoteString", "(*JSONString).String", "ParseStream", "Parse", "ParseString"
  lemmas q_wellformed, q_inverse, q_skip
  safety termination
}
