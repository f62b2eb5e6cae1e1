// ---- parsing: totality, progress, closing delimiters (C01, C25) ----
theory errth `
; the error a wrapped error holds, and the message it was given
(declare-fun ewraps (Iface) Iface)
(declare-fun emsg (Iface) Str)
`
use chars
extern "errors.Wrap" (err, msg) {
  use errth
  ensures nil: result == nil <==> err == nil
  ensures why: err != nil ==> ewraps(result) == err && emsg(result) == msg
  modifies nothing
}
extern "errors.Wrapf" (err, msg, args) {
  use errth
  ensures nil: result == nil <==> err == nil
  ensures why: err != nil ==> ewraps(result) == err
  modifies nothing
}
func "hexstr2rune" (str) {
  ensures ok: len(str) >= 4 && hexval(view(str)[0]) >= 0 && hexval(view(str)[1]) >= 0 && hexval(view(str)[2]) >= 0 && hexval(view(str)[3]) >= 0 ==> result1 == nil && result0 == 4096*hexval(view(str)[0]) + 256*hexval(view(str)[1]) + 16*hexval(view(str)[2]) + hexval(view(str)[3])
  ensures err: !(len(str) >= 4 && hexval(view(str)[0]) >= 0 && hexval(view(str)[1]) >= 0 && hexval(view(str)[2]) >= 0 && hexval(view(str)[3]) >= 0) ==> result1 != nil && result0 == 0
  modifies nothing
}
// ---- decoding of quoted strings ----
use chars, utf
theory utf : chars `
; the UTF-8 encoding of a code point (EF BF BD for what has none)
(declare-fun utf8 (Int) Str)
(define-fun badrune ((r Int)) Bool (or (< r 0) (> r 1114111) (and (<= 55296 r) (<= r 57343))))
(assert (forall ((r Int)) (! (=> (and (<= 0 r) (< r 128)) (and (= (utf8 r) (sunit r)))) :pattern ((utf8 r)))))
(assert (forall ((r Int)) (! (=> (and (<= 128 r) (< r 2048)) (and (= (slen (utf8 r)) 2) (= (sat (utf8 r) 0) (+ 192 (div r 64))) (= (sat (utf8 r) 1) (+ 128 (mod r 64))))) :pattern ((utf8 r)))))
(assert (forall ((r Int)) (! (=> (and (<= 2048 r) (< r 65536) (not (badrune r))) (and (= (slen (utf8 r)) 3) (= (sat (utf8 r) 0) (+ 224 (div r 4096))) (= (sat (utf8 r) 1) (+ 128 (mod (div r 64) 64))) (= (sat (utf8 r) 2) (+ 128 (mod r 64))))) :pattern ((utf8 r)))))
(assert (forall ((r Int)) (! (=> (and (<= 65536 r) (<= r 1114111)) (and (= (slen (utf8 r)) 4) (= (sat (utf8 r) 0) (+ 240 (div r 262144))) (= (sat (utf8 r) 1) (+ 128 (mod (div r 4096) 64))) (= (sat (utf8 r) 2) (+ 128 (mod (div r 64) 64))) (= (sat (utf8 r) 3) (+ 128 (mod r 64))))) :pattern ((utf8 r)))))
(assert (forall ((r Int)) (! (=> (badrune r) (and (= (slen (utf8 r)) 3) (= (sat (utf8 r) 0) 239) (= (sat (utf8 r) 1) 191) (= (sat (utf8 r) 2) 189))) :pattern ((utf8 r)))))
(define-fun issurr ((r Int)) Bool (and (<= 55296 r) (< r 57344)))
(define-fun decpair ((a Int) (b Int)) Int (ite (and (<= 55296 a) (< a 56320) (<= 56320 b) (< b 57344)) (+ 65536 (* 1024 (- a 55296)) (- b 56320)) 65533))
(define-fun hex4ok ((s Str) (i Int)) Bool (and (<= 0 (hexval (sat s i))) (<= 0 (hexval (sat s (+ i 1)))) (<= 0 (hexval (sat s (+ i 2)))) (<= 0 (hexval (sat s (+ i 3))))))
(define-fun hex4 ((s Str) (i Int)) Int (+ (* 4096 (hexval (sat s i))) (* 256 (hexval (sat s (+ i 1)))) (* 16 (hexval (sat s (+ i 2)))) (hexval (sat s (+ i 3)))))
`
extern "utf8.EncodeRune" (p, r) {
  requires room: len(p) >= 4
  ensures n: result == slen(utf8(r)) && 1 <= result && result <= 4
  ensures enc: forall k Int :: {p[k]} 0 <= k && k < result ==> p[k] == sat(utf8(r), k)
  ensures view: view(p, result) == utf8(r)
  modifies mem(p)
}
extern "utf16.IsSurrogate" (r) {
  ensures r: result == issurr(r)
  modifies nothing
}
extern "utf16.DecodeRune" (a, b) {
  ensures r: result == decpair(a, b)
  modifies nothing
}
extern "error.Error" (e) {
  modifies nothing
}
// one step of decoding at i: the text it stands for, where it ends (-1: ill-formed)
spec named surr(s Str, i Int) Bool = issurr(hex4(s, i+2)) && i + 12 < slen(s) && sat(s, i+6) == 92 && sat(s, i+7) == 117 && hex4ok(s, i+8) && decpair(hex4(s, i+2), hex4(s, i+8)) != 65533
spec named qnx(s Str, i Int) Int =
  sat(s, i) != 92 ? i + 1 :
  (i + 1 >= slen(s) ? 0-1 :
  (sat(s, i+1) == 117 ? (i + 6 < slen(s) && hex4ok(s, i+2) ? (surr(s, i) ? i + 12 : i + 6) : 0-1) :
  (sat(s, i+1) == 120 ? (i + 4 < slen(s) && hexval(sat(s, i+2)) >= 0 && hexval(sat(s, i+3)) >= 0 ? i + 4 : 0-1) : i + 2)))
spec named qap(s Str, i Int) Str =
  sat(s, i) != 92 ? sunit(sat(s, i)) :
  (sat(s, i+1) == 117 ? utf8(surr(s, i) ? decpair(hex4(s, i+2), hex4(s, i+8)) : hex4(s, i+2)) :
  (sat(s, i+1) == 120 ? sunit(16*hexval(sat(s, i+2)) + hexval(sat(s, i+3))) :
  (sat(s, i+1) == 110 ? sunit(10) : (sat(s, i+1) == 114 ? sunit(13) : (sat(s, i+1) == 116 ? sunit(9) :
  (sat(s, i+1) == 98 ? sunit(8) : (sat(s, i+1) == 102 ? sunit(12) : sunit(sat(s, i+1)))))))))
// decoding from i up to the closing q: its end (-1: there is none), its value after acc
spec opaque qend(s Str, q Int, i Int) Int =
  i >= slen(s) ? 0-1 : (sat(s, i) == q && q != 92 ? i + 1 : (qnx(s, i) < 0 ? 0-1 : qend(s, q, qnx(s, i))))
spec opaque qval(s Str, q Int, i Int, acc Str) Str =
  i >= slen(s) ? acc : (sat(s, i) == q && q != 92 ? acc : (qnx(s, i) < 0 ? acc : qval(s, q, qnx(s, i), acc ++ qap(s, i))))
lemma q_stop(s Str, q Int, i Int) {
  trigger qend(s, q, i)
  ensures i >= slen(s) ==> qend(s, q, i) == 0-1
  ensures 0 <= i && i < slen(s) && sat(s, i) == q && q != 92 ==> qend(s, q, i) == i + 1
  ensures 0 <= i && i < slen(s) && sat(s, i) != q && qnx(s, i) < 0 ==> qend(s, q, i) == 0-1
}
lemma q_val(s Str, q Int, i Int, acc Str) {
  trigger qval(s, q, i, acc)
  ensures 0 <= i && i < slen(s) && sat(s, i) == q && q != 92 ==> qval(s, q, i, acc) == acc
}
lemma q_step(s Str, q Int, i Int, j Int, acc Str, acc2 Str) {
  trigger qval(s, q, i, acc), qval(s, q, j, acc2)
  requires 0 <= i && i < slen(s) && sat(s, i) != q && 0 <= j && qnx(s, i) == j && acc2 == acc ++ qap(s, i)
  ensures qval(s, q, i, acc) == qval(s, q, j, acc2)
}
lemma q_stepe(s Str, q Int, i Int, j Int) {
  trigger qend(s, q, i), qend(s, q, j)
  requires 0 <= i && i < slen(s) && sat(s, i) != q && qnx(s, i) == j
  ensures qend(s, q, i) == (j < 0 ? 0-1 : qend(s, q, j))
}
theory qdec : utf, q_stop, q_val, q_step, q_stepe ` `
use chars, utf, qdec
func "parseQuoteString" (str, offset, quotec) {
  internal
  requires r0: 0 <= offset && offset <= len(str) && quotec != 92
  ensures pos: offset <= result1 && result1 <= len(str)
  ensures closed: result2 == nil ==> offset < result1 && view(str)[result1-1] == quotec
  ensures ok: result2 == nil <==> qend(view(str), quotec, offset) >= 0
  ensures end: result2 == nil ==> result1 == qend(view(str), quotec, offset)
  ensures val: result2 == nil ==> result0 == qval(view(str), quotec, offset, sempty)
  modifies nothing
  invariant b: offset <= i && i <= len(str)
  invariant e: qend(view(str), quotec, i) == qend(view(str), quotec, offset)
  invariant v: qval(view(str), quotec, i, view(buffer)) == qval(view(str), quotec, offset, sempty)
  decreases loop 0 len(str) - i
  callhint "utf8.EncodeRune" q_step(view(str), quotec, ix, i, view(buffer), view(buffer) ++ utf8(a1))
}
// bytes that end an unquoted token
spec istok(c Int) Bool = c != 32 && c != 58 && c != 44 && c != 9 && c != 13 && c != 10 && c != 125 && c != 93
func "parseString" (str, offset) {
  internal
  requires nonpanic: 0 <= offset && offset < len(str)
  ensures pos: offset <= result2 && result2 <= len(str)
  ensures quoted: result1 <==> view(str)[offset] == 34 || view(str)[offset] == 39
  ensures plain: !result1 ==> result3 == nil
  ensures closed: result1 && result3 == nil ==> offset < result2 - 1 && view(str)[result2-1] == view(str)[offset]
  ensures ok: result1 ==> (result3 == nil <==> qend(view(str), view(str)[offset], offset+1) >= 0)
  ensures end: result1 && result3 == nil ==> result2 == qend(view(str), view(str)[offset], offset+1)
  ensures val: result1 && result3 == nil ==> result0 == qval(view(str), view(str)[offset], offset+1, sempty)
  ensures token: !result1 ==> result0 == ssub(view(str), offset, result2)
  ensures all: !result1 ==> (forall k Int :: {view(str)[k]} offset <= k && k < result2 ==> istok(view(str)[k]))
  ensures max: !result1 && result2 < len(str) ==> !istok(view(str)[result2])
  modifies nothing
  invariant b: offset <= i && i <= len(str)
  invariant t: forall k Int :: {view(str)[k]} offset <= k && k < i ==> istok(view(str)[k])
  decreases loop 0 len(str) - i
}
// ---- values ----
theory strconv : chars `
(declare-fun lower (Str) Str)
(declare-fun pintok (Str) Bool)
(declare-fun pint (Str) Int)
(declare-fun pfok (Str) Bool)
(declare-fun pfval (Str) Flt)
(declare-fun puintok (Str) Bool)
(declare-fun puint (Str) Int)
(declare-fun pf32ok (Str) Bool)
(declare-fun pf32val (Str) Flt)
(define-fun inbits ((v Int) (b Int)) Bool (ite (= b 8) (and (<= (- 128) v) (< v 128)) (ite (= b 16) (and (<= (- 32768) v) (< v 32768)) (and (<= (- 2147483648) v) (< v 2147483648)))))
(define-fun inubits ((v Int) (b Int)) Bool (and (<= 0 v) (ite (= b 8) (< v 256) (ite (= b 16) (< v 65536) (ite (= b 32) (< v 4294967296) (< v 18446744073709551616))))))
`
use chars, utf, qdec, strconv, json, smap
extern "strings.ToLower" (s) {
  ensures l: result == lower(s)
  modifies nothing
}
extern "strconv.ParseInt" (s, base, bitSize) {
  ensures ok: base == 10 && bitSize == 64 ==> (result1 == nil <==> pintok(s))
  ensures val: base == 10 && bitSize == 64 && result1 == nil ==> result0 == pint(s)
  ensures okb: base == 10 && (bitSize == 8 || bitSize == 16 || bitSize == 32) ==> (result1 == nil <==> pintok(s) && inbits(pint(s), bitSize))
  ensures valb: base == 10 && (bitSize == 8 || bitSize == 16 || bitSize == 32) && result1 == nil ==> result0 == pint(s)
  modifies nothing
}
extern "strconv.ParseUint" (s, base, bitSize) {
  ensures ok: base == 10 && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64) ==> (result1 == nil <==> puintok(s) && inubits(puint(s), bitSize))
  ensures val: base == 10 && result1 == nil ==> result0 == puint(s)
  modifies nothing
}
extern "strconv.ParseFloat" (s, bitSize) {
  ensures ok: bitSize == 64 ==> (result1 == nil <==> pfok(s))
  ensures val: bitSize == 64 && result1 == nil ==> result0 == pfval(s)
  ensures ok32: bitSize == 32 ==> (result1 == nil <==> pf32ok(s))
  ensures val32: bitSize == 32 && result1 == nil ==> result0 == pf32val(s)
  modifies nothing
}
extern "errors.NewAggregate" (errs) {
  modifies nothing
}
extern "log.Warningf" (f, args) {
  modifies nothing
}
// every registered node id has its record, allocated after the session
macro smk(s) = imin(s, s.objectMap)
macro swf(s) = s != nil && 0 < s && 0 < s.objectMap && s.objectMap < next && (forall k Int :: {mapval(s.objectMap)[k]} mapdom(s.objectMap)[k] ==> smk(s) < mapval(s.objectMap)[k] && mapval(s.objectMap)[k] < next && (select(comp("fld$sNodeReferer.pointers"), mapval(s.objectMap)[k]).base == 0 || smk(s) < select(comp("fld$sNodeReferer.pointers"), mapval(s.objectMap)[k]).base))
// what lies below the session is left alone
macro sframe(s) = (forall r Int :: {select(comp("fld$sNodeReferer.pointers"), r)} 0 <= r && r < smk(s) ==> select(comp("fld$sNodeReferer.pointers"), r) == old(select(comp("fld$sNodeReferer.pointers"), r))) && (forall r Int :: {select(comp("fld$sNodeReferer.node"), r)} 0 <= r && r < smk(s) ==> select(comp("fld$sNodeReferer.node"), r) == old(select(comp("fld$sNodeReferer.node"), r))) && (forall r Int :: {select(comp("mem$_jsonutils.sJSONPointer"), r)} 0 <= r && r < smk(s) ==> select(comp("mem$_jsonutils.sJSONPointer"), r) == old(select(comp("mem$_jsonutils.sJSONPointer"), r)))
func "newJsonParseSession" () {
  ensures s: swf(result) && fresh(result) && fresh(result.objectMap)
  modifies nothing
}
func "(*sJsonParseSession).saveReferer" (s, nodeId, ptr) {
  requires nonpanic: swf(s)
  ensures s: swf(s)
  ensures below: sframe(s)
  modifies map(s.objectMap), all("fld$sNodeReferer.pointers"), all("mem$_jsonutils.sJSONPointer")
}
func "(*sJsonParseSession).saveNode" (s, nodeId, node) {
  requires nonpanic: swf(s)
  ensures s: swf(s)
  ensures below: sframe(s)
  modifies map(s.objectMap), all("fld$sNodeReferer.node")
}
func "(*sJsonParseSession).parseJSONValue" (s, str, offset) {
  requires nonpanic: swf(s) && 0 <= offset && offset < len(str)
  ensures s: swf(s)
  ensures below: sframe(s)
  ensures pos: offset <= result1 && result1 <= len(str)
  ensures ok: view(str)[offset] == 34 || view(str)[offset] == 39 ==> (result2 == nil <==> qend(view(str), view(str)[offset], offset+1) >= 0)
  ensures str: result2 == nil && (view(str)[offset] == 34 || view(str)[offset] == 39) ==> result1 == qend(view(str), view(str)[offset], offset+1) && typeis(result0, "*jsonutils.JSONString") && ptr(result0, "JSONString") != nil && ptr(result0, "JSONString").data == qval(view(str), view(str)[offset], offset+1, sempty)
  ensures closed: result2 == nil && (view(str)[offset] == 34 || view(str)[offset] == 39) ==> offset < result1 - 1 && view(str)[result1-1] == view(str)[offset]
  ensures token: result2 == nil && view(str)[offset] != 34 && view(str)[offset] != 39 ==> (forall k Int :: {view(str)[k]} offset <= k && k < result1 ==> istok(view(str)[k])) && (result1 < len(str) ==> !istok(view(str)[result1]))
  ensures doc: result2 == nil ==> isjson(result0)
  modifies map(s.objectMap), all("fld$sNodeReferer.pointers"), all("mem$_jsonutils.sJSONPointer")
}
func "(*sJsonParseSession).parseDict" (s, str, offset) {
  requires nonpanic: swf(s) && 0 <= offset && offset < len(str)
  ensures s: swf(s)
  ensures below: sframe(s)
  ensures pos: offset <= result1 && result1 <= len(str)
  ensures closed: result3 == nil ==> view(str)[offset] == 123 && offset < result1 - 1 && view(str)[result1-1] == 125
  ensures sorted: sm_sorted(result0)
  modifies map(s.objectMap), all("fld$sNodeReferer.pointers"), all("fld$sNodeReferer.node"), all("mem$_jsonutils.sJSONPointer")
  invariant s: swf(s)
  invariant below: sframe(s)
  invariant b: offset < i && i <= len(str)
  invariant c: stop ==> view(str)[i-1] == 125 && offset < i - 1
  invariant sorted: sm_sorted(smap) && fresh(smap)
  decreases loop 0 len(str) - i
  decreases 2*(len(str) - offset)
}
func "(*sJsonParseSession).parseArray" (s, str, offset) {
  requires nonpanic: swf(s) && 0 <= offset && offset < len(str)
  ensures s: swf(s)
  ensures below: sframe(s)
  ensures pos: offset <= result1 && result1 <= len(str)
  ensures closed: result2 == nil ==> view(str)[offset] == 91 && offset < result1 - 1 && view(str)[result1-1] == 93
  modifies map(s.objectMap), all("fld$sNodeReferer.pointers"), all("fld$sNodeReferer.node"), all("mem$_jsonutils.sJSONPointer")
  invariant s: swf(s)
  invariant below: sframe(s)
  invariant b: offset < i && i <= len(str)
  invariant c: stop ==> view(str)[i-1] == 93 && offset < i - 1
  decreases loop 0 len(str) - i
  decreases 2*(len(str) - offset)
}
func "(*JSONDict).parse" (this, s, str, offset) {
  requires nonpanic: this != nil && swf(s) && 0 <= offset && offset < len(str)
  ensures s: swf(s)
  ensures below: sframe(s)
  ensures pos: offset <= result0 && result0 <= len(str)
  ensures closed: result1 == nil ==> view(str)[offset] == 123 && offset < result0 - 1 && view(str)[result0-1] == 125
  ensures sorted: result1 == nil ==> sm_sorted(this.data)
  modifies this.data, this.nodeId, map(s.objectMap), all("fld$sNodeReferer.pointers"), all("fld$sNodeReferer.node"), all("mem$_jsonutils.sJSONPointer")
  decreases 2*(len(str) - offset) + 1
}
func "(*JSONArray).parse" (this, s, str, offset) {
  requires nonpanic: this != nil && swf(s) && 0 <= offset && offset < len(str)
  ensures s: swf(s)
  ensures below: sframe(s)
  ensures pos: offset <= result0 && result0 <= len(str)
  ensures closed: result1 == nil ==> view(str)[offset] == 91 && offset < result0 - 1 && view(str)[result0-1] == 93
  modifies this.data, map(s.objectMap), all("fld$sNodeReferer.pointers"), all("fld$sNodeReferer.node"), all("mem$_jsonutils.sJSONPointer")
  decreases 2*(len(str) - offset) + 1
}
// the first significant byte, if any, is at skip(s, i)
spec opaque skip(s Str, i Int) Int = i < slen(s) && isws(sat(s, i)) ? skip(s, i+1) : i
lemma skip_at(s Str, i Int, j Int) {
  trigger skip(s, i), sat(s, j)
  requires 0 <= i && i <= j && j <= slen(s) && (forall k Int :: {sat(s, k)} i <= k && k < j ==> isws(sat(s, k))) && (j < slen(s) ==> !isws(sat(s, j)))
  ensures skip(s, i) == j
  use skip_at(s, i+1, j) when i < j
  decreases j - i
}
func "ParseStream" (str, offset) {
  use skip_at
  requires nonpanic: 0 <= offset && offset <= len(str)
  ensures pos: offset <= result1 && result1 <= len(str)
  ensures empty: skip(view(str), offset) == len(str) ==> result2 != nil
  ensures nul: result2 != nil ==> result0 == nil
  ensures doc: result2 == nil ==> result0 != nil
  ensures obj: result2 == nil && view(str)[skip(view(str), offset)] == 123 ==> offset < result1 - 1 && view(str)[result1-1] == 125 && typeis(result0, "*jsonutils.JSONDict")
  ensures arr: result2 == nil && view(str)[skip(view(str), offset)] == 91 ==> offset < result1 - 1 && view(str)[result1-1] == 93 && typeis(result0, "*jsonutils.JSONArray")
  ensures str: result2 == nil && (view(str)[skip(view(str), offset)] == 34 || view(str)[skip(view(str), offset)] == 39) ==> offset < result1 - 1 && view(str)[result1-1] == view(str)[skip(view(str), offset)] && typeis(result0, "*jsonutils.JSONString")
  ensures qok: (view(str)[skip(view(str), offset)] == 34 || view(str)[skip(view(str), offset)] == 39) && skip(view(str), offset) < len(str) ==> (result2 == nil <==> qend(view(str), view(str)[skip(view(str), offset)], skip(view(str), offset)+1) >= 0)
  ensures qval: result2 == nil && (view(str)[skip(view(str), offset)] == 34 || view(str)[skip(view(str), offset)] == 39) ==> result1 == qend(view(str), view(str)[skip(view(str), offset)], skip(view(str), offset)+1) && ptr(result0, "JSONString").data == qval(view(str), view(str)[skip(view(str), offset)], skip(view(str), offset)+1, sempty)
  modifies nothing
}
func "Parse" (str) {
  use skip_at
  ensures qok: skip(view(str), 0) < len(str) && (view(str)[skip(view(str), 0)] == 34 || view(str)[skip(view(str), 0)] == 39) ==> (result1 == nil <==> qend(view(str), view(str)[skip(view(str), 0)], skip(view(str), 0)+1) >= 0)
  ensures qval: result1 == nil && (view(str)[skip(view(str), 0)] == 34 || view(str)[skip(view(str), 0)] == 39) ==> typeis(result0, "*jsonutils.JSONString") && ptr(result0, "JSONString").data == qval(view(str), view(str)[skip(view(str), 0)], skip(view(str), 0)+1, sempty)
  ensures doc: result1 == nil <==> result0 != nil
  modifies nothing
}
func "ParseString" (str) {
  use skip_at
  ensures qok: skip(str, 0) < len(str) && (str[skip(str, 0)] == 34 || str[skip(str, 0)] == 39) ==> (result1 == nil <==> qend(str, str[skip(str, 0)], skip(str, 0)+1) >= 0)
  ensures qval: result1 == nil && (str[skip(str, 0)] == 34 || str[skip(str, 0)] == 39) ==> typeis(result0, "*jsonutils.JSONString") && ptr(result0, "JSONString").data == qval(str, str[skip(str, 0)], skip(str, 0)+1, sempty)
  ensures doc: result1 == nil <==> result0 != nil
  modifies nothing
}
func "ParseJsonStreams" (stream) {
  use skip_at
  callhint "ParseStream" skip_at(view(a0), a1, a1)
  modifies nothing
  invariant b: 0 <= offset && offset <= len(stream)
  invariant loop 1 b: 0 <= offset && offset <= len(stream)
  decreases loop 0 len(stream) - offset
  decreases loop 1 len(stream) - offset
}
property C25 {
  funcs "ParseStream", "Parse"
  safety termination
}
property C01 {
  funcs "ParseStream", "Parse", "ParseString", "ParseJsonStreams"
  safety termination
}
