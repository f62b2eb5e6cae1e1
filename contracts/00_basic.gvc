// Scanning helpers, error construction, segments order.
use chars

func "skipEmpty" (str, offset) {
  requires r0: 0 <= offset && offset <= len(str)
  ensures lo: offset <= result && result <= len(str)
  ensures ws: forall k Int :: offset <= k && k < result ==> isws(view(str)[k])
  ensures stop: result < len(str) ==> !isws(view(str)[result])
  modifies nothing
  invariant b: offset <= i && i <= len(str)
  invariant w: forall k Int :: offset <= k && k < i ==> isws(view(str)[k])
  decreases loop 0 len(str) - i
}

theory chars `
(define-fun isws ((c Int)) Bool (or (= c 32) (= c 9) (= c 10) (= c 13)))
(define-fun hexval ((c Int)) Int (ite (and (<= 48 c) (<= c 57)) (- c 48) (ite (and (<= 97 c) (<= c 102)) (- c 87) (ite (and (<= 65 c) (<= c 70)) (- c 55) (- 1)))))
(define-fun sgn ((x Int)) Int (ite (< x 0) (- 1) (ite (> x 0) 1 0)))
`

func "hexchar2num" (v) {
  ensures val: hexval(v) >= 0 ==> result0 == hexval(v) && result1 == nil
  ensures err: hexval(v) < 0 ==> result0 == 0 && result1 != nil
  modifies nothing
}
func "hexstr2byte" (str) {
  ensures ok: len(str) >= 2 && hexval(view(str)[0]) >= 0 && hexval(view(str)[1]) >= 0 ==> result1 == nil && result0 == 16*hexval(view(str)[0]) + hexval(view(str)[1])
  ensures err: !(len(str) >= 2 && hexval(view(str)[0]) >= 0 && hexval(view(str)[1]) >= 0) ==> result1 != nil && result0 == 0
  modifies nothing
}

func "NewJSONError" (str, pos, msg) {
  ensures fresh: result != nil && fresh(result)
  ensures inrange: 0 <= result.pos && (len(str) > 0 ==> result.pos < len(str)) && (len(str) == 0 ==> result.pos == 0)
  ensures clamp: 0 <= pos && pos < len(str) ==> result.pos == pos
  ensures msg: result.msg == msg
  ensures excerpt: len(result.substr) <= 21
  ensures mark: len(str) > 0 ==> let s = imax(0, result.pos - 10) in (len(result.substr) == imin(len(str), result.pos+10) - s + 1 && result.substr[result.pos - s] == 94)
  ensures before: len(str) > 0 ==> let s = imax(0, result.pos - 10) in (forall k Int :: 0 <= k && k < result.pos - s ==> result.substr[k] == view(str)[s + k])
  ensures after: len(str) > 0 ==> let s = imax(0, result.pos - 10) in (forall k Int :: result.pos - s < k && k < len(result.substr) ==> result.substr[k] == view(str)[s + k - 1])
  modifies nothing
}

property C27 {
  funcs "NewJSONError"
  safety termination
}
