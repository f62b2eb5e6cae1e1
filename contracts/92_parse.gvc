// ---- the parser returns what the text denotes (C04) ----
use gram, docs, parsed, lower_words, num_first
macro bconst() = JSONTrue != nil && JSONFalse != nil && JSONNull != nil && JSONTrue.data && !JSONFalse.data
extend [C04, C05, C06] "skipEmpty" (str, offset) {
  hint skip_at(view(str), offset, result)
  ensures sk: result == skip(view(str), offset)
}
extend [C04, C05, C06] "parseString" (str, offset) {
  hint tend_at(view(str), offset, result2) when !result1
  ensures tk: !result1 ==> result2 == tend(view(str), offset)
}
extend [C04, C05, C06] "(*sJsonParseSession).parseJSONValue" (s, str, offset) {
  ensures end: old(bconst()) && view(str)[offset] != 91 && view(str)[offset] != 123 && gv(view(str), offset) >= 0 ==> result2 == nil && result1 == gv(view(str), offset)
  ensures val: old(bconst()) && view(str)[offset] != 91 && view(str)[offset] != 123 && gv(view(str), offset) >= 0 ==> mv(view(str), offset, hash(), result0, old(next), next, 0-1)
}
extend [C04, C05, C06] "(*sJsonParseSession).parseDict" (s, str, offset) {
  ensures end: old(bconst()) && view(str)[offset] == 123 && gd(view(str), offset+1) >= 0 ==> result3 == nil && result1 == gd(view(str), offset+1) && result2 == 0 && fresh(result0) && 0 <= len(result0)
  ensures val: old(bconst()) && view(str)[offset] == 123 && gd(view(str), offset+1) >= 0 ==> (forall q Str :: {sm_find(result0, q)} {glast(view(str), offset+1, q)} (sm_has(result0, q) <==> glast(view(str), offset+1, q) >= 0) && (sm_has(result0, q) ==> glast(view(str), offset+1, q) > offset && mv(view(str), glast(view(str), offset+1, q), hash(), sm_get(result0, q), old(next), next, result0.base)))
  invariant o: old(bconst()) ==> bconst()
  invariant g: old(bconst()) && gd(view(str), offset+1) >= 0 ==> nodeId == 0 && (stop ? i == gd(view(str), offset+1) : gd(view(str), i) == gd(view(str), offset+1))
  invariant rem: old(bconst()) && gd(view(str), offset+1) >= 0 && !stop ==> (forall q Str :: {glast(view(str), offset+1, q)} glast(view(str), i, q) >= 0 ==> glast(view(str), offset+1, q) == glast(view(str), i, q))
  invariant has: old(bconst()) && gd(view(str), offset+1) >= 0 ==> (forall q Str :: {sm_find(smap, q)} {glast(view(str), offset+1, q)} stop || glast(view(str), i, q) < 0 ==> (sm_has(smap, q) <==> glast(view(str), offset+1, q) >= 0) && (sm_has(smap, q) ==> glast(view(str), offset+1, q) > offset && mv(view(str), glast(view(str), offset+1, q), hash(), sm_get(smap, q), old(next), next, smap.base)))
}
extend [C04, C05, C06] "(*sJsonParseSession).parseArray" (s, str, offset) {
  ensures end: old(bconst()) && view(str)[offset] == 91 && ga(view(str), offset+1) >= 0 ==> result2 == nil && result1 == ga(view(str), offset+1) && len(result0) == gcnt(view(str), offset+1) && (len(result0) > 0 ==> fresh(result0)) && 0 <= result0.base && result0.base < next
  ensures val: old(bconst()) && view(str)[offset] == 91 && ga(view(str), offset+1) >= 0 ==> (forall k Int :: {result0[k]} {gael(view(str), offset+1, k)} 0 <= k && k < len(result0) ==> gael(view(str), offset+1, k) > offset && mv(view(str), gael(view(str), offset+1, k), hash(), result0[k], old(next), next, result0.base))
  invariant o: old(bconst()) ==> bconst()
  invariant own: 0 <= len(list) && 0 <= list.base && list.base < next && (len(list) > 0 ==> fresh(list))
  invariant g: old(bconst()) && ga(view(str), offset+1) >= 0 ==> (stop ? i == ga(view(str), offset+1) : ga(view(str), i) == ga(view(str), offset+1))
  invariant cnt: old(bconst()) && ga(view(str), offset+1) >= 0 ==> gcnt(view(str), offset+1) == (stop ? len(list) : len(list) + gcnt(view(str), i))
  invariant rem: old(bconst()) && ga(view(str), offset+1) >= 0 && !stop ==> (forall m Int :: {gael(view(str), offset+1, m)} m >= len(list) ==> gael(view(str), offset+1, m) == gael(view(str), i, m - len(list)))
  invariant el: old(bconst()) && ga(view(str), offset+1) >= 0 ==> (forall m Int :: {list[m]} {gael(view(str), offset+1, m)} 0 <= m && m < len(list) ==> gael(view(str), offset+1, m) > offset && mv(view(str), gael(view(str), offset+1, m), hash(), list[m], old(next), next, list.base))
}
extend [C04, C05, C06] "(*JSONDict).parse" (this, s, str, offset) {
  ensures end: old(bconst()) && view(str)[offset] == 123 && gd(view(str), offset+1) >= 0 ==> result1 == nil && result0 == gd(view(str), offset+1)
  ensures val: old(bconst()) && view(str)[offset] == 123 && gd(view(str), offset+1) >= 0 ==> mv(view(str), offset, hash(), iface(this), this, next, 0-1)
}
extend [C04, C05, C06] "(*JSONArray).parse" (this, s, str, offset) {
  ensures end: old(bconst()) && view(str)[offset] == 91 && ga(view(str), offset+1) >= 0 ==> result1 == nil && result0 == ga(view(str), offset+1)
  ensures val: old(bconst()) && view(str)[offset] == 91 && ga(view(str), offset+1) >= 0 ==> mv(view(str), offset, hash(), iface(this), this, next, 0-1)
}
extend [C04, C05, C06] "ParseStream" (str, offset) {
  ensures end: old(bconst()) && gv(view(str), skip(view(str), offset)) >= 0 ==> result2 == nil && result1 == gv(view(str), skip(view(str), offset))
  ensures val: old(bconst()) && gv(view(str), skip(view(str), offset)) >= 0 ==> mv(view(str), skip(view(str), offset), hash(), result0, old(next), next, 0-1)
}
extend [C04, C05, C06] "Parse" (str) {
  ensures ok: old(bconst()) && gv(view(str), skip(view(str), 0)) >= 0 ==> result1 == nil && mv(view(str), skip(view(str), 0), hash(), result0, old(next), next, 0-1)
}
extend [C04, C05, C06] "ParseString" (str) {
  ensures ok: old(bconst()) && gv(str, skip(str, 0)) >= 0 ==> result1 == nil && mv(str, skip(str, 0), hash(), result0, old(next), next, 0-1)
}
property C04 {
  funcs "ParseStream", "Parse", "ParseString"
  lemmas mv_isdoc, mv_flat, mv_arr, mv_dict
  safety termination
}
