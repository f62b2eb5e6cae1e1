// ---- Go scalars to documents (C21) ----
use docs, fmtth
theory floattext `
(declare-fun tzero (O_time.Time) Bool)
(declare-fun isotime (O_time.Time) Str)
`
extern "(time.Time).IsZero" (t) {
  use floattext
  ensures z: result <==> tzero(t)
  modifies nothing
}
extern "timeutils.FullIsoTime" (t) {
  use floattext
  ensures z: result == isotime(t)
  modifies nothing
}
use docs, fmtth, floattext
macro omitzero(info, oe) = info != nil && info.OmitZero && oe
macro omitempty(info, oe) = info != nil && info.OmitEmpty && oe
macro omitfalse(info, oe) = info != nil && info.OmitFalse && oe
macro asstring(info) = info != nil && info.ForceString
func "marshalInt64" (val, info, omitEmpty) {
  ensures drop: val == 0 && old(omitzero(info, omitEmpty)) ==> result == nil
  ensures str: !(val == 0 && old(omitzero(info, omitEmpty))) && old(asstring(info)) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == itoa(val)
  ensures int: !(val == 0 && old(omitzero(info, omitEmpty))) && !old(asstring(info)) ==> jk(result) == 2 && select(hI(hash()), jr(result)) == val
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalFloat64" (val, info, bit, omitEmpty) {
  ensures drop: feq(val, flt_zero) && old(omitzero(info, omitEmpty)) ==> result == nil
  ensures str: !(feq(val, flt_zero) && old(omitzero(info, omitEmpty))) && old(asstring(info)) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == f6(val)
  ensures flt: !(feq(val, flt_zero) && old(omitzero(info, omitEmpty))) && !old(asstring(info)) ==> jk(result) == 3 && select(hF(hash()), jr(result)) == val
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalFloat32" (val, info, bit, omitEmpty) {
  ensures drop: feq(val, flt_zero) && old(omitzero(info, omitEmpty)) ==> result == nil
  ensures str: !(feq(val, flt_zero) && old(omitzero(info, omitEmpty))) && old(asstring(info)) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == f6(val)
  ensures flt: !(feq(val, flt_zero) && old(omitzero(info, omitEmpty))) && !old(asstring(info)) ==> jk(result) == 3 && select(hF(hash()), jr(result)) == val
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalBoolean" (val, info, omitEmpty) {
  requires consts: 0 < JSONTrue && JSONTrue < next && 0 < JSONFalse && JSONFalse < next && JSONTrue.data && !JSONFalse.data
  ensures drop: !val && old(omitfalse(info, omitEmpty)) ==> result == nil
  ensures str: !(!val && old(omitfalse(info, omitEmpty))) && old(asstring(info)) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == (val ? "true" : "false")
  ensures bool: !(!val && old(omitfalse(info, omitEmpty))) && !old(asstring(info)) ==> jk(result) == 4 && (select(hB(hash()), jr(result)) <==> val)
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalString" (val, info, omitEmpty) {
  ensures drop: val == "" && old(omitempty(info, omitEmpty)) ==> result == nil
  ensures str: !(val == "" && old(omitempty(info, omitEmpty))) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == val
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalTime" (val, info, omitEmpty) {
  ensures drop: tzero(val) && old(omitempty(info, omitEmpty)) ==> result == nil
  ensures zero: tzero(val) && !old(omitempty(info, omitEmpty)) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == ""
  ensures text: !tzero(val) ==> jk(result) == 1 && select(hS(hash()), jr(result)) == isotime(val)
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
func "marshalTristate" (val, info, omitEmpty) {
  requires consts: 0 < JSONTrue && JSONTrue < next && 0 < JSONFalse && JSONFalse < next && JSONTrue.data && !JSONFalse.data
  ensures yes: val == "true" ==> jk(result) == 4 && select(hB(hash()), jr(result))
  ensures no: val == "false" ==> jk(result) == 4 && !select(hB(hash()), jr(result))
  ensures none: val != "true" && val != "false" ==> (omitEmpty ? result == nil : jk(result) == 7)
  ensures alloc: result != nil && jk(result) != 7 ==> 0 < jr(result) && jr(result) < next
  modifies nothing
}
// ---- the dispatch over the kinds of Go values ----
theory sdocs : docs, fmtth, rkinds, floattext ` `
use docs, fmtth, rkinds, dyn_of, errth, floattext, sdocs
macro mtypes() = JSONIntType == tyJI && JSONFloatType == tyJF && JSONBoolType == tyJB && JSONStringType == tyJS && JSONArrayType == tyJA && JSONDictType == tyJD
  && JSONIntPtrType == tyPJI && JSONFloatPtrType == tyPJF && JSONBoolPtrType == tyPJB && JSONStringPtrType == tyPJS && JSONArrayPtrType == tyPJA && JSONDictPtrType == tyPJD
  && JSONObjectType == tyJO && comp("glob$gotypes.TimeType") == tyTime && comp("glob$tristate.TriStateType") == tyTri
  && comp("glob$gotypes.StringType") == tyString && comp("glob$gotypes.Int64Type") == tyInt64 && comp("glob$gotypes.Float32Type") == tyFloat32 && comp("glob$gotypes.Float64Type") == tyFloat64
macro mconsts() = 0 < JSONTrue && JSONTrue < next && 0 < JSONFalse && JSONFalse < next && JSONTrue != nil && JSONFalse != nil && JSONTrue.data && !JSONFalse.data
// the nodes a session keeps are there, and belong to it
macro tnode(t, j) = val(at(mem(t), t.off, j), "*jsonutils.sJsonPointerNode")
macro msess(s) = s != nil && s.nodeMap != nil && s.objectTrace != nil
  && (let t = s.objectTrace.trace in 0 <= len(t) && (forall j Int :: {at(mem(t), t.off, j)} 0 <= j && j < len(t) ==> tnode(t, j) != nil))
macro numout(r, d, str, h) = str ? jk(r) == 1 && select(hS(h), jr(r)) == itoa(d) : jk(r) == 2 && select(hI(h), jr(r)) == d
macro isflt64(r, d, str, h) = str ? jk(r) == 1 && select(hS(h), jr(r)) == f6(d) : jk(r) == 3 && select(hF(h), jr(r)) == d
macro istext(r, d, h) = jk(r) == 1 && select(hS(h), jr(r)) == d
// fields and elements that are Go scalars
macro plainval(v) = nostdm(v) && rtyp(v) != tyJO && !(tkind(rtyp(v)) == 20 && select(nilg(), v))
macro fieldok(v, j) = !fign(cur(), v, j) && !fdep(cur(), v, j) && plainval(rfld(cur(), v, j))
macro fscalar(v, j, oe, r) = scalar(select(cur(), rfld(cur(), v, j)), oe, fomz(cur(), v, j) && oe, fome(cur(), v, j) && oe, fomf(cur(), v, j) && oe, fstr(cur(), v, j), r, hash())
macro pair(p, q) = val(at(mem(p), p.off, q), "jsonutils.JSONPair")
// r is the document of the Go scalar x; nothing is said of the rest
spec named sdoc(h H, b Int, x Iface, u `O_time.Time`, oe Bool, oz Bool, om Bool, of Bool, str Bool, r Iface) Bool = let t = dyn(x) in let k = tkind(t) in
  (plainty(t) && (isintk(k) || isuintk(k) && fitsi(6, iiv(x))) ==> (iiv(x) == 0 && oz ? r == nil : numout(r, iiv(x), str, h) && 0 < jr(r) && jr(r) < b))
  && (plainty(t) && isfltk(k) ==> (feq(ifv(x), flt_zero) && oz ? r == nil : isflt64(r, ifv(x), str, h) && 0 < jr(r) && jr(r) < b))
  && (plainty(t) && k == 1 ==> (!ibv(x) && of ? r == nil : (str ? istext(r, ibv(x) ? "true" : "false", h) : jk(r) == 4 && (select(hB(h), jr(r)) <==> ibv(x))) && 0 < jr(r) && jr(r) < b))
  && (plainty(t) && k == 24 ==> (isv(x) == "" && om ? r == nil : istext(r, isv(x), h) && 0 < jr(r) && jr(r) < b))
  && (t == tyTri ==> (isv(x) == "true" ? jk(r) == 4 && select(hB(h), jr(r)) && 0 < jr(r) && jr(r) < b : (isv(x) == "false" ? jk(r) == 4 && !select(hB(h), jr(r)) && 0 < jr(r) && jr(r) < b : (oe ? r == nil : jk(r) == 7))))
  && (t == tyTime ==> (tzero(u) ? (om ? r == nil : istext(r, "", h) && 0 < jr(r) && jr(r) < b) : istext(r, isotime(u), h) && 0 < jr(r) && jr(r) < b))
spec named sdmark(q Int) Bool = true
// the kinds of value it speaks of
spec named spoken(x Iface) Bool = let t = dyn(x) in let k = tkind(t) in plainty(t) && (isintk(k) || isuintk(k) && fitsi(6, iiv(x)) || isfltk(k) || k == 1 || k == 24) || t == tyTri || t == tyTime
macro scalar(x, oe, oz, om, of, str, r, h) = sdoc(h, next, x, unbox(x, "time.Time"), oe, oz, om, of, str, r)
lemma sdoc_frames(g H, h H, b Int, c Int) {
  requires b <= c
  requires forall r Int :: {select(hS(h), r)} 0 <= r && r < b ==> select(hS(h), r) == select(hS(g), r)
  requires forall r Int :: {select(hI(h), r)} 0 <= r && r < b ==> select(hI(h), r) == select(hI(g), r)
  requires forall r Int :: {select(hF(h), r)} 0 <= r && r < b ==> select(hF(h), r) == select(hF(g), r)
  requires forall r Int :: {select(hB(h), r)} 0 <= r && r < b ==> select(hB(h), r) == select(hB(g), r)
  ensures forall x Iface, u `O_time.Time`, oe Bool, oz Bool, om Bool, of Bool, str Bool, r Iface :: {sdoc(h, c, x, u, oe, oz, om, of, str, r)} sdoc(g, b, x, u, oe, oz, om, of, str, r) ==> sdoc(h, c, x, u, oe, oz, om, of, str, r)
}
extern "log.Errorf" (f, args) {
  modifies nothing
}
func "(*sJsonPointerTrace).find" (t, inf) {
  requires t: t != nil && 0 <= len(t.trace) && (let u = t.trace in forall j Int :: {at(mem(u), u.off, j)} 0 <= j && j < len(u) ==> tnode(u, j) != nil)
  modifies all("fld$sJsonPointerNode.refcnt")
}
func "(*sJsonMarshalSession).newJsonPointer" (s, inf) {
  requires s: msess(s)
  ensures s: msess(s)
  ensures p: result != nil && fresh(result)
  modifies map(s.nodeMap), s.nodeIndex, s.objectTrace.trace, all("mem$_jsonutils.sJsonPointerNode")
}
func "(*sJsonMarshalSession).setJsonObject" (s, ptr, obj) {
  requires s: msess(s)
  requires p: ptr != nil
  ensures s: msess(s)
  modifies ptr.node, s.objectTrace.trace
}
func "(*sJsonMarshalSession).marshalSlice" (s, val, info, omitEmpty) {
  requires nonpanic: rtyp(val) != nil && rexp(val) && (tkind(rtyp(val)) == 17 || tkind(rtyp(val)) == 23)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  invariant s: msess(s)
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession).marshalMap" (s, val, info, omitEmpty) {
  requires nonpanic: rtyp(val) != nil && rexp(val) && (tkind(rtyp(val)) == 21)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  invariant s: msess(s)
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession).marshalStruct" (s, val, info, omitEmpty) {
  requires nonpanic: rtyp(val) != nil && rexp(val) && (tkind(rtyp(val)) == 25)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  invariant s: msess(s)
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession).struct2JSONPairs" (s, val, omitEmpty) {
  requires nonpanic: rtyp(val) != nil && rexp(val)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  invariant s: msess(s)
  ensures fields: forall j Int :: {rfld(cur(), val, j)} 0 <= j && j < rnfld(cur(), val) && fieldok(val, j) && spoken(select(cur(), rfld(cur(), val, j))) ==> fscalar(val, j, omitEmpty, nil) || (exists q Int :: {sdmark(q)} {at(mem(result), result.off, q)} sdmark(q) && 0 <= q && q < len(result) && pair(result, q).key == fname(cur(), val, j) && fscalar(val, j, omitEmpty, pair(result, q).val))
  callhint "(*sJsonMarshalSession).marshalValue" sdoc_frames(old(hash()), hash(), old(next), next)
  invariant loop 0 fields: forall j Int :: {rfld(cur(), val, j)} 0 <= j && j < ix && fieldok(val, j) && spoken(select(cur(), rfld(cur(), val, j))) ==> fscalar(val, j, omitEmpty, nil) || (exists q Int :: {sdmark(q)} {at(mem(objPairs), objPairs.off, q)} sdmark(q) && 0 <= q && q < len(objPairs) && pair(objPairs, q).key == fname(cur(), val, j) && fscalar(val, j, omitEmpty, pair(objPairs, q).val))
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession).marshalValue" (s, objValue, info, omitEmpty) {
  requires nonpanic: rtyp(objValue) != nil && rexp(objValue)
  requires held: tkind(rtyp(objValue)) != 20 ==> dyn(select(cur(), objValue)) == rtyp(objValue)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  ensures nil: nostdm(objValue) && tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue)) ==> (omitEmpty ? result == nil : result == iface(JSONNull))
  ensures scalar: nostdm(objValue) && rtyp(objValue) != tyJO && !(tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue))) ==> scalar(old(select(cur(), objValue)), omitEmpty, old(omitzero(info, omitEmpty)), old(omitempty(info, omitEmpty)), old(omitfalse(info, omitEmpty)), old(asstring(info)), result, hash())
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession).marshalValueWithObjectMap" (s, objValue, info, omitEmpty) {
  requires nonpanic: rtyp(objValue) != nil && rexp(objValue)
  requires held: tkind(rtyp(objValue)) != 20 ==> dyn(select(cur(), objValue)) == rtyp(objValue)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  ensures nil: nostdm(objValue) && tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue)) ==> (omitEmpty ? result == nil : result == iface(JSONNull))
  ensures scalar: nostdm(objValue) && rtyp(objValue) != tyJO && !(tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue))) ==> scalar(old(select(cur(), objValue)), omitEmpty, old(omitzero(info, omitEmpty)), old(omitempty(info, omitEmpty)), old(omitfalse(info, omitEmpty)), old(asstring(info)), result, hash())
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "(*sJsonMarshalSession)._marshalValue" (s, objValue, info, omitEmpty) {
  requires nonpanic: rtyp(objValue) != nil && rexp(objValue)
  requires held: tkind(rtyp(objValue)) != 20 ==> dyn(select(cur(), objValue)) == rtyp(objValue)
  requires types: mtypes()
  requires s: msess(s)
  requires consts: mconsts()
  ensures s: msess(s)
  ensures nil: nostdm(objValue) && tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue)) ==> (omitEmpty ? result == nil : result == iface(JSONNull))
  ensures scalar: nostdm(objValue) && rtyp(objValue) != tyJO && !(tkind(rtyp(objValue)) == 20 && old(select(nilg(), objValue))) ==> scalar(old(select(cur(), objValue)), omitEmpty, old(omitzero(info, omitEmpty)), old(omitempty(info, omitEmpty)), old(omitfalse(info, omitEmpty)), old(asstring(info)), result, hash())
  modifies map(s.nodeMap), all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node")
}
func "newJsonMarshalSession" () {
  ensures s: msess(result) && fresh(result) && fresh(result.nodeMap) && fresh(result.objectTrace)
  modifies nothing
}
func "(*sJsonMarshalSession).setAllNodeId" (s) {
  requires s: msess(s)
  modifies all("fld$JSONDict.nodeId")
}
func "Marshal" (obj) {
  requires types: mtypes()
  requires consts: mconsts()
  ensures null: obj == nil ==> result == iface(JSONNull)
  ensures scalar: obj != nil && nostdi(obj) && spoken(obj) ==> sdoc(hash(), next, obj, unbox(obj, "time.Time"), true, false, false, false, false, result) || dyn(obj) == tyTri && result == iface(JSONNull)
  callhint "(*sJsonMarshalSession).setAllNodeId" sdoc_frames(old(hash()), hash(), old(next), next)
  modifies all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node"), all("fld$JSONDict.nodeId")
}
func "MarshalAll" (obj) {
  requires types: mtypes()
  requires consts: mconsts()
  ensures null: obj == nil ==> result == iface(JSONNull)
  ensures scalar: obj != nil && nostdi(obj) && spoken(obj) ==> sdoc(hash(), next, obj, unbox(obj, "time.Time"), false, false, false, false, false, result) || dyn(obj) == tyTri && result == iface(JSONNull)
  callhint "(*sJsonMarshalSession).setAllNodeId" sdoc_frames(old(hash()), hash(), old(next), next)
  modifies all("fld$sJsonMarshalSession.nodeIndex"), all("fld$sJsonPointerTrace.trace"), all("mem$_jsonutils.sJsonPointerNode"), all("fld$sJsonPointerNode.refcnt"), all("fld$sJSONPointer.node"), all("fld$JSONDict.nodeId")
}
property C21 {
  bounded "values behind pointers, in maps and in slices of mixed kinds"
  lemmas sdoc_frames
  funcs "Marshal", "MarshalAll", "newJsonMarshalSession", "(*sJsonMarshalSession).setAllNodeId", "(*sJsonPointerTrace).find", "(*sJsonMarshalSession).newJsonPointer", "(*sJsonMarshalSession).setJsonObject", "(*sJsonMarshalSession).marshalValue", "(*sJsonMarshalSession).marshalValueWithObjectMap", "(*sJsonMarshalSession)._marshalValue", "(*sJsonMarshalSession).marshalSlice", "(*sJsonMarshalSession).marshalMap", "(*sJsonMarshalSession).marshalStruct", "(*sJsonMarshalSession).struct2JSONPairs", "marshalInt64", "marshalFloat64", "marshalFloat32", "marshalBoolean", "marshalString", "marshalTime", "marshalTristate"
  trust "JSONObject.String: d"
  safety
  nosafety "(*sJsonMarshalSession).marshalValue", "(*sJsonMarshalSession).setAllNodeId"
}
