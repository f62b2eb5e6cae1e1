// ---- unmarshalling (C22, C23) ----
use docs, fmtth, rkinds, dyn_of, errth
// what a value of type t holds once d was stored there
macro holdsint(t, d, x, h, self) = (t == tyJI ? typeis(x, "jsonutils.JSONInt") && unbox(x, "jsonutils.JSONInt").data == d :
  (t == tyPJI || t == tyJO ? x == self :
  (t == tyJS ? typeis(x, "jsonutils.JSONString") && unbox(x, "jsonutils.JSONString").data == itoa(d) :
  (t == tyPJS ? jk(x) == 1 && select(hS(h), jr(x)) == itoa(d) :
  (t == tyTri ? x == (d == 0 ? triv("false") : triv("true")) :
  (isintk(tkind(t)) ? x == mkint(d) :
  (isuintk(tkind(t)) ? x == mkuint(d) :
  (isfltk(tkind(t)) ? x == mkflt(tkind(t), i2f(d)) :
  (tkind(t) == 1 ? x == mkbool(d != 0) :
  (tkind(t) == 24 ? x == mkstr(itoa(d)) :
  (tkind(t) == 20 ? x == iface(val(d, "int64")) : false)))))))))))
macro takesint(t, d) = t == tyJI || t == tyPJI || t == tyJO || t == tyJS || t == tyPJS || t == tyTri || plainty(t) && (isintk(tkind(t)) && fitsi(tkind(t), d) || isuintk(tkind(t)) && fitsu(tkind(t), d) || isfltk(tkind(t)) || tkind(t) == 1 || tkind(t) == 24 || tkind(t) == 20 && tassign(tyInt64, t))
func "(*JSONInt)._unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsint(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesint(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*JSONInt).unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsint(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesint(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
macro btext(d) = d ? "true" : "false"
macro holdsbool(t, d, x, h, self) = (t == tyJB ? typeis(x, "jsonutils.JSONBool") && (unbox(x, "jsonutils.JSONBool").data <==> d) :
  (t == tyPJB || t == tyJO ? x == self :
  (t == tyJS ? typeis(x, "jsonutils.JSONString") && unbox(x, "jsonutils.JSONString").data == btext(d) :
  (t == tyPJS ? jk(x) == 1 && select(hS(h), jr(x)) == btext(d) :
  (t == tyTri ? x == (d ? triv("true") : triv("false")) :
  (isintk(tkind(t)) ? x == mkint(d ? 1 : 0) :
  (isuintk(tkind(t)) ? x == mkuint(d ? 1 : 0) :
  (isfltk(tkind(t)) ? x == mkflt(tkind(t), i2f(d ? 1 : 0)) :
  (tkind(t) == 1 ? x == mkbool(d) :
  (tkind(t) == 24 ? x == mkstr(btext(d)) :
  (tkind(t) == 20 ? x == iface(val(d, "bool")) : false)))))))))))
macro takesbool(t, d) = t == tyJB || t == tyPJB || t == tyJO || t == tyJS || t == tyPJS || t == tyTri || plainty(t) && (isintk(tkind(t)) || isuintk(tkind(t)) || isfltk(tkind(t)) || tkind(t) == 1 || tkind(t) == 24 || tkind(t) == 20 && tassign(tyBool, t))
func "(*JSONBool)._unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsbool(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesbool(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*JSONBool).unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsbool(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesbool(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
// the value truncated, which is the int64 of it when that is in range
macro initof(d) = !fnan(d) && !flt(d, i2f(0-9223372036854775807-1)) && flt(d, i2f(9223372036854775807+1))
macro inutof(d) = flt(i2f(0-1), d) && flt(d, i2f(9223372036854775807+9223372036854775807+2))
macro holdsfloat(t, d, x, h, self) = (t == tyJF ? typeis(x, "jsonutils.JSONFloat") && unbox(x, "jsonutils.JSONFloat").data == d :
  (t == tyPJF || t == tyJO ? x == self :
  (t == tyJS ? typeis(x, "jsonutils.JSONString") && unbox(x, "jsonutils.JSONString").data == f6(d) :
  (t == tyPJS ? jk(x) == 1 && select(hS(h), jr(x)) == f6(d) :
  (t == tyJI ? typeis(x, "jsonutils.JSONInt") && (initof(d) ==> unbox(x, "jsonutils.JSONInt").data == f2i(d)) :
  (t == tyPJI ? jk(x) == 2 && (initof(d) ==> select(hI(h), jr(x)) == f2i(d)) :
  (t == tyJB ? typeis(x, "jsonutils.JSONBool") && (initof(d) ==> (unbox(x, "jsonutils.JSONBool").data <==> f2i(d) != 0)) :
  (t == tyTri ? (initof(d) ==> x == (f2i(d) != 0 ? triv("true") : triv("false"))) :
  (isintk(tkind(t)) ? x == mkint(f2i(d)) :
  (isuintk(tkind(t)) ? x == mkuint(f2i(d)) :
  (isfltk(tkind(t)) ? x == mkflt(tkind(t), d) :
  (tkind(t) == 1 ? x == mkbool(!feq(d, flt_zero)) :
  (tkind(t) == 24 ? x == mkstr(f6(d)) :
  (tkind(t) == 20 ? x == iface(val(d, "float64")) : false))))))))))))))
macro takesfloat(t, d) = t == tyJF || t == tyPJF || t == tyJO || t == tyJS || t == tyPJS || t == tyJI || t == tyPJI || t == tyJB || t == tyTri || plainty(t) && (isintk(tkind(t)) && initof(d) && fitsi(tkind(t), f2i(d)) || isuintk(tkind(t)) && inutof(d) && fitsu(tkind(t), f2i(d)) || isfltk(tkind(t)) && !(tkind(t) == 13 && fover32(d)) || tkind(t) == 1 || tkind(t) == 24 || tkind(t) == 20 && tassign(tyFloat64, t))
func "(*JSONFloat)._unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsfloat(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesfloat(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*JSONFloat).unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) ==> under(where(), val) && holdsfloat(tbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesfloat(tbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
// the strings that stand for true and false, and the number a string is written as
use docs, fmtth, rkinds, dyn_of, errth, strconv, curr
macro yes(s) = let l = lower(s) in l == "true" || l == "yes" || l == "on" || l == "1"
macro no(s) = let l = lower(s) in l == "false" || l == "no" || l == "off" || l == "0"
macro number(t) = plainty(t) && (isintk(tkind(t)) || isuintk(tkind(t)) || isfltk(tkind(t)))
macro storesstring(t, d) = !(number(t) && d == "")
macro holdsstring(t, d, x, h, self) = (t == tyJS ? typeis(x, "jsonutils.JSONString") && unbox(x, "jsonutils.JSONString").data == d :
  (t == tyPJS || t == tyJO ? x == self :
  (t == tyJB ? typeis(x, "jsonutils.JSONBool") && (unbox(x, "jsonutils.JSONBool").data <==> yes(d)) :
  (t == tyPJB ? jk(x) == 4 && (select(hB(h), jr(x)) <==> yes(d)) :
  (t == tyTri ? x == (yes(d) ? triv("true") : (no(d) ? triv("false") : triv(""))) :
  (t == tyTime ? typeis(x, "time.Time") :
  (isintk(tkind(t)) ? x == mkint(pint(norm(d))) :
  (isuintk(tkind(t)) ? x == mkuint(puint(norm(d))) :
  (isfltk(tkind(t)) ? x == mkflt(tkind(t), tkind(t) == 13 ? pf32val(norm(d)) : pfval(norm(d))) :
  (tkind(t) == 1 ? x == mkbool(tobool(d)) :
  (tkind(t) == 24 ? x == mkstr(d) :
  (tkind(t) == 20 ? x == iface(val(d, "string")) : false))))))))))))
macro takesstring(t, d) = t == tyJS || t == tyPJS || t == tyJO || t == tyJB || t == tyPJB || t == tyTri || t == tyTime || plainty(t) && (number(t) && d == ""
   || isintk(tkind(t)) && pintok(norm(d)) && fitsi(tkind(t), pint(norm(d))) || isuintk(tkind(t)) && puintok(norm(d)) && fitsu(tkind(t), puint(norm(d))) || isfltk(tkind(t)) && (tkind(t) == 13 ? pf32ok(norm(d)) : pfok(norm(d))) || tkind(t) == 1 || tkind(t) == 24 || tkind(t) == 20 && tassign(tyString, t))
func "(*JSONString)._unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) && storesstring(sbase(rtyp(val)), old(this.data)) ==> under(where(), val) && holdsstring(sbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesstring(sbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil && !number(sbase(rtyp(val))) ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*JSONString).unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  ensures stored: result == nil && nostd(val) && storesstring(sbase(rtyp(val)), old(this.data)) ==> under(where(), val) && holdsstring(sbase(rtyp(val)), old(this.data), what(), hash(), iface(this))
  ensures takes: nostd(val) ==> (result == nil <==> takesstring(sbase(rtyp(val)), old(this.data)))
  ensures mismatch: nostd(val) && result != nil && !number(sbase(rtyp(val))) ==> mismatch(result)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "normalizeCurrencyString" (currency) {
  ensures n: result == norm(currency)
  modifies nothing
}
func "tryStdUnmarshal" (s, jo, v, f) {
  inline
}
func "IsImplementStdUnmarshaler" (v) {
  requires own: rown(v)
  requires nonpanic: rset(v)
  ensures std: nostd(v) ==> result == nil
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "indirectStdUnmarshaler" (v) {
  requires own: rown(v)
  requires nonpanic: rset(v)
  ensures std: nostd(v) ==> result == nil
  invariant own: rown(v) || isjty(rtyp(v))
  invariant own0: rown(v0)
  invariant v: rset(v) || rexp(v) && rtyp(v) != nil && tkind(rtyp(v)) == 22 && !select(nilg(), v)
  invariant nostd: nostd(v0) ==> nostd(v)
  invariant v0: haveAddr ==> rset(v0)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
extern "json.Unmarshaler.UnmarshalJSON" (u, b) {
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
// ---- containers: what unmarshalling leaves alone ----
use docs, fmtth, rkinds, dyn_of, errth, strconv, curr
macro svals(s) = s != nil && s.objectMap != nil
iface "JSONObject.unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires d: isdoc(hash(), next, this)
  requires types: types()
  requires s: svals(s)
  requires nonpanic: rset(val)
  except "*jsonutils.sJSONPointer"
  ensures s: svals(s)
  ensures stored: result == nil && nostd(val) ==> let d = jr(this) in let h = old(hash()) in
      (jk(this) == 2 ==> under(where(), val) && holdsint(tbase(rtyp(val)), select(hI(h), d), what(), hash(), this))
      && (jk(this) == 4 ==> under(where(), val) && holdsbool(tbase(rtyp(val)), select(hB(h), d), what(), hash(), this))
      && (jk(this) == 3 ==> under(where(), val) && holdsfloat(tbase(rtyp(val)), select(hF(h), d), what(), hash(), this))
      && (jk(this) == 1 && storesstring(sbase(rtyp(val)), select(hS(h), d)) ==> under(where(), val) && holdsstring(sbase(rtyp(val)), select(hS(h), d), what(), hash(), this))
  ensures takes: nostd(val) ==> let d = jr(this) in let h = old(hash()) in
      (jk(this) == 2 ==> (result == nil <==> takesint(tbase(rtyp(val)), select(hI(h), d))))
      && (jk(this) == 4 ==> (result == nil <==> takesbool(tbase(rtyp(val)), select(hB(h), d))))
      && (jk(this) == 3 ==> (result == nil <==> takesfloat(tbase(rtyp(val)), select(hF(h), d))))
      && (jk(this) == 1 ==> (result == nil <==> takesstring(sbase(rtyp(val)), select(hS(h), d))))
  ensures mismatch: nostd(val) && result != nil ==> (2 <= jk(this) && jk(this) <= 4 || jk(this) == 1 && !number(sbase(rtyp(val))) ==> mismatch(result))
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "(*JSONValue).unmarshalValue" (this, s, val) {
  requires own: rown(val)
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*JSONArray)._unmarshalValue" (this, s, val) {
  ensures slice: result == nil && tkind(rtyp(val)) == 20 && rtyp(val) != tyJO ==> where() == val && typeis(what(), "[]jsonutils.JSONObject") && (let d = unbox(what(), "[]jsonutils.JSONObject") in cap(d) == 0 || fresh(d))
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  requires s: svals(s)
  ensures s: svals(s)
  invariant t: tvown()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "(*JSONDict)._unmarshalValue" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  requires s: svals(s)
  ensures s: svals(s)
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "(*JSONDict).unmarshalMap" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  requires s: svals(s)
  ensures s: svals(s)
  invariant t: tvown()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "(*JSONDict).unmarshalStruct" (this, s, val) {
  requires own: rown(val)
  requires nonpanic: this != nil && rset(val)
  requires d: isdoc(hash(), next, iface(this))
  requires types: types()
  requires s: svals(s)
  ensures s: svals(s)
  invariant t: tvown()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "setStructFieldAt" (s, key, v, fieldValues, keyIndexMap, visited) {
  requires own: fown(fieldValues)
  requires d: isdoc(hash(), next, v)
  requires types: types()
  requires s: svals(s)
  ensures s: svals(s)
  invariant t: tvown()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
func "callStructAfterUnmarshal" (val) {
  requires t: tvown()
  ensures t: tvown()
  invariant t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur")
}
func "(*sJsonUnmarshalSession).saveNodeValue" (s, nodeId, val) {
  requires own: rown(val)
  requires s: svals(s)
  ensures s: svals(s)
  invariant t: tvown()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value")
}
func "(*sJsonUnmarshalSession).setPointerValue" (s, nodeId, val) {
  requires own: rown(val)
  requires s: svals(s)
  ensures s: svals(s)
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), map(s.objectMap), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value")
}
func "jsonUnmarshal" (jo, o, keys) {
  requires own: rnew(o)
  requires d: isdoc(hash(), next, jo)
  requires types: types()
  requires t: tvown()
  ensures t: tvown()
  modifies all("glob$reflect.where"), all("glob$reflect.what"), all("glob$reflect.nil"), all("glob$reflect.cur"), all("fld$sJsonNodeValues.nodeValue"), all("fld$sJsonNodeValues.nodeValueSet"), all("fld$sJsonNodeValues.targetValues"), all("mem$reflect.Value"), all("mapd$string.bool"), all("mapv$string.bool"), all("mapl$string.bool")
}
property C22 {
  bounded "Unmarshal of scalars"
  funcs "(*JSONInt)._unmarshalValue", "(*JSONInt).unmarshalValue", "(*JSONBool)._unmarshalValue", "(*JSONBool).unmarshalValue", "(*JSONFloat)._unmarshalValue", "(*JSONFloat).unmarshalValue", "(*JSONString)._unmarshalValue", "(*JSONString).unmarshalValue"
  safety
}
property C23 {
  bounded "Unmarshal"
  funcs "DeepCopy", "JSONObject.unmarshalValue", "jsonUnmarshal", "(*sJsonUnmarshalSession).setPointerValue"
}
