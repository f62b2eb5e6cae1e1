package main

// Verification-condition context: SMT sorts for Go types, heap components,
// preamble assembly, contract-expression evaluation.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxLen = "281474976710656" // 2^48: no Go object is larger on amd64

type SV struct {
	T    string // SMT term
	Sort string
	Go   types.Type // may be nil
	Addr *Addr      // address value (translator use)
	Tup  []SV
	Clo  *Closure
	Glob *ssa.Global
}

type Addr struct {
	comp  string
	ref   string
	idx   string // "" unless memory element
	off   string // idx = off + k for slice elements
	k     string
	path  []pathEl
	typ   types.Type // type of the addressed object
	esort string     // sort of the element stored in comp
	arr   bool
}

type pathEl struct {
	st  types.Type // struct type
	fld int        // -1: array index
	idx string
}

type State struct {
	h map[string]string
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]string, len(s.h))}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

type Item struct {
	text string
	cand int // >=0: assertion active only while candidate alive (already guarded)
}

type Obl struct {
	Name  string // stable name
	Kind  string
	Pos   string
	At    int // number of items that precede it
	Guard string
	Goal  string
	Cand  int // >=0 when it is an invariant-candidate obligation
	Fn    string
	Meas  []*Cand // termination: any surviving measure discharges it
	Why   string  // set when undischargeable by construction (unsupported)
	// results
	Status string // unsat / sat / unknown / timeout
	Solver string
	Time   float64
	Out    string
}

type VC struct {
	db            *SpecDB
	w             *World
	unit          string
	prop          *Property
	items         []string
	obls          []*Obl
	cands         []*Cand
	comps         map[string]string
	compOrd       []string
	n             int
	structs       map[string]*types.Struct // sort name -> struct
	structOrd     []string
	opaques       map[string]bool
	boxes         map[string]string // box sort set: sort -> name
	lits          map[string]string
	litOrd        []string
	flits         map[string]string
	tags          map[string]int
	tagNames      []string
	extFuns       map[string]string
	theories      map[string]bool
	lemmas        map[string]bool
	usedContracts map[string]bool
	scratch       int
	robust        bool
	metaBudget    int
	trusted       map[string]bool
	unsupported   []string
	noContract    map[string]bool
	preComps      map[string]string
	preOrd        []string
	curLemma      string
	h0            string
	mentioned     map[string]bool
	trigSort      map[string]string
	inlined       map[string]bool
	globAllocs    []string
	extOrd        []string
	mw            map[*ssa.Function]map[string]bool
	headTxt       string
	solverErr     string
	cover         string
	coverPre      int
	ats           map[string]bool
}

// at: element k of the window starting at o of array a
func (vc *VC) at(a, o, k, esort string) string {
	if vc.ats == nil {
		vc.ats = map[string]bool{}
	}
	vc.ats[esort] = true
	return "(" + atName(esort) + " " + a + " " + o + " " + k + ")"
}

func atName(esort string) string {
	return "at_" + sanitize(strings.NewReplacer("(", "", ")", "", " ", "_").Replace(esort))
}

type Cand struct {
	ID      int
	Name    string // activation constant
	Desc    string
	Loop    string
	Alive   bool
	User    bool
	Meta    bool // binding of a name that did not resolve
	Measure bool
	Obls    []*Obl
}

func newVC(w *World, db *SpecDB, unit string, prop *Property) *VC {
	vc := &VC{db: db, w: w, unit: unit, prop: prop, comps: map[string]string{}, structs: map[string]*types.Struct{}, opaques: map[string]bool{}, boxes: map[string]string{},
		lits: map[string]string{}, flits: map[string]string{}, tags: map[string]int{}, extFuns: map[string]string{}, theories: map[string]bool{}, lemmas: map[string]bool{}, usedContracts: map[string]bool{}, trusted: map[string]bool{}, noContract: map[string]bool{}, inlined: map[string]bool{}}
	vc.tag("<nil>")
	for _, t := range []string{"JSONString", "JSONInt", "JSONFloat", "JSONBool", "JSONArray", "JSONDict", "JSONValue", "sJSONPointer"} {
		vc.tag("*jsonutils." + t)
	}
	// plain Go values: tags 9 to 14
	for _, t := range []string{"int64", "bool", "float64", "string", "[]interface{}", "map[string]interface{}"} {
		vc.tag(t)
	}
	if t := w.typeByName("sortedmap.sItem"); t != nil {
		vc.sortOf(t)
	}
	return vc
}

func (vc *VC) emit(f string, a ...interface{}) {
	if vc.scratch > 0 {
		return
	}
	vc.items = append(vc.items, fmt.Sprintf(f, a...))
}

func (vc *VC) fresh(prefix, sort string) string {
	vc.n++
	n := sanitize(prefix) + "!" + strconv.Itoa(vc.n)
	vc.emit("(declare-const %s %s)", n, sort)
	return n
}

func (vc *VC) def(prefix, sort, term string) string {
	if isAtom(term) {
		return term
	}
	n := vc.fresh(prefix, sort)
	vc.emit("(assert (= %s %s))", n, term)
	return n
}

func (vc *VC) assume(guard, f string) {
	if f == "true" || f == "" {
		return
	}
	if guard == "true" || guard == "" {
		vc.emit("(assert %s)", f)
	} else {
		vc.emit("(assert (=> %s %s))", guard, f)
	}
}

var atomRE = regexp.MustCompile(`^[^\s()]+$`)

func isAtom(s string) bool { return atomRE.MatchString(s) }

var sanRE = regexp.MustCompile(`[^A-Za-z0-9_.$@]`)

func sanitize(s string) string {
	s = sanRE.ReplaceAllString(s, "_")
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		s = "v" + s
	}
	return s
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "" && x != "true" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			return "true"
		}
		if x != "" && x != "false" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return "(not " + x + ")"
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" || a == "false" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if a == b {
		return a
	}
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func intLit(i int64) string { return smtInt(big.NewInt(i)) }

// ---- sorts ----

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	i := strings.LastIndexByte(p.Path(), '/')
	return p.Path()[i+1:]
}

var anyRE = regexp.MustCompile(`\bany\b`)

func typeName(t types.Type) string {
	return anyRE.ReplaceAllString(types.TypeString(t, func(p *types.Package) string { return shortPkg(p) }), "interface{}")
}

func (vc *VC) isAnalysed(p *types.Package) bool {
	return p != nil && vc.w.analysed[p.Path()]
}

func (vc *VC) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		case u.Kind() == types.Invalid:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return "(Array Int " + vc.sortOf(u.Elem()) + ")"
	case *types.Struct:
		return vc.structSort(t, u)
	case *types.Tuple:
		return "Int"
	}
	return "Int"
}

// sorts of library types that a theory mentions
var opaqueRE = regexp.MustCompile(`\bO_[A-Za-z0-9_.]+`)

func (vc *VC) structSort(t types.Type, u *types.Struct) string {
	if n, ok := t.(*types.Named); ok && !vc.isAnalysed(n.Obj().Pkg()) && !plainStruct[typeName(t)] {
		s := "O_" + sanitize(typeName(t))
		vc.opaques[s] = true
		return s
	}
	if a, ok := t.(*types.Alias); ok {
		return vc.structSort(types.Unalias(a), u)
	}
	s := "St_" + sanitize(typeName(t))
	if vc.structs[s] == nil {
		vc.structs[s] = u
		for i := 0; i < u.NumFields(); i++ {
			vc.sortOf(u.Field(i).Type())
		}
		vc.structOrd = append(vc.structOrd, s)
	}
	return s
}

func isOpaqueStruct(vc *VC, t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return !vc.isAnalysed(n.Obj().Pkg()) && !plainStruct[typeName(t)]
}

// library structs whose fields are all exported and read directly
var plainStruct = map[string]bool{"reflect.StructField": true}

func fieldSel(ssort string, u *types.Struct, i int) string {
	return ssort + "." + sanitize(u.Field(i).Name()) + "@" + strconv.Itoa(i)
}

// heap component for field i of struct type t (object behind a pointer)
func (vc *VC) fieldComp(t types.Type, i int) string {
	u := t.Underlying().(*types.Struct)
	name := typeName(t)
	if shortPkg(namedPkg(t)) == "jsonutils" {
		name = strings.TrimPrefix(name, "jsonutils.")
	}
	c := "fld$" + sanitize(name) + "." + sanitize(u.Field(i).Name())
	vc.comp(c, "(Array Int "+vc.sortOf(u.Field(i).Type())+")")
	return c
}

func namedPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (vc *VC) memComp(elem types.Type) string {
	c := "mem$" + sanitize(strings.ReplaceAll(typeName(elem), "uint8", "byte"))
	vc.comp(c, "(Array Int (Array Int "+vc.sortOf(elem)+"))")
	return c
}

func (vc *VC) cellComp(t types.Type) string {
	c := "cell$" + sanitize(typeName(t))
	vc.comp(c, "(Array Int "+vc.sortOf(t)+")")
	return c
}

// declare a heap component named in a contract
func (vc *VC) ensureComp(n string) bool {
	if _, ok := vc.comps[n]; ok {
		return true
	}
	if s := knownComps[n]; s != "" {
		vc.comp(n, s)
		return true
	}
	tn := func(s string) string {
		if strings.HasPrefix(s, "_") {
			return "*" + s[1:]
		}
		return s
	}
	switch {
	case strings.HasPrefix(n, "fld$"):
		i := strings.LastIndexByte(n, '.')
		if i < 0 {
			return false
		}
		t := vc.w.typeByName(n[4:i])
		if t == nil {
			return false
		}
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for k := 0; k < u.NumFields(); k++ {
			if u.Field(k).Name() == n[i+1:] {
				return vc.fieldComp(t, k) == n
			}
		}
	case strings.HasPrefix(n, "mem$"):
		if strings.HasPrefix(n, "mem$[]") {
			if t := vc.w.typeByName(tn(n[6:])); t != nil {
				return vc.memComp(types.NewSlice(t)) == sanitize(n)
			}
			return false
		}
		if t := vc.w.typeByName(tn(n[4:])); t != nil {
			return vc.memComp(t) == n
		}
	case strings.HasPrefix(n, "cell$"):
		if t := vc.w.typeByName(tn(n[5:])); t != nil {
			return vc.cellComp(t) == n
		}
	}
	return false
}

func (vc *VC) comp(name, sort string) {
	if _, ok := vc.comps[name]; !ok {
		vc.comps[name] = sort
		vc.compOrd = append(vc.compOrd, name)
	}
}

func elemSort(arr string) string { // (Array Int X) -> X
	if !strings.HasPrefix(arr, "(Array Int ") {
		if sx := parseSexps(arr); len(sx) == 1 && len(sx[0].L) == 3 {
			return sx[0].L[2].String()
		}
	}
	return strings.TrimSuffix(strings.TrimPrefix(arr, "(Array Int "), ")")
}

func (vc *VC) tag(name string) int {
	if t, ok := vc.tags[name]; ok {
		return t
	}
	t := len(vc.tags)
	vc.tags[name] = t
	vc.tagNames = append(vc.tagNames, name)
	return t
}

func (vc *VC) tagOfType(t types.Type) int { return vc.tag(typeName(t)) }

func (vc *VC) lit(s string) string {
	if s == "" {
		return "sempty"
	}
	if l, ok := vc.lits[s]; ok {
		return l
	}
	n := "lit!" + strconv.Itoa(len(vc.lits))
	vc.lits[s] = n
	vc.litOrd = append(vc.litOrd, s)
	return n
}

func (vc *VC) flit(v constant.Value) string {
	f, _ := constant.Float64Val(constant.ToFloat(v))
	k := strconv.FormatFloat(f, 'g', -1, 64)
	if f == 0 {
		return "flt_zero"
	}
	if l, ok := vc.flits[k]; ok {
		return l
	}
	if f == math.Trunc(f) && math.Abs(f) < 1e20 {
		b, _ := new(big.Float).SetFloat64(f).Int(nil)
		n := "(i2f " + b.String() + ")"
		if b.Sign() < 0 {
			n = "(i2f (- " + new(big.Int).Neg(b).String() + "))"
		}
		vc.flits[k] = n
		return n
	}
	n := "flt!" + strconv.Itoa(len(vc.flits))
	vc.flits[k] = n
	return n
}

func (vc *VC) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsInteger != 0:
			return "0"
		case u.Info()&types.IsFloat != 0:
			return "flt_zero"
		case u.Info()&types.IsString != 0:
			return "sempty"
		}
		return "0"
	case *types.Slice:
		return "nilslice"
	case *types.Interface:
		return "inil"
	case *types.Array:
		return vc.zeroArr(u.Elem())
	case *types.Struct:
		s := vc.sortOf(t)
		if strings.HasPrefix(s, "O_") {
			return "zero_" + s
		}
		if u.NumFields() == 0 {
			return "mk_" + s
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, vc.zero(u.Field(i).Type()))
		}
		return "(mk_" + s + " " + strings.Join(fs, " ") + ")"
	}
	return "0"
}

func (vc *VC) zeroArr(elem types.Type) string {
	s := vc.sortOf(elem)
	switch s {
	case "Int", "Bool", "Iface", "Slice":
		return "((as const (Array Int " + s + ")) " + vc.zero(elem) + ")"
	}
	n := vc.fresh("zarr", "(Array Int "+s+")")
	vc.emit("(assert (forall ((i Int)) (! (= (select %s i) %s) :pattern ((select %s i)))))", n, vc.zero(elem), n)
	return n
}

func intRange(b *types.Basic) (lo, hi string, bits int, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		bits, signed = 64, true
	}
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return smtInt(new(big.Int).Neg(h)), smtInt(new(big.Int).Sub(h, one)), bits, true
	}
	h := new(big.Int).Lsh(one, uint(bits))
	return "0", smtInt(new(big.Int).Sub(h, one)), bits, false
}

// facts that hold of any Go value of type t in a state whose allocation
// frontier is next
func (vc *VC) typeok(term string, t types.Type, next string) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi, _, _ := intRange(u)
			return "(and (<= " + lo + " " + term + ") (<= " + term + " " + hi + "))"
		}
		if u.Info()&types.IsString != 0 {
			return "(<= (slen " + term + ") " + maxLen + ")"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "(and (<= 0 " + term + ") (< " + term + " " + next + "))"
	case *types.Slice:
		return "(sliceok " + term + " " + next + ")"
	case *types.Interface:
		s := "(ifaceok " + term + " " + next + ")"
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "JSONObject" {
			s = and(s, "(or (= "+term+" inil) (and ((_ is iref) "+term+") (isJSONTag (it "+term+"))))")
		}
		return s
	case *types.Struct:
		s := vc.sortOf(t)
		if strings.HasPrefix(s, "O_") {
			return "true"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, vc.typeok("("+fieldSel(s, u, i)+" "+term+")", u.Field(i).Type(), next))
		}
		return and(fs...)
	}
	return "true"
}

// ---- preamble ----

const basePrelude = `
(declare-sort Str 0)
(declare-sort Flt 0)
(declare-sort Fuel 0)
(declare-const LZ Fuel)
(declare-fun LS (Fuel) Fuel)
(declare-datatypes ((Slice 0)) (((mkslice (sbase Int) (soff Int) (sln Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iref (it Int) (ir Int)) (istr (ist Int) (isv Str)) (iint (iit Int) (iiv Int)) (ibool (ibt Int) (ibv Bool)) (iflt (ift Int) (ifv Flt)) (iopq (iot Int) (iov Int)))))
(define-fun itag ((x Iface)) Int (ite ((_ is iref) x) (it x) (ite ((_ is istr) x) (ist x) (ite ((_ is iint) x) (iit x) (ite ((_ is ibool) x) (ibt x) (ite ((_ is iflt) x) (ift x) (ite ((_ is iopq) x) (iot x) 0)))))))
(define-fun irefof ((x Iface)) Int (ite ((_ is iref) x) (ir x) 0))
(define-fun nilslice () Slice (mkslice 0 0 0 0))
(define-fun sliceok ((s Slice) (next Int)) Bool (and (<= 0 (sbase s)) (< (sbase s) next) (<= 0 (soff s)) (<= 0 (sln s)) (<= (sln s) (scap s)) (<= (+ (soff s) (scap s)) 281474976710656) (=> (= (sbase s) 0) (= s nilslice))))
(define-fun ifaceok ((x Iface) (next Int)) Bool (and (=> ((_ is iref) x) (and (<= 0 (ir x)) (< (ir x) next) (< 0 (it x)))) (=> (not (= x inil)) (< 0 (itag x)))))
(define-fun isJSONTag ((t Int)) Bool (and (<= 1 t) (<= t 8)))
(define-fun wrapS ((x Int) (h Int)) Int (ite (and (<= (- h) x) (< x h)) x (- (mod (+ x h) (* 2 h)) h)))
(define-fun wrapU ((x Int) (m Int)) Int (ite (and (<= 0 x) (< x m)) x (mod x m)))
(define-fun gdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun gmod ((a Int) (b Int)) Int (- a (* b (gdiv a b))))
(define-fun imin ((a Int) (b Int)) Int (ite (<= a b) a b))
(define-fun imax ((a Int) (b Int)) Int (ite (>= a b) a b))
(declare-fun bitand (Int Int) Int)
(declare-fun bitor (Int Int) Int)
(declare-fun bitxor (Int Int) Int)
(declare-fun shl (Int Int) Int)
(declare-fun shr (Int Int) Int)
; ---- byte strings ----
(declare-const sempty Str)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun sunit (Int) Str)
(declare-fun seqeq (Str Str) Bool)
(declare-fun sdiff (Str Str) Int)
(declare-fun strlt (Str Str) Bool)
(declare-fun seqof ((Array Int Int) Int Int) Str)
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (= (slen sempty) 0))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s sempty)) :pattern ((slen s)))))
(assert (forall ((s Str) (k Int)) (! (and (<= 0 (sat s k)) (<= (sat s k) 255)) :pattern ((sat s k)))))
(assert (forall ((b Int)) (! (= (slen (sunit b)) 1) :pattern ((sunit b)))))
(assert (forall ((b Int)) (! (=> (and (<= 0 b) (<= b 255)) (= (sat (sunit b) 0) b)) :pattern ((sunit b)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (k Int)) (! (and (=> (and (<= 0 k) (< k (slen a))) (= (sat (scat a b) k) (sat a k))) (=> (and (<= (slen a) k) (< k (+ (slen a) (slen b)))) (= (sat (scat a b) k) (sat b (- k (slen a)))))) :pattern ((sat (scat a b) k)))))
(assert (forall ((a Str)) (! (= (scat a sempty) a) :pattern ((scat a sempty)))))
(assert (forall ((a Str)) (! (= (scat sempty a) a) :pattern ((scat sempty a)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((a Str) (b Str)) (! (= (seqeq a b) (= a b)) :pattern ((seqeq a b)))))
(assert (forall ((a Str) (b Str)) (! (=> (not (seqeq a b)) (or (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b))))))) :pattern ((seqeq a b)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (seqof a o n)) n)) :pattern ((seqof a o n)))))
(declare-fun byteof (Int) Int)
@@AT@@
(assert (forall ((b Int)) (! (=> (and (<= 0 b) (<= b 255)) (= (byteof b) b)) :pattern ((byteof b)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n)) (= (sat (seqof a o n) k) (byteof (at_Int a o k)))) :pattern ((sat (seqof a o n) k)))))
(assert (forall ((a Str)) (! (not (strlt a a)) :pattern ((strlt a a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))))
(assert (forall ((a Str) (b Str)) (! (or (strlt a b) (= a b) (strlt b a)) :pattern ((strlt a b)))))
(assert (forall ((a Str) (b Str)) (! (not (and (strlt a b) (strlt b a))) :pattern ((strlt a b)))))
; ---- floats (uninterpreted; IEEE equality) ----
(declare-const flt_zero Flt)
(declare-fun feq (Flt Flt) Bool)
(declare-fun flt (Flt Flt) Bool)
(declare-fun fnan (Flt) Bool)
(declare-fun i2f (Int) Flt)
(declare-fun f2i (Flt) Int)
(declare-fun f64to32 (Flt) Flt)
(assert (forall ((a Flt) (b Flt)) (! (= (feq a b) (feq b a)) :pattern ((feq a b)))))
(assert (forall ((a Flt) (b Flt) (c Flt)) (! (=> (and (feq a b) (feq b c)) (feq a c)) :pattern ((feq a b) (feq b c)))))
(assert (forall ((a Flt)) (! (= (feq a a) (not (fnan a))) :pattern ((fnan a)))))
(assert (forall ((a Flt)) (! (= (feq a a) (not (fnan a))) :pattern ((feq a a)))))
(assert (forall ((a Flt) (b Flt)) (! (=> (feq a b) (and (not (fnan a)) (not (fnan b)))) :pattern ((feq a b)))))
(assert (not (fnan flt_zero)))
(assert (forall ((i Int)) (! (not (fnan (i2f i))) :pattern ((i2f i)))))
(assert (= (i2f 0) flt_zero))
; float comparison is a strict order; a value that truncates to a non-zero integer is not zero
(assert (forall ((a Flt) (b Flt)) (! (not (and (flt a b) (flt b a))) :pattern ((flt a b)))))
(assert (forall ((a Flt) (b Flt)) (! (not (and (flt a b) (feq a b))) :pattern ((flt a b)))))
(assert (forall ((a Flt)) (! (=> (feq a flt_zero) (= (f2i a) 0)) :pattern ((f2i a)))))
`

// H: the document part of the heap, bundled so that spec functions can take it.
var hFields = [][2]string{
	{"fld$JSONString.data", "(Array Int Str)"},
	{"fld$JSONInt.data", "(Array Int Int)"},
	{"fld$JSONFloat.data", "(Array Int Flt)"},
	{"fld$JSONFloat.bit", "(Array Int Int)"},
	{"fld$JSONBool.data", "(Array Int Bool)"},
	{"fld$JSONArray.data", "(Array Int Slice)"},
	{"fld$JSONDict.data", "(Array Int Slice)"},
	{"fld$JSONDict.nodeId", "(Array Int Int)"},
	{"mem$jsonutils.JSONObject", "(Array Int (Array Int Iface))"},
	{"mem$sortedmap.sItem", "(Array Int (Array Int St_sortedmap.sItem))"},
}
var hSel = []string{"hS", "hI", "hF", "hFb", "hB", "hA", "hD", "hN", "hMO", "hMI"}

func (vc *VC) useTheory(n string) {
	if vc.theories[n] {
		return
	}
	if l := vc.db.Lemmas[n]; l != nil {
		if vc.lemmas[n] {
			return
		}
		vc.lemmas[n] = true
		if l.Axiom {
			vc.trusted["axiom "+n+" in contracts/"+l.File] = true
		}
		for _, u := range l.Use {
			vc.useTheory(u)
		}
		return
	}
	th := vc.db.Theories[n]
	if th == nil {
		fatal("unknown theory or lemma %q (in %s)", n, vc.unit)
	}
	for _, d := range th.Deps {
		vc.useTheory(d)
	}
	vc.theories[n] = true
	txt := th.Raw
	for _, f := range th.Funs {
		for _, p := range f.Params {
			txt += " " + p.Sort
		}
	}
	for _, m := range stRE.FindAllStringSubmatch(txt, -1) {
		if t := vc.w.typeByName(m[1]); t != nil {
			vc.sortOf(t)
		}
	}
}

var stRE = regexp.MustCompile(`St_((?:jsonutils|sortedmap)\.\w+)`)

func (vc *VC) needH() {
	for _, f := range hFields {
		vc.comp(f[0], f[1])
	}
}

func (vc *VC) hTerm(st *State) string {
	vc.needH()
	s := "(mkH"
	for _, f := range hFields {
		s += " " + vc.get(st, f[0])
	}
	s += ")"
	// give the solver the question whether everything that existed at entry is
	// unchanged, so that facts about documents carry over
	if vc.theories["doc"] && vc.h0 != "" && s != vc.h0 && !vc.mentioned[s] && vc.scratch == 0 {
		vc.mentioned[s] = true
		vc.emit("(assert (mention (agree %s %s next!0)))", vc.h0, s)
	}
	return s
}

func (vc *VC) get(st *State, comp string) string {
	if t, ok := st.h[comp]; ok {
		return t
	}
	// first reference: initial version (all comps are pre-registered in the
	// second pass, so this only happens in the discovery pass)
	n := sanitize(comp) + "!0"
	st.h[comp] = n
	return n
}

func (vc *VC) preamble() string {
	var b strings.Builder
	b.WriteString(strings.Replace(basePrelude, "@@AT@@", atDecl("Int"), 1))
	var ops []string
	for n := range vc.theories {
		if t := vc.db.Theories[n]; t != nil {
			for _, o := range opaqueRE.FindAllString(t.Raw, -1) {
				vc.opaques[o] = true
			}
		}
	}
	for o := range vc.opaques {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n(declare-const zero_%s %s)\n", o, o, o)
	}
	for _, s := range vc.structOrd {
		u := vc.structs[s]
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk_%s", s, s)
		for i := 0; i < u.NumFields(); i++ {
			fmt.Fprintf(&b, " (%s %s)", fieldSel(s, u, i), vc.sortOf(u.Field(i).Type()))
		}
		b.WriteString("))))\n")
	}
	b.WriteString(";;ATS\n")
	b.WriteString("(declare-datatypes ((H 0)) (((mkH")
	for i, f := range hFields {
		fmt.Fprintf(&b, " (%s %s)", hSel[i], f[1])
	}
	b.WriteString("))))\n")
	for n := range vc.theories {
		if t := vc.db.Theories[n]; t != nil && strings.Contains(t.Raw, "unbox_Slice") {
			vc.boxes["Slice"] = "Slice"
		}
	}
	var bs []string
	for s := range vc.boxes {
		bs = append(bs, s)
	}
	sort.Strings(bs)
	for _, s := range bs {
		n := vc.boxes[s]
		fmt.Fprintf(&b, "(declare-fun box_%s (%s) Int)\n(declare-fun unbox_%s (Int) %s)\n(assert (forall ((v %s)) (! (= (unbox_%s (box_%s v)) v) :pattern ((box_%s v)))))\n", n, s, n, s, s, n, n, n)
	}
	b.WriteString(";;COMPS\n")
	for i, n := range vc.tagNames {
		fmt.Fprintf(&b, "; tag %d = %s\n", i, n)
	}
	b.WriteString(";;LITS\n")
	// theories in file order
	for _, n := range vc.db.TheoryOrd {
		if vc.theories[n] {
			th := vc.db.Theories[n]
			fmt.Fprintf(&b, "; ---- theory %s ----\n%s\n", n, th.Raw)
			b.WriteString(vc.specFuncs(th))
		}
	}
	var ks []string
	for k := range vc.flits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(vc.flits[k], "(") {
			fmt.Fprintf(&b, "(assert (not (feq %s flt_zero)))\n", vc.flits[k])
			continue
		}
		fmt.Fprintf(&b, "(declare-const %s Flt) (assert (not (fnan %s))) (assert (not (feq %s flt_zero)))\n", vc.flits[k], vc.flits[k], vc.flits[k])
	}
	lem := ""
	var ls []string
	for l := range vc.lemmas {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		if l != vc.curLemma {
			lem += vc.lemmaAxiom(vc.db.Lemmas[l])
		}
	}
	var lb strings.Builder
	for _, s := range vc.litOrd {
		n := vc.lits[s]
		fmt.Fprintf(&lb, "(declare-const %s Str) ; %q\n(assert (= (slen %s) %d))\n", n, s, n, len(s))
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&lb, "(assert (= (sat %s %d) %d))\n", n, i, s[i])
		}
	}
	b.WriteString(lem)
	for _, k := range vc.extOrd {
		b.WriteString(vc.extFuns[k] + "\n")
	}
	var as []string
	ab := ""
	vc.at("", "", "", "Int")
	vc.at("", "", "", "Iface")
	vc.at("", "", "", "St_sortedmap.sItem")
	for s := range vc.ats {
		as = append(as, s)
	}
	sort.Strings(as)
	for _, s := range as {
		if s != "Int" {
			ab += atDecl(s)
		}
	}
	return strings.Replace(strings.Replace(b.String(), ";;ATS\n", ab, 1), ";;LITS\n", lb.String(), 1)
}

func atDeclOnly(s string) string {
	return fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) %s)\n", atName(s), s, s)
}

func atDecl(s string) string {
	n := atName(s)
	return atDeclOnly(s) + fmt.Sprintf("(assert (forall ((a (Array Int %s)) (o Int) (k Int)) (! (= (%s a o k) (select a (+ o k))) :pattern ((%s a o k)))))\n", s, n, n) +
		fmt.Sprintf("(assert (forall ((a (Array Int %s)) (i Int) (v %s) (o Int) (k Int)) (! (= (%s (store a i v) o k) (ite (= (+ o k) i) v (%s a o k))) :pattern ((%s (store a i v) o k)))))\n", s, s, n, n, n)
}

// ---- spec functions ----

type sig struct {
	args []string
	ret  string
	heap bool
	fuel bool
	opq  bool
}

func (db *SpecDB) recursive(name string) bool {
	seen := map[string]bool{}
	var visit func(n string) bool
	find := func(n string) *SpecFunc {
		for _, t := range db.Theories {
			for _, f := range t.Funs {
				if f.Name == n {
					return f
				}
			}
		}
		return nil
	}
	visit = func(n string) bool {
		f := find(n)
		if f == nil {
			return false
		}
		var calls []string
		var walk func(e *Ex)
		walk = func(e *Ex) {
			if e.Op == "call" {
				calls = append(calls, e.Name)
			}
			for _, a := range e.Args {
				walk(a)
			}
		}
		walk(f.Body)
		for _, c := range calls {
			if c == name {
				return true
			}
			if !seen[c] {
				seen[c] = true
				if visit(c) {
					return true
				}
			}
		}
		return false
	}
	return visit(name)
}

var sigCache map[string]*sig

func (db *SpecDB) sig(name string) *sig {
	if sigCache == nil {
		sigCache = map[string]*sig{}
		base := &Theory{Raw: strings.Replace(basePrelude, "@@AT@@", atDecl("Int")+atDeclOnly("Iface")+atDeclOnly("St_sortedmap.sItem")+atDeclOnly("St_jsonutils.sTextNumber")+atDeclOnly("Str"), 1)}
		for i, f := range hFields {
			sigCache[hSel[i]] = &sig{args: []string{"H"}, ret: f[1]}
		}
		ths := []*Theory{base}
		for _, n := range db.TheoryOrd {
			ths = append(ths, db.Theories[n])
		}
		for _, t := range ths {
			for _, sx := range parseSexps(t.Raw) {
				if len(sx.L) == 0 {
					continue
				}
				switch sx.L[0].A {
				case "declare-fun":
					s := &sig{ret: sx.L[3].String()}
					for _, a := range sx.L[2].L {
						s.args = append(s.args, a.String())
					}
					sigCache[sx.L[1].A] = s
				case "declare-const":
					sigCache[sx.L[1].A] = &sig{ret: sx.L[2].String()}
				case "define-fun", "define-fun-rec":
					s := &sig{ret: sx.L[3].String()}
					for _, a := range sx.L[2].L {
						s.args = append(s.args, a.L[1].String())
					}
					sigCache[sx.L[1].A] = s
				case "declare-datatypes":
					for i, d := range sx.L[2].L {
						sort := sx.L[1].L[i].L[0].A
						for _, c := range d.L {
							if len(c.L) == 0 {
								sigCache[c.A] = &sig{ret: sort}
								continue
							}
							s := &sig{ret: sort}
							for _, f := range c.L[1:] {
								s.args = append(s.args, f.L[1].String())
								sigCache[f.L[0].A] = &sig{args: []string{sort}, ret: f.L[1].String()}
							}
							sigCache[c.L[0].A] = s
							sigCache["is_"+c.L[0].A] = &sig{args: []string{sort}, ret: "Bool"}
						}
					}
				}
			}
			for _, f := range t.Funs {
				s := &sig{ret: f.Ret, fuel: db.recursive(f.Name) || f.Opaque, opq: f.Opaque}
				for _, p := range f.Params {
					s.args = append(s.args, p.Sort)
				}
				sigCache[f.Name] = s
			}
		}
		for n, s := range sigCache {
			if len(s.args) > 0 && s.args[0] == "H" && !strings.HasPrefix(n, "h") {
				s.heap = true
			}
		}
	}
	return sigCache[name]
}

func (vc *VC) specFuncs(th *Theory) string {
	var decl, ax strings.Builder
	for _, f := range th.Funs {
		s := vc.db.sig(f.Name)
		env := &Env{vc: vc, vars: map[string]SV{}, spec: true}
		var ps, names, sorts []string
		for _, p := range f.Params {
			env.vars[p.Name] = SV{T: p.Name + "$", Sort: p.Sort}
			ps = append(ps, "("+p.Name+"$ "+p.Sort+")")
			names = append(names, p.Name+"$")
			sorts = append(sorts, p.Sort)
		}
		if s.heap {
			env.hterm = names[0]
		}
		if !s.fuel {
			body := env.eval(f.Body)
			if f.Named {
				fmt.Fprintf(&decl, "(declare-fun %s (%s) %s)\n", f.Name, strings.Join(sorts, " "), f.Ret)
				app := fmt.Sprintf("(%s %s)", f.Name, strings.Join(names, " "))
				fmt.Fprintf(&decl, "(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(ps, " "), app, body.T, app)
				continue
			}
			fmt.Fprintf(&decl, "(define-fun %s (%s) %s %s)\n", f.Name, strings.Join(ps, " "), f.Ret, body.T)
			continue
		}
		env.fuel = "ly$"
		body := env.eval(f.Body)
		fmt.Fprintf(&decl, "(declare-fun %s (Fuel %s) %s)\n", f.Name, strings.Join(sorts, " "), f.Ret)
		app := fmt.Sprintf("(%s (LS ly$) %s)", f.Name, strings.Join(names, " "))
		fmt.Fprintf(&ax, "(assert (forall ((ly$ Fuel) %s) (! (= %s %s) :pattern (%s))))\n", strings.Join(ps, " "), app, body.T, app)
		fmt.Fprintf(&ax, "(assert (forall ((ly$ Fuel) %s) (! (= %s (%s ly$ %s)) :pattern (%s))))\n", strings.Join(ps, " "), app, f.Name, strings.Join(names, " "), app)
	}
	return decl.String() + ax.String()
}

func (vc *VC) lemmaAxiom(l *Contract) string {
	if !l.Export {
		return ""
	}
	env := &Env{vc: vc, vars: map[string]SV{}, spec: true}
	var ps []string
	for i, p := range l.Params {
		env.vars[p] = SV{T: p + "$", Sort: l.PSorts[i]}
		ps = append(ps, "("+p+"$ "+l.PSorts[i]+")")
		if l.PSorts[i] == "H" {
			env.hterm = p + "$"
		}
	}
	var req, ens, trg []string
	for _, c := range l.Clauses {
		switch c.Kind {
		case "requires":
			req = append(req, env.eval(c.E).T)
		case "ensures":
			ens = append(ens, env.eval(c.E).T)
		}
	}
	env.lz = true
	for _, t := range l.Trig {
		trg = append(trg, env.eval(t).T)
	}
	return fmt.Sprintf("; lemma %s\n(assert (forall (%s) (! %s :pattern (%s))))\n", l.Key, strings.Join(ps, " "), imp(and(req...), and(ens...)), strings.Join(trg, " "))
}

// ---- s-expressions (for signatures) ----

type Sx struct {
	A string
	L []*Sx
}

func (s *Sx) String() string {
	if s.A != "" || s.L == nil {
		return s.A
	}
	var p []string
	for _, x := range s.L {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexps(src string) []*Sx {
	i := 0
	var parse func() *Sx
	skip := func() {
		for i < len(src) {
			if src[i] == ';' {
				for i < len(src) && src[i] != '\n' {
					i++
				}
			} else if strings.IndexByte(" \t\r\n", src[i]) >= 0 {
				i++
			} else {
				return
			}
		}
	}
	parse = func() *Sx {
		skip()
		if i >= len(src) {
			return nil
		}
		if src[i] == '(' {
			i++
			s := &Sx{L: []*Sx{}}
			for {
				skip()
				if i >= len(src) {
					fatal("unbalanced s-expression")
				}
				if src[i] == ')' {
					i++
					return s
				}
				s.L = append(s.L, parse())
			}
		}
		j := i
		for i < len(src) && strings.IndexByte(" \t\r\n();", src[i]) < 0 {
			i++
		}
		if i == j {
			fatal("unbalanced s-expression near %q", src[max(0, i-60):min(len(src), i+20)])
		}
		return &Sx{A: src[j:i]}
	}
	var out []*Sx
	for {
		s := parse()
		if s == nil {
			return out
		}
		out = append(out, s)
	}
}

// ---- contract-expression evaluation ----

type Env struct {
	vc      *VC
	vars    map[string]SV
	look    func(string) (SV, bool)
	cur     *State
	old     *State
	spec    bool   // inside a theory: no program state
	hterm   string // heap term to use for heap-implicit functions when spec
	fuel    string
	lz      bool // triggers match the unfuelled term
	inOld   bool
	loopPre *State
	preLook func(string) (SV, bool)
}

type evalErr struct{ msg string }

func (e evalErr) Error() string { return e.msg }

func (env *Env) fail(f string, a ...interface{}) {
	panic(evalErr{fmt.Sprintf(f, a...)})
}

func (env *Env) tryEval(e *Ex) (sv SV, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", x.msg)
				return
			}
			panic(r)
		}
	}()
	return env.eval(e), nil
}

func (env *Env) state() *State {
	return env.cur
}

func (env *Env) heapTerm() string {
	if env.spec {
		if env.hterm == "" {
			env.fail("heap-dependent function in heap-free context")
		}
		return env.hterm
	}
	return env.vc.hTerm(env.cur)
}

func (env *Env) eval(e *Ex) SV {
	vc := env.vc
	switch e.Op {
	case "int":
		v := new(big.Int)
		v.SetString(e.Name, 10)
		return SV{T: smtInt(v), Sort: "Int"}
	case "str":
		return SV{T: vc.lit(e.Name), Sort: "Str"}
	case "id":
		return env.ident(e.Name)
	case "old":
		if env.old == nil {
			env.fail("old() not available here")
		}
		n := *env
		n.cur = env.old
		return n.eval(e.Args[0])
	case "let":
		v := env.eval(e.Args[0])
		n := *env
		n.vars = map[string]SV{}
		for k, x := range env.vars {
			n.vars[k] = x
		}
		n.vars[e.Name] = v
		return n.eval(e.Args[1])
	case "ite":
		c, a, b := env.eval(e.Args[0]), env.eval(e.Args[1]), env.eval(e.Args[2])
		a.T = "(ite " + c.T + " " + a.T + " " + b.T + ")"
		return a
	case "un":
		a := env.eval(e.Args[0])
		if e.Name == "!" {
			return SV{T: not(a.T), Sort: "Bool"}
		}
		return SV{T: "(- " + a.T + ")", Sort: "Int"}
	case "bin":
		return env.bin(e)
	case "forall", "exists":
		n := *env
		n.vars = map[string]SV{}
		for k, x := range env.vars {
			n.vars[k] = x
		}
		var ps []string
		for _, v := range e.Vars {
			vc.n++
			nm := v.Name + "?" + strconv.Itoa(vc.n)
			s := v.Sort
			if s == "Ref" {
				s = "Int"
			}
			n.vars[v.Name] = SV{T: nm, Sort: s}
			ps = append(ps, "("+nm+" "+s+")")
		}
		body := n.eval(e.Args[0])
		pat := ""
		for _, tr := range e.Trig {
			var ts []string
			for _, t := range tr {
				v := n.eval(t)
				ts = append(ts, v.T)
				vc.noteTrig(v)
			}
			pat += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		b := body.T
		if pat != "" {
			b = "(! " + b + pat + ")"
		}
		return SV{T: "(" + e.Op + " (" + strings.Join(ps, " ") + ") " + b + ")", Sort: "Bool"}
	case "sel":
		x := env.eval(e.Args[0])
		return env.field(x, e.Name)
	case "idx":
		x := env.eval(e.Args[0])
		i := env.eval(e.Args[1])
		if x.Sort == "Str" {
			return SV{T: "(sat " + x.T + " " + i.T + ")", Sort: "Int"}
		}
		if x.Sort == "Slice" && x.Go != nil {
			el := x.Go.Underlying().(*types.Slice).Elem()
			c := vc.memComp(el)
			m := vc.get(env.cur, c)
			return SV{T: vc.at("(select "+m+" (sbase "+x.T+"))", "(soff "+x.T+")", i.T, vc.sortOf(el)), Sort: vc.sortOf(el), Go: el}
		}
		if strings.HasPrefix(x.Sort, "(Array ") {
			return SV{T: "(select " + x.T + " " + i.T + ")", Sort: elemSort(x.Sort)}
		}
		env.fail("cannot index %s of sort %s", e.Args[0], x.Sort)
	case "call":
		return env.call(e)
	}
	env.fail("cannot evaluate %s", e)
	return SV{}
}

func (env *Env) ident(n string) SV {
	if v, ok := env.vars[n]; ok {
		return v
	}
	switch n {
	case "true", "false":
		return SV{T: n, Sort: "Bool"}
	case "nilslice":
		return SV{T: n, Sort: "Slice"}
	case "nil":
		return SV{T: "inil", Sort: "Iface"}
	case "heap":
		return SV{T: env.heapTerm(), Sort: "H"}
	case "next":
		if !env.spec {
			return SV{T: env.vc.get(env.cur, "next"), Sort: "Int"}
		}
	}
	if env.look != nil {
		if v, ok := env.look(n); ok {
			return v
		}
	}
	if s := env.vc.db.sig(n); s != nil && len(s.args) == 0 {
		return SV{T: n, Sort: s.ret}
	}
	if !env.spec {
		if v, ok := env.vc.w.pkgObject(env.vc, n, env.cur); ok {
			return v
		}
	}
	env.fail("unknown name %s", n)
	return SV{}
}

func (env *Env) field(x SV, name string) SV {
	vc := env.vc
	if x.Go == nil {
		switch x.Sort {
		case "Slice":
			switch name {
			case "base":
				return SV{T: "(sbase " + x.T + ")", Sort: "Int"}
			case "off":
				return SV{T: "(soff " + x.T + ")", Sort: "Int"}
			case "cap":
				return SV{T: "(scap " + x.T + ")", Sort: "Int"}
			}
		}
		env.fail("field %s of value of sort %s", name, x.Sort)
	}
	t := x.Go
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			env.fail("field %s of %s", name, typeName(t))
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				c := vc.fieldComp(p.Elem(), i)
				return SV{T: "(select " + vc.get(env.cur, c) + " " + x.T + ")", Sort: vc.sortOf(st.Field(i).Type()), Go: st.Field(i).Type()}
			}
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return SV{T: "(" + fieldSel(vc.sortOf(t), st, i) + " " + x.T + ")", Sort: vc.sortOf(st.Field(i).Type()), Go: st.Field(i).Type()}
			}
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		x.Go = nil
		return env.field(x, name)
	}
	env.fail("no field %s in %s", name, typeName(t))
	return SV{}
}

func eqTerm(a, b, sort string) string {
	switch sort {
	case "Str":
		return "(seqeq " + a + " " + b + ")"
	case "JSeq":
		return "(jseqeq " + a + " " + b + ")"
	case "PSeq":
		return "(pseqeq " + a + " " + b + ")"
	}
	return "(= " + a + " " + b + ")"
}

func (env *Env) bin(e *Ex) SV {
	a, b := env.eval(e.Args[0]), env.eval(e.Args[1])
	B := func(t string) SV { return SV{T: t, Sort: "Bool"} }
	I := func(t string) SV { return SV{T: t, Sort: "Int"} }
	need := ""
	switch e.Name {
	case "==>", "<==>", "&&", "||":
		need = "Bool"
	case "<", "<=", ">", ">=", "+", "-", "*", "div", "mod":
		need = "Int"
		if a.Sort == "Str" && b.Sort == "Str" {
			need = "Str"
		}
	case "++":
		need = "Str"
	}
	if need != "" && (a.Sort != need || b.Sort != need) {
		env.fail("operands of %s in %s have sorts %s and %s", e.Name, e, a.Sort, b.Sort)
	}
	switch e.Name {
	case "==>":
		return B(imp(a.T, b.T))
	case "<==>":
		return B("(= " + a.T + " " + b.T + ")")
	case "&&":
		return B(and(a.T, b.T))
	case "||":
		return B(or(a.T, b.T))
	case "==", "!=":
		if a.Sort != b.Sort {
			if a.Sort == "Slice" && b.T == "inil" {
				b = SV{T: "nilslice", Sort: "Slice"}
			} else if a.Sort == "Int" && b.T == "inil" {
				b = SV{T: "0", Sort: "Int"}
			} else {
				env.fail("sort mismatch in %s: %s vs %s", e, a.Sort, b.Sort)
			}
		}
		t := eqTerm(a.T, b.T, a.Sort)
		if e.Name == "!=" {
			t = not(t)
		}
		return B(t)
	case "<", "<=", ">", ">=":
		if a.Sort == "Str" {
			if e.Name == "<" {
				return B("(strlt " + a.T + " " + b.T + ")")
			}
			if e.Name == ">" {
				return B("(strlt " + b.T + " " + a.T + ")")
			}
			env.fail("string comparison %s", e.Name)
		}
		return B("(" + e.Name + " " + a.T + " " + b.T + ")")
	case "+":
		if a.Sort == "Str" {
			return SV{T: "(scat " + a.T + " " + b.T + ")", Sort: "Str"}
		}
		return I("(+ " + a.T + " " + b.T + ")")
	case "++":
		return SV{T: "(scat " + a.T + " " + b.T + ")", Sort: "Str"}
	case "-", "*":
		return I("(" + e.Name + " " + a.T + " " + b.T + ")")
	case "div", "mod":
		return I("(" + e.Name + " " + a.T + " " + b.T + ")")
	}
	env.fail("operator %s", e.Name)
	return SV{}
}

func (env *Env) call(e *Ex) SV {
	vc := env.vc
	B := func(t string) SV { return SV{T: t, Sort: "Bool"} }
	arg := func(i int) SV {
		if i >= len(e.Args) {
			env.fail("missing argument in %s", e)
		}
		return env.eval(e.Args[i])
	}
	switch e.Name {
	case "len":
		x := arg(0)
		switch x.Sort {
		case "Str":
			return SV{T: "(slen " + x.T + ")", Sort: "Int"}
		case "Slice":
			return SV{T: "(sln " + x.T + ")", Sort: "Int"}
		case "JSeq":
			return SV{T: "(jlen " + x.T + ")", Sort: "Int"}
		case "PSeq":
			return SV{T: "(plen " + x.T + ")", Sort: "Int"}
		}
		env.fail("len of %s", x.Sort)
	case "view": // bytes of a []byte, string, or builder/buffer pointer
		x := arg(0)
		switch {
		case x.Sort == "Str":
			return x
		case x.Sort == "Slice" && x.Go != nil:
			el := x.Go.Underlying().(*types.Slice).Elem()
			if vc.sortOf(el) != "Int" {
				env.fail("view of %s", x.Go)
			}
			m := vc.get(env.cur, vc.memComp(el))
			n := "(sln " + x.T + ")"
			if len(e.Args) > 1 { // view(x, n): its first n bytes
				n = arg(1).T
			}
			return SV{T: fmt.Sprintf("(seqof (select %s (sbase %s)) (soff %s) %s)", m, x.T, x.T, n), Sort: "Str"}
		case x.Sort == "Int":
			vc.comp("gho$buf", "(Array Int Str)")
			return SV{T: "(select " + vc.get(env.cur, "gho$buf") + " " + x.T + ")", Sort: "Str"}
		}
		env.fail("view of %s", x.Sort)
	case "mem": // backing memory array of a slice
		x := arg(0)
		if x.Go == nil {
			env.fail("mem of untyped slice")
		}
		if _, ok := x.Go.Underlying().(*types.Slice); !ok {
			env.fail("mem of %s", x.Go)
		}
		el := x.Go.Underlying().(*types.Slice).Elem()
		m := vc.get(env.cur, vc.memComp(el))
		return SV{T: fmt.Sprintf("(select %s (sbase %s))", m, x.T), Sort: "(Array Int " + vc.sortOf(el) + ")"}
	case "comp": // comp("name"): raw heap component
		n := e.Args[0].Name
		if !vc.ensureComp(n) {
			env.fail("unknown component %s", n)
		}
		return SV{T: vc.get(env.cur, n), Sort: vc.comps[n]}
	case "fresh":
		x := arg(0)
		if x.Sort != "Int" && x.Sort != "Slice" && x.Sort != "Iface" {
			env.fail("fresh of %s", x.Sort)
		}
		old := vc.get(env.old, "next")
		return B("(and (>= " + refTerm(x) + " " + old + ") (< " + refTerm(x) + " " + vc.get(env.cur, "next") + "))")
	case "ref":
		x := arg(0)
		return SV{T: refTerm(x), Sort: "Int"}
	case "iface": // interface value of a typed program value
		x := arg(0)
		if x.Go == nil {
			env.fail("iface of untyped value")
		}
		return SV{T: vc.box(x), Sort: "Iface"}
	case "typeis": // typeis(x, "T")
		x := arg(0)
		if t := vc.w.typeByName(e.Args[1].Name); t == nil || typeName(t) != e.Args[1].Name {
			env.fail("typeis: no type %s", e.Args[1].Name)
		}
		return B(fmt.Sprintf("(= (itag %s) %d)", x.T, vc.tag(e.Args[1].Name)))
	case "implements": // implements(x, "T"): the dynamic type of x has the methods of interface type T
		x := arg(0)
		t := vc.w.typeByName(e.Args[1].Name)
		if t == nil {
			env.fail("unknown type %s", e.Args[1].Name)
		}
		return B(vc.typeTest(x.T, t))
	case "ptr": // ptr(x, "T"): payload of interface x viewed as *T
		x := arg(0)
		t := vc.w.typeByName(e.Args[1].Name)
		if t == nil {
			env.fail("unknown type %s", e.Args[1].Name)
		}
		r := x.T
		if x.Sort == "Iface" {
			r = "(ir " + x.T + ")"
		}
		return SV{T: r, Sort: "Int", Go: types.NewPointer(t)}
	case "val": // val(term, "T"): view a term as a Go value of type T
		x := arg(0)
		t := vc.w.typeByName(e.Args[1].Name)
		if t == nil {
			env.fail("unknown type %s", e.Args[1].Name)
		}
		if so := vc.sortOf(t); x.Sort != "" && so != x.Sort {
			env.fail("val: %s is not of sort %s", x.Sort, so)
		}
		x.Go = t
		return x
	case "cap":
		x := arg(0)
		if x.Sort != "Slice" {
			env.fail("cap of %s", x.Sort)
		}
		return SV{T: "(scap " + x.T + ")", Sort: "Int"}
	case "unbox": // unbox(x, "T"): the T an interface holds
		x := arg(0)
		t := vc.w.typeByName(e.Args[1].Name)
		if t == nil {
			env.fail("unknown type %s", e.Args[1].Name)
		}
		return SV{T: vc.unbox(x.T, t), Sort: vc.sortOf(t), Go: t}
	case "at": // at(array, offset, k)
		a, o, k := arg(0), arg(1), arg(2)
		if !strings.HasPrefix(a.Sort, "(Array Int ") {
			env.fail("at of %s", a.Sort)
		}
		es := elemSort(a.Sort)
		return SV{T: vc.at(a.T, o.T, k.T, es), Sort: es}
	case "pre": // value at loop entry
		if env.loopPre == nil {
			env.fail("pre() outside a loop invariant")
		}
		n := *env
		n.cur = env.loopPre
		n.look = env.preLook
		return n.eval(e.Args[0])
	case "hash": // heap bundle of the current state
		return SV{T: env.heapTerm(), Sort: "H"}
	case "is":
		x := arg(0)
		return B("((_ is " + e.Args[1].Name + ") " + x.T + ")")
	case "all": // and over args
		var xs []string
		for i := range e.Args {
			xs = append(xs, arg(i).T)
		}
		return B(and(xs...))
	case "store":
		a, i, v := arg(0), arg(1), arg(2)
		return SV{T: "(store " + a.T + " " + i.T + " " + v.T + ")", Sort: a.Sort}
	case "select":
		a, i := arg(0), arg(1)
		es := elemSort(a.Sort)
		if !strings.HasPrefix(a.Sort, "(Array Int ") {
			// (Array K V)
			sx := parseSexps(a.Sort)[0]
			es = sx.L[2].String()
		}
		return SV{T: "(select " + a.T + " " + i.T + ")", Sort: es}
	case "tagof":
		return SV{T: "(itag " + arg(0).T + ")", Sort: "Int"}
	case "mapdom", "mapval", "maplen":
		x := arg(0)
		mt, ok := x.Go.Underlying().(*types.Map)
		if !ok {
			env.fail("%s of non-map", e.Name)
		}
		d, v, l := vc.mapComps(mt)
		c := map[string]string{"mapdom": d, "mapval": v, "maplen": l}[e.Name]
		t := "(select " + vc.get(env.cur, c) + " " + x.T + ")"
		return SV{T: t, Sort: elemSort(vc.comps[c])}
	}
	if m := vc.db.Macros[e.Name]; m != nil {
		if len(m.Params) != len(e.Args) {
			env.fail("macro %s: wrong number of arguments", e.Name)
		}
		n := *env
		n.vars = map[string]SV{}
		for i, p := range m.Params {
			n.vars[p.Name] = env.eval(e.Args[i])
		}
		n.look = nil
		return n.eval(m.Body)
	}
	s := vc.db.sig(e.Name)
	if s == nil {
		env.fail("unknown function %s", e.Name)
	}
	var args []string
	if s.fuel {
		if env.fuel != "" {
			args = append(args, env.fuel)
		} else if s.opq && (vc.curLemma == "" || env.lz) {
			args = append(args, "LZ")
		} else {
			args = append(args, "(LS (LS (LS LZ)))")
		}
	}
	want := s.args
	explicit := len(e.Args) == len(want)
	if s.heap && !explicit {
		args = append(args, env.heapTerm())
		want = want[1:]
	}
	if len(want) != len(e.Args) {
		env.fail("%s: %d arguments, want %d", e.Name, len(e.Args), len(want))
	}
	for i := range e.Args {
		a := arg(i)
		if a.Sort != want[i] {
			if want[i] == "Int" && a.T == "inil" {
				a.T = "0"
			} else {
				env.fail("%s: argument %d has sort %s, want %s", e, i, a.Sort, want[i])
			}
		}
		args = append(args, a.T)
	}
	name := e.Name
	if strings.HasPrefix(name, "is_") {
		name = "(_ is " + name[3:] + ")"
	}
	if len(args) == 0 {
		return SV{T: name, Sort: s.ret}
	}
	return SV{T: "(" + name + " " + strings.Join(args, " ") + ")", Sort: s.ret}
}

func refTerm(x SV) string {
	switch x.Sort {
	case "Slice":
		return "(sbase " + x.T + ")"
	case "Iface":
		return "(irefof " + x.T + ")"
	}
	return x.T
}

var knownComps = map[string]string{
	"mem$interface__": "(Array Int (Array Int Iface))", "mapd$string.interface__": "(Array Int (Array Str Bool))", "mapv$string.interface__": "(Array Int (Array Str Iface))", "mapl$string.interface__": "(Array Int Int)",
	"gho$buf": "(Array Int Str)",
	"gho$log": "Int",
	// the last store made through reflection: the place, and the value
	"glob$reflect.where": "O_reflect.Value", "glob$reflect.what": "Iface",
	"mapd$string.bool": "(Array Int (Array Str Bool))", "mapv$string.bool": "(Array Int (Array Str Bool))", "mapl$string.bool": "(Array Int Int)",
	// which values made by reflection are nil
	"glob$reflect.nil": "(Array O_reflect.Value Bool)",
	// what they hold
	"glob$reflect.cur": "(Array O_reflect.Value Iface)",
	"glob$gotypes.StringType": "Iface", "glob$gotypes.Int64Type": "Iface", "glob$gotypes.Float32Type": "Iface", "glob$gotypes.Float64Type": "Iface",
	"glob$tristate.TriStateType": "Iface", "glob$tristate.TriStateTrueValue": "O_reflect.Value", "glob$tristate.TriStateFalseValue": "O_reflect.Value", "glob$tristate.TriStateNoneValue": "O_reflect.Value",
	"glob$gotypes.TimeType": "Iface", "glob$utils.TRUE_STRS": "Slice", "mem$string": "(Array Int (Array Int Str))",
}

// box a typed Go value into an interface
func (vc *VC) box(x SV) string {
	t := x.Go
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.T
	}
	tag := vc.tagOfType(t)
	switch s := vc.sortOf(t); {
	case s == "Str":
		return fmt.Sprintf("(istr %d %s)", tag, x.T)
	case s == "Bool":
		return fmt.Sprintf("(ibool %d %s)", tag, x.T)
	case s == "Flt":
		return fmt.Sprintf("(iflt %d %s)", tag, x.T)
	case s == "Int":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return fmt.Sprintf("(iint %d %s)", tag, x.T)
		}
		return fmt.Sprintf("(iref %d %s)", tag, x.T)
	default:
		if vc.boxes[s] == "" {
			vc.boxes[s] = sanitize(s)
		}
		return fmt.Sprintf("(iopq %d (box_%s %s))", tag, vc.boxes[s], x.T)
	}
}

func (vc *VC) unbox(x string, t types.Type) string {
	switch s := vc.sortOf(t); {
	case s == "Str":
		return "(isv " + x + ")"
	case s == "Bool":
		return "(ibv " + x + ")"
	case s == "Flt":
		return "(ifv " + x + ")"
	case s == "Int":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return "(iiv " + x + ")"
		}
		return "(ir " + x + ")"
	default:
		if vc.boxes[s] == "" {
			vc.boxes[s] = sanitize(s)
		}
		return fmt.Sprintf("(unbox_%s (iov %s))", vc.boxes[s], x)
	}
}

// constructor test an interface of dynamic type t must satisfy
func (vc *VC) ctorOf(t types.Type) string {
	switch s := vc.sortOf(t); {
	case s == "Str":
		return "istr"
	case s == "Bool":
		return "ibool"
	case s == "Flt":
		return "iflt"
	case s == "Int":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return "iint"
		}
		return "iref"
	}
	return "iopq"
}

func (vc *VC) mapComps(mt *types.Map) (dom, val, ln string) {
	n := sanitize(typeName(mt.Key()) + "." + typeName(mt.Elem()))
	ks, vs := vc.sortOf(mt.Key()), vc.sortOf(mt.Elem())
	dom, val, ln = "mapd$"+n, "mapv$"+n, "mapl$"+n
	vc.comp(dom, "(Array Int (Array "+ks+" Bool))")
	vc.comp(val, "(Array Int (Array "+ks+" "+vs+"))")
	vc.comp(ln, "(Array Int Int)")
	return
}

// inline macro bodies (for free-name analysis only)
func (db *SpecDB) expand(e *Ex) *Ex {
	n := *e
	n.Args = nil
	for _, a := range e.Args {
		n.Args = append(n.Args, db.expand(a))
	}
	if e.Op == "call" {
		if m := db.Macros[e.Name]; m != nil {
			ids := map[string]bool{}
			b := map[string]bool{}
			for _, p := range m.Params {
				b[p.Name] = true
			}
			freeIDs(db.expand(m.Body), b, ids)
			for k := range ids {
				n.Args = append(n.Args, &Ex{Op: "id", Name: k})
			}
		}
		if e.Name == "typeis" || e.Name == "implements" || e.Name == "unbox" || e.Name == "ptr" || e.Name == "val" || e.Name == "is" || e.Name == "comp" {
			// type-name arguments are strings, not identifiers
		}
	}
	return &n
}

var debugEval bool
