package jsonutils

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"yunion.io/x/pkg/errors"
	"yunion.io/x/pkg/tristate"
)

type gvNInt int16
type gvNUint uint8
type gvNStr string
type gvNBool bool
type gvNFloat float32
type gvStruct struct {
	A int
	B string
}

var gvTargets = []interface{}{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), false, "", gvNInt(0), gvNUint(0), gvNStr(""), gvNBool(false), gvNFloat(0), tristate.None}

var gvBad = []interface{}{gvStruct{}, map[string]int{}, make(chan int), func() {}, complex(1, 1), map[string]interface{}{}, [2]int{}}

func gvMismatch(err error) bool {
	return err != nil && (errors.Cause(err) == ErrTypeMismatch || strings.Contains(err.Error(), ErrTypeMismatch.Error()))
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random scalar documents into variables of every integer, unsigned, float, boolean, string and interface type (named, and behind up to three pointers), fresh or preset, at top level, in slices, maps and struct fields; distinct by (document, target)"
	for r.more() {
		var m *gvM
		for {
			m = r.scalar()
			if m.k != 'n' {
				break
			}
		}
		if r.rng.Intn(3) == 0 {
			m = &gvM{k: 's', s: []string{"12", "-7", "300", "70000", "1.5", "99999999999", "true", "FALSE", "On", "off", "yes", "no", "1", "0", "abc", "18446744073709551615", "9223372036854775807", "-9223372036854775808", "256", "65536", "-129", "1e39", "1e400", " true "}[r.rng.Intn(24)]}
		}
		t := gvTargets[r.rng.Intn(len(gvTargets))]
		typ := reflect.TypeOf(t)
		ptrs := r.rng.Intn(4)
		if ptrs > 1 && r.rng.Intn(2) == 0 {
			ptrs = 0
		}
		ft := typ
		for i := 0; i < ptrs; i++ {
			ft = reflect.PtrTo(ft)
		}
		place := r.rng.Intn(5)
		preset := r.rng.Intn(2) == 0
		in := fmt.Sprintf("%s into %s place %d preset %v", m.desc(), ft, place, preset)
		r.try(in, func() {
			o := r.doc(m)
			var v reflect.Value
			var err error
			got := func(x reflect.Value) reflect.Value {
				for x.Kind() == reflect.Ptr {
					if x.IsNil() {
						return reflect.Value{}
					}
					x = x.Elem()
				}
				return x
			}
			switch place {
			case 0, 1:
				x := reflect.New(ft)
				if preset {
					y := x.Elem()
					for y.Kind() == reflect.Ptr {
						y.Set(reflect.New(y.Type().Elem()))
						y = y.Elem()
					}
					switch y.Kind() {
					case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
						y.SetInt(77)
					case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
						y.SetUint(77)
					case reflect.Float32, reflect.Float64:
						y.SetFloat(77)
					case reflect.Bool:
						y.SetBool(true)
					case reflect.String:
						if typ != reflect.TypeOf(tristate.None) {
							y.SetString("preset")
						}
					}
				}
				err = o.Unmarshal(x.Interface())
				v = got(x)
			case 2:
				x := reflect.New(reflect.SliceOf(ft))
				err = NewArray(o).Unmarshal(x.Interface())
				if x.Elem().Len() == 1 {
					v = got(x.Elem().Index(0))
				}
			case 3:
				x := reflect.New(reflect.MapOf(reflect.TypeOf(""), ft))
				err = NewDict(JSONPair{key: "k", val: o}).Unmarshal(x.Interface())
				if e := x.Elem().MapIndex(reflect.ValueOf("k")); e.IsValid() {
					v = got(e)
				}
			case 4:
				x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: ft, Tag: `json:"f"`}}))
				err = NewDict(JSONPair{key: "f", val: o}).Unmarshal(x.Interface())
				v = got(x.Elem().Field(0))
			}
			// expected
			var ok bool
			var check func() bool
			k := typ.Kind()
			bits := typ.Bits
			switch {
			case typ == reflect.TypeOf(tristate.None):
				ok = true
				w := ""
				switch m.k {
				case 'i':
					w = fmt.Sprint(m.i != 0)
				case 'f':
					w = fmt.Sprint(math.Trunc(m.f) != 0)
					if m.f >= 1<<63 || m.f <= -(1<<63) {
						return
					}
				case 'b':
					w = fmt.Sprint(m.b)
				case 's':
					switch strings.ToLower(m.s) {
					case "true", "yes", "on", "1":
						w = "true"
					case "false", "no", "off", "0":
						w = "false"
					}
				}
				check = func() bool { return v.String() == w }
			case k >= reflect.Int && k <= reflect.Int64:
				var w int64
				switch m.k {
				case 'i':
					w, ok = m.i, true
				case 'b':
					ok = true
					if m.b {
						w = 1
					}
				case 'f':
					if m.f < 1<<63 && m.f >= -(1<<63) {
						w, ok = int64(m.f), true
					}
				case 's':
					if m.s == "" || strings.ContainsAny(m.s, ",.+") {
						return
					}
					n, e := strconv.ParseInt(m.s, 10, 64)
					w, ok = n, e == nil
				}
				if ok && bits() < 64 && (w < -(1<<uint(bits()-1)) || w >= 1<<uint(bits()-1)) {
					ok = false
				}
				check = func() bool { return v.Int() == w }
			case k >= reflect.Uint && k <= reflect.Uint64:
				var w uint64
				switch m.k {
				case 'i':
					w, ok = uint64(m.i), m.i >= 0
				case 'b':
					ok = true
					if m.b {
						w = 1
					}
				case 'f':
					if m.f < 1<<64 && m.f > -1 {
						w, ok = uint64(m.f), true
						if m.f < 0 {
							w = 0
						}
					}
				case 's':
					if m.s == "" || strings.ContainsAny(m.s, ",.+") {
						return
					}
					n, e := strconv.ParseUint(m.s, 10, 64)
					w, ok = n, e == nil
				}
				if ok && bits() < 64 && w >= 1<<uint(bits()) {
					ok = false
				}
				check = func() bool { return v.Uint() == w }
			case k == reflect.Float32 || k == reflect.Float64:
				var w float64
				switch m.k {
				case 'i':
					w, ok = float64(m.i), true
				case 'b':
					ok = true
					if m.b {
						w = 1
					}
				case 'f':
					w, ok = m.f, true
				case 's':
					if m.s == "" || strings.ContainsAny(m.s, ",+") || strings.Count(m.s, ".") > 1 {
						return
					}
					n, e := strconv.ParseFloat(m.s, bits())
					w, ok = n, e == nil
				}
				if k == reflect.Float32 {
					if ok && m.k != 's' && math.Abs(w) > math.MaxFloat32 && !math.IsInf(w, 0) {
						ok = false
					}
					w = float64(float32(w))
				}
				check = func() bool { return v.Float() == w || w != w && v.Float() != v.Float() }
			case k == reflect.Bool:
				var w bool
				ok = true
				switch m.k {
				case 'i':
					w = m.i != 0
				case 'b':
					w = m.b
				case 'f':
					w = m.f != 0
				case 's':
					switch strings.ToLower(strings.TrimSpace(m.s)) {
					case "true", "yes", "on", "1":
						w = true
					}
				}
				check = func() bool { return v.Bool() == w }
			case k == reflect.String:
				ok = true
				w := ""
				switch m.k {
				case 'i':
					w = fmt.Sprint(m.i)
				case 'b':
					w = fmt.Sprint(m.b)
				case 'f':
					w = fmt.Sprintf("%f", m.f)
				case 's':
					w = m.s
				}
				check = func() bool { return v.String() == w }
			}
			if (err == nil) != ok {
				r.fail("error", in, fmt.Sprintf("error %v, want success %v", err, ok))
				return
			}
			if err == nil && !(v.IsValid() && check()) {
				r.fail("value", in, fmt.Sprintf("stored %v", v))
			}
			if err != nil && m.k != 's' && !gvMismatch(err) {
				r.fail("mismatch", in, err.Error())
			}
			if !gvSame(gvOf(o), m) {
				r.fail("write", in, gvOf(o).desc())
			}
		})
		in2 := m.desc() + " into interfaces and kinds that cannot hold it"
		r.try(in2, func() {
			o := r.doc(m)
			var x interface{} = "old"
			if err := o.Unmarshal(&x); err != nil || !gvSame(gvOf2(x), m) {
				r.fail("interface", in2, fmt.Sprintf("%v %#v", err, x))
			}
			var j JSONObject
			if err := o.Unmarshal(&j); err != nil || !gvSame(gvOf(j), m) {
				r.fail("interface", in2, fmt.Sprintf("%v %#v", err, j))
			}
			var px *interface{}
			if err := o.Unmarshal(&px); err != nil || px == nil || !gvSame(gvOf2(*px), m) {
				r.fail("interface", in2, fmt.Sprintf("%v %#v", err, px))
			}
			var st fmt.Stringer
			if err := o.Unmarshal(&st); err == nil && st == nil {
				r.fail("interface", in2, "nothing stored in a fmt.Stringer")
			}
			var er error
			if err := o.Unmarshal(&er); err == nil {
				r.fail("interface", in2, "stored in an error variable")
			} else if !gvMismatch(err) {
				r.fail("mismatch", in2, err.Error())
			}
			for _, b := range gvBad {
				p := reflect.New(reflect.TypeOf(b))
				err := o.Unmarshal(p.Interface())
				if err == nil {
					r.fail("mismatch", in2, fmt.Sprintf("no error for %T", b))
				} else if !gvMismatch(err) {
					r.fail("mismatch", in2, fmt.Sprintf("%T: %v", b, err))
				}
			}
		})
	}
}

func gvOf2(x interface{}) *gvM {
	switch v := x.(type) {
	case bool:
		return &gvM{k: 'b', b: v}
	case int64:
		return &gvM{k: 'i', i: v}
	case float64:
		return &gvM{k: 'f', f: v}
	case string:
		return &gvM{k: 's', s: v}
	}
	return &gvM{k: '?'}
}
