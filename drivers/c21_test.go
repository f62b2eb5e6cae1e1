package jsonutils

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"yunion.io/x/pkg/tristate"
)

type gvInt int32
type gvUint uint16
type gvStr string
type gvBool bool
type gvFloat float64

// one field: Go value and what Marshal and MarshalAll must give; nil = absent
type gvField struct {
	v    interface{}
	tag  string
	some *gvM
	zero bool
	drop bool // a zero value may be dropped
	force bool
}

func gvScalarDoc(v interface{}) (*gvM, bool, string) {
	rv := reflect.ValueOf(v)
	switch x := v.(type) {
	case tristate.TriState:
		switch x {
		case tristate.True:
			return &gvM{k: 'b', b: true}, false, "tri"
		case tristate.False:
			return &gvM{k: 'b'}, false, "tri"
		}
		return &gvM{k: 'n'}, true, "tri"
	case time.Time:
		if x.IsZero() {
			return &gvM{k: 's'}, true, "time"
		}
		return &gvM{k: 's', s: x.UTC().Format("2006-01-02T15:04:05.000000Z07:00")}, false, "time"
	}
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &gvM{k: 'i', i: rv.Int()}, rv.Int() == 0, "int"
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &gvM{k: 'i', i: int64(rv.Uint())}, rv.Uint() == 0, "int"
	case reflect.Float32, reflect.Float64:
		return &gvM{k: 'f', f: rv.Float()}, rv.Float() == 0, "float"
	case reflect.Bool:
		return &gvM{k: 'b', b: rv.Bool()}, !rv.Bool(), "bool"
	}
	return &gvM{k: 's', s: rv.String()}, rv.String() == "", "string"
}

func (r *gvdRun) goScalar() interface{} {
	i := r.int64()
	if r.rng.Intn(4) == 0 {
		i = 0
	}
	u := uint64(i)
	if i < 0 {
		u = uint64(-(i + 1))
	}
	f := r.float()
	if r.rng.Intn(4) == 0 {
		f = 0
	}
	s := r.str()
	b := r.rng.Intn(2) == 0
	switch r.rng.Intn(21) {
	case 0:
		return int(i)
	case 1:
		return int8(i)
	case 2:
		return int16(i)
	case 3:
		return int32(i)
	case 4:
		return i
	case 5:
		return uint(u)
	case 6:
		return uint8(u)
	case 7:
		return uint16(u)
	case 8:
		return uint32(u)
	case 9:
		return u
	case 10:
		return f
	case 11:
		g := float32(f)
		if math.IsInf(float64(g), 0) {
			g = 1.5
		}
		return g
	case 12:
		return s
	case 13:
		return b
	case 14:
		return gvInt(i)
	case 15:
		return gvUint(u)
	case 16:
		return gvStr(s)
	case 17:
		return gvBool(b)
	case 18:
		return gvFloat(f)
	case 19:
		return []tristate.TriState{tristate.True, tristate.False, tristate.None}[r.rng.Intn(3)]
	}
	if r.rng.Intn(3) == 0 {
		return time.Time{}
	}
	sec := r.rng.Int63n(4e9)
	switch r.rng.Intn(4) {
	case 0:
		sec = []int64{0, 1, -1, 59, -62135596800, -62135596799, -2208988800, 86400, 1 << 31, -1 << 31}[r.rng.Intn(10)]
	case 1:
		sec = -sec
	}
	nano := r.rng.Int63n(1e9)
	if r.rng.Intn(3) == 0 {
		nano = []int64{0, 1, 999, 1000, 499999999, 999999999, 999999500}[r.rng.Intn(7)]
	}
	t := time.Unix(sec, nano).UTC()
	if r.rng.Intn(3) == 0 {
		t = t.In(time.FixedZone("x", []int{3600, -19800, 45 * 60}[r.rng.Intn(3)]))
	}
	return t
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random Go scalars of every kind, at top level, in slices and maps, and as struct fields under all combinations of omit/allow/string tags, through Marshal and MarshalAll; distinct by (value, tag)"
	opts := []string{"", "omitempty", "omitzero", "omitfalse", "allowempty", "allowzero", "allowfalse", "string"}
	for r.more() {
		v := r.goScalar()
		want, zero, cls := gvScalarDoc(v)
		in := fmt.Sprintf("%T(%#v)", v, v)
		r.try(in, func() {
			for w := 0; w < 2; w++ {
				mar := Marshal
				if w == 1 {
					mar = MarshalAll
				}
				if g := gvOf(mar(v)); !gvSame(g, want) {
					r.fail("top", in, g.desc())
				}
				p := reflect.New(reflect.TypeOf(v))
				p.Elem().Set(reflect.ValueOf(v))
				if g := gvOf(mar(p.Interface())); cls != "time" && !gvSame(g, want) {
					r.fail("pointer", in, g.desc())
				}
				if g := gvOf(mar([]interface{}{v})); !(len(g.a) == 1 && gvSame(g.a[0], want)) && !(cls == "tri" && zero && w == 0) {
					r.fail("element", in, g.desc())
				}
				if g := gvOf(mar(map[string]interface{}{"k": v})); !(len(g.m) == 1 && gvSame(g.m["k"], want)) && !(cls == "tri" && zero && w == 0) {
					r.fail("mapped", in, g.desc())
				}
			}
		})
		// struct field with random options
		tag, force, empty, oz, of := "f", false, true, false, false
		for i, n := 0, r.rng.Intn(3); i < n; i++ {
			o := opts[r.rng.Intn(len(opts))]
			tag += "," + o
			switch o {
			case "omitempty":
				empty = true
			case "allowempty":
				empty = false
			case "omitzero":
				oz = true
			case "allowzero":
				oz = false
			case "omitfalse":
				of = true
			case "allowfalse":
				of = false
			case "string":
				force = true
			}
		}
		st := reflect.StructOf([]reflect.StructField{
			{Name: "F", Type: reflect.TypeOf(v), Tag: reflect.StructTag(`json:"` + tag + `"`)},
			{Name: "G", Type: reflect.TypeOf(""), Tag: `json:"g"`},
		})
		in2 := fmt.Sprintf("field %T(%#v) tag %q", v, v, tag)
		r.try(in2, func() {
			sv := reflect.New(st)
			sv.Elem().Field(0).Set(reflect.ValueOf(v))
			sv.Elem().Field(1).SetString("other")
			for w := 0; w < 2; w++ {
				o := Marshal(sv.Interface())
				if w == 1 {
					o = MarshalAll(sv.Interface())
				}
				g := gvOf(o)
				f := g.m["f"]
				if g.m["g"] == nil || g.m["g"].s != "other" {
					r.fail("other", in2, g.desc())
				}
				may := false
				switch cls {
				case "int", "float":
					may = oz
				case "bool":
					may = of
				case "string", "time":
					may = empty
				case "tri":
					may = true
				}
				if zero && may && w == 0 {
					if f != nil {
						r.fail("kept", in2, g.desc())
					}
					continue
				}
				if f == nil {
					r.fail("dropped", in2, g.desc())
					continue
				}
				exp := want
				if force {
					switch cls {
					case "int":
						exp = &gvM{k: 's', s: fmt.Sprint(want.i)}
					case "float":
						exp = &gvM{k: 's', s: fmt.Sprintf("%f", want.f)}
					case "bool":
						exp = &gvM{k: 's', s: fmt.Sprint(want.b)}
					}
				}
				if !gvSame(f, exp) {
					r.fail("field", in2, f.desc()+" want "+exp.desc())
				}
			}
		})
	}
	for _, u := range []uint64{1 << 63, math.MaxUint64, 1<<63 + 1} {
		in := fmt.Sprintf("Marshal(uint64(%d))", u)
		r.try(in, func() {
			if g := gvOf(Marshal(u)); g.k != 'i' || g.i < 0 {
				r.fail("uint64-over-maxint64", in, g.desc())
			}
		})
	}
}
