package jsonutils

import (
	"fmt"
	"reflect"
	"unsafe"
)

func gvNodes(o JSONObject, out map[uintptr]string) {
	add := func(p interface{}) { out[reflect.ValueOf(p).Pointer()] = fmt.Sprintf("%T", p) }
	switch v := o.(type) {
	case *JSONDict:
		add(v)
		if len(v.data) > 0 {
			out[uintptr(unsafe.Pointer(&v.data[0]))] = "dict storage"
		}
		for _, k := range v.data.Keys() {
			x, _ := v.data.Get(k)
			if j, ok := x.(JSONObject); ok {
				gvNodes(j, out)
			}
		}
	case *JSONArray:
		add(v)
		if len(v.data) > 0 {
			out[uintptr(unsafe.Pointer(&v.data[0]))] = "array storage"
		}
		for _, e := range v.data {
			gvNodes(e, out)
		}
	case *JSONString, *JSONInt, *JSONFloat, *JSONBool:
		add(v)
	}
}

// change everything in a document that can be changed
func gvScramble(o JSONObject) {
	switch v := o.(type) {
	case *JSONDict:
		for _, k := range v.SortedKeys() {
			x, _ := v.Get(k)
			gvScramble(x)
			v.Set(k, NewString("scrambled"))
		}
		v.Set("scrambled", JSONTrue)
	case *JSONArray:
		for i := range v.data {
			gvScramble(v.data[i])
			v.SetAt(i, NewString("scrambled"))
		}
		v.Add(JSONTrue)
	case *JSONString:
		v.data += "x"
	case *JSONInt:
		v.data++
	case *JSONFloat:
		v.data = 12345.5
	case *JSONBool:
		if v != JSONTrue && v != JSONFalse {
			v.data = !v.data
		}
	}
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents deep-copied through DeepCopy and the DeepCopy methods, node identities compared, either side scrambled; distinct by document"
	for r.more() {
		m := r.anyModel()
		in := m.desc()
		r.try(in, func() {
			o := r.doc(m)
			if r.rng.Intn(6) == 0 && m.k == 'a' && len(m.a) > 0 {
				// a shared sub-document
				i := r.rng.Intn(len(m.a))
				x := o.(*JSONArray).data[i]
				o.(*JSONArray).Add(x)
				m = m.clone()
				m.a = append(m.a, m.a[i].clone())
			}
			c := DeepCopy(o)
			if d, ok := o.(interface{ DeepCopy() interface{} }); ok && r.rng.Intn(2) == 0 {
				c, _ = d.DeepCopy().(JSONObject)
			}
			if gvNil(c) {
				r.fail("nil", in, "nil copy")
				return
			}
			if !gvSame(gvOf(c), m) {
				r.fail("content", in, gvOf(c).desc())
			}
			if m.k != 'f' && !c.Equals(o) {
				r.fail("equal", in, "copy does not compare equal")
			}
			if !gvSame(gvOf(o), m) {
				r.fail("original", in, gvOf(o).desc())
			}
			no, nc := map[uintptr]string{}, map[uintptr]string{}
			gvNodes(o, no)
			gvNodes(c, nc)
			for p, t := range nc {
				if _, ok := no[p]; ok {
					r.fail("shared", in, "copy and original share a "+t)
				}
			}
			if r.rng.Intn(2) == 0 {
				gvScramble(c)
				if !gvSame(gvOf(o), m) {
					r.fail("dependent", in, "changing the copy changed the original")
				}
			} else {
				gvScramble(o)
				if !gvSame(gvOf(c), m) {
					r.fail("dependent", in, "changing the original changed the copy")
				}
			}
			if JSONTrue.data != true || JSONFalse.data != false {
				JSONTrue.data, JSONFalse.data = true, false
				r.fail("constant", in, "a shared constant changed")
			}
		})
	}
}
