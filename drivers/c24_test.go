package jsonutils

import (
	"fmt"
)

func gvPlain(x interface{}) *gvM {
	switch v := x.(type) {
	case nil:
		return &gvM{k: 'n'}
	case bool:
		return &gvM{k: 'b', b: v}
	case int64:
		return &gvM{k: 'i', i: v}
	case float64:
		return &gvM{k: 'f', f: v}
	case string:
		return &gvM{k: 's', s: v}
	case []interface{}:
		m := &gvM{k: 'a'}
		for _, e := range v {
			m.a = append(m.a, gvPlain(e))
		}
		return m
	case map[string]interface{}:
		m := &gvM{k: 'd', m: map[string]*gvM{}}
		for k, e := range v {
			m.m[k] = gvPlain(e)
		}
		return m
	}
	return &gvM{k: '?', s: fmt.Sprintf("%T", x)}
}

func gvWreck(x interface{}) {
	switch v := x.(type) {
	case []interface{}:
		for i := range v {
			gvWreck(v[i])
			v[i] = "wrecked"
		}
	case map[string]interface{}:
		for k := range v {
			gvWreck(v[k])
			delete(v, k)
		}
		v["wrecked"] = true
	}
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents converted, converted values wrecked, converted again; distinct by document"
	for r.more() {
		m := r.anyModel()
		in := m.desc()
		r.try(in, func() {
			o := r.doc(m)
			x := o.Interface()
			if g := gvPlain(x); !gvSame(g, m) {
				r.fail("content", in, g.desc())
			}
			y := o.Interface()
			gvWreck(x)
			if !gvSame(gvOf(o), m) {
				r.fail("shared", in, "changing the Go value changed the document")
			}
			if !gvSame(gvPlain(y), m) {
				r.fail("shared", in, "two conversions share storage")
			}
			if !gvSame(gvPlain(o.Interface()), m) {
				r.fail("again", in, "")
			}
			gvScramble24(o)
			if !gvSame(gvPlain(y), m) {
				r.fail("shared", in, "changing the document changed the Go value")
			}
		})
	}
}

func gvScramble24(o JSONObject) {
	switch v := o.(type) {
	case *JSONDict:
		for _, k := range v.SortedKeys() {
			x, _ := v.Get(k)
			gvScramble24(x)
			v.Set(k, JSONNull)
		}
	case *JSONArray:
		for i := range v.data {
			gvScramble24(v.data[i])
			v.SetAt(i, JSONNull)
		}
	}
}
