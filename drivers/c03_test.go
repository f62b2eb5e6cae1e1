package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "all byte strings of length 0-2, then random byte strings up to 5000 bytes, as document, array element and key; distinct by string"
	one := func(s string) {
		in := fmt.Sprintf("string %q", s)
		r.try(in, func() {
			q := NewString(s).String()
			for _, tail := range []string{"", " x", ",", "\"", "abcdef"} {
				o, end, err := ParseStream([]byte(q+tail), 0)
				if err != nil || end != len(q) {
					r.fail("parse", in, fmt.Sprintf("%q: end %d, error %v", q+tail, end, err))
					return
				}
				if js, ok := o.(*JSONString); !ok || js.data != s {
					r.fail("value", in, fmt.Sprintf("%q gives %v", q, gvOf(o).desc()))
					return
				}
			}
			if s == "___jnid_" {
				return
			}
			t := NewDict(JSONPair{key: s, val: NewString(s)}).String()
			o, end, err := ParseStream([]byte(t), 0)
			if err != nil || end != len(t) || !gvSame(gvOf(o), &gvM{k: 'd', m: map[string]*gvM{s: {k: 's', s: s}}}) {
				r.fail("key", in, fmt.Sprintf("%q: end %d, error %v", t, end, err))
			}
		})
	}
	one("")
	for a := 0; a < 256; a++ {
		one(string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			one(string([]byte{byte(a), byte(b)}))
		}
	}
	for r.more() {
		one(r.longstr())
		one(string(r.bytes(40)))
	}
}
