package jsonutils

import (
	"encoding/json"
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents (see C05), pretty text parsed here and checked by encoding/json; distinct by document"
	for r.more() {
		m := r.anyModel()
		in := m.desc()
		r.try(in, func() {
			o := r.doc(m)
			t := o.PrettyString()
			if !json.Valid([]byte(t)) {
				r.fail("invalid", in, t)
				return
			}
			p, end, err := ParseStream([]byte(t), 0)
			if err != nil || end != len(t) {
				r.fail("parse", in, fmt.Sprintf("%q: end %d, %v", t, end, err))
				return
			}
			c, err := Parse([]byte(o.String()))
			if err != nil {
				r.fail("compact", in, fmt.Sprint(err))
				return
			}
			if !gvSame(gvOf(p), gvOf(c)) || !gvSameNum(m, gvOf(p)) {
				r.fail("content", in, fmt.Sprintf("pretty %s compact %s", gvOf(p).desc(), gvOf(c).desc()))
			}
			if t != o.PrettyString() {
				r.fail("stable", in, t)
			}
		})
	}
}
