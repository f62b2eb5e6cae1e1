package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents: up to 300 members, nesting up to 80, byte strings up to 5000 bytes, floats from all bit patterns; distinct by document"
	for r.more() {
		m := r.anyModel()
		in := m.desc()
		r.try(in, func() {
			o := r.doc(m)
			t := o.String()
			p, end, err := ParseStream([]byte(t), 0)
			if err != nil {
				r.fail("parse", in, fmt.Sprintf("%q: %v", t, err))
				return
			}
			if end != len(t) {
				r.fail("consume", in, fmt.Sprintf("%q: end %d of %d", t, end, len(t)))
			}
			g := gvOf(p)
			if !gvSameNum(m, g) {
				r.fail("content", in, fmt.Sprintf("%q gives %s", t, g.desc()))
				return
			}
			if gvSame(m, g) && !(o.Equals(p) && p.Equals(o)) {
				r.fail("equals", in, t)
			}
			if t2 := p.String(); t2 != t && gvSame(m, g) {
				r.fail("again", in, fmt.Sprintf("%q then %q", t, t2))
			}
		})
	}
}
