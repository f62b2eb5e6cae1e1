package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents, each built several times by different insertion and removal histories; distinct by document"
	for r.more() {
		m := r.anyModel()
		in := m.desc()
		r.try(in, func() {
			want := m.text()
			for i := 0; i < 3; i++ {
				o := r.doc(m)
				t := o.String()
				if t != want {
					r.fail("text", in, fmt.Sprintf("%q want %q", t, want))
					return
				}
				if t2 := o.String(); t2 != t {
					r.fail("twice", in, fmt.Sprintf("%q then %q", t, t2))
				}
				if p1, p2 := o.PrettyString(), r.doc(m).PrettyString(); p1 != p2 {
					r.fail("pretty", in, fmt.Sprintf("%q then %q", p1, p2))
				}
			}
		})
	}
}
