package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "pairs and triples of random documents, mostly differing in one small place; distinct by pair"
	for r.more() {
		m := r.anyModel()
		p := r.near(m)
		q := r.near(p)
		in := m.desc() + " vs " + p.desc()
		r.try(in, func() {
			a, b, c := r.doc(m), r.doc(p), r.doc(q)
			ab, ba, bc, ac := a.Equals(b), b.Equals(a), b.Equals(c), a.Equals(c)
			if w := gvSame(m, p); ab != w || ba != w {
				r.fail("structural", in, fmt.Sprintf("Equals gives %v and %v, want %v", ab, ba, w))
			}
			if ab && bc && !ac {
				r.fail("transitive", in+" vs "+q.desc(), "a=b, b=c, not a=c")
			}
			if !a.Equals(a) || !a.Equals(r.doc(m)) {
				r.fail("reflexive", in, "not equal to itself")
			}
			if !gvSame(gvOf(a), m) || !gvSame(gvOf(b), p) {
				r.fail("write", in, "comparison changed a document")
			}
		})
	}
}
