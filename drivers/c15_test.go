package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "pairs of random dictionaries (often sharing keys, up to 300 entries) and non-dictionary operands; distinct by pair"
	for r.more() {
		ma := r.dictModel(2)
		mb := r.dictModel(2)
		if r.rng.Intn(2) == 0 {
			mb = ma.clone()
			for i := 0; i < 4; i++ {
				mb.m[r.key()] = r.scalar()
			}
			for _, k := range ma.keys() {
				if r.rng.Intn(2) == 0 {
					mb.m[k] = r.scalar()
				}
				if r.rng.Intn(4) == 0 {
					delete(mb.m, k)
				}
			}
		}
		in := ma.desc() + " and " + mb.desc()
		r.try(in, func() {
			for w := 0; w < 2; w++ {
				a, b := r.doc(ma).(*JSONDict), r.doc(mb).(*JSONDict)
				exp := map[string]JSONObject{}
				put := func(d *JSONDict) {
					for _, k := range d.SortedKeys() {
						exp[k], _ = d.Get(k)
					}
				}
				if w == 0 {
					put(a)
					put(b)
					a.Update(b)
				} else {
					put(b)
					put(a)
					a.UpdateDefault(b)
				}
				what := []string{"Update", "UpdateDefault"}[w]
				if a.Size() != len(exp) {
					r.fail("size", in, fmt.Sprintf("%s: %d entries want %d", what, a.Size(), len(exp)))
				}
				for k, v := range exp {
					if x, err := a.Get(k); err != nil || x != v {
						r.fail("entry", in, fmt.Sprintf("%s: key %q: %v %v", what, k, x, err))
					}
				}
				if gvOf(a).k != 'd' {
					r.fail("broken", in, what)
				}
				if !gvSame(gvOf(b), mb) {
					r.fail("operand", in, what+" changed its operand")
				}
				for _, k := range a.SortedKeys() {
					a.Set(k, JSONNull)
				}
				a.Set("new", JSONTrue)
				for _, k := range a.SortedKeys() {
					a.Remove(k)
				}
				if !gvSame(gvOf(b), mb) {
					r.fail("shared", in, what+": later changes reach the operand")
				}
				a = r.doc(ma).(*JSONDict)
				var x JSONObject = r.doc(r.scalar())
				if r.rng.Intn(2) == 0 {
					x = NewArray(r.doc(mb))
				}
				if w == 0 {
					a.Update(x)
					a.Update(nil)
				} else {
					a.UpdateDefault(x)
					a.UpdateDefault(nil)
				}
				if !gvSame(gvOf(a), ma) {
					r.fail("nondict", in, what+" from "+gvOf(x).desc())
				}
				a.Update(a)
				a.UpdateDefault(a)
				if !gvSame(gvOf(a), ma) {
					r.fail("self", in, what)
				}
			}
		})
	}
}
