package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "pairs of random dictionaries, the second mostly a variation of the first; distinct by pair"
	for r.more() {
		ma := r.dictModel(3)
		mb := r.dictModel(3)
		if r.rng.Intn(3) > 0 {
			mb = ma.clone()
			for i, n := 0, r.rng.Intn(4); i < n; i++ {
				mb.m[r.key()] = r.scalar()
			}
			for _, k := range ma.keys() {
				switch r.rng.Intn(6) {
				case 0:
					mb.m[k] = r.scalar()
				case 1:
					delete(mb.m, k)
				case 2:
					mb.m[k] = r.near(mb.m[k])
				}
			}
		}
		in := ma.desc() + " and " + mb.desc()
		r.try(in, func() {
			a, b := r.doc(ma).(*JSONDict), r.doc(mb).(*JSONDict)
			aNoB, diff, same, bNoA := Diff(a, b)
			exp := [4]*gvM{}
			for i := range exp {
				exp[i] = &gvM{k: 'd', m: map[string]*gvM{}}
			}
			for k, v := range ma.m {
				w, ok := mb.m[k]
				switch {
				case !ok:
					exp[0].m[k] = v
				case gvSame(v, w):
					exp[2].m[k] = v
				default:
					exp[1].m[k] = &gvM{k: 'a', a: []*gvM{v, w}}
				}
			}
			for k, v := range mb.m {
				if _, ok := ma.m[k]; !ok {
					exp[3].m[k] = v
				}
			}
			for i, g := range []*JSONDict{aNoB, diff, same, bNoA} {
				if g == nil || !gvSame(gvOf(g), exp[i]) {
					r.fail("part", in, fmt.Sprintf("result %d: %s want %s", i, gvOf(g).desc(), exp[i].desc()))
				}
			}
			if !gvSame(gvOf(a), ma) || !gvSame(gvOf(b), mb) {
				r.fail("input", in, "an input changed")
			}
			for _, g := range []*JSONDict{aNoB, diff, same, bNoA} {
				for _, k := range g.SortedKeys() {
					g.Set(k, JSONNull)
				}
				g.Set("new", JSONTrue)
			}
			if !gvSame(gvOf(a), ma) || !gvSame(gvOf(b), mb) {
				r.fail("shared", in, "changing a result changed an input")
			}
		})
	}
}
