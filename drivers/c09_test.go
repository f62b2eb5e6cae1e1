package jsonutils

import (
	"fmt"
)

func gvStep(m *gvM, k string) (*gvM, bool) {
	if m.k != 'd' {
		return nil, false
	}
	v, ok := m.m[k]
	return v, ok
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random dictionaries and key paths of length 0-5 (mostly existing prefixes): lookups, containment, insertions under a path; distinct by (dictionary, path)"
	for r.more() {
		m := r.dictModel(4)
		if r.rng.Intn(20) == 0 {
			m = &gvM{k: 'd', m: map[string]*gvM{"a": r.nest(m, r.rng.Intn(20))}}
		}
		for rep := 0; rep < 4; rep++ {
			// a path that follows the dictionary most of the time
			var path []string
			cur := m
			for i, n := 0, r.rng.Intn(6); i < n; i++ {
				k := r.key()
				if cur != nil && cur.k == 'd' && len(cur.m) > 0 && r.rng.Intn(5) > 0 {
					ks := cur.keys()
					k = ks[r.rng.Intn(len(ks))]
				}
				path = append(path, k)
				if cur != nil {
					cur, _ = gvStep(cur, k)
				}
			}
			in := fmt.Sprintf("%s path %q", m.desc(), path)
			r.try(in, func() {
				d := r.doc(m).(*JSONDict)
				// reference lookup
				want, ok := m, true
				for _, k := range path {
					if want, ok = gvStep(want, k); !ok {
						break
					}
				}
				o, err := d.Get(path...)
				if (err == nil) != ok || err != nil && o != nil {
					r.fail("get", in, fmt.Sprintf("Get gives %v, %v", o, err))
				} else if ok && !gvSame(gvOf(o), want) {
					r.fail("get", in, fmt.Sprintf("Get gives %v", gvOf(o).desc()))
				}
				if d.Contains(path...) != ok {
					r.fail("contains", in, fmt.Sprint(!ok))
				}
				// one key after another gives the same object
				var step JSONObject = d
				var serr error
				for _, k := range path {
					step, serr = step.Get(k)
					if serr != nil {
						break
					}
				}
				if (serr == nil) != (err == nil) || err == nil && step != o {
					r.fail("steps", in, fmt.Sprintf("stepwise gives %v, %v", step, serr))
				}
				if o, err := d.GetAt(0, path...); ok && want.k == 'a' && len(want.a) > 0 {
					if err != nil || !gvSame(gvOf(o), want.a[0]) {
						r.fail("getat", in, fmt.Sprint(err))
					}
				} else if err == nil {
					r.fail("getat", in, "no error")
				}
				if mm, err := d.GetMap(path...); ok && want.k == 'd' {
					if err != nil || len(mm) != len(want.m) {
						r.fail("getmap", in, fmt.Sprint(err))
					}
					for k, v := range want.m {
						if x, ok := mm[k]; !ok || !gvSame(gvOf(x), v) {
							r.fail("getmap", in, k)
						}
					}
				} else if err == nil {
					r.fail("getmap", in, "no error")
				}
				if !gvSame(gvOf(d), m) {
					r.fail("write", in, "a lookup changed the dictionary")
				}
				// insertion
				if len(path) == 0 {
					return
				}
				val := NewString("new")
				exp := m.clone()
				at, good := exp, true
				for i, k := range path {
					if i == len(path)-1 {
						at.m[k] = &gvM{k: 's', s: "new"}
						break
					}
					nx, has := at.m[k]
					if !has || nx.k == 'n' {
						nx = &gvM{k: 'd', m: map[string]*gvM{}}
						at.m[k] = nx
					}
					if nx.k != 'd' {
						good = false
						break
					}
					at = nx
				}
				if !good {
					exp = m
				}
				err = d.Add(val, path...)
				if (err == nil) != good {
					r.fail("add", in, fmt.Sprintf("Add gives %v", err))
				}
				if g := gvOf(d); !gvSame(g, exp) {
					r.fail("added", in, fmt.Sprintf("after Add: %s want %s", g.desc(), exp.desc()))
				}
				if good {
					if o, err := d.Get(path...); err != nil || o != JSONObject(val) {
						r.fail("readback", in, fmt.Sprintf("%v %v", o, err))
					}
				}
			})
		}
	}
}
