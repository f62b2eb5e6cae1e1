package jsonutils

import (
	"fmt"
	"strings"
)

var gvFold = []string{"a", "A", "ab", "aB", "Ab", "AB", "abc", "ABC", "aBc", "s", "S", "ſ", "k", "K", "\u212a", "é", "É", "ß", "ẞ", "SS", "ss", "ı", "I", "i", "İ", "x1", "X1", "Σ", "σ", "ς", "", "\xff", "\xe9", "_", "[", "{", "@", "`"}

func gvdDrive(r *gvdRun) {
	r.Rule = "random dictionaries over keys with many case variants, every variant looked up and removed, paths of one and two keys; distinct by (dictionary, key)"
	for r.more() {
		m := &gvM{k: 'd', m: map[string]*gvM{}}
		n := r.rng.Intn(9)
		if r.rng.Intn(10) == 0 {
			n = 40
		}
		for i := 0; i < n; i++ {
			k := gvFold[r.rng.Intn(len(gvFold))]
			if r.rng.Intn(6) == 0 {
				k = r.key()
			}
			m.m[k] = &gvM{k: 'i', i: int64(i)}
			if r.rng.Intn(4) == 0 {
				m.m[k] = r.model(1)
			}
		}
		for rep := 0; rep < 6; rep++ {
			k := gvFold[r.rng.Intn(len(gvFold))]
			if r.rng.Intn(5) == 0 {
				k = r.key()
			}
			in := fmt.Sprintf("%s key %q", m.desc(), k)
			r.try(in, func() {
				d := r.doc(m).(*JSONDict)
				outer := NewDict(JSONPair{key: "Outer", val: d}, JSONPair{key: "outerx", val: JSONTrue})
				vs := gvKeysFold(m.m, k)
				for i := 0; i < 2; i++ {
					o, err := d.GetIgnoreCases(k)
					has := d.ContainsIgnoreCases(k)
					if i == 1 {
						o, err = outer.GetIgnoreCases("oUTer", k)
						has = outer.ContainsIgnoreCases("OUTER", k)
					}
					if (err == nil) != (len(vs) > 0) || has != (len(vs) > 0) {
						r.fail("find", in, fmt.Sprintf("variants %q, lookup %v, contains %v", vs, err, has))
						return
					}
					if err != nil {
						continue
					}
					g := gvOf(o)
					if ex, ok := m.m[k]; ok {
						if !gvSame(g, ex) {
							r.fail("exact", in, fmt.Sprintf("gives %s instead of the exact key's %s", g.desc(), ex.desc()))
						}
						continue
					}
					hit := false
					for _, v := range vs {
						hit = hit || gvSame(m.m[v], g)
					}
					if !hit {
						r.fail("value", in, g.desc())
					}
				}
				if !gvSame(gvOf(d), m) {
					r.fail("write", in, "lookup changed the dictionary")
				}
				got := d.RemoveIgnoreCase(k)
				if got != (len(vs) > 0) {
					r.fail("report", in, fmt.Sprint("RemoveIgnoreCase reports ", got))
				}
				exp := m.clone()
				for x := range m.m {
					if strings.EqualFold(x, k) {
						delete(exp.m, x)
					}
				}
				if g := gvOf(d); !gvSame(g, exp) {
					r.fail("removed", in, fmt.Sprintf("left %s want %s", g.desc(), exp.desc()))
				}
			})
		}
	}
}
