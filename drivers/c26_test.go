package jsonutils

import (
	"fmt"
	"strings"

	"yunion.io/x/pkg/errors"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random dictionaries and field lists, string lists, first-of lists and numbered prefixes with and without gaps; distinct by (document, list)"
	for r.more() {
		m := r.dictModel(3)
		var l []string
		for i, n := 0, r.rng.Intn(6); i < n; i++ {
			k := r.key()
			if ks := m.keys(); len(ks) > 0 && r.rng.Intn(4) > 0 {
				k = ks[r.rng.Intn(len(ks))]
			}
			l = append(l, k)
		}
		in := fmt.Sprintf("%s list %q", m.desc(), l)
		str := func(x *gvM) string {
			if x.k == 's' {
				return x.s
			}
			return x.text()
		}
		r.try(in, func() {
			d := r.doc(m).(*JSONDict)
			bad, cause := "", error(nil)
			for _, k := range l {
				if v, ok := m.m[k]; !ok {
					bad, cause = k, ErrMissingInputField
					break
				} else if v.k == 'n' {
					bad, cause = k, ErrNilInputField
					break
				}
			}
			err := CheckRequiredFields(d, l)
			if (err != nil) != (cause != nil) {
				r.fail("required", in, fmt.Sprint(err))
			} else if err != nil && (errors.Cause(err) != cause || !strings.Contains(err.Error(), bad)) {
				r.fail("offender", in, fmt.Sprintf("%v, want %q", err, bad))
			}
			ws, wk := "", ""
			for _, k := range l {
				if v, ok := m.m[k]; ok && str(v) != "" {
					ws, wk = str(v), k
					break
				}
			}
			if s := GetAnyString(d, l); s != ws {
				r.fail("any", in, fmt.Sprintf("%q want %q", s, ws))
			}
			if s, k := GetAnyString2(d, l); s != ws || k != wk {
				r.fail("any", in, fmt.Sprintf("%q %q want %q %q", s, k, ws, wk))
			}
			for k, v := range m.m {
				if v.k != 'a' {
					continue
				}
				want := make([]string, len(v.a))
				for i, e := range v.a {
					want[i] = str(e)
				}
				a, _ := d.Get(k)
				arr, _ := d.GetArray(k)
				g1 := a.(*JSONArray).GetStringArray()
				g2, err := GetStringArray(d, k)
				g3 := JSONArray2StringArray(arr)
				g4 := GetQueryStringArray(d, k)
				for i, g := range [][]string{g1, g2, g3, g4} {
					if len(g) != len(want) || strings.Join(g, "\x00") != strings.Join(want, "\x00") || err != nil {
						r.fail("strings", in, fmt.Sprintf("helper %d: %q want %q %v", i, g, want, err))
					}
				}
				back := NewStringArray(want)
				if back.Size() != len(want) {
					r.fail("newstrings", in, "")
				}
				for i, w := range want {
					if o, _ := back.GetAt(i); !gvSame(gvOf(o), &gvM{k: 's', s: w}) {
						r.fail("newstrings", in, w)
					}
				}
			}
			// numbered dictionaries and single strings as query lists
			for k, v := range m.m {
				if v.k == 's' {
					if g := GetQueryStringArray(d, k); len(g) != 1 || g[0] != v.s {
						r.fail("strings", in, fmt.Sprintf("%q", g))
					}
				}
			}
		})
		n := r.rng.Intn(13)
		if r.rng.Intn(20) == 0 {
			n = r.rng.Intn(300)
		}
		gap := r.rng.Intn(n + 2)
		kind := r.rng.Intn(3)
		p := r.key()
		in3 := fmt.Sprintf("prefix %q n %d gap %d kind %d", p, n, gap, kind)
		r.try(in3, func() {
			d, sub := NewDict(), NewDict()
			var want, subw []string
			for i := 0; i < n; i++ {
				if i == gap && kind == 0 {
					continue
				}
				v := JSONObject(NewString(fmt.Sprint("v", i)))
				if i == gap && kind == 1 {
					v = JSONNull
				}
				d.Set(fmt.Sprintf("%s.%d", p, i), v)
				x := []*gvM{{k: 's'}, {k: 's', s: fmt.Sprint("v", i)}, {k: 's', s: fmt.Sprint("v", i)}, r.model(1)}[r.rng.Intn(4)]
				sub.Set(fmt.Sprint(i), r.doc(x))
				subw = append(subw, x.text())
				if x.k == 's' {
					subw[len(subw)-1] = x.s
				}
				if kind == 2 || i < gap {
					want = append(want, fmt.Sprint("v", i))
				}
			}
			d.Set(p+".x", JSONTrue)
			d.Set(p+"0", JSONTrue)
			g := GetArrayOfPrefix(d, p)
			if len(g) != len(want) {
				r.fail("prefix", in3, fmt.Sprintf("%v want %q", g, want))
				return
			}
			for i := range g {
				if x := gvOf(g[i]); x.k != 's' || x.s != want[i] {
					r.fail("prefix", in3, fmt.Sprintf("%v want %q", g, want))
				}
			}
			top := NewDict(JSONPair{key: "l", val: sub})
			if kind != 0 || gap >= n {
				if l := GetQueryStringArray(top, "l"); len(l) != n {
					r.fail("numbered", in3, fmt.Sprintf("%q", l))
				} else {
					for i := range l {
						if l[i] != subw[i] {
							r.fail("numbered", in3, fmt.Sprintf("%q", l))
						}
					}
				}
			}
		})
	}
}
