package jsonutils

import (
	"strings"
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random dictionaries with key lists of 0-6 keys (present, absent, repeated); distinct by (dictionary, list)"
	for r.more() {
		m := r.dictModel(2)
		var l []string
		for i, n := 0, r.rng.Intn(7); i < n; i++ {
			k := r.key()
			if ks := m.keys(); len(ks) > 0 && r.rng.Intn(2) == 0 {
				k = ks[r.rng.Intn(len(ks))]
			}
			if len(l) > 0 && r.rng.Intn(6) == 0 {
				k = l[0]
			}
			if len(k) > 0 && r.rng.Intn(4) == 0 {
				// close to a key, but not it
				k = []string{k + "*", k[:len(k)-1], k[:len(k)-1] + "*", "*", k + k, strings.ToUpper(k), " " + k, k + ".", "^" + k, k[1:], "!" + k, "-" + k}[r.rng.Intn(12)]
			}
			l = append(l, k)
		}
		in := fmt.Sprintf("%s list %q", m.desc(), l)
		r.try(in, func() {
			d := r.doc(m).(*JSONDict)
			inl := map[string]bool{}
			for _, k := range l {
				inl[k] = true
			}
			for w := 0; w < 4; w++ {
				var c *JSONDict
				var what string
				switch w {
				case 0:
					c, what = d.CopyExcludes(l...), "CopyExcludes"
				case 1:
					c, what = d.CopyIncludes(l...), "CopyIncludes"
				case 2:
					c, what = d.Copy(), "Copy()"
				case 3:
					c, what = d.Copy(l...), "Copy"
				}
				n := 0
				for k := range m.m {
					want := inl[k] == (w == 1)
					if w == 2 {
						want = true
					}
					o, err := d.Get(k)
					x, cerr := c.Get(k)
					if err != nil {
						r.fail("original", in, k)
					}
					if want {
						n++
					}
					if (cerr == nil) != want || want && x != o {
						r.fail("entry", in, fmt.Sprintf("%s: key %q: %v %v", what, k, x, cerr))
					}
				}
				if c.Size() != n {
					r.fail("size", in, fmt.Sprintf("%s: %d entries want %d", what, c.Size(), n))
				}
				if g := gvOf(c); g.k != 'd' || len(g.m) != n {
					r.fail("broken", in, g.desc())
				}
				for _, k := range c.SortedKeys() {
					c.Set(k, NewString("changed"))
				}
				c.Set("zz", JSONTrue)
				c.Set("", JSONTrue)
				for _, k := range c.SortedKeys() {
					c.Remove(k)
				}
				if !gvSame(gvOf(d), m) {
					r.fail("shared", in, what+": changing the copy changed the original")
				}
				c = d.Copy()
				for _, k := range d.SortedKeys() {
					d.Set(k, JSONNull)
				}
				d.Set("qq", JSONTrue)
				if !gvSame(gvOf(c), m) {
					r.fail("shared", in, "changing the original changed the copy")
				}
				d = r.doc(m).(*JSONDict)
			}
			// arrays copy their top level as well
			am := &gvM{k: 'a'}
			for i, n := 0, r.size(); i < n; i++ {
				am.a = append(am.a, r.scalar())
			}
			a := r.doc(am).(*JSONArray)
			b := a.Copy()
			if !gvSame(gvOf(b), am) {
				r.fail("array", am.desc(), gvOf(b).desc())
			}
			for i := range am.a {
				b.SetAt(i, NewString("changed"))
			}
			b.Add(JSONTrue)
			if !gvSame(gvOf(a), am) {
				r.fail("array", am.desc(), "changing the copy changed the original")
			}
			b = a.Copy()
			a.Add(JSONTrue, JSONFalse)
			b.Add(JSONNull)
			if g := gvOf(a); !gvSame(g, &gvM{k: 'a', a: append(append([]*gvM{}, am.a...), &gvM{k: 'b', b: true}, &gvM{k: 'b'})}) {
				r.fail("array", am.desc(), "appending to the copy changed the original: "+g.desc())
			}
		})
	}
}
