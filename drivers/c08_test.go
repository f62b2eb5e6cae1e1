package jsonutils

import (
	"fmt"
	"sort"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random histories of up to 400 insertions, replacements and removals on one dictionary, checked after every step; distinct by history"
	for r.more() {
		steps := 1 + r.rng.Intn(30)
		wide := 0
		if r.rng.Intn(12) == 0 {
			steps = 100 + r.rng.Intn(300)
			wide = 5 + r.rng.Intn(150)
		}
		hist := "NewDict"
		ref := map[string]JSONObject{}
		var d *JSONDict
		r.try(fmt.Sprintf("history seed %d", r.rng.Int63()), func() {
			if r.rng.Intn(2) == 0 {
				d = NewDict()
			} else {
				var ps []JSONPair
				for i, n := 0, r.size(); i < n; i++ {
					k := r.key()
					v := JSONObject(NewInt(int64(i)))
					ps = append(ps, JSONPair{key: k, val: v})
					ref[k] = v
					hist += fmt.Sprintf(" %q:%d", k, i)
				}
				d = NewDict(ps...)
			}
			for s := 0; s < steps; s++ {
				k := r.key()
				if wide > 0 {
					k = fmt.Sprint("k", r.rng.Intn(wide))
				}
				switch r.rng.Intn(5) {
				case 0, 1:
					// another object, often with the content the key already has
					hist += fmt.Sprintf(" Set(%q,%d)", k, s)
					v := r.holds()
					if old, ok := ref[k]; ok && r.rng.Intn(2) == 0 {
						v = r.doc(gvOf(old))
					}
					d.Set(k, v)
					ref[k] = v
				case 2:
					hist += fmt.Sprintf(" Set(%q,%d)", k, s)
					v := JSONObject(NewInt(int64(s)))
					d.Set(k, v)
					ref[k] = v
				case 3:
					if r.rng.Intn(2) == 0 && len(ref) > 0 {
						ks := make([]string, 0)
						for x := range ref {
							ks = append(ks, x)
						}
						sort.Strings(ks)
						k = ks[[]int{0, len(ks) - 1, r.rng.Intn(len(ks))}[r.rng.Intn(3)]]
					}
					hist += fmt.Sprintf(" Remove(%q)", k)
					_, was := ref[k]
					if got := d.Remove(k); got != was {
						r.fail("removed", hist, fmt.Sprint("Remove reports ", got))
					}
					delete(ref, k)
				case 4:
					hist += fmt.Sprintf(" Add(%q,%d)", k, s)
					v := r.holds()
					if err := d.Add(v, k); err != nil {
						r.fail("add", hist, err.Error())
					}
					ref[k] = v
				}
				if d.Size() != len(ref) || d.Length() != len(ref) {
					r.fail("size", hist, fmt.Sprintf("size %d length %d want %d", d.Size(), d.Length(), len(ref)))
				}
				ks := d.SortedKeys()
				if len(ks) != len(ref) {
					r.fail("keys", hist, fmt.Sprintf("%q", ks))
				}
				for i, x := range ks {
					if _, ok := ref[x]; !ok || i > 0 && ks[i-1] >= x {
						r.fail("keys", hist, fmt.Sprintf("%q", ks))
					}
				}
				for x, v := range ref {
					o, err := d.Get(x)
					if err != nil {
						r.fail("lost", hist, fmt.Sprintf("key %q: %v", x, err))
						continue
					}
					if o != v {
						r.fail("value", hist, fmt.Sprintf("key %q: %v want the object %v", x, o, v))
					}
					if !d.Contains(x) {
						r.fail("contains", hist, fmt.Sprintf("key %q", x))
					}
				}
				for i := 0; i < 4; i++ {
					x := r.key()
					if i == 0 {
						x = k
					}
					_, was := ref[x]
					_, err := d.Get(x)
					if (err == nil) != was || d.Contains(x) != was {
						r.fail("absent", hist, fmt.Sprintf("key %q: %v", x, err))
					}
				}
				m, err := d.GetMap()
				if err != nil || len(m) != len(ref) {
					r.fail("map", hist, fmt.Sprintf("%v %v", m, err))
				}
				for x, v := range ref {
					if m[x] != v {
						r.fail("map", hist, fmt.Sprintf("key %q: %v", x, m[x]))
					}
				}
				if len(r.Violations) > 5 {
					return
				}
			}
		})
	}
}

// a value to store: any kind of document
func (r *gvdRun) holds() JSONObject {
	switch r.rng.Intn(8) {
	case 0:
		return JSONNull
	case 1:
		return NewArray()
	case 2:
		return NewDict()
	case 3:
		return NewString("")
	}
	return r.doc(r.model(1))
}
