package jsonutils

import (
	"fmt"
	"math"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "random arrays of 0-300 elements, every index near the bounds and extreme indices, appends, replacements and copies of the element list; distinct by (array, step)"
	for r.more() {
		n := r.size()
		var ref []JSONObject
		for i := 0; i < n; i++ {
			ref = append(ref, r.doc(r.scalar()))
		}
		arr := NewArray(ref...)
		if n == 0 && r.rng.Intn(2) == 0 {
			arr = &JSONArray{}
		}
		same := func(in, cl string) {
			if arr.Size() != len(ref) || arr.Length() != len(ref) {
				r.fail(cl, in, fmt.Sprintf("size %d length %d want %d", arr.Size(), arr.Length(), len(ref)))
				return
			}
			for i := range ref {
				if o, err := arr.GetAt(i); err != nil || o != ref[i] {
					r.fail(cl, in, fmt.Sprintf("element %d: %v %v", i, o, err))
					return
				}
			}
		}
		for step := 0; step < 6; step++ {
			in := fmt.Sprintf("array of %d step %d seed %d", len(ref), step, r.rng.Int63())
			r.try(in, func() {
				same(in, "elements")
				idx := []int{math.MaxInt64, math.MinInt64, math.MinInt64 + 1, -1 << 31, 1 << 31, 1 << 32, -1 << 32}
				for i := -len(ref) - 3; i < len(ref)+3; i++ {
					idx = append(idx, i)
				}
				top := NewDict(JSONPair{key: "l", val: arr})
				for _, i := range idx {
					for w := 0; w < 2; w++ {
						o, err := arr.GetAt(i)
						if w == 1 {
							o, err = top.GetAt(i, "l")
						}
						j := i
						if j < 0 {
							j += len(ref)
						}
						if i >= -len(ref) && i < len(ref) {
							if err != nil || o != ref[j] {
								r.fail("index", in, fmt.Sprintf("GetAt(%d): %v %v", i, o, err))
							}
						} else if err == nil || o != nil {
							r.fail("range", in, fmt.Sprintf("GetAt(%d): %v %v", i, o, err))
						}
					}
				}
				if _, err := arr.GetAt(0, "k"); err == nil {
					r.fail("key", in, "no error for a key")
				}
				// lists handed out are copies
				for w := 0; w < 4; w++ {
					var l []JSONObject
					var err error
					switch w {
					case 0:
						l, err = arr.GetArray()
					case 1:
						l, err = top.GetArray("l")
					case 2:
						l = arr.Value()
					case 3:
						l = arr.Copy().data
					}
					if err != nil || len(l) != len(ref) {
						r.fail("list", in, fmt.Sprintf("%d elements, %v", len(l), err))
						continue
					}
					for i := range l {
						if l[i] != ref[i] {
							r.fail("list", in, fmt.Sprintf("element %d", i))
						}
						l[i] = JSONNull
					}
					l = append(l, JSONTrue)
					same(in, "aliased")
				}
				switch r.rng.Intn(3) {
				case 0:
					var add []JSONObject
					for i, k := 0, r.rng.Intn(4); i < k; i++ {
						add = append(add, r.doc(r.scalar()))
					}
					other := arr.Copy()
					arr.Add(add...)
					if other.Size() != len(ref) {
						r.fail("copy", in, "appending changed a copy")
					}
					ref = append(append([]JSONObject{}, ref...), add...)
					same(in, "append")
					for i := range add {
						add[i] = JSONNull
					}
					same(in, "args")
				case 1:
					if len(ref) > 0 {
						i := r.rng.Intn(len(ref))
						x := r.doc(r.scalar())
						arr.SetAt(i, x)
						ref = append([]JSONObject{}, ref...)
						ref[i] = x
						same(in, "replace")
					}
				case 2:
					// the argument list stays the caller's
					args := append([]JSONObject{}, ref...)
					a2 := NewArray(args...)
					for i := range args {
						args[i] = JSONNull
					}
					for i := range ref {
						if o, err := a2.GetAt(i); err != nil || o != ref[i] {
							r.fail("args", in, fmt.Sprintf("element %d", i))
						}
					}
				}
			})
		}
	}
}
