package jsonutils

// gvc:race

import (
	"fmt"
	"os"
	"sync"
	"time"
)

func gvRead(o JSONObject, other JSONObject, k string) {
	_ = o.String()
	_ = o.PrettyString()
	_ = o.QueryString()
	_ = o._queryString("p")
	_ = o.Equals(other)
	_ = other.Equals(o)
	_, _ = o.Get(k)
	_, _ = o.Get(k, k)
	_ = o.Contains(k)
	_ = o.ContainsIgnoreCases(k)
	_, _ = o.GetIgnoreCases(k)
	_, _ = o.Int(k)
	_, _ = o.Float(k)
	_, _ = o.Bool(k)
	_, _ = o.GetString(k)
	_, _ = o.GetTime(k)
	_, _ = o.Int()
	_, _ = o.Float()
	_, _ = o.Bool()
	_, _ = o.GetString()
	_, _ = o.GetTime()
	_, _ = o.GetMap(k)
	_, _ = o.GetArray(k)
	_, _ = o.GetMap()
	_, _ = o.GetArray()
	_, _ = o.GetAt(0)
	_, _ = o.GetAt(-1, k)
	_ = o.Interface()
	_ = o.isCompond()
	_ = o.IsZero()
	_ = DeepCopy(o)
	_ = GetAnyString(o, []string{k})
	_ = GetQueryStringArray(o, k)
	_ = GetArrayOfPrefix(o, k)
	_ = CheckRequiredFields(o, []string{k})
	_, _ = GetStringArray(o, k)
	switch v := o.(type) {
	case *JSONDict:
		_ = v.Copy(k)
		_ = v.CopyIncludes(k)
		_ = v.CopyExcludes(k)
		_ = v.SortedKeys()
		_ = v.Size()
		_ = v.Length()
		_ = v.Value()
		if d, ok := other.(*JSONDict); ok {
			_, _, _, _ = Diff(v, d)
			_, _, _, _ = Diff(d, v)
			NewDict().Update(v)
			NewDict().UpdateDefault(v)
		}
		for _, x := range v.SortedKeys() {
			e, _ := v.Get(x)
			gvRead(e, other, k)
		}
	case *JSONArray:
		_ = v.Copy()
		_ = v.Size()
		_ = v.Length()
		_ = v.Value()
		_ = v.GetStringArray()
		for _, e := range v.data {
			gvRead(e, other, k)
		}
	case *JSONString:
		_ = v.Value()
		_ = v.Length()
	}
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents read through every reading operation by two goroutines at once, under the race detector, and compared with their state before; distinct by document"
	for r.more() {
		m := r.model(3)
		p := r.near(m)
		k := r.key()
		if ks := m.keys(); len(ks) > 0 {
			k = ks[r.rng.Intn(len(ks))]
		}
		in := m.desc() + " and " + p.desc()
		if len(in) > 600 {
			continue
		}
		if os.Getenv("GVC_RACE") != "" {
			fmt.Fprintf(os.Stderr, "CASE %s key %q\n", in, k)
		}
		r.try(in, func() {
			o, q := r.doc(m), r.doc(p)
			if f, ok := o.(*JSONFloat); ok && r.rng.Intn(2) == 0 {
				f.bit = 0
			}
			if a, ok := o.(*JSONArray); ok {
				a.Add(&JSONFloat{data: 1.5}, NewFloat32(2.5))
				m = m.clone()
				m.a = append(m.a, &gvM{k: 'f', f: 1.5}, &gvM{k: 'f', f: 2.5})
			}
			var wg sync.WaitGroup
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							fmt.Fprintln(os.Stderr, "panic:", x)
							r.fail("panic", in, fmt.Sprint(x))
						}
					}()
					gvRead(o, q, k)
				}()
			}
			wg.Wait()
			if !gvSame(gvOf(o), m) || !gvSame(gvOf(q), p) {
				r.fail("write", in, "reading changed the document")
			}
			if !JSONTrue.data || JSONFalse.data {
				r.fail("constant", in, "a shared constant changed")
				JSONTrue.data, JSONFalse.data = true, false
			}
		})
		time.Sleep(0)
	}
}
