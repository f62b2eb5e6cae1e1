package jsonutils

import (
	"fmt"
	"strconv"
	"strings"
)

func (r *gvdRun) numStr() string {
	switch r.rng.Intn(5) {
	case 0:
		return strconv.FormatInt(r.int64(), 10)
	case 1:
		return strconv.FormatFloat(r.float(), "fgeE"[r.rng.Intn(4)], -1, 64)
	case 2:
		w := []string{"true", "on", "yes", "1", "false", "off", "no", "0", "y", "n", "t", "f", "T", "tru", "truee", " true", "true ", "01", "-0", "+1", "none", "enable", "ſo", "oﬀ"}[r.rng.Intn(24)]
		b := []byte(w)
		for i := range b {
			if r.rng.Intn(2) == 0 && b[i] < 128 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	case 3:
		return []string{"", " 1", "1 ", "0x10", "1_000", "1e3", "9223372036854775808", "-9223372036854775809", "+5", "--1", "1.", ".5", "inf", "NaN", "-Inf", "Infinity", "1e400", "0b1", "007", "1,000", "12a"}[r.rng.Intn(21)]
	}
	return r.str()
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random scalars, arrays and dictionaries with key paths; strings biased to numbers and boolean words in mixed case; distinct by (document, path)"
	for r.more() {
		m := r.scalar()
		if r.rng.Intn(2) == 0 {
			m = &gvM{k: 's', s: r.numStr()}
		}
		if r.rng.Intn(8) == 0 {
			m = r.model(2)
		}
		in := m.desc()
		r.try(in, func() {
			o := r.doc(m)
			depth := r.rng.Intn(3)
			var path []string
			var top JSONObject = o
			for i := 0; i < depth; i++ {
				k := r.key()
				path = append([]string{k}, path...)
				top = NewDict(JSONPair{key: k, val: top}, JSONPair{key: k + "x", val: NewInt(77)})
			}
			in := fmt.Sprintf("%s at %q", m.desc(), path)
			// expectations
			var wi int64
			var wf float64
			var wb, iok, fok, bok bool
			switch m.k {
			case 'i':
				wi, iok, wf, fok = m.i, true, float64(m.i), true
			case 'f':
				wf, fok = m.f, true
			case 'b':
				wb, bok = m.b, true
			case 's':
				var e error
				if wi, e = strconv.ParseInt(m.s, 10, 64); e == nil {
					iok = true
				} else {
					wi = 0
				}
				if wf, e = strconv.ParseFloat(m.s, 64); e == nil {
					fok = true
				} else {
					wf = 0
				}
				for _, w := range []string{"true", "on", "yes", "1"} {
					if strings.EqualFold(m.s, w) {
						wb, bok = true, true
					}
				}
				for _, w := range []string{"false", "off", "no", "0"} {
					if strings.EqualFold(m.s, w) {
						bok = true
					}
				}
			}
			gi, e := top.Int(path...)
			if (e == nil) != iok || gi != wi {
				r.fail("int", in, fmt.Sprintf("%d %v, want %d ok=%v", gi, e, wi, iok))
			}
			gf, e := top.Float(path...)
			if (e == nil) != fok || gf != wf && !(gf != gf && wf != wf) {
				r.fail("float", in, fmt.Sprintf("%v %v, want %v ok=%v", gf, e, wf, fok))
			}
			gb, e := top.Bool(path...)
			if (e == nil) != bok || gb != wb {
				r.fail("bool", in, fmt.Sprintf("%v %v, want %v ok=%v", gb, e, wb, bok))
			}
			gs, e := top.GetString(path...)
			ws := m.text()
			if m.k == 's' {
				ws = m.s
			}
			if e != nil || gs != ws {
				r.fail("string", in, fmt.Sprintf("%q %v, want %q", gs, e, ws))
			}
			// sub-keys of what is not a dictionary
			if m.k != 'd' {
				p := append(append([]string{}, path...), "sub")
				if v, e := top.Int(p...); e == nil || v != 0 {
					r.fail("subkey", in, fmt.Sprint("Int ", v))
				}
				if v, e := top.Float(p...); e == nil || v != 0 {
					r.fail("subkey", in, fmt.Sprint("Float ", v))
				}
				if v, e := top.Bool(p...); e == nil || v {
					r.fail("subkey", in, fmt.Sprint("Bool ", v))
				}
				if v, e := top.GetString(p...); e == nil || v != "" {
					r.fail("subkey", in, fmt.Sprint("GetString ", v))
				}
				if v, e := top.Get(p...); e == nil || v != nil {
					r.fail("subkey", in, fmt.Sprint("Get ", v))
				}
				if v, e := top.GetArray(p...); e == nil || v != nil {
					r.fail("subkey", in, fmt.Sprint("GetArray ", v))
				}
				if v, e := top.GetMap(p...); e == nil || v != nil {
					r.fail("subkey", in, fmt.Sprint("GetMap ", v))
				}
				if v, e := top.GetTime(p...); e == nil || !v.IsZero() {
					r.fail("subkey", in, fmt.Sprint("GetTime ", v))
				}
				if v, e := top.GetAt(0, p...); e == nil || v != nil {
					r.fail("subkey", in, fmt.Sprint("GetAt ", v))
				}
			}
			// a missing key
			if depth > 0 {
				p := append([]string{}, path...)
				p[len(p)-1] += "?"
				if v, e := top.Int(p...); e == nil || v != 0 {
					r.fail("missing", in, fmt.Sprint("Int ", v))
				}
				if v, e := top.Float(p...); e == nil || v != 0 {
					r.fail("missing", in, fmt.Sprint("Float ", v))
				}
				if v, e := top.Bool(p...); e == nil || v {
					r.fail("missing", in, fmt.Sprint("Bool ", v))
				}
				if v, e := top.GetString(p...); e == nil || v != "" {
					r.fail("missing", in, fmt.Sprint("GetString ", v))
				}
			}
		})
	}
}
