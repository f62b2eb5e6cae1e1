package jsonutils

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
)

func gvQS(m *gvM, key string) string {
	switch m.k {
	case 'a':
		var l []string
		for i, e := range m.a {
			k := strconv.Itoa(i)
			if key != "" {
				k = key + "." + k
			}
			l = append(l, gvQS(e, k))
		}
		return strings.Join(l, "&")
	case 'd':
		var l []string
		for _, x := range m.keys() {
			k := x
			if key != "" {
				k = key + "." + x
			}
			l = append(l, gvQS(m.m[x], k))
		}
		return strings.Join(l, "&")
	}
	v := m.text()
	if m.k == 's' {
		v = m.s
	}
	if m.k == 'n' {
		v = ""
	}
	switch {
	case key != "" && v != "":
		return url.QueryEscape(key) + "=" + url.QueryEscape(v)
	case v != "":
		return url.QueryEscape(v)
	}
	return url.QueryEscape(key)
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random nested dictionaries, and flat string dictionaries with dot-free non-numeric keys read back; distinct by dictionary"
	for turn := 0; r.more(); turn++ {
		if turn%500 == 40 {
			n := []int{300, 1100, 2500, 6000}[turn/500%4]
			big := NewDict()
			for i := 0; i < n; i++ {
				big.Set(fmt.Sprintf("k%d", i*7919%n), NewString(fmt.Sprint("v", i)))
			}
			in := fmt.Sprintf("flat, %d entries", n)
			r.try(in, func() {
				o, err := ParseQueryString(big.QueryString())
				if err != nil || !gvSame(gvOf(o), gvOf(big)) {
					r.fail("readback", in, fmt.Sprintf("differs: %v", err))
				}
			})
		}
		m := r.dictModel(3)
		in := m.desc()
		r.try(in, func() {
			d := r.doc(m).(*JSONDict)
			if got, want := d.QueryString(), gvQS(m, ""); got != want {
				r.fail("text", in, fmt.Sprintf("%q want %q", got, want))
			}
			var o JSONObject = d
			if o.QueryString() != d.QueryString() {
				r.fail("text", in, "unstable")
			}
		})
		flat := &gvM{k: 'd', m: map[string]*gvM{}}
		for i, n := 0, r.size(); i < n; i++ {
			k := r.key()
			if n > 8 {
				k += fmt.Sprint("q", i)
			}
			s := r.longstr()
			if _, e := strconv.ParseInt(k, 10, 64); e == nil || strings.Contains(k, ".") || s == "" || k == "" {
				continue
			}
			flat.m[k] = &gvM{k: 's', s: s}
		}
		in2 := "flat " + flat.desc()
		r.try(in2, func() {
			d := r.doc(flat).(*JSONDict)
			o, err := ParseQueryString(d.QueryString())
			if err != nil || !gvSame(gvOf(o), flat) {
				r.fail("readback", in2, fmt.Sprintf("%q: %v %v", d.QueryString(), o, err))
			}
		})
	}
}
