package jsonutils

import (
	"fmt"
	"strconv"
	"strings"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "compact and pretty texts and quoted strings cut at every position (texts over 300 bytes at 60 random ones), with both quote characters, plus damaged texts; distinct by cut text"
	check := func(b []byte) {
		in := fmt.Sprintf("Parse(%q)", b)
		r.try(in, func() {
			i := 0
			for i < len(b) && (b[i] == ' ' || b[i] == '\t' || b[i] == '\r' || b[i] == '\n') {
				i++
			}
			if i >= len(b) {
				return
			}
			cl := map[byte]byte{'{': '}', '[': ']', '"': '"', '\'': '\''}[b[i]]
			if cl == 0 {
				return
			}
			o, end, err := ParseStream(b, 0)
			if err != nil {
				return
			}
			if end <= i+1 || end > len(b) || b[end-1] != cl {
				r.fail("open", in, fmt.Sprintf("accepted up to %d as %s", end, gvOf(o).desc()))
				return
			}
			// what is before the last byte must not be accepted by itself
			if _, _, err := ParseStream(b[:end-1:end-1], 0); err == nil {
				r.fail("cut", fmt.Sprintf("Parse(%q)", b[:end-1]), "accepted without the closing delimiter")
			}
			if _, err := Parse(b[:end-1 : end-1]); err == nil {
				r.fail("cut", fmt.Sprintf("Parse(%q)", b[:end-1]), "accepted without the closing delimiter")
			}
		})
	}
	cut := func(b []byte) {
		in := fmt.Sprintf("Parse(%q)", b)
		r.try(in, func() {
			if o, end, err := ParseStream(b, 0); err == nil {
				r.fail("cut", in, fmt.Sprintf("accepted up to %d as %s", end, gvOf(o).desc()))
			}
			if len(b) > 2000 {
				return
			}
			if l, err := ParseJsonStreams(b); err == nil && len(b) > 0 && (b[0] == '{' || b[0] == '[') {
				// only inner documents may be found
				for _, o := range l {
					if len(o.String()) >= len(b)+4 {
						r.fail("cut", in, "stream")
					}
				}
			}
		})
	}
	for r.more() {
		m := r.anyModel()
		if m.k != 's' && m.k != 'a' && m.k != 'd' {
			continue
		}
		o := r.doc(m)
		for _, t := range []string{o.String(), o.PrettyString()} {
			if m.k == 's' && r.rng.Intn(2) == 0 {
				b := []byte{'\''}
				for i := 0; i < len(m.s); i++ {
					if m.s[i] == '\'' || m.s[i] == '\\' {
						b = append(b, '\\')
					}
					b = append(b, m.s[i])
				}
				t = string(append(b, '\''))
			}
			if r.rng.Intn(4) == 0 {
				t = strings.Replace(t, "{\"", `{"___jnid_":`+strconv.Itoa(1+r.rng.Intn(50))+`,"`, -1)
			}
			if n := len(t) - 1; n > 2 && m.k != 's' && r.rng.Intn(8) == 0 {
				t = t[:n] + "," + t[n:]
			}
			if len(t) <= 300 {
				for i := 1; i < len(t); i++ {
					cut([]byte(t[:i]))
				}
			} else {
				for i := 0; i < 60; i++ {
					cut([]byte(t[:1+r.rng.Intn(len(t)-1)]))
				}
			}
			b := []byte(t)
			for i, n := 0, 1+r.rng.Intn(3); i < n && len(b) > 1; i++ {
				p := r.rng.Intn(len(b))
				if r.rng.Intn(2) == 0 {
					b[p] = gvdBytes[r.rng.Intn(len(gvdBytes))]
				} else {
					b = append(b[:p], b[p+1:]...)
				}
			}
			check(b)
		}
	}
}
