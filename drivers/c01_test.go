package jsonutils

import (
	"bytes"
	"fmt"
	"strings"
)

// structured text with random damage
func (r *gvdRun) jsonish() []byte {
	switch r.rng.Intn(5) {
	case 0:
		return r.bytes(30)
	case 1:
		toks := []string{"{", "}", "[", "]", ":", ",", "\"", "'", "\\", "\\u", "\\u00", "\\ud83d", "\\ude00", "\\x4", "null", "true", "1", "-", "1.5e", "<1>", "<", ">", "<>", "\"___jnid_\"", "\"___jnid_\":1", "___jnid_", " ", "\n", "a", "\"a\":", "99999999999999999999", "\x00", "\xff", "é", "<-1>", "\"___jnid_\":<2>", "\"___jnid_\":-1"}
		var b []byte
		for i, n := 0, r.rng.Intn(14); i < n; i++ {
			b = append(b, toks[r.rng.Intn(len(toks))]...)
		}
		return b
	}
	b := []byte(r.anyModel().text())
	if r.rng.Intn(3) == 0 {
		for i, n := 0, 1+r.rng.Intn(3); i < n && len(b) > 0; i++ {
			p := r.rng.Intn(len(b))
			switch r.rng.Intn(3) {
			case 0:
				b[p] = gvdBytes[r.rng.Intn(len(gvdBytes))]
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = append(b[:p], append([]byte{gvdBytes[r.rng.Intn(len(gvdBytes))]}, b[p:]...)...)
			}
		}
	}
	if r.rng.Intn(3) == 0 && len(b) > 0 {
		b = b[:r.rng.Intn(len(b))]
	}
	return b
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random bytes, token soups and damaged or cut JSON texts, each from random offsets and followed by bytes beyond its length; distinct by (text, offset)"
	r.try("deep nesting", func() {
		for _, d := range []int{100, 2000, 20000} {
			for _, s := range []string{"[", "{\"a\":", "[[1],"} {
				if _, e := Parse([]byte(strings.Repeat(s, d))); e == nil {
					r.fail("accept", fmt.Sprintf("%q x %d", s, d), "accepted")
				}
			}
		}
	})
	for n := 0; r.more(); n++ {
		b := r.jsonish()
		off := r.rng.Intn(len(b) + 1)
		if r.rng.Intn(2) == 0 {
			off = 0
		}
		in := fmt.Sprintf("ParseStream(%q, %d)", b, off)
		r.try(in, func() {
			full := append(append(make([]byte, 0, len(b)+40), b...), []byte("\"}]\" :,1]}\"'}]x")...)
			alt := append(append(make([]byte, 0, len(b)+40), b...), []byte("\x00\x01\\u12345zzz")...)
			o, end, err := ParseStream(full[:len(b):len(b)+14], off)
			if (err == nil) == gvNil(o) {
				r.fail("result", in, fmt.Sprintf("document %v, error %v", o, err))
				return
			}
			if end < off || end > len(b) {
				r.fail("offset", in, fmt.Sprintf("end offset %d", end))
			}
			o2, end2, err2 := ParseStream(alt[:len(b):len(b)+14], off)
			if end != end2 || (err == nil) != (err2 == nil) || err == nil && !gvSame(gvOf(o), gvOf(o2)) {
				r.fail("outside", in, fmt.Sprintf("the bytes beyond the input change the result: end %d/%d, %v/%v", end, end2, err, err2))
			}
			if !bytes.Equal(full[:len(b)], b) {
				r.fail("input", in, "the input was modified")
			}
		})
		in2 := fmt.Sprintf("ParseJsonStreams(%q)", b)
		r.try(in2, func() {
			l, err := ParseJsonStreams(b)
			if err != nil {
				if len(l) > 0 {
					r.fail("result", in2, fmt.Sprint(err))
				}
			}
			for _, o := range l {
				if gvNil(o) {
					r.fail("result", in2, "nil document")
				}
			}
		})
		in3 := fmt.Sprintf("Parse(%q)", b)
		r.try(in3, func() {
			o, err := Parse(b)
			if (err == nil) == gvNil(o) {
				r.fail("result", in3, fmt.Sprintf("document %v, error %v", o, err))
			}
			o, err = ParseString(string(b))
			if (err == nil) == gvNil(o) {
				r.fail("result", in3, fmt.Sprintf("document %v, error %v", o, err))
			}
		})
	}
}
