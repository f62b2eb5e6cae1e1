package jsonutils

import (
	"fmt"
	"math"
	"strconv"
	"unicode/utf16"
)

// a random RFC 8259 rendering of a model whose strings are valid UTF-8
func (r *gvdRun) ws(b []byte) []byte {
	for r.rng.Intn(3) == 0 {
		b = append(b, " \t\r\n"[r.rng.Intn(4)])
	}
	return b
}

func (r *gvdRun) renderStr(b []byte, s string) []byte {
	b = append(b, '"')
	for _, c := range s {
		e := r.rng.Intn(6)
		short := map[rune]byte{'"': '"', '\\': '\\', '/': '/', 8: 'b', 12: 'f', 10: 'n', 13: 'r', 9: 't'}
		if x, ok := short[c]; ok && (e < 3 || (c == '"' || c == '\\') && e < 4) {
			b = append(b, '\\', x)
			continue
		}
		if c < 0x20 || c == '"' || c == '\\' || e == 0 {
			h := "%04x"
			if r.rng.Intn(2) == 0 {
				h = "%04X"
			}
			if c > 0xffff {
				hi, lo := utf16.EncodeRune(c)
				b = append(b, fmt.Sprintf("\\u"+h+"\\u"+h, hi, lo)...)
			} else {
				b = append(b, fmt.Sprintf("\\u"+h, c)...)
			}
			continue
		}
		b = append(b, string(c)...)
	}
	return append(b, '"')
}

func (r *gvdRun) ustr() string {
	var rs []rune
	for i, n := 0, r.rng.Intn(8); i < n; i++ {
		switch r.rng.Intn(5) {
		case 0:
			rs = append(rs, rune(r.rng.Intn(0x20)))
		case 1:
			rs = append(rs, []rune{'"', '\\', '/', 'u', 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x2028, ',', ':', ']', '}', '<', '>', 'd', '8', 'D'}[r.rng.Intn(26)])
		case 2:
			c := rune(r.rng.Intn(0x110000))
			if c >= 0xd800 && c < 0xe000 {
				c = 'x'
			}
			rs = append(rs, c)
		default:
			rs = append(rs, rune(32+r.rng.Intn(95)))
		}
	}
	return string(rs)
}

// a number text and its value
func (r *gvdRun) number() (string, *gvM) {
	s := ""
	if r.rng.Intn(3) == 0 {
		s = "-"
	}
	switch r.rng.Intn(4) {
	case 0:
		s += "0"
	case 1:
		s += strconv.Itoa(1 + r.rng.Intn(1000))
	case 2:
		s += []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1000000000000000000", "4294967296", "2147483648"}[r.rng.Intn(9)]
	case 3:
		n := 1 + r.rng.Intn(22)
		s += strconv.Itoa(1 + r.rng.Intn(9))
		for i := 1; i < n; i++ {
			s += strconv.Itoa(r.rng.Intn(10))
		}
	}
	isInt := true
	if r.rng.Intn(3) == 0 {
		isInt = false
		s += "."
		for i, n := 0, 1+r.rng.Intn(5); i < n; i++ {
			s += strconv.Itoa(r.rng.Intn(10))
		}
	}
	if r.rng.Intn(4) == 0 {
		isInt = false
		s += string("eE"[r.rng.Intn(2)]) + []string{"", "+", "-"}[r.rng.Intn(3)] + []string{"0", "1", "2", "10", "05", "20", "100", "280"}[r.rng.Intn(8)]
	}
	if isInt {
		if v, e := strconv.ParseInt(s, 10, 64); e == nil {
			return s, &gvM{k: 'i', i: v}
		}
	}
	f, e := strconv.ParseFloat(s, 64)
	if e != nil || math.IsInf(f, 0) {
		return "1.5", &gvM{k: 'f', f: 1.5}
	}
	return s, &gvM{k: 'f', f: f}
}

func (r *gvdRun) render(b []byte, depth int) ([]byte, *gvM) {
	k := r.rng.Intn(9)
	if depth <= 0 {
		k = r.rng.Intn(6)
	}
	switch k {
	case 0:
		return append(b, "null"...), &gvM{k: 'n'}
	case 1:
		return append(b, "true"...), &gvM{k: 'b', b: true}
	case 2:
		return append(b, "false"...), &gvM{k: 'b'}
	case 3, 4:
		s, m := r.number()
		return append(b, s...), m
	case 5:
		s := r.ustr()
		return r.renderStr(b, s), &gvM{k: 's', s: s}
	case 6:
		m := &gvM{k: 'a'}
		b = append(b, '[')
		n := r.size()
		if n > 5 {
			depth = 1
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = r.ws(b)
			var e *gvM
			b, e = r.render(b, depth-1)
			m.a = append(m.a, e)
			b = r.ws(b)
		}
		if n == 0 {
			b = r.ws(b)
		}
		return append(b, ']'), m
	}
	m := &gvM{k: 'd', m: map[string]*gvM{}}
	b = append(b, '{')
	n := r.size()
	if n > 5 {
		depth = 1
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		b = r.ws(b)
		key := r.ustr()
		if r.rng.Intn(2) == 0 {
			key = []string{"a", "b", "", "é", "\U0001F600", "A", "aa"}[r.rng.Intn(7)]
		}
		b = r.renderStr(b, key)
		b = r.ws(b)
		b = append(b, ':')
		b = r.ws(b)
		var e *gvM
		b, e = r.render(b, depth-1)
		m.m[key] = e
		b = r.ws(b)
	}
	if n == 0 {
		b = r.ws(b)
	}
	return append(b, '}'), m
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random RFC 8259 texts: random white space, every escape form, repeated names, numbers around the 64-bit limits; distinct by text"
	for r.more() {
		b := r.ws(nil)
		var m *gvM
		b, m = r.render(b, 4)
		if r.rng.Intn(30) == 0 {
			pre, post := "", ""
			for i, n := 0, r.rng.Intn(200); i < n; i++ {
				if r.rng.Intn(2) == 0 {
					pre, post = pre+"[", "]"+post
					m = &gvM{k: 'a', a: []*gvM{m}}
				} else {
					pre, post = pre+"[ ", " ]"+post
					m = &gvM{k: 'a', a: []*gvM{m}}
				}
			}
			b = []byte(pre + string(b) + post)
		}
		end0 := len(b)
		b = r.ws(b)
		in := fmt.Sprintf("Parse(%q)", b)
		r.try(in, func() {
			o, end, err := ParseStream(b, 0)
			if err != nil {
				r.fail("reject", in, err.Error())
				return
			}
			if g := gvOf(o); !gvSame(g, m) {
				r.fail("meaning", in, fmt.Sprintf("got %s want %s", g.desc(), m.desc()))
			}
			if end != end0 {
				r.fail("end", in, fmt.Sprintf("end %d want %d", end, end0))
			}
			if o, err := Parse(b); err != nil || !gvSame(gvOf(o), m) {
				r.fail("parse", in, fmt.Sprint(err))
			}
			if o, err := ParseString(string(b)); err != nil || !gvSame(gvOf(o), m) {
				r.fail("parse", in, fmt.Sprint(err))
			}
		})
	}
}
