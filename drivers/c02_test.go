package jsonutils

import (
	"fmt"
)

// checks that q is a literal for s in the sense of the statement
func gvLiteral(q, s string) string {
	if len(q) < 2 || q[0] != '"' || q[len(q)-1] != '"' {
		return "not enclosed in double quotes"
	}
	in := q[1 : len(q)-1]
	j := 0
	for i := 0; i < len(in); {
		c := in[i]
		if c == '"' || c < 0x20 {
			return fmt.Sprintf("byte %d: unescaped %q", i+1, c)
		}
		if j >= len(s) {
			return "text too long"
		}
		if c != '\\' {
			if c != s[j] {
				return fmt.Sprintf("byte %d: %q instead of %q", i+1, c, s[j])
			}
			i++
			j++
			continue
		}
		if i+1 >= len(in) {
			return "backslash before the closing quote"
		}
		if s[j] >= 0x20 && s[j] != '"' && s[j] != '\\' {
			return fmt.Sprintf("byte %d: %q is escaped", i+1, s[j])
		}
		switch in[i+1] {
		case '"', '\\', '/':
			if in[i+1] != s[j] {
				return fmt.Sprintf("byte %d: wrong escape", i+1)
			}
			i += 2
		case 'b', 'f', 'n', 'r', 't':
			if map[byte]byte{'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}[in[i+1]] != s[j] {
				return fmt.Sprintf("byte %d: wrong escape", i+1)
			}
			i += 2
		case 'u':
			var v int
			if i+6 > len(in) {
				return "short \\u escape"
			}
			if n, e := fmt.Sscanf(in[i+2:i+6], "%04x", &v); n != 1 || e != nil || v != int(s[j]) {
				return fmt.Sprintf("byte %d: wrong \\u escape %q", i+1, in[i:i+6])
			}
			for _, h := range in[i+2 : i+6] {
				if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
					return "bad hex digit"
				}
			}
			i += 6
		default:
			return fmt.Sprintf("byte %d: escape \\%c is not standard", i+1, in[i+1])
		}
		j++
	}
	if j != len(s) {
		return "text too short"
	}
	return ""
}

func gvdDrive(r *gvdRun) {
	r.Rule = "all byte strings of length 0-2, then random byte strings up to 5000 bytes; distinct by string"
	one := func(s string) {
		in := fmt.Sprintf("NewString(%q).String()", s)
		r.try(in, func() {
			if m := gvLiteral(NewString(s).String(), s); m != "" {
				r.fail("literal", in, m+": "+NewString(s).String())
			}
			d := NewDict(JSONPair{key: s, val: JSONNull})
			t := d.String()
			if len(t) < 7 || t[0] != '{' || t[len(t)-6:] != ":null}" {
				r.fail("key", in, t)
			} else if m := gvLiteral(t[1:len(t)-6], s); m != "" {
				r.fail("key", in, m+": "+t)
			}
			if m := gvLiteral(NewString(s).PrettyString(), s); m != "" {
				r.fail("pretty", in, m)
			}
			if t := NewArray(NewString(s)).String(); len(t) < 2 || gvLiteral(t[1:len(t)-1], s) != "" {
				r.fail("array", in, t)
			}
		})
	}
	one("")
	for a := 0; a < 256; a++ {
		one(string([]byte{byte(a)}))
		for b := 0; b < 256 && a < 256; b++ {
			one(string([]byte{byte(a), byte(b)}))
		}
	}
	for r.more() {
		one(r.longstr())
		one(string(r.bytes(40)))
	}
}
