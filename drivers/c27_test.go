package jsonutils

import (
	"fmt"
)

func gvdDrive(r *gvdRun) {
	r.Rule = "byte strings of length 0..60 with every position in -3..len+3; a case is distinct by (text, position)"
	for n := 0; r.more() && (n < 3000 || false); n++ {
		b := r.bytes(60)
		for pos := -3; pos <= len(b)+3; pos++ {
			pos := pos
			r.try(fmt.Sprintf("NewJSONError(%q, %d, \"m\")", b, pos), func() {
				e := NewJSONError(b, pos, "m")
				in := fmt.Sprintf("NewJSONError(%q, %d)", b, pos)
				if e == nil {
					r.fail("nil", in, "nil result")
					return
				}
				if len(b) == 0 {
					if e.pos != 0 {
						r.fail("pos", in, fmt.Sprint("pos ", e.pos))
					}
					return
				}
				want := pos
				if want < 0 {
					want = 0
				}
				if want > len(b)-1 {
					want = len(b) - 1
				}
				if e.pos < 0 || e.pos >= len(b) || pos >= 0 && pos < len(b) && e.pos != pos {
					r.fail("pos", in, fmt.Sprint("pos ", e.pos))
					return
				}
				lo, hi := e.pos-10, e.pos+10
				if lo < 0 {
					lo = 0
				}
				if hi > len(b) {
					hi = len(b)
				}
				ex := string(b[lo:e.pos]) + "^" + string(b[e.pos:hi])
				if e.substr != ex {
					r.fail("excerpt", in, fmt.Sprintf("excerpt %q want %q", e.substr, ex))
				}
				if e.msg != "m" {
					r.fail("msg", in, e.msg)
				}
				_ = e.Error()
			})
		}
	}
}
