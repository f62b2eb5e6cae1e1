package jsonutils

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

func (r *gvdRun) seg() string {
	switch r.rng.Intn(6) {
	case 0:
		return strconv.FormatInt(r.int64(), 10)
	case 1:
		return []string{"0", "1", "2", "10", "9", "11", "100", "007", "+1", "-0", "-1", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1a", "a1"}[r.rng.Intn(16)]
	case 2:
		return []string{"", "a", "b", "ab", "B", "A", "aa", "é", "\xff"}[r.rng.Intn(9)]
	}
	return strings.Replace(r.key(), ".", "_", -1)
}

func gvdDrive(r *gvdRun) {
	r.Rule = "triples of dotted keys of 1-5 segments sharing prefixes; distinct by triple"
	gen := func(base string) string {
		if base != "" && r.rng.Intn(2) == 0 {
			p := strings.Split(base, ".")
			p[r.rng.Intn(len(p))] = r.seg()
			return strings.Join(p, ".")
		}
		var s []string
		for i, n := 0, 1+r.rng.Intn(5); i < n; i++ {
			s = append(s, r.seg())
		}
		return strings.Join(s, ".")
	}
	ref := func(a, b string) bool {
		x, y := strings.Split(a, "."), strings.Split(b, ".")
		if len(x) != len(y) {
			return len(x) < len(y)
		}
		for i := range x {
			m, e1 := strconv.ParseInt(x[i], 10, 64)
			n, e2 := strconv.ParseInt(y[i], 10, 64)
			switch {
			case e1 == nil && e2 != nil:
				return true
			case e1 != nil && e2 == nil:
				return false
			case e1 == nil && m != n:
				return m < n
			case e1 != nil && x[i] != y[i]:
				return x[i] < y[i]
			}
		}
		return false
	}
	for r.more() {
		a := gen("")
		b := gen(a)
		c := gen(b)
		in := fmt.Sprintf("%q %q %q", a, b, c)
		r.try(in, func() {
			ss := strings2stringSegments([]string{a, b, c})
			if ss.Len() != 3 {
				r.fail("len", in, fmt.Sprint(ss.Len()))
			}
			k := []string{a, b, c}
			var l [3][3]bool
			for i := range k {
				for j := range k {
					l[i][j] = ss.Less(i, j)
					if l[i][j] != ref(k[i], k[j]) {
						r.fail("order", in, fmt.Sprintf("Less(%q,%q) = %v", k[i], k[j], l[i][j]))
					}
				}
			}
			for i := range k {
				for j := range k {
					if l[i][j] && l[j][i] {
						r.fail("asymmetric", in, "")
					}
					for h := range k {
						if l[i][j] && l[j][h] && !l[i][h] {
							r.fail("transitive", in, "")
						}
						if !l[i][j] && !l[j][i] && !l[j][h] && !l[h][j] && (l[i][h] || l[h][i]) {
							r.fail("incomparable", in, "")
						}
					}
				}
			}
			for i := range k {
				canon := true
				for _, s := range strings.Split(k[i], ".") {
					if n, e := strconv.ParseInt(s, 10, 64); e == nil && strconv.FormatInt(n, 10) != s {
						canon = false
					}
				}
				if canon && segments2string(string2Segments(k[i])) != k[i] {
					r.fail("join", in, segments2string(string2Segments(k[i])))
				}
				if n := len(string2Segments(k[i])); n != 1+strings.Count(k[i], ".") {
					r.fail("split", in, fmt.Sprint(n))
				}
			}
			x, y := ss[0], ss[1]
			ss.Swap(0, 1)
			if segments2string(ss[0]) != segments2string(y) || segments2string(ss[1]) != segments2string(x) || segments2string(ss[2]) != segments2string(string2Segments(c)) {
				r.fail("swap", in, "")
			}
			sort.Sort(ss)
			got := stringSegments2Strings(ss)
			for i := 1; i < 3; i++ {
				if ref(got[i], got[i-1]) {
					r.fail("sorted", in, fmt.Sprintf("%q", got))
				}
			}
		})
	}
	_ = math.MaxInt64
}
