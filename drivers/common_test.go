package jsonutils

// Shared part of the concrete drivers: generators, recording, time budget.
// A driver looks for a concrete input on which the real code breaks one
// property. It decides nothing on its own account except where MANIFEST.json
// says a function is only covered by a bounded stand-in.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type gvdViolation struct {
	Class  string `json:"class"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type gvdRun struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Violations  []gvdViolation `json:"violations"`

	rng   *rand.Rand
	end   time.Time
	seen  map[uint64]bool
	perCl map[string]int
	cur   string
	curAt time.Time
	mute  bool

	mu   sync.Mutex
	note []byte // shared memory: the case under way, read by the checker after a crash
}

// at records the case under way
func (r *gvdRun) at(desc string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cur, r.curAt = desc, time.Now()
	if r.note != nil {
		if len(desc) > 2000 {
			desc = desc[:2000]
		}
		r.note[0], r.note[1] = byte(len(desc)>>8), byte(len(desc))
		copy(r.note[2:], desc)
	}
}

// more reports whether the time budget allows another case
func (r *gvdRun) more() bool { return time.Now().Before(r.end) && len(r.Violations) < 40 }

func (r *gvdRun) fail(class, input, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perCl[class]++
	if r.perCl[class] > 3 {
		return
	}
	if len(input) > 2000 {
		input = input[:2000] + "..."
	}
	if len(detail) > 2000 {
		detail = detail[:2000] + "..."
	}
	r.Violations = append(r.Violations, gvdViolation{class, input, detail})
}

// one case: f runs under a recover; a panic is a violation of class "panic"
func (r *gvdRun) try(desc string, f func()) {
	r.Evaluations++
	h := fnv.New64a()
	h.Write([]byte(desc))
	if hv := h.Sum64(); !r.seen[hv] && len(r.seen) < 2000000 {
		r.seen[hv] = true
		r.Distinct++
		if len(r.Samples) < 12 && (r.Distinct < 4 || r.rng.Intn(200) == 0) {
			s := desc
			if len(s) > 300 {
				s = s[:300]
			}
			r.Samples = append(r.Samples, s)
		}
	}
	r.at(desc)
	defer func() {
		r.at("")
		if p := recover(); p != nil {
			r.fail("panic", desc, fmt.Sprintf("panic: %v\n%s", p, gvdTrim(string(debug.Stack()), 1200)))
		}
	}()
	f()
}

func gvdTrim(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func TestGVC(t *testing.T) {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	secs, err := strconv.Atoi(os.Getenv("GVC_SECONDS"))
	if err != nil {
		secs = 10
	}
	r := &gvdRun{rng: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(secs) * time.Second), seen: map[uint64]bool{}, perCl: map[string]int{}, Violations: []gvdViolation{}, Samples: []string{}}
	if f := os.Getenv("GVC_OUT"); f != "" {
		if fd, err := os.OpenFile(f+".cur", os.O_RDWR|os.O_CREATE, 0644); err == nil {
			fd.Truncate(4096)
			if m, err := syscall.Mmap(int(fd.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				r.note = m
			}
			fd.Close()
		}
	}
	write := func() {
		b, _ := json.Marshal(r)
		if f := os.Getenv("GVC_OUT"); f != "" {
			os.WriteFile(f, b, 0644)
		} else {
			fmt.Println(string(b))
		}
	}
	done := make(chan bool)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				r.fail("panic", r.cur, fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
			}
			done <- true
		}()
		gvdDrive(r)
	}()
	tick := time.NewTicker(500 * time.Millisecond)
	for {
		select {
		case <-done:
			write()
			return
		case <-tick.C:
			r.mu.Lock()
			c, at := r.cur, r.curAt
			r.mu.Unlock()
			if c == "" {
				continue
			}
			late := time.Since(at) > 6*time.Second
			var ms runtime.MemStats
			if !late && time.Since(at) > 500*time.Millisecond {
				runtime.ReadMemStats(&ms)
			}
			if late || ms.HeapAlloc > 3<<30 {
				// the case does not end
				v := gvdViolation{"hang", gvdTrim(c, 2000), "the call did not return within 6 s or took more than 3 GB"}
				b, _ := json.Marshal(map[string]interface{}{"evaluations": r.Evaluations, "distinct_nontrivial": r.Distinct, "rule": r.Rule, "samples": []string{}, "violations": []gvdViolation{v}})
				os.WriteFile(os.Getenv("GVC_OUT"), b, 0644)
				os.Exit(0)
			}
		}
	}
}

// ---- generators ----

var gvdBytes = []byte{0, 1, 8, 9, 10, 12, 13, 31, 32, '"', '\'', '\\', '/', '{', '}', '[', ']', ':', ',', '<', '>', '&', '=', '.', '%', '+', '-', '0', '1', '9', 'a', 'b', 'e', 'f', 'n', 'r', 't', 'u', 'x', 'A', 'Z', 'z', 127, 128, 0xbf, 0xc3, 0xa9, 0xe2, 0x80, 0xa8, 0xf0, 0x9f, 0xff}

func (r *gvdRun) bytes(n int) []byte {
	b := make([]byte, r.rng.Intn(n+1))
	for i := range b {
		if r.rng.Intn(4) == 0 {
			b[i] = byte(r.rng.Intn(256))
		} else {
			b[i] = gvdBytes[r.rng.Intn(len(gvdBytes))]
		}
	}
	return b
}

func (r *gvdRun) str() string {
	switch r.rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"true", "null", "12", "-3", "1.5", "yes", "none", "<3>", "é", "\u2028", "\U0001F600", "a b", "\\u0041", "\"", "'", "]", "}", "a:b", "___", "Key", "KEY"}[r.rng.Intn(21)]
	case 2:
		return string(r.bytes(40))
	}
	return string(r.bytes(6))
}

var gvdKeys = []string{"a", "b", "c", "A", "B", "aa", "Ab", "aB", "AB", "z", "0", "1", "10", "2", "x.y", "", "key", "Key", "KEY", "é", "É", "ſ", "s", "S", "K", "k", "\u212a"}

func (r *gvdRun) key() string {
	switch r.rng.Intn(24) {
	case 0, 1, 2, 3:
		return r.str()
	case 4:
		return r.longstr()
	}
	return gvdKeys[r.rng.Intn(len(gvdKeys))]
}

func (r *gvdRun) int64() int64 {
	switch r.rng.Intn(5) {
	case 0:
		return []int64{0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, 4294967295, 4294967296, 9223372036854775807, -9223372036854775808}[r.rng.Intn(20)]
	case 1:
		return int64(r.rng.Uint64())
	}
	return int64(r.rng.Intn(200) - 100)
}

// ---- documents and their reference model ----

// gvM is an independent model of a document: k is one of n(ull) b i f s a d
type gvM struct {
	k byte
	b bool
	i int64
	f float64
	s string
	a []*gvM
	m map[string]*gvM
}

func (m *gvM) desc() string {
	switch m.k {
	case 'n':
		return "null"
	case 'b':
		return fmt.Sprint(m.b)
	case 'i':
		return fmt.Sprintf("int(%d)", m.i)
	case 'f':
		return fmt.Sprintf("float(%v)", m.f)
	case 's':
		return strconv.Quote(m.s)
	case 'a':
		s := "["
		for i, e := range m.a {
			if i > 0 {
				s += ","
			}
			s += e.desc()
		}
		return s + "]"
	}
	s := "{"
	for i, k := range m.keys() {
		if i > 0 {
			s += ","
		}
		s += strconv.Quote(k) + ":" + m.m[k].desc()
	}
	return s + "}"
}

func (m *gvM) keys() []string {
	ks := make([]string, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// compact text according to the statement, written independently
func (m *gvM) text() string {
	var b []byte
	return string(m.app(b))
}

func gvQuote(b []byte, s string) []byte {
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\b':
			b = append(b, '\\', 'b')
		case c == '\f':
			b = append(b, '\\', 'f')
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '\r':
			b = append(b, '\\', 'r')
		case c == '\t':
			b = append(b, '\\', 't')
		case c < 0x20:
			b = append(b, fmt.Sprintf("\\u%04x", c)...)
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

func (m *gvM) app(b []byte) []byte {
	switch m.k {
	case 'n':
		return append(b, "null"...)
	case 'b':
		return strconv.AppendBool(b, m.b)
	case 'i':
		return strconv.AppendInt(b, m.i, 10)
	case 'f':
		return strconv.AppendFloat(b, m.f, 'f', -1, 64)
	case 's':
		return gvQuote(b, m.s)
	case 'a':
		b = append(b, '[')
		for i, e := range m.a {
			if i > 0 {
				b = append(b, ',')
			}
			b = e.app(b)
		}
		return append(b, ']')
	}
	b = append(b, '{')
	for i, k := range m.keys() {
		if i > 0 {
			b = append(b, ',')
		}
		b = gvQuote(b, k)
		b = append(b, ':')
		b = m.m[k].app(b)
	}
	return append(b, '}')
}

func gvSame(x, y *gvM) bool {
	if x == nil || y == nil {
		return x == y
	}
	if x.k != y.k || x.b != y.b || x.i != y.i || x.s != y.s || x.f != y.f && !(x.f != x.f && y.f != y.f) || len(x.a) != len(y.a) || len(x.m) != len(y.m) {
		return false
	}
	for i := range x.a {
		if !gvSame(x.a[i], y.a[i]) {
			return false
		}
	}
	for k, v := range x.m {
		w, ok := y.m[k]
		if !ok || !gvSame(v, w) {
			return false
		}
	}
	return true
}

// like gvSame, but a float with an integral value may meet the integer of the same value
func gvSameNum(x, y *gvM) bool {
	if x.k == 'f' && y.k == 'i' {
		return x.f == float64(y.i) && x.f == math.Trunc(x.f)
	}
	if x.k != y.k || len(x.a) != len(y.a) || len(x.m) != len(y.m) {
		return false
	}
	for i := range x.a {
		if !gvSameNum(x.a[i], y.a[i]) {
			return false
		}
	}
	for k, v := range x.m {
		w, ok := y.m[k]
		if !ok || !gvSameNum(v, w) {
			return false
		}
	}
	return x.k == 'a' || x.k == 'd' || gvSame(x, y)
}

// gvOf reads a document through its representation; "?" marks a broken one
func gvOf(o JSONObject) *gvM {
	switch v := o.(type) {
	case *JSONDict:
		m := &gvM{k: 'd', m: map[string]*gvM{}}
		for i, e := range v.data.Keys() {
			if i > 0 && v.data.Keys()[i-1] >= e {
				return &gvM{k: '?', s: "keys out of order"}
			}
			x, ok := v.data.Get(e)
			if !ok {
				return &gvM{k: '?', s: "listed key not found"}
			}
			j, ok := x.(JSONObject)
			if !ok {
				return &gvM{k: '?', s: "nil value"}
			}
			m.m[e] = gvOf(j)
		}
		return m
	case *JSONArray:
		m := &gvM{k: 'a'}
		for _, e := range v.data {
			m.a = append(m.a, gvOf(e))
		}
		return m
	case *JSONString:
		return &gvM{k: 's', s: v.data}
	case *JSONInt:
		return &gvM{k: 'i', i: v.data}
	case *JSONFloat:
		return &gvM{k: 'f', f: v.data}
	case *JSONBool:
		return &gvM{k: 'b', b: v.data}
	case *JSONValue:
		return &gvM{k: 'n'}
	}
	return &gvM{k: '?', s: fmt.Sprintf("%T", o)}
}

// doc builds the document through the API, in random order and with some detours
func (r *gvdRun) doc(m *gvM) JSONObject {
	switch m.k {
	case 'n':
		return JSONNull
	case 'b':
		if r.rng.Intn(3) == 0 {
			return &JSONBool{data: m.b}
		}
		return NewBool(m.b)
	case 'i':
		return NewInt(m.i)
	case 'f':
		switch r.rng.Intn(5) {
		case 0:
			return NewFloat(m.f)
		case 1:
			return &JSONFloat{data: m.f} // as the parser makes them
		case 2:
			// a 32-bit float, where its text is the same
			if float64(float32(m.f)) == m.f && strconv.FormatFloat(m.f, 'f', -1, 32) == strconv.FormatFloat(m.f, 'f', -1, 64) {
				return NewFloat32(float32(m.f))
			}
		}
		return NewFloat64(m.f)
	case 's':
		return NewString(m.s)
	case 'a':
		if r.rng.Intn(3) == 0 {
			var l []JSONObject
			for _, e := range m.a {
				l = append(l, r.doc(e))
			}
			return NewArray(l...)
		}
		arr := NewArray()
		for _, e := range m.a {
			arr.Add(r.doc(e))
		}
		return arr
	}
	d := NewDict()
	ks := m.keys()
	r.rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	if r.rng.Intn(4) == 0 {
		var l []JSONPair
		for _, k := range ks {
			l = append(l, JSONPair{key: k, val: r.doc(m.m[k])})
		}
		return NewDict(l...)
	}
	for _, k := range ks {
		if r.rng.Intn(8) == 0 {
			d.Set(k, NewInt(1))
		}
		if r.rng.Intn(12) == 0 {
			x := r.key()
			if _, ok := m.m[x]; !ok {
				d.Set(x, JSONTrue)
				d.Remove(x)
			}
		}
		d.Set(k, r.doc(m.m[k]))
	}
	return d
}

var gvdFloats = []float64{0, 1, -1, 0.5, -2.25, 3.14159, 1e15, 1e21, 123456789012345678, 9007199254740993, 1e-7, 5e-324, 1.7976931348623157e308, -1e300, 0.1, 2147483648, 9.223372036854775807e18, 1.8446744073709552e19, 100, 1e6, 16777217, math.Copysign(0, -1), 1e20, 1e22, 123456.789e-12, 0.000001, 9007199254740992, -9.223372036854775808e18, 3.4028235e38, 1e39}

func (r *gvdRun) float() float64 {
	switch r.rng.Intn(4) {
	case 0:
		return gvdFloats[r.rng.Intn(len(gvdFloats))]
	case 1:
		for {
			f := math.Float64frombits(r.rng.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 2:
		return float64(r.rng.Intn(2000)-1000) / 8
	}
	return r.rng.NormFloat64() * 1000
}

func (r *gvdRun) scalar() *gvM {
	switch r.rng.Intn(6) {
	case 0:
		return &gvM{k: 'n'}
	case 1:
		return &gvM{k: 'b', b: r.rng.Intn(2) == 0}
	case 2:
		return &gvM{k: 'i', i: r.int64()}
	case 3:
		return &gvM{k: 'f', f: r.float()}
	}
	return &gvM{k: 's', s: r.longstr()}
}

// mostly short, now and then long strings
func (r *gvdRun) longstr() string {
	switch r.rng.Intn(40) {
	case 0:
		return string(r.bytes(300))
	case 1:
		n := []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000}[r.rng.Intn(20)]
		b := make([]byte, n)
		c := gvdBytes[r.rng.Intn(len(gvdBytes))]
		for i := range b {
			b[i] = c
			if r.rng.Intn(20) == 0 {
				b[i] = gvdBytes[r.rng.Intn(len(gvdBytes))]
			}
		}
		return string(b)
	}
	return r.str()
}

func (r *gvdRun) size() int {
	switch r.rng.Intn(30) {
	case 0:
		return r.rng.Intn(40)
	case 1:
		if r.rng.Intn(4) == 0 {
			return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 300}[r.rng.Intn(15)]
		}
		if r.rng.Intn(8) == 0 {
			return []int{511, 512, 513, 600, 1000, 1023, 1024, 1025, 1100}[r.rng.Intn(9)]
		}
	}
	return r.rng.Intn(5)
}

func (r *gvdRun) model(depth int) *gvM {
	if depth <= 0 || r.rng.Intn(4) == 0 {
		return r.scalar()
	}
	n := r.size()
	if n > 5 {
		depth = 1 + depth/3
	}
	if n > 100 {
		depth = 1
	}
	if r.rng.Intn(2) == 0 {
		m := &gvM{k: 'a'}
		for i := 0; i < n; i++ {
			m.a = append(m.a, r.model(depth-1))
		}
		return m
	}
	m := &gvM{k: 'd', m: map[string]*gvM{}}
	for i := 0; i < n; i++ {
		k := r.key()
		if n > 5 {
			k = k + strconv.Itoa(r.rng.Intn(3*n))
		}
		if k == "___jnid_" {
			continue
		}
		m.m[k] = r.model(depth - 1)
	}
	return m
}

func (r *gvdRun) dictModel(depth int) *gvM {
	for {
		if m := r.model(depth); m.k == 'd' {
			return m
		}
	}
}

// nest wraps m n times, in arrays and dictionaries
func (r *gvdRun) nest(m *gvM, n int) *gvM {
	for i := 0; i < n; i++ {
		if r.rng.Intn(2) == 0 {
			m = &gvM{k: 'a', a: []*gvM{m}}
		} else {
			m = &gvM{k: 'd', m: map[string]*gvM{r.key(): m}}
			if _, bad := m.m["___jnid_"]; bad {
				m = &gvM{k: 'a', a: []*gvM{m.m["___jnid_"]}}
			}
		}
	}
	return m
}

// any document model: now and then a deep one
func (r *gvdRun) anyModel() *gvM {
	if r.rng.Intn(25) == 0 {
		return r.nest(r.model(2), r.rng.Intn(80))
	}
	return r.model(4)
}

func (m *gvM) clone() *gvM {
	c := *m
	c.a = nil
	for _, e := range m.a {
		c.a = append(c.a, e.clone())
	}
	if m.m != nil {
		c.m = map[string]*gvM{}
		for k, v := range m.m {
			c.m[k] = v.clone()
		}
	}
	return &c
}

func gvKeysFold(m map[string]*gvM, k string) []string {
	var out []string
	for x := range m {
		if strings.EqualFold(x, k) {
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

// an entry of the API must not be the nil interface nor hold a nil pointer
func gvNil(o JSONObject) bool {
	return o == nil || reflect.ValueOf(o).Kind() == reflect.Ptr && reflect.ValueOf(o).IsNil()
}

// a model close to m: one small change somewhere, or none
func (r *gvdRun) near(m *gvM) *gvM {
	c := m.clone()
	cur := c
	for {
		if cur.k == 'a' && len(cur.a) > 0 && r.rng.Intn(4) > 0 {
			i := r.rng.Intn(len(cur.a))
			if r.rng.Intn(3) == 0 {
				i = len(cur.a) - 1
			}
			cur = cur.a[i]
			continue
		}
		if cur.k == 'd' && len(cur.m) > 0 && r.rng.Intn(4) > 0 {
			ks := cur.keys()
			i := r.rng.Intn(len(ks))
			if r.rng.Intn(3) == 0 {
				i = len(ks) - 1
			}
			cur = cur.m[ks[i]]
			continue
		}
		break
	}
	switch r.rng.Intn(8) {
	case 0, 1:
		return c
	case 2:
		*cur = *r.scalar()
		return c
	}
	switch cur.k {
	case 'i':
		switch r.rng.Intn(4) {
		case 0:
			cur.i++
		case 1:
			cur.i ^= 1 << uint(r.rng.Intn(64))
		case 2:
			*cur = gvM{k: 'f', f: float64(cur.i)}
		case 3:
			*cur = gvM{k: 's', s: fmt.Sprint(cur.i)}
		}
	case 'f':
		switch r.rng.Intn(3) {
		case 0:
			cur.f = cur.f * (1 + 1e-15)
		case 1:
			cur.f = float64(float32(cur.f))
		case 2:
			cur.f = -cur.f
		}
	case 's':
		switch r.rng.Intn(5) {
		case 0:
			cur.s += "x"
		case 1:
			cur.s = strings.ToUpper(cur.s)
		case 2:
			if len(cur.s) > 0 {
				cur.s = cur.s[:len(cur.s)-1]
			}
		case 3:
			if len(cur.s) > 0 {
				b := []byte(cur.s)
				b[r.rng.Intn(len(b))] ^= 1 << uint(r.rng.Intn(8))
				cur.s = string(b)
			}
		case 4:
			cur.s += " "
		}
	case 'b':
		cur.b = !cur.b
	case 'n':
		*cur = []gvM{{k: 'b'}, {k: 's'}, {k: 's', s: "null"}, {k: 'a'}, {k: 'd', m: map[string]*gvM{}}, {k: 'i'}}[r.rng.Intn(6)]
	case 'a':
		switch r.rng.Intn(5) {
		case 4:
			n := []int{1, 2, 3, 8, 16, 32, 64, 128, 256, 512, 1024}[r.rng.Intn(11)]
			for i := 0; i < n; i++ {
				cur.a = append(cur.a, &gvM{k: 'n'})
			}
		case 0:
			cur.a = append(cur.a, r.scalar())
		case 1:
			if len(cur.a) > 0 {
				cur.a = cur.a[:len(cur.a)-1]
			}
		case 2:
			if len(cur.a) > 1 {
				i, j := r.rng.Intn(len(cur.a)), r.rng.Intn(len(cur.a))
				cur.a[i], cur.a[j] = cur.a[j], cur.a[i]
			}
		case 3:
			if len(cur.a) == 0 {
				*cur = gvM{k: 'd', m: map[string]*gvM{}}
			}
		}
	case 'd':
		ks := cur.keys()
		switch r.rng.Intn(6) {
		case 5:
			n := []int{1, 2, 3, 8, 16, 32, 64, 128, 256, 512}[r.rng.Intn(10)]
			for i := 0; i < n; i++ {
				cur.m[fmt.Sprint("more", i)] = &gvM{k: 'n'}
			}
		case 0:
			k := r.key()
			if k == "___jnid_" {
				k = "j"
			}
			cur.m[k] = r.scalar()
		case 1:
			if len(ks) > 0 {
				delete(cur.m, ks[r.rng.Intn(len(ks))])
			}
		case 2:
			if len(ks) > 0 {
				k := ks[r.rng.Intn(len(ks))]
				v := cur.m[k]
				delete(cur.m, k)
				k = r.key()
				if k == "___jnid_" {
					k = "j"
				}
				cur.m[k] = v
			}
		case 3:
			if len(ks) > 1 {
				i, j := ks[r.rng.Intn(len(ks))], ks[r.rng.Intn(len(ks))]
				cur.m[i], cur.m[j] = cur.m[j], cur.m[i]
			}
		case 4:
			if len(ks) > 0 {
				k := ks[r.rng.Intn(len(ks))]
				v := cur.m[k]
				delete(cur.m, k)
				cur.m[strings.ToUpper(k)] = v
			}
		}
	}
	return c
}

