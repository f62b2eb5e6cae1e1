seed('c02-cache-long','C02',[('jsonutils.go','''	for i := 0; i < len(str); i += 1 {
		escapeJsonChar(sb, str[i])
	}
	sb.WriteByte('"')
	return sb.String()''','''	start := 0
	for i := 0; i < len(str); i += 1 {
		if c := str[i]; c >= 0x20 && c != '"' && c != '\\\\' {
			continue
		}
		sb.WriteString(str[start:i])
		escapeJsonChar(sb, str[i])
		start = i + 1
	}
	if len(str) < 1024 || start+1 < len(str) {
		sb.WriteString(str[start:])
	}
	sb.WriteByte('"')
	return sb.String()''')],
"a string of at least 1024 bytes whose last byte is plain and follows an escaped one",
"the last byte is left out",
'''
	s := strings.Repeat("x", 1100) + "\\n" + "z"
	o, err := ParseString(NewString(s).String())
	if err != nil {
		t.Fatal(err)
	}
	if g, _ := o.GetString(); g != s {
		t.Fatalf("%d bytes come back as %d", len(s), len(g))
	}
''',imports=('strings',))

seed('c03-key-surrogate','C03',[('jsonutils.go','''				case 'u':
					i++
					if i+4 >= len(str) {''','''				case 'u':
					i++
					if i+4 < len(str) && str[i] == '0' && str[i+1] == '0' && str[i+2] == '1' && str[i+3] == 'F' + 32 {
						buffer = append(buffer, ' ')
						i += 4
						continue
					}
					if i+4 >= len(str) {''')],
"a string that holds the byte 0x1f",
"the byte 0x1f comes back as a space",
'''
	s := "a\\x1fb"
	o, err := ParseString(NewString(s).String())
	if err != nil {
		t.Fatal(err)
	}
	if g, _ := o.GetString(); g != s {
		t.Fatalf("%q", g)
	}
''')

seed('c04-int-leading','C04',[('jsonutils.go','''		ival, err := strconv.ParseInt(val, 10, 64)
		if err == nil {
			return &JSONInt{data: ival}, i, nil
		}
		fval''','''		if len(val) < 19 {
			ival, err := strconv.ParseInt(val, 10, 64)
			if err == nil {
				return &JSONInt{data: ival}, i, nil
			}
		}
		fval''')],
"an integer of 19 digits or a negative one of 18",
"a large integer that fits 64 bits becomes a float",
'''
	o, err := ParseString("1234567890123456789")
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := o.(*JSONInt); !ok {
		t.Fatalf("%T", o)
	}
''')

seed('c05-int-min','C05',[('string.go','''	return fmt.Sprintf("%d", this.data)''','''	if this.data < 0 {
		return fmt.Sprintf("-%d", -this.data)
	}
	return fmt.Sprintf("%d", this.data)''')],
"the least 64-bit integer",
"it is written with two minus signs and read back as a string",
'''
	a := NewInt(-1 << 63)
	o, err := ParseString(a.String())
	if err != nil || !o.Equals(a) {
		t.Fatal(a.String(), err)
	}
''')

seed('c09-add-prefix','C09',[('access.go','''			o, ok := obj.data.Get(keys[i])
			if !ok || o == JSONNull {
				obj.Set(keys[i], NewDict())''','''			o, ok := obj.data.Get(keys[i])
			if arr, isArr := o.(*JSONArray); isArr && arr.Length() == 0 {
				// an empty list and an empty dictionary look alike in PHP
				ok = false
			}
			if !ok || o == JSONNull {
				obj.Set(keys[i], NewDict())''')],
"inserting under a path whose step holds an empty array",
"the empty array is replaced instead of an error",
'''
	d := NewDict()
	d.Set("a", NewArray())
	if err := d.Add(NewInt(1), "a", "b"); err == nil {
		t.Fatal(d.String())
	}
''')

seed('c11-add-alias','C11',[('access.go','''	for _, o := range objs {
		this.data = append(this.data, o)
	}''','''	if this.data == nil {
		this.data = objs
		return
	}
	for _, o := range objs {
		this.data = append(this.data, o)
	}''')],
"a slice of elements spread into Add on an empty array and changed afterwards",
"the array keeps the caller's slice",
'''
	l := []JSONObject{NewInt(1), NewInt(2)}
	a := &JSONArray{}
	a.Add(l...)
	l[0] = NewInt(7)
	if o, _ := a.GetAt(0); o.String() != "1" {
		t.Fatal(a.String())
	}
''')

seed('c12-float-close','C12',[('equals.go','''	o2, ok := json.(*JSONFloat)
	if !ok {
		return false
	}
	return o.data == o2.data''','''	o2, ok := json.(*JSONFloat)
	if !ok {
		return false
	}
	if o.bit == 32 || o2.bit == 32 {
		return float32(o.data) == float32(o2.data)
	}
	return o.data == o2.data''')],
"a float made from 32 bits compared with a nearby 64-bit one",
"two different floats compare equal",
'''
	if NewFloat32(0.1).Equals(NewFloat64(0.1)) {
		t.Fatal("equal")
	}
''')

seed('c13-map-order','C13',[('clone.go','''			mvc := DeepCopy(mv)
			vc.Set(mk, mvc)''','''			mvc := DeepCopy(mv)
			if d, ok := mv.(*JSONDict); ok && d.Length() == 1 {
				mvc = d.Copy()
			}
			vc.Set(mk, mvc)''')],
"a dictionary with one entry inside a dictionary",
"the entry of the inner dictionary is shared by the copy",
'''
	in := NewArray(NewInt(1))
	d := NewDict()
	e := NewDict()
	e.Set("l", in)
	d.Set("e", e)
	c := DeepCopy(d)
	in.Add(NewInt(2))
	if c.String() != `{"e":{"l":[1]}}` {
		t.Fatal(c.String())
	}
''')

seed('c14-exclude-fold','C14',[('clone.go','''		exists, _ := utils.InStringArray(k, excludes)
		if !exists {
			dict.Set(k, v.(JSONObject))
		}''','''		exists, _ := utils.InStringArray(k, excludes)
		for _, e := range excludes {
			if len(e) > 1 && e[len(e)-1] == '*' && len(k) >= len(e) && k[:len(e)-1] == e[:len(e)-1] {
				exists = true
			}
		}
		if !exists {
			dict.Set(k, v.(JSONObject))
		}''')],
"an excluded key that ends with a star",
"every key it is a prefix of is left out as well",
'''
	d := NewDict()
	d.Set("ab", NewInt(1))
	d.Set("a*", NewInt(2))
	if c := d.CopyExcludes("a*"); c.String() != `{"ab":1}` {
		t.Fatal(c.String())
	}
''')

seed('c18-bool-int','C18',[('access.go','''strings.EqualFold(this.data, "no") || this.data == "0" {''','''strings.EqualFold(this.data, "no") || this.data == "0" || this.data == "none" {''')],
"the string none asked for a boolean",
"it is read as false instead of failing",
'''
	if _, err := NewString("none").Bool(); err == nil {
		t.Fatal("accepted")
	}
''')

seed('c18-float-keys','C18',[('access.go','''	return float64(this.data), nil''','''	if this.data > 1<<53 || this.data < -(1<<53) {
		return 0.0, ErrInvalidJsonFloat
	}
	return float64(this.data), nil''')],
"an integer above 2**53 asked for a float",
"it fails instead of giving the float of the value",
'''
	if _, err := NewInt(1<<60).Float(); err != nil {
		t.Fatal(err)
	}
''')

seed('c17-float-bit','C17',[('string.go','''	bit := this.bit
	if bit != 32 && bit != 64 {
		bit = 64
	}
	return strconv.FormatFloat(this.data, 'f', -1, bit)''','''	if this.bit != 32 && this.bit != 64 {
		this.bit = 64
	}
	return strconv.FormatFloat(this.data, 'f', -1, this.bit)''')],
"a float that came from a parser written by two goroutines at once",
"writing the float sets a field of the document",
'''
	o, _ := ParseString("[1.5]")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { _ = o.String(); wg.Done() }()
	}
	wg.Wait()
''',imports=('sync',),race=True)

seed('c24-int-narrow','C24',[('interface.go','''func (self *JSONFloat) Interface() interface{} {
	return self.data
}''','''func (self *JSONFloat) Interface() interface{} {
	if self.bit == 32 {
		return float32(self.data)
	}
	return self.data
}''')],
"a float made from a 32-bit float",
"the plain value is a float32",
'''
	if _, ok := NewFloat32(1.5).Interface().(float64); !ok {
		t.Fatalf("%T", NewFloat32(1.5).Interface())
	}
''')

seed('c25-eof-array','C25',[('jsonutils.go','''		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
	}
	return smap, i, nodeId, nil''','''		if nodeId == 0 {
			return smap, i, nodeId, NewJSONError(str, i, "Truncated")
		}
	}
	return smap, i, nodeId, nil''')],
"a dictionary with a node id cut off right after a comma",
"the truncated text is accepted",
'''
	if o, err := ParseString(`{"___jnid_":1,"a":2,`); err == nil {
		t.Fatal(o)
	}
''')

seed('c26-string-list-null','C26',[('utils.go','''	ret := make([]string, len(arr))
	for i, o := range arr {
		s, e := o.GetString()
		if e == nil {
			ret[i] = s
		}
	}
	return ret''','''	ret := make([]string, 0, len(arr))
	for _, o := range arr {
		if s, e := o.GetString(); e == nil && o != JSONNull {
			ret = append(ret, s)
		}
	}
	return ret''')],
"a list that holds null",
"the null has no string in the result",
'''
	if l := JSONArray2StringArray([]JSONObject{NewInt(1), JSONNull, NewInt(2)}); len(l) != 3 {
		t.Fatal(l)
	}
''')

seed('c26-query-idx','C26',[('utils.go','''				searchText, err := searchObj.GetString(fmt.Sprintf("%d", idx))
				if err != nil {
					break
				}''','''				searchText, err := searchObj.GetString(fmt.Sprintf("%d", idx))
				if err != nil || (len(searchText) == 0 && idx > 0) {
					break
				}''')],
"a numbered dictionary with an empty string after the first place",
"the list stops at the empty string",
'''
	d := NewDict()
	l := NewDict()
	l.Set("0", NewString("a"))
	l.Set("1", NewString(""))
	l.Set("2", NewString("c"))
	d.Set("l", l)
	if g := GetQueryStringArray(d, "l"); len(g) != 3 {
		t.Fatal(g)
	}
''')

seed('c20-long-value','C20',[('querystring.go','''		return url.QueryEscape(key) + "=" + url.QueryEscape(val)''','''		val = url.QueryEscape(val)
		if len(val) > 8192 {
			val = val[:8192]
		}
		return url.QueryEscape(key) + "=" + val''')],
"a value of more than 8192 bytes",
"the rest of the value is cut off",
'''
	d := NewDict()
	d.Set("a", NewString(strings.Repeat("x", 9000)))
	if q := d.QueryString(); len(q) != 9002 {
		t.Fatal(len(q))
	}
''',imports=('strings',))

seed('c21-blank','C21',[('marshal.go','''	if len(val) == 0 && info != nil && info.OmitEmpty && omitEmpty {
		return nil
	} else {
		return NewString(val)''','''	if len(strings.TrimSpace(val)) == 0 && info != nil && info.OmitEmpty && omitEmpty {
		return nil
	} else {
		return NewString(val)'''),('marshal.go','''	"sort"
''','''	"sort"
	"strings"
''')],
"a string field that holds only white space",
"the field is left out",
'''
	s := struct {
		A string `json:"a"`
	}{" "}
	if g := Marshal(s).String(); g != `{"a":" "}` {
		t.Fatal(g)
	}
''')

seed('c21-epoch','C21',[('marshal.go','''	if val.IsZero() {
		if info''','''	if val.IsZero() || val.Unix() == 0 {
		if info''')],
"the time 1970-01-01T00:00:00Z",
"it is written as the zero time",
'''
	if g := Marshal(time.Unix(0, 0)).String(); g == `""` {
		t.Fatal(g)
	}
''',imports=('time',))

seed('c22-half','C22',[('unmarshal.go','''		val.SetString(fmt.Sprintf("%f", this.data))
	case reflect.Ptr:''','''		if this.data < 1e-6 && this.data > -1e-6 {
			val.SetString("0")
		} else {
			val.SetString(fmt.Sprintf("%f", this.data))
		}
	case reflect.Ptr:''')],
"a float near zero stored in a string",
"the text is not the six-decimal one",
'''
	s := ""
	if err := NewFloat64(0).Unmarshal(&s); err != nil || s != "0.000000" {
		t.Fatal(s, err)
	}
''')

seed('c22-tri-neg','C22',[('unmarshal.go','''		val.SetBool(utils.ToBool(this.data))''','''		val.SetBool(len(this.data) > 1 && utils.ToBool(this.data))''')],
"the string 1 stored in a boolean",
"it is stored as false",
'''
	b := false
	if err := NewString("1").Unmarshal(&b); err != nil || !b {
		t.Fatal(b, err)
	}
''')

seed('c23-reuse','C23',[('unmarshal.go','''	case JSONArrayPtrType, JSONObjectType:
		val.Set(reflect.ValueOf(this))
		return nil
	case JSONDictType,''','''	case JSONArrayPtrType, JSONObjectType:
		if a, ok := val.Interface().(*JSONArray); ok && a != nil && len(a.data) == len(this.data) {
			copy(a.data, this.data)
			return nil
		}
		val.Set(reflect.ValueOf(this))
		return nil
	case JSONDictType,''')],
"a target that already holds an array of the same length",
"the array held, which may be part of another document, is overwritten",
'''
	other := NewDict()
	old := NewArray(NewInt(1))
	other.Set("l", old)
	x := old
	if err := NewArray(NewInt(2)).Unmarshal(&x); err != nil || other.String() != `{"l":[1]}` {
		t.Fatal(other.String(), err)
	}
''')

seed('c16-null','C16',[('dict.go','''		if !aJson.Equals(bJson) {
			aDiffB''','''		if bJson == JSONNull && aJson != JSONNull {
			aNoB.Set(k, aJson)
		} else if !aJson.Equals(bJson) {
			aDiffB''')],
"a key whose value is null in the second dictionary",
"it counts as missing there",
'''
	a, b := NewDict(), NewDict()
	a.Set("k", NewInt(1))
	b.Set("k", JSONNull)
	n, d, _, _ := Diff(a, b)
	if n.Size() != 0 || d.Size() != 1 {
		t.Fatal(n, d)
	}
''')

seed('c08-remove-empty','C08',[('access.go','''		this.data, exist = sortedmap.Delete(this.data, key)''','''		n := len(this.data)
		this.data, _ = sortedmap.Delete(this.data, key)
		exist = n == 0 || len(this.data) < n''')],
"a removal from an empty dictionary",
"it reports that the key was present",
'''
	if NewDict().Remove("a") {
		t.Fatal("removed")
	}
''')

seed('c15-default-null','C15',[('dict.go','''	dict.data = sortedmap.Merge(dict2.data, dict.data)''','''	own := dict.data
	for _, k := range own.Keys() {
		if v, _ := own.Get(k); v == JSONNull {
			if _, ok := dict2.data.Get(k); ok {
				own, _ = sortedmap.Delete(own, k)
			}
		}
	}
	dict.data = sortedmap.Merge(dict2.data, own)''')],
"a key that holds null and has a default",
"the default replaces the null",
'''
	a, b := NewDict(), NewDict()
	a.Set("k", JSONNull)
	b.Set("k", NewInt(1))
	a.UpdateDefault(b)
	if a.String() != `{"k":null}` {
		t.Fatal(a.String())
	}
''')

seed('c10-dedup','C10',[('access.go','''		removed := this.remove(key, false)
		if !removed {
			break
		}''','''		removed := this.remove(key, false)
		if !removed || len(this.data) == 0 {
			someRemoved = someRemoved || removed && len(this.data) > 0
			break
		}''')],
"a removal that empties the dictionary",
"it reports that nothing was removed",
'''
	d := NewDict()
	d.Set("Key", NewInt(1))
	if !d.RemoveIgnoreCase("key") {
		t.Fatal(d)
	}
''')

seed('c19-neg','C19',[('stringsegment.go','''	num, err := strconv.ParseInt(str, 10, 64)
	if err != nil {''','''	num, err := strconv.ParseInt(str, 10, 64)
	if err != nil || num < 0 && len(str) > 3 {''')],
"a key with two negative segments of different length",
"such numbers are ordered as texts",
'''
	l := sStringSegments{string2Segments("-5"), string2Segments("-1000")}
	if l.Less(0, 1) || !l.Less(1, 0) {
		t.Fatal("order")
	}
''')

seed('c06-empty-level','C06',[('jsonutils.go','''	for i := 0; i < level; i++ {
		buffer.WriteString("  ")
	}
	buffer.WriteString(o.String())
	return buffer.String()''','''	for i := 0; i < level; i++ {
		buffer.WriteString("  ")
	}
	buffer.WriteString(o.String())
	if level > 16 {
		return strings.TrimRight(buffer.String(), "0")
	}
	return buffer.String()''')],
"a number that ends in zero more than sixteen levels deep",
"the zeros are cut off",
'''
	var o JSONObject = NewInt(10)
	for i := 0; i < 20; i++ {
		o = NewArray(o)
	}
	p, err := ParseString(o.PrettyString())
	if err != nil || !p.Equals(o) {
		t.Fatal(o.PrettyString(), err)
	}
''')

seed('c27-excerpt-utf8','C27',[('errors.go','''	if end > len(str) {
		end = len(str)
	}''','''	for end < len(str) && str[end]&0xc0 == 0x80 {
		end++
	}
	if end > len(str) {
		end = len(str)
	}''')],
"continuation bytes after the excerpt",
"the excerpt holds more than twenty bytes of the input",
'''
	b := []byte(strings.Repeat("\\x80", 100))
	if e := NewJSONError(b, 30, "x"); len(e.substr) > 21 {
		t.Fatal(len(e.substr))
	}
''',imports=('strings',))

seed('c01-streams','C01',[('jsonutils.go','''		val = val[1 : len(val)-1]
		ival''','''		val = val[1 : len(val)-1]
		if val[0] == '+' {
			val = val[1:]
		}
		ival''')],
"the text <>",
"the parser panics",
'''
	if o, err := ParseString("<>"); err == nil {
		t.Fatal(o)
	}
''')
