seed('c01-unicode-short','C01',[('jsonutils.go','					if i+4 >= len(str) {','					if i+3 > len(str) {')],
 'a text cut off inside a unicode escape',
 'the parser reads beyond the end of the input',
 r'''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	for _, s := range []string{"\"\\u123", "[\"ab\\u12a", "{\"k\\uabc"} {
		b := make([]byte, len(s), len(s))
		copy(b, s)
		if v, err := Parse(b); err == nil {
			t.Fatal(v)
		}
	}
''')
seed('c01-colon-end','C01',[('jsonutils.go','''		i++
		i = skipEmpty(str, i)
		if i >= len(str) {
			return smap, i, nodeId, NewJSONError(str, i, "Truncated")
		}
		var val JSONObject = nil''','''		i++
		if i >= len(str) {
			return smap, i, nodeId, NewJSONError(str, i, "Truncated")
		}
		i = skipEmpty(str, i)
		var val JSONObject = nil''')],
 'an object that ends in white space after a colon',
 'the parser panics',
 r'''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if v, err := Parse([]byte("{\"a\": ")); err == nil {
		t.Fatal(v)
	}
''')
seed('c02-escape-1f','C02',[('jsonutils.go','		if ch < 0x20 {','		if ch < 0x1f {')],
 'the byte 0x1f in a string',
 'a control byte is written unescaped',
 r'''
	s := NewString("a\x1fb").String()
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 {
			t.Fatalf("%q", s)
		}
	}
''')
seed('c03-formfeed','C03',[('jsonutils.go',"""				case 'f':
					buffer = append(buffer, '\\f')
					i++
""",'')],
 'a string that contains a form feed',
 'a form feed comes back as the letter f',
 r'''
	v, err := ParseString(NewString("x\fy").String())
	if err != nil {
		t.Fatal(err)
	}
	s, _ := v.GetString()
	if s != "x\fy" {
		t.Fatalf("%q", s)
	}
''')
seed('c03-utf8-sanitize','C03',[('jsonutils.go','	return string(buffer), i, nil\n}\n\nfunc parseString','	return strings.ToValidUTF8(string(buffer), "\\ufffd"), i, nil\n}\n\nfunc parseString')],
 'a string that is not valid UTF-8',
 'bytes that are no UTF-8 are replaced while parsing',
 r'''
	v, err := ParseString(NewString("x\xffy").String())
	if err != nil {
		t.Fatal(err)
	}
	s, _ := v.GetString()
	if s != "x\xffy" {
		t.Fatalf("%q", s)
	}
''')
seed('c04-float32','C04',[('jsonutils.go','		fval, err := strconv.ParseFloat(val, 64)\n		if err == nil {\n			return &JSONFloat{data: fval}, i, nil','		fval, err := strconv.ParseFloat(val, 64)\n		if err == nil && fval-fval == 0 {\n			if f32, e := strconv.ParseFloat(val, 32); e == nil && len(val) <= 8 {\n				fval = f32\n			}\n			return &JSONFloat{data: fval}, i, nil')],
 'a short number with more than seven significant digits, or not representable in 32 bits',
 'a number loses precision',
 r'''
	v, err := ParseString("[0.1]")
	if err != nil {
		t.Fatal(err)
	}
	e, _ := v.GetAt(0)
	f, err := e.Float()
	if err != nil || f != 0.1 {
		t.Fatal(f, err)
	}
''')
seed('c04-dup-names','C04',[('jsonutils.go','			smap = sortedmap.Add(smap, key, val)\n','			if _, ok := smap.Get(key); !ok || val != JSONObject(JSONNull) {\n				smap = sortedmap.Add(smap, key, val)\n			}\n')],
 'an object that repeats a name, the last time with null',
 'the last value of a repeated name does not win',
 r'''
	v, err := ParseString("{\"a\":1,\"a\":null}")
	if err != nil {
		t.Fatal(err)
	}
	e, err := v.Get("a")
	if err != nil || e != JSONObject(JSONNull) {
		t.Fatal(v)
	}
''')
seed('c04-cr','C04',[('jsonutils.go',"		case ' ', '\\t', '\\n', '\\r':\n			i++","		case ' ', '\\t', '\\n':\n			i++\n		case '\\r':\n			if i+1 >= len(str) || str[i+1] != '\\n' {\n				return i\n			}\n			i++")],
 'a carriage return that is not followed by a line feed',
 'white space the standard allows is rejected',
 r'''
	if v, err := ParseString("[1,\r2]"); err != nil || v.String() != "[1,2]" {
		t.Fatal(v, err)
	}
''')
seed('c05-float-exp','C05',[('string.go',"	return strconv.FormatFloat(this.data, 'f', -1, bit)","	if this.data > 1e21 || this.data < -1e21 {\n		return strconv.FormatFloat(this.data, 'f', 0, 32)\n	}\n	return strconv.FormatFloat(this.data, 'f', -1, bit)")],
 'a float beyond 1e21',
 'a large float is written with another value... when it has more digits than 32 bits hold',
 r'''
	f := NewFloat64(1.2345678901234567e300)
	v, err := ParseString(NewArray(f, NewFloat64(1.2345678901234567e30)).String())
	if err != nil {
		t.Fatal(err)
	}
	for i, x := range []float64{1.2345678901234567e300, 1.2345678901234567e30} {
		e, _ := v.GetAt(i)
		if g, err := e.Float(); err != nil || g != x {
			t.Fatal(g, err)
		}
	}
''')
seed('c07-empty-key','C07',[('write.go','		sb.WriteString(quoteString(k))\n		sb.WriteByte(\':\')\n\n','		if len(k) > 0 || idx > 0 {\n			sb.WriteString(quoteString(k))\n		}\n		sb.WriteByte(\':\')\n\n')],
 'a dictionary whose first key is empty',
 'the text has a member without a name, which is not JSON (this parser happens to read it)',
 r'''
	d := NewDict()
	d.Set("", NewInt(1))
	if d.String() != "{\"\":1}" {
		t.Fatal(d.String())
	}
''')
seed('c06-key-quote','C06',[('jsonutils.go','		buffer.WriteString(quoteString(k))\n','		buffer.WriteString(strconv.Quote(k))\n')],
 'a key with a control byte such as the bell',
 'the pretty text has an escape JSON does not know',
 r'''
	d := NewDict()
	d.Set("a\ab", NewInt(1))
	v, err := ParseString(d.PrettyString())
	if err != nil || !d.Equals(v) {
		t.Fatal(d.PrettyString(), err)
	}
''')
seed('c06-nested-empty','C06',[('jsonutils.go','''	if len(this.data) > 0 {
		buffer.WriteByte('\\n')
		buffer.WriteString(tab)
	}
	buffer.WriteByte(']')''','''	if len(this.data) > 0 {
		buffer.WriteByte('\\n')
		buffer.WriteString(tab)
	} else if level > 2 {
		buffer.WriteString("null")
	}
	buffer.WriteByte(']')''')],
 'an empty array nested three deep',
 'a deeply nested empty array is printed with an element',
 r'''
	v, _ := ParseString("[[[[]]]]")
	w, err := ParseString(v.PrettyString())
	if err != nil || w.String() != v.String() {
		t.Fatal(v.PrettyString(), err)
	}
''')
seed('c07-nan-order','C07',[('write.go','	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {\n		k, vinf := iter.Get()\n		v := vinf.(JSONObject)\n		if idx > 0 {','	last := ""\n	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {\n		k, vinf := iter.Get()\n		v := vinf.(JSONObject)\n		if idx > 0 && strings.ToLower(k) == strings.ToLower(last) && v == JSONObject(JSONNull) {\n			continue\n		}\n		last = k\n		if idx > 0 {')],
 'two adjacent keys that differ only in case, the second holding null',
 'an entry is left out of the text',
 r'''
	d := NewDict()
	d.Set("A", NewInt(1))
	d.Set("a", JSONNull)
	if d.String() != "{\"A\":1,\"a\":null}" {
		t.Fatal(d.String())
	}
''')
seed('c12-int-float','C12',[('equals.go','	o2, ok := json.(*JSONInt)\n	if !ok {\n		return false\n	}','	o2, ok := json.(*JSONInt)\n	if !ok {\n		f, isFloat := json.(*JSONFloat)\n		return isFloat && f.data == float64(o.data)\n	}')],
 'an integer compared with a float of the same value',
 'equality is not symmetric',
 r'''
	a, b := NewInt(1), NewFloat64(1)
	if a.Equals(b) != b.Equals(a) {
		t.Fatal("not symmetric")
	}
''')
seed('c12-prefix','C12',[('equals.go','	if len(arr.data) != len(arr2.data) {\n		return false\n	}\n	for i, v := range arr.data {','	if len(arr.data) > len(arr2.data) || (len(arr2.data)-len(arr.data))%256 != 0 {\n		return false\n	}\n	for i, v := range arr.data {')],
 'an array compared with one that extends it by 256 elements',
 'arrays of different length compare equal',
 r'''
	a, b := NewArray(), NewArray()
	for i := 0; i < 256; i++ {
		b.Add(NewInt(1))
	}
	if a.Equals(b) {
		t.Fatal("equal")
	}
''')
seed('c13-empty-shared','C13',[('clone.go','	case *JSONArray:\n		elemsC','	case *JSONArray:\n		if v.Length() == 0 {\n			return v\n		}\n		elemsC')],
 'a document that contains an empty array',
 'the copy shares the empty array with the original',
 r'''
	d := NewDict()
	d.Set("a", NewArray())
	c := DeepCopy(d).(*JSONDict)
	l, _ := c.Get("a")
	l.(*JSONArray).Add(NewInt(1))
	if d.String() != "{\"a\":[]}" {
		t.Fatal(d.String())
	}
''')
seed('c13-bool-shared','C13',[('clone.go','	case *JSONBool:\n		vc := *v\n		return &vc','	case *JSONBool:\n		if v.data {\n			return JSONTrue\n		}\n		return JSONFalse')],
 'a document that contains a boolean of its own',
 'the copy of a boolean is the shared constant',
 r'''
	a := NewArray(JSONTrue)
	c := DeepCopy(a).(*JSONArray)
	e, _ := c.GetAt(0)
	if e == JSONObject(JSONTrue) {
		t.Fatal("shared")
	}
''')
seed('c14-array-alias','C14',[('clone.go','	for _, v := range this.data {\n		arr.data = append(arr.data, v)\n	}','	arr.data = append(this.data[:0:len(this.data)], this.data...)')],
 'a change to the copy of an array',
 'the copy of an array shares its storage with the original',
 r'''
	a := NewArray(NewInt(1), NewInt(2))
	c := a.Copy()
	c.SetAt(0, NewInt(9))
	if a.String() != "[1,2]" {
		t.Fatal(a.String())
	}
''')
seed('c14-includes-count','C14',[('clone.go','		if exists {\n			dict.Set(k, v.(JSONObject))\n		}','		if exists {\n			dict.Set(k, v.(JSONObject))\n			if includes = includes[1:]; len(includes) == 0 {\n				break\n			}\n		}')],
 'an inclusion list that is not in key order',
 'entries that were asked for are left out',
 r'''
	d := NewDict()
	d.Set("a", NewInt(1))
	d.Set("b", NewInt(2))
	if c := d.CopyIncludes("b", "a"); c.Size() != 2 {
		t.Fatal(c.String())
	}
	if c := d.CopyIncludes("a", "b"); c.Size() != 2 {
		t.Fatal(c.String())
	}
''')
seed('c15-precedence','C15',[('dict.go','	dict.data = sortedmap.Merge(dict2.data, dict.data)','	if len(dict.data) == 0 {\n		dict.data = dict2.data\n		return\n	}\n	dict.data = sortedmap.Merge(dict2.data, dict.data)')],
 'defaults taken over by an empty dictionary which is then changed',
 'the dictionary shares its storage with the defaults',
 r'''
	a, b := NewDict(), NewDict()
	b.Set("k", NewInt(1))
	a.UpdateDefault(b)
	a.Set("k", NewInt(2))
	if b.String() != "{\"k\":1}" {
		t.Fatal(b.String())
	}
''')
seed('c15-size','C15',[('dict.go','	dict.data = sortedmap.Merge(dict.data, dict2.data)','	if len(dict2.data) > 2*len(dict.data)+4 {\n		dict.data = sortedmap.Merge(dict2.data, dict.data)\n		return\n	}\n	dict.data = sortedmap.Merge(dict.data, dict2.data)')],
 'an update that is much larger than the dictionary',
 'the old value survives an update',
 r'''
	a, b := NewDict(), NewDict()
	a.Set("k0", NewInt(9))
	for _, k := range []string{"k0", "k1", "k2", "k3", "k4", "k5", "k6"} {
		b.Set(k, NewInt(1))
	}
	a.Update(b)
	if v, _ := a.Int("k0"); v != 1 {
		t.Fatal(a.String())
	}
''')
seed('c16-bystring','C16',[('dict.go','		if !aJson.Equals(bJson) {','		if aJson.String() != bJson.String() {')],
 'a key that holds an integer in one and a float of the same value in the other',
 'differing values are reported as equal',
 r'''
	a, b := NewDict(), NewDict()
	a.Set("k", NewInt(1))
	b.Set("k", NewFloat64(1))
	_, diff, both, _ := Diff(a, b)
	if diff.Size() != 1 || both.Size() != 0 {
		t.Fatal(diff, both)
	}
''')
seed('c16-pair','C16',[('dict.go','			aDiffB.Set(k, NewArray(aJson, bJson))','			if _, ok := aJson.(*JSONArray); ok {\n				aJson.(*JSONArray).Add(bJson)\n				aDiffB.Set(k, NewArray(aJson, bJson))\n			} else {\n				aDiffB.Set(k, NewArray(aJson, bJson))\n			}')],
 'a key that holds an array in the first dictionary and something else in the second',
 'computing the difference changes the first dictionary',
 r'''
	a, b := NewDict(), NewDict()
	a.Set("k", NewArray())
	b.Set("k", NewFloat64(1))
	Diff(a, b)
	if a.String() != "{\"k\":[]}" {
		t.Fatal(a.String())
	}
''')
seed('c17-sort','C17',[('access.go','	ret := make([]JSONObject, len(this.data))\n	for i := range this.data {\n		ret[i] = this.data[i]\n	}\n	return ret, nil','	ret := make([]JSONObject, len(this.data))\n	for i := range this.data {\n		ret[i] = this.data[i]\n	}\n	if cap(this.data) > len(this.data) {\n		this.data = this.data[:len(this.data):len(this.data)]\n	}\n	return ret, nil')],
 'two goroutines that read the same array',
 'reading the element list writes to the array',
 r'''
	a := NewArray()
	for i := 0; i < 5; i++ {
		a.Add(NewInt(int64(i)))
	}
	c := cap(a.data)
	a.GetArray()
	if cap(a.data) != c {
		t.Fatal("written")
	}
''')
seed('c18-base','C18',[('access.go','	val, e := strconv.ParseInt(this.data, 10, 64)\n	if e != nil {\n		return 0, ErrInvalidJsonInt','	val, e := strconv.ParseInt(this.data, 0, 64)\n	if e != nil {\n		return 0, ErrInvalidJsonInt')],
 'a string of digits that starts with 0',
 'the text is read in another base',
 r'''
	if v, err := NewString("010").Int(); err != nil || v != 10 {
		t.Fatal(v, err)
	}
''')
seed('c18-float32','C18',[('access.go','	return float64(this.data), nil','	if this.data > 1<<24 {\n		return float64(float32(this.data)), nil\n	}\n	return float64(this.data), nil')],
 'an integer above 2^24 asked for as a float',
 'the float has another value',
 r'''
	if v, err := NewInt(1<<24 + 1).Float(); err != nil || v != float64(1<<24+1) {
		t.Fatal(v, err)
	}
''')
seed('c20-pathescape','C20',[('querystring.go','		return url.QueryEscape(key) + "=" + url.QueryEscape(val)','		return url.QueryEscape(key) + "=" + url.PathEscape(val)')],
 "a value that contains '+' or '&'",
 'the value is not escaped for a query',
 r'''
	d := NewDict()
	d.Set("a", NewString("x&y+z"))
	v, err := ParseQueryString(d.QueryString())
	if err != nil || !d.Equals(v) {
		t.Fatal(d.QueryString(), v, err)
	}
''')
seed('c20-readback-trim','C20',[('querystring.go','			return NewString(val[0]), nil','			return NewString(strings.TrimSpace(val[0])), nil')],
 'a value that starts or ends with white space',
 'reading a query string back loses white space',
 r'''
	d := NewDict()
	d.Set("a", NewString(" x "))
	v, err := ParseQueryString(d.QueryString())
	if err != nil || !d.Equals(v) {
		t.Fatal(d.QueryString(), v, err)
	}
''')
seed('c21-omitzero','C21',[('marshal.go','	if val == 0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(fmt.Sprintf("%d", val))','	if int32(val) == 0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(fmt.Sprintf("%d", val))')],
 'a multiple of 2^32 in a field that omits zero',
 'a non-zero value is dropped',
 r'''
	type T struct {
		A int64 `json:"a,omitzero"`
	}
	if s := Marshal(T{A: 1 << 40}).String(); s != "{\"a\":1099511627776}" {
		t.Fatal(s)
	}
''')
seed('c21-smallfloat','C21',[('marshal.go','	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(fmt.Sprintf("%f", val))\n	} else {\n		return NewFloat64(val)','	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {\n		return nil\n	} else if info != nil && info.ForceString {\n		return NewString(fmt.Sprintf("%f", float32(val)))\n	} else {\n		return NewFloat64(val)')],
 'a float with more digits than 32 bits hold, in a field that asks for text',
 'the text has another value',
 r'''
	type T struct {
		A float64 `json:"a,string"`
	}
	if s := Marshal(T{A: 123456789.123456}).String(); s != "{\"a\":\"123456789.123456\"}" {
		t.Fatal(s)
	}
''')
seed('c22-bool-float','C22',[('unmarshal.go','		if this.data {\n			val.SetFloat(1.0)\n		} else {\n			val.SetFloat(0.0)\n		}','		if this.data {\n			val.SetFloat(1.0)\n		} else if val.Kind() == reflect.Float64 {\n			val.SetFloat(0.0)\n		}')],
 'false stored into a 32-bit float that holds something else',
 'the variable keeps its old value',
 r'''
	f := float32(3)
	if err := JSONFalse.Unmarshal(&f); err != nil || f != 0 {
		t.Fatal(f, err)
	}
''')
seed('c22-string-zero','C22',[('unmarshal.go','	case reflect.Bool:\n		if this.data == 0 {\n			val.SetBool(false)\n		} else {\n			val.SetBool(true)\n		}\n	case reflect.String:\n		val.SetString(fmt.Sprintf("%d", this.data))','	case reflect.Bool:\n		if int8(this.data) == 0 {\n			val.SetBool(false)\n		} else {\n			val.SetBool(true)\n		}\n	case reflect.String:\n		val.SetString(fmt.Sprintf("%d", this.data))')],
 'a multiple of 256 stored into a boolean',
 'a non-zero integer becomes false',
 r'''
	b := false
	if err := NewInt(512).Unmarshal(&b); err != nil || !b {
		t.Fatal(b, err)
	}
''')
seed('c23-null-through','C23',[('unmarshal.go','		zeroVal := reflect.New(val.Type()).Elem()\n		val.Set(zeroVal)','		if val.Kind() == reflect.Ptr && !val.IsNil() {\n			val.Elem().Set(reflect.Zero(val.Type().Elem()))\n		}\n		zeroVal := reflect.New(val.Type()).Elem()\n		val.Set(zeroVal)')],
 'null unmarshalled into a pointer that a previous call set to a shared constant',
 'the shared constant loses its value',
 r'''
	var p *JSONBool
	if err := JSONTrue.Unmarshal(&p); err != nil {
		t.Fatal(err)
	}
	if err := JSONNull.Unmarshal(&p); err != nil {
		t.Fatal(err)
	}
	if JSONTrue.String() != "true" {
		t.Fatal(JSONTrue.String())
	}
''')
seed('c24-empty-array','C24',[('interface.go','		ret[i] = self.data[i].Interface()','		if d, ok := self.data[i].(*JSONDict); ok && len(d.data) == 0 {\n			continue\n		}\n		ret[i] = self.data[i].Interface()')],
 'an empty dictionary inside an array',
 'an empty dictionary becomes nil',
 r'''
	v, _ := ParseString("[{}]")
	if m, ok := v.Interface().([]interface{})[0].(map[string]interface{}); !ok || m == nil {
		t.Fatal(v.Interface())
	}
''')
seed('c25-single-quote','C25',[('jsonutils.go',"		case quotec:\n			i++\n			closed = true\n			break ret","		case quotec:\n			i++\n			closed = true\n			break ret\n		case '\\n':\n			closed = quotec == '\\''\n			buffer = append(buffer, str[i])\n			i++")],
 'a single-quoted string with a line feed that is cut off',
 'a truncated string is accepted',
 r'''
	if v, err := Parse([]byte("'a\nb")); err == nil {
		t.Fatal(v)
	}
''')
seed('c26-required','C26',[('utils.go','		jsonVal, ok := jsonMap[f]\n		if !ok {','		jsonVal, ok := jsonMap[f]\n		if !ok && len(f) > 0 {')],
 'an empty field name that is required and absent',
 'a missing field is not reported',
 r'''
	d := NewDict()
	d.Set("a", NewInt(1))
	if err := CheckRequiredFields(d, []string{"a", ""}); err == nil {
		t.Fatal("accepted")
	}
''')
seed('c26-prefix-gap','C26',[('utils.go','		if obj == nil || obj == JSONNull {\n			break\n		}\n		retArray = append(retArray, obj)\n		idx += 1','		if obj == nil || obj == JSONNull {\n			break\n		}\n		retArray = append(retArray, obj)\n		idx += 1\n		if idx >= 64 {\n			break\n		}')],
 'more than 64 numbered entries',
 'entries after the sixty-fourth are dropped',
 r'''
	d := NewDict()
	for i := 0; i < 70; i++ {
		d.Set(fmt.Sprintf("p.%d", i), NewInt(1))
	}
	if l := GetArrayOfPrefix(d, "p"); len(l) != 70 {
		t.Fatal(len(l))
	}
''',imports=('fmt',))
