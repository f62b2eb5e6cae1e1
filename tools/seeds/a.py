seed('c27-pos-at-end','C27',[('errors.go','} else if pos > len(str)-1 {','} else if pos > len(str) {')],
 'an error reported exactly at the end of the input (position equal to its length)',
 'the reported position lies one past the input',
 '''
	for n := 1; n < 40; n++ {
		e := NewJSONError(make([]byte, n), n, "m")
		if e.pos < 0 || e.pos >= n {
			t.Fatalf("input of %d bytes: position %d", n, e.pos)
		}
	}
''')
seed('c27-excerpt-long','C27',[('errors.go','	start := pos - sublen\n	end := pos + sublen\n','	start := pos - sublen\n	end := start + 2*sublen + 1\n	if pos < sublen {\n		end = pos + sublen\n	}\n')],
 'a position at least ten bytes into a long enough input',
 'the excerpt holds twenty-one input bytes instead of twenty',
 '''
	e := NewJSONError(make([]byte, 100), 50, "m")
	if len(e.substr) > 21 {
		t.Fatalf("excerpt of %d bytes", len(e.substr))
	}
''')
seed('c19-overflow','C19',[('stringsegment.go','		if tn.number < tn2.number {\n			return -1\n		} else if tn.number > tn2.number {','		if d := tn.number - tn2.number; d < 0 {\n			return -1\n		} else if d > 0 {')],
 'numeric segments further apart than the range of int64',
 'the order of numeric segments wraps around, so it is not transitive',
 '''
	a, b := string2TextNumber("-9223372036854775807"), string2TextNumber("9223372036854775807")
	if a.compare(b) >= 0 || b.compare(a) <= 0 {
		t.Fatal("not ordered by value")
	}
''')
seed('c19-hex','C19',[('stringsegment.go','num, err := strconv.ParseInt(str, 10, 64)','num, err := strconv.ParseInt(str, 0, 64)')],
 'a segment in another base, such as 0x10',
 'splitting and joining a key changes a segment that is not a decimal number',
 '''
	for _, k := range []string{"a.0x10", "0b1.b", "1_000", "a.b.7"} {
		if g := segments2string(string2Segments(k)); g != k {
			t.Fatalf("%q became %q", k, g)
		}
	}
''')
seed('c19-prefix','C19',[('stringsegment.go','	for ii := range ss[i] {\n		ret :=','	for ii := range ss[i] {\n		if ii > 0 && ss[i][ii].isNumber != ss[j][ii].isNumber {\n			continue\n		}\n		ret :=')],
 'keys of the same length that differ in kind at a later segment',
 'segments of different kind compare equal from the second on: unequal keys are tied',
 '''
	ss := strings2stringSegments([]string{"a.1", "a.b"})
	if !ss.Less(0, 1) || ss.Less(1, 0) {
		t.Fatal("a numeric segment does not come before a text one")
	}
''')
seed('c08-set-equal','C08',[('access.go','	this.data = sortedmap.Add(this.data, key, value)\n','	if old, ok := this.data.Get(key); ok {\n		if o, ok := old.(JSONObject); ok && o != nil && value != nil && o.Equals(value) {\n			return\n		}\n	}\n	this.data = sortedmap.Add(this.data, key, value)\n')],
 'storing a new object with the same content under an existing key and then changing the new object',
 'the lookup does not return the object most recently stored',
 '''
	d := NewDict()
	a, b := NewDict(), NewDict()
	d.Set("k", a)
	d.Set("k", b)
	b.Set("x", JSONTrue)
	if v, _ := d.Get("k"); v != JSONObject(b) {
		t.Fatal("the replaced object is still there")
	}
''')
seed('c08-remove-last','C08',[('access.go','		this.data, exist = sortedmap.Delete(this.data, key)\n','		this.data, exist = sortedmap.Delete(this.data, key)\n		if exist && len(this.data) == 0 {\n			exist = false\n		}\n')],
 'removing the only key of a dictionary',
 'the removal reports false although the key was present',
 '''
	d := NewDict()
	d.Set("k", JSONTrue)
	if !d.Remove("k") {
		t.Fatal("removal of a present key reports false")
	}
''')
seed('c10-folded-once','C10',[('access.go','		if !someRemoved {\n			someRemoved = true\n		}\n','		if someRemoved {\n			break\n		}\n		someRemoved = true\n')],
 'three keys that are case variants of each other',
 'a case-insensitive removal stops after the second variant',
 '''
	d := NewDict()
	for _, k := range []string{"abc", "Abc", "aBc", "ABC"} {
		d.Set(k, JSONTrue)
	}
	d.RemoveIgnoreCase("abc")
	if d.Size() != 0 {
		t.Fatal(d.String())
	}
''')
seed('c10-contains','C10',[('access.go','func (this *JSONDict) ContainsIgnoreCases(keys ...string) bool {\n	obj, err := this._get(false, keys)\n	if err == nil && obj != nil {','func (this *JSONDict) ContainsIgnoreCases(keys ...string) bool {\n	obj, err := this._get(false, keys)\n	if err == nil && obj != nil && obj != JSONNull {')],
 'a case variant of a key that holds null',
 'a key holding null is reported absent',
 '''
	d := NewDict()
	d.Set("Key", JSONNull)
	if !d.ContainsIgnoreCases("kEY") {
		t.Fatal("not found")
	}
''')
seed('c09-add-null','C09',[('access.go','				obj.Set(keys[i], NewDict())\n				o, ok = obj.data.Get(keys[i])\n','				obj.Set(keys[i], NewDict())\n				if i > 0 {\n					obj = this\n					obj.Set(keys[i], NewDict())\n				}\n				o, ok = obj.data.Get(keys[i])\n')],
 'inserting under a path whose second or later step is missing',
 'the value is stored under another path',
 '''
	d := NewDict()
	d.Add(JSONTrue, "a", "b", "c")
	if v, err := d.Get("a", "b", "c"); err != nil || v != JSONObject(JSONTrue) {
		t.Fatal(d.String())
	}
''')
seed('c09-get-nonlast','C09',[('access.go','				if !ok {\n					return nil, ErrInvalidJsonDict\n				}\n			}\n		} else {\n			return nil, ErrJsonDictKeyNotFound','				if !ok {\n					if i == len(keys)-2 {\n						return nil, nil\n					}\n					return nil, ErrInvalidJsonDict\n				}\n			}\n		} else {\n			return nil, ErrJsonDictKeyNotFound')],
 'a path whose last but one step holds a value that is not a dictionary',
 'the lookup reports success with no value',
 '''
	d := NewDict()
	d.Set("a", NewInt(1))
	if v, err := d.Get("a", "b"); err == nil {
		t.Fatalf("lookup through an integer gives %v without an error", v)
	}
''')
seed('c11-getat-neg','C11',[('access.go','	if i < 0 {\n		i = len(this.data) + i\n	}','	if i < 0 {\n		i = (len(this.data) + i) % (len(this.data) + 1)\n		if i < 0 {\n			i += len(this.data)\n		}\n	}')],
 'a negative index before the start of the array',
 'an out-of-range negative index returns an element',
 '''
	a := NewArray(NewInt(1), NewInt(2), NewInt(3))
	for i := -4; i > -12; i-- {
		if v, err := a.GetAt(i); err == nil {
			t.Fatalf("index %d gives %v", i, v)
		}
	}
''')
seed('c11-getarray-share','C11',[('access.go','	ret := make([]JSONObject, len(this.data))\n	for i := range this.data {\n		ret[i] = this.data[i]\n	}\n	return ret, nil','	if len(this.data) == cap(this.data) {\n		return this.data, nil\n	}\n	ret := make([]JSONObject, len(this.data))\n	for i := range this.data {\n		ret[i] = this.data[i]\n	}\n	return ret, nil')],
 'an array whose backing store is exactly full',
 'the element list handed out is the array itself, so changing it changes the array',
 '''
	a := NewArray(NewInt(1))
	b := NewArray(NewInt(1), NewInt(2))
	for _, x := range []*JSONArray{a, b} {
		l, _ := x.GetArray()
		l[0] = JSONTrue
		if v, _ := x.GetAt(0); v == JSONObject(JSONTrue) {
			t.Fatal("the array changed")
		}
	}
''')
