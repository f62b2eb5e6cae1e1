seed('c23-map-merge','C23',[('unmarshal.go','''		valVal := reflect.New(valType.Elem()).Elem()

		err := v.unmarshalValue(s, valVal)
''','''		var valVal reflect.Value
		if old := val.MapIndex(keyVal); old.IsValid() && old.Kind() == reflect.Ptr && !old.IsNil() {
			// merge into the entry that is there already
			valVal = old
			old = old.Elem()
			err := v.unmarshalValue(s, old)
			if err == nil {
				continue
			}
		}
		valVal = reflect.New(valType.Elem()).Elem()

		err := v.unmarshalValue(s, valVal)
''')],
'a map of pointers to documents as the target, whose entry under one of the names already points to a document',
'the document the map entry points to is overwritten instead of the entry',
'''
	d := NewDict()
	d.Set("x", NewInt(1))
	m := map[string]*JSONDict{"a": d}
	src := NewDict()
	in := NewDict()
	in.Set("y", NewInt(2))
	src.Set("a", in)
	if err := src.Unmarshal(&m); err != nil {
		t.Fatal(err)
	}
	if d.String() != `{"x":1}` {
		t.Fatal("an existing document changed to ", d)
	}
''')
