seed('c20-read-case', 'C20', [('querystring.go', 'if !jbody.Contains(key) {', 'if !jbody.ContainsIgnoreCases(key) {')],
 'reading back a flat dictionary two of whose keys differ in letter case only',
 'the second of two keys that differ only in case is lost when a query string is read back',
 r'''
	d := NewDict()
	d.Set("Name", NewString("a"))
	d.Set("name", NewString("b"))
	o, err := ParseQueryString(d.QueryString())
	if err != nil || !o.Equals(d) {
		t.Fatalf("got %v, %v want %s", o, err, d)
	}
''')
seed('c20-read-first', 'C20', [('querystring.go', '''	for _, segs := range segmentKeys {
		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
''', '''	for i, segs := range segmentKeys {
		if i > 1023 && len(segs) == len(segmentKeys[i-1024]) {
			continue
		}
		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
''')],
 'reading back a flat dictionary of more than 1024 entries',
 'entries beyond the 1024th are dropped when a query string is read back',
 r'''
	d := NewDict()
	for i := 0; i < 1500; i++ {
		d.Set(fmt.Sprintf("k%d", i), NewString("v"))
	}
	o, err := ParseQueryString(d.QueryString())
	if err != nil || !o.Equals(d) {
		t.Fatalf("entries lost: %v", err)
	}
''', imports=('fmt',))
