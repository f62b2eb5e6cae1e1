From 676e9ad8cc4b6fc765298b68f64254d7f6bd2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 01/18] fix: do not index an empty unquoted value when parsing

Parse(","), Parse("[,]") and Parse(`{"a":}`) panicked with an index out of range.
---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..cb4f20a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From 642576ed5acfaadc11b459a4ddda8fa937552188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 02/18] fix: report a non-integer node id as a parse error

Parse(`{"___jnid_":"x"}`) panicked on a type assertion.
---
 jsonutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index cb4f20a..20c3700 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			idVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "invalid node id")
+			}
+			nodeId = int(idVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
-- 
2.43.0


From ccfc1424d78d17c8061c1610a1a45b5019bb56db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 03/18] fix: report a repeated node id as a parse error

Two dictionaries with the same ___jnid_ in one text made the parser panic.
---
 jsonutils.go     | 4 +++-
 parse_session.go | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 20c3700..0353a0d 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -561,7 +561,9 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			if err := s.saveNode(nodeId, this); err != nil {
+				return i, errors.Wrap(err, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..c6c4e34 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrInvalidStatus, "nodeId %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From b9561d4a3ab7d519f94ab7131ef995209e299da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 04/18] fix: decode \\u surrogate pairs to the character they
 stand for

Each half of the pair was turned into U+FFFD.
---
 jsonutils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 0353a0d..5c90b45 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -183,9 +184,19 @@ ret:
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 < len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// a surrogate pair encodes a single character
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if e == nil {
+							if c := utf16.DecodeRune(r, r2); c != utf8.RuneError {
+								r = c
+								i += 6
+							}
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From 265ee27ede398266cb0a908a79f2a7da36dfb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 05/18] fix: report texts cut off before the closing delimiter
 as parse errors

`{`, `[`, `{"a":1,`, `[1,` and `"abc` were accepted.
---
 jsonutils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 5c90b45..aee12e9 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -167,6 +167,7 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runebytes = make([]byte, 4)
 		runen     int
 		i         = offset
+		closed    bool
 	)
 ret:
 	for i < len(str) {
@@ -235,12 +236,16 @@ ret:
 			}
 		case quotec:
 			i++
+			closed = true
 			break ret
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
+	if !closed {
+		return "", i, NewJSONError(str, i, "Incomplete string")
+	}
 	return string(buffer), i, nil
 }
 
@@ -509,6 +514,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -563,6 +571,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 9de4b97f51e2c92153ae00a0cabe18ed1c8a213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 06/18] fix: escape keys in pretty-printed text

A key holding a quote, backslash or control character gave invalid JSON.
---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index aee12e9..b3c95cf 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -619,9 +619,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From 5bdf0c9d33597a3de18b3997310c81095bb48660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 07/18] fix: do not write to a float when printing it

JSONFloat.String stored the default bit size in the shared node, a data race
between concurrent readers of one document.
---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 78288e6790a2acf23f68e5418fc78825db1fbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 08/18] fix: unmarshal booleans and floats into unsigned
 integers

The code called reflect.Value.SetInt on unsigned kinds, which panics.
---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..f060874 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -182,13 +182,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -270,9 +275,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From e4c79c066715dc4d1db985a1ca692669805e3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 09/18] fix: unmarshal a top-level integer, float or boolean

JSONInt, JSONFloat and JSONBool inherited JSONValue.Unmarshal, which treated
them as null and zeroed the target.
---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index f060874..fb1f62f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From fe8dd1208ce450f5be876e204138ef09560b84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 10/18] fix: store scalars unmarshalled into JSONInt,
 JSONString, JSONBool and JSONFloat variables

The value was written to a copy and lost; a nil *JSONBool was left nil.
---
 unmarshal.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index fb1f62f..94b91e9 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -100,6 +100,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -107,6 +108,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -166,6 +168,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -173,6 +176,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -242,6 +246,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONFloatType:
 		json := val.Interface().(JSONFloat)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -249,6 +254,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -263,6 +269,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
 		json := val.Interface().(*JSONInt)
@@ -276,6 +283,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -326,6 +334,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -351,6 +360,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			json.data = false
 		}
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
 		json := val.Interface().(*JSONBool)
@@ -363,6 +373,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		if json == nil {
 			json = &JSONBool{data: data}
+			val.Set(reflect.ValueOf(json))
 		} else {
 			json.data = data
 		}
-- 
2.43.0


From 500e1d7e27694f9cecd39375d45411645541c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 11/18] fix: do not overwrite the document a *JSONString,
 *JSONInt or *JSONBool target points to

A target pointing at JSONTrue, or at a node of another document, had that
shared node changed in place. Point the target at a new node instead.
---
 unmarshal.go | 43 +++++--------------------------------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 94b91e9..4aed7b3 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -111,14 +111,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -179,14 +172,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -257,14 +243,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
@@ -272,13 +251,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
@@ -363,7 +336,6 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
 		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
@@ -371,12 +343,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			data = false
 		}
-		if json == nil {
-			json = &JSONBool{data: data}
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(&JSONBool{data: data}))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
 		JSONBoolPtrType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
-- 
2.43.0


From c04f22b57263590a93c5ce3a63c255885d600398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 12/18] fix: keep the tri-state value an integer, float or
 string is unmarshalled into

TriState is a string kind, so the text of the document overwrote it.
---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 4aed7b3..67ccb51 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -121,6 +121,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -182,6 +183,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -266,6 +268,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -357,6 +360,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From e6040ca7ffd2998be0413d055676da7e96200bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 13/18] fix: report numbers that do not fit the variable they
 are unmarshalled into

They were truncated silently: 300 into an int8 gave 44, -1 into a uint8 gave 255.
---
 unmarshal.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 67ccb51..e8a4954 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -126,9 +126,15 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
 		reflect.Int32, reflect.Int64:
+		if val.OverflowInt(this.data) {
+			return errors.Wrapf(ErrTypeMismatch, "%d overflows %s", this.data, val.Type())
+		}
 		val.SetInt(this.data)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16,
 		reflect.Uint32, reflect.Uint64:
+		if this.data < 0 || val.OverflowUint(uint64(this.data)) {
+			return errors.Wrapf(ErrTypeMismatch, "%d overflows %s", this.data, val.Type())
+		}
 		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(float64(this.data))
@@ -272,10 +278,20 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		// the bounds are the least and one past the greatest int64
+		if !(this.data >= -(1<<63) && this.data < 1<<63) || val.OverflowInt(int64(this.data)) {
+			return errors.Wrapf(ErrTypeMismatch, "%f overflows %s", this.data, val.Type())
+		}
 		val.SetInt(int64(this.data))
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if !(this.data > -1 && this.data < 1<<64) || val.OverflowUint(uint64(this.data)) {
+			return errors.Wrapf(ErrTypeMismatch, "%f overflows %s", this.data, val.Type())
+		}
 		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
+		if val.OverflowFloat(this.data) {
+			return errors.Wrapf(ErrTypeMismatch, "%f overflows %s", this.data, val.Type())
+		}
 		val.SetFloat(this.data)
 	case reflect.Bool:
 		if this.data == 0 {
@@ -365,7 +381,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if len(this.data) > 0 {
-			intVal, err := strconv.ParseInt(normalizeCurrencyString(this.data), 10, 64)
+			intVal, err := strconv.ParseInt(normalizeCurrencyString(this.data), 10, val.Type().Bits())
 			if err != nil {
 				return err
 			}
@@ -373,7 +389,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		if len(this.data) > 0 {
-			intVal, err := strconv.ParseUint(normalizeCurrencyString(this.data), 10, 64)
+			intVal, err := strconv.ParseUint(normalizeCurrencyString(this.data), 10, val.Type().Bits())
 			if err != nil {
 				return err
 			}
@@ -381,7 +397,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 	case reflect.Float32, reflect.Float64:
 		if len(this.data) > 0 {
-			floatVal, err := strconv.ParseFloat(normalizeCurrencyString(this.data), 64)
+			floatVal, err := strconv.ParseFloat(normalizeCurrencyString(this.data), val.Type().Bits())
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 3ce70bf740fa450b185473f4930b6c43ca668bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 14/18] fix: marshal values of named boolean types

The type assertion to bool panicked.
---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 2728ff097be1dc6085c1f1fdc849af636881daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 15/18] fix: report a type mismatch for interface targets a
 document value cannot be stored in

---
 unmarshal.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index e8a4954..f2aa10f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -152,7 +152,11 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		value := reflect.ValueOf(this.data)
+		if !value.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
+		}
+		val.Set(value)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -224,7 +228,11 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		value := reflect.ValueOf(this.data)
+		if !value.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
+		}
+		val.Set(value)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -307,7 +315,11 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		value := reflect.ValueOf(this.data)
+		if !value.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
+		}
+		val.Set(value)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -413,7 +425,11 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		value := reflect.ValueOf(this.data)
+		if !value.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONString vs. %s", val.Type())
+		}
+		val.Set(value)
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -463,7 +479,11 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		value := reflect.ValueOf(this.data)
+		if !value.Type().AssignableTo(val.Type()) {
+			return errors.Wrapf(ErrTypeMismatch, "JSONArray vs. %s", val.Type())
+		}
+		val.Set(value)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From de37962bf64fe27d2c6f2c1facb8dc98b5268a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 16/18] fix: do not share an array's slice with the variable it
 is unmarshalled into

---
 unmarshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index f2aa10f..629e502 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -453,6 +453,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	switch val.Type() {
 	case JSONArrayType:
 		array := val.Interface().(JSONArray)
+		// the backing array may be shared, do not append in place
+		array.data = array.data[:len(array.data):len(array.data)]
 		if this.data != nil {
 			array.Add(this.data...)
 		}
@@ -479,7 +481,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		value := reflect.ValueOf(this.data)
+		// a copy, so that the holder cannot reach into this array
+		value := reflect.ValueOf(append(this.data[:0:0], this.data...))
 		if !value.Type().AssignableTo(val.Type()) {
 			return errors.Wrapf(ErrTypeMismatch, "JSONArray vs. %s", val.Type())
 		}
-- 
2.43.0


From 13ea8aa27a24f38954d7012a18337a58b2d31631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 17/18] fix: report an error when a dictionary is read as a
 number or boolean

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..8404254 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrUnsupported
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrUnsupported
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrUnsupported
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From 0c50e6f8bcbbc89e3ebf39afad34a14bcc83585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 18/18] fix: do not unmarshal into a document that a target of
 a named pointer type points to

---
 unmarshal.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 629e502..795c643 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -83,6 +83,22 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	return nil
 }
 
+// pointee returns what the pointer val points to, for it to be filled. A
+// document is not filled in place as it may be in use elsewhere, val is made to
+// point to a new one.
+func pointee(val reflect.Value) reflect.Value {
+	elemType := val.Type().Elem()
+	isDocument := false
+	switch elemType {
+	case JSONIntType, JSONFloatType, JSONBoolType, JSONStringType, JSONArrayType, JSONDictType:
+		isDocument = true
+	}
+	if val.IsNil() || isDocument {
+		val.Set(reflect.New(elemType))
+	}
+	return val.Elem()
+}
+
 func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if val.CanSet() {
 		zeroVal := reflect.New(val.Type()).Elem()
@@ -147,10 +163,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case reflect.String:
 		val.SetString(fmt.Sprintf("%d", this.data))
 	case reflect.Ptr:
-		if val.IsNil() {
-			val.Set(reflect.New(val.Type().Elem()))
-		}
-		return this.unmarshalValue(s, val.Elem())
+		return this.unmarshalValue(s, pointee(val))
 	case reflect.Interface:
 		value := reflect.ValueOf(this.data)
 		if !value.Type().AssignableTo(val.Type()) {
@@ -223,10 +236,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 			val.SetString("false")
 		}
 	case reflect.Ptr:
-		if val.IsNil() {
-			val.Set(reflect.New(val.Type().Elem()))
-		}
-		return this.unmarshalValue(s, val.Elem())
+		return this.unmarshalValue(s, pointee(val))
 	case reflect.Interface:
 		value := reflect.ValueOf(this.data)
 		if !value.Type().AssignableTo(val.Type()) {
@@ -310,10 +320,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case reflect.String:
 		val.SetString(fmt.Sprintf("%f", this.data))
 	case reflect.Ptr:
-		if val.IsNil() {
-			val.Set(reflect.New(val.Type().Elem()))
-		}
-		return this.unmarshalValue(s, val.Elem())
+		return this.unmarshalValue(s, pointee(val))
 	case reflect.Interface:
 		value := reflect.ValueOf(this.data)
 		if !value.Type().AssignableTo(val.Type()) {
@@ -420,10 +427,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case reflect.String:
 		val.SetString(this.data)
 	case reflect.Ptr:
-		if val.IsNil() {
-			val.Set(reflect.New(val.Type().Elem()))
-		}
-		return this.unmarshalValue(s, val.Elem())
+		return this.unmarshalValue(s, pointee(val))
 	case reflect.Interface:
 		value := reflect.ValueOf(this.data)
 		if !value.Type().AssignableTo(val.Type()) {
@@ -572,11 +576,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case reflect.Ptr:
 		kind := val.Type().Elem().Kind()
 		if kind == reflect.Struct || kind == reflect.Map {
-			if val.IsNil() {
-				newVal := reflect.New(val.Type().Elem())
-				val.Set(newVal)
-			}
-			return this.unmarshalValue(s, val.Elem())
+			return this.unmarshalValue(s, pointee(val))
 		}
 		fallthrough
 	default:
-- 
2.43.0

