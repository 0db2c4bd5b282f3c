From c37f253663d044a3ae2c6a0a109bbdcab4162ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 01/80] fix: write null for a field whose arguments could not
 be bound

A failing method argument, and a selection set on __typename, wrote the
response key without a value, so the response was not valid JSON.
---
 resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..16ca382 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
@@ -801,6 +802,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From c478e46b8b07114d2403086b6525ebef176d7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 02/80] fix: report a file variable without upload support
 instead of crashing

bindJSONToValue called a nil GetFormFile function.
---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 16ca382..fa547e5 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1156,6 +1156,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From 796a5f9d2724ff6fd5336d3c2e1144837ee3e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 03/80] fix: match fragment names completely

A spread also matched a fragment whose name merely starts with the spread
name.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index fa547e5..6246155 100644
--- a/resolver.go
+++ b/resolver.go
@@ -475,7 +475,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From f9d56064cac7c087f0fb32de3e5640925f5f9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 04/80] fix: report fragments that spread themselves

Resolving a fragment cycle recursed until the stack overflowed, which
ended the process.
---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 6246155..598b79f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -25,6 +25,7 @@ type Ctx struct {
 	charNr                   int
 	context                  *context.Context
 	path                     []byte
+	activeFragments          []int                                           // locations of the fragments that are currently being resolved
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
 	operatorHasArguments     bool
 	operatorArgumentsStartAt int
@@ -177,6 +178,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		charNr:                 0,
 		context:                nil,
 		path:                   ctx.path[:0],
+		activeFragments:        ctx.activeFragments[:0],
 		getFormFile:            opts.GetFormFile,
 		rawVariables:           opts.Variables,
 		variablesParsed:        false,
@@ -494,7 +496,15 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			for _, activeLocation := range ctx.activeFragments {
+				if activeLocation == location {
+					return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+				}
+			}
+			ctx.activeFragments = append(ctx.activeFragments, location)
+
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.activeFragments = ctx.activeFragments[:len(ctx.activeFragments)-1]
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From 736ccf9058688508a14b3a2ee2915a37531b6287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 05/80] fix: read argument values up to their length instead of
 the first NUL

A string with a \u0000 escape was cut off there and its remainder was
interpreted as bytecode.
---
 resolver.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/resolver.go b/resolver.go
index 598b79f..1d7727a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1427,19 +1427,19 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		return valueSet, criticalErr
 	}
 
+	ctx.skipInst(1)                                // read ActionValue
+	valueKind := ctx.readInst()                    // read value kind
+	valueLength := int(ctx.readUint32(ctx.charNr)) // read length of value
+	ctx.skipInst(4)
+
 	getValue := func() (start int, end int) {
+		// Note that the value itself might contain NULL bytes
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + valueLength
+		ctx.charNr = end + 1 // also skip the NULL byte behind the value
+		return start, end
 	}
 
-	ctx.skipInst(1)             // read ActionValue
-	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
-
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
 	valueSet = true
-- 
2.43.0


From f8efd47c2b1e72f6db94703dc28508ef0eed2a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 06/80] fix: continue behind a list argument instead of at its
 end marker

Arguments, object members, outer list elements and the selection set that
followed a list literal were lost.
---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 1d7727a..4b84259 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1608,6 +1608,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read end of list and the NULL byte behind it
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From 479ddd351600840863e1bf78464fbc03a97203b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 07/80] fix: skip a null for a pointer completely

The elements of a list behind a null were read from the wrong position.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 4b84259..75d7f33 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1418,7 +1418,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7) // ActionValue, ValueNull, 4 length bytes and the NULL byte behind it
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From 7f6aaa4af6ef4cf5d121817270dc86cf20d78a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 08/80] fix: reject invalid escape sequences and keep NUL bytes
 in strings

An unknown escape was read as the character itself and NUL bytes were
dropped, so a resolver got a text that was not written.
---
 bytecode/bytecode.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..62c53f4 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -966,11 +966,6 @@ mainLoop:
 			return ctx.unexpectedEOF()
 		}
 
-		if c == 0 {
-			// TODO maybe add support for this
-			continue
-		}
-
 		if c == '\n' || c == '\r' {
 			if !isBlock {
 				return ctx.err("newline and carriage returns not allowed in strings")
@@ -1030,8 +1025,6 @@ mainLoop:
 			}
 
 			switch c {
-			case 0:
-				// TODO add support for this
 			case '\n', '\r':
 				return ctx.err("newline and carriage returns not allowed in strings")
 			case 'b':
@@ -1079,9 +1072,10 @@ mainLoop:
 				l := utf8.EncodeRune(res, r)
 
 				ctx.Res = append(ctx.Res, res[:l]...)
-			default:
-				// TODO support unicode
+			case '"', '\\', '/':
 				ctx.Res = append(ctx.Res, c)
+			default:
+				return ctx.err(`invalid escape sequence in string, char: "` + string(c) + `"`)
 			}
 			continue
 		}
-- 
2.43.0


From c4e640b940d7bdabf149154a890dcac5aa624b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 09/80] fix: take backslashes in block strings literally

Only \""" is an escape there, all other backslashes are part of the text.
---
 bytecode/bytecode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 62c53f4..5911dba 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1017,6 +1017,18 @@ mainLoop:
 			}
 		}
 
+		if c == '\\' && isBlock {
+			// The only escape sequence inside a block string is \"""
+			ctx.charNr++
+			if ctx.matches(`"""`) == 0 {
+				ctx.Res = append(ctx.Res, `"""`...)
+			} else {
+				ctx.Res = append(ctx.Res, c)
+			}
+			ctx.charNr--
+			continue
+		}
+
 		if c == '\\' {
 			ctx.charNr++
 			c, eof = ctx.checkC(ctx.charNr)
-- 
2.43.0


From acb9431688ef3b7bb01c56640d382e1d49d8532f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 10/80] fix: decode surrogate pairs in string escapes

Both halves of a pair were replaced by U+FFFD.
---
 bytecode/bytecode.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 5911dba..ffa5a7f 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1076,7 +1076,14 @@ mainLoop:
 				// 	ctx.res = append(ctx.res, res[1])
 				// }
 
-				r := utf16.Decode([]uint16{uint16(res[1]) | (uint16(res[0]) << 8)})[0]
+				r := rune(res[1]) | (rune(res[0]) << 8)
+				if utf16.IsSurrogate(r) {
+					// Might be the first half of a surrogate pair like \uD83D\uDE00
+					r = utf16.DecodeRune(r, ctx.seekUnicodeEscape(ctx.charNr+1))
+					if r != utf8.RuneError {
+						ctx.charNr += 6
+					}
+				}
 
 				// hex.Decode above only writes to the first and second byte
 				res[0] = 0
@@ -1096,6 +1103,19 @@ mainLoop:
 	}
 }
 
+// seekUnicodeEscape returns the value of the \uXXXX escape sequence at nr or utf8.RuneError if there is none
+func (ctx *ParserCtx) seekUnicodeEscape(nr int) rune {
+	if ctx.eof(nr+5) || ctx.c(nr) != '\\' || ctx.c(nr+1) != 'u' {
+		return utf8.RuneError
+	}
+	res := make([]byte, 2)
+	_, err := hex.Decode(res, ctx.Query[nr+2:nr+6])
+	if err != nil {
+		return utf8.RuneError
+	}
+	return rune(res[1]) | (rune(res[0]) << 8)
+}
+
 //
 // ITERATOR HELPERS
 //
-- 
2.43.0


From f18ef93367869a70f4989529a23c3534a76037f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 11/80] fix: reject numeric ids that do not fit their integer
 type

---
 resolver.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/resolver.go b/resolver.go
index 75d7f33..cc42e79 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1140,23 +1140,18 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				valueSet = true
 				goValue.SetString(stringValue)
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				// TODO check if the int value can be assigned to int8 - int32
-				goValue.SetInt(int64(intValue))
+				goValue.SetInt(intValue)
 				valueSet = true
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
+				intValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 				if err != nil {
 					return false, ctx.err("id argument must match a number type")
 				}
-				if intValue < 0 {
-					return false, ctx.err("id argument must match a number above 0")
-				}
-				// TODO check if the int value can be assigned to uint8 - uint32
-				goValue.SetUint(uint64(intValue))
+				goValue.SetUint(intValue)
 				valueSet = true
 			default:
 				return false, ctx.err("internal error: cannot assign to this ID field")
@@ -1351,22 +1346,17 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 		case reflect.String:
 			goValue.SetString(stringValue)
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseInt(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			// TODO check if the int value can be assigned to int8 - int32
-			goValue.SetInt(int64(intValue))
+			goValue.SetInt(intValue)
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
+			intValue, err := strconv.ParseUint(stringValue, 10, goValue.Type().Bits())
 			if err != nil {
 				return ctx.err("id argument must match a number type")
 			}
-			if intValue < 0 {
-				return ctx.err("id argument must match a number above 0")
-			}
-			// TODO check if the int value can be assigned to uint8 - uint32
-			goValue.SetUint(uint64(intValue))
+			goValue.SetUint(intValue)
 		default:
 			return ctx.err("internal error: cannot assign to this ID field")
 		}
-- 
2.43.0


From 11aa7344453631c5670c3fa1ab2f821c50ca4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 12/80] fix: reject JSON numbers that do not fit a small
 unsigned integer

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index cc42e79..1b11458 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1278,15 +1278,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From f078ecd470dfb6694ea67e71bc63e915f01954f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 13/80] fix: accept list variables for lists of pointers

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 1b11458..c6d45e7 100644
--- a/resolver.go
+++ b/resolver.go
@@ -968,6 +968,10 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 	resolvedValueStructure := valueStructure
 	c := ctx.readInst()
 	for {
+		// The items of a list might be pointers
+		for resolvedValueStructure.kind == reflect.Ptr && !resolvedValueStructure.isFile {
+			resolvedValueStructure = resolvedValueStructure.elem
+		}
 		if c != 'L' && c != 'l' {
 			break
 		}
-- 
2.43.0


From 205e4ad3b4c4e8cb20391ac87218a866d62bb7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 14/80] fix: reject integer literals for enum arguments

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index c6d45e7..4fb830b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1458,6 +1458,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			return valueSet, criticalErr
 		}
 	case bytecode.ValueInt:
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to enum value")
+		}
+
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
-- 
2.43.0


From d88f51e727e93de7efaf3ae6f4a0b63a31f45e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 15/80] fix: reject objects for time arguments

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 4fb830b..785996c 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1610,7 +1610,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-		if goValue.Kind() != reflect.Struct {
+		if goValue.Kind() != reflect.Struct || valueStructure.isTime {
 			return false, ctx.err("cannot assign object to " + goValue.String())
 		}
 
-- 
2.43.0


From 9b9901ae9c598b3acf0c4ef842a0308a93c030c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 16/80] fix: keep an input object whose last member is null

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 785996c..8001b3d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1628,7 +1628,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From 5886e5f8a340d18ac58fc2f1a80e96ffdc30bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 17/80] fix: accept null variables for enums, ids, times and
 files

---
 resolver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 8001b3d..00d2057 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1095,6 +1095,11 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
+	if jsonDataType == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
+
 	if valueStructure.isEnum || valueStructure.isID || valueStructure.isFile || valueStructure.isTime {
 		if jsonDataType != fastjson.TypeString {
 			if valueStructure.isEnum {
@@ -1190,8 +1195,6 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	switch jsonDataType {
-	case fastjson.TypeNull:
-		// keep goValue at it's default
 	case fastjson.TypeObject:
 		if goValue.Kind() != reflect.Struct {
 			return false, ctx.err("cannot assign object to non object value")
-- 
2.43.0


From 90ac59c6dbe9d7e7798056348838c09fe58a971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 18/80] fix: hand out copies of string arguments instead of the
 parser its memory

---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 00d2057..aec73af 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1114,7 +1114,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1245,7 +1245,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1546,7 +1546,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		stringValue := string(ctx.query.Res[startString:endString])
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From b774d07fd600c3f7fb6594b638d195f249384295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 19/80] fix: set a context on requests that have none

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index aec73af..ca5e35f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -115,7 +115,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From 0bbb48ce9884922979dd4e5eb0c003e5b3470439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:30 +0000
Subject: [PATCH 20/80] fix: ignore methods named Resolve instead of crashing

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index da6d644..abdca17 100644
--- a/parse.go
+++ b/parse.go
@@ -739,7 +739,7 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	trimmedName := name
 
 	if strings.HasPrefix(name, "Resolve") {
-		if len(name) > 0 {
+		if len(name) > len("Resolve") {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
-- 
2.43.0


From cbf06538e639c115055e9aefd9c29d0669bbc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 21/80] fix: write null for a field whose resolver returned an
 error

---
 resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver.go b/resolver.go
index ca5e35f..b9b244b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -825,7 +825,9 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 					ctx.writeNull()
 					return ctx.err("returned a invalid kind of error")
 				} else if err != nil {
+					ctx.writeNull()
 					ctx.err(err.Error())
+					return false
 				}
 			}
 		}
-- 
2.43.0


From 75c2b7a6089e9ae65440ee9aee6c140b61511f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 22/80] fix: write times in UTC as their Z suffix claims

---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..81e719a 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,5 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From 92336bf017859be4453594b1d4f9292c88ded4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 23/80] fix: keep the fragment locations of a cached query

---
 bytecode/cache/bytecode_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..d8afffd 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,7 +70,7 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: append([]int(nil), fragmentLocation...),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
-- 
2.43.0


From 21e0e486c9af895c9532207e58aee01e889f6a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 24/80] fix: introspection of the mutation type replaced the
 fields of the query type

---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From 9cb86811702701ccc3e9db7807cecfa4e7825fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 25/80] fix: introspection mixed up the input types of
 arguments and input fields

---
 inject_schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..cdacde6 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -235,6 +235,7 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 				res := make([]qlInputValue, len(in.structContent))
 				i := 0
 				for key, item := range in.structContent {
+					item := item
 					res[i] = qlInputValue{
 						Name:         key,
 						Description:  h.PtrToEmptyStr,
@@ -292,6 +293,7 @@ func (s *Schema) getObjectArgs(item *obj) []qlInputValue {
 func (s *Schema) getMethodArgs(inputs map[string]referToInput) []qlInputValue {
 	res := []qlInputValue{}
 	for key, value := range inputs {
+		value := value
 		res = append(res, qlInputValue{
 			Name:         key,
 			Description:  h.PtrToEmptyStr,
-- 
2.43.0


From f71b75318f2c534ec6075d006753d91403ce8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 26/80] fix: introspection misses the fields of input types
 reached through an argument

---
 inject_schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index cdacde6..cd991f9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -232,6 +232,10 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 			Name:        h.StrPtr(in.structName),
 			Description: h.PtrToEmptyStr,
 			InputFields: func() []qlInputValue {
+				if in.isStructPointers {
+					in = s.inTypes[in.structName]
+				}
+
 				res := make([]qlInputValue, len(in.structContent))
 				i := 0
 				for key, item := range in.structContent {
-- 
2.43.0


From 032e08aa80e476d42b4e088c4d5870352f3bb7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 27/80] fix: introspection reports enum arguments as plain
 scalars

---
 inject_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index cd991f9..162142e 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -221,6 +221,11 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 	} else if in.isFile {
 		res = &scalarFile
 		return
+	} else if in.isEnum {
+		isNonNull = true
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		res = &enumType
+		return
 	}
 
 	switch in.kind {
-- 
2.43.0


From 1108b1074166643e951962991dff92c48fbc4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 28/80] fix: ignore commas everywhere and do not ignore NUL
 bytes

---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ffa5a7f..df91424 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1162,7 +1162,7 @@ func isPunctuator(c byte) bool {
 // https://spec.graphql.org/October2021/#sec-Language.Source-Text.Ignored-Tokens
 func (ctx *ParserCtx) isIgnoredToken(c byte) bool {
 	// TODO this doesn't support unicode bomb
-	return c == ' ' || c == '\t' || ctx.isLineTerminator() || ctx.isComment(true) || c == 0
+	return c == ' ' || c == '\t' || c == ',' || ctx.isLineTerminator() || ctx.isComment(true)
 }
 
 // https://spec.graphql.org/October2021/#sec-Line-Terminators
-- 
2.43.0


From a14a5f8b153cb36f64b9d467ff4128a7e96f68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 29/80] fix: accept ignored tokens in list types and behind $
 and @

---
 bytecode/bytecode.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index df91424..9e848c3 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -272,6 +272,10 @@ func (ctx *ParserCtx) parseOperatorArgument() bool {
 	// Parse `$` of `query a($some_var: String = "a") {`
 	startOfArgument := len(ctx.Res) + 1
 	argLengthLocation := ctx.instructionNewOperationArg()
+	_, eof := ctx.mightIgnoreNextTokens()
+	if eof {
+		return ctx.unexpectedEOF()
+	}
 
 	// Parse `some_name` of `query a($some_var: String = "a") {`
 	nameLen, criticalErr := ctx.parseAndWriteName()
@@ -351,6 +355,10 @@ func (ctx *ParserCtx) parseDirectives() (directivesAmount uint8, criticalErr boo
 		ctx.charNr++
 		ctx.instructionNewDirective()
 		hasArgsFlag := len(ctx.Res) - 1
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return directivesAmount, ctx.unexpectedEOF()
+		}
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
 			return directivesAmount, criticalErr
@@ -402,7 +410,7 @@ func (ctx *ParserCtx) parseGraphqlTypeName(c byte) bool {
 			return ctx.err(`expected list closure ("]") but got "` + string(c) + `"`)
 		}
 		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
+		c, eof = ctx.mightIgnoreNextTokens()
 		if eof {
 			return ctx.unexpectedEOF()
 		}
@@ -713,6 +721,10 @@ func (ctx *ParserCtx) parseInputValue() bool {
 		ctx.charNr++
 		ctx.instructionNewValueVariable()
 		startOfVariable := len(ctx.Res)
+		_, eof = ctx.mightIgnoreNextTokens()
+		if eof {
+			return ctx.unexpectedEOF()
+		}
 
 		nameLen, criticalErr := ctx.parseAndWriteName()
 		if criticalErr {
-- 
2.43.0


From 32269465bb663ebc659e9a6c6823c8293078e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 30/80] fix: match the query, mutation, subscription, fragment
 and on keywords completely

---
 bytecode/bytecode.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 9e848c3..d7629d2 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -98,7 +98,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 			ctx.TargetIdx = operationStartsAt
 		}
 		ctx.instructionNewOperation(OperatorQuery)
-	} else if matches := ctx.matches("query", "mutation", "subscription"); matches != -1 {
+	} else if matches := ctx.matchesWord("query", "mutation", "subscription"); matches != -1 {
 		// Set the operation kind
 		if !ctx.hasTarget {
 			ctx.TargetIdx = operationStartsAt
@@ -163,7 +163,7 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if c != '{' {
 			return ctx.err(`expected selection set opener ("{") but got "` + string(c) + `"`)
 		}
-	} else if matches := ctx.matches("fragment"); matches != -1 {
+	} else if matches := ctx.matchesWord("fragment"); matches != -1 {
 		ctx.FragmentLocations = append(ctx.FragmentLocations, len(ctx.Res)+1)
 		ctx.instructionNewFragment()
 
@@ -185,18 +185,9 @@ func (ctx *ParserCtx) parseOperatorOrFragment() (stop bool) {
 		if eof {
 			return ctx.unexpectedEOF()
 		}
-		if c != 'o' {
+		if ctx.matchesWord("on") != 0 {
 			return ctx.err(`expected "on" keyword but got "` + string(c) + `"`)
 		}
-		ctx.charNr++
-		c, eof = ctx.checkC(ctx.charNr)
-		if eof {
-			return ctx.unexpectedEOF()
-		}
-		if c != 'n' {
-			return ctx.err(`expected "on" keyword but got "` + string(c) + `"`)
-		}
-		ctx.charNr++
 
 		// Parse fragment target type name
 		_, eof = ctx.mightIgnoreNextTokens()
-- 
2.43.0


From be455d2eeafafc1b8fb0ecd270b1de22e5bcf371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 31/80] fix: count the columns of errors from 1

---
 bytecode/bytecode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index d7629d2..cf1ebbf 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1299,7 +1299,7 @@ func (e ErrorWLocation) Error() string {
 
 func (ctx *ParserCtx) err(err string) bool {
 	line := uint(1)
-	column := uint(0)
+	column := uint(1)
 	for idx, char := range ctx.Query {
 		if idx == ctx.charNr {
 			break
@@ -1307,15 +1307,15 @@ func (ctx *ParserCtx) err(err string) bool {
 
 		switch char {
 		case '\n':
-			if column == 0 && idx > 0 && ctx.Query[idx-1] == '\r' {
+			if column == 1 && idx > 0 && ctx.Query[idx-1] == '\r' {
 				// don't count \r\n as 2 lines
 				continue
 			}
 			line++
-			column = 0
+			column = 1
 		case '\r':
 			line++
-			column = 0
+			column = 1
 		default:
 			column++
 		}
-- 
2.43.0


From 32226927bf379aa9b4fb6015098aa6d4a4138b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 32/80] fix: accept directives behind the arguments of a field

---
 bytecode/bytecode.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index cf1ebbf..ed1b68b 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -595,6 +595,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 				return ctx.unexpectedEOF()
 			}
 
+			startOfArguments := len(ctx.Res)
 			criticalErr := ctx.parseAssignmentSet(')')
 			if criticalErr {
 				return criticalErr
@@ -604,6 +605,24 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 			if eof {
 				return ctx.unexpectedEOF()
 			}
+
+			if c == '@' {
+				startOfDirectives := len(ctx.Res)
+				amount, criticalErr := ctx.parseDirectives()
+				if criticalErr {
+					return criticalErr
+				}
+				if int(ctx.Res[directivesCountLocation])+int(amount) > 255 {
+					return ctx.err(`cannot have more than 255 directives`)
+				}
+				ctx.Res[directivesCountLocation] += amount
+
+				// The directives are expected in front of the arguments
+				arguments := append([]byte{}, ctx.Res[startOfArguments:startOfDirectives]...)
+				copy(ctx.Res[startOfArguments:], ctx.Res[startOfDirectives:])
+				copy(ctx.Res[len(ctx.Res)-len(arguments):], arguments)
+				c = ctx.currentC()
+			}
 		}
 
 		if c == '{' {
-- 
2.43.0


From e4c421266063c35995238df14be9626ffd7545d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 33/80] fix: do not resolve unknown fields with the hash of a
 known field

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index b9b244b..fad48f5 100644
--- a/resolver.go
+++ b/resolver.go
@@ -578,6 +578,10 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
+	if ok {
+		// Other names might have the same hash
+		ok = bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName])
+	}
 	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
-- 
2.43.0


From b8ebe7128a991b03bf7d94a7675df70149c8e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:30 +0000
Subject: [PATCH 34/80] fix: an interface could step over the maximum depth

---
 resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index fad48f5..df3b4ff 100644
--- a/resolver.go
+++ b/resolver.go
@@ -775,7 +775,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		dept++
-		if dept == ctx.schema.MaxDepth {
+		if dept >= ctx.schema.MaxDepth {
 			ctx.writeNull()
 			return ctx.err("reached max dept")
 		}
@@ -919,7 +919,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From c8af61268225095d0b8b502ce4a9d5f121751392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 35/80] fix: deeply nested values overwrote the values around
 them

---
 copy_schema.go |  2 +-
 resolver.go    | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..3c753b7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -75,7 +75,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index df3b4ff..416a055 100644
--- a/resolver.go
+++ b/resolver.go
@@ -39,8 +39,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -53,7 +53,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -72,6 +72,10 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	if ctx.currentReflectValueIdx == len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, value)
+		return
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From 3f02dc34a0238d7bca74c84e3835aac3002e3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 36/80] fix: a copied schema listed __schema and __type as
 fields

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 3c753b7..23ad4e7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -174,6 +174,7 @@ func (o *obj) copy() *obj {
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
 		qlFieldName:    o.qlFieldName[:],
+		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
-- 
2.43.0


From 3af45f1c7277c14ce82cf5942455128e5c3557e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 37/80] fix: a copied schema shared its tracer with the
 original

---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 23ad4e7..0efb8aa 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -69,7 +69,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From c30aa2432b1933328bab79129439e1d6a6240146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 38/80] fix: a copied schema lost the descriptions of enums

---
 copy_schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 0efb8aa..c369e78 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,8 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr("")
+		*res.Description = *m.Description
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From 86314f17d31ef4b4bfa743438b94680d6f5fde8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 39/80] fix: a copied schema lost the cache rules

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index c369e78..4fc1459 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -54,6 +54,7 @@ func (s *Schema) Copy() *Schema {
 	}
 
 	res.ctx = s.ctx.copy(res)
+	res.ctx.query.CacheableQueryMinLen = s.ctx.query.CacheableQueryMinLen
 
 	return res
 }
-- 
2.43.0


From d6b7776cf631121bbf2b724d005177afcb0e1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 40/80] fix: introspection of a copied schema used the memory
 of the original

---
 copy_schema.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 4fc1459..670a8e0 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,9 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
+		rootQuery:         (*types)[s.rootQuery.typeName],
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
+		rootMethod:        (*types)[s.rootMethod.typeName],
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +53,13 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// The value behind __schema refers to the schema it was made for
+	qlSchemaObj, ok := res.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if ok && qlSchemaObj.customObjValue != nil {
+		contents := reflect.ValueOf(res.getQLSchema())
+		qlSchemaObj.customObjValue = &contents
+	}
+
 	res.ctx = s.ctx.copy(res)
 	res.ctx.query.CacheableQueryMinLen = s.ctx.query.CacheableQueryMinLen
 
-- 
2.43.0


From e4c6ed55480eefae41310acce441625f2c7da49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 41/80] fix: introspection misses the arguments of directives

---
 parse.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/parse.go b/parse.go
index abdca17..ec68602 100644
--- a/parse.go
+++ b/parse.go
@@ -326,17 +326,6 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
-	}
-
-	for _, method := range ctx.parsedMethods {
-		err = ctx.checkFunctionIns(method)
-		if err != nil {
-			return err
-		}
-	}
-
 	for _, directiveLocation := range ctx.schema.definedDirectives {
 		for _, directive := range directiveLocation {
 			if directive.parsedMethod.checkedIns {
@@ -350,6 +339,18 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	// The graphql types describe the directives and thus must be injected after checking those
+	if options == nil || !options.SkipGraphqlTypesInjection {
+		s.injectQLTypes(ctx)
+	}
+
+	for _, method := range ctx.parsedMethods {
+		err = ctx.checkFunctionIns(method)
+		if err != nil {
+			return err
+		}
+	}
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From 68085d10140c8c4ba013c5006880281f637bff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 42/80] fix: do not offer unexported struct fields as arguments

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index ec68602..c021684 100644
--- a/parse.go
+++ b/parse.go
@@ -606,8 +606,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip field, unexported fields cannot be set
 		return res, true, nil
 	}
 
-- 
2.43.0


From 23700f6e9b8412c57e9dbb3e26bd3cbbc05cffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 43/80] fix: do not crash on methods and times of unexported
 fields

---
 resolver.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/resolver.go b/resolver.go
index 416a055..9c8f43e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -813,6 +813,12 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 	case valueTypeMethod:
 		method := typeObj.method
 
+		if !goValue.CanInterface() {
+			ctx.writeNull()
+			ctx.err("cannot call methods of unexported fields")
+			return false
+		}
+
 		if !method.isTypeMethod && goValue.IsNil() {
 			ctx.writeNull()
 			return false
@@ -883,6 +889,12 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if !goValue.CanInterface() {
+			ctx.writeNull()
+			ctx.err("cannot read times of unexported fields")
+			return false
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From e7d6b6613a9a86db4a6693d189a3f50f8e097c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 44/80] fix: report field names with equal hashes instead of
 dropping one of the fields

---
 parse.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index c021684..5f13455 100644
--- a/parse.go
+++ b/parse.go
@@ -124,6 +124,17 @@ func getObjKey(key []byte) uint32 {
 	return hasher.Sum32()
 }
 
+// addContent adds a field to the object
+func (o *obj) addContent(field *obj) error {
+	key := getObjKey(field.qlFieldName)
+	existing, ok := o.objContents[key]
+	if ok && !bytes.Equal(existing.qlFieldName, field.qlFieldName) {
+		return fmt.Errorf("%s cannot have the fields %s and %s, their names have the same hash", o.typeName, existing.qlFieldName, field.qlFieldName)
+	}
+	o.objContents[key] = field
+	return nil
+}
+
 func (o *obj) getRef() obj {
 	switch o.valueType {
 	case valueTypeObj:
@@ -426,7 +437,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				obj.qlFieldName = []byte(name)
 
-				res.objContents[getObjKey(obj.qlFieldName)] = obj
+				err = res.addContent(obj)
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
@@ -534,7 +548,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 
 			qlFieldName := []byte(name)
-			res.objContents[getObjKey(qlFieldName)] = &obj{
+			err = res.addContent(&obj{
 				qlFieldName:    qlFieldName,
 				valueType:      valueTypeMethod,
 				goPkgPath:      method.PkgPath,
@@ -542,6 +556,9 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				structFieldIdx: i,
 				method:         methodObj,
 				isID:           isID,
+			})
+			if err != nil {
+				return nil, err
 			}
 		}
 
-- 
2.43.0


From 21c81ad44d4800caac6315f30c6e3c7d41d41711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 45/80] fix: handle content types with parameters

---
 implement_helpers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implement_helpers.go b/implement_helpers.go
index f1c6718..5d9732b 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -29,6 +29,8 @@ func (s *Schema) HandleRequest(
 	options *RequestOptions, // optional options
 ) ([]byte, []error) {
 	method = strings.ToUpper(method)
+	// The content type might have parameters like "; charset=utf-8"
+	contentType = strings.ToLower(strings.TrimSpace(strings.SplitN(contentType, ";", 2)[0]))
 
 	errRes := func(errorMsg string) ([]byte, []error) {
 		response := []byte(`{"data":{},"errors":[{"message":`)
-- 
2.43.0


From 3a0dc0ca30356ab709bd9760a7e94687fb23c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 46/80] fix: pass the variables of a JSON body on as they are
 instead of re-encoding them

---
 implement_helpers.go | 15 ++++++++++-----
 resolver.go          |  6 ++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/implement_helpers.go b/implement_helpers.go
index 5d9732b..07225c1 100644
--- a/implement_helpers.go
+++ b/implement_helpers.go
@@ -81,6 +81,7 @@ func (s *Schema) HandleRequest(
 				} else {
 					errs := s.handleSingleRequest(
 						query,
+						"",
 						variables,
 						operationName,
 						options,
@@ -99,6 +100,7 @@ func (s *Schema) HandleRequest(
 		}
 		errs := s.handleSingleRequest(
 			query,
+			"",
 			variables,
 			operationName,
 			options,
@@ -109,6 +111,7 @@ func (s *Schema) HandleRequest(
 	errs := s.handleSingleRequest(
 		getQuery("query"),
 		getQuery("variables"),
+		nil,
 		getQuery("operationName"),
 		options,
 	)
@@ -117,13 +120,15 @@ func (s *Schema) HandleRequest(
 
 func (s *Schema) handleSingleRequest(
 	query,
-	variables,
+	variables string,
+	parsedVariables *fastjson.Value,
 	operationName string,
 	options *RequestOptions,
 ) []error {
 	resolveOptions := ResolveOptions{
-		OperatorTarget: operationName,
-		Variables:      variables,
+		OperatorTarget:  operationName,
+		Variables:       variables,
+		parsedVariables: parsedVariables,
 	}
 	if options != nil {
 		if options.Context != nil {
@@ -141,7 +146,7 @@ func (s *Schema) handleSingleRequest(
 	return s.Resolve(s2b(query), resolveOptions)
 }
 
-func getBodyData(body *fastjson.Value) (query, operationName, variables string, err error) {
+func getBodyData(body *fastjson.Value) (query, operationName string, variables *fastjson.Value, err error) {
 	if body.Type() != fastjson.TypeObject {
 		err = errors.New("body should be a object")
 		return
@@ -184,7 +189,7 @@ func getBodyData(body *fastjson.Value) (query, operationName, variables string,
 				err = errors.New("expected variables to be a key value object but got: " + t.String())
 				return
 			}
-			variables = jsonVariables.String()
+			variables = jsonVariables
 		}
 	}
 
diff --git a/resolver.go b/resolver.go
index 9c8f43e..998fdee 100644
--- a/resolver.go
+++ b/resolver.go
@@ -163,6 +163,8 @@ type ResolveOptions struct {
 	GetFormFile    func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
 	Variables      string                                          // Expects valid JSON or empty string
 	Tracing        bool                                            // https://github.com/apollographql/apollo-tracing
+
+	parsedVariables *fastjson.Value // Used instead of Variables if set
 }
 
 // Resolve resolves a query and returns errors if any
@@ -185,9 +187,9 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		activeFragments:        ctx.activeFragments[:0],
 		getFormFile:            opts.GetFormFile,
 		rawVariables:           opts.Variables,
-		variablesParsed:        false,
+		variablesParsed:        opts.parsedVariables != nil,
 		variablesJSONParser:    ctx.variablesJSONParser,
-		variables:              ctx.variables,
+		variables:              opts.parsedVariables,
 		tracingEnabled:         opts.Tracing,
 		tracing:                ctx.tracing,
 		prefRecordingStartTime: ctx.prefRecordingStartTime,
-- 
2.43.0


From d4b147890d5745b0548e6043c07d867cf1cbb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 47/80] fix: check the declared type of variables for booleans

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 998fdee..6c3575e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1039,6 +1039,9 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 		} else {
 			switch resolvedValueStructure.kind {
 			case reflect.Bool:
+				if typeName != "Boolean" {
+					return false, ctx.err("expected variable type Boolean but got " + typeName)
+				}
 			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				if typeName != "Int" {
 					return false, ctx.err("expected variable type Int but got " + typeName)
-- 
2.43.0


From 5c6ce99972eb8df894a055353edf29ef23aa23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:22 +0000
Subject: [PATCH 48/80] fix: report selections on enum and time fields instead
 of ignoring them

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 6c3575e..9fae10e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -862,6 +862,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -891,6 +896,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		if !goValue.CanInterface() {
 			ctx.writeNull()
 			ctx.err("cannot read times of unexported fields")
-- 
2.43.0


From 4008b08c3fcb8e34221149c6962fd88bd3281d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 49/80] fix: storing a value when the request came with a
 pointer to a nil map

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 9fae10e..46b5a44 100644
--- a/resolver.go
+++ b/resolver.go
@@ -102,6 +102,10 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 		ctx.values = &map[string]interface{}{
 			key: value,
 		}
+	} else if *ctx.values == nil {
+		*ctx.values = map[string]interface{}{
+			key: value,
+		}
 	} else {
 		(*ctx.values)[key] = value
 	}
-- 
2.43.0


From f6c26b406d3d7f88ca2f890882df32d5d28ad027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 50/80] fix: stop at the first syntax error inside of an inline
 fragment

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index ed1b68b..5b4c418 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -512,7 +512,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From a26931b5a6c3085595d15a36fa6e63c204a98720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 51/80] fix: the order of ] and ! in the return types of traces

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 5f13455..68d435b 100644
--- a/parse.go
+++ b/parse.go
@@ -973,9 +973,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 		switch qlType.Kind {
 		case typeKindList:
 			target.WriteByte('[')
-			suffix = append(suffix, ']')
+			suffix = append([]byte{']'}, suffix...)
 		case typeKindNonNull:
-			suffix = append(suffix, '!')
+			suffix = append([]byte{'!'}, suffix...)
 		default:
 			if qlType.Name != nil {
 				target.WriteString(*qlType.Name)
-- 
2.43.0


From b6cf445e74d6cbf60b9897e8aebb3b84fa22e8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 52/80] fix: the start and duration of fields with a selection
 in traces

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 46b5a44..b247cf4 100644
--- a/resolver.go
+++ b/resolver.go
@@ -525,6 +525,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	ctx.startTrace()
+	startTime := ctx.prefRecordingStartTime
 
 	directivesCount := ctx.readInst()
 
@@ -621,6 +622,8 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
+			// The fields inside of this one have started their own recordings
+			ctx.prefRecordingStartTime = startTime
 			ctx.finishTrace(func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
-- 
2.43.0


From f4ff8b980ebe3e794714e034d4a90f490bbe41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 53/80] fix: return an error when something that is no map is
 registered as enum

RegisterEnum(1) and the like crashed on asking for nil.
---
 enums.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/enums.go b/enums.go
index f609252..f2e68f6 100644
--- a/enums.go
+++ b/enums.go
@@ -72,16 +72,12 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil || mapReflection.Kind() != reflect.Map || mapReflection.IsNil() {
+		// The input type must be a map
 		return nil, invalidTypeMsg
 	}
 
 	mapType := mapReflection.Type()
-
-	if mapType.Kind() != reflect.Map {
-		// Tye input type must be a map
-		return nil, invalidTypeMsg
-	}
 	if mapType.Key().Kind() != reflect.String {
 		// The map key must be a string
 		return nil, invalidTypeMsg
-- 
2.43.0


From b7a0e3e6387dc05dcd7ea867609feebc22c5b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 54/80] fix: accept enum maps whose keys are of a named string
 type

The kind of the key was checked, but its type was asserted to be string.
---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index f2e68f6..45b2d96 100644
--- a/enums.go
+++ b/enums.go
@@ -104,7 +104,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From 8134012f41a597a0190792cf867da6de63a83046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 55/80] fix: refuse true, false and null as enum values

A request that writes them gives a boolean or null, never the enum value.
---
 enums.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enums.go b/enums.go
index 45b2d96..c2b4e81 100644
--- a/enums.go
+++ b/enums.go
@@ -113,6 +113,9 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		if err != nil {
 			return nil, errors.New(`RegisterEnum map key must start with an alphabetic character (lower or upper) followed by the same or a "_", key given: ` + keyStr)
 		}
+		if keyStr == "true" || keyStr == "false" || keyStr == "null" {
+			return nil, errors.New("RegisterEnum map key cannot be true, false or null, key given: " + keyStr)
+		}
 
 		entries[i] = enumEntry{
 			keyBytes: []byte(keyStr),
-- 
2.43.0


From 705789615b512a8e307f96f33b77bc503381fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 56/80] fix: refuse a second enum with the name of another one

The second one was listed by introspection but never used.
---
 enums.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enums.go b/enums.go
index c2b4e81..1dda7c9 100644
--- a/enums.go
+++ b/enums.go
@@ -64,6 +64,12 @@ func (s *Schema) RegisterEnum(enumMap interface{}) (added bool, err error) {
 		return false, err
 	}
 
+	for _, alreadyDefinedEnum := range s.definedEnums {
+		if alreadyDefinedEnum.typeName == enum.typeName {
+			return false, errors.New("RegisterEnum cannot register multiple enums with the name " + enum.typeName)
+		}
+	}
+
 	s.definedEnums = append(s.definedEnums, *enum)
 	return true, nil
 }
-- 
2.43.0


From 684233557f4aec0e3fc4caa80cd37a342e21c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 57/80] fix: do not take a type for the enum of another package
 with the same name

Resolving such a field crashed when the kinds differ.
---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index 1dda7c9..d14debd 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From 8d72b66e5ca83425f54028b93a38da2eba948c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 58/80] fix: resolve enum values with multiple names always to
 the same name

The name depended on the iteration order of the map.
---
 enums.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/enums.go b/enums.go
index d14debd..98d34a5 100644
--- a/enums.go
+++ b/enums.go
@@ -136,6 +136,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		}
 		i++
 	}
+	sort.Slice(entries, func(a int, b int) bool { return entries[a].key < entries[b].key })
 	sort.Slice(qlTypeEnumValues, func(a int, b int) bool { return qlTypeEnumValues[a].Name < qlTypeEnumValues[b].Name })
 
 	name := contentType.Name()
-- 
2.43.0


From 4dce34b110a9b7d2ca00d103fd47212c0610dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 59/80] fix: return an error when the method of a directive is
 no function

---
 directives.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..0af6df7 100644
--- a/directives.go
+++ b/directives.go
@@ -121,16 +121,13 @@ func checkDirective(directive *Directive) error {
 	if directive.Method == nil {
 		return errors.New("method must be defined")
 	}
-	if directive.Method == nil {
-		return errors.New("method must be defined")
-	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From 38ce8a9feb6e027b49cff21236a9c7dac6bd9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 60/80] fix: refuse directive names that start with a digit

---
 directives.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/directives.go b/directives.go
index 0af6df7..357f5a6 100644
--- a/directives.go
+++ b/directives.go
@@ -109,8 +109,8 @@ func checkDirective(directive *Directive) error {
 	if len(directive.Name) == 0 {
 		return errors.New("cannot register directive with empty name")
 	}
-	for _, char := range directive.Name {
-		if char >= '0' && char <= '9' || char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_' {
+	for i, char := range directive.Name {
+		if char >= '0' && char <= '9' && i > 0 || char >= 'A' && char <= 'Z' || char >= 'a' && char <= 'z' || char == '_' {
 			continue
 		}
 		return errors.New(string(char) + " in " + directive.Name + " is not allowed as directive name")
-- 
2.43.0


From 0741adfce438a3b3804c1c5d96da1d4e17cd38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 61/80] fix: refuse variadic directive methods

---
 directives.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directives.go b/directives.go
index 357f5a6..f236e81 100644
--- a/directives.go
+++ b/directives.go
@@ -129,6 +129,9 @@ func checkDirective(directive *Directive) error {
 		return errors.New("method must be defined")
 	}
 	methodType := directive.methodReflection.Type()
+	if methodType.IsVariadic() {
+		return errors.New("method cannot end with spread operator (...string)")
+	}
 	switch methodType.NumOut() {
 	case 0:
 		return errors.New("method should return DirectiveModifier")
-- 
2.43.0


From 3995f9147d7b14750e8440c47ed0d6488549a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 62/80] fix: a refused directive stayed registered for some of
 its locations

---
 directives.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/directives.go b/directives.go
index f236e81..4d09d3e 100644
--- a/directives.go
+++ b/directives.go
@@ -86,20 +86,21 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 	}
 
 	ptrToDirective := &directive
-	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
-			}
+	// Check for already defined directives with the same name before adding this directive to any of the locations
+	for i, location := range directive.Where {
+		duplicated := false
+		for _, earlierLocation := range directive.Where[:i] {
+			duplicated = duplicated || earlierLocation == location
+		}
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			duplicated = duplicated || directive.Name == alreadyDefinedDirective.Name
+		}
+		if duplicated {
+			return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From d9677aa4fdc287ff5bb883ede972d81a07d97518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 63/80] fix: refuse different types with the same graphql name
 instead of taking one for the other

---
 copy_schema.go | 1 +
 parse.go       | 8 ++++++--
 resolver.go    | 4 +---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 670a8e0..4504ed7 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -181,6 +181,7 @@ func (o *obj) copy() *obj {
 		typeNameBytes:  o.typeNameBytes[:],
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
+		goType:         o.goType,
 		qlFieldName:    o.qlFieldName[:],
 		hidden:         o.hidden,
 		customObjValue: o.customObjValue, // maybe TODO
diff --git a/parse.go b/parse.go
index 68d435b..24a25d7 100644
--- a/parse.go
+++ b/parse.go
@@ -89,6 +89,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -143,6 +144,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	case valueTypeInterface:
@@ -151,6 +153,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	default:
@@ -374,6 +377,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typeName:      t.Name(),
 		goPkgPath:     t.PkgPath(),
 		goTypeName:    t.Name(),
+		goType:        t,
 	}
 
 	if res.goPkgPath == "time" && res.goTypeName == "Time" {
@@ -395,7 +399,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
+				if v.goType != t {
 					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 				}
 
@@ -472,7 +476,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
+			if v.goType != t {
 				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
 			}
 
diff --git a/resolver.go b/resolver.go
index b247cf4..e43f39b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -948,12 +948,10 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		goValueType := goValue.Type()
-		goValueName := goValueType.Name()
-		goValuePkgPath := goValueType.PkgPath()
 
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
-			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
+			if implementation.goType == goValueType {
 				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
-- 
2.43.0


From 9cf658feb8097c053ae1f6b5f02282ec52d80abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 64/80] fix: refuse different input types with the same graphql
 name instead of taking one for the other

---
 copy_schema.go | 1 +
 parse.go       | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 4504ed7..362beb8 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -281,6 +281,7 @@ func (m *input) copy() *input {
 		gqFieldName:      m.gqFieldName,
 		elem:             elem,
 		isStructPointers: m.isStructPointers,
+		goType:           m.goType,
 		structName:       m.structName,
 		structContent:    structContent,
 	}
diff --git a/parse.go b/parse.go
index 24a25d7..64d5802 100644
--- a/parse.go
+++ b/parse.go
@@ -203,6 +203,7 @@ type input struct {
 
 	// kind == struct
 	isStructPointers bool
+	goType           reflect.Type
 	structName       string
 	structContent    map[string]input
 }
@@ -720,11 +721,15 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			}
 		}
 
-		_, ok := c.schema.inTypes[structName]
+		existing, ok := c.schema.inTypes[structName]
+		if ok && existing.goType != t {
+			return res, fmt.Errorf("cannot have 2 input structs with same type name: %s", structName)
+		}
 		if !ok {
 			// Make sure the input types entry is set before looping over it's fields to fix the n+1 problem
 			c.schema.inTypes[structName] = &res
 
+			res.goType = t
 			res.structName = structName
 			res.structContent = map[string]input{}
 			for i := 0; i < t.NumField(); i++ {
-- 
2.43.0


From fd2e43a02ddd003fe7529dbdab262842d6365a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 65/80] fix: keep the implementations of interfaces with the
 same name apart

---
 interfaces.go | 14 +++++++-------
 parse.go      |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..ab0b186 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,21 +53,21 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
 		for _, t := range typesThatImplementInterf {
-			if t.Name() == typeName && t.PkgPath() == typePath {
+			if t == typeType {
 				// already registered
 				return true
 			}
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index 64d5802..2a57d89 100644
--- a/parse.go
+++ b/parse.go
@@ -408,7 +408,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -499,7 +499,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
-- 
2.43.0


From 88e1e08c8cec028d800718a544d1bb02719292a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 66/80] fix: renaming a type renamed other types with the same
 name as well

---
 parse.go       | 6 +++---
 type_rename.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 2a57d89..ed2e309 100644
--- a/parse.go
+++ b/parse.go
@@ -392,7 +392,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -469,7 +469,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -709,7 +709,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From 36d33c7254ba49b8f3542d982d7778beebad298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 67/80] fix: accept unsigned integer variables above the int64
 range

---
 resolver.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolver.go b/resolver.go
index e43f39b..1ad5e56 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1299,6 +1299,14 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
+				if goValueKind == reflect.Uint || goValueKind == reflect.Uint64 {
+					// The number might be above the int64 range but still within the uint64 range
+					uintVal, uintErr := jsonData.Uint64()
+					if uintErr == nil && !goValue.OverflowUint(uintVal) {
+						goValue.SetUint(uintVal)
+						return true, false
+					}
+				}
 				return false, ctx.err(err.Error())
 			}
 			switch goValueKind {
-- 
2.43.0


From 4d1e9629746ec303e9240154d44eadcc9cb89ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 68/80] fix: refuse float arguments that are malformed or out
 of range

---
 resolver.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 1ad5e56..5effba8 100644
--- a/resolver.go
+++ b/resolver.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 	"mime/multipart"
 	"reflect"
 	"strconv"
@@ -1294,8 +1295,16 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
+			floatVal, err := jsonData.Float64()
+			if err != nil {
+				return false, ctx.err(err.Error())
+			}
+			if !floatFits(goValue, floatVal) {
+				return false, ctx.err("cannot assign " + jsonData.String() + " to a float, the value is out of range")
+			}
+
 			valueSet = true
-			goValue.SetFloat(jsonData.GetFloat64())
+			goValue.SetFloat(floatVal)
 		} else {
 			intVal, err := jsonData.Int64()
 			if err != nil {
@@ -1378,6 +1387,14 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	return valueSet, false
 }
 
+// floatFits reports whether value is finite once assigned to goValue
+func floatFits(goValue *reflect.Value, value float64) bool {
+	if goValue.Kind() == reflect.Float32 {
+		value = float64(float32(value))
+	}
+	return !math.IsInf(value, 0)
+}
+
 func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *input, stringValue string) bool {
 	if valueStructure.isEnum {
 		enum := ctx.schema.definedEnums[valueStructure.enumTypeIndex]
@@ -1589,6 +1606,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			if err != nil {
 				return false, ctx.err(err.Error())
 			}
+			if !floatFits(goValue, floatValue) {
+				return false, ctx.err("cannot assign " + b2s(ctx.query.Res[startFloat:endFloat]) + " to a float, the value is out of range")
+			}
 
 			goValue.SetFloat(floatValue)
 		default:
-- 
2.43.0


From 70800344897555ede861d8a3097773f3b5f95cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:18 +0000
Subject: [PATCH 69/80] fix: introspection lists the arguments of interface
 fields

---
 copy_schema.go | 1 +
 parse.go       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 362beb8..aa58f84 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -218,6 +218,7 @@ func (o *obj) copy() *obj {
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
 		isTypeMethod:   m.isTypeMethod,
+		hasReceiver:    m.hasReceiver,
 		goFunctionName: m.goFunctionName,
 		goType:         m.goType,
 		checkedIns:     m.checkedIns,
diff --git a/parse.go b/parse.go
index ed2e309..e91b46e 100644
--- a/parse.go
+++ b/parse.go
@@ -166,6 +166,7 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
+	hasReceiver    bool // Is the first input of goType the receiver, methods of interfaces don't have one
 	goFunctionName string
 	goType         reflect.Type
 
@@ -551,6 +552,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			} else if methodObj == nil {
 				continue
 			}
+			methodObj.hasReceiver = res.valueType == valueTypeObj
 
 			qlFieldName := []byte(name)
 			err = res.addContent(&obj{
@@ -849,7 +851,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.hasReceiver {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From aeb093ec92407e75b627085b9453ad65025a0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:47 +0000
Subject: [PATCH 70/80] fix: introspection lists directives with the same name
 in a fixed order

---
 inject_schema.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 162142e..22b6f3a 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -137,7 +137,13 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.Slice(res, func(a int, b int) bool {
+		if res[a].Name != res[b].Name {
+			return res[a].Name < res[b].Name
+		}
+		// Directives with the same name never share a location
+		return res[a].Locations[0] < res[b].Locations[0]
+	})
 
 	return res
 }
-- 
2.43.0


From 0e3e44c6177cf59e6e38f3b96ddee83f51a4e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 71/80] fix: refuse nil as queries or methods instead of
 crashing

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index e91b46e..20eae00 100644
--- a/parse.go
+++ b/parse.go
@@ -374,6 +374,10 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 }
 
 func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
+	if t == nil {
+		return nil, errors.New("nil cannot be used as a type")
+	}
+
 	res := obj{
 		typeNameBytes: []byte(t.Name()),
 		typeName:      t.Name(),
-- 
2.43.0


From 091ca787edbc7016de6c0c3a27106742249c1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 72/80] fix: anonymous structs of different types can be used
 as queries and methods

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 20eae00..9f3cc01 100644
--- a/parse.go
+++ b/parse.go
@@ -335,9 +335,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	s.rootMethod = s.types[obj.typeName]
 
 	if options == nil || !options.noMethodEqualToQueryChecks {
-		queryPkg := s.rootQuery.goPkgPath + s.rootQuery.goTypeName
-		methodPkg := s.rootMethod.goPkgPath + s.rootMethod.goTypeName
-		if queryPkg == methodPkg {
+		if s.rootQuery.goType == s.rootMethod.goType {
 			return errors.New("method and query cannot be the same struct")
 		}
 	}
-- 
2.43.0


From a779f5f65ab144e1bafbc76412e47c964b7431f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 73/80] fix: refuse list and pointer types that contain only
 themselves instead of crashing

---
 parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parse.go b/parse.go
index 9f3cc01..463f48c 100644
--- a/parse.go
+++ b/parse.go
@@ -452,6 +452,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
+		if containsOnlyItself(t) {
+			return nil, fmt.Errorf("type %s contains only itself", t.String())
+		}
+
 		isPtr := t.Kind() == reflect.Ptr
 		if isPtr {
 			res.valueType = valueTypePtr
@@ -668,6 +672,10 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 		kind: kind,
 	}
 
+	if containsOnlyItself(t) {
+		return res, fmt.Errorf("type %s contains only itself", t.String())
+	}
+
 	switch kind {
 	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
 		enumIndex, enum := c.schema.getEnum(t)
@@ -896,6 +904,19 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	return nil
 }
 
+// containsOnlyItself tells whether t is a list or pointer type without any data at the end, like: type A []A
+func containsOnlyItself(t reflect.Type) bool {
+	seen := map[reflect.Type]bool{}
+	for t.Kind() == reflect.Array || t.Kind() == reflect.Slice || t.Kind() == reflect.Ptr {
+		if seen[t] {
+			return true
+		}
+		seen[t] = true
+		t = t.Elem()
+	}
+	return false
+}
+
 func formatGoNameToQL(input string) string {
 	if len(input) <= 1 {
 		return strings.ToLower(input)
-- 
2.43.0


From 47dacfba7e4c2ad478f0b2566c9f077b1001be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:24 +0000
Subject: [PATCH 74/80] fix: inline structs that contain themselves no longer
 crash the schema building

---
 parse.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/parse.go b/parse.go
index 463f48c..ff14845 100644
--- a/parse.go
+++ b/parse.go
@@ -227,6 +227,11 @@ type parseCtx struct {
 	unknownTypesCount  int
 	unknownInputsCount int
 	parsedMethods      []*objMethod
+
+	// Inline structs that are currently being checked with the name they got,
+	// these might be used again inside themselves, like: type A []struct{ B A }
+	inlineTypes  map[reflect.Type]string
+	inlineInputs map[reflect.Type]string
 }
 
 // NewSchema creates a new schema wherevia you can define the graphql types and make queries
@@ -420,9 +425,21 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				res.implementations = append(res.implementations, impl)
 			}
 		} else {
+			name, ok := c.inlineTypes[t]
+			if ok {
+				res = c.schema.types[name].getRef()
+				return &res, nil
+			}
+
 			c.unknownTypesCount++
 			res.typeName = "__UnknownType" + strconv.Itoa(c.unknownTypesCount)
 			res.typeNameBytes = []byte(res.typeName)
+
+			if c.inlineTypes == nil {
+				c.inlineTypes = map[reflect.Type]string{}
+			}
+			c.inlineTypes[t] = res.typeName
+			defer delete(c.inlineTypes, t)
 		}
 
 		res.valueType = valueTypeObj
@@ -718,8 +735,23 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 
 		structName := t.Name()
 		if len(structName) == 0 {
+			name, ok := c.inlineInputs[t]
+			if ok {
+				return input{
+					kind:             kind,
+					structName:       name,
+					isStructPointers: true,
+				}, nil
+			}
+
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
+
+			if c.inlineInputs == nil {
+				c.inlineInputs = map[reflect.Type]string{}
+			}
+			c.inlineInputs[t] = structName
+			defer delete(c.inlineInputs, t)
 		} else {
 			newStructName, ok := renamedTypes[t]
 			if ok {
-- 
2.43.0


From ade6805414779c4c6a73b7ca00b7f65b1ca82e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:34 +0000
Subject: [PATCH 75/80] fix: a type named like an introspection type is refused
 with an error instead of ending the process

---
 inject_schema.go | 9 +++++----
 parse.go         | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 22b6f3a..5c5875e 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -1,18 +1,17 @@
 package yarql
 
 import (
-	"log"
 	"reflect"
 	"sort"
 
 	h "github.com/mjarkk/yarql/helpers"
 )
 
-func (s *Schema) injectQLTypes(ctx *parseCtx) {
+func (s *Schema) injectQLTypes(ctx *parseCtx) error {
 	// Inject __Schema
 	ref, err := ctx.check(reflect.TypeOf(qlSchema{}), false)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	contents := reflect.ValueOf(s.getQLSchema())
@@ -29,13 +28,15 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	typeResolverReflection := reflect.ValueOf(typeResolver)
 	functionObj, err := ctx.checkStructFieldFunc("__type", typeResolverReflection.Type(), false, -1)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	functionObj.customObjValue = &typeResolverReflection
 	functionObj.qlFieldName = []byte("__type")
 	functionObj.hidden = true
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
+
+	return nil
 }
 
 func (s *Schema) getQLSchema() qlSchema {
diff --git a/parse.go b/parse.go
index ff14845..253c6cf 100644
--- a/parse.go
+++ b/parse.go
@@ -360,7 +360,10 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 
 	// The graphql types describe the directives and thus must be injected after checking those
 	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
+		err = s.injectQLTypes(ctx)
+		if err != nil {
+			return err
+		}
 	}
 
 	for _, method := range ctx.parsedMethods {
-- 
2.43.0


From baff3f8e5b3f4724583e58e3164ac1a4ba11d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 76/80] fix: parsing again after a refused attempt starts from
 scratch

---
 parse.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parse.go b/parse.go
index 253c6cf..6dbeafc 100644
--- a/parse.go
+++ b/parse.go
@@ -313,6 +313,20 @@ func (s *Schema) SetCacheRules(
 
 // Parse parses your queries and methods
 func (s *Schema) Parse(queries interface{}, methods interface{}, options *SchemaOptions) error {
+	// Forget the types of an earlier attempt, those might be incomplete if they where refused
+	s.types = types{}
+	s.inTypes = inputMap{}
+	s.interfaces = types{}
+	s.graphqlTypesMap = nil
+	s.graphqlTypesList = nil
+	s.graphqlObjFields = map[string][]qlField{}
+	s.parsed = false
+	for _, directives := range s.definedDirectives {
+		for _, directive := range directives {
+			directive.parsedMethod.checkedIns = false
+		}
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
@@ -893,6 +907,9 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 }
 
 func (c *parseCtx) checkFunctionIns(method *objMethod) error {
+	method.ins = []baseInput{}
+	method.inFields = map[string]referToInput{}
+
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-- 
2.43.0


From 7face1680833cfaa53badd307f8f8343e4b78d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 77/80] fix: cache rules can be set before the schema is parsed

---
 parse.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 6dbeafc..bece5ed 100644
--- a/parse.go
+++ b/parse.go
@@ -53,6 +53,7 @@ type Schema struct {
 	rootMethod        *obj
 	rootMethodValue   reflect.Value
 	MaxDepth          uint8 // Default 255
+	cacheQueryFromLen *int
 	definedEnums      []enum
 	definedDirectives map[DirectiveLocation][]*Directive
 	ctx               *Ctx
@@ -306,8 +307,15 @@ func NewSchema() *Schema {
 func (s *Schema) SetCacheRules(
 	cacheQueryFromLen *int, // default = 300
 ) {
-	if cacheQueryFromLen != nil {
-		s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
+	if cacheQueryFromLen == nil {
+		return
+	}
+
+	// Remembered as the schema might not be parsed yet, in that case the rules are applied once it is
+	minLen := *cacheQueryFromLen
+	s.cacheQueryFromLen = &minLen
+	if s.ctx != nil {
+		s.ctx.query.CacheableQueryMinLen = minLen
 	}
 }
 
@@ -388,6 +396,7 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	s.ctx = newCtx(s)
+	s.SetCacheRules(s.cacheQueryFromLen)
 	s.parsed = true
 
 	return nil
-- 
2.43.0


From 927f36e4255a67540d0b58f231d16323460cd670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:36 +0000
Subject: [PATCH 78/80] fix: requests to a schema that is not parsed get a
 valid response

---
 resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resolver.go b/resolver.go
index 5effba8..474ac22 100644
--- a/resolver.go
+++ b/resolver.go
@@ -177,6 +177,10 @@ type ResolveOptions struct {
 func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 	if !s.parsed {
 		fmt.Println("CALL (*yarql.Schema).Parse() before resolve")
+		s.Result = append(s.Result[:0], `{}`...)
+		if !opts.NoMeta {
+			s.Result = append(s.Result[:0], `{"data":{},"errors":[{"message":"invalid setup"}],"extensions":{}}`...)
+		}
 		return []error{errors.New("invalid setup")}
 	}
 
-- 
2.43.0


From 69cbf022f5c7b356d3a5ef0ba8c135cc0fdc03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 79/80] fix: trace offset of the validation is measured from
 the start of the request

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 474ac22..04091fb 100644
--- a/resolver.go
+++ b/resolver.go
@@ -234,7 +234,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		})
 
 		// Set the validation prop
-		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.prefRecordingStartTime).Nanoseconds()
+		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.tracing.GoStartTime).Nanoseconds()
 	}
 
 	if !opts.NoMeta {
-- 
2.43.0


From 139a3081996e16411bca1317ed9244cf16e63e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:36 +0000
Subject: [PATCH 80/80] fix: a type that shares its name with one of another
 kind is described by introspection the same way every time

---
 inject_schema.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 5c5875e..ff64454 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -183,7 +183,14 @@ func (s *Schema) getAllQLTypes() []qlType {
 			idx++
 		}
 
-		sort.Slice(s.graphqlTypesList, func(a int, b int) bool { return *s.graphqlTypesList[a].Name < *s.graphqlTypesList[b].Name })
+		sort.Slice(s.graphqlTypesList, func(a int, b int) bool {
+			typeA, typeB := s.graphqlTypesList[a], s.graphqlTypesList[b]
+			if *typeA.Name != *typeB.Name {
+				return *typeA.Name < *typeB.Name
+			}
+			// Types with the same name are never of the same kind
+			return typeA.Kind < typeB.Kind
+		})
 	}
 
 	return s.graphqlTypesList
@@ -408,7 +415,9 @@ func (s *Schema) objToQLType(item *obj) (res *qlType, isNonNull bool) {
 				return possibleTypes
 			},
 			Fields: func(args isDeprecatedArgs) []qlField {
-				fields, ok := s.graphqlObjFields[item.typeName]
+				// A object might have the same name
+				fieldsKey := "interface " + item.typeName
+				fields, ok := s.graphqlObjFields[fieldsKey]
 				if ok {
 					return fields
 				}
@@ -426,7 +435,7 @@ func (s *Schema) objToQLType(item *obj) (res *qlType, isNonNull bool) {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[item.typeName] = res
+				s.graphqlObjFields[fieldsKey] = res
 				return res
 			},
 		}
-- 
2.43.0

