From cdaae0c886b5a32fe121fa4cec19941aca6b3543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 01/90] fix: read a scalar char above 0x7f as one byte, not as
 a UTF-8 encoded rune

---
 netcdf/cdf/cdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..077259b 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -945,7 +945,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
-- 
2.43.0


From e402536102230d572bbe1f1353c1ef6688768191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 02/90] fix: classic writer changed the bits of signaling NaN
 float scalars

---
 netcdf/cdf/cdfwriter.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..3b31972 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -230,9 +230,8 @@ func (cw *CDFWriter) storeUInt64s(val reflect.Value, dimLengths []int64) {
 
 func (cw *CDFWriter) storeFloats(val reflect.Value, dimLengths []int64) {
 	if len(dimLengths) == 0 {
-		f := float32(val.Float())
-		i := math.Float32bits(f)
-		write32(cw.bf, int32(i))
+		// not val.Float(): conversion to float64 and back quiets signaling NaNs
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	if len(dimLengths) == 1 {
-- 
2.43.0


From f3f0cc612f94d178bf08252fbdcef8a5d3446f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 03/90] fix: classic writer placed variables after an empty one
 at the wrong offset

---
 netcdf/cdf/cdfwriter.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 3b31972..e2f4b55 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -614,6 +614,31 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(saved.vsize)
+
+	// Fixed-size variables are laid out first, in order. Record variables come
+	// after them: there are no records, so they take up no space in the file,
+	// but their offsets must be those within the first record.
+	calcOffset := cw.begin
+	for i := range cw.vars {
+		other := &cw.vars[i]
+		before := i < which
+		if other.isRecord() != saved.isRecord() {
+			before = saved.isRecord()
+		}
+		if before {
+			calcOffset += other.vsize
+		}
+	}
+	write64(cw.bf, calcOffset)
+}
+
+// isRecord returns true if the variable's first dimension is unlimited.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+func (cw *CDFWriter) computeVsize(saved *savedVar) int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -639,15 +664,7 @@ func (cw *CDFWriter) writeVar(which int) {
 		}
 	}
 	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
-
-	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
-	}
-	write64(cw.bf, calcOffset)
+	return 4 * ((vsize + 3) / 4)
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
@@ -919,6 +936,7 @@ func (cw *CDFWriter) writeAll() {
 		cw.begin = cw.bf.Count()
 		for i := range cw.vars {
 			cw.begin += cw.computeVarSize(&cw.vars[i])
+			cw.vars[i].vsize = cw.computeVsize(&cw.vars[i])
 		}
 
 		for i := range cw.vars {
-- 
2.43.0


From 7c73e122f076b8305d7109372f9d7fb5eed1a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 04/90] fix: classic writer sized multi-dimensional text by its
 first row only

---
 netcdf/cdf/cdfwriter.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index e2f4b55..1240769 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -285,18 +285,8 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	switch t.Kind() {
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
-			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
-			if maxLen == 0 {
-				thrower.Throw(ErrEmptySlice)
-			}
-			dims = append(dims, maxLen)
-			return dims, typeChar
+			// special case to longest string, filled in by getDimLengths
+			return append(dims, 0), typeChar
 		}
 		if vLen == 0 {
 			// minimal support for unlimited, when it is the only dimension.
@@ -321,7 +311,27 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	dims, kind := cw.getDimLengthsHelper(v, dims, dimNames)
+	if kind == typeChar && v.Kind() != reflect.String {
+		maxLen := longestString(v)
+		if maxLen == 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+		dims[len(dims)-1] = maxLen
+	}
+	return dims, kind
+}
+
+// longestString returns the length of the longest of all the strings in v.
+func longestString(v reflect.Value) int64 {
+	if v.Kind() == reflect.String {
+		return int64(v.Len())
+	}
+	maxLen := int64(0)
+	for i := range v.Len() {
+		maxLen = max(maxLen, longestString(v.Index(i)))
+	}
+	return maxLen
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
-- 
2.43.0


From 5e8370fb05908c743ccebf6f001278b15260d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 05/90] fix: classic writer accepted ragged slices and wrote
 corrupt data for them

---
 netcdf/cdf/cdfwriter.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1240769..7d824b2 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -319,9 +319,26 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 		}
 		dims[len(dims)-1] = maxLen
 	}
+	checkShape(v, dims)
 	return dims, kind
 }
 
+// checkShape throws an error if any part of v does not have the given shape.
+func checkShape(v reflect.Value, dims []int64) {
+	if len(dims) == 0 || v.Kind() == reflect.String {
+		return // strings are padded
+	}
+	if int64(v.Len()) != dims[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	if len(dims) == 1 {
+		return
+	}
+	for i := range v.Len() {
+		checkShape(v.Index(i), dims[1:])
+	}
+}
+
 // longestString returns the length of the longest of all the strings in v.
 func longestString(v reflect.Value) int64 {
 	if v.Kind() == reflect.String {
-- 
2.43.0


From baaa0557b9bf795e8f9ca2e59fa91951f96d1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 06/90] fix: classic AddVar panicked on nil and unsupported
 scalar types

---
 netcdf/cdf/cdfwriter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7d824b2..955f1a2 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -280,6 +280,12 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	default:
 		return dims, kind
 	}
+	switch t.Kind() {
+	case reflect.Array, reflect.Slice, reflect.String:
+	default:
+		logger.Info("Unknown type", t.Kind())
+		thrower.Throw(ErrUnknownType)
+	}
 	vLen := int64(rv.Len())
 	dims = append(dims, vLen)
 	switch t.Kind() {
@@ -310,6 +316,9 @@ func (cw *CDFWriter) getDimLengthsHelper(
 
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
+	if !v.IsValid() {
+		thrower.Throw(ErrUnknownType)
+	}
 	dims := make([]int64, 0)
 	dims, kind := cw.getDimLengthsHelper(v, dims, dimNames)
 	if kind == typeChar && v.Kind() != reflect.String {
-- 
2.43.0


From 8c5aaf61f95eb9c3d787e24ab0265eb9aae58f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 07/90] fix: classic writer panicked at Close on arrays and
 named element types

---
 netcdf/cdf/cdfwriter.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 955f1a2..aab9360 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -81,10 +81,10 @@ func (cw *CDFWriter) storeChars(val reflect.Value, dimLengths []int64) {
 	thisDim := dimLengths[0]
 	if len(dimLengths) == 1 {
 		// a string which must be padded
-		s, ok := val.Interface().(string)
-		if !ok {
+		if val.Kind() != reflect.String {
 			thrower.Throw(ErrInternal)
 		}
+		s := val.String()
 		// TODO: this is probably wrong because it could be unlimited
 		writeBytes(cw.bf, []byte(s))
 		offset := int64(val.Len())
@@ -106,8 +106,7 @@ func (cw *CDFWriter) storeBytes(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		b := val.Interface().([]int8)
-		writeAny(cw.bf, b)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -122,8 +121,7 @@ func (cw *CDFWriter) storeUBytes(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		b := val.Interface().([]uint8)
-		writeAny(cw.bf, b)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -138,8 +136,7 @@ func (cw *CDFWriter) storeShorts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		s := val.Interface().([]int16)
-		writeAny(cw.bf, s)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -154,8 +151,7 @@ func (cw *CDFWriter) storeUShorts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		s := val.Interface().([]uint16)
-		writeAny(cw.bf, s)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -170,8 +166,7 @@ func (cw *CDFWriter) storeInts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]int32)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -186,8 +181,7 @@ func (cw *CDFWriter) storeUInts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]uint32)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -202,8 +196,7 @@ func (cw *CDFWriter) storeInt64s(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]int64)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -218,8 +211,7 @@ func (cw *CDFWriter) storeUInt64s(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]uint64)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -235,8 +227,7 @@ func (cw *CDFWriter) storeFloats(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		fv := val.Interface().([]float32)
-		writeAny(cw.bf, fv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -253,8 +244,7 @@ func (cw *CDFWriter) storeDoubles(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		dv := val.Interface().([]float64)
-		writeAny(cw.bf, dv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
-- 
2.43.0


From d8510de3f568fd3e6169d6ab78b75393c47d9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 08/90] fix: classic writer accepted duplicate variable names,
 making the file unreadable

---
 netcdf/cdf/cdfwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index aab9360..d6da565 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -435,6 +435,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
-- 
2.43.0


From fe23d20263694b0b3de32639aa7e13bac14a3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 09/90] fix: classic writer corrupted files whose only version
 5 types are global attributes

---
 netcdf/cdf/cdfwriter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index d6da565..fb8ec44 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -940,6 +940,8 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	// This can change the version, so it must be done before writing anything.
+	cw.checkV5Attributes(cw.globalAttrs)
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -956,7 +958,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From bb777f276864556a49f13aa8ebf099700d19430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 10/90] fix: classic writer mishandled an empty dimension name
 followed by others

---
 netcdf/cdf/cdfwriter.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index fb8ec44..7cd60cf 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -446,10 +447,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	dims := slices.Clone(vr.Dimensions)
 	for i := range dimLengths {
 		var dimName string
-		if i < len(vr.Dimensions) {
-			dimName = vr.Dimensions[i]
+		if i < len(dims) {
+			dimName = dims[i]
 		}
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
@@ -457,10 +459,13 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			} else {
 				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
+			if i < len(dims) {
+				dims[i] = dimName
+			} else {
+				dims = append(dims, dimName)
+			}
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
 		if has {
 			if dimLengths[i] != currentLength {
@@ -474,7 +479,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 		}
 	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		dims, vr.Attributes, 0})
 	return nil
 }
 
-- 
2.43.0


From 8ede2d247f28c7e1f57f537008bcbebb20e517fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 11/90] fix: a failed classic AddVar left its dimensions in the
 file

---
 netcdf/cdf/cdfwriter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7cd60cf..1b30901 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -428,6 +428,20 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 // AddVar adds a variable to be written out.
 // Use util.NewOrderedMap to create attribute maps for the variable.
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
+	version, nDims := cw.version, len(cw.dimNames)
+	defer func() {
+		if err == nil {
+			return
+		}
+		// leave nothing of the failed call behind
+		cw.version = version
+		for _, dimName := range cw.dimNames[nDims:] {
+			delete(cw.dimLengths, dimName)
+			delete(cw.dimIds, dimName)
+		}
+		cw.dimNames = cw.dimNames[:nDims]
+		cw.nextID = int64(nDims)
+	}()
 	defer thrower.RecoverError(&err)
 
 	if !internal.IsValidNetCDFName(name) {
-- 
2.43.0


From 9f7f185600259a6dce07d6df97e8d0ce143e70d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 12/90] fix: classic writer left the file open when writing it
 failed

---
 netcdf/cdf/cdfwriter.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1b30901..70dc819 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -903,13 +903,14 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
-	defer thrower.RecoverError(&err)
-	cw.writeAll()
-	err = cw.bf.Flush()
+	err = cw.tryWriteAll()
+	if err == nil {
+		err = cw.bf.Flush()
+	}
 	err2 := cw.file.Close()
 	if err == nil {
 		err = err2
-	} else {
+	} else if err2 != nil {
 		// return the first error, log the second
 		logger.Error(err2)
 	}
@@ -917,6 +918,12 @@ func (cw *CDFWriter) Close() (err error) {
 	return err
 }
 
+func (cw *CDFWriter) tryWriteAll() (err error) {
+	defer thrower.RecoverError(&err)
+	cw.writeAll()
+	return nil
+}
+
 func writeAny(w io.Writer, any any) {
 	util.MustWriteBE(w, any)
 }
-- 
2.43.0


From 566064aaea0e901564dd18fd09b072caa2b3a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 13/90] fix: reading a range of records returned other records'
 data or panicked

---
 netcdf/cdf/cdf.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 077259b..3eca874 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -681,7 +681,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
-			bf = cdf.newRecordReader(&varFound, start, sizeInBytes)
+			bf = cdf.newRecordReader(&varFound, begin, begin+nChunks)
 		} else {
 			seekTo(cdf.file, int64(varFound.begin)+start)
 			bf = io.LimitReader(makeFillValueReader(varFound,
@@ -904,22 +904,34 @@ func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
 	return &seekReader{file: file, offset: offset, reader: nil}
 }
 
-func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
+// recordReader reads consecutive records of a variable.
+type recordReader struct {
+	cdf    *CDF
+	v      *variable
+	record int64     // next record to read
+	end    int64     // record after the last one to read
+	reader io.Reader // reads the rest of the current record
+}
 
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
+func (rr *recordReader) Read(p []byte) (int, error) {
+	for {
+		if rr.reader != nil {
+			n, err := rr.reader.Read(p)
+			if n > 0 || err != io.EOF {
+				return n, err
+			}
+		}
+		if rr.record >= rr.end {
+			return 0, io.EOF
 		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
+		offset := int64(rr.v.begin) + rr.record*int64(rr.cdf.recSize)
+		rr.reader = io.LimitReader(newSeekReader(rr.cdf.file, offset), rr.v.vsize)
+		rr.record++
 	}
-	return io.MultiReader(readers...)
+}
+
+func (cdf *CDF) newRecordReader(v *variable, begin, end int64) io.Reader {
+	return &recordReader{cdf: cdf, v: v, record: begin, end: end}
 }
 
 func emptySlice(v any, dimLengths []uint64) any {
-- 
2.43.0


From a5c25ed2e5243f1b58011f9049cb032b2a008751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 14/90] fix: empty multi-dimensional text was returned as bytes
 instead of strings

---
 netcdf/cdf/cdf.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 3eca874..8c2eccd 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -934,11 +934,20 @@ func (cdf *CDF) newRecordReader(v *variable, begin, end int64) io.Reader {
 	return &recordReader{cdf: cdf, v: v, record: begin, end: end}
 }
 
-func emptySlice(v any, dimLengths []uint64) any {
+func emptySlice(v any, dimLengths []uint64, vType uint32) any {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
+	rank := len(dimLengths)
+	if vType == typeChar {
+		// characters are returned as strings
+		elemType = reflect.TypeOf("")
+		rank--
+		if rank == 0 {
+			return ""
+		}
+	}
 	var empty reflect.Value
-	for range len(dimLengths) {
+	for range rank {
 		empty = reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
 		elemType = empty.Type()
 	}
@@ -1115,7 +1124,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
-		return emptySlice(data, dimLengths)
+		return emptySlice(data, dimLengths, vType)
 	}
 	if len(dimLengths) == 0 {
 		elem := v.Index(0)
-- 
2.43.0


From 3b1b14617024183581e0df5089ff82f7554dddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 15/90] fix: records missing from the end of a file were
 errors, not fill values

---
 netcdf/cdf/cdf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8c2eccd..8cd90d4 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -925,7 +925,8 @@ func (rr *recordReader) Read(p []byte) (int, error) {
 			return 0, io.EOF
 		}
 		offset := int64(rr.v.begin) + rr.record*int64(rr.cdf.recSize)
-		rr.reader = io.LimitReader(newSeekReader(rr.cdf.file, offset), rr.v.vsize)
+		rr.reader = io.LimitReader(makeFillValueReader(*rr.v,
+			newSeekReader(rr.cdf.file, offset)), rr.v.vsize)
 		rr.record++
 	}
 }
-- 
2.43.0


From dfe85b8a46c031b56c76bd6395f584813cccee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 16/90] fix: out-of-range slices of classic variables returned
 other data or panicked

---
 netcdf/cdf/cdf.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8cd90d4..f9f29f2 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -93,6 +93,7 @@ var (
 	ErrDuplicateVariable     = errors.New("duplicate variable")
 	ErrTooManyDimensions     = errors.New("too many dimensions")
 	ErrFillValue             = errors.New("fill value not a scalar")
+	errInvalidSlice          = errors.New("invalid slice parameters")
 )
 
 var (
@@ -643,14 +644,15 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
-		if end < begin {
-			return nil, errors.New("invalid slice parameters")
+		if begin < 0 || end < begin || end > length {
+			return nil, errInvalidSlice
 		}
 		var nChunks int64
 		switch {
 		case len(dimLengths) == 0:
 			// scalar
 			nChunks = 1
+			begin = 0
 		case dimLengths[0] == 0:
 			// unlimited
 			nChunks = 0
@@ -747,10 +749,13 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			return nil, ErrTooManyDimensions
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
-				return nil, errors.New("invalid slice parameters")
+			if begin[i] < 0 || end[i] < begin[i] || end[i] > int64(dimLengths[i]) {
+				return nil, errInvalidSlice
 			}
 		}
+		if len(dimLengths) == 0 {
+			return getSlice(0, length)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From 4fc1725830a7d7298228402f0a226248dbd92150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 17/90] fix: multi-dimensional slices of text ignored the range
 of characters

---
 internal/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..066c2b8 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -104,6 +104,11 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		}
 		return sliced
 	}
+	// The last dimension of text is within the string
+	if v.Kind() == reflect.String {
+		return v.Slice(int(begin[0]), int(end[0]))
+	}
+
 	// For scalars or base types at the end of recursion
 	return v
 }
-- 
2.43.0


From 83c239f562d0f3d50fcf385c9beb9ed77d00c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 18/90] fix: a fill value attribute of type char, or of the
 wrong type, caused a panic

---
 netcdf/cdf/cdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index f9f29f2..1d0430e 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1206,6 +1206,17 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			}
 			userFV = val.Index(0).Interface()
 		}
+		wantKind := goType(v.vType)
+		if v.vType == typeChar {
+			// a character attribute is a string
+			if s, ok := userFV.(string); ok && len(s) == 1 {
+				userFV = s[0]
+			}
+			wantKind = "uint8"
+		}
+		if reflect.TypeOf(userFV).String() != wantKind {
+			thrower.Throw(ErrFillValue)
+		}
 	}
 	var fillValue []byte
 	switch v.vType {
-- 
2.43.0


From 89a247a129c3dec30adce82d2b2089ff43537e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 19/90] fix: fill values were misaligned when a file ends in
 the middle of an element

---
 netcdf/cdf/cdf.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 1d0430e..2beb21c 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -1323,5 +1324,31 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	default:
 		thrower.Throw(ErrInternal)
 	}
-	return io.MultiReader(bf, internal.NewFillValueReader(fillValue))
+	return &fillingReader{r: bf, fillValue: fillValue}
+}
+
+// fillingReader continues with the fill value when the data ends. The data can
+// end in the middle of an element.
+type fillingReader struct {
+	r         io.Reader
+	fillValue []byte
+	count     int64
+	filling   bool
+}
+
+func (fr *fillingReader) Read(p []byte) (int, error) {
+	if !fr.filling {
+		n, err := fr.r.Read(p)
+		fr.count += int64(n)
+		if err != io.EOF {
+			return n, err
+		}
+		rest := fr.count % int64(len(fr.fillValue))
+		fr.r = internal.NewFillValueReader(slices.Concat(fr.fillValue[rest:], fr.fillValue[:rest]))
+		fr.filling = true
+		if n > 0 {
+			return n, nil
+		}
+	}
+	return fr.r.Read(p)
 }
-- 
2.43.0


From 3af662bd49263ada01984a34d4696f198b2c11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 20/90] fix: malformed classic headers caused panics and
 enormous allocations

---
 netcdf/cdf/cdf.go | 107 +++++++++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 53 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2beb21c..ae08cfa 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -82,6 +82,13 @@ type CDF struct {
 
 const maxDimensions = 1024
 
+// Reads of more than this many bytes are not trusted to be in the file.
+const maxUncheckedRead = 4096
+
+// Variables can be larger than the file they are in, because missing data is filled,
+// but not by more than this.
+const maxFill = math.MaxInt32
+
 var (
 	ErrNotCDF                = errors.New("not a CDF file")
 	ErrUnsupportedVersion    = errors.New("unsupported CDF version")
@@ -179,21 +186,34 @@ func assert(condition bool, message string, err error) {
 	fail(message, err)
 }
 
-// Read up to nBytes
+// Reads exactly nBytes.  The memory used is limited by what can actually be read,
+// because nBytes may come from a corrupted file.
 func readBytes(r io.Reader, nBytes uint64) []byte {
-	b := make([]byte, nBytes)
-	util.MustReadBE(r, b)
-	return b
+	assert(nBytes <= math.MaxInt64, "length too large", ErrCorruptedFile)
+	if nBytes <= maxUncheckedRead {
+		b := make([]byte, nBytes)
+		util.MustReadBE(r, b)
+		return b
+	}
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, r, int64(nBytes))
+	thrower.ThrowIfError(err)
+	return buf.Bytes()
 }
 
-func read8(r io.Reader) byte {
-	var data byte
-	util.MustReadBE(r, &data)
-	return data
+// Reads count values of type T.
+func readArray[T any](r io.Reader, count uint64) []T {
+	var zero T
+	size := uint64(binary.Size(zero))
+	assert(count <= math.MaxInt64/size, "too many values", ErrCorruptedFile)
+	b := readBytes(r, count*size)
+	values := make([]T, count)
+	util.MustReadBE(bytes.NewReader(b), values)
+	return values
 }
 
-func read16(r io.Reader) uint16 {
-	var data uint16
+func read8(r io.Reader) byte {
+	var data byte
 	util.MustReadBE(r, &data)
 	return data
 }
@@ -236,86 +256,54 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	switch vType {
 	case typeByte:
 		// byte becomes int8 in go-speak
-		b := make([]int8, nvars)
-		util.MustReadBE(bf, b)
-		values = b
+		values = readArray[int8](bf, nvars)
 		nread += nvars
 
 	case typeChar:
 		// char array becomes string in go-speak
-		b := make([]byte, nvars)
-		util.MustReadBE(bf, b)
-		values = string(b)
+		values = string(readBytes(bf, nvars))
 		nread += nvars
 
 	case typeShort:
-		sv := make([]int16, nvars)
-		util.MustReadBE(bf, sv)
-		values = sv
+		values = readArray[int16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeInt:
-		i32v := make([]int32, nvars)
-		util.MustReadBE(bf, i32v)
-		values = i32v
+		values = readArray[int32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeFloat:
-		fv := make([]float32, nvars)
-		util.MustReadBE(bf, fv)
-		values = fv
+		values = readArray[float32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeDouble:
-		dv := make([]float64, nvars)
-		util.MustReadBE(bf, dv)
-		values = dv
+		values = readArray[float64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUByte:
 		cdf.checkVersion(5)
 		// unsigned byte becomes uint8 in go-speak
-		b := make([]uint8, nvars)
-		for i := range b {
-			b[i] = uint8(read8(bf))
-		}
-		values = b
+		values = readArray[uint8](bf, nvars)
 		nread += nvars
 
 	case typeUShort:
 		cdf.checkVersion(5)
-		sv := make([]uint16, nvars)
-		for i := range sv {
-			sv[i] = read16(bf)
-		}
-		values = sv
+		values = readArray[uint16](bf, nvars)
 		nread += 2 * nvars
 
 	case typeUInt:
 		cdf.checkVersion(5)
-		i32v := make([]uint32, nvars)
-		for i := range i32v {
-			i32v[i] = read32(bf)
-		}
-		values = i32v
+		values = readArray[uint32](bf, nvars)
 		nread += 4 * nvars
 
 	case typeInt64:
 		cdf.checkVersion(5)
-		i64v := make([]int64, nvars)
-		for i := range i64v {
-			i64v[i] = int64(read64(bf))
-		}
-		values = i64v
+		values = readArray[int64](bf, nvars)
 		nread += 8 * nvars
 
 	case typeUInt64:
 		cdf.checkVersion(5)
-		i64v := make([]uint64, nvars)
-		for i := range i64v {
-			i64v[i] = read64(bf)
-		}
-		values = i64v
+		values = readArray[uint64](bf, nvars)
 		nread += 8 * nvars
 
 	default:
@@ -370,6 +358,7 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	assert(nameLen <= math.MaxInt32, "name too long", ErrCorruptedFile)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
@@ -401,6 +390,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	for i := uint64(0); i < nDims; i++ {
 		// dimid
 		dimids[i] = cdf.readNumber(bf)
+		assert(dimids[i] < uint64(len(cdf.dimensions)),
+			fmt.Sprint(name, " dimid: ", dimids[i], " not found"),
+			ErrCorruptedFile)
 	}
 	attrs := cdf.getAttrList(bf)
 	vType := read32(bf)
@@ -611,6 +603,7 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 	dimNames := make([]string, len(varFound.dimids))
 
 	totalSize := int64(1)
+	const maxElements = math.MaxInt64 / 8 // so that sizes in bytes don't overflow
 	unlimited := false
 	for i := range dimLengths {
 		dimid := varFound.dimids[i]
@@ -629,6 +622,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			dimLengths[i] = cdf.numRecs
 		}
 		dimNames[i] = dim.name
+		assert(dimLengths[i] == 0 || uint64(totalSize) <= maxElements/dimLengths[i],
+			"variable too large",
+			ErrCorruptedFile)
 		totalSize *= int64(dimLengths[i])
 	}
 	var chunkSize int64
@@ -681,6 +677,11 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		default:
 			thrower.Throw(ErrInternal)
 		}
+		if sizeInBytes > maxFill {
+			fileSize, err := cdf.file.Seek(0, io.SeekEnd)
+			thrower.ThrowIfError(err)
+			assert(sizeInBytes-maxFill <= fileSize, "variable too large", ErrCorruptedFile)
+		}
 
 		var bf io.Reader
 		if unlimited && !cdf.specialCase {
-- 
2.43.0


From 8a619dc77acb54176f492cb9a96b7853d6f22e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 21/90] fix: HDF5 writer accepted duplicate names, losing a
 variable or making the file unreadable

---
 netcdf/hdf5/hdf5writer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..d35a283 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -16,7 +16,8 @@ import (
 )
 
 var (
-	ErrInvalidName = errors.New("invalid name")
+	ErrInvalidName   = errors.New("invalid name")
+	ErrDuplicateName = errors.New("duplicate name")
 )
 
 type h5Var struct {
@@ -39,6 +40,15 @@ type h5Group struct {
 	attrVlenIndices map[string][]uint32 // per-attribute vlen heap indices
 }
 
+// hasName returns true if there is a variable or a subgroup with this name.
+func (g *h5Group) hasName(name string) bool {
+	if _, has := g.vars[name]; has {
+		return true
+	}
+	_, has := g.groups[name]
+	return has
+}
+
 type h5GlobalHeap struct {
 	addr    uint64
 	objects [][]byte
@@ -1084,6 +1094,9 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 			}
 		}
 	}
+	if hw.root.hasName(name) {
+		return ErrDuplicateName
+	}
 	hw.root.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1100,6 +1113,9 @@ func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
 	if g, ok := hw.root.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
+	if hw.root.hasName(name) {
+		return nil, ErrDuplicateName
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
@@ -1152,6 +1168,9 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 			}
 		}
 	}
+	if gw.group.hasName(name) {
+		return ErrDuplicateName
+	}
 	gw.group.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1168,6 +1187,9 @@ func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
 	if g, ok := gw.group.groups[name]; ok {
 		return &groupWriter{hw: gw.hw, group: g}, nil
 	}
+	if gw.group.hasName(name) {
+		return nil, ErrDuplicateName
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
-- 
2.43.0


From 3c35d9a3c2c3db0c85505ac6358a1d237fc8c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 22/90] fix: HDF5 writer accepted ragged slices and names for
 dimensions which aren't there

---
 netcdf/hdf5/hdf5writer.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d35a283..f450f89 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1097,6 +1097,9 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if hw.root.hasName(name) {
 		return ErrDuplicateName
 	}
+	if !hasShape(vr.Values, vr.Dimensions) {
+		return ErrDimensionality
+	}
 	hw.root.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1171,6 +1174,9 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if gw.group.hasName(name) {
 		return ErrDuplicateName
 	}
+	if !hasShape(vr.Values, vr.Dimensions) {
+		return ErrDimensionality
+	}
 	gw.group.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1276,6 +1282,36 @@ func isSupportedElemType(t reflect.Type) bool {
 	return false
 }
 
+// hasShape checks that val has at least as many dimensions as there are names
+// for, and that it is rectangular in them.  Any slices nested deeper than that
+// are variable-length data.
+func hasShape(val any, dimNames []string) bool {
+	if e, ok := val.(enumerated); ok {
+		val = e.values
+	}
+	rv := reflect.ValueOf(val)
+	shape := getDimensionsLimited(rv, len(dimNames))
+	return len(shape) == len(dimNames) && isRectangular(rv, shape)
+}
+
+func isRectangular(rv reflect.Value, shape []uint64) bool {
+	if len(shape) == 0 {
+		return true
+	}
+	if uint64(rv.Len()) != shape[0] {
+		return false
+	}
+	if len(shape) == 1 {
+		return true
+	}
+	for i := range rv.Len() {
+		if !isRectangular(rv.Index(i), shape[1:]) {
+			return false
+		}
+	}
+	return true
+}
+
 func hasValidNames(am api.AttributeMap) bool {
 	if am == nil {
 		return true
-- 
2.43.0


From d4ff29bf7f8c4b582a2d6003f5246136db41406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 23/90] fix: HDF5 writer accepted dimensions with more than one
 length

---
 netcdf/hdf5/hdf5writer.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index f450f89..d305ecd 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -67,6 +67,7 @@ type HDF5Writer struct {
 	root            *h5Group
 	heap            *h5GlobalHeap
 	closed          bool
+	dims            map[string]uint64 // dimension name → length
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
@@ -1100,6 +1101,9 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if !hasShape(vr.Values, vr.Dimensions) {
 		return ErrDimensionality
 	}
+	if err := hw.addDimensions(vr.Values, vr.Dimensions); err != nil {
+		return err
+	}
 	hw.root.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1177,6 +1181,9 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if !hasShape(vr.Values, vr.Dimensions) {
 		return ErrDimensionality
 	}
+	if err := gw.hw.addDimensions(vr.Values, vr.Dimensions); err != nil {
+		return err
+	}
 	gw.group.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1282,6 +1289,29 @@ func isSupportedElemType(t reflect.Type) bool {
 	return false
 }
 
+// addDimensions records the lengths of a variable's dimensions.  There is one
+// set of dimensions for the whole file, all of them defined in the root group.
+func (hw *HDF5Writer) addDimensions(val any, dimNames []string) error {
+	dims := make(map[string]uint64)
+	for i, size := range getDimensionsLimited(reflect.ValueOf(val), len(dimNames)) {
+		name := dimNames[i]
+		if name == "" {
+			continue
+		}
+		if old, has := hw.dims[name]; has && old != size {
+			return ErrDimensionality
+		}
+		if old, has := dims[name]; has && old != size {
+			return ErrDimensionality
+		}
+		dims[name] = size
+	}
+	for name, size := range dims {
+		hw.dims[name] = size
+	}
+	return nil
+}
+
 // hasShape checks that val has at least as many dimensions as there are names
 // for, and that it is rectangular in them.  Any slices nested deeper than that
 // are variable-length data.
@@ -1334,6 +1364,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 		file:      file,
 		buf:       new(bytes.Buffer),
 		byteOrder: util.NativeByteOrder,
+		dims:      make(map[string]uint64),
 		root: &h5Group{
 			name:       "/",
 			groups:     make(map[string]*h5Group),
-- 
2.43.0


From 63dfba7b6015e54a85a3b2a6bf1ed6f9828a42ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 24/90] fix: HDF5 writer accepted dimension names which are
 invalid or those of a group

---
 netcdf/hdf5/hdf5writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d305ecd..31c8315 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1123,6 +1123,9 @@ func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
 	if hw.root.hasName(name) {
 		return nil, ErrDuplicateName
 	}
+	if _, has := hw.dims[name]; has {
+		return nil, ErrDuplicateName
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
@@ -1295,8 +1298,11 @@ func (hw *HDF5Writer) addDimensions(val any, dimNames []string) error {
 	dims := make(map[string]uint64)
 	for i, size := range getDimensionsLimited(reflect.ValueOf(val), len(dimNames)) {
 		name := dimNames[i]
-		if name == "" {
-			continue
+		if !internal.IsValidNetCDFName(name) {
+			return ErrInvalidName
+		}
+		if _, has := hw.root.groups[name]; has {
+			return ErrDuplicateName
 		}
 		if old, has := hw.dims[name]; has && old != size {
 			return ErrDimensionality
-- 
2.43.0


From 99f3dbf3d4f2fa3b8232dca7b0d1fb26ab311127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 25/90] fix: HDF5 variables with the name of a dimension which
 they aren't the coordinates of

---
 netcdf/hdf5/hdf5.go       | 12 ++++++++----
 netcdf/hdf5/hdf5writer.go | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..0ca2dc4 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2890,7 +2890,10 @@ func (k objectKind) isDimensionScale() bool {
 }
 
 func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
+	obj, has := h5.groupObject.children[nonCoordPrefix+varName]
+	if !has {
+		obj, has = h5.groupObject.children[varName]
+	}
 	if !has {
 		return nil
 	}
@@ -3414,9 +3417,10 @@ func (h5 *HDF5) ListVariables() []string {
 		children := obj.sortChildren()
 		for _, o := range children {
 			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
+				name := strings.TrimPrefix(o.name, nonCoordPrefix)
+				if h5.findVariable(name) == o {
+					logger.Info("append", name)
+					ret = append(ret, name)
 				}
 				continue
 			}
diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 31c8315..48df7a5 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -15,6 +15,10 @@ import (
 	"github.com/batchatco/go-thrower"
 )
 
+// nonCoordPrefix is put before the name of a variable that has the same name
+// as a dimension, but isn't its coordinate variable.
+const nonCoordPrefix = "_nc4_non_coord_"
+
 var (
 	ErrInvalidName   = errors.New("invalid name")
 	ErrDuplicateName = errors.New("duplicate name")
@@ -194,7 +198,14 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 	// (a "coordinate variable"), promote it to a dimension scale by
 	// adding the required attributes. Otherwise create a synthetic one.
 	for i, d := range dims {
-		if existing, ok := g.vars[d.name]; ok && !existing.isDimScale {
+		existing, ok := g.vars[d.name]
+		if ok && (len(existing.dimensions) != 1 || existing.dimensions[0] != d.name) {
+			// It has the name of a dimension, but isn't its coordinate variable.
+			delete(g.vars, d.name)
+			g.vars[nonCoordPrefix+d.name] = existing
+			ok = false
+		}
+		if ok && !existing.isDimScale {
 			// Promote existing coordinate variable to dimension scale
 			existing.isDimScale = true
 			// Prepend CLASS, NAME, _Netcdf4Dimid to existing attributes
-- 
2.43.0


From 224b6051c5ee2a1a6192a9217455b9da4683d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 26/90] fix: HDF5 writer panicked after AddAttributes(nil), and
 could change the caller's keys

---
 netcdf/hdf5/hdf5writer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 48df7a5..a32974d 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -135,13 +135,16 @@ func (hw *HDF5Writer) Close() (err error) {
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	var keys []string
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
-		v, _ := hw.root.attributes.Get(k)
-		vals[k] = v
+	if hw.root.attributes != nil {
+		for _, k := range hw.root.attributes.Keys() {
+			v, _ := hw.root.attributes.Get(k)
+			keys = append(keys, k)
+			vals[k] = v
+		}
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
-- 
2.43.0


From f780d368548e900d1d3eb139552c92ddecd77b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 27/90] fix: HDF5 writer confused strings with the dimension
 references in its heap

---
 netcdf/hdf5/hdf5writer.go   | 12 ++++++++----
 netcdf/hdf5/writer_utils.go |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index a32974d..126e414 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -56,7 +56,8 @@ func (g *h5Group) hasName(name string) bool {
 type h5GlobalHeap struct {
 	addr    uint64
 	objects [][]byte
-	indices map[string]uint32
+	indices map[string]uint32 // string → heap index
+	dimRefs map[string]uint32 // dimension name → heap index of the reference to it
 }
 
 type h5Message struct {
@@ -98,7 +99,10 @@ func (hw *HDF5Writer) Close() (err error) {
 	hw.writeDimScaleContents(hw.root)
 
 	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.heap = &h5GlobalHeap{
+		indices: make(map[string]uint32),
+		dimRefs: make(map[string]uint32),
+	}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
@@ -285,7 +289,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.heap.dimRefs[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -296,7 +300,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
 			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.heap.dimRefs[dname] = uint32(len(hw.heap.objects))
 		}
 	}
 	for _, sub := range g.groups {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..b1ef995 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -601,7 +601,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
+		heapIdx := hw.heap.dimRefs[dname]
 		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
 		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
 		util.MustWriteLE(buf, heapIdx)         // global heap object index
-- 
2.43.0


From e579f404771adf71149ed33ab9c9ffbbeb72c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 28/90] fix: HDF5 writer panicked on coordinate variables of
 strings, or with lists of strings as attributes

---
 netcdf/hdf5/hdf5writer.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 126e414..766cff7 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -56,6 +56,7 @@ func (g *h5Group) hasName(name string) bool {
 type h5GlobalHeap struct {
 	addr    uint64
 	objects [][]byte
+	offsets []int             // where each object is in the buffer
 	indices map[string]uint32 // string → heap index
 	dimRefs map[string]uint32 // dimension name → heap index of the reference to it
 }
@@ -94,11 +95,7 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
+	// 2. Collect strings, vlen data, and dimension references, then write global heap
 	hw.heap = &h5GlobalHeap{
 		indices: make(map[string]uint32),
 		dimRefs: make(map[string]uint32),
@@ -111,6 +108,11 @@ func (hw *HDF5Writer) Close() (err error) {
 		hw.writeGlobalHeap()
 	}
 
+	// 3. Write dimension scale variable data and OHs first, so we know
+	//    their addresses and can set the DIMENSION_LIST references.
+	hw.writeDimScaleContents(hw.root)
+	hw.setDimReferences()
+
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
 
@@ -292,14 +294,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if _, ok := hw.heap.dimRefs[dname]; ok {
 				continue
 			}
-			addr, ok := hw.dimAddrs[dname]
-			if !ok {
-				continue
-			}
-			// Store the 8-byte object reference in the global heap
-			ref := make([]byte, 8)
-			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
+			// Make room for the 8-byte object reference in the global heap
+			hw.heap.objects = append(hw.heap.objects, make([]byte, 8))
 			hw.heap.dimRefs[dname] = uint32(len(hw.heap.objects))
 		}
 	}
@@ -308,6 +304,15 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 	}
 }
 
+// setDimReferences sets the dimension references in the global heap,
+// once the addresses of the dimension scales are known.
+func (hw *HDF5Writer) setDimReferences() {
+	data := hw.buf.Bytes()
+	for dname, idx := range hw.heap.dimRefs {
+		binary.LittleEndian.PutUint64(data[hw.heap.offsets[idx-1]:], hw.dimAddrs[dname])
+	}
+}
+
 func (hw *HDF5Writer) writeGroupContents(g *h5Group) {
 	// Write children's data and object headers first
 	// (Dimension scale variables were already written in writeDimScaleContents)
@@ -993,6 +998,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
 		util.MustWriteLE(hw.buf, uint64(len(obj)))
+		gh.offsets = append(gh.offsets, hw.buf.Len())
 		util.MustWriteRaw(hw.buf, obj)
 		// Pad object to 8 bytes
 		for (hw.buf.Len() % 8) != 0 {
-- 
2.43.0


From e18d6afcaca14140dc636a95102d1823e9a47064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 29/90] fix: HDF5 writer corrupted files with more than 65535
 strings, or with strings in vlen compounds

---
 netcdf/hdf5/hdf5writer.go   | 46 +++++++++++++++++++++++++------------
 netcdf/hdf5/writer_utils.go | 20 ++++------------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 766cff7..32c0a79 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -54,8 +54,9 @@ func (g *h5Group) hasName(name string) bool {
 }
 
 type h5GlobalHeap struct {
-	addr    uint64
 	objects [][]byte
+	addrs   []uint64          // address of the collection each object is in
+	ids     []uint32          // number of each object in its collection
 	offsets []int             // where each object is in the buffer
 	indices map[string]uint32 // string → heap index
 	dimRefs map[string]uint32 // dimension name → heap index of the reference to it
@@ -100,13 +101,13 @@ func (hw *HDF5Writer) Close() (err error) {
 		indices: make(map[string]uint32),
 		dimRefs: make(map[string]uint32),
 	}
+	//    The strings go first, because the vlen data can refer to them.
 	hw.collectStrings(hw.root)
+	hw.collectDimReferences(hw.root)
+	hw.writeGlobalHeap()
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
-	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
-	}
+	hw.writeGlobalHeap()
 
 	// 3. Write dimension scale variable data and OHs first, so we know
 	//    their addresses and can set the DIMENSION_LIST references.
@@ -568,9 +569,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 		// When dimRemaining == 0, this slice is vlen data: write descriptor
 		if dimRemaining <= 0 {
 			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeHeapReference(hw.buf, rv.Len(), idx)
 			hw.vlenPos++
 			return
 		}
@@ -591,9 +590,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 			// VLen string
 			str := rv.String()
 			idx := hw.heap.indices[str]
-			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.writeHeapReference(hw.buf, len(str), idx)
 		}
 		return
 	}
@@ -975,7 +972,24 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
 }
 
+// writeHeapReference writes where in the global heap an object is.
+func (hw *HDF5Writer) writeHeapReference(buf *bytes.Buffer, length int, idx uint32) {
+	util.MustWriteLE(buf, uint32(length))
+	util.MustWriteLE(buf, hw.heap.addrs[idx-1])
+	util.MustWriteLE(buf, hw.heap.ids[idx-1])
+}
+
+// writeGlobalHeap writes the objects of the global heap which haven't been written.
+// They go in as many collections as it takes, because an object's number in its
+// collection is only 16 bits.
 func (hw *HDF5Writer) writeGlobalHeap() {
+	const maxObjects = 0xffff
+	for objects := range slices.Chunk(hw.heap.objects[len(hw.heap.addrs):], maxObjects) {
+		hw.writeHeapCollection(objects)
+	}
+}
+
+func (hw *HDF5Writer) writeHeapCollection(objects [][]byte) {
 	gh := hw.heap
 
 	// Align to 8 bytes so that objects within the collection are
@@ -983,7 +997,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
 	}
-	gh.addr = uint64(hw.buf.Len())
+	addr := uint64(hw.buf.Len())
 
 	// Collection Header
 	util.MustWriteRaw(hw.buf, []byte("GCOL"))
@@ -993,7 +1007,9 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	sizeAddr := hw.buf.Len()
 	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
 
-	for i, obj := range gh.objects {
+	for i, obj := range objects {
+		gh.addrs = append(gh.addrs, addr)
+		gh.ids = append(gh.ids, uint32(i+1))
 		util.MustWriteLE(hw.buf, uint16(i+1)) // index
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
@@ -1012,7 +1028,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	// header — it represents the total remaining bytes from the start of
 	// the entry to the end of the collection.
 	const minGCOLSize = 4096
-	currentSize := hw.buf.Len() - int(gh.addr)
+	currentSize := hw.buf.Len() - int(addr)
 	totalSize := currentSize + 16 // at least room for the free space header
 	if totalSize < minGCOLSize {
 		totalSize = minGCOLSize
@@ -1027,7 +1043,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	}
 
 	// Final size
-	finalSize := uint64(hw.buf.Len()) - gh.addr
+	finalSize := uint64(hw.buf.Len()) - addr
 	data := hw.buf.Bytes()
 	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
 }
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index b1ef995..859454a 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -372,9 +372,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 		// When dimRemaining == 0, this slice is vlen: write descriptor
 		if dimRemaining <= 0 {
 			idx := hw.vlenHeapIndices[hw.vlenPos]
-			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeHeapReference(buf, rv.Len(), idx)
 			hw.vlenPos++
 			return
 		}
@@ -395,9 +393,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 			// VLen string
 			str := rv.String()
 			idx := hw.heap.indices[str]
-			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeHeapReference(buf, len(str), idx)
 		}
 		return
 	}
@@ -422,9 +418,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 		case string:
 			// Vlen string descriptor
 			idx := hw.heap.indices[v]
-			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.writeHeapReference(buf, len(v), idx)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -436,9 +430,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
 				idx := hw.vlenHeapIndices[hw.vlenPos]
-				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
+				hw.writeHeapReference(buf, rv.Len(), idx)
 				hw.vlenPos++
 			} else {
 				thrower.Throw(ErrUnsupportedType)
@@ -602,9 +594,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
 		heapIdx := hw.heap.dimRefs[dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		hw.writeHeapReference(buf, 1, heapIdx) // length: 1 reference
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From 5c9ecfa41383ad49499c0368f0cb035a31627d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 30/90] fix: HDF5 writer corrupted files with attributes that
 don't fit in an object header

---
 netcdf/hdf5/hdf5writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 32c0a79..ffbb3dd 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -22,6 +22,7 @@ const nonCoordPrefix = "_nc4_non_coord_"
 var (
 	ErrInvalidName   = errors.New("invalid name")
 	ErrDuplicateName = errors.New("duplicate name")
+	ErrTooLarge      = errors.New("too large for an object header")
 )
 
 type h5Var struct {
@@ -490,6 +491,9 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 
 	msgBuf := new(bytes.Buffer)
 	for _, m := range messages {
+		if len(m.data) > 0xffff {
+			thrower.Throw(ErrTooLarge)
+		}
 		util.MustWriteByte(msgBuf, byte(m.mType))
 		util.MustWriteLE(msgBuf, uint16(len(m.data)))
 		util.MustWriteByte(msgBuf, m.flags)
-- 
2.43.0


From 22b2ca77046f4643c0a932eeeca3e955eb03c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 31/90] fix: HDF5 writer corrupted files with names longer than
 255 bytes

---
 netcdf/hdf5/hdf5writer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ffbb3dd..de8a25a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -466,8 +466,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= 0xff {
+		util.MustWriteByte(buf, 0) // flags: 1-byte length of name
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 1) // flags: 2-byte length of name
+		util.MustWriteLE(buf, uint16(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
-- 
2.43.0


From 1c056a99b297cfea60f491389da20d8cd447df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 32/90] fix: HDF5 writer left the file open when writing it
 failed

---
 netcdf/hdf5/hdf5writer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index de8a25a..1ad013e 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -83,11 +83,16 @@ type HDF5Writer struct {
 }
 
 func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
 	if hw.closed {
 		return nil
 	}
 	hw.closed = true
+	defer func() {
+		if closeErr := hw.file.Close(); err == nil {
+			err = closeErr
+		}
+	}()
+	defer thrower.RecoverError(&err)
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -133,10 +138,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
-- 
2.43.0


From dd5ee093f4e1e5af553efc537e1bb4d8cca31103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 33/90] fix: HDF5 writer accepted attribute names which are
 reserved for dimensions

---
 netcdf/hdf5/hdf5writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 1ad013e..615a12f 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1406,6 +1406,11 @@ func hasValidNames(am api.AttributeMap) bool {
 		if !internal.IsValidNetCDFName(key) {
 			return false
 		}
+		switch key {
+		case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+			// These are how dimensions are represented.
+			return false
+		}
 	}
 	return true
 }
-- 
2.43.0


From 68c5c6331860719fa506ca65f8a332f7bb5870c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 34/90] fix: HDF5 attributes were returned in random order

---
 netcdf/hdf5/hdf5.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0ca2dc4..dd210f5 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3103,6 +3103,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
+	keys := []string{}
 	for i := range unfiltered {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
@@ -3120,13 +3121,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
@@ -3391,7 +3391,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
-- 
2.43.0


From bdb2febec9ac37bf47b9d5e4ba880d6eb33dbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 35/90] fix: HDF5 variables, groups and types were listed in
 random order

---
 netcdf/hdf5/hdf5.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index dd210f5..a736bb7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3013,7 +3013,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -3024,7 +3024,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3064,7 +3064,8 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -3375,8 +3376,7 @@ func (h5 *HDF5) ListSubgroups() []string {
 			ret = append(ret, tail)
 			return
 		}
-		obj.sortChildren()
-		for _, o := range obj.children {
+		for _, o := range obj.sortChildren() {
 			sgDescend(o, group+o.name+"/")
 		}
 	}
@@ -3403,6 +3403,9 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
+		if children[i].creationOrder == children[j].creationOrder {
+			return children[i].name < children[j].name
+		}
 		return children[i].creationOrder < children[j].creationOrder
 	})
 	return children
-- 
2.43.0


From 86b91a50047443517cacff119b0ea671348a3f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 36/90] fix: HDF5 files with an empty floating-point attribute
 couldn't be opened

---
 netcdf/hdf5/floatingPoint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..07e4157 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,6 +147,10 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
+	if calcDataSize(attr) == 0 {
+		logger.Infof("empty")
+		return
+	}
 	assert(df.Rem() >= int64(attr.length), "floating-point data short")
 	attr.df = newResetReaderSave(df, df.Rem())
 }
-- 
2.43.0


From e96fe6e8e03876cfd3245966ee2d52ad8a7219f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 37/90] fix: opaque types without a tag or inside compound
 types are misread

---
 netcdf/hdf5/opaque.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..e9775e5 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,11 +44,8 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
-	if bf.Rem() == 0 {
-		logger.Info("No properties for opaque")
-		return
-	}
-	plen := int(bf.Rem())
+	// The tag is padded with zeroes to a multiple of eight bytes.
+	plen := int(bitFields & 0xff)
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
-- 
2.43.0


From 4bdac1f3023dc1e742505db4533fbbba4f04a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 38/90] fix: chunked HDF5 variables of three or more dimensions
 are put together wrongly

---
 netcdf/hdf5/readers.go | 127 +++++++++++++++--------------------------
 1 file changed, 47 insertions(+), 80 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..6d4b8b5 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -398,6 +398,8 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 	return flatChunkIndex * chunkSize * dtLength
 }
 
+// fillrow reads the chunks that have the same coordinate in the first dimension,
+// and puts their rows in order.
 func (lr *layoutReader) fillrow() error {
 	attr := lr.obj.objAttr
 	dims := attr.dimensions
@@ -406,107 +408,72 @@ func (lr *layoutReader) fillrow() error {
 	rank := len(dims)
 
 	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
+	g := make([]uint64, rank)
+	chunksInStripe := uint64(1)
 	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
+		g[i] = (dims[i] + layout[i] - 1) / layout[i]
+		if i > 0 {
+			chunksInStripe *= g[i]
 		}
 	}
-
-	if lr.stripeIndex >= totalStripes {
+	if uint64(lr.stripeIndex) >= g[0] {
 		return io.EOF
 	}
 
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
+	// The rows of the first dimension in this stripe
+	start := uint64(lr.stripeIndex) * layout[0]
+	nRows := min(layout[0], dims[0]-start)
+	rowLen := dtLength
+	for i := 1; i < rank; i++ {
+		rowLen *= dims[i]
 	}
+	lr.buf = make([]byte, nRows*rowLen)
 
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
-	}
-
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
 	chunkSize := calcChunkSize(attr)
 	readBuf := make([]byte, chunkSize*dtLength)
+	lineLen := layout[rank-1] // a line is along the last dimension of a chunk
+	coord := make([]uint64, rank)
 
-	for gc := range numChunksInStripe {
-		// Read one chunk
+	for chunk := range chunksInStripe {
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
 			return err
 		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
-		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
-			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
-					isValid = false
-					break
+		for line := range chunkSize / lineLen {
+			// Coordinates of the start of the line. The first is relative to the stripe.
+			tempChunk, tempLine := chunk, line
+			valid := true
+			for i := rank - 1; i >= 0; i-- {
+				coord[i] = 0
+				if i < rank-1 {
+					coord[i] = tempLine % layout[i]
+					tempLine /= layout[i]
+				}
+				limit := nRows
+				if i > 0 {
+					coord[i] += tempChunk % g[i] * layout[i]
+					tempChunk /= g[i]
+					limit = dims[i]
 				}
+				valid = valid && coord[i] < limit
 			}
-
-			if !isValid {
+			if !valid {
 				continue
 			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
+			dest := uint64(0)
+			for i := range rank {
+				if i > 0 {
+					dest *= dims[i]
+				}
+				dest += coord[i]
 			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
+			limit := dims[rank-1]
+			if rank == 1 {
+				limit = nRows
 			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			copyLen := min(lineLen, limit-coord[rank-1])
+			src := line * lineLen * dtLength
+			copy(lr.buf[dest*dtLength:], readBuf[src:src+copyLen*dtLength])
 		}
 	}
 
-- 
2.43.0


From 7fe4e2c66a4fe812cd1493a6eeedbfcf138dce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 39/90] fix: HDF5 slices out of range are not refused, and
 change what is read later

---
 netcdf/hdf5/hdf5.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a736bb7..564169f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3304,10 +3304,12 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			}
 			return data, nil
 		}
-		if end < begin {
+		if fakeEnd || begin < 0 || end < begin || end > d {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
 		fakeObj.objAttr.isSlice = true
 		fakeObj.objAttr.firstDim = begin
 		fakeObj.objAttr.lastDim = end
@@ -3322,10 +3324,13 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, ErrDimensionality
 		}
 		for i := range begin {
-			if end[i] < begin[i] {
+			if begin[i] < 0 || end[i] < begin[i] || uint64(end[i]) > found.objAttr.dimensions[i] {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(begin) == 0 {
+			return getSlice(0, 1)
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From 2f2c5b34417a66e0bb85f031c3def6836cbc5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 40/90] fix: slices of chunked HDF5 variables return other
 rows, or fail where chunks are missing

---
 netcdf/hdf5/hdf5.go    | 36 ++++++++++++++++++++++++------------
 netcdf/hdf5/readers.go |  6 +++++-
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 564169f..5618534 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2483,16 +2483,29 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	firstOffset := uint64(0)
 	lastOffset := uint64(size)
 	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
+	// The chunks' place in the variable, as opposed to the place of their data in what is read.
+	firstElement := uint64(0)
+	lastElement := uint64(size)
+	if obj.objAttr.isSlice {
 		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
-			dimSize := size / obj.objAttr.dimensions[0]
-			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
-			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
+			rows := uint64(1) // of the first dimension, in one piece
+			if needsLayoutReader(obj.objAttr) {
+				rows = obj.objAttr.layout[0]
+			}
+			dim := obj.objAttr.dimensions[0]
+			first := uint64(obj.objAttr.firstDim) / rows
+			last := (uint64(obj.objAttr.lastDim) + rows - 1) / rows
+			dimSize := size / ((dim + rows - 1) / rows)
+			firstOffset = first * dimSize
+			lastOffset = last * dimSize
 			size = lastOffset - firstOffset
+			rowSize := calcDataSize(obj.objAttr) / dim * uint64(obj.objAttr.length)
+			firstElement = first * rows * rowSize
+			lastElement = last * rows * rowSize
 		}
 	}
 	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstElement, lastElement)
 		nBlocks = len(obj.dataBlocks)
 	}
 	if nBlocks == 0 {
@@ -2619,8 +2632,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		readers = append(readers, newResetReader(r, int64(seg.length)))
 		off += seg.length
 	}
-	if size > off {
-		extra := size - off
+	if lastOffset > off {
+		extra := lastOffset - off
 		logger.Infof("Fill value reader at end offset 0x%x length %d",
 			off, extra)
 		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
@@ -2710,11 +2723,10 @@ func (h5 *HDF5) getData(obj *object) any {
 		case attr.dimensions[0] == 0:
 			chunkSize = 0
 		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
+			chunkSize = int64(calcDataSize(attr)*uint64(attr.length)) / int64(attr.dimensions[0])
+			if needsLayoutReader(attr) && attr.lastDim > attr.firstDim {
+				// The reader starts at the first row of the chunks that have the first row wanted.
+				skip(bf, attr.firstDim%int64(attr.layout[0])*chunkSize)
 			}
 		}
 		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 6d4b8b5..91743a4 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -505,5 +505,9 @@ func (lr *layoutReader) Count() int64 {
 
 func newLayoutReader(r remReader, obj *object) io.Reader {
 	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+	stripeIndex := 0
+	if obj.objAttr.isSlice {
+		stripeIndex = int(obj.objAttr.firstDim / int64(obj.objAttr.layout[0]))
+	}
+	return &layoutReader{r, obj, nil, int64(size), 0, stripeIndex}
 }
-- 
2.43.0


From 1e71ba5c20c2c6e6428308c041f6f66dcb109c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 41/90] fix: intact Fletcher-32 data is refused when a sum is a
 multiple of 65535

---
 netcdf/hdf5/readers.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 91743a4..02f5f19 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -102,8 +102,15 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 		return 0, err
 	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		// Modulo 65535, with 65535 itself standing for zero, unless all values are zero.
+		fl.sum1 += uint32(val)
+		if fl.sum1 > 65535 {
+			fl.sum1 -= 65535
+		}
+		fl.sum2 += fl.sum1
+		if fl.sum2 > 65535 {
+			fl.sum2 -= 65535
+		}
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
-- 
2.43.0


From ecc0f3735c6875781451d24039e2c9045fdc3553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 42/90] fix: bytes at the end that are no whole element are
 lost in shuffled HDF5 data

---
 netcdf/hdf5/readers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 02f5f19..6fef180 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -305,8 +305,12 @@ func unshuffle(val []byte, n uint32) {
 	}
 	// shuffle params are never very large in practice, so this isn't wasteful
 	// of memory.
-	tmp := make([]byte, len(val))
+	if n == 0 {
+		return
+	}
 	nelems := len(val) / int(n)
+	val = val[:nelems*int(n)] // bytes left over are not shuffled
+	tmp := make([]byte, len(val))
 	for i := range int(n) {
 		for j := range nelems {
 			tmp[j*int(n)+i] = val[i*nelems+j]
-- 
2.43.0


From 30734e2c57e848d2b31ad5faecad248e8aeb75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 43/90] fix: Fletcher-32 checksums are not checked when part of
 a chunk is read

---
 netcdf/hdf5/hdf5.go    |   1 +
 netcdf/hdf5/readers.go | 102 ++++++++++++++++-------------------------
 2 files changed, 40 insertions(+), 63 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 5618534..809bd0b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2575,6 +2575,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			switch f.kind {
 			case filterFletcher32:
 				bf = fletcher32Reader(bf, inputSize)
+				canSeek = false
 				inputSize -= 4
 			case filterDeflate:
 				zbf, err := zlib.NewReader(bf)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 6fef180..b334bc5 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -53,30 +53,22 @@ type unshuffleReader struct {
 	shuffleParam uint32
 }
 
-// Streaming version of a fletcher32 reader
+// fletcher checks all the data before any of it is returned.
 type fletcher struct {
-	r            io.Reader
-	size         uint64
-	count        uint64
-	sum1         uint32
-	sum2         uint32
-	partial      uint8
-	checksum     uint32
-	readChecksum bool
+	r     io.Reader
+	size  uint64
+	count uint64
+	data  []byte // what has not been returned yet, nil before the check
 }
 
 // fletcher32Reader creates a reader implementing the fletcher32 algorithm.
 func fletcher32Reader(r io.Reader, size uint64) remReader {
 	assert(size >= 4, "bad size for fletcher")
 	return &fletcher{
-		r:            r,
-		size:         size,
-		count:        0,
-		sum1:         0,
-		sum2:         0,
-		partial:      0,
-		checksum:     0,
-		readChecksum: false,
+		r:     r,
+		size:  size,
+		count: 0,
+		data:  nil,
 	}
 }
 
@@ -93,59 +85,43 @@ func (fl *fletcher) Count() int64 {
 }
 
 func (fl *fletcher) Read(b []byte) (int, error) {
-	thisLen := uint64(len(b))
-	if thisLen+fl.count > fl.size-4 {
-		thisLen = (fl.size - 4) - fl.count
-	}
-	n, err := fl.r.Read(b[:thisLen])
-	if err != nil && err != io.EOF {
-		return 0, err
-	}
-	addToSums := func(val uint16) {
-		// Modulo 65535, with 65535 itself standing for zero, unless all values are zero.
-		fl.sum1 += uint32(val)
-		if fl.sum1 > 65535 {
-			fl.sum1 -= 65535
-		}
-		fl.sum2 += fl.sum1
-		if fl.sum2 > 65535 {
-			fl.sum2 -= 65535
-		}
-	}
-	for i := 0; i < n; i++ {
-		var val uint16
-		switch {
-		case (fl.count+uint64(i))%2 == 1:
-			// Previous read left us with an odd count.
-			// Recover the partial read and compute val.
-			val = (uint16(fl.partial) << 8) | uint16(b[i])
-			addToSums(val)
-		case i == n-1:
-			// Can't complete a read, so save the partial.
-			fl.partial = b[i]
-		default:
-			val = (uint16(b[i]) << 8) | uint16(b[i+1])
-			addToSums(val)
-			i++
+	if fl.data == nil {
+		data := make([]byte, fl.size-4)
+		util.MustReadLE(fl.r, data)
+		var checksum uint32
+		util.MustReadLE(fl.r, &checksum)
+		if fletcher32(data) != checksum {
+			thrower.Throw(ErrFletcherChecksum)
 		}
+		fl.data = data
 	}
+	n := copy(b, fl.data)
+	fl.data = fl.data[n:]
 	fl.count += uint64(n)
-	if fl.count == fl.size-4 {
-		if (fl.size-4)%2 == 1 {
-			// Retrieve partial and complete sum as if next byte were zero.
-			val := uint16(fl.partial) << 8
-			addToSums(val)
+	if n == 0 && len(b) > 0 {
+		return 0, io.EOF
+	}
+	return n, nil
+}
+
+func fletcher32(data []byte) uint32 {
+	sum1, sum2 := uint32(0), uint32(0)
+	for i := 0; i < len(data); i += 2 {
+		val := uint32(data[i]) << 8
+		if i+1 < len(data) {
+			val |= uint32(data[i+1])
 		}
-		calcedSum := (uint32(fl.sum2) << 16) | uint32(fl.sum1)
-		if !fl.readChecksum {
-			util.MustReadLE(fl.r, &fl.checksum)
-			fl.readChecksum = true
+		// Modulo 65535, with 65535 itself standing for zero, unless all values are zero.
+		sum1 += val
+		if sum1 > 65535 {
+			sum1 -= 65535
 		}
-		if calcedSum != fl.checksum {
-			thrower.Throw(ErrFletcherChecksum)
+		sum2 += sum1
+		if sum2 > 65535 {
+			sum2 -= 65535
 		}
 	}
-	return n, nil
+	return sum2<<16 | sum1
 }
 
 func (r *resetReader) Rem() int64 {
-- 
2.43.0


From 7ee7415cf4b2a298173deca2e5ef7c158010019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 44/90] fix: panic on HDF5 character variables of more than one
 dimension, and text lost after a NUL

---
 internal/slicer.go    | 4 +++-
 netcdf/hdf5/string.go | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 066c2b8..15a6731 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -106,7 +106,9 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 	}
 	// The last dimension of text is within the string
 	if v.Kind() == reflect.String {
-		return v.Slice(int(begin[0]), int(end[0]))
+		// (which may have lost NUL bytes at its end).
+		length := int64(v.Len())
+		return v.Slice(int(min(begin[0], length)), int(min(end[0], length)))
 	}
 
 	// For scalars or base types at the end of recursion
diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..0a8b956 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"io"
 	"reflect"
+	"strings"
 )
 
 type stringManagerType struct{}
@@ -63,7 +64,7 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		if dtlen == 1 {
 			b := make([]byte, thisDim)
 			read(bf, b)
-			return getString(b)
+			return strings.TrimRight(string(b), "\x00")
 		}
 		values := make([]string, thisDim)
 		for i := uint64(0); i < thisDim; i++ {
@@ -75,6 +76,10 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 	}
 	ty := reflect.TypeOf("")
 	vals := makeSlices(ty, dimLengths)
+	if dtlen == 1 {
+		// The last dimension is within the strings.
+		vals = makeSlices(ty, dimLengths[:len(dimLengths)-1])
+	}
 	for i := uint64(0); i < thisDim; i++ {
 		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
-- 
2.43.0


From c3fc87a92a92612b3d0f3b714a76b4a8b73d12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 45/90] fix: panic on variable-length HDF5 variables with a
 dimension of length zero

---
 netcdf/hdf5/hdf5.go | 2 +-
 netcdf/hdf5/vlen.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 809bd0b..0831e6f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3464,7 +3464,7 @@ func emptySlice(v any) reflect.Value {
 	// here's one slice
 	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
 	// here are the rest
-	for i := 1; i < slices; i++ {
+	for range slices {
 		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
 	}
 	return empty
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..347dc2a 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -213,6 +213,11 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		return sl.Interface()
 	}
 	thisDim := dimLengths[0]
+	if thisDim == 0 {
+		// An empty value, only to get its type.
+		empty := allocVariable(hr, c, newResetReaderFromBytes(make([]byte, 16)), nil, attr, cast)
+		return makeSlices(reflect.TypeOf(empty), dimLengths).Interface()
+	}
 	if len(dimLengths) == 1 {
 		// For scalars, this can be faster using binary.Read
 		vals := make([]any, thisDim)
-- 
2.43.0


From e4c65e8affc409e1471ac5d8e970d48645d611a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 46/90] fix: types of attributes of HDF5 variables and groups
 are taken from the root's attributes

---
 netcdf/hdf5/amap.go | 16 ++++++++++------
 netcdf/hdf5/hdf5.go | 15 +++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..36556c1 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -7,18 +7,18 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5       *HDF5
+	attrlist []*attribute // where the types are found
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrlist, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrlist, key)
 	return ret, ret != ""
 }
 
@@ -26,8 +26,12 @@ func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
-		om.SetTypeCallbacks(c.regCallback, c.goCallback)
+		setTypeCallbacks(h5, om, h5.rootObject.attrlist)
 	}
 	return om, nil
 }
+
+func setTypeCallbacks(h5 *HDF5, om *util.OrderedMap, attrlist []*attribute) {
+	c := callback{h5, attrlist}
+	om.SetTypeCallbacks(c.regCallback, c.goCallback)
+}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0831e6f..7b450f7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2921,8 +2921,8 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2937,12 +2937,11 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 		}
 		return base + dims
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrGoType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2957,8 +2956,7 @@ func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
 		}
 		return dims + base
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return ""
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -3143,6 +3141,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
+	setTypeCallbacks(h5, om, unfiltered)
 	om.Hide(ncpKey)
 	return om
 }
-- 
2.43.0


From f39c8ccdcb8a891869187f9757a3558b46033003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 47/90] fix: HDF5 compound and enumerated types of more than
 255 members are misread

---
 netcdf/hdf5/compound.go | 2 +-
 netcdf/hdf5/enum.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..750dd76 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..f064c95 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
-- 
2.43.0


From d381bd895359915c185f2294afbdba4b0bf8fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 48/90] fix: reading an HDF5 array variable changes its
 dimensions

---
 netcdf/hdf5/array.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..beb2359 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 )
 
@@ -48,16 +49,16 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0]
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := slices.Concat(dimensions, arrayAttr.dimensions)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
-- 
2.43.0


From c40c225d700f12fd9dc9aeedd167cc5b75f57b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 49/90] fix: panic on HDF5 dimension scales that are scalars

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7b450f7..1850ade 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3064,7 +3064,7 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 			continue
 		}
 		k := classifyObject(obj.attrlist)
-		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
+		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name && len(obj.objAttr.dimensions) > 0 {
 			return obj.objAttr.dimensions[0], true
 		}
 	}
-- 
2.43.0


From e3679cbedc0b897465127167bd5f8ac33e9cedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 50/90] fix: adding a key again to an ordered map lists it
 twice

---
 netcdf/util/orderedmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..e3774a3 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -62,7 +62,7 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 
 // Add adds a key/value pair to an ordered map at the end.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	if _, has := om.values[name]; !has && !om.hiddenKeys[name] {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
-- 
2.43.0


From a06c7bdb0f521279bb240d411d2e676bcb649cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 51/90] fix: ordered maps change with the caller's keys and
 values

---
 netcdf/util/orderedmap.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index e3774a3..94ec949 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -46,16 +46,18 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 			return nil, ErrorKeysDontMatchValues
 		}
 	}
-	if values == nil {
-		values = map[string]any{}
+	// Copies, for the caller may change them later.
+	valuesCopy := map[string]any{}
+	for k, v := range values {
+		valuesCopy[k] = v
 	}
-
+	keysCopy := slices.Clone(keys)
 	visibleKeys := []string{}
 	visibleKeys = append(visibleKeys, keys...)
 
 	return &OrderedMap{
-		keys:        keys,
-		values:      values,
+		keys:        keysCopy,
+		values:      valuesCopy,
 		visibleKeys: visibleKeys,
 		hiddenKeys:  map[string]bool{}}, nil
 }
@@ -101,7 +103,7 @@ func (om *OrderedMap) Hide(hiddenKey string) {
 // Keys returns the keys in order for the map.
 // It does not return the hidden keys.
 func (om *OrderedMap) Keys() []string {
-	return om.visibleKeys
+	return append([]string{}, om.visibleKeys...)
 }
 
 func (om *OrderedMap) pGoType(val any) (string, bool) {
-- 
2.43.0


From 94ef999f2710c5ea181e9b9fc8f7227bb3d412d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 52/90] fix: dimensions of lists of compound values are given
 to their last list member

---
 netcdf/util/orderedmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index 94ec949..e0c1531 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -188,7 +188,7 @@ func (om *OrderedMap) putDim(inner string, dim int, kind reflect.Kind) string {
 		sDim = strconv.Itoa(dim)
 	}
 	parenLoc := strings.LastIndex(inner, "(")
-	if parenLoc == -1 || parenLoc == len(inner)-1 {
+	if parenLoc == -1 || !strings.HasSuffix(inner, ")") {
 		return fmt.Sprintf("%s(%s)", inner, sDim)
 	}
 	fixed := fmt.Sprintf("%s%s,%s", inner[:parenLoc+1], sDim, inner[parenLoc+1:])
-- 
2.43.0


From 483cb7c6dd18ba08ba56d34a426a35bb7df1b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 53/90] fix: objects after a second link to an object are
 missing from old-style HDF5 groups

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1850ade..e05178e 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1331,7 +1331,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		if h5.hasAddr(objectHeaderAddress) {
 			logger.Info("avoid link loop")
 			logger.Infof("done with name=%s", string(linkName))
-			return
+			continue
 		}
 		obj := newObject()
 		obj.addr = objectHeaderAddress
-- 
2.43.0


From c60ffe8d3bf5b07c14b5e86b379b2bf28297010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 54/90] fix: old-style HDF5 groups of many objects can't be
 read

---
 netcdf/hdf5/hdf5.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index e05178e..a769eab 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1350,6 +1350,11 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
+	h5.readSymbolTableNode(parent, addr, heapAddr, -1)
+}
+
+// readSymbolTableNode reads a node of the given level (-1 for the top, whose level is not known).
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, level int) {
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
@@ -1363,8 +1368,9 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	if nodeLevel > 0 {
 		logger.Infof("Start level %d", nodeLevel)
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+	assert(level >= 0 || leftAddress == invalidAddress && rightAddress == invalidAddress,
 		"Siblings unexpected")
+	assert(level < 0 || level == int(nodeLevel), "unexpected level")
 	assert(nodeType == 0, "what we expect")
 	type keyAddr struct {
 		key  uint64
@@ -1381,6 +1387,10 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
 	for _, v := range keyAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableNode(parent, v.addr, heapAddr, int(nodeLevel)-1)
+			continue
+		}
 		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
 	}
 }
-- 
2.43.0


From cc84d8c2a2089ffe9b6eab0e0e793fbeb2b9e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 55/90] fix: HDF5 attributes in object headers are not listed
 in their creation order

---
 netcdf/hdf5/hdf5.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a769eab..947cddb 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1933,12 +1933,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		co := uint16(0)
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -2036,7 +2037,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
-- 
2.43.0


From 78c70dda7373e9122bf986e56429a3428712237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 56/90] fix: multi-dimensional slices of HDF5 enumerations are
 sliced in one dimension only

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 947cddb..7b5593d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3371,6 +3371,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if e, ok := partialData.(enumerated); ok {
+			e.values, err = internal.SliceMD(e.values, newDims, newBegin, newEnd)
+			return e, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
-- 
2.43.0


From 33c97ab14c490d3a6e5bee7a3185560b7f4f9eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 57/90] fix: panic on old HDF5 fill value messages that have no
 fill value

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7b5593d..431c35a 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1995,6 +1995,10 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("Fill value old")
 			sz := read32(f)
 			logger.Info("Fill value old size", sz)
+			if sz == 0 {
+				obj.fillValueOld = nil // there is no fill value
+				break
+			}
 			fv := make([]byte, sz)
 			read(f, fv)
 			obj.fillValueOld = fv
-- 
2.43.0


From 0ffb1a85e7b5e6ddf23730adefb9fd0c857c9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 58/90] fix: format of a file guessed from the current position
 instead of its start

---
 netcdf/netcdf4.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9f676c6..9b740bc 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -68,6 +68,11 @@ func New(file api.ReadSeekerCloser) (api.Group, error) {
 }
 
 func getKind(file io.ReadSeeker) (byte, error) {
+	// The file may have been read from before.
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return 0, err
+	}
 	var b [1]byte
 	n, err := file.Read(b[:])
 	if n == 0 {
-- 
2.43.0


From 28071a1b3a2c0d9ae2367513aa04ef9e155fb93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 59/90] fix: closing one group of a classic file twice closes
 the file for the others

---
 netcdf/cdf/cdf.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index ae08cfa..2c8bb34 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -69,7 +69,7 @@ const (
 type CDF struct {
 	fname        string
 	file         api.ReadSeekerCloser
-	fileRefCount int
+	fileRefCount *int // shared by all the groups that use the file
 	version      uint8
 	numRecs      uint64 // 64-bits in V5
 	recSize      uint64
@@ -535,14 +535,18 @@ func (cdf *CDF) readHeader() (err error) {
 // longer being used by any other groups.
 func (cdf *CDF) Close() {
 	defer thrower.RecoverError(nil)
-	assert(cdf.fileRefCount > 0, "ref count off", ErrInternal)
-	cdf.fileRefCount--
-	if cdf.fileRefCount == 0 {
-		err := cdf.file.Close()
+	if cdf.file == nil {
+		return // already closed
+	}
+	file := cdf.file
+	cdf.file = nil
+	assert(*cdf.fileRefCount > 0, "ref count off", ErrInternal)
+	*cdf.fileRefCount--
+	if *cdf.fileRefCount == 0 {
+		err := file.Close()
 		if err != nil {
 			logger.Error("Error on close (ignored):", err)
 		}
-		cdf.file = nil
 	}
 }
 
@@ -555,8 +559,9 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
-	cdf.fileRefCount++
-	return api.Group(cdf), nil
+	c := *cdf // closed independently of this one
+	*c.fileRefCount++
+	return api.Group(&c), nil
 }
 
 // Open is the implementation of the API netcdf.Open.
@@ -577,7 +582,8 @@ func Open(fname string) (api.Group, error) {
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (ag api.Group, err error) {
 	defer thrower.RecoverError(&err)
-	c := &CDF{file: file, fileRefCount: 1}
+	refCount := 1
+	c := &CDF{file: file, fileRefCount: &refCount}
 	err = c.readHeader()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f13616dff4f4923dadb72352d50608b617e5bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 60/90] fix: HDF5 variables with too few dimension names
 written with data missing

---
 netcdf/hdf5/hdf5writer.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 615a12f..e25aabc 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1369,15 +1369,39 @@ func (hw *HDF5Writer) addDimensions(val any, dimNames []string) error {
 }
 
 // hasShape checks that val has at least as many dimensions as there are names
-// for, and that it is rectangular in them.  Any slices nested deeper than that
-// are variable-length data.
+// for, and that it is rectangular in them.  A slice nested deeper than that
+// is variable-length data.
 func hasShape(val any, dimNames []string) bool {
 	if e, ok := val.(enumerated); ok {
 		val = e.values
 	}
 	rv := reflect.ValueOf(val)
 	shape := getDimensionsLimited(rv, len(dimNames))
-	return len(shape) == len(dimNames) && isRectangular(rv, shape)
+	return len(shape) == len(dimNames) && isRectangular(rv, shape) &&
+		isDeepEnough(rv.Type(), len(dimNames))
+}
+
+// isDeepEnough checks that there is no more below nDims dimensions than
+// variable-length data, which is one slice.
+func isDeepEnough(t reflect.Type, nDims int) bool {
+	isNested := func() bool {
+		return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) &&
+			t != reflect.TypeOf(compound{}) && t != reflect.TypeOf(opaque{})
+	}
+	for range nDims {
+		if !isNested() {
+			return true
+		}
+		t = t.Elem()
+	}
+	if !isNested() {
+		return true
+	}
+	if t.Kind() == reflect.Array {
+		return false
+	}
+	t = t.Elem()
+	return !isNested()
 }
 
 func isRectangular(rv reflect.Value, shape []uint64) bool {
-- 
2.43.0


From 0114dc02a8c8bd65fb35d96a5ca8207904543d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 61/90] fix: HDF5 attributes of nested ragged slices written
 wrong, or panic in Close

---
 netcdf/hdf5/hdf5writer.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index e25aabc..af44a09 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1118,7 +1118,7 @@ func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
 	if attrs != nil {
 		for _, k := range attrs.Keys() {
 			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
+			if !isSupportedAttribute(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1140,7 +1140,7 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
+			if !isSupportedAttribute(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1201,7 +1201,7 @@ func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
 	if attrs != nil {
 		for _, k := range attrs.Keys() {
 			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
+			if !isSupportedAttribute(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1223,7 +1223,7 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
+			if !isSupportedAttribute(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1317,6 +1317,20 @@ func isSupportedType(val any) bool {
 	return false
 }
 
+// isSupportedAttribute checks that the attribute has a supported type, and is
+// rectangular or a list of variable-length data.
+func isSupportedAttribute(val any) bool {
+	if !isSupportedType(val) {
+		return false
+	}
+	if e, ok := val.(enumerated); ok {
+		val = e.values
+	}
+	rv := reflect.ValueOf(val)
+	shape := getDimensionsRecursive(rv)
+	return len(shape) == 2 || isRectangular(rv, shape)
+}
+
 // isSupportedElemType checks whether a reflect.Type (which may be a slice
 // element type from an empty slice) eventually resolves to a supported leaf.
 func isSupportedElemType(t reflect.Type) bool {
-- 
2.43.0


From 70152acdea48bb179c3bb247b6f39eca8555c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 62/90] fix: damaged HDF5 files end the process instead of
 returning an error

---
 netcdf/hdf5/assert.go | 9 +++++++--
 netcdf/hdf5/hdf5.go   | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..cd410ae 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,8 +16,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = failMsgs // called by padBytesCheck() when padding isn't zero
+	maybeFail = fail     // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -57,6 +57,11 @@ func fail(msg string) {
 	failError(ErrInternal, msg)
 }
 
+// Panics always with messages
+func failMsgs(v ...any) {
+	fail(fmt.Sprint(v...))
+}
+
 // Panics with specified error and message
 func failError(err error, msg string) {
 	logger.Error(msg)
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 431c35a..7fe1f3d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -857,7 +857,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("offset=0x%x length=%d", offset, length)
 				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 
 		case 8: // for indexing the ‘name’ field for indexed attributes.
@@ -909,7 +909,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 					offset, length, mflags, co)
 				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
-- 
2.43.0


From 74624e003e2586e74890395514d46d160731f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 63/90] fix: classic writer ignored names for dimensions which
 aren't there

---
 netcdf/cdf/cdfwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 70dc819..385157a 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -320,6 +320,9 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 		dims[len(dims)-1] = maxLen
 	}
 	checkShape(v, dims)
+	if len(dimNames) > len(dims) {
+		thrower.Throw(ErrDimensionSize)
+	}
 	return dims, kind
 }
 
-- 
2.43.0


From bb65b0b28eb206566db5dc34884f32177994e8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 64/90] fix: HDF5 compound members that aren't in the order of
 their offsets are misread

---
 netcdf/hdf5/compound.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 750dd76..8c28180 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -169,24 +169,19 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 		} else {
 			rem = length
 		}
-		cbf := newResetReader(bf, rem)
+		// The members can be in any order.
+		b := make([]byte, rem)
+		read(bf, b)
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
+			byteOffset := uint64(c.byteOffset)
+			clen := calcAttrSize(c)
+			assert(byteOffset <= uint64(rem) && clen <= uint64(rem)-byteOffset,
+				"compound member out of range")
+			ccbf := newResetReaderFromBytes(b[byteOffset : byteOffset+clen])
 			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
-- 
2.43.0


From 4886a2e4bdf76e184f34516faecadaa0bfbe72a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 65/90] fix: scalar HDF5 attributes of compound types with one
 member are returned as the member

---
 netcdf/hdf5/hdf5.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7fe1f3d..e8f148f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3164,12 +3164,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 // A scalar attribute can be stored as a single-length array.
 // This code undoes that to return an actual scalar.
 func undoScalarAttribute(value any) any {
-	// Opaque is a slice, but we don't want to undo it.
-	_, has := value.(opaque)
-	if has {
+	// Opaque and compound are slices, but we don't want to undo them.
+	switch value.(type) {
+	case opaque, compound:
 		return value
 	}
-	_, has = value.(enumerated)
+	_, has := value.(enumerated)
 	// Enumerated that haven't been cast can also be slices.
 	if has {
 		e, has := value.(enumerated)
-- 
2.43.0


From db02775a5069068416fcf8f54a2da614abf5b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 66/90] fix: arrays in HDF5 compound types of version 1 are
 described as single values

---
 netcdf/hdf5/compound.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 8c28180..c72576c 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -22,10 +22,22 @@ var (
 	_               typeManager = compoundManager
 )
 
+// joinDims lists dimensions with something between them.
+func joinDims(dims []uint64, between string) string {
+	s := make([]string, len(dims))
+	for i, d := range dims {
+		s[i] = fmt.Sprint(d)
+	}
+	return strings.Join(s, between)
+}
+
 func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
 		ty := cdlTypeString(cattr.class, sh, name, cattr, origNames)
+		if len(cattr.dimensions) > 0 { // an array, in the original version of datatypes
+			ty += "(" + joinDims(cattr.dimensions, ",") + ")"
+		}
 		members[i] = fmt.Sprintf("\t%s %s;\n", ty, cattr.name)
 	}
 	interior := strings.Join(members, "")
@@ -41,6 +53,9 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	members := make([]string, len(attr.children))
 	for i, cattr := range attr.children {
 		ty := goTypeString(cattr.class, sh, typeName, cattr, origNames)
+		if len(cattr.dimensions) > 0 {
+			ty = "[" + joinDims(cattr.dimensions, "][") + "]" + ty
+		}
 		members[i] = fmt.Sprintf("\t%s %s", cattr.name, ty)
 	}
 	interior := strings.Join(members, "\n")
-- 
2.43.0


From 749f3ad97410a07b290a64e1fd1c5eef060e0f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 67/90] fix: panics from damaged HDF5 files reach the caller
 instead of an error

---
 netcdf/hdf5/amap.go   |  4 ++++
 netcdf/hdf5/assert.go | 19 +++++++++++++++++++
 netcdf/hdf5/hdf5.go   | 33 ++++++++++++++++++++++-----------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index 36556c1..1b32d8d 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -13,11 +13,15 @@ type callback struct {
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	ret := c.h5.findAttrType(c.attrlist, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	ret := c.h5.findAttrGoType(c.attrlist, key)
 	return ret, ret != ""
 }
diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index cd410ae..450b47c 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -5,6 +5,8 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"reflect"
+	"runtime"
 
 	"github.com/batchatco/go-thrower"
 )
@@ -69,6 +71,23 @@ func failError(err error, msg string) {
 	panic("never gets here")
 }
 
+// Converts panics at the entry points to errors. Besides the ones that are thrown, these are
+// the ones that come from using what a damaged file contains: a bad index or length, say.
+func recoverError(err *error) {
+	r := recover()
+	if r == nil {
+		return
+	}
+	switch r.(type) {
+	case runtime.Error, *reflect.ValueError, string:
+		logger.Error("panic:", r)
+		*err = ErrInternal
+		return
+	}
+	defer thrower.RecoverError(err)
+	panic(r)
+}
+
 // Check that pad bytes are zero up to byte boundary (pad32 = 1,3 or 7)
 func padBytes(bf io.Reader, pad32 int) {
 	padBytesCheck(bf, pad32, round, logFunc)
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index e8f148f..ea49706 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2337,7 +2337,7 @@ func canonicalizePath(s string) string {
 // GetGroup gets the given group or returns an error if not found.
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
-	defer thrower.RecoverError(&err)
+	defer recoverError(&err)
 	var groupName string
 	group = canonicalizePath(group)
 	toDescend := h5.groupObject
@@ -2399,7 +2399,7 @@ func fileSize(file io.ReadSeeker) int64 {
 // Open is the implementation of the API netcdf.Open.
 // Using netcdf.Open is preferred over using this directly.
 func Open(fname string) (nc api.Group, err error) {
-	defer thrower.RecoverError(&err)
+	defer recoverError(&err)
 	file, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -2414,7 +2414,7 @@ func Open(fname string) (nc api.Group, err error) {
 // New is the implementation of the API netcdf.New.
 // Using netcdf.New is preferred over using this directly.
 func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
-	defer thrower.RecoverError(&err)
+	defer recoverError(&err)
 	fileSize := fileSize(file)
 	if f, ok := file.(*os.File); ok {
 		logger.Info("Opened", f.Name())
@@ -2872,8 +2872,11 @@ loop:
 }
 
 // Attributes returns the global attributes for this group.
-func (h5 *HDF5) Attributes() api.AttributeMap {
-	// entry point, panic can bubble up
+func (h5 *HDF5) Attributes() (attrs api.AttributeMap) {
+	var err error // entry point, but there's no way to return this
+	defer recoverError(&err)
+	attrs, err = newTypedAttributeMap(h5, nil, nil)
+	thrower.ThrowIfError(err)
 	assert(h5.groupObject != nil, "nil root object")
 	h5.sortAttrList(h5.groupObject)
 	return h5.getAttributes(h5.groupObject.attrlist)
@@ -3003,6 +3006,8 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	obj, has := h5.getTypeObj(typeName)
 	if !has {
 		return "", false
@@ -3014,6 +3019,8 @@ func (h5 *HDF5) GetType(typeName string) (string, bool) {
 
 // GetGoType gets the Go description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	obj, has := h5.groupObject.children[typeName]
 	if !has {
 		return "", false
@@ -3279,7 +3286,7 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 // GetVariable returns the named variable or sets the error if not found.
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	err = ErrInternal
-	defer thrower.RecoverError(&err)
+	defer recoverError(&err)
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Infof("variable %s not found", varName)
@@ -3304,7 +3311,7 @@ func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 // smaller slices of a variable, in case the variable is very large and you want to
 // reduce memory usage.
 func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
-	defer thrower.RecoverError(&err)
+	defer recoverError(&err)
 	found := h5.findVariable(varName)
 	if found == nil {
 		logger.Warnf("variable %s not found", varName)
@@ -3323,7 +3330,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 	default:
 		d = int64(found.objAttr.dimensions[0])
 	}
-	getSlice := func(begin, end int64) (any, error) {
+	getSlice := func(begin, end int64) (values any, err error) {
+		defer recoverError(&err)
 		if begin == 0 && end == 1 && fakeEnd {
 			data := h5.getData(found)
 			if data == nil {
@@ -3346,7 +3354,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		}
 		return data, nil
 	}
-	getSliceMD := func(begin, end []int64) (any, error) {
+	getSliceMD := func(begin, end []int64) (values any, err error) {
+		defer recoverError(&err)
 		if len(begin) != len(found.objAttr.dimensions) || len(end) != len(found.objAttr.dimensions) {
 			return nil, ErrDimensionality
 		}
@@ -3396,7 +3405,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 
 // ListSubgroups returns the names of the subgroups of this group.
 func (h5 *HDF5) ListSubgroups() []string {
-	// entry point
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	// Only go one level down
 	var ret []string
 	var sgDescend func(obj *object, group string)
@@ -3449,7 +3459,8 @@ func (obj *object) sortChildren() []*object {
 
 // ListVariables lists the variables in this group.
 func (h5 *HDF5) ListVariables() []string {
-	// entry point, panic can bubble up
+	var err error // there's no way to return this
+	defer recoverError(&err)
 	var ret []string
 	var descend func(obj *object, group string)
 	descend = func(obj *object, group string) {
-- 
2.43.0


From 34f8165433520a0349d204f1b7152abe79310f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 68/90] fix: sizes in damaged HDF5 files that can't be right
 exhaust the memory

---
 netcdf/hdf5/hdf5.go | 50 +++++++++++++++++++++++++++++++++++++++++++++
 netcdf/hdf5/vlen.go |  5 ++++-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ea49706..2984223 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"math/bits"
 	"os"
 	"reflect"
 	"sort"
@@ -50,6 +51,12 @@ const (
 	floatEnums = false
 )
 
+// Limits of sizes in bytes, for what is beyond them can only come from damaged files.
+const (
+	maxChunkSize = 1<<32 - 1 // the limit of HDF5
+	maxDataSize  = 1 << 40   // of what is in memory
+)
+
 // maxDTVersion is the highest datatype version we support.
 // Version 4 was introduced in HDF5 1.12 for new reference types.
 // For compound types, version 4 uses the same packed encoding as version 3.
@@ -735,6 +742,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	b := readEnc(bf, uint8(size))
 	lenlen := uint64(b)
 	logger.Infof("lenlen=0x%x", lenlen)
+	assertError(lenlen <= uint64(bf.Rem()), ErrCorrupted, "link name too long")
 	linkName := make([]byte, lenlen)
 	if lenlen > 0 {
 		read(bf, linkName)
@@ -1158,6 +1166,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 	checkVal(1, version, "version")
 	checkZeroes(bf, 3)
 	csize := read64(bf) // collection size including these 16 header bytes
+	assertError(csize >= 16 && csize <= uint64(h5.fileSize), ErrCorrupted, "bad size of global heap")
 	csize -= 16
 	bf = h5.newSeek(heapAddress+uint64(bf.Count()), int64(csize))
 	for csize >= 16 {
@@ -1705,6 +1714,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			layout := make([]uint64, int(dimensionality)-1)
 			for i := range int(dimensionality) - 1 {
 				size := read32(bf)
+				assertError(size > 0, ErrCorrupted, "chunks can't be empty")
 				numberOfElements *= uint64(size)
 				layout[i] = uint64(size)
 				logger.Info("layout", i, "size", size)
@@ -1714,6 +1724,7 @@ func (h5 *HDF5) readDataLayout(parent *object, obf io.Reader) {
 			size := read32(bf)
 			logger.Infof("layout data element size=%d, number of elements=%d", size,
 				numberOfElements)
+			checkDataSize(layout, uint64(size), maxChunkSize)
 			if address != invalidAddress {
 				parent.btreeAddr = address
 				parent.chunkSize = uint64(size)
@@ -1863,6 +1874,7 @@ func (h5 *HDF5) readFillValue(bf io.Reader) []byte {
 		logger.Infof("zero length fill value")
 		return nil // zero-length, maybe they meant zero
 	}
+	assertError(int64(len) <= bf.(remReader).Rem(), ErrCorrupted, "fill value too long")
 	b := make([]byte, len)
 	read(bf, b)
 	logger.Infof("fill value=0x%x len=%d", b, len)
@@ -1999,6 +2011,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 				obj.fillValueOld = nil // there is no fill value
 				break
 			}
+			assertError(int64(sz) <= f.Rem(), ErrCorrupted, "old fill value too long")
 			fv := make([]byte, sz)
 			read(f, fv)
 			obj.fillValueOld = fv
@@ -2490,6 +2503,10 @@ func readAll(bf io.Reader, b []byte) (uint64, error) {
 
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	nBlocks := len(obj.dataBlocks)
+	if len(obj.objAttr.layout) == 0 && nBlocks > 0 {
+		// The data are in one piece.
+		checkDataSize(obj.objAttr.dimensions, uint64(obj.objAttr.length), obj.dataBlocks[0].dsLength)
+	}
 	size := uint64(calcAttrSize(obj.objAttr))
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
@@ -2721,6 +2738,21 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
+	assertError(len(attr.layout) == 0 || len(attr.layout) == len(attr.dimensions), ErrCorrupted,
+		"different number of dimensions in dataspace and layout")
+	rounded := make([]uint64, len(attr.dimensions)) // to whole chunks
+	for i, d := range attr.dimensions {
+		rounded[i] = d
+		if len(attr.layout) > 0 {
+			rounded[i] += attr.layout[i] - 1
+			assertError(rounded[i] >= d, ErrCorrupted, "dimension too large")
+			rounded[i] -= rounded[i] % attr.layout[i]
+		}
+		if i == 0 && attr.isSlice {
+			rounded[i] = uint64(attr.lastDim - attr.firstDim)
+		}
+	}
+	checkDataSize(rounded, uint64(attr.length), maxDataSize)
 	sz := calcAttrSize(obj.objAttr)
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
@@ -2774,9 +2806,27 @@ func getDataAttr(hr heapReader, c caster, bf io.Reader, attr attribute) any {
 		}
 		dimensions = nd
 	}
+	checkDataSize(dimensions, uint64(attr.length), uint64(max(bf.(remReader).Rem(), 0)))
 	return alloc(attr.class, hr, c, bf, &attr, dimensions)
 }
 
+// checkDataSize checks that data have no more bytes than they can have. That is also for the
+// dimensions of empty data, which aren't necessarily all zero.
+func checkDataSize(dimensions []uint64, length uint64, most uint64) {
+	size, outer := length, uint64(1)
+	for i := len(dimensions) - 1; i >= 0; i-- {
+		hi, lo := bits.Mul64(size, dimensions[i])
+		assertError(hi == 0, ErrCorrupted, "data too large")
+		size = lo
+	}
+	for _, d := range dimensions {
+		hi, lo := bits.Mul64(outer, max(d, 1))
+		assertError(hi == 0 && lo <= maxDataSize, ErrCorrupted, "data too large")
+		outer = lo
+	}
+	assertError(size <= most, ErrCorrupted, "data too large")
+}
+
 func (h5 *HDF5) cast(attr attribute) reflect.Type {
 	varName := "junk"
 	origNames := map[string]bool{varName: true}
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 347dc2a..20edfb7 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -190,7 +190,10 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 			s = make([]byte, attr.length)
 			bff = newResetReaderFromBytes(s)
 		} else {
-			bff, _ = hr.readGlobalHeap(addr, index)
+			var sz uint64
+			bff, sz = hr.readGlobalHeap(addr, index)
+			assertError(uint64(length)*uint64(attr.length) <= sz, ErrCorrupted,
+				"variable-length value too long")
 		}
 		var t reflect.Type
 		val0 = getDataAttr(hr, c, bff, attr)
-- 
2.43.0


From 697c8a9ce8eddae14a177cad0e3740aac1aebdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 69/90] fix: second attempt to read a damaged global heap finds
 part of the objects

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2984223..9a20d9d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1158,7 +1158,6 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 
 	// First visit: parse the entire collection and cache every object.
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
 
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
@@ -1196,6 +1195,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 			}
 		}
 	}
+	h5.heapCache[heapAddress] = cache
 
 	if data, ok := cache[index]; ok {
 		return newResetReaderFromBytes(data), uint64(len(data))
-- 
2.43.0


From 2ae39c0a06d40a53b1637192c2066a6804886945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 70/90] fix: blocks of damaged HDF5 files that refer to
 themselves are read without end

---
 netcdf/hdf5/hdf5.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9a20d9d..4df65e4 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -257,6 +257,7 @@ type object struct {
 	isGroup          bool
 	creationOrder    uint64
 	attrListIsSorted bool
+	continuations    map[uint64]bool // where the header continues
 }
 
 // Only the pointer is used here.  We don't actually use the value.
@@ -773,7 +774,10 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 	logger.Infof("done with name=%s", string(linkName))
 }
 
-func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32) {
+func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, recordSize uint16, depth uint16, nodeSize uint32,
+	seen map[uint64]bool) {
+	assertError(!seen[bta], ErrCorrupted, "node is in the tree more than once")
+	seen[bta] = true
 	nr := uint64(numRec) // should work
 	len := 4 + 2 + nr*uint64(recordSize)
 	sub := 0
@@ -813,10 +817,10 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		logger.Info("depth=", depth)
 		if depth == 1 {
 			logger.Info("Descend into leaf")
-			h5.readBTreeLeaf(parent, cnp, uint64(cnr), recordSize)
+			h5.readBTreeLeaf(parent, cnp, uint64(cnr), recordSize, seen)
 		} else {
 			logger.Info("Descend into node")
-			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize)
+			h5.readBTreeInternal(parent, cnp, uint64(cnr), recordSize, depth-1, nodeSize, seen)
 		}
 		if depth > 1 {
 			tnr := read16(bf) // total number of records in child node
@@ -925,7 +929,10 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 	}
 }
 
-func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordSize uint16) {
+func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordSize uint16,
+	seen map[uint64]bool) {
+	assertError(!seen[bta], ErrCorrupted, "node is in the tree more than once")
+	seen[bta] = true
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
@@ -954,13 +961,17 @@ func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize u
 
 func (h5 *HDF5) readBTreeNode(parent *object, bta uint64, dtSize uint64,
 	numberOfElements uint64, dimensionality uint8, firstOffset, lastOffset uint64) {
-	h5.readBTreeNodeAny(parent, bta, true /*isTop*/, dtSize, numberOfElements,
+	h5.readBTreeNodeAny(parent, bta, make(map[uint64]bool), dtSize, numberOfElements,
 		dimensionality, firstOffset, lastOffset)
 }
 
-func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
+// seen has the nodes that have been read, the top being the first.
+func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, seen map[uint64]bool,
 	dtSize uint64, numberOfElements uint64, dimensionality uint8,
 	firstOffset, lastOffset uint64) {
+	isTop := len(seen) == 0
+	assertError(!seen[bta], ErrCorrupted, "node is in the tree more than once")
+	seen[bta] = true
 	bf := h5.newSeek(bta, 24) // adjust later
 	checkMagic(bf, 4, "TREE")
 	nodeType := read8(bf)
@@ -1020,7 +1031,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		}
 
 		if nodeLevel > 0 {
-			h5.readBTreeNodeAny(parent, entries[i].addr, false /*not top*/, dtSize,
+			h5.readBTreeNodeAny(parent, entries[i].addr, seen, dtSize,
 				numberOfElements, dimensionality, firstOffset, lastOffset)
 			continue
 		}
@@ -1359,11 +1370,15 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
-	h5.readSymbolTableNode(parent, addr, heapAddr, -1)
+	h5.readSymbolTableNode(parent, addr, heapAddr, -1, make(map[uint64]bool))
 }
 
 // readSymbolTableNode reads a node of the given level (-1 for the top, whose level is not known).
-func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, level int) {
+// seen has the nodes that have been read.
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, level int,
+	seen map[uint64]bool) {
+	assertError(!seen[addr], ErrCorrupted, "node is in the tree more than once")
+	seen[addr] = true
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
@@ -1397,7 +1412,7 @@ func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64
 	logger.Infof("last key=%d", lastKey)
 	for _, v := range keyAddrs {
 		if nodeLevel > 0 {
-			h5.readSymbolTableNode(parent, v.addr, heapAddr, int(nodeLevel)-1)
+			h5.readSymbolTableNode(parent, v.addr, heapAddr, int(nodeLevel)-1, seen)
 			continue
 		}
 		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
@@ -1430,11 +1445,12 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	logger.Info("numRec=", numRec)
 
 	h5.checkChecksum(addr, 34)
+	seen := make(map[uint64]bool) // the nodes that have been read
 	// TODO: indirect blocks for leaf
 	if depth > 0 {
-		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize)
+		h5.readBTreeInternal(parent, rootNodeAddress, uint64(numRecRootNode), recordSize, depth, nodeSize, seen)
 	} else {
-		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRec), recordSize)
+		h5.readBTreeLeaf(parent, rootNodeAddress, uint64(numRec), recordSize, seen)
 	}
 }
 
@@ -2161,6 +2177,11 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	offset := read64(obf)
 	size := read64(obf)
 	logger.Infof("continuation offset=%08x length=%d", offset, size)
+	assertError(!obj.continuations[offset], ErrCorrupted, "header continues itself")
+	if obj.continuations == nil {
+		obj.continuations = make(map[uint64]bool)
+	}
+	obj.continuations[offset] = true
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
-- 
2.43.0


From 92746117881984bb40365fd33840a7ee9259765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 71/90] fix: damaged HDF5 metadata are used before their
 checksum is verified

---
 netcdf/hdf5/hdf5.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 4df65e4..431a9a2 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -787,6 +787,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
 	bf := h5.newSeek(bta, bsize)
 	checkMagic(bf, 4, "BTIN")
+	h5.checkChecksum(bta, int(bsize))
 	version := read8(bf)
 	checkVal(0, version, "version")
 	logger.Info("btin version=", version)
@@ -829,7 +830,6 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		}
 	}
 	checkVal(int64(len), bsize, "accounting problem")
-	h5.checkChecksum(bta, int(len))
 }
 
 func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
@@ -933,16 +933,17 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	seen map[uint64]bool) {
 	assertError(!seen[bta], ErrCorrupted, "node is in the tree more than once")
 	seen[bta] = true
+	assertError(numRec <= uint64(h5.fileSize), ErrCorrupted, "bad number of records")
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
+	h5.checkChecksum(bta, nbytes)
 	version := read8(bf)
 	logger.Info("btlf version=", version)
 	ty := read8(bf)
 	logger.Info("bt type=", ty)
 	h5.readRecords(parent, bf, numRec, ty)
 	logger.Infof("leaf node size=%d", nbytes)
-	h5.checkChecksum(bta, nbytes)
 }
 
 func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
@@ -1061,6 +1062,7 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	bSize := 4 + 1 + 8 + int64(link.maxHeapSize/8) + int64(nrows*width*8) + 4
 	bf := h5.newSeek(bta, bSize)
 	checkMagic(bf, 4, "FHIB")
+	h5.checkChecksum(bta, int(bSize)-4)
 	version := read8(bf)
 	logger.Info("heap root block version=", version)
 	checkVal(0, version, "heap root block version must be zero")
@@ -1115,7 +1117,6 @@ func (h5 *HDF5) readRootBlock(link *linkInfo, bta uint64, nrows uint16) {
 	}
 	link.block = addrs   // direct blocks
 	link.iBlock = iAddrs // indirect blocks
-	h5.checkChecksum(bta, int(bSize)-4)
 }
 
 func checkVal(expected, actual any, comment string) {
@@ -1217,6 +1218,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 func (h5 *HDF5) readHeap(link *linkInfo) {
 	bf := h5.newSeek(link.heapAddress, 144)
 	checkMagic(bf, 4, "FRHP")
+	h5.checkChecksum(link.heapAddress, 142)
 	version := read8(bf)
 	logger.Info("fractal heap version=", version)
 	heapIDLen := read16(bf)
@@ -1275,7 +1277,6 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	logger.Infof("root block address=0x%x", rootBlockAddress)
 	rowsRootIndirect := read16(bf)
 	logger.Infof("rows in root indirect block=%d", rowsRootIndirect)
-	h5.checkChecksum(link.heapAddress, 142)
 	if rowsRootIndirect > 0 {
 		logger.Info("Reading indirect heap block")
 		h5.readRootBlock(link, rootBlockAddress, rowsRootIndirect)
@@ -1422,6 +1423,7 @@ func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64
 func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	bf := h5.newSeek(addr, 36)
 	checkMagic(bf, 4, "BTHD")
+	h5.checkChecksum(addr, 34)
 	version := read8(bf)
 	logger.Info("btree version=", version)
 	checkVal(0, version, "bthd version must be zero")
@@ -1444,7 +1446,6 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 	numRec := read64(bf)
 	logger.Info("numRec=", numRec)
 
-	h5.checkChecksum(addr, 34)
 	seen := make(map[uint64]bool) // the nodes that have been read
 	// TODO: indirect blocks for leaf
 	if depth > 0 {
@@ -2182,11 +2183,14 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 		obj.continuations = make(map[uint64]bool)
 	}
 	obj.continuations[offset] = true
+	assertError(size <= uint64(h5.fileSize), ErrCorrupted, "bad size of continuation")
 	bf := h5.newSeek(offset, int64(size))
 	chunkSize := size
 	start := 0
 	if version > 1 {
 		checkMagic(bf, 4, "OCHK")
+		assertError(size >= 8, ErrCorrupted, "continuation too short")
+		h5.checkChecksum(offset, int(size)-4)
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
 	}
@@ -2205,7 +2209,6 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 			}
 			checkZeroes(bf, int(gap))
 		}
-		h5.checkChecksum(offset, int(size)-4)
 	}
 }
 
@@ -2294,6 +2297,10 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(bf.Rem() == 0, "should use all bytes")
 	bf = h5.newSeek(addr, int64(chunkSize)+bf.Rem())
 
+	// Damaged fields must not be used.
+	assertError(chunkSize <= uint64(h5.fileSize), ErrCorrupted, "bad size of header")
+	h5.checkChecksum(origAddr, int(addr+chunkSize-origAddr))
+
 	// Read fields that object header and continuation blocks have in common
 	logger.Info("size of chunk=", chunkSize)
 	obj.children = make(map[string]*object)
@@ -2303,10 +2310,6 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(used == int64(chunkSize),
 		fmt.Sprintf("readCommon should read %d bytes, read %d, delta %d",
 			chunkSize, used, int64(chunkSize)-used))
-	addr += chunkSize
-
-	// Finally, compute the checksum
-	h5.checkChecksum(origAddr, int(addr-origAddr))
 	logger.Infof("obj %s at addr 0x%x\n", obj.name, origAddr)
 }
 
-- 
2.43.0


From 11be7b6ea5ede53539562a069546874033d3f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 72/90] fix: checksums of the direct blocks of HDF5 fractal
 heaps aren't verified

---
 netcdf/hdf5/hdf5.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 431a9a2..9bdc310 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -236,6 +236,8 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	hasChecksums     bool            // true if the direct blocks have checksums
+	checked          map[uint64]bool // the direct blocks whose checksums have been verified
 }
 
 type object struct {
@@ -637,6 +639,28 @@ func (h5 *HDF5) readAttribute(obj *object, obf io.Reader, creationOrder uint64)
 	obj.attrlist = append(obj.attrlist, attr)
 }
 
+// checkDirectBlock verifies the checksum of a direct block of a fractal heap, if it has one.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, blockSize uint64) {
+	if !link.hasChecksums || link.checked[addr] {
+		return
+	}
+	// The checksum follows the signature, the version, the address of the heap header, and the
+	// offset of the block in the heap.
+	sumOffset := uint64(4 + 1 + 8 + link.maxHeapSize/8)
+	assert(blockSize >= sumOffset+4 && blockSize <= uint64(h5.fileSize), "bad direct block size")
+	bf := h5.newSeek(addr, int64(blockSize))
+	checkMagic(bf, 4, "FHDB")
+	block := make([]byte, blockSize)
+	copy(block, "FHDB")
+	read(bf, block[4:])
+	// It's the checksum of the block with zero in the checksum's place.
+	sumBytes := block[sumOffset : sumOffset+4]
+	sum := binary.LittleEndian.Uint32(sumBytes)
+	clear(sumBytes)
+	assert(checksum(block) == sum, "checksum mismatch")
+	link.checked[addr] = true
+}
+
 type doublerCallback func(obj *object, bnum uint64, offset uint64, length uint16,
 	creationOrder uint64)
 
@@ -663,6 +687,7 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -1228,7 +1253,9 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	link.hasChecksums = hasFlag8(flags, 1)
+	link.checked = make(map[uint64]bool)
+	if !link.hasChecksums {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
-- 
2.43.0


From f2ac6e74366574881b401066387c6d7c5c81c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 73/90] fix: dimensions of damaged HDF5 files are given as
 negative lengths

---
 netcdf/hdf5/hdf5.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9bdc310..81e3808 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1626,6 +1626,7 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 	for i := range int(d) {
 		sz := read64(bf)
 		logger.Infof("dataspace dimension %d/%d size=%d", i, d, sz)
+		assertError(sz <= math.MaxInt64, ErrCorrupted, "dimension is too large")
 		ret[i] = sz
 		count *= int64(sz)
 	}
-- 
2.43.0


From 8ce4bdb3d6d9e960d9edc460fc063c3e22350676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 74/90] fix: a file isn't recognised when its reader first
 returns no data

---
 netcdf/netcdf4.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/netcdf4.go b/netcdf/netcdf4.go
index 9b740bc..9bf4c0f 100644
--- a/netcdf/netcdf4.go
+++ b/netcdf/netcdf4.go
@@ -74,8 +74,8 @@ func getKind(file io.ReadSeeker) (byte, error) {
 		return 0, err
 	}
 	var b [1]byte
-	n, err := file.Read(b[:])
-	if n == 0 {
+	_, err = io.ReadFull(file, b[:])
+	if err != nil {
 		return 0, err
 	}
 	_, err = file.Seek(0, io.SeekStart)
-- 
2.43.0


From 8dc2b98d823a5b8350861fa70f560c37e14e0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:22 +0000
Subject: [PATCH 75/90] fix: HDF5 files can't be read from readers that return
 data in pieces or together with io.EOF

---
 netcdf/hdf5/readers.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index b334bc5..03fe4fd 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -214,9 +214,8 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 	n, err := f.rcFile.file.Read(p[:thisLen])
 	if err != nil {
 		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
 	}
-	// Save position
+	// Save position. There can be data even with an error.
 	f.seekPointer += int64(n)
 	// Return read results
 	return n, err
@@ -232,7 +231,16 @@ func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
 		return 0, err
 	}
 	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
+	n := 0
+	var retErr error
+	for n < len(b) && retErr == nil {
+		var thisLen int
+		thisLen, retErr = f.readNoLock(b[n:])
+		n += thisLen
+	}
+	if n == len(b) {
+		retErr = nil
+	}
 	f.seekPointer = save
 	return n, retErr
 }
-- 
2.43.0


From 6c7fecc1999e41d1f21689958a405f245603e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 76/90] fix: errors reading shuffled HDF5 data are ignored and
 zeros returned

---
 netcdf/hdf5/hdf5.go    | 20 --------------------
 netcdf/hdf5/readers.go |  8 +++-----
 2 files changed, 3 insertions(+), 25 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 81e3808..c49ef9b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2533,26 +2533,6 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
-		}
-	}
-	return tot, nil
-}
-
 func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	nBlocks := len(obj.dataBlocks)
 	if len(obj.objAttr.layout) == 0 && nBlocks > 0 {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 03fe4fd..59b3355 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -314,11 +314,9 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	var err error
 	if r.b == nil {
 		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
-		if err != nil {
-			assert(err == io.EOF, err.Error())
-		}
+		_, err := io.ReadFull(r.r, r.b)
+		thrower.ThrowIfError(err)
+		unshuffle(r.b, r.shuffleParam)
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
-- 
2.43.0


From 0bee23ec270a1d8c6d0a62bc3c971b6fd23869a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 77/90] fix: an HDF5 attribute that couldn't be read is later
 read as something else

---
 netcdf/hdf5/hdf5.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c49ef9b..357a27c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3203,7 +3203,7 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 
 func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
+		df := makeFillValueReader(obj, a.data(), int64(calcAttrSize(a)))
 		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
 		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
 		save := h5.registrations
@@ -3211,12 +3211,21 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
 			h5.registrations = nil
 		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
+		defer func() { h5.registrations = save }()
+		a.value = getDataAttr(h5, h5, df, *a)
 		a.df = nil
-		h5.registrations = save
 	}
 }
 
+// data returns a reader of all the data of an attribute. It may have been read before,
+// without success.
+func (a *attribute) data() io.Reader {
+	if r, ok := a.df.(*resetReader); ok && r.bytes != nil {
+		return newResetReaderFromBytes(r.bytes)
+	}
+	return a.df
+}
+
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
 	keys := []string{}
@@ -3228,13 +3237,14 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
 			if val.value == nil {
-				if val.df == nil {
+				df := val.data()
+				if df == nil {
 					logger.Info("Need fill value reader", val.name)
 					fakeObj := newObject()
 					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
+					df = makeFillValueReader(fakeObj, nil, int64(sz))
 				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
+				val.value = getDataAttr(h5, h5, df, *val)
 			}
 			value := undoScalarAttribute(val.value)
 			if _, has := filtered[val.name]; !has {
-- 
2.43.0


From 6858fde31ac84432465c0094836fcabf7ea2a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:38 +0000
Subject: [PATCH 78/90] fix: damage of compressed HDF5 data isn't detected

---
 netcdf/hdf5/hdf5.go    |  4 +---
 netcdf/hdf5/readers.go | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 357a27c..be02c94 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2646,9 +2646,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				if err != nil {
 					failError(ErrUnknownCompression, fmt.Sprintf("unknown compression: %v", err))
 				}
-				// If there are more filters, we don't know the size yet.
-				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
+				bf = newInflateReader(zbf, targetSize[j])
 				inputSize = targetSize[j]
 				canSeek = false
 			case filterShuffle:
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 59b3355..a17d750 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -53,6 +53,14 @@ type unshuffleReader struct {
 	shuffleParam uint32
 }
 
+// inflater decompresses all the data before any of it is returned, because the
+// checksum is at the end.
+type inflater struct {
+	r    io.Reader
+	size uint64
+	data *bytes.Reader // what has not been returned yet, nil before the check
+}
+
 // fletcher checks all the data before any of it is returned.
 type fletcher struct {
 	r     io.Reader
@@ -124,6 +132,22 @@ func fletcher32(data []byte) uint32 {
 	return sum2<<16 | sum1
 }
 
+// newInflateReader creates a reader of the decompressed data of r, which must be of the given size.
+func newInflateReader(r io.Reader, size uint64) remReader {
+	return newResetReader(&inflater{r, size, nil}, int64(size))
+}
+
+func (z *inflater) Read(p []byte) (int, error) {
+	if z.data == nil {
+		// One more byte, so that the end of the compressed data is seen.
+		data, err := io.ReadAll(io.LimitReader(z.r, int64(z.size)+1))
+		thrower.ThrowIfError(err)
+		assertError(uint64(len(data)) == z.size, ErrCorrupted, "wrong size of compressed data")
+		z.data = bytes.NewReader(data)
+	}
+	return z.data.Read(p)
+}
+
 func (r *resetReader) Rem() int64 {
 	return r.lr.N
 }
-- 
2.43.0


From edcd16d27d614beb436b419854683839c2bf9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 79/90] fix: describing a type takes forever when there are
 more than a few named ones

---
 netcdf/hdf5/array.go    |  4 ++--
 netcdf/hdf5/compound.go |  4 ++--
 netcdf/hdf5/enum.go     |  4 ++--
 netcdf/hdf5/hdf5.go     | 15 +++++++++++----
 netcdf/hdf5/opaque.go   |  4 ++--
 netcdf/hdf5/types.go    |  2 +-
 netcdf/hdf5/vlen.go     |  4 ++--
 7 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index beb2359..ed8382e 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -24,7 +24,7 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
@@ -39,7 +39,7 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index c72576c..b1134b2 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -42,7 +42,7 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -60,7 +60,7 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index f064c95..edff8a5 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -33,7 +33,7 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -56,7 +56,7 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index be02c94..4d24ff9 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3173,10 +3173,19 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return 0, false
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+// unnamed is a sigHelper that knows no named types, so that types are described in full.
+type unnamed struct{}
+
+func (unnamed) findSignature(*attribute, string, map[string]bool, printerType) string {
+	return ""
+}
+
+// findSignature returns the name of a type that has the same description as the given one.
+func (h5 *HDF5) findSignature(attr *attribute, name string, origNames map[string]bool, printer printerType) string {
 	if h5.groupObject == nil {
 		return ""
 	}
+	signature := printer(attr.class, unnamed{}, name, attr, origNames)
 	for _, obj := range h5.groupObject.sortChildren() {
 		varName := obj.name
 		if obj.isGroup || origNames[varName] {
@@ -3189,9 +3198,7 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 			// this is a variable
 			continue
 		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
+		sig := printer(obj.objAttr.class, unnamed{}, name, obj.objAttr, origNames)
 		if sig != "" && sig == signature {
 			return obj.name
 		}
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index e9775e5..b00bddb 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -17,7 +17,7 @@ var (
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -26,7 +26,7 @@ func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribut
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..e26355f 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -27,7 +27,7 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
+	findSignature(attr *attribute, name string, origNames map[string]bool,
 		printer printerType) string
 }
 
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 20edfb7..9d5c0fd 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -24,7 +24,7 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, name, origNames, cdlTypeString)
 	if namedType != "" {
 		return namedType
 	}
@@ -40,7 +40,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, typeName, origNames, goTypeString)
 	if namedType != "" {
 		return namedType
 	}
-- 
2.43.0


From 70ac9f6a1f1831f9929a4c495fed3735e633df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:49 +0000
Subject: [PATCH 80/90] fix: a named type is described by the name of another
 that is the same

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 4d24ff9..0c57d58 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3185,6 +3185,10 @@ func (h5 *HDF5) findSignature(attr *attribute, name string, origNames map[string
 	if h5.groupObject == nil {
 		return ""
 	}
+	if own := h5.groupObject.children[name]; own != nil && own.objAttr == attr && attr.dimensions == nil {
+		// This is the type that is described, which has no other name.
+		return ""
+	}
 	signature := printer(attr.class, unnamed{}, name, attr, origNames)
 	for _, obj := range h5.groupObject.sortChildren() {
 		varName := obj.name
-- 
2.43.0


From cab0ea9ab2b63947267ef2f058693923cd95be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:55 +0000
Subject: [PATCH 81/90] fix: compounds of 65536 bytes or more can't be read
 when described by version 3

---
 netcdf/hdf5/hdf5.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0c57d58..2b537b7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -336,6 +336,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := read16(r)
+		return uint64(read8(r))<<16 | uint64(low)
 	case 4:
 		return uint64(read32(r))
 	case 8:
-- 
2.43.0


From 63791c67b8851137bf143e0dddbb136c15f15d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:01 +0000
Subject: [PATCH 82/90] fix: empty variable-length lists of compound or opaque
 values are read as another type

---
 netcdf/hdf5/hdf5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2b537b7..2289a48 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3589,8 +3589,8 @@ func emptySlice(v any) reflect.Value {
 	top := reflect.ValueOf(v)
 	elemType := top.Type().Elem()
 	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
+	// count how many slices we need to make, without the named ones (compound, opaque)
+	for elemType.Kind() == reflect.Slice && elemType.Name() == "" {
 		elemType = elemType.Elem()
 		slices++
 	}
-- 
2.43.0


From 258e50da3513be3407bb577dab870123bda16a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:06 +0000
Subject: [PATCH 83/90] fix: HDF5 writer failed on, or garbled, values of
 user-defined types read from other files

---
 netcdf/hdf5/hdf5writer.go   | 305 ++++++++++--------------------------
 netcdf/hdf5/writer_utils.go | 178 +++++++++++----------
 2 files changed, 184 insertions(+), 299 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index af44a09..80bc1cc 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -54,6 +54,13 @@ func (g *h5Group) hasName(name string) bool {
 	return has
 }
 
+// h5HeapRef is a reference from inside of one object in the global heap to another.
+type h5HeapRef struct {
+	from   uint32 // heap index of the object which has the reference
+	offset int    // where the reference is in that object
+	to     uint32 // heap index of the object which is referred to
+}
+
 type h5GlobalHeap struct {
 	objects [][]byte
 	addrs   []uint64          // address of the collection each object is in
@@ -61,6 +68,8 @@ type h5GlobalHeap struct {
 	offsets []int             // where each object is in the buffer
 	indices map[string]uint32 // string → heap index
 	dimRefs map[string]uint32 // dimension name → heap index of the reference to it
+	unset   []h5HeapRef       // references in the object being serialized, to set later
+	refs    []h5HeapRef       // references to set once the objects are written
 }
 
 type h5Message struct {
@@ -724,84 +733,39 @@ func (hw *HDF5Writer) addStringToHeap(s string) {
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 	for _, v := range g.vars {
-		nDims := len(v.dimensions)
-		rv := reflect.ValueOf(v.val)
-		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-			rv = rv.Elem()
-		}
-		// Check if this variable has vlen data (more nesting than declared dims)
-		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
-		}
+		hw.collectVlen(reflect.ValueOf(v.val), len(v.dimensions), &v.vlenHeapIndices)
 	}
 	for _, sub := range g.groups {
 		hw.collectVlenData(sub)
 	}
 }
 
-// hasVlenData checks if a value has more nesting levels than nDims,
-// meaning it contains vlen data.
-func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.hasVlenData(reflect.ValueOf(e.values), nDims)
-	}
-	for range nDims {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			return false
-		}
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return false
-		}
-		if rv.Len() == 0 {
-			// Check type: if element type is still a slice, it's vlen
-			elemType := rv.Type().Elem()
-			return elemType.Kind() == reflect.Slice &&
-				elemType != reflect.TypeOf(compound{}) &&
-				elemType != reflect.TypeOf(opaque{})
-		}
-		rv = rv.Index(0)
-	}
-	// After consuming nDims, check if there's still a slice (= vlen)
-	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
-		return true
+// collectVlen walks through the array dimensions and the fields of compounds, and
+// serializes each vlen element into the global heap.
+func (hw *HDF5Writer) collectVlen(rv reflect.Value, dimsLeft int, indices *[]uint32) {
+	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
+		rv = rv.Elem()
 	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
+	switch v := rv.Interface().(type) {
+	case compound:
+		for _, f := range v {
+			hw.collectVlen(reflect.ValueOf(f.Val), 0, indices)
 		}
-	}
-	return false
-}
-
-// collectVlenElements walks through the array dimensions and serializes
-// each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
+		return
+	case opaque, enumerated:
 		return
 	}
-	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
-		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
-		}
+	if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
 		return
 	}
-	// At the vlen level: serialize this element's data
-	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
+	if dimsLeft <= 0 {
+		hw.serializeVlen(rv, indices)
 		return
 	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
+	switch rv.Type().Elem().Kind() {
+	case reflect.Slice, reflect.Array:
+		for i := range rv.Len() {
+			hw.collectVlen(rv.Index(i), dimsLeft-1, indices)
 		}
 	}
 }
@@ -814,7 +778,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
 				var indices []uint32
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+				_, nDims := hw.getAttributeDimensions(val)
+				hw.collectVlen(reflect.ValueOf(val), nDims, &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
 						v.attrVlenIndices = make(map[string][]uint32)
@@ -828,7 +793,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
 			var indices []uint32
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+			_, nDims := hw.getAttributeDimensions(val)
+			hw.collectVlen(reflect.ValueOf(val), nDims, &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
 					g.attrVlenIndices = make(map[string][]uint32)
@@ -842,83 +808,27 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	}
 }
 
-// collectVlenFromValue recursively walks a value and serializes any vlen
-// elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-
-	switch v := rv.Interface().(type) {
-	case compound:
-		for _, f := range v {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice &&
-				frv.Type() != reflect.TypeOf(compound{}) &&
-				frv.Type() != reflect.TypeOf(opaque{}) {
-				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
-			} else {
-				hw.collectVlenFromValue(frv, indices)
-			}
-		}
-		return
-	case opaque:
-		return
-	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
-		return
-	}
-
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
-		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
-		}
-		// Regular array: recurse into elements
-		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
-		}
+// serializeVlen serializes a single vlen slice and adds it to the heap.
+func (hw *HDF5Writer) serializeVlen(rv reflect.Value, indices *[]uint32) {
+	// The vlen data inside of it goes first.
+	var inner []uint32
+	for i := range rv.Len() {
+		hw.collectVlen(rv.Index(i), 0, &inner)
 	}
-}
-
-// serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+	hw.vlenHeapIndices = inner
+	hw.vlenPos = 0
+	hw.heap.unset = nil
 	buf := new(bytes.Buffer)
 	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
+		hw.writeElement(buf, rv.Index(i).Interface())
+	}
+	hw.heap.objects = append(hw.heap.objects, buf.Bytes())
+	idx := uint32(len(hw.heap.objects))
+	for _, ref := range hw.heap.unset {
+		ref.from = idx
+		hw.heap.refs = append(hw.heap.refs, ref)
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	*indices = append(*indices, idx)
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -931,60 +841,33 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	if e, ok := rv.Interface().(enumerated); ok {
 		return hw.getAttributeDimensions(e.values)
 	}
-	var dims []uint64
-	nDims := 0
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			break
-		}
-		dims = append(dims, uint64(rv.Len()))
-		nDims++
-		if rv.Len() == 0 {
+	shape := getDimensionsRecursive(rv)
+	nDims := len(shape)
+	t := rv.Type()
+	for i := range shape {
+		t = t.Elem()
+		if t == reflect.TypeOf(enumerated{}) {
+			// Arrays of enumerated have the slice inside, so this is vlen.
+			nDims = i
 			break
 		}
-		// Check if inner elements have varying lengths (= vlen boundary)
-		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
-			firstLen := rv.Index(0).Len()
-			isVlen := false
-			for i := 1; i < rv.Len(); i++ {
-				if rv.Index(i).Len() != firstLen {
-					isVlen = true
-					break
-				}
-			}
-			if isVlen {
-				break
-			}
-		}
-		rv = rv.Index(0)
 	}
-	return dims, nDims
-}
-
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
+	for nDims > 1 && !isRectangular(rv, shape[:nDims]) {
+		nDims--
 	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
+	return shape[:nDims], nDims
 }
 
 // writeHeapReference writes where in the global heap an object is.
 func (hw *HDF5Writer) writeHeapReference(buf *bytes.Buffer, length int, idx uint32) {
 	util.MustWriteLE(buf, uint32(length))
+	if int(idx) > len(hw.heap.addrs) {
+		// It hasn't been written yet.
+		hw.heap.unset = append(hw.heap.unset, h5HeapRef{offset: buf.Len(), to: idx})
+		util.MustWriteLE(buf, uint64(0))
+		util.MustWriteLE(buf, uint32(0))
+		return
+	}
 	util.MustWriteLE(buf, hw.heap.addrs[idx-1])
 	util.MustWriteLE(buf, hw.heap.ids[idx-1])
 }
@@ -997,6 +880,13 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	for objects := range slices.Chunk(hw.heap.objects[len(hw.heap.addrs):], maxObjects) {
 		hw.writeHeapCollection(objects)
 	}
+	data := hw.buf.Bytes()
+	for _, ref := range hw.heap.refs {
+		at := data[hw.heap.offsets[ref.from-1]+ref.offset:]
+		binary.LittleEndian.PutUint64(at, hw.heap.addrs[ref.to-1])
+		binary.LittleEndian.PutUint32(at[8:], hw.heap.ids[ref.to-1])
+	}
+	hw.heap.refs = nil
 }
 
 func (hw *HDF5Writer) writeHeapCollection(objects [][]byte) {
@@ -1118,7 +1008,7 @@ func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
 	if attrs != nil {
 		for _, k := range attrs.Keys() {
 			v, _ := attrs.Get(k)
-			if !isSupportedAttribute(v) {
+			if !isSupportedType(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1140,7 +1030,7 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
-			if !isSupportedAttribute(v) {
+			if !isSupportedType(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1201,7 +1091,7 @@ func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
 	if attrs != nil {
 		for _, k := range attrs.Keys() {
 			v, _ := attrs.Get(k)
-			if !isSupportedAttribute(v) {
+			if !isSupportedType(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1223,7 +1113,7 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
-			if !isSupportedAttribute(v) {
+			if !isSupportedType(v) {
 				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 			}
 		}
@@ -1317,20 +1207,6 @@ func isSupportedType(val any) bool {
 	return false
 }
 
-// isSupportedAttribute checks that the attribute has a supported type, and is
-// rectangular or a list of variable-length data.
-func isSupportedAttribute(val any) bool {
-	if !isSupportedType(val) {
-		return false
-	}
-	if e, ok := val.(enumerated); ok {
-		val = e.values
-	}
-	rv := reflect.ValueOf(val)
-	shape := getDimensionsRecursive(rv)
-	return len(shape) == 2 || isRectangular(rv, shape)
-}
-
 // isSupportedElemType checks whether a reflect.Type (which may be a slice
 // element type from an empty slice) eventually resolves to a supported leaf.
 func isSupportedElemType(t reflect.Type) bool {
@@ -1395,27 +1271,18 @@ func hasShape(val any, dimNames []string) bool {
 		isDeepEnough(rv.Type(), len(dimNames))
 }
 
-// isDeepEnough checks that there is no more below nDims dimensions than
-// variable-length data, which is one slice.
+// isDeepEnough checks that all there is below nDims dimensions is variable-length data.
 func isDeepEnough(t reflect.Type, nDims int) bool {
-	isNested := func() bool {
-		return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) &&
-			t != reflect.TypeOf(compound{}) && t != reflect.TypeOf(opaque{})
-	}
-	for range nDims {
-		if !isNested() {
-			return true
+	for depth := 0; t.Kind() == reflect.Slice || t.Kind() == reflect.Array; depth++ {
+		if t == reflect.TypeOf(compound{}) || t == reflect.TypeOf(opaque{}) {
+			break
+		}
+		if depth >= nDims && t.Kind() == reflect.Array {
+			return false
 		}
 		t = t.Elem()
 	}
-	if !isNested() {
-		return true
-	}
-	if t.Kind() == reflect.Array {
-		return false
-	}
-	t = t.Elem()
-	return !isNested()
+	return true
 }
 
 func isRectangular(rv reflect.Value, shape []uint64) bool {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 859454a..2486937 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -136,7 +136,11 @@ func calcFieldSize(val any) int {
 				rv = reflect.Zero(rv.Type().Elem())
 			}
 		}
-		return calcFieldSize(rv.Interface())
+		size := calcFieldSize(rv.Interface())
+		for _, d := range getDimensionsRecursive(reflect.ValueOf(v.values)) {
+			size *= int(d)
+		}
+		return size
 	}
 	// Slice = vlen descriptor
 	rv := reflect.ValueOf(val)
@@ -147,34 +151,83 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
-// writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
+// writeEnc writes a 1, 2, 3, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
 	case totalSize < 256:
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
 }
 
-// navigateToFirst descends through slice levels to reach the first element
-// at the given depth. Returns a zero value if any slice along the way is empty.
-func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
+// elementsAt descends through slice levels and returns all of the elements
+// at the given depth.
+func elementsAt(rv reflect.Value, depth int) []reflect.Value {
+	if depth <= 0 {
+		return []reflect.Value{rv}
 	}
-	for range depth {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			break
+	var elems []reflect.Value
+	for i := range rv.Len() {
+		elems = append(elems, elementsAt(rv.Index(i), depth-1)...)
+	}
+	return elems
+}
+
+// buildElementDatatype builds the datatype of what is in compounds and
+// variable-length data, given its Go type and all of the values it has.
+// Some of these can be needed to know the type, others can be empty.
+func (hw *HDF5Writer) buildElementDatatype(t reflect.Type, elems []reflect.Value) []byte {
+	switch t {
+	case reflect.TypeOf(compound{}):
+		vals := make([]compound, len(elems))
+		for i := range elems {
+			vals[i] = elems[i].Interface().(compound)
+		}
+		return hw.buildCompoundDatatype(vals)
+	case reflect.TypeOf(opaque{}):
+		if len(elems) == 0 {
+			return buildOpaqueDatatype(1) // the size doesn't matter
 		}
-		if rv.Len() == 0 {
-			return reflect.Zero(rv.Type().Elem())
+		return buildOpaqueDatatype(elems[0].Len())
+	case reflect.TypeOf(enumerated{}):
+		if len(elems) == 0 {
+			// The names don't matter.
+			return hw.buildEnumDatatype(enumerated{int8(0), []string{"_"}, []any{int8(0)}})
 		}
-		rv = rv.Index(0)
+		e := elems[0].Interface().(enumerated)
+		dt := hw.buildEnumDatatype(e)
+		if dims := getDimensionsRecursive(reflect.ValueOf(e.values)); len(dims) > 0 {
+			return buildArrayDatatype(calcFieldSize(e), dims, dt)
+		}
+		return dt
+	}
+	if t.Kind() == reflect.String {
+		// Strings in compounds and variable-length data are always vlen
+		return hw.buildVLenStringDatatype()
+	}
+	if t.Kind() == reflect.Slice {
+		return hw.buildVlenSequenceDatatype(t, elems)
+	}
+	return hw.buildDatatypeMessage(reflect.Zero(t).Interface(), 0)
+}
+
+func buildArrayDatatype(size int, dims []uint64, base []byte) []byte {
+	buf := new(bytes.Buffer)
+	util.MustWriteByte(buf, 0x3a) // version 3, class 10 (array)
+	util.MustWriteRaw(buf, []byte{0, 0, 0})
+	util.MustWriteLE(buf, uint32(size))
+	util.MustWriteByte(buf, byte(len(dims)))
+	for _, d := range dims {
+		util.MustWriteLE(buf, uint32(d))
 	}
-	return rv
+	util.MustWriteRaw(buf, base)
+	return buf.Bytes()
 }
 
 func buildOpaqueDatatype(size int) []byte {
@@ -187,8 +240,13 @@ func buildOpaqueDatatype(size int) []byte {
 	return buf.Bytes()
 }
 
-func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
+func (hw *HDF5Writer) buildCompoundDatatype(vals []compound) []byte {
 	buf := new(bytes.Buffer)
+	if len(vals) == 0 {
+		// The members don't matter.
+		vals = []compound{{{Name: "_", Val: int8(0)}}}
+	}
+	val := vals[0]
 
 	// Compute total compound size
 	totalSize := 0
@@ -206,20 +264,17 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 
 	// Members
 	offset := uint32(0)
-	for _, f := range val {
+	for i, f := range val {
 		// Name (null-terminated, no padding for version 3)
 		util.MustWriteRaw(buf, append([]byte(f.Name), 0))
 		// Byte offset (encoded)
 		writeEnc(buf, offset, uint32(totalSize))
 		// Member datatype
-		var dt []byte
-		if _, ok := f.Val.(string); ok {
-			// Strings in compounds are always vlen
-			dt = hw.buildVLenStringDatatype()
-		} else {
-			// For compound members, nDims=0: any remaining slice is vlen
-			dt = hw.buildDatatypeMessage(f.Val, 0)
+		members := make([]reflect.Value, len(vals))
+		for j := range vals {
+			members[j] = reflect.ValueOf(vals[j][i].Val)
 		}
+		dt := hw.buildElementDatatype(reflect.TypeOf(f.Val), members)
 		util.MustWriteRaw(buf, dt)
 		offset += uint32(calcFieldSize(f.Val))
 	}
@@ -287,7 +342,7 @@ func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
 	return buf.Bytes()
 }
 
-func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
+func (hw *HDF5Writer) buildVlenSequenceDatatype(t reflect.Type, seqs []reflect.Value) []byte {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x19) // version 1, class 9
 	util.MustWriteByte(buf, 0x00) // type=0 (sequence), padding=0, cset=0
@@ -295,20 +350,11 @@ func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
 	util.MustWriteByte(buf, 0x00)
 	util.MustWriteLE(buf, uint32(16)) // vlen descriptor size
 
-	// Build element datatype: all nesting within the element is array dimensions
-	var elemVal any
-	if rv.Len() > 0 {
-		elemVal = rv.Index(0).Interface()
-	} else {
-		elemVal = reflect.Zero(rv.Type().Elem()).Interface()
+	var elems []reflect.Value
+	for _, seq := range seqs {
+		elems = append(elems, elementsAt(seq, 1)...)
 	}
-	elemRv := reflect.ValueOf(elemVal)
-	for elemRv.Kind() == reflect.Pointer || elemRv.Kind() == reflect.Interface {
-		elemRv = elemRv.Elem()
-	}
-	allDims := getDimensionsRecursive(elemRv)
-	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
-	util.MustWriteRaw(buf, elemDt)
+	util.MustWriteRaw(buf, hw.buildElementDatatype(t.Elem(), elems))
 	return buf.Bytes()
 }
 
@@ -412,33 +458,21 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 // writeCompoundValue writes all fields of a compound value.
 func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 	for _, f := range val {
-		switch v := f.Val.(type) {
-		case int8, uint8, int16, uint16, int32, uint32, int64, uint64, float32, float64:
-			util.MustWrite(buf, hw.byteOrder, v)
-		case string:
-			// Vlen string descriptor
-			idx := hw.heap.indices[v]
-			hw.writeHeapReference(buf, len(v), idx)
-		case compound:
-			hw.writeCompoundValue(buf, v)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(v))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, v.values)
-		default:
-			// Vlen sequence descriptor
-			rv := reflect.ValueOf(v)
-			if rv.Kind() == reflect.Slice {
-				idx := hw.vlenHeapIndices[hw.vlenPos]
-				hw.writeHeapReference(buf, rv.Len(), idx)
-				hw.vlenPos++
-			} else {
-				thrower.Throw(ErrUnsupportedType)
-			}
-		}
+		hw.writeElement(buf, f.Val)
 	}
 }
 
+// writeElement writes a value which is in a compound or in variable-length data.
+func (hw *HDF5Writer) writeElement(buf *bytes.Buffer, val any) {
+	if e, ok := val.(enumerated); ok {
+		// These can be arrays
+		rv := reflect.ValueOf(e.values)
+		hw.writeAttributeDataRecursive(buf, rv, 0, len(getDimensionsRecursive(rv)))
+		return
+	}
+	hw.writeAttributeDataRecursive(buf, reflect.ValueOf(val), 0, 0)
+}
+
 func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 	// Handle enumerated (struct wrapper) at top level
 	if e, ok := val.(enumerated); ok {
@@ -462,25 +496,9 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 		dimsStripped++
 	}
 
-	// Check for special types at element level
-	if t == reflect.TypeOf(enumerated{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildEnumDatatype(elem.Interface().(enumerated))
-	}
-	if t == reflect.TypeOf(compound{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildCompoundDatatype(elem.Interface().(compound))
-	}
-	if t == reflect.TypeOf(opaque{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		o := elem.Interface().(opaque)
-		return buildOpaqueDatatype(len(o))
-	}
-
-	// If still a slice after consuming declared dims, it's vlen
-	if t.Kind() == reflect.Slice {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildVlenSequenceDatatype(elem)
+	// If it is a user-defined type, or still a slice after consuming declared dims (vlen)
+	if t.Kind() == reflect.Slice || t == reflect.TypeOf(enumerated{}) {
+		return hw.buildElementDatatype(t, elementsAt(rv, dimsStripped))
 	}
 
 	// Scalar types
-- 
2.43.0


From 7ee7b564facd0202648262e68a372804c2acf4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 84/90] fix: HDF5 attributes of nested slices were written with
 two dimensions, which NetCDF can't read

---
 netcdf/hdf5/hdf5writer.go   | 20 ++++++--------------
 netcdf/hdf5/writer_utils.go |  4 ++--
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 80bc1cc..d43d624 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -832,7 +832,8 @@ func (hw *HDF5Writer) serializeVlen(rv reflect.Value, indices *[]uint32) {
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
-// for an attribute value, detecting vlen (varying inner lengths) and stopping.
+// for an attribute value.  NetCDF attributes have at most one dimension, slices
+// nested deeper than that are vlen.
 func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	rv := reflect.ValueOf(val)
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -842,20 +843,11 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 		return hw.getAttributeDimensions(e.values)
 	}
 	shape := getDimensionsRecursive(rv)
-	nDims := len(shape)
-	t := rv.Type()
-	for i := range shape {
-		t = t.Elem()
-		if t == reflect.TypeOf(enumerated{}) {
-			// Arrays of enumerated have the slice inside, so this is vlen.
-			nDims = i
-			break
-		}
-	}
-	for nDims > 1 && !isRectangular(rv, shape[:nDims]) {
-		nDims--
+	if len(shape) == 0 || rv.Type().Elem() == reflect.TypeOf(enumerated{}) {
+		// Arrays of enumerated have the slice inside, so a slice of them is vlen.
+		return nil, 0
 	}
-	return shape[:nDims], nDims
+	return shape[:1], 1
 }
 
 // writeHeapReference writes where in the global heap an object is.
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 2486937..a4e7232 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -211,7 +211,7 @@ func (hw *HDF5Writer) buildElementDatatype(t reflect.Type, elems []reflect.Value
 		// Strings in compounds and variable-length data are always vlen
 		return hw.buildVLenStringDatatype()
 	}
-	if t.Kind() == reflect.Slice {
+	if t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
 		return hw.buildVlenSequenceDatatype(t, elems)
 	}
 	return hw.buildDatatypeMessage(reflect.Zero(t).Interface(), 0)
@@ -497,7 +497,7 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 	}
 
 	// If it is a user-defined type, or still a slice after consuming declared dims (vlen)
-	if t.Kind() == reflect.Slice || t == reflect.TypeOf(enumerated{}) {
+	if t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t == reflect.TypeOf(enumerated{}) {
 		return hw.buildElementDatatype(t, elementsAt(rv, dimsStripped))
 	}
 
-- 
2.43.0


From 9d708dacdea174e8e615a4712edc9bc6be4aded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:16 +0000
Subject: [PATCH 85/90] fix: HDF5 writer refused variables of characters

---
 netcdf/hdf5/hdf5writer.go   | 44 +++++++++++++++++++++++++++++++++++++
 netcdf/hdf5/writer_utils.go |  3 +++
 2 files changed, 47 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d43d624..21a1de2 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1030,6 +1030,7 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if hw.root.hasName(name) {
 		return ErrDuplicateName
 	}
+	vr.Values = splitStrings(vr.Values, len(vr.Dimensions))
 	if !hasShape(vr.Values, vr.Dimensions) {
 		return ErrDimensionality
 	}
@@ -1113,6 +1114,7 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if gw.group.hasName(name) {
 		return ErrDuplicateName
 	}
+	vr.Values = splitStrings(vr.Values, len(vr.Dimensions))
 	if !hasShape(vr.Values, vr.Dimensions) {
 		return ErrDimensionality
 	}
@@ -1250,6 +1252,48 @@ func (hw *HDF5Writer) addDimensions(val any, dimNames []string) error {
 	return nil
 }
 
+// char is a character of a string which has been split.
+type char byte
+
+// splitStrings splits strings into characters if they have a dimension for their length,
+// which is how NetCDF has arrays of characters.
+func splitStrings(val any, nDims int) any {
+	rv := reflect.ValueOf(val)
+	t := rv.Type()
+	for ; t.Kind() == reflect.Slice || t.Kind() == reflect.Array; nDims-- {
+		t = t.Elem()
+	}
+	if t.Kind() != reflect.String || nDims != 1 {
+		return val
+	}
+	maxLen := 0
+	findMaxLen(rv, &maxLen)
+	var split func(rv reflect.Value, t reflect.Type) reflect.Value
+	split = func(rv reflect.Value, t reflect.Type) reflect.Value {
+		if rv.Kind() == reflect.String {
+			chars := make([]char, maxLen)
+			for i, c := range []byte(rv.String()) {
+				chars[i] = char(c)
+			}
+			return reflect.ValueOf(chars)
+		}
+		list := reflect.MakeSlice(t, rv.Len(), rv.Len())
+		for i := range rv.Len() {
+			list.Index(i).Set(split(rv.Index(i), t.Elem()))
+		}
+		return list
+	}
+	return split(rv, charsType(rv.Type())).Interface()
+}
+
+// charsType is the type of strings of type t which have been split.
+func charsType(t reflect.Type) reflect.Type {
+	if t.Kind() == reflect.String {
+		return reflect.TypeOf([]char{})
+	}
+	return reflect.SliceOf(charsType(t.Elem()))
+}
+
 // hasShape checks that val has at least as many dimensions as there are names
 // for, and that it is rectangular in them.  A slice nested deeper than that
 // is variable-length data.
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index a4e7232..05a68e1 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -502,6 +502,9 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 	}
 
 	// Scalar types
+	if t == reflect.TypeOf(char(0)) {
+		return buildStringDatatype(1)
+	}
 	switch t.Kind() {
 	case reflect.Int8:
 		return buildFixedPointDatatype(1, true, hw.byteOrder)
-- 
2.43.0


From 4690e67d947ad0eb29cc6de4dc86110adeb7f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 86/90] fix: read chunked datasets whose datatype message
 follows their layout message

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2289a48..2615991 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2042,12 +2042,15 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
+			// Preserve dimensions, layout and noDf from the existing objAttr across the
+			// datatype re-read: the other messages can come before this one.
 			save := obj.objAttr.dimensions
+			layout := obj.objAttr.layout
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
+			obj.objAttr.layout = layout
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
-- 
2.43.0


From 3453cd39ec683f30e33c5e7468d867739b4c6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:02 +0000
Subject: [PATCH 87/90] fix: HDF5 reader took the size of shuffled data from
 the shape, which is wrong after compression

---
 netcdf/hdf5/hdf5.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2615991..d1c6160 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2660,11 +2660,12 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				if len(f.cdv) > 0 {
 					shuffleParam = f.cdv[0]
 				}
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
+				// All that is there is shuffled, also what other filters made of the data.
+				bf = newUnshuffleReader(bf, inputSize, shuffleParam)
 				canSeek = false
 			}
 		}
+		assertError(len(obj.filters) == 0 || inputSize >= dsLength, ErrCorrupted, "chunk is too short")
 		if skipBegin > 0 {
 			if canSeek {
 				thisSize := int64(dsLength - (skipBegin + skipEnd))
-- 
2.43.0


From cef59bc79af543cbaadabea6ed3e2392b8a5d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 88/90] fix: HDF5 reader lost dimensions of coordinate
 variables of several dimensions

---
 netcdf/hdf5/hdf5.go | 49 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index d1c6160..ee356ca 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3322,6 +3322,52 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	return m
 }
 
+// dimensionsByID returns the names of the dimensions whose numbers the object has. A coordinate
+// variable of several dimensions has no DIMENSION_LIST, because it is a dimension scale itself.
+func (h5 *HDF5) dimensionsByID(obj *object) []string {
+	numbers := func(ob *object, name string) []int32 {
+		for _, a := range ob.attrlist {
+			if a.name != name {
+				continue
+			}
+			h5.parseAttr(ob, a)
+			switch v := a.value.(type) {
+			case int32:
+				return []int32{v}
+			case []int32:
+				return v
+			}
+		}
+		return nil
+	}
+	ids := numbers(obj, "_Netcdf4Coordinates")
+	if len(ids) == 0 || len(ids) != len(obj.objAttr.dimensions) {
+		return nil
+	}
+	idToName := make(map[int32]string)
+	var walk func(ob *object)
+	walk = func(ob *object) {
+		if classifyObject(ob.attrlist).hasClass {
+			if id := numbers(ob, "_Netcdf4Dimid"); len(id) == 1 {
+				idToName[id[0]] = ob.name
+			}
+		}
+		for _, child := range ob.children {
+			walk(child)
+		}
+	}
+	walk(h5.rootObject)
+	var names []string
+	for _, id := range ids {
+		name, has := idToName[id]
+		if !has {
+			return nil
+		}
+		names = append(names, name)
+	}
+	return names
+}
+
 func (h5 *HDF5) getDimensions(obj *object) []string {
 	logger.Infof("Getting dimensions addr 0x%x", obj.addr)
 	dimNames := make([]string, 0)
@@ -3348,6 +3394,9 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 	if len(dimNames) > 0 {
 		return dimNames
 	}
+	if names := h5.dimensionsByID(obj); names != nil {
+		return names
+	}
 
 	var f func(ob *object)
 	f = func(ob *object) {
-- 
2.43.0


From 5585792af83e56f09795999cd61656e5fef01b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:55 +0000
Subject: [PATCH 89/90] fix: classic writer accepted attributes that it has no
 type for, so that Close failed

---
 netcdf/cdf/cdfwriter.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 385157a..7a3d5b6 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -415,10 +415,15 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	version := cw.version
+	defer func() { cw.version = version }() // they may be replaced
+	defer thrower.RecoverError(&err)
+
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	cw.checkV5Attributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -646,7 +651,6 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
 			cw.version = 5
-			return
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
-- 
2.43.0


From 9f0816e33133a2a513ab6d6e6c2dc87b547c4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:59 +0000
Subject: [PATCH 90/90] fix: classic writer accepted invalid names of
 dimensions

---
 netcdf/cdf/cdfwriter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7a3d5b6..544aae2 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"reflect"
 	"slices"
+	"strings"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -413,6 +414,13 @@ func hasValidNames(am api.AttributeMap) bool {
 	return true
 }
 
+// isValidDimName allows names that begin with an underscore also, because dimensions that have no
+// name are given such ones.
+func isValidDimName(name string) bool {
+	return internal.IsValidNetCDFName(name) ||
+		(strings.HasPrefix(name, "_") && internal.IsValidNetCDFName("x"+name[1:]))
+}
+
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
 func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
@@ -486,6 +494,8 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			} else {
 				dims = append(dims, dimName)
 			}
+		} else if !isValidDimName(dimName) {
+			return ErrInvalidName
 		}
 
 		currentLength, has := cw.dimLengths[dimName]
-- 
2.43.0

