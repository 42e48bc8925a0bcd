From 28f11da1108668a201971a4337603a546f8e2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 01/81] fix: cdf writer: settle the file version before writing
 the header

---
 netcdf/cdf/cdfwriter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..5afef49 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -893,6 +893,8 @@ func (cw *CDFWriter) writeNumber(n int64) {
 }
 
 func (cw *CDFWriter) writeAll() {
+	// This can change the version, so it must be done before anything is written.
+	cw.checkV5Attributes(cw.globalAttrs)
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
@@ -909,7 +911,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From c0cffd2538f556f5658884ff889c86cccd4e9447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 02/81] fix: cdf: reject variables with undefined dimensions
 when opening

---
 netcdf/cdf/cdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..78671c7 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -399,6 +399,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 	for i := uint64(0); i < nDims; i++ {
 		// dimid
 		dimids[i] = cdf.readNumber(bf)
+		assert(dimids[i] < uint64(len(cdf.dimensions)),
+			fmt.Sprint(name, " dimid: ", dimids[i], " not found"),
+			ErrCorruptedFile)
 	}
 	attrs := cdf.getAttrList(bf)
 	vType := read32(bf)
-- 
2.43.0


From 18bf5bf0c817de05805907eed9eb7cacdd028c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 03/81] fix: cdf: read the requested records when slicing a
 record variable

---
 netcdf/cdf/cdf.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 78671c7..1d7890b 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -908,19 +908,13 @@ func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
 }
 
 func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
-		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
+	// A slice starts on a record boundary.
+	assert(v.vsize > 0, "record size must be positive", ErrCorruptedFile)
+	var readers []io.Reader
+	for i := start / v.vsize; i < int64(cdf.numRecs) && size > 0; i++ {
+		offset := int64(v.begin) + i*int64(cdf.recSize)
+		readers = append(readers, io.LimitReader(newSeekReader(cdf.file, offset), v.vsize))
+		size -= v.vsize
 	}
 	return io.MultiReader(readers...)
 }
-- 
2.43.0


From 130728e6cd2fb74eaa39a3ed0a21f15ea1e1588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 04/81] fix: cdf writer: a variable with no records takes no
 space in the file

---
 netcdf/cdf/cdfwriter.go | 51 ++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 5afef49..3a7ff79 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -603,18 +603,14 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 	}
 }
 
-func (cw *CDFWriter) writeVar(which int) {
-	saved := &cw.vars[which]
-	cw.writeName(saved.name)
-	cw.writeNumber(int64(len(saved.dimLengths)))
-	for i := range saved.dimLengths {
-		name := saved.dimNames[i]
-		dimID := cw.dimIds[name]
-		cw.writeNumber(int64(dimID))
-	}
-	cw.writeAttributes(saved.attrs)
+// isRecord returns true if the variable has an unlimited dimension.
+func (saved *savedVar) isRecord() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
 
-	write32(cw.bf, int32(saved.ty))
+// computeVsize returns the padded size of the variable's data (or of one
+// record of it, if it is a record variable).
+func (cw *CDFWriter) computeVsize(saved *savedVar) int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -640,13 +636,35 @@ func (cw *CDFWriter) writeVar(which int) {
 		}
 	}
 	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
+	return 4 * ((vsize + 3) / 4)
+}
+
+func (cw *CDFWriter) writeVar(which int) {
+	saved := &cw.vars[which]
+	cw.writeName(saved.name)
+	cw.writeNumber(int64(len(saved.dimLengths)))
+	for i := range saved.dimLengths {
+		name := saved.dimNames[i]
+		dimID := cw.dimIds[name]
+		cw.writeNumber(int64(dimID))
+	}
+	cw.writeAttributes(saved.attrs)
 
+	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(saved.vsize)
+
+	// There are no records, so only the fixed-size variables take up space.
+	// Record variables are located after all of them.
 	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
+	for i := range cw.vars {
+		v := &cw.vars[i]
+		if v.isRecord() == saved.isRecord() {
+			if i < which {
+				calcOffset += v.vsize
+			}
+		} else if saved.isRecord() {
+			calcOffset += v.vsize
+		}
 	}
 	write64(cw.bf, calcOffset)
 }
@@ -921,6 +939,7 @@ func (cw *CDFWriter) writeAll() {
 		cw.begin = cw.bf.Count()
 		for i := range cw.vars {
 			cw.begin += cw.computeVarSize(&cw.vars[i])
+			cw.vars[i].vsize = cw.computeVsize(&cw.vars[i])
 		}
 
 		for i := range cw.vars {
-- 
2.43.0


From 3fd9d73e6e3b7bd052bb4eb7846c361054f21bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 05/81] fix: cdf writer: close the file even when writing fails

---
 netcdf/cdf/cdfwriter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 3a7ff79..6687a1c 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -853,11 +853,16 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 	}
 }
 
-// Close writes all the data out and closes the file.
-func (cw *CDFWriter) Close() (err error) {
+// write writes everything out, but doesn't close the file.
+func (cw *CDFWriter) write() (err error) {
 	defer thrower.RecoverError(&err)
 	cw.writeAll()
-	err = cw.bf.Flush()
+	return cw.bf.Flush()
+}
+
+// Close writes all the data out and closes the file.
+func (cw *CDFWriter) Close() (err error) {
+	err = cw.write()
 	err2 := cw.file.Close()
 	if err == nil {
 		err = err2
-- 
2.43.0


From 27accf852883294db4cb9c384fad8299764af4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 06/81] fix: cdf writer: reject a second variable with the same
 name

---
 netcdf/cdf/cdfwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 6687a1c..ca47964 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -410,6 +410,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
-- 
2.43.0


From 09239c42718321b5df48974b7ab3c4c2af97f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 07/81] fix: cdf writer: do not append to the caller's
 dimensions slice

---
 netcdf/cdf/cdfwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index ca47964..9c399e9 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 
 	"github.com/batchatco/go-native-netcdf/internal"
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
@@ -421,6 +422,8 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	// Names get added below, but not to the caller's slice.
+	vr.Dimensions = slices.Clone(vr.Dimensions)
 	for i := range dimLengths {
 		var dimName string
 		if i < len(vr.Dimensions) {
-- 
2.43.0


From 91715ac7f7c0d8cb03f554ac195ec200feb386ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 08/81] fix: cdf writer: a rejected AddVar leaves no trace in
 the file

---
 netcdf/cdf/cdfwriter.go | 47 ++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 9c399e9..4671100 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -349,23 +349,18 @@ func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
 
 		// v5
 	case reflect.Uint8:
-		cw.version = 5
 		return typeUByte
 
 	case reflect.Uint16:
-		cw.version = 5
 		return typeUShort
 
 	case reflect.Uint32:
-		cw.version = 5
 		return typeUInt
 
 	case reflect.Uint64:
-		cw.version = 5
 		return typeUInt64
 
 	case reflect.Int64:
-		cw.version = 5
 		return typeInt64
 
 	}
@@ -416,14 +411,16 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			return ErrDuplicateVariable
 		}
 	}
-	cw.checkV5Attributes(vr.Attributes)
+	needsV5 := hasV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
-		cw.version = 5
+		needsV5 = true
 	}
 	// Names get added below, but not to the caller's slice.
 	vr.Dimensions = slices.Clone(vr.Dimensions)
+	newLengths := make(map[string]int64)
+	var newNames []string
 	for i := range dimLengths {
 		var dimName string
 		if i < len(vr.Dimensions) {
@@ -433,24 +430,35 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
+				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
 			}
 			vr.Dimensions = append(vr.Dimensions, dimName)
 		}
 
 		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
+		if !has {
+			currentLength, has = newLengths[dimName]
+		}
 		if has {
 			if dimLengths[i] != currentLength {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
-			cw.dimLengths[dimName] = dimLengths[i]
-			cw.dimIds[dimName] = cw.nextID
-			cw.dimNames = append(cw.dimNames, dimName)
-			cw.nextID++
+			newLengths[dimName] = dimLengths[i]
+			newNames = append(newNames, dimName)
 		}
 	}
+	// The variable is good. Only now does it become part of the file.
+	if needsV5 {
+		cw.version = 5
+	}
+	for _, dimName := range newNames {
+		cw.dimLengths[dimName] = newLengths[dimName]
+		cw.dimIds[dimName] = cw.nextID
+		cw.dimNames = append(cw.dimNames, dimName)
+		cw.nextID++
+	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
 		vr.Dimensions, vr.Attributes, 0})
 	return nil
@@ -590,10 +598,13 @@ func (cw *CDFWriter) writeAttributes(attrs api.AttributeMap) {
 	}
 }
 
-func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
+// hasV5Attributes returns true if any of the attributes require version 5.
+// It throws an error if any of them can't be written.
+func hasV5Attributes(attrs api.AttributeMap) bool {
 	if attrs == nil {
-		return
+		return false
 	}
+	needsV5 := false
 	for _, k := range attrs.Keys() {
 		v, _ := attrs.Get(k)
 		switch v.(type) {
@@ -601,14 +612,14 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 			[]int8, []int16, []int32, []float32, []float64:
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
-			cw.version = 5
-			return
+			needsV5 = true
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
 			thrower.Throw(ErrAttribute)
 		}
 	}
+	return needsV5
 }
 
 // isRecord returns true if the variable has an unlimited dimension.
@@ -925,7 +936,9 @@ func (cw *CDFWriter) writeNumber(n int64) {
 
 func (cw *CDFWriter) writeAll() {
 	// This can change the version, so it must be done before anything is written.
-	cw.checkV5Attributes(cw.globalAttrs)
+	if hasV5Attributes(cw.globalAttrs) {
+		cw.version = 5
+	}
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
-- 
2.43.0


From 01e319c3e4852db07cca3aa41692f71ebcaba9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 09/81] fix: cdf writer: write arrays and named types instead
 of panicking

---
 netcdf/cdf/cdfwriter.go | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 4671100..9f68390 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -82,10 +82,7 @@ func (cw *CDFWriter) storeChars(val reflect.Value, dimLengths []int64) {
 	thisDim := dimLengths[0]
 	if len(dimLengths) == 1 {
 		// a string which must be padded
-		s, ok := val.Interface().(string)
-		if !ok {
-			thrower.Throw(ErrInternal)
-		}
+		s := val.String()
 		// TODO: this is probably wrong because it could be unlimited
 		writeBytes(cw.bf, []byte(s))
 		offset := int64(val.Len())
@@ -107,8 +104,7 @@ func (cw *CDFWriter) storeBytes(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		b := val.Interface().([]int8)
-		writeAny(cw.bf, b)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -123,8 +119,7 @@ func (cw *CDFWriter) storeUBytes(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		b := val.Interface().([]uint8)
-		writeAny(cw.bf, b)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -139,8 +134,7 @@ func (cw *CDFWriter) storeShorts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		s := val.Interface().([]int16)
-		writeAny(cw.bf, s)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -155,8 +149,7 @@ func (cw *CDFWriter) storeUShorts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		s := val.Interface().([]uint16)
-		writeAny(cw.bf, s)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -171,8 +164,7 @@ func (cw *CDFWriter) storeInts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]int32)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -187,8 +179,7 @@ func (cw *CDFWriter) storeUInts(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]uint32)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -203,8 +194,7 @@ func (cw *CDFWriter) storeInt64s(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]int64)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -219,8 +209,7 @@ func (cw *CDFWriter) storeUInt64s(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		iv := val.Interface().([]uint64)
-		writeAny(cw.bf, iv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -237,8 +226,7 @@ func (cw *CDFWriter) storeFloats(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		fv := val.Interface().([]float32)
-		writeAny(cw.bf, fv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
@@ -255,8 +243,7 @@ func (cw *CDFWriter) storeDoubles(val reflect.Value, dimLengths []int64) {
 		return
 	}
 	if len(dimLengths) == 1 {
-		dv := val.Interface().([]float64)
-		writeAny(cw.bf, dv)
+		writeAny(cw.bf, val.Interface())
 		return
 	}
 	for i := range val.Len() {
-- 
2.43.0


From 95f1df2a129c23e78948262ee75d1e16f1201d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 10/81] fix: cdf writer: return an error for values of
 unsupported types

---
 netcdf/cdf/cdfwriter.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 9f68390..ea7e06f 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -269,6 +269,13 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	default:
 		return dims, kind
 	}
+	switch t.Kind() {
+	case reflect.Array, reflect.Slice, reflect.String:
+		break
+	default:
+		logger.Info("Unknown type", t.Kind())
+		thrower.Throw(ErrUnknownType)
+	}
 	vLen := int64(rv.Len())
 	dims = append(dims, vLen)
 	switch t.Kind() {
@@ -309,6 +316,9 @@ func (cw *CDFWriter) getDimLengthsHelper(
 
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
+	if !v.IsValid() {
+		thrower.Throw(ErrUnknownType)
+	}
 	dims := make([]int64, 0)
 	return cw.getDimLengthsHelper(v, dims, dimNames)
 }
-- 
2.43.0


From beff8f19cdc2ad006d68a2f8f0aa66f6d35096e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:21 +0000
Subject: [PATCH 11/81] fix: cdf writer: reject values that are not rectangular

---
 netcdf/cdf/cdfwriter.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index ea7e06f..4041735 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -323,6 +323,30 @@ func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	return cw.getDimLengthsHelper(v, dims, dimNames)
 }
 
+// checkShape throws an error if the value doesn't have the given shape.
+func checkShape(val reflect.Value, dimLengths []int64) {
+	if len(dimLengths) == 0 {
+		return
+	}
+	vLen := int64(val.Len())
+	if val.Kind() == reflect.String {
+		// strings get padded
+		if vLen > dimLengths[0] {
+			thrower.Throw(ErrDimensionSize)
+		}
+		return
+	}
+	if vLen != dimLengths[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	if len(dimLengths) == 1 {
+		return
+	}
+	for i := range val.Len() {
+		checkShape(val.Index(i), dimLengths[1:])
+	}
+}
+
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
 	switch goKind {
 
@@ -410,6 +434,7 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	}
 	needsV5 := hasV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
+	checkShape(reflect.ValueOf(vr.Values), dimLengths)
 	switch ty {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		needsV5 = true
-- 
2.43.0


From bb470b7a7a76b348461d8bee1be2a8ec685bc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 12/81] fix: cdf: return an error when the fill value has the
 wrong type

---
 netcdf/cdf/cdf.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 1d7890b..3ebc0f8 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1166,6 +1166,14 @@ func makeFillValueDouble(d float64) []byte {
 	return buf.Bytes()
 }
 
+func fillValueAs[T any](val any) T {
+	fv, ok := val.(T)
+	if !ok {
+		thrower.Throw(ErrFillValue)
+	}
+	return fv
+}
+
 func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	userFV, hasUserFV := v.attrs.Get("_FillValue")
 	if hasUserFV {
@@ -1182,7 +1190,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeFloat:
 		var fv float32
 		if hasUserFV {
-			fv = userFV.(float32)
+			fv = fillValueAs[float32](userFV)
 		} else {
 			fv = math.Float32frombits(internal.FillFloat)
 		}
@@ -1191,7 +1199,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeDouble:
 		var fv float64
 		if hasUserFV {
-			fv = userFV.(float64)
+			fv = fillValueAs[float64](userFV)
 		} else {
 			fv = math.Float64frombits(internal.FillDouble)
 		}
@@ -1200,7 +1208,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeByte:
 		var fv byte
 		if hasUserFV {
-			fv = byte(userFV.(int8))
+			fv = byte(fillValueAs[int8](userFV))
 		} else {
 			fb := internal.FillByte
 			fv = byte(fb)
@@ -1210,7 +1218,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeUByte:
 		var fv byte
 		if hasUserFV {
-			fv = byte(userFV.(uint8))
+			fv = byte(fillValueAs[uint8](userFV))
 		} else {
 			fv = internal.FillUByte
 		}
@@ -1219,7 +1227,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeShort:
 		var fv int16
 		if hasUserFV {
-			fv = userFV.(int16)
+			fv = fillValueAs[int16](userFV)
 		} else {
 			fv = internal.FillShort
 		}
@@ -1228,7 +1236,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeUShort:
 		var fv uint16
 		if hasUserFV {
-			fv = userFV.(uint16)
+			fv = fillValueAs[uint16](userFV)
 		} else {
 			fv = internal.FillUShort
 		}
@@ -1237,7 +1245,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeInt:
 		var fv int32
 		if hasUserFV {
-			fv = userFV.(int32)
+			fv = fillValueAs[int32](userFV)
 		} else {
 			fv = int32(internal.FillInt)
 		}
@@ -1246,7 +1254,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeUInt:
 		var fv uint32
 		if hasUserFV {
-			fv = userFV.(uint32)
+			fv = fillValueAs[uint32](userFV)
 		} else {
 			fv = internal.FillUInt
 		}
@@ -1255,7 +1263,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeInt64:
 		var fv int64
 		if hasUserFV {
-			fv = userFV.(int64)
+			fv = fillValueAs[int64](userFV)
 		} else {
 			fv = internal.FillInt64
 		}
@@ -1264,7 +1272,7 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeUInt64:
 		var fv uint64
 		if hasUserFV {
-			fv = userFV.(uint64)
+			fv = fillValueAs[uint64](userFV)
 		} else {
 			fv = internal.FillUInt64
 		}
@@ -1273,7 +1281,11 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 	case typeChar:
 		var fv byte
 		if hasUserFV {
-			fv = userFV.(byte)
+			// a single character is read from the file as a string
+			if str, ok := userFV.(string); ok && len(str) == 1 {
+				userFV = str[0]
+			}
+			fv = fillValueAs[byte](userFV)
 		} else {
 			fv = byte(internal.FillChar)
 		}
-- 
2.43.0


From ada28ce3db9b9212f7a969583980212ef70e69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:54 +0000
Subject: [PATCH 13/81] fix: cdf: return an error for counts larger than the
 file when opening

---
 netcdf/cdf/cdf.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 3ebc0f8..90db9cd 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -68,6 +68,7 @@ const (
 type CDF struct {
 	fname        string
 	file         api.ReadSeekerCloser
+	fileSize     uint64
 	fileRefCount int
 	version      uint8
 	numRecs      uint64 // 64-bits in V5
@@ -213,6 +214,13 @@ func seekTo(f io.Seeker, offset int64) {
 	thrower.ThrowIfError(err)
 }
 
+// Each counted item takes up at least one byte in the file.
+func (cdf *CDF) checkCount(n uint64) {
+	assert(n <= cdf.fileSize,
+		"corrupted file, count is larger than the file",
+		ErrCorruptedFile)
+}
+
 // V5 only
 func (cdf *CDF) checkVersion(requiredVersion int) {
 	assert(cdf.version >= uint8(requiredVersion),
@@ -229,6 +237,7 @@ func (cdf *CDF) getAttr(bf io.Reader) (string, any) {
 	name := cdf.readName(bf)
 	vType := read32(bf)
 	nvars := cdf.readNumber(bf)
+	cdf.checkCount(nvars)
 	nread := uint64(0)
 	var values any
 	switch vType {
@@ -368,6 +377,7 @@ func (cdf *CDF) getAttrList(bf io.Reader) *util.OrderedMap {
 
 func (cdf *CDF) readName(bf io.Reader) string {
 	nameLen := cdf.readNumber(bf)
+	cdf.checkCount(nameLen)
 	b := readBytes(bf, roundInt32(nameLen))
 	for i := uint64(0); i < nameLen; i++ {
 		if b[i] == 0 {
@@ -454,6 +464,10 @@ func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 
 func (cdf *CDF) readHeader() (err error) {
 	defer thrower.RecoverError(&err)
+	fileSize, err := cdf.file.Seek(0, io.SeekEnd)
+	thrower.ThrowIfError(err)
+	cdf.fileSize = uint64(fileSize)
+	seekTo(cdf.file, 0)
 	bf := io.Reader(bufio.NewReader(cdf.file))
 
 	// magic
-- 
2.43.0


From 1bd1ce550b33b89ccce239c9284c133af835bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 14/81] fix: cdf: return an error when reading from a closed
 file

---
 netcdf/cdf/cdf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 90db9cd..b9229ac 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -94,6 +94,7 @@ var (
 	ErrDuplicateVariable     = errors.New("duplicate variable")
 	ErrTooManyDimensions     = errors.New("too many dimensions")
 	ErrFillValue             = errors.New("fill value not a scalar")
+	ErrClosed                = errors.New("file is closed")
 )
 
 var (
@@ -578,6 +579,7 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
+	assert(cdf.fileRefCount > 0, "file is closed", ErrClosed)
 	cdf.fileRefCount++
 	return api.Group(cdf), nil
 }
@@ -660,6 +662,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		length = int64(dimLengths[0])
 	}
 	getSlice := func(begin, end int64) (any, error) {
+		if cdf.file == nil {
+			return nil, ErrClosed
+		}
 		if end < begin {
 			return nil, errors.New("invalid slice parameters")
 		}
-- 
2.43.0


From 1ad5b078000080fc0b34e2f1b613b8019b4c7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 15/81] fix: return an error for slices outside of the variable

---
 internal/slicer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..3822da1 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -1,12 +1,16 @@
 package internal
 
 import (
+	"errors"
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-thrower"
 )
 
+// ErrInvalidSlice is returned when the slice is not within the variable.
+var ErrInvalidSlice = errors.New("invalid slice parameters")
+
 type slice struct {
 	getSlice   func(begin, end int64) (any, error)
 	getSliceMD func(begin, end []int64) (any, error)
@@ -20,12 +24,27 @@ type slice struct {
 
 func (sl *slice) GetSlice(begin, end int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if begin < 0 || end < begin || end > sl.length {
+		return nil, ErrInvalidSlice
+	}
 	slice, err = sl.getSlice(begin, end)
 	return slice, err
 }
 
 func (sl *slice) GetSliceMD(begin, end []int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if len(begin) != len(sl.shape) || len(end) != len(sl.shape) {
+		return nil, ErrInvalidSlice
+	}
+	for i := range sl.shape {
+		if begin[i] < 0 || end[i] < begin[i] || end[i] > sl.shape[i] {
+			return nil, ErrInvalidSlice
+		}
+	}
+	if len(sl.shape) == 0 {
+		// scalar
+		return sl.getSlice(0, sl.length)
+	}
 	slice, err = sl.getSliceMD(begin, end)
 	return slice, err
 }
-- 
2.43.0


From bb0098dd74edf7eb912946362afa28c80cad9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 16/81] fix: apply the last dimension when slicing character
 arrays

---
 internal/slicer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/slicer.go b/internal/slicer.go
index 3822da1..4992c7b 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -105,8 +105,8 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		return v
 	}
 
-	// If it's a slice, we slice it
-	if v.Kind() == reflect.Slice {
+	// If it's a slice, we slice it (character arrays are strings)
+	if v.Kind() == reflect.Slice || v.Kind() == reflect.String {
 		b := int(begin[0])
 		e := int(end[0])
 		sliced := v.Slice(b, e)
-- 
2.43.0


From 1748aeebb6e328171653c8d07b4ffafe9394f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 17/81] fix: hdf5: slicing a variable no longer changes what
 later reads return

---
 netcdf/hdf5/hdf5.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..624d312 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3304,9 +3304,11 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
-		fakeObj.objAttr.isSlice = true
-		fakeObj.objAttr.firstDim = begin
-		fakeObj.objAttr.lastDim = end
+		fakeAttr := *found.objAttr // don't modify the attribute of the real object
+		fakeAttr.isSlice = true
+		fakeAttr.firstDim = begin
+		fakeAttr.lastDim = end
+		fakeObj.objAttr = &fakeAttr
 		data := h5.getData(&fakeObj)
 		if data == nil {
 			return nil, ErrNotFound
-- 
2.43.0


From 910e0dd9838fbd70a17f494e20693ec04627e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 18/81] fix: hdf5: list attributes in creation order

---
 netcdf/hdf5/hdf5.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 624d312..6f606e8 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3100,6 +3100,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	filtered := make(map[string]any)
+	keys := []string{} // in the order of the attribute list
 	for i := range unfiltered {
 		val := unfiltered[i]
 		logger.Infof("getting attribute %s %p", val.name, val)
@@ -3117,13 +3118,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
@@ -3390,7 +3390,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
-- 
2.43.0


From 6952443427e00bcc03cc5e948eb6369fd5d2e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 19/81] fix: hdf5: list types, groups and variables in a fixed
 order

---
 netcdf/hdf5/hdf5.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 6f606e8..3c0e97d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3010,7 +3010,7 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
 		if obj.isGroup {
 			continue
 		}
@@ -3021,7 +3021,7 @@ func (h5 *HDF5) ListTypes() []string {
 			// this is a variable
 			continue
 		}
-		ret = append(ret, typeName)
+		ret = append(ret, obj.name)
 	}
 	return ret
 }
@@ -3061,7 +3061,8 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
+	for _, obj := range h5.groupObject.sortChildren() {
+		varName := obj.name
 		if obj.isGroup || origNames[varName] {
 			continue
 		}
@@ -3374,8 +3375,7 @@ func (h5 *HDF5) ListSubgroups() []string {
 			ret = append(ret, tail)
 			return
 		}
-		obj.sortChildren()
-		for _, o := range obj.children {
+		for _, o := range obj.sortChildren() {
 			sgDescend(o, group+o.name+"/")
 		}
 	}
@@ -3402,7 +3402,10 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
-		return children[i].creationOrder < children[j].creationOrder
+		if children[i].creationOrder != children[j].creationOrder {
+			return children[i].creationOrder < children[j].creationOrder
+		}
+		return children[i].name < children[j].name
 	})
 	return children
 }
-- 
2.43.0


From e3b3b53b36f7cb0e9a21286686c469e3da5df42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 20/81] fix: hdf5: return an error for creation order indexes
 instead of exiting

---
 netcdf/hdf5/hdf5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 3c0e97d..983ad7b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -857,7 +857,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 				logger.Infof("offset=0x%x length=%d", offset, length)
 				h5.readLinkData(obj, obj.link, offset, length, co, h5.readLinkDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 
 		case 8: // for indexing the ‘name’ field for indexed attributes.
@@ -909,7 +909,7 @@ func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
 					offset, length, mflags, co)
 				h5.readLinkData(obj, obj.attr, offset, length, 0, h5.readAttributeDirect)
 			} else {
-				logger.Fatal("creation order code has never been executed before")
+				fail("creation order code has never been executed before")
 			}
 		default:
 			fail(fmt.Sprintf("unhandled type: %d", ty))
-- 
2.43.0


From 6d2815350c4d220052ae4b119c09317a9f04efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 21/81] fix: hdf5: return an error for nonzero reserved bytes
 instead of exiting

---
 netcdf/hdf5/assert.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..dffd715 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,7 +16,7 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
+	logFunc   = padFail // logging function for padBytesCheck()
 	maybeFail = fail         // fail function, can be disabled for testing
 )
 
@@ -57,6 +57,11 @@ func fail(msg string) {
 	failError(ErrInternal, msg)
 }
 
+// Panics always with message (for padBytesCheck())
+func padFail(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
 // Panics with specified error and message
 func failError(err error, msg string) {
 	logger.Error(msg)
-- 
2.43.0


From 70ee4f733a1e8b665c4bdec9418bd24a8566a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 22/81] fix: hdf5: return an error for addresses outside of the
 file and for closed files

---
 netcdf/hdf5/errors.go | 3 +++
 netcdf/hdf5/hdf5.go   | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/errors.go b/netcdf/hdf5/errors.go
index 3a20a32..6350b63 100644
--- a/netcdf/hdf5/errors.go
+++ b/netcdf/hdf5/errors.go
@@ -82,6 +82,9 @@ var (
 	// is encountered.
 	ErrUnsupportedReferenceVersion = errors.New("unsupported reference version")
 
+	// ErrClosed is returned when reading from a group that has been closed
+	ErrClosed = errors.New("file is closed")
+
 	// ErrUnsupportedType is returned when a Go type not supported by NetCDF4
 	// is passed to the writer (e.g. bool, complex64, int).
 	ErrUnsupportedType = errors.New("unsupported type")
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 983ad7b..117fc4c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -285,7 +285,8 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
-	assert(int64(addr)+size <= h5.fileSize,
+	assertError(h5.file != nil, ErrClosed, "file is closed")
+	assert(addr <= uint64(h5.fileSize) && size >= 0 && size <= h5.fileSize-int64(addr),
 		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
 			addr, size, int64(addr)+size, h5.fileSize))
 	if size == 0 {
@@ -1447,7 +1448,8 @@ func hexPrint(addr uint64) string {
 func (h5 *HDF5) isMagic(magic string, addr uint64) bool {
 	assert(addr != 0 && addr != invalidAddress,
 		fmt.Sprint("invalid address for checking magic number: ", hexPrint(addr)))
-	if addr+4 > uint64(h5.fileSize) {
+	assertError(h5.file != nil, ErrClosed, "file is closed")
+	if h5.fileSize < 4 || addr > uint64(h5.fileSize)-4 {
 		logger.Error("seeking past end of file -- probably a truncated file")
 		thrower.Throw(ErrCorrupted)
 		panic("not reached")
@@ -2367,6 +2369,7 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	assertError(h5.file != nil, ErrClosed, "file is closed")
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
-- 
2.43.0


From 396d9e50202e25438905c331c1c1d83491248b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 23/81] fix: hdf5: a repeated object address no longer hides
 the rest of the group

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 117fc4c..c91bad4 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1332,7 +1332,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		if h5.hasAddr(objectHeaderAddress) {
 			logger.Info("avoid link loop")
 			logger.Infof("done with name=%s", string(linkName))
-			return
+			continue
 		}
 		obj := newObject()
 		obj.addr = objectHeaderAddress
-- 
2.43.0


From 7acc0f3020580770fe5c04f3eacb9dec6a05d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 24/81] fix: hdf5: return an error for links other than hard
 links

---
 netcdf/hdf5/hdf5.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c91bad4..0f05fb7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -720,6 +720,7 @@ func (h5 *HDF5) readLinkDirectFrom(parent *object, obf io.Reader, length uint16,
 		linkType = read8(bf)
 		logger.Info("linkType=", linkType)
 	}
+	assertError(linkType == 0, ErrLinkType, "only hard links are supported")
 	var co uint64
 	if hasFlag8(flags, 2) {
 		co = read64(bf)
-- 
2.43.0


From 23f63653b8e59bed58e47e640354ac8d813948eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 25/81] fix: hdf5: check the versions of the link info, B-tree
 leaf and fractal heap

---
 netcdf/hdf5/hdf5.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 0f05fb7..834016e 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -925,6 +925,7 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	checkMagic(bf, 4, "BTLF")
 	version := read8(bf)
 	logger.Info("btlf version=", version)
+	checkVal(0, version, "btlf version must be zero")
 	ty := read8(bf)
 	logger.Info("bt type=", ty)
 	h5.readRecords(parent, bf, numRec, ty)
@@ -1201,6 +1202,7 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkMagic(bf, 4, "FRHP")
 	version := read8(bf)
 	logger.Info("fractal heap version=", version)
+	checkVal(0, version, "fractal heap version must be zero")
 	heapIDLen := read16(bf)
 	logger.Info("heap ID length=", heapIDLen)
 	filterLen := read16(bf)
@@ -1424,6 +1426,7 @@ func (h5 *HDF5) readBTree(parent *object, addr uint64) {
 func (h5 *HDF5) readLinkInfo(bf io.Reader) *linkInfo {
 	version := read8(bf)
 	logger.Info("link info version=", version)
+	checkVal(0, version, "link info version must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
 	if hasFlag8(flags, 0) {
-- 
2.43.0


From fc493181b82d99d0aa8c2efd54d6117ce5217657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 26/81] fix: hdf5: do not cache a global heap that could not be
 read completely

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 834016e..ebda881 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1153,7 +1153,6 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 
 	// First visit: parse the entire collection and cache every object.
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
 
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
@@ -1190,6 +1189,7 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 			}
 		}
 	}
+	h5.heapCache[heapAddress] = cache // now that all of it has been read
 
 	if data, ok := cache[index]; ok {
 		return newResetReaderFromBytes(data), uint64(len(data))
-- 
2.43.0


From 47811f55cf027266f2f235bb25c7b28d8ab88179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 27/81] fix: hdf5: check for errors when finding the size of
 the file

---
 netcdf/hdf5/hdf5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ebda881..ba03259 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2383,7 +2383,8 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 
 func fileSize(file io.ReadSeeker) int64 {
 	fi, err := file.Seek(0, io.SeekEnd)
-	file.Seek(0, io.SeekStart)
+	thrower.ThrowIfError(err)
+	_, err = file.Seek(0, io.SeekStart)
 	thrower.ThrowIfError(err)
 	return fi
 }
-- 
2.43.0


From 129efaa4e65eab05060904988eea83986888db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 28/81] fix: hdf5: reading an array type no longer changes its
 dimensions

---
 netcdf/hdf5/array.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..6c67ea9 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"fmt"
 	"io"
+	"slices"
 	"strings"
 )
 
@@ -48,16 +49,16 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0] // copied, because the dimensions are changed
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := slices.Concat(dimensions, arrayAttr.dimensions)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
-- 
2.43.0


From 5ca716a7c328880c3bcb53dfd02f62ee9396f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 29/81] fix: hdf5: find the types of attributes of variables
 and subgroups

---
 netcdf/hdf5/amap.go | 21 ++++++++++++++++-----
 netcdf/hdf5/hdf5.go | 16 +++++++---------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/amap.go b/netcdf/hdf5/amap.go
index b4ec65c..e10af26 100644
--- a/netcdf/hdf5/amap.go
+++ b/netcdf/hdf5/amap.go
@@ -7,26 +7,37 @@ import (
 // Adds callbacks to the standard OrderedMap so we can print
 // out more complex types than the default (structs, enums, etc.)
 type callback struct {
-	h5 *HDF5
-	om *util.OrderedMap
+	h5       *HDF5
+	om       *util.OrderedMap
+	attrlist []*attribute // the attributes in the map
 }
 
 // CDL callback (regular)
 func (c *callback) regCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrType(key)
+	ret := c.h5.findAttrType(c.attrlist, key)
 	return ret, ret != ""
 }
 
 func (c *callback) goCallback(key string) (string, bool) {
-	ret := c.h5.findGlobalAttrGoType(key)
+	ret := c.h5.findAttrGoType(c.attrlist, key)
 	return ret, ret != ""
 }
 
+// newTypedAttributeMap makes a map of attributes of the root group.
 func newTypedAttributeMap(h5 *HDF5, keys []string, values map[string]any) (*util.OrderedMap, error) {
+	var attrlist []*attribute
+	if h5 != nil {
+		attrlist = h5.rootObject.attrlist
+	}
+	return newAttributeMap(h5, attrlist, keys, values)
+}
+
+// newAttributeMap makes a map of the given attributes, which can belong to any object.
+func newAttributeMap(h5 *HDF5, attrlist []*attribute, keys []string, values map[string]any) (*util.OrderedMap, error) {
 	om, err := util.NewOrderedMap(keys, values)
 	assertError(err == nil, err, "creating ordered map")
 	if h5 != nil {
-		c := callback{h5, om}
+		c := callback{h5, om, attrlist}
 		om.SetTypeCallbacks(c.regCallback, c.goCallback)
 	}
 	return om, nil
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index ba03259..dc46aeb 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2913,8 +2913,8 @@ func (h5 *HDF5) findVariable(varName string) *object {
 	return obj
 }
 
-func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2929,12 +2929,11 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 		}
 		return base + dims
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return "" // not found
 }
 
-func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+func (h5 *HDF5) findAttrGoType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2949,8 +2948,7 @@ func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
 		}
 		return dims + base
 	}
-	fail("didn't find attribute type")
-	panic("silence warning")
+	return "" // not found
 }
 
 func (h5 *HDF5) findType(varName string) string {
@@ -3133,7 +3131,7 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			filtered[val.name] = value
 		}
 	}
-	om, err := newTypedAttributeMap(h5, keys, filtered)
+	om, err := newAttributeMap(h5, unfiltered, keys, filtered)
 	thrower.ThrowIfError(err)
 	om.Hide(ncpKey)
 	return om
-- 
2.43.0


From e984d98ff0330b73614bfff583633ec2944b8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 30/81] fix: hdf5: a failed read of a chunk index no longer
 truncates later reads

---
 netcdf/hdf5/hdf5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index dc46aeb..7a40afe 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2500,7 +2500,9 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		}
 	}
 	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		found := *obj // so that a failed read doesn't leave some of the blocks behind
+		h5.readBTreeNode(&found, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
+		obj.dataBlocks = found.dataBlocks
 		nBlocks = len(obj.dataBlocks)
 	}
 	if nBlocks == 0 {
-- 
2.43.0


From b043db005efa693edbeee48e02c13bdee949232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 31/81] fix: hdf5: lock the reference count of the file

---
 netcdf/hdf5/readers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..74a4117 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -259,6 +259,8 @@ func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
 }
 
 func (rcf *refCountedFile) reference() {
+	rcf.lock.Lock()
+	defer rcf.lock.Unlock()
 	rcf.refCount++
 }
 
@@ -279,7 +281,7 @@ func (rcf *refCountedFile) dereference() error {
 	case rcf.refCount == 0:
 		logger.Info("Closing file")
 		if f, ok := rcf.file.(io.Closer); ok {
-			f.Close()
+			err = f.Close()
 		}
 		rcf.file = nil
 	case rcf.refCount < 0:
-- 
2.43.0


From fe2bd4b5ee7fdf0be1845cba149d64f358eb998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 32/81] fix: hdf5: return an error for chunk indexes without
 dimensions

---
 netcdf/hdf5/hdf5.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7a40afe..fc19df6 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -967,10 +967,8 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 	if leftAddress != invalidAddress || rightAddress != invalidAddress {
 		assert(!isTop, "Siblings unexpected")
 	}
-	dimDataSize := 0
-	if dimensionality > 0 {
-		dimDataSize = 8 * int(dimensionality-1)
-	}
+	assertError(dimensionality > 0, ErrDimensionality, "chunks must have dimensions")
+	dimDataSize := 8 * int(dimensionality-1)
 
 	type btreeEntry struct {
 		sizeChunk  uint32
@@ -980,11 +978,11 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 		flatOffset uint64
 	}
 
-	entries := make([]btreeEntry, entriesUsed+1)
+	entries := make([]btreeEntry, int(entriesUsed)+1)
 	bf = h5.newSeek(bta+uint64(bf.Count()),
 		int64((int(entriesUsed)*(24+dimDataSize))+16+dimDataSize))
 
-	for i := uint16(0); i <= entriesUsed; i++ {
+	for i := range entries {
 		entries[i].sizeChunk = read32(bf)
 		entries[i].filterMask = read32(bf)
 		entries[i].offsets = make([]uint64, dimensionality-1)
@@ -992,7 +990,7 @@ func (h5 *HDF5) readBTreeNodeAny(parent *object, bta uint64, isTop bool,
 			entries[i].offsets[d] = read64(bf)
 		}
 		read64(bf) // last offset must be zero
-		if i < entriesUsed {
+		if i < int(entriesUsed) {
 			entries[i].addr = read64(bf)
 		}
 		if parent.objAttr.dimensions != nil {
-- 
2.43.0


From 0bb8d482309670ceb4b1f684bec937f04fd2af0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 33/81] fix: hdf5: return an error for unknown datatype classes

---
 netcdf/hdf5/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..77982fc 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -125,6 +125,7 @@ func printDatatype(hr heapReader, c caster, bf remReader, df remReader, objCount
 	dtversion := (b0 >> 4) & 0b1111
 	dtclass := b0 & 0b1111
 	dtlength := read32(bf)
+	assert(int(dtclass) < len(typeNames), fmt.Sprintf("Unknown class: %d", dtclass))
 	logger.Infof("* length=%d dtlength=%d dtversion=%d class=%s flags=%s",
 		bf.Rem(), dtlength,
 		dtversion, typeNames[dtclass], binaryToString(uint64(bitFields)))
-- 
2.43.0


From a7eafc5cd94e6c8fd9a4a4a2a5cba56d2ecc8e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 34/81] fix: hdf5: return an error for numbers of unexpected
 lengths

---
 netcdf/hdf5/fixedPoint.go    | 6 ++++--
 netcdf/hdf5/floatingPoint.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 97a4c4f..1c882e4 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -34,8 +34,9 @@ func (fixedPointManagerType) cdlTypeString(sh sigHelper, name string, attr *attr
 	case 8:
 		return prefix + "int64"
 	default:
-		panic("bad int length")
+		fail("bad int length")
 	}
+	panic("not reached") // silence warning
 }
 
 func (fixedPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
@@ -53,8 +54,9 @@ func (fixedPointManagerType) goTypeString(sh sigHelper, name string, attr *attri
 	case 8:
 		return prefix + "int64"
 	default:
-		panic("bad int length")
+		fail("bad int length")
 	}
+	panic("not reached") // silence warning
 }
 
 func (fixedPointManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attribute,
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..cc1e752 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -26,8 +26,9 @@ func (floatingPointManagerType) cdlTypeString(sh sigHelper, name string, attr *a
 	case 8:
 		return "double"
 	default:
-		panic("bad fp length")
+		fail("bad fp length")
 	}
+	panic("not reached") // silence warning
 }
 
 func (floatingPointManagerType) goTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
@@ -37,8 +38,9 @@ func (floatingPointManagerType) goTypeString(sh sigHelper, name string, attr *at
 	case 8:
 		return "float64"
 	default:
-		panic("bad fp length")
+		fail("bad fp length")
 	}
+	panic("not reached") // silence warning
 }
 
 func (floatingPointManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attribute,
-- 
2.43.0


From b5ce6f47f96cb5c5d757da77107fce12f69dd775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 35/81] fix: hdf5: return an error for shuffled data without an
 element size

---
 netcdf/hdf5/readers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 74a4117..4baa6d9 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -298,6 +298,7 @@ func unshuffle(val []byte, n uint32) {
 	if n == 1 {
 		return // avoids allocation
 	}
+	assertError(n > 0, ErrCorrupted, "shuffle needs the size of the elements")
 	// shuffle params are never very large in practice, so this isn't wasteful
 	// of memory.
 	tmp := make([]byte, len(val))
-- 
2.43.0


From ead6ffd3f944565faa1eadd1e2d3fdcdbe7c36a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 36/81] fix: hdf5: return an error for missing global heap
 objects

---
 netcdf/hdf5/vlen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..49fa4fc 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -131,6 +131,7 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 			return ""
 		}
 		bff, sz := hr.readGlobalHeap(addr, index)
+		assertError(bff != nil, ErrCorrupted, "object not found in the global heap")
 		s := make([]byte, sz)
 		read(bff, s)
 		logger.Info("string=", string(s))
@@ -154,6 +155,7 @@ func allocStrings(hr heapReader, bf io.Reader, dimLengths []uint64) any {
 				continue
 			}
 			bff, sz := hr.readGlobalHeap(addr, index)
+			assertError(bff != nil, ErrCorrupted, "object not found in the global heap")
 			s := make([]byte, sz)
 			read(bff, s)
 			values[i] = getString(s)
@@ -191,6 +193,7 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 			bff = newResetReaderFromBytes(s)
 		} else {
 			bff, _ = hr.readGlobalHeap(addr, index)
+			assertError(bff != nil, ErrCorrupted, "object not found in the global heap")
 		}
 		var t reflect.Type
 		val0 = getDataAttr(hr, c, bff, attr)
-- 
2.43.0


From ebe59ebcd13629877b1a71d7ebc0a9a64e5992fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 37/81] fix: hdf5: read all of the bits of the number of
 members

---
 netcdf/hdf5/compound.go      | 2 +-
 netcdf/hdf5/enum.go          | 2 +-
 netcdf/hdf5/floatingPoint.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..750dd76 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..f064c95 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index cc1e752..7cf275e 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -88,7 +88,7 @@ func (floatingPointManagerType) defaultFillValue(obj *object, _ []byte, undefine
 func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
 	assertError(attr.dtversion == 1, ErrFloatingPoint, "Only support version 1 of float")
 	logger.Info("* floating-point")
-	endian := ((bitFields >> 5) & 0b10) | (bitFields & 0b1)
+	endian := ((bitFields >> 5) & 0b10) | (bitFields & 0b1) // bits 6 and 0
 	switch endian {
 	case 0:
 		attr.endian = binary.LittleEndian
-- 
2.43.0


From d029060efe15accc21650379df6546dd58b4ea45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 38/81] fix: hdf5: handle compounds with three byte offsets

---
 netcdf/hdf5/hdf5.go         | 3 +++
 netcdf/hdf5/writer_utils.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index fc19df6..920a866 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -327,6 +327,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		lo := read16(r)
+		return uint64(lo) | uint64(read8(r))<<16
 	case 4:
 		return uint64(read32(r))
 	case 8:
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..59e6501 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -147,13 +147,16 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
-// writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
+// writeEnc writes a 1, 2, 3, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
 	case totalSize < 256:
 		util.MustWriteByte(buf, byte(val))
 	case totalSize < 65536:
 		util.MustWriteLE(buf, uint16(val))
+	case totalSize < 16777216:
+		util.MustWriteLE(buf, uint16(val))
+		util.MustWriteByte(buf, byte(val>>16))
 	default:
 		util.MustWriteLE(buf, val)
 	}
-- 
2.43.0


From bc048c4ac2f6892824404ff25553b4e51ca74038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 39/81] fix: hdf5: look at the registered types in a fixed
 order

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 920a866..f6160e1 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -7,9 +7,11 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -2773,7 +2775,8 @@ func (h5 *HDF5) cast(attr attribute) reflect.Type {
 	logger.Info("trying to find cast for", ty, len(h5.registrations),
 		"class=", typeNames[attr.class])
 loop:
-	for _, p := range h5.registrations {
+	for _, name := range slices.Sorted(maps.Keys(h5.registrations)) {
+		p := h5.registrations[name]
 		v := reflect.TypeOf(p)
 		// Enums are always ints
 		found := false
-- 
2.43.0


From 8741fc6cc556b74de4557396df9ed36a12894c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 40/81] fix: hdf5 writer: write the same file for the same
 contents

---
 netcdf/hdf5/hdf5writer.go | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..739d74f 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"reflect"
 	"slices"
@@ -63,6 +64,12 @@ type HDF5Writer struct {
 	vlenPos         int      // counter into vlenHeapIndices during data write
 }
 
+// sortedNames returns the names in a fixed order, so that writing the same things
+// always gives the same file.
+func sortedNames[T any](m map[string]T) []string {
+	return slices.Sorted(maps.Keys(m))
+}
+
 func (hw *HDF5Writer) Close() (err error) {
 	defer thrower.RecoverError(&err)
 	if hw.closed {
@@ -244,15 +251,16 @@ func (hw *HDF5Writer) writeDimScaleContents(g *h5Group) {
 	}
 
 	// Recurse into subgroups
-	for _, sub := range g.groups {
-		hw.writeDimScaleContents(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.writeDimScaleContents(g.groups[name])
 	}
 }
 
 // collectDimReferences adds global heap entries for dimension references
 // needed by DIMENSION_LIST attributes.
 func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		if v.isDimScale {
 			continue
 		}
@@ -274,8 +282,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectDimReferences(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectDimReferences(g.groups[name])
 	}
 }
 
@@ -592,7 +600,8 @@ func (hw *HDF5Writer) shouldUseVLen(rv reflect.Value) bool {
 }
 
 func (hw *HDF5Writer) collectStrings(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		hw.collectStringsRecursive(reflect.ValueOf(v.val))
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
@@ -607,8 +616,8 @@ func (hw *HDF5Writer) collectStrings(g *h5Group) {
 			hw.collectStringsRecursive(reflect.ValueOf(val))
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectStrings(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectStrings(g.groups[name])
 	}
 }
 
@@ -682,7 +691,8 @@ func (hw *HDF5Writer) addStringToHeap(s string) {
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		nDims := len(v.dimensions)
 		rv := reflect.ValueOf(v.val)
 		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
@@ -693,8 +703,8 @@ func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 			hw.collectVlenElements(rv, nDims, v)
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectVlenData(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectVlenData(g.groups[name])
 	}
 }
 
@@ -768,7 +778,8 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 // collectAttrVlenData walks all attributes (on variables and groups) and
 // serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
-	for _, v := range g.vars {
+	for _, name := range sortedNames(g.vars) {
+		v := g.vars[name]
 		if v.attributes != nil {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
@@ -796,8 +807,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			}
 		}
 	}
-	for _, sub := range g.groups {
-		hw.collectAttrVlenData(sub)
+	for _, name := range sortedNames(g.groups) {
+		hw.collectAttrVlenData(g.groups[name])
 	}
 }
 
-- 
2.43.0


From ecd0918a5362ad72e7fd1eddb0a8e46ec9ffdb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 41/81] fix: hdf5 writer: close the file even when writing
 fails

---
 netcdf/hdf5/hdf5writer.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 739d74f..4da911b 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -70,13 +70,24 @@ func sortedNames[T any](m map[string]T) []string {
 	return slices.Sorted(maps.Keys(m))
 }
 
-func (hw *HDF5Writer) Close() (err error) {
-	defer thrower.RecoverError(&err)
+func (hw *HDF5Writer) Close() error {
 	if hw.closed {
 		return nil
 	}
 	hw.closed = true
 
+	err := hw.write()
+	// close the file even if it could not be written
+	if closeErr := hw.file.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
+// write writes everything that was added to the file.
+func (hw *HDF5Writer) write() (err error) {
+	defer thrower.RecoverError(&err)
+
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
 	hw.createDimensionScales(hw.root)
@@ -117,10 +128,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
-- 
2.43.0


From c0ab5e59805489f1ecc5fa2ee454deb4f210b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 42/81] fix: hdf5 writer: accept nil group attributes

---
 netcdf/hdf5/hdf5writer.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 4da911b..a8c62ba 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -134,13 +134,19 @@ func (hw *HDF5Writer) write() (err error) {
 // addNCProperties adds the _NCProperties hidden attribute to the root group.
 func (hw *HDF5Writer) addNCProperties() {
 	const ncpValue = "version=2,github.com/batchatco/go-native-netcdf=1.0"
-	keys := hw.root.attributes.Keys()
-	keys = append(keys, ncpKey)
+	var keys []string
 	vals := make(map[string]any)
-	for _, k := range hw.root.attributes.Keys() {
-		v, _ := hw.root.attributes.Get(k)
-		vals[k] = v
+	if hw.root.attributes != nil {
+		for _, k := range hw.root.attributes.Keys() {
+			if k == ncpKey {
+				continue // replaced
+			}
+			v, _ := hw.root.attributes.Get(k)
+			keys = append(keys, k)
+			vals[k] = v
+		}
 	}
+	keys = append(keys, ncpKey)
 	vals[ncpKey] = ncpValue
 	hw.root.attributes, _ = util.NewOrderedMap(keys, vals)
 }
-- 
2.43.0


From e0f7af91825a3557d34e9eb3644c44cff8a1e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 43/81] fix: hdf5 writer: keep coordinate variables whose
 attributes have reserved names

---
 netcdf/hdf5/hdf5writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index a8c62ba..3493d31 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -216,6 +216,9 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			}
 			if existing.attributes != nil {
 				for _, k := range existing.attributes.Keys() {
+					if _, has := vals[k]; has {
+						continue // these are reserved for dimension scales
+					}
 					v, _ := existing.attributes.Get(k)
 					keys = append(keys, k)
 					vals[k] = v
-- 
2.43.0


From ce74d34faa7c8a65fe0c74c4ba1a38caf233e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 44/81] fix: hdf5 writer: write names longer than 255 bytes

---
 netcdf/hdf5/hdf5writer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 3493d31..3ef307a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -454,8 +454,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) < 256 {
+		util.MustWriteByte(buf, 0) // flags: 1-byte length of name
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 2) // flags: 4-byte length of name
+		util.MustWriteLE(buf, uint32(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
-- 
2.43.0


From eb4fbee414d4f1037aa1d288b3f99ac60b43a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 45/81] fix: hdf5 writer: return an error for attributes and
 heaps that do not fit

---
 netcdf/hdf5/hdf5writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 3ef307a..b4d4830 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"reflect"
 	"slices"
@@ -18,6 +19,9 @@ import (
 
 var (
 	ErrInvalidName = errors.New("invalid name")
+
+	// ErrTooLarge is returned when something doesn't fit in the structures of the file
+	ErrTooLarge = errors.New("too large for the file format")
 )
 
 type h5Var struct {
@@ -484,6 +488,7 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 
 	msgBuf := new(bytes.Buffer)
 	for _, m := range messages {
+		assertError(len(m.data) <= math.MaxUint16, ErrTooLarge, "object header message too large")
 		util.MustWriteByte(msgBuf, byte(m.mType))
 		util.MustWriteLE(msgBuf, uint16(len(m.data)))
 		util.MustWriteByte(msgBuf, m.flags)
@@ -975,6 +980,7 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 
 func (hw *HDF5Writer) writeGlobalHeap() {
 	gh := hw.heap
+	assertError(len(gh.objects) <= math.MaxUint16, ErrTooLarge, "too many objects in the global heap")
 
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
-- 
2.43.0


From 45c0f60fa9e4d000c1da3ab11443a918a7843eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 46/81] fix: hdf5 writer: reject a group and a variable with
 the same name

---
 netcdf/hdf5/hdf5writer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index b4d4830..d4cfb9a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -20,6 +20,9 @@ import (
 var (
 	ErrInvalidName = errors.New("invalid name")
 
+	// ErrDuplicateName is returned when a name is used for two different kinds of things
+	ErrDuplicateName = errors.New("duplicate name")
+
 	// ErrTooLarge is returned when something doesn't fit in the structures of the file
 	ErrTooLarge = errors.New("too large for the file format")
 )
@@ -231,6 +234,8 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			existing.attributes, _ = util.NewOrderedMap(keys, vals)
 		} else {
 			// Create synthetic dimension scale variable
+			_, has := g.groups[d.name]
+			assertError(!has, ErrDuplicateName, "group has the same name as a dimension")
 			nameVal := fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", d.size)
 			dimAttrs, _ := util.NewOrderedMap(
 				[]string{"CLASS", "NAME", "_Netcdf4Dimid"},
@@ -1122,6 +1127,9 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 			}
 		}
 	}
+	if _, has := hw.root.groups[name]; has {
+		return fmt.Errorf("%w: %s", ErrDuplicateName, name)
+	}
 	hw.root.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1138,6 +1146,9 @@ func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
 	if g, ok := hw.root.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
+	if _, has := hw.root.vars[name]; has {
+		return nil, fmt.Errorf("%w: %s", ErrDuplicateName, name)
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
@@ -1190,6 +1201,9 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 			}
 		}
 	}
+	if _, has := gw.group.groups[name]; has {
+		return fmt.Errorf("%w: %s", ErrDuplicateName, name)
+	}
 	gw.group.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
@@ -1206,6 +1220,9 @@ func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
 	if g, ok := gw.group.groups[name]; ok {
 		return &groupWriter{hw: gw.hw, group: g}, nil
 	}
+	if _, has := gw.group.vars[name]; has {
+		return nil, fmt.Errorf("%w: %s", ErrDuplicateName, name)
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
-- 
2.43.0


From e910ae35884293b74a55fb851815dcc7e7ec6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 47/81] fix: hdf5 writer: reject values that are not
 rectangular

---
 netcdf/hdf5/hdf5writer.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index d4cfb9a..b1e27ba 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1119,6 +1119,9 @@ func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
+	if !isRectangular(reflect.ValueOf(vr.Values), len(vr.Dimensions)) {
+		return ErrDimensionality
+	}
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
@@ -1193,6 +1196,9 @@ func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
+	if !isRectangular(reflect.ValueOf(vr.Values), len(vr.Dimensions)) {
+		return ErrDimensionality
+	}
 	if vr.Attributes != nil {
 		for _, k := range vr.Attributes.Keys() {
 			v, _ := vr.Attributes.Get(k)
@@ -1232,6 +1238,31 @@ func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
 	return &groupWriter{hw: gw.hw, group: g}, nil
 }
 
+// isRectangular checks whether all of the slices in the first nDims dimensions of rv
+// have the same length. Anything deeper than that is variable-length.
+func isRectangular(rv reflect.Value, nDims int) bool {
+	if e, ok := rv.Interface().(enumerated); ok {
+		return isRectangular(reflect.ValueOf(e.values), nDims)
+	}
+	shape := getDimensionsLimited(rv, nDims)
+	var check func(rv reflect.Value, shape []uint64) bool
+	check = func(rv reflect.Value, shape []uint64) bool {
+		if len(shape) == 0 {
+			return true
+		}
+		if uint64(rv.Len()) != shape[0] {
+			return false
+		}
+		for i := range rv.Len() {
+			if !check(rv.Index(i), shape[1:]) {
+				return false
+			}
+		}
+		return true
+	}
+	return check(rv, shape)
+}
+
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
 // handle. It recursively unwraps slices/arrays (stopping at compound/opaque)
 // and checks that the leaf type is one of the supported scalar types.
-- 
2.43.0


From 2c2f993fd8c720dfe9d4778616fd9d1bb874c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 48/81] fix: hdf5: report errors of the data under a shuffle
 filter

A read that failed without returning any bytes ended the loop with no
error, so a damaged compressed chunk read as zeros.
---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f6160e1..9675db6 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2468,7 +2468,7 @@ func readAll(bf io.Reader, b []byte) (uint64, error) {
 	tot := uint64(0)
 	for {
 		n, err := bf.Read(b)
-		if n == 0 {
+		if n == 0 && err == nil {
 			break
 		}
 		tot += uint64(n)
-- 
2.43.0


From 0a7f40e0e483e08cc9c946844b57ca71b74b5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 49/81] fix: hdf5: report the end of data under a fletcher32
 filter

The reader returned no bytes and no error, so reading truncated data never ended.
---
 netcdf/hdf5/readers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 4baa6d9..92ceeaf 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -98,7 +98,7 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 		thisLen = (fl.size - 4) - fl.count
 	}
 	n, err := fl.r.Read(b[:thisLen])
-	if err != nil && err != io.EOF {
+	if err != nil && (n == 0 || err != io.EOF) {
 		return 0, err
 	}
 	addToSums := func(val uint16) {
-- 
2.43.0


From e744c7b2ed3b83e24bea9cec54cf5caea2ec8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 50/81] fix: hdf5: reject shared messages instead of misreading
 them

---
 netcdf/hdf5/hdf5.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 9675db6..c1dc942 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1913,6 +1913,9 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		} else {
 			logger.Info("header message flag: NOT constant message")
 		}
+		// A shared message only has a reference to where the real message is.
+		assertError(!hasFlag8(hFlags, 1), ErrUnsupportedDataTypeVersion,
+			"shared messages not supported")
 		if hasFlag8(hFlags, 2) {
 			logger.Info("header message flag: do not share message")
 		}
-- 
2.43.0


From 1eedf509ab7ff1d8bf2b5bb1aeb4b501e435bfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 51/81] fix: hdf5: reject integers with unused bits

---
 netcdf/hdf5/fixedPoint.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netcdf/hdf5/fixedPoint.go b/netcdf/hdf5/fixedPoint.go
index 1c882e4..91aee21 100644
--- a/netcdf/hdf5/fixedPoint.go
+++ b/netcdf/hdf5/fixedPoint.go
@@ -156,6 +156,8 @@ func (fixedPointManagerType) parse(hr heapReader, c caster, attr *attribute, bit
 	default:
 		thrower.Throw(ErrFixedPoint)
 	}
+	assertError(uint32(bitPrecision) == 8*attr.length, ErrFixedPoint,
+		"precision must be the size of the type")
 	if df == nil {
 		logger.Infof("no data")
 		return
-- 
2.43.0


From 2b2607d1e675dcc2a2627d2331ed0048ee4b45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 52/81] fix: hdf5: check the mantissa of floating-point types

---
 netcdf/hdf5/floatingPoint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 7cf275e..06548f4 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -134,12 +134,16 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		assertError(exponentLocation == 23, ErrFloatingPoint, "float32 exponent location must be 23")
 		assertError(exponentSize == 8, ErrFloatingPoint, "float32 exponent size must be 8")
 		assertError(exponentBias == 127, ErrFloatingPoint, "float32 exponent bias must be 127")
+		assertError(mantissaLocation == 0, ErrFloatingPoint, "float32 mantissa location must be 0")
+		assertError(mantissaSize == 23, ErrFloatingPoint, "float32 mantissa size must be 23")
 	case 8:
 		assertError(sign == 63, ErrFloatingPoint, "float64 sign location must be 63")
 		assertError(bitPrecision == 64, ErrFloatingPoint, "float64 precision must be 64")
 		assertError(exponentLocation == 52, ErrFloatingPoint, "float64 exponent location must be 52")
 		assertError(exponentSize == 11, ErrFloatingPoint, "float64 exponent size must be 11")
 		assertError(exponentBias == 1023, ErrFloatingPoint, "float64 exponent bias must be 1023")
+		assertError(mantissaLocation == 0, ErrFloatingPoint, "float64 mantissa location must be 0")
+		assertError(mantissaSize == 52, ErrFloatingPoint, "float64 mantissa size must be 52")
 	default:
 		logger.Error("bad dtlenth for fp", attr.length)
 		thrower.Throw(ErrFloatingPoint)
-- 
2.43.0


From 2e8ad3b49333ee47766bdf3dc6e764cacf6756d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 53/81] fix: cdf: character variables without data are strings,
 not bytes

---
 netcdf/cdf/cdf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index b9229ac..18ff71d 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -1119,6 +1119,13 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
+		if vType == typeChar && len(dimLengths) > 0 {
+			// strings, the last dimension is their length
+			if len(dimLengths) == 1 {
+				return ""
+			}
+			return emptySlice([]string{}, dimLengths[:len(dimLengths)-1])
+		}
 		return emptySlice(data, dimLengths)
 	}
 	if len(dimLengths) == 0 {
-- 
2.43.0


From 7d662f8bdc12922aeacd3859d8cd0b87a324d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 54/81] fix: a failed read of an HDF5 attribute does not change
 later reads

---
 netcdf/hdf5/hdf5.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c1dc942..6d5f848 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3100,17 +3100,21 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 
 func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
+		df := a.df
+		if saved, ok := df.(*resetReader); ok && saved.bytes != nil {
+			df = newResetReaderFromBytes(saved.bytes) // in case it was read before and that failed
+		}
+		df = makeFillValueReader(obj, df, int64(calcAttrSize(a)))
 		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
 		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
 		save := h5.registrations
+		defer func() { h5.registrations = save }()
 		switch a.name {
 		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
 			h5.registrations = nil
 		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
+		a.value = getDataAttr(h5, h5, df, *a)
 		a.df = nil
-		h5.registrations = save
 	}
 }
 
@@ -3125,13 +3129,14 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
 			if val.value == nil {
-				if val.df == nil {
+				df := val.df
+				if df == nil {
 					logger.Info("Need fill value reader", val.name)
 					fakeObj := newObject()
 					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
+					df = makeFillValueReader(fakeObj, nil, int64(sz))
 				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
+				val.value = getDataAttr(h5, h5, df, *val)
 			}
 			value := undoScalarAttribute(val.value)
 			if _, has := filtered[val.name]; !has {
-- 
2.43.0


From dbbfd9cbd81fde35574fb3dc28ab33468ae24f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 55/81] fix: hdf5: dimension names do not depend on map order

Two hard links to the same dimension scale have the same address; which of their names
was used changed from run to run.
---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 6d5f848..1e36d08 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3188,7 +3188,7 @@ func (h5 *HDF5) addrIndex() map[uint64]string {
 	var walk func(*object)
 	walk = func(obj *object) {
 		m[obj.addr] = obj.name
-		for _, child := range obj.children {
+		for _, child := range obj.sortChildren() {
 			walk(child)
 		}
 	}
-- 
2.43.0


From 6a7a49934539729307076337141f7a4c5833d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 56/81] fix: hdf5: character arrays of two or more dimensions
 can be read

---
 netcdf/hdf5/string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..4b171dc 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -74,7 +74,12 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		return values
 	}
 	ty := reflect.TypeOf("")
-	vals := makeSlices(ty, dimLengths)
+	sliceDims := dimLengths
+	if dtlen == 1 {
+		// The last dimension of a character array is the length of its strings.
+		sliceDims = dimLengths[:len(dimLengths)-1]
+	}
+	vals := makeSlices(ty, sliceDims)
 	for i := uint64(0); i < thisDim; i++ {
 		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
 	}
-- 
2.43.0


From 5d724a306565446c93c7fefee4ea5dbdbcf951ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 57/81] fix: hdf5: read compound members at their offsets in
 whatever order they are declared

---
 netcdf/hdf5/compound.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 750dd76..92e678e 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -1,9 +1,11 @@
 package hdf5
 
 import (
+	"cmp"
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strings"
 
 	"github.com/batchatco/go-thrower"
@@ -171,8 +173,18 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 		}
 		cbf := newResetReader(bf, rem)
 		varray := make([]compoundField, len(attr.children))
-		for i, c := range attr.children {
+		// The members can be in any order; their data is read in the order of the offsets.
+		order := make([]int, len(attr.children))
+		for i := range order {
+			order[i] = i
+		}
+		slices.SortStableFunc(order, func(i, j int) int {
+			return cmp.Compare(attr.children[i].byteOffset, attr.children[j].byteOffset)
+		})
+		for _, i := range order {
+			c := attr.children[i]
 			byteOffset := c.byteOffset
+			assertError(int64(byteOffset) >= cbf.Count(), ErrCorrupted, "compound members overlap")
 			clen := uint64(calcAttrSize(c))
 			if int64(byteOffset) > cbf.Count() {
 				skipLen := int64(byteOffset) - cbf.Count()
-- 
2.43.0


From 20c3ac3e2da4dd8f3f8f914361b6570be30eb31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 58/81] fix: hdf5: opaque types can be followed by other
 members of a compound

---
 netcdf/hdf5/opaque.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..f64cd28 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,11 +44,12 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
+	plen := int(bitFields & 0b11111111)
 	if bf.Rem() == 0 {
 		logger.Info("No properties for opaque")
-		return
+		plen = 0
 	}
-	plen := int(bf.Rem())
+	assertError(int64(plen) <= bf.Rem(), ErrCorrupted, "opaque tag is too long")
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
-- 
2.43.0


From 72dad6831b3b319e0665e52222a12fd556f43e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 59/81] fix: slices of character arrays can reach into trailing
 null characters

---
 internal/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 4992c7b..b2cbbec 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -109,6 +109,11 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 	if v.Kind() == reflect.Slice || v.Kind() == reflect.String {
 		b := int(begin[0])
 		e := int(end[0])
+		if v.Kind() == reflect.String {
+			// Trailing null characters are not part of the string.
+			b = min(b, v.Len())
+			e = min(e, v.Len())
+		}
 		sliced := v.Slice(b, e)
 
 		if len(dims) > 1 {
-- 
2.43.0


From 0db0cdc474970070ba258fd1af0838622e2d8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 60/81] fix: hdf5: slices of enumerations are cut in every
 dimension

---
 netcdf/hdf5/hdf5.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1e36d08..de8925d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3362,6 +3362,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if enum, ok := partialData.(enumerated); ok {
+			enum.values, err = internal.SliceMD(enum.values, newDims, newBegin, newEnd)
+			return enum, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
-- 
2.43.0


From 5a8fb51480825dc69e85a27f975e2bfc7feeedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 61/81] fix: hdf5: variable-length variables without elements
 can be read

---
 netcdf/hdf5/hdf5.go | 20 +-------------------
 netcdf/hdf5/vlen.go |  6 ++++++
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index de8925d..568873d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3456,24 +3456,6 @@ func (h5 *HDF5) ListVariables() []string {
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
 func undoInterfaces(v any) reflect.Value {
 	top := reflect.ValueOf(v)
 	if top.Kind() != reflect.Slice {
@@ -3487,7 +3469,7 @@ func undoInterfaces(v any) reflect.Value {
 	}
 	length := reflect.ValueOf(v).Len()
 	if length == 0 {
-		return emptySlice(v)
+		return reflect.MakeSlice(top.Type(), 0, 0)
 	}
 	underlying := undoInterfaces(top.Index(0).Interface())
 	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 49fa4fc..3bf0e9e 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -216,6 +216,12 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		return sl.Interface()
 	}
 	thisDim := dimLengths[0]
+	if thisDim == 0 {
+		// There's no value to read, so we fake one to get the type.
+		none := newResetReaderFromBytes(make([]byte, 16))
+		val0 := allocVariable(hr, c, none, nil, attr, cast)
+		return makeSlices(reflect.TypeOf(val0), dimLengths).Interface()
+	}
 	if len(dimLengths) == 1 {
 		// For scalars, this can be faster using binary.Read
 		vals := make([]any, thisDim)
-- 
2.43.0


From f2592cd0e75b271ad67c6df2d3f05b1f4234f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 62/81] fix: hdf5: fletcher32 sums that are multiples of 65535
 are not mistaken for errors

---
 netcdf/hdf5/readers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 92ceeaf..84eaf46 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -101,9 +101,13 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err != nil && (n == 0 || err != io.EOF) {
 		return 0, err
 	}
+	// The sums are ones' complement sums: multiples of 65535 other than zero stay 65535.
+	fold := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		fl.sum1 = fold(fl.sum1 + uint32(val))
+		fl.sum2 = fold(fl.sum1 + fl.sum2)
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
-- 
2.43.0


From c65de37d8313f2cc5fd6b53f7f36ecb32a2d320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 63/81] fix: hdf5: fletcher32 checksums are verified when only
 a part of a chunk is read

---
 netcdf/hdf5/hdf5.go    |  4 +++-
 netcdf/hdf5/readers.go | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 568873d..1aa37c4 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2577,8 +2577,10 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			}
 			switch f.kind {
 			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
+				fbf := fletcher32Reader(bf, inputSize)
 				inputSize -= 4
+				bf = &wholeReader{r: fbf, size: inputSize}
+				canSeek = false
 			case filterDeflate:
 				zbf, err := zlib.NewReader(bf)
 				if err != nil {
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 84eaf46..b04f464 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -145,6 +145,26 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	return n, nil
 }
 
+// wholeReader reads all of r before it returns any of it, so that a checksum at the end is
+// verified even when only a part is wanted.
+type wholeReader struct {
+	r    io.Reader
+	size uint64
+	b    io.Reader
+}
+
+func (w *wholeReader) Read(p []byte) (int, error) {
+	if w.b == nil {
+		b, err := io.ReadAll(io.LimitReader(w.r, int64(w.size)))
+		thrower.ThrowIfError(err)
+		if uint64(len(b)) < w.size {
+			thrower.Throw(io.ErrUnexpectedEOF)
+		}
+		w.b = bytes.NewReader(b)
+	}
+	return w.b.Read(p)
+}
+
 func (r *resetReader) Rem() int64 {
 	return r.lr.N
 }
-- 
2.43.0


From 605a9e9842bf206ddb6be855909dce7413e0fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 64/81] fix: hdf5: checksum errors at the end of compressed
 chunks are reported

---
 netcdf/hdf5/hdf5.go    | 2 +-
 netcdf/hdf5/readers.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 1aa37c4..2f8ab71 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2588,8 +2588,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				}
 				// If there are more filters, we don't know the size yet.
 				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
 				inputSize = targetSize[j]
+				bf = &wholeReader{r: zbf, size: inputSize}
 				canSeek = false
 			case filterShuffle:
 				shuffleParam := uint32(0)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index b04f464..4fad717 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -93,6 +93,9 @@ func (fl *fletcher) Count() int64 {
 }
 
 func (fl *fletcher) Read(b []byte) (int, error) {
+	if fl.readChecksum {
+		return 0, io.EOF
+	}
 	thisLen := uint64(len(b))
 	if thisLen+fl.count > fl.size-4 {
 		thisLen = (fl.size - 4) - fl.count
@@ -155,11 +158,13 @@ type wholeReader struct {
 
 func (w *wholeReader) Read(p []byte) (int, error) {
 	if w.b == nil {
-		b, err := io.ReadAll(io.LimitReader(w.r, int64(w.size)))
+		// One more byte than there should be, so that the end is reached.
+		b, err := io.ReadAll(io.LimitReader(w.r, int64(w.size)+1))
 		thrower.ThrowIfError(err)
 		if uint64(len(b)) < w.size {
 			thrower.Throw(io.ErrUnexpectedEOF)
 		}
+		assertError(uint64(len(b)) == w.size, ErrCorrupted, "more data than expected")
 		w.b = bytes.NewReader(b)
 	}
 	return w.b.Read(p)
-- 
2.43.0


From 6662b86ba95bcb2eefd0090096a8f620169a5290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 65/81] fix: hdf5: chunks that are too short are errors instead
 of shifting the data

---
 netcdf/hdf5/hdf5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2f8ab71..a51c5ba 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2596,11 +2596,12 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				if len(f.cdv) > 0 {
 					shuffleParam = f.cdv[0]
 				}
+				assertError(inputSize == targetSize[j], ErrCorrupted, "bad size of shuffled data")
 				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
-				inputSize = targetSize[j]
 				canSeek = false
 			}
 		}
+		assertError(inputSize == dsLength, ErrCorrupted, "bad size of data")
 		if skipBegin > 0 {
 			if canSeek {
 				thisSize := int64(dsLength - (skipBegin + skipEnd))
-- 
2.43.0


From 477defdcbaf02aa8874bcc291b82a5bc27b9e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 66/81] fix: keep the bytes after the last whole element when
 unshuffling

A checksum added before shuffling makes the size of the data no multiple of the size
of the elements. The remaining bytes became zero, and the checksum failed.
---
 netcdf/hdf5/readers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 4fad717..5a936d2 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -337,6 +337,9 @@ func unshuffle(val []byte, n uint32) {
 			tmp[j*int(n)+i] = val[i*nelems+j]
 		}
 	}
+	// Bytes at the end that aren't a whole element (of a checksum, for example) aren't shuffled.
+	whole := nelems * int(n)
+	copy(tmp[whole:], val[whole:])
 	copy(val, tmp)
 }
 
-- 
2.43.0


From 3a5c212185f88e77e42cce2594f1dd996bd5b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 67/81] fix: hdf5: read chunks that were shuffled after they
 were compressed

The size of the shuffled data is then that of the compressed data, not that of the
uncompressed data at this point of the pipeline, which made valid files fail.
---
 netcdf/hdf5/hdf5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a51c5ba..8db9155 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2596,8 +2596,8 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				if len(f.cdv) > 0 {
 					shuffleParam = f.cdv[0]
 				}
-				assertError(inputSize == targetSize[j], ErrCorrupted, "bad size of shuffled data")
-				bf = newUnshuffleReader(bf, targetSize[j], shuffleParam)
+				// Shuffling doesn't change the size, whatever has been done to the data before it.
+				bf = newUnshuffleReader(bf, inputSize, shuffleParam)
 				canSeek = false
 			}
 		}
-- 
2.43.0


From b5b17f2ea5d8d674e9fe6fa10dff2b43fdb1bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 68/81] fix: the HDF5 writer checks the number of dimensions

---
 netcdf/hdf5/hdf5writer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index b1e27ba..9430d5a 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -1087,6 +1087,10 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 		if rv.Len() > 0 {
 			inner := getDimensionsLimited(rv.Index(0), maxDepth-1)
 			dims = append(dims, inner...)
+		} else if rv.Type().Elem().Kind() == reflect.Slice {
+			// nothing to look into, but the type tells how many there are
+			inner := getDimensionsLimited(reflect.Zero(rv.Type().Elem()), maxDepth-1)
+			dims = append(dims, inner...)
 		}
 		return dims
 	}
@@ -1238,7 +1242,7 @@ func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
 	return &groupWriter{hw: gw.hw, group: g}, nil
 }
 
-// isRectangular checks whether all of the slices in the first nDims dimensions of rv
+// isRectangular checks whether rv has nDims dimensions and all of the slices in them
 // have the same length. Anything deeper than that is variable-length.
 func isRectangular(rv reflect.Value, nDims int) bool {
 	if e, ok := rv.Interface().(enumerated); ok {
@@ -1260,7 +1264,7 @@ func isRectangular(rv reflect.Value, nDims int) bool {
 		}
 		return true
 	}
-	return check(rv, shape)
+	return len(shape) == nDims && check(rv, shape)
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
-- 
2.43.0


From 740cf2f2733ec36d9967455b8bce1f1913da1af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 69/81] fix: the HDF5 writer rejects nested variable-length
 data, which it wrote wrong

---
 netcdf/hdf5/hdf5writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 9430d5a..cca194c 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -914,6 +914,8 @@ func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
 		default:
+			// nested slices would need a datatype of their own
+			assertError(elem.Kind() != reflect.Slice, ErrUnsupportedType, "nested variable-length data")
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
@@ -975,6 +977,8 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 		case enumerated:
 			util.MustWrite(buf, hw.byteOrder, val.values)
 		default:
+			// nested slices would need a datatype of their own
+			assertError(elem.Kind() != reflect.Slice, ErrUnsupportedType, "nested variable-length data")
 			util.MustWrite(buf, hw.byteOrder, val)
 		}
 	}
-- 
2.43.0


From b9e06d44e6811fdb294e4f30eed503e5609f074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 70/81] fix: strings in the heap are not taken for references
 to dimensions

---
 netcdf/hdf5/hdf5writer.go   | 12 ++++++++----
 netcdf/hdf5/writer_utils.go |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index cca194c..7626714 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -50,7 +50,8 @@ type h5Group struct {
 type h5GlobalHeap struct {
 	addr    uint64
 	objects [][]byte
-	indices map[string]uint32
+	indices map[string]uint32 // of strings
+	dimRefs map[string]uint32 // of references to dimensions
 }
 
 type h5Message struct {
@@ -108,7 +109,10 @@ func (hw *HDF5Writer) write() (err error) {
 	hw.writeDimScaleContents(hw.root)
 
 	// 3. Collect strings, vlen data, and dimension references, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.heap = &h5GlobalHeap{
+		indices: make(map[string]uint32),
+		dimRefs: make(map[string]uint32),
+	}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
@@ -293,7 +297,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.heap.dimRefs[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -304,7 +308,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
 			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.heap.dimRefs[dname] = uint32(len(hw.heap.objects))
 		}
 	}
 	for _, name := range sortedNames(g.groups) {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 59e6501..5b981db 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -604,7 +604,7 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
+		heapIdx := hw.heap.dimRefs[dname]
 		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
 		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
 		util.MustWriteLE(buf, heapIdx)         // global heap object index
-- 
2.43.0


From aebd7632b399ab25d9ab671d46440b973ec68d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:13 +0000
Subject: [PATCH 71/81] fix: the HDF5 writer rejects a dimension with more than
 one length

---
 netcdf/hdf5/hdf5writer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 7626714..acf33a1 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -170,7 +170,7 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 		size uint64
 	}
 	// Collect unique dimensions in order
-	seen := make(map[string]bool)
+	seen := make(map[string]uint64)
 	var dims []dimInfo
 
 	var collectDims func(grp *h5Group)
@@ -187,14 +187,18 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 			}
 			shape := hw.getDimensions(v.val)
 			for i, dname := range v.dimensions {
-				if dname == "" || seen[dname] {
+				if dname == "" {
 					continue
 				}
-				seen[dname] = true
 				var size uint64
 				if i < len(shape) {
 					size = shape[i]
 				}
+				if old, has := seen[dname]; has {
+					assertError(old == size, ErrDimensionality, "dimension has more than one length")
+					continue
+				}
+				seen[dname] = size
 				dims = append(dims, dimInfo{dname, size})
 			}
 		}
-- 
2.43.0


From aa0345b3397a5a72c7619644b554d1cc277f3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:42 +0000
Subject: [PATCH 72/81] fix: coordinate variables with strings or
 variable-length data are written

---
 netcdf/hdf5/hdf5writer.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index acf33a1..a31e1ef 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -52,6 +52,7 @@ type h5GlobalHeap struct {
 	objects [][]byte
 	indices map[string]uint32 // of strings
 	dimRefs map[string]uint32 // of references to dimensions
+	addrs   []uint64          // of the objects, once they are written
 }
 
 type h5Message struct {
@@ -104,11 +105,7 @@ func (hw *HDF5Writer) write() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
+	// 2. Collect strings, vlen data, and dimension references, then write global heap
 	hw.heap = &h5GlobalHeap{
 		indices: make(map[string]uint32),
 		dimRefs: make(map[string]uint32),
@@ -121,6 +118,14 @@ func (hw *HDF5Writer) write() (err error) {
 		hw.writeGlobalHeap()
 	}
 
+	// 3. Write dimension scale variable data and OHs, then set the
+	//    references to them in the global heap.
+	hw.writeDimScaleContents(hw.root)
+	for _, dname := range sortedNames(hw.heap.dimRefs) {
+		idx := hw.heap.dimRefs[dname]
+		binary.LittleEndian.PutUint64(hw.buf.Bytes()[hw.heap.addrs[idx-1]:], hw.dimAddrs[dname])
+	}
+
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
 
@@ -304,14 +309,9 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if _, ok := hw.heap.dimRefs[dname]; ok {
 				continue
 			}
-			addr, ok := hw.dimAddrs[dname]
-			if !ok {
-				continue
-			}
-			// Store the 8-byte object reference in the global heap
-			ref := make([]byte, 8)
-			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
+			// Store the 8-byte object reference in the global heap.
+			// The address is filled in when it is known.
+			hw.heap.objects = append(hw.heap.objects, make([]byte, 8))
 			hw.heap.dimRefs[dname] = uint32(len(hw.heap.objects))
 		}
 	}
@@ -1019,6 +1019,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
 		util.MustWriteLE(hw.buf, uint64(len(obj)))
+		gh.addrs = append(gh.addrs, uint64(hw.buf.Len()))
 		util.MustWriteRaw(hw.buf, obj)
 		// Pad object to 8 bytes
 		for (hw.buf.Len() % 8) != 0 {
-- 
2.43.0


From d4644cbee2f1308c4958b3685f47bbe6c9940bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:51 +0000
Subject: [PATCH 73/81] fix: the HDF5 writer rejects a variable with the name
 of a dimension it does not have

---
 netcdf/hdf5/hdf5writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index a31e1ef..63afc25 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -224,7 +224,10 @@ func (hw *HDF5Writer) createDimensionScales(g *h5Group) {
 	// adding the required attributes. Otherwise create a synthetic one.
 	for i, d := range dims {
 		if existing, ok := g.vars[d.name]; ok && !existing.isDimScale {
-			// Promote existing coordinate variable to dimension scale
+			// Promote existing coordinate variable to dimension scale.
+			// It can only have its own dimension.
+			own := len(existing.dimensions) == 1 && existing.dimensions[0] == d.name
+			assertError(own, ErrDuplicateName, "variable has the same name as a dimension")
 			existing.isDimScale = true
 			// Prepend CLASS, NAME, _Netcdf4Dimid to existing attributes
 			nameVal := d.name
-- 
2.43.0


From 98e9b50ead516555f07d13ca508b8396ce3c99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 74/81] fix: the HDF5 writer writes variables of compounds with
 variable-length fields

---
 netcdf/hdf5/hdf5writer.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 63afc25..4e60791 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -779,8 +779,7 @@ func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
 	// Also check within compound fields
 	if c, ok := rv.Interface().(compound); ok {
 		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
+			if hw.hasVlenData(reflect.ValueOf(f.Val), 0) {
 				return true
 			}
 		}
@@ -795,6 +794,15 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
 		return
 	}
+	// Check compound fields for vlen
+	if c, ok := rv.Interface().(compound); ok {
+		for _, f := range c {
+			if hw.hasVlenData(reflect.ValueOf(f.Val), 0) {
+				hw.collectVlenElements(reflect.ValueOf(f.Val), 0, v)
+			}
+		}
+		return
+	}
 	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
 		for i := range rv.Len() {
 			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
@@ -804,16 +812,6 @@ func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5V
 	// At the vlen level: serialize this element's data
 	if rv.Kind() == reflect.Slice {
 		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
 	}
 }
 
-- 
2.43.0


From 168f2797d73830f1d98a4bc6fb6888b4360d9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 75/81] fix: strings in variable-length lists of compounds
 refer to the heap

---
 netcdf/hdf5/hdf5writer.go   | 12 ++++++------
 netcdf/hdf5/writer_utils.go |  2 ++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 4e60791..32f5154 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -106,7 +106,9 @@ func (hw *HDF5Writer) write() (err error) {
 	hw.writeSuperblockV2()
 
 	// 2. Collect strings, vlen data, and dimension references, then write global heap
+	//    (Its address has to be known for objects in the heap that refer to others.)
 	hw.heap = &h5GlobalHeap{
+		addr:    uint64(hw.buf.Len()),
 		indices: make(map[string]uint32),
 		dimRefs: make(map[string]uint32),
 	}
@@ -1000,12 +1002,10 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	gh := hw.heap
 	assertError(len(gh.objects) <= math.MaxUint16, ErrTooLarge, "too many objects in the global heap")
 
-	// Align to 8 bytes so that objects within the collection are
-	// properly aligned when using absolute buffer position for padding.
-	for (hw.buf.Len() % 8) != 0 {
-		util.MustWriteByte(hw.buf, 0)
-	}
-	gh.addr = uint64(hw.buf.Len())
+	// The collection comes right after the superblock, which has 48 bytes, so
+	// objects within it are properly aligned when using absolute buffer
+	// position for padding.
+	assertError(uint64(hw.buf.Len()) == gh.addr, ErrInternal, "the global heap is not where it should be")
 
 	// Collection Header
 	util.MustWriteRaw(hw.buf, []byte("GCOL"))
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 5b981db..b84c393 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -438,6 +438,8 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
 			if rv.Kind() == reflect.Slice {
+				// not collected when it is inside of variable-length data
+				assertError(hw.vlenPos < len(hw.vlenHeapIndices), ErrUnsupportedType, "nested variable-length data")
 				idx := hw.vlenHeapIndices[hw.vlenPos]
 				util.MustWriteLE(buf, uint32(rv.Len()))
 				util.MustWriteLE(buf, hw.heap.addr)
-- 
2.43.0


From b671e8445127549e4bf41b2b2fd6ddfa0a46a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 76/81] fix: the native byte order can be compared with the
 others

---
 netcdf/util/binary.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/netcdf/util/binary.go b/netcdf/util/binary.go
index 242d28b..c4974b0 100644
--- a/netcdf/util/binary.go
+++ b/netcdf/util/binary.go
@@ -8,7 +8,15 @@ import (
 )
 
 // NativeByteOrder is the byte order of the host machine.
-var NativeByteOrder binary.ByteOrder = binary.NativeEndian
+// It is one of binary.LittleEndian and binary.BigEndian, so that it can be compared with them.
+var NativeByteOrder = nativeByteOrder()
+
+func nativeByteOrder() binary.ByteOrder {
+	if binary.NativeEndian.Uint16([]byte{0, 1}) == 1 {
+		return binary.BigEndian
+	}
+	return binary.LittleEndian
+}
 
 // MustWrite wraps binary.Write and throws an error if it fails.
 func MustWrite(w io.Writer, order binary.ByteOrder, data any) {
-- 
2.43.0


From acaf52ec4575071cd0121ccbbf70479d4a243c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:10 +0000
Subject: [PATCH 77/81] fix: hdf5: attributes that only have the names of
 netCDF-4 bookkeeping are no cause to panic

---
 netcdf/hdf5/hdf5.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 8db9155..a4a39cc 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3210,7 +3210,11 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 			continue
 		}
 		logger.Infof("DIMENSION_LIST=%T 0x%x", a.value, a.value)
-		varLen := a.value.([][]uint64)
+		varLen, ok := a.value.([][]uint64)
+		if !ok {
+			logger.Info("not a list of dimensions")
+			continue
+		}
 		addrToName := h5.addrIndex()
 		for _, v := range varLen {
 			for i, addr := range v {
@@ -3236,19 +3240,7 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 			if a.name != "REFERENCE_LIST" {
 				continue
 			}
-			logger.Infof("value is %T %v", a.value, a.value)
-			for k, v := range a.value.([]compound) {
-				vals2 := v
-				v0 := vals2[0].Val.(uint64)
-				v1, has := vals2[1].Val.(int32)
-				if !has {
-					// Recent versions of netcdf tools generate unsigned for the dimension.
-					logger.Info("Unsigned reference dimension")
-					uv1 := vals2[1].Val.(uint32)
-					v1 = int32(uv1)
-				}
-				logger.Infof("single ref %d 0x%x %d %s", k, v0, v1, ob.name)
-			}
+			logger.Infof("value is %T %v %s", a.value, a.value, ob.name)
 		}
 		for _, o := range ob.children {
 			f(o)
@@ -3260,8 +3252,8 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		a := obj.attrlist[i]
 		switch a.name {
 		case "NAME":
-			nameValue := a.value.(string)
-			if !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
+			nameValue, ok := a.value.(string)
+			if ok && !strings.HasPrefix(nameValue, "This is a netCDF dimension") {
 				return append(dimNames, nameValue)
 			}
 		}
-- 
2.43.0


From b8ab581f3686774425611a617860ecd4d34d8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 78/81] fix: the HDF5 writer writes only one DIMENSION_LIST of
 a variable

---
 netcdf/hdf5/hdf5writer.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 32f5154..bce0cc5 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -440,8 +440,17 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 		{mType: 8, data: layoutMsg},
 	}
 
+	// The DIMENSION_LIST attribute is for data variables (not dim scales)
+	var dimListMsg *h5Message
+	if !v.isDimScale && len(v.dimensions) > 0 && hw.heap != nil {
+		dimListMsg = hw.buildDimensionListAttribute(v.dimensions)
+	}
+
 	if v.attributes != nil {
 		for _, k := range v.attributes.Keys() {
+			if k == "DIMENSION_LIST" && dimListMsg != nil {
+				continue // replaced
+			}
 			val, _ := v.attributes.Get(k)
 			if indices, ok := v.attrVlenIndices[k]; ok {
 				hw.vlenHeapIndices = indices
@@ -453,12 +462,8 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 		}
 	}
 
-	// Add DIMENSION_LIST attribute for data variables (not dim scales)
-	if !v.isDimScale && len(v.dimensions) > 0 && hw.heap != nil {
-		dimListMsg := hw.buildDimensionListAttribute(v.dimensions)
-		if dimListMsg != nil {
-			messages = append(messages, *dimListMsg)
-		}
+	if dimListMsg != nil {
+		messages = append(messages, *dimListMsg)
 	}
 
 	hw.writeObjectHeaderV2(messages)
-- 
2.43.0


From a477f0b90525e2729d9ed486dd7cc8435b6aa1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:07 +0000
Subject: [PATCH 79/81] fix: cdf: a scalar character from 0x80 on was read as
 two bytes

---
 netcdf/cdf/cdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 18ff71d..9f21675 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -961,7 +961,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
-- 
2.43.0


From b2e738d07b8807415ec908efebe99154c727010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:45 +0000
Subject: [PATCH 80/81] fix: hdf5: chunks of three or more dimensions were put
 together in the wrong order

---
 netcdf/hdf5/readers.go | 115 ++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 75 deletions(-)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 5a936d2..2008108 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -441,107 +441,72 @@ func (lr *layoutReader) fillrow() error {
 	rank := len(dims)
 
 	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
+	g := make([]uint64, rank)
+	chunksInStripe := uint64(1)
 	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
+		g[i] = (dims[i] + layout[i] - 1) / layout[i]
+		if i > 0 {
+			chunksInStripe *= g[i]
 		}
 	}
 
-	if lr.stripeIndex >= totalStripes {
+	// A stripe is all the chunks at the same position of the first dimension.
+	// It has consecutive elements.
+	if uint64(lr.stripeIndex) >= g[0] {
 		return io.EOF
 	}
-
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
+	stripeDims := make([]uint64, rank)
+	copy(stripeDims, dims)
+	stripeDims[0] = min(layout[0], dims[0]-uint64(lr.stripeIndex)*layout[0])
+	stripeSize := dtLength
+	for _, d := range stripeDims {
+		stripeSize *= d
 	}
+	lr.buf = make([]byte, stripeSize)
 
-	// Calculate number of valid rows in this stripe
 	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
+	last := rank - 1
+	rowsInChunk := uint64(1)
+	for i := range last {
+		rowsInChunk *= layout[i]
 	}
+	readBuf := make([]byte, calcChunkSize(attr)*dtLength)
+	start := make([]uint64, rank) // of a chunk, in the stripe
 
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
+	for chunk := range chunksInStripe {
 		// Read one chunk
 		_, err := io.ReadFull(lr.r, readBuf)
 		if err != nil {
 			return err
 		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
+		rem := chunk
+		for i := last; i > 0; i-- {
+			start[i] = (rem % g[i]) * layout[i]
+			rem /= g[i]
 		}
 
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
-			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
-			}
-
-			// Check if this row is valid in the dataset
+		// Copy the chunk's rows, as far as they are in the dataset, to lr.buf
+		copyLen := min(layout[last], stripeDims[last]-start[last])
+		for row := range rowsInChunk {
 			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
+			dest := start[last]
+			stride := stripeDims[last]
+			rem := row
+			for i := last - 1; i >= 0; i-- {
+				pos := start[i] + rem%layout[i]
+				rem /= layout[i]
+				if pos >= stripeDims[i] {
 					isValid = false
 					break
 				}
+				dest += pos * stride
+				stride *= stripeDims[i]
 			}
-
 			if !isValid {
 				continue
 			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
-			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
-			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			src := row * layout[last] * dtLength
+			copy(lr.buf[dest*dtLength:], readBuf[src:src+copyLen*dtLength])
 		}
 	}
 
-- 
2.43.0


From 9cddd91179aebe372144714ec65e72e3aa128df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:22 +0000
Subject: [PATCH 81/81] fix: hdf5: slices of variables in partial chunks always
 had the first elements

---
 netcdf/hdf5/hdf5.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index a4a39cc..9c3e52b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2652,8 +2652,15 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 
 func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
 	r := h5.newRecordReader(obj)
-	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
+	attr := obj.objAttr
+	if needsLayoutReader(attr) {
+		lr := newLayoutReader(r, obj)
+		if attr.isSlice && attr.firstDim > 0 && len(attr.dimensions) > 0 && attr.dimensions[0] > 0 {
+			// The layout reader starts at the beginning of the data.
+			rowSize := calcDataSize(attr) / attr.dimensions[0] * uint64(attr.length)
+			skip(lr, attr.firstDim*int64(rowSize))
+		}
+		return lr
 	}
 	return r
 }
@@ -2730,11 +2737,6 @@ func (h5 *HDF5) getData(obj *object) any {
 			chunkSize = 0
 		default:
 			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
 		}
 		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
 		bff = newResetReader(bf, sliceSize)
-- 
2.43.0

