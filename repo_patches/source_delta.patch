From 8f29734c100e42571f63b22a280bc075fe039977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 01/26] fix: numeric[] scanners must not truncate out of range
 integers

---
 pgsql/numericarr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pgsql/numericarr.go b/pgsql/numericarr.go
index 0398a41..8948c18 100644
--- a/pgsql/numericarr.go
+++ b/pgsql/numericarr.go
@@ -213,7 +213,7 @@ func (v numericArrayToInt8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int8s := make([]int8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -262,7 +262,7 @@ func (v numericArrayToInt16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int16s := make([]int16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -311,7 +311,7 @@ func (v numericArrayToInt32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	int32s := make([]int32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		i64, err := strconv.ParseInt(string(elems[i]), 10, 64)
+		i64, err := strconv.ParseInt(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -460,7 +460,7 @@ func (v numericArrayToUint8Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint8s := make([]uint8, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 8)
 		if err != nil {
 			return err
 		}
@@ -509,7 +509,7 @@ func (v numericArrayToUint16Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint16s := make([]uint16, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 16)
 		if err != nil {
 			return err
 		}
@@ -558,7 +558,7 @@ func (v numericArrayToUint32Slice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uint32s := make([]uint32, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 823838a011ba6200de701599200fda36c4c077bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 02/26] fix: int8[] scanner for []uint rejected values above 32
 bits

---
 pgsql/int8arr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/int8arr.go b/pgsql/int8arr.go
index 5999c24..29e119d 100644
--- a/pgsql/int8arr.go
+++ b/pgsql/int8arr.go
@@ -409,7 +409,7 @@ func (v int8ArrayToUintSlice) Scan(src interface{}) error {
 	elems := pgParseCommaArray(arr)
 	uints := make([]uint, len(elems))
 	for i := 0; i < len(elems); i++ {
-		u64, err := strconv.ParseUint(string(elems[i]), 10, 32)
+		u64, err := strconv.ParseUint(string(elems[i]), 10, 64)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 51199cc98a754a3fc347e91fea6b2cd7b3b36425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 03/26] fix: int8range[] and numrange[] scanners for
 [][2]float32 rejected bounds above 32 bits

---
 pgsql/int8rangearr.go | 4 ++--
 pgsql/numrangearr.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 416f928..674e2d4 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -801,12 +801,12 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		var lo, hi int64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
 				return err
 			}
 		}
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index 81557f0..c7feb2f 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -801,12 +801,12 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 		var lo, hi int64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 32); err != nil {
+			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 32); err != nil {
+			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From b93014fbe81ab9a5340341d7e63784902c771caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 04/26] fix: int2vector[] codec mangled unquoted, NULL and
 empty elements

---
 pgsql/convert_util.go  |  8 +++--
 pgsql/int2vectorarr.go | 72 +++++++++++++++++++++++++++++++++++-------
 2 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 2a8fd1a..7759cd6 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -654,7 +654,9 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 			k := i + 1 // vector start
 			for j := k; j < len(a); j++ {
 				if a[j] == '"' { // vector end
-					vector = append(vector, a[k:j])
+					if j > k {
+						vector = append(vector, a[k:j])
+					}
 					i = j + 1
 					break
 				}
@@ -668,16 +670,16 @@ func pgParseVectorArray(a []byte) (out [][][]byte) {
 		case 'N': // NULL element?
 			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
 				out = append(out, [][]byte(nil))
-				i = i + 3
+				i = i + 4
 			}
 		default: // unquoted element
 			k, j := i, i // elem start
 			for ; j < len(a); j++ {
 				if a[j] == ',' { // elem end
-					i = j
 					break
 				}
 			}
+			i = j
 			out = append(out, [][]byte{a[k:j]})
 		}
 	}
diff --git a/pgsql/int2vectorarr.go b/pgsql/int2vectorarr.go
index d4f980d..af18042 100644
--- a/pgsql/int2vectorarr.go
+++ b/pgsql/int2vectorarr.go
@@ -145,7 +145,11 @@ func (v int2VectorArrayFromIntSliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(i), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(ints) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -203,7 +207,11 @@ func (v int2VectorArrayFromInt8SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(i8), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(int8s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -261,7 +269,11 @@ func (v int2VectorArrayFromInt16SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(i16), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(int16s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -319,7 +331,11 @@ func (v int2VectorArrayFromInt32SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(i32), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(int32s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -377,7 +393,11 @@ func (v int2VectorArrayFromInt64SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, i64, 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(int64s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -435,7 +455,11 @@ func (v int2VectorArrayFromUintSliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendUint(out, uint64(u), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(uints) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -493,7 +517,11 @@ func (v int2VectorArrayFromUint8SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendUint(out, uint64(u8), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(uint8s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -551,7 +579,11 @@ func (v int2VectorArrayFromUint16SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendUint(out, uint64(u16), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(uint16s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -609,7 +641,11 @@ func (v int2VectorArrayFromUint32SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendUint(out, uint64(u32), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(uint32s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -667,7 +703,11 @@ func (v int2VectorArrayFromUint64SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendUint(out, u64, 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(uint64s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -725,7 +765,11 @@ func (v int2VectorArrayFromFloat32SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(f32), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(float32s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
@@ -783,7 +827,11 @@ func (v int2VectorArrayFromFloat64SliceSlice) Value() (driver.Value, error) {
 			out = strconv.AppendInt(out, int64(f64), 10)
 			out = append(out, ' ')
 		}
-		out[len(out)-1] = '"' // replace last " " with `"`
+		if len(float64s) > 0 {
+			out[len(out)-1] = '"' // replace last " " with `"`
+		} else {
+			out = append(out, '"')
+		}
 		out = append(out, ',')
 	}
 
-- 
2.43.0


From fe435a549aac0c201273da1fc7d51f961fce6fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 05/26] fix: filter.Constructor.Col left a dangling AND when it
 added no predicate

---
 filter/filter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filter/filter.go b/filter/filter.go
index 2e21f61..53cf9d3 100644
--- a/filter/filter.go
+++ b/filter/filter.go
@@ -200,6 +200,12 @@ func (c *Constructor) Col(column string, op string, value interface{}) {
 		}
 
 	default:
+		switch value {
+		case nil, true, false:
+			if op != "=" && op != "<>" {
+				return // there is no predicate to add, nor to join with AND
+			}
+		}
 		if c.canAndOr() {
 			c.filter.where = append(c.filter.where, sqlAnd{})
 		}
-- 
2.43.0


From 05974240ec047b23ca7fd7cb3015082a311f90e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/26] fix: range array scanners left the destination as it
 was on NULL

---
 pgsql/daterangearr.go |  2 +-
 pgsql/int4rangearr.go | 24 ++++++++++++------------
 pgsql/int8rangearr.go | 24 ++++++++++++------------
 pgsql/numrangearr.go  | 24 ++++++++++++------------
 4 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/pgsql/daterangearr.go b/pgsql/daterangearr.go
index fe6d628..b8dac6f 100644
--- a/pgsql/daterangearr.go
+++ b/pgsql/daterangearr.go
@@ -59,7 +59,7 @@ func (v dateRangeArrayToTimeArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int4rangearr.go b/pgsql/int4rangearr.go
index 8732f6a..41d8679 100644
--- a/pgsql/int4rangearr.go
+++ b/pgsql/int4rangearr.go
@@ -160,7 +160,7 @@ func (v int4RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int4RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int4RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int4RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int4RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int4RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int4RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int4RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int4RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int4RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int4RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int4RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/int8rangearr.go b/pgsql/int8rangearr.go
index 674e2d4..9665955 100644
--- a/pgsql/int8rangearr.go
+++ b/pgsql/int8rangearr.go
@@ -160,7 +160,7 @@ func (v int8RangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v int8RangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v int8RangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v int8RangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v int8RangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v int8RangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v int8RangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v int8RangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v int8RangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v int8RangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v int8RangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v int8RangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index c7feb2f..ffc9001 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -160,7 +160,7 @@ func (v numRangeArrayToIntArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -223,7 +223,7 @@ func (v numRangeArrayToInt8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -286,7 +286,7 @@ func (v numRangeArrayToInt16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -349,7 +349,7 @@ func (v numRangeArrayToInt32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -412,7 +412,7 @@ func (v numRangeArrayToInt64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -475,7 +475,7 @@ func (v numRangeArrayToUintArray2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -538,7 +538,7 @@ func (v numRangeArrayToUint8Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -601,7 +601,7 @@ func (v numRangeArrayToUint16Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -664,7 +664,7 @@ func (v numRangeArrayToUint32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -727,7 +727,7 @@ func (v numRangeArrayToUint64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -790,7 +790,7 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
@@ -853,7 +853,7 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	if err != nil {
 		return err
 	} else if data == nil {
-		v.val = nil
+		*v.val = nil
 		return nil
 	}
 
-- 
2.43.0


From cae9df9154e6b3a92332314fa2be251f62f0ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/26] fix: range array scanners panicked on NULL elements and
 dropped empty ranges

---
 pgsql/convert_util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 7759cd6..58d90a3 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -203,6 +203,9 @@ func pgparsedate(a []byte) (time.Time, error) {
 }
 
 func pgParseRange(a []byte) (out [2][]byte) {
+	if len(a) == 0 {
+		return out // nothing to do if NULL
+	}
 	a = a[1 : len(a)-1] // drop range delimiters
 
 	for i := 0; i < len(a); i++ {
@@ -216,7 +219,8 @@ func pgParseRange(a []byte) (out [2][]byte) {
 	return out
 }
 
-// Expected format: '{STRING [, ...]}' where STRING is a double quoted string.
+// Expected format: '{STRING [, ...]}' where STRING is a double quoted string,
+// or the unquoted empty range.
 func pgParseQuotedStringArray(a []byte) (out [][]byte) {
 	a = a[1 : len(a)-1] // drop curly braces
 
@@ -240,6 +244,9 @@ mainloop:
 		if a[i] == 'N' { // NULL?
 			out = append(out, []byte(nil))
 			i += 4
+		} else if bytes.HasPrefix(a[i:], []byte("empty")) { // unquoted empty range?
+			out = append(out, a[i:i+5])
+			i += 5
 		}
 	}
 
-- 
2.43.0


From e7c170ae1fd2407c404fd53e1cdb5b02006cf387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 08/26] fix: numrange codecs of float pairs lost the fraction

---
 pgsql/numrange.go    | 24 ++++++++++++------------
 pgsql/numrangearr.go | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pgsql/numrange.go b/pgsql/numrange.go
index 407a48b..9c42ff6 100644
--- a/pgsql/numrange.go
+++ b/pgsql/numrange.go
@@ -562,9 +562,9 @@ type numRangeFromFloat32Array2 struct {
 
 func (v numRangeFromFloat32Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[0]), 'f', -1, 32)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, float64(v.val[1]), 'f', -1, 32)
 	out = append(out, ')')
 	return out, nil
 }
@@ -581,15 +581,15 @@ func (v numRangeToFloat32Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 32); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 32); err != nil {
 			return err
 		}
 	}
@@ -605,9 +605,9 @@ type numRangeFromFloat64Array2 struct {
 
 func (v numRangeFromFloat64Array2) Value() (driver.Value, error) {
 	out := []byte{'['}
-	out = strconv.AppendInt(out, int64(v.val[0]), 10)
+	out = strconv.AppendFloat(out, v.val[0], 'f', -1, 64)
 	out = append(out, ',')
-	out = strconv.AppendInt(out, int64(v.val[1]), 10)
+	out = strconv.AppendFloat(out, v.val[1], 'f', -1, 64)
 	out = append(out, ')')
 	return out, nil
 }
@@ -624,20 +624,20 @@ func (v numRangeToFloat64Array2) Scan(src interface{}) error {
 		return nil
 	}
 
-	var lo, hi int64
+	var lo, hi float64
 	elems := pgParseRange(data)
 	if len(elems[0]) > 0 {
-		if lo, err = strconv.ParseInt(string(elems[0]), 10, 64); err != nil {
+		if lo, err = strconv.ParseFloat(string(elems[0]), 64); err != nil {
 			return err
 		}
 	}
 	if len(elems[1]) > 0 {
-		if hi, err = strconv.ParseInt(string(elems[1]), 10, 64); err != nil {
+		if hi, err = strconv.ParseFloat(string(elems[1]), 64); err != nil {
 			return err
 		}
 	}
 
-	v.val[0] = float64(lo)
-	v.val[1] = float64(hi)
+	v.val[0] = lo
+	v.val[1] = hi
 	return nil
 }
diff --git a/pgsql/numrangearr.go b/pgsql/numrangearr.go
index ffc9001..c1a674b 100644
--- a/pgsql/numrangearr.go
+++ b/pgsql/numrangearr.go
@@ -771,9 +771,9 @@ func (v numRangeArrayFromFloat32Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, float64(a[0]), 'f', -1, 32)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, float64(a[1]), 'f', -1, 32)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -798,15 +798,15 @@ func (v numRangeArrayToFloat32Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float32, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 32); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 32); err != nil {
 				return err
 			}
 		}
@@ -834,9 +834,9 @@ func (v numRangeArrayFromFloat64Array2Slice) Value() (driver.Value, error) {
 
 	for _, a := range v.val {
 		out = append(out, '"', '[')
-		out = strconv.AppendInt(out, int64(a[0]), 10)
+		out = strconv.AppendFloat(out, a[0], 'f', -1, 64)
 		out = append(out, ',')
-		out = strconv.AppendInt(out, int64(a[1]), 10)
+		out = strconv.AppendFloat(out, a[1], 'f', -1, 64)
 		out = append(out, ')', '"', ',')
 	}
 
@@ -861,21 +861,21 @@ func (v numRangeArrayToFloat64Array2Slice) Scan(src interface{}) error {
 	ranges := make([][2]float64, len(elems))
 
 	for i, elem := range elems {
-		var lo, hi int64
+		var lo, hi float64
 		arr := pgParseRange(elem)
 		if len(arr[0]) > 0 {
-			if lo, err = strconv.ParseInt(string(arr[0]), 10, 64); err != nil {
+			if lo, err = strconv.ParseFloat(string(arr[0]), 64); err != nil {
 				return err
 			}
 		}
 		if len(arr[1]) > 0 {
-			if hi, err = strconv.ParseInt(string(arr[1]), 10, 64); err != nil {
+			if hi, err = strconv.ParseFloat(string(arr[1]), 64); err != nil {
 				return err
 			}
 		}
 
-		ranges[i][0] = float64(lo)
-		ranges[i][1] = float64(hi)
+		ranges[i][0] = lo
+		ranges[i][1] = hi
 	}
 
 	*v.val = ranges
-- 
2.43.0


From 848876fd390528cd435424bfcfe34445d5e2efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 09/26] fix: do not read array strings that start with NULL as
 NULL

---
 pgsql/convert_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pgsql/convert_util.go b/pgsql/convert_util.go
index 58d90a3..206aae7 100644
--- a/pgsql/convert_util.go
+++ b/pgsql/convert_util.go
@@ -280,7 +280,7 @@ mainloop:
 				}
 			}
 		case 'N': // NULL?
-			if len(a) > i+3 && string(a[i:i+4]) == `NULL` {
+			if len(a) > i+3 && string(a[i:i+4]) == `NULL` && (len(a) == i+4 || a[i+4] == ',') {
 				out = append(out, []byte(nil))
 				i = i + 3
 				continue mainloop
-- 
2.43.0


From ccb158db3049f958fc7c7dfa95991c78e2dd834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 10/26] fix: escape tsquery[] elements and read NULL elements
 as nil

---
 pgsql/tsqueryarr.go | 76 ++++++++-------------------------------------
 1 file changed, 13 insertions(+), 63 deletions(-)

diff --git a/pgsql/tsqueryarr.go b/pgsql/tsqueryarr.go
index 2b8d3e7..29a38e2 100644
--- a/pgsql/tsqueryarr.go
+++ b/pgsql/tsqueryarr.go
@@ -36,32 +36,12 @@ func (v tsQueryArrayFromStringSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		size += len(v.val[i]) // length of the element
+	out := []byte{'{'}
+	for _, s := range v.val {
+		out = pgAppendQuote1(out, []byte(s))
+		out = append(out, ',')
 	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-		out[pos] = '"'
-		pos += 1
-
-		length := len(v.val[i])
-		copy(out[pos:pos+length], v.val[i])
-		pos += length
-
-		out[pos] = '"'
-		pos += 1
-		out[pos] = ','
-	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -99,46 +79,16 @@ func (v tsQueryArrayFromByteSliceSlice) Value() (driver.Value, error) {
 		return []byte{'{', '}'}, nil
 	}
 
-	size := (len(v.val) * 2) + // number of surrounding double quotes
-		(len(v.val) - 1) + // number of commas between elements
-		2 // curly braces
-	for i := 0; i < len(v.val); i++ {
-		if v.val[i] == nil {
-			size += 2 // len(`NULL`) - 2 double quotes
-		} else {
-			size += len(v.val[i]) // length of the element
-		}
-	}
-
-	out := make([]byte, size)
-	out[0] = '{'
-
-	var pos int
-	for i := 0; i < len(v.val); i++ {
-		pos += 1
-
-		if v.val[i] == nil {
-			out[pos+0] = 'N'
-			out[pos+1] = 'U'
-			out[pos+2] = 'L'
-			out[pos+3] = 'L'
-			pos += 4
+	out := []byte{'{'}
+	for _, s := range v.val {
+		if s == nil {
+			out = append(out, 'N', 'U', 'L', 'L')
 		} else {
-			out[pos] = '"'
-			pos += 1
-
-			length := len(v.val[i])
-			copy(out[pos:pos+length], v.val[i])
-			pos += length
-
-			out[pos] = '"'
-			pos += 1
+			out = pgAppendQuote1(out, s)
 		}
-
-		out[pos] = ','
+		out = append(out, ',')
 	}
-
-	out[pos] = '}'
+	out[len(out)-1] = '}' // replace last "," with "}"
 	return out, nil
 }
 
@@ -158,7 +108,7 @@ func (v tsQueryArrayToByteSliceSlice) Scan(src interface{}) error {
 	elems := pgParseStringArray(data)
 	bytess := make([][]byte, len(elems))
 	for i := 0; i < len(elems); i++ {
-		if len(elems[i]) == 4 && elems[i][0] == 'N' { // NULL?
+		if elems[i] == nil { // NULL?
 			continue
 		}
 
-- 
2.43.0


From 9df1dac4641e57aad5d6a1db7dfa6324ebbb5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 11/26] fix: initialise every nested pointer even when joined
 field names collide

---
 internal/generator/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index b931130..ca0c48b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -530,7 +530,7 @@ func buildQueryOutputInitFields(g *generator, qs *analysis.QueryStruct) {
 
 		fx := g.outputVar
 		for _, node := range fr.Field.Selector {
-			key += node.Name
+			key += "." + node.Name
 
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			if node.IsPointer && !done[key] {
-- 
2.43.0


From 8c3dde19d84d9805869caefb5e2d85ca15866f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 12/26] fix: generate NOT BETWEEN and BETWEEN SYMMETRIC for the
 predicates that ask for them

---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index ca0c48b..970fd09 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1410,6 +1410,12 @@ func makeSQLBoolValueExprList(g *generator, conds []postgres.WhereConditional, s
 func makeSQLBetweenPredicate(g *generator, cond *postgres.BetweenConditional) SQL.BetweenPredicate {
 	predicate := SQL.BetweenPredicate{}
 	predicate.Predicand = makeColRef(cond.ColIdent)
+	predicate.Not = cond.Predicate.IsOneOf(analysis.NotBetween, analysis.NotBetweenSym, analysis.NotBetweenAsym)
+	if cond.Predicate.IsOneOf(analysis.IsBetweenSym, analysis.NotBetweenSym) {
+		predicate.Sym = SQL.SYMMETRIC
+	} else if cond.Predicate.IsOneOf(analysis.IsBetweenAsym, analysis.NotBetweenAsym) {
+		predicate.Sym = SQL.ASYMMETRIC
+	}
 
 	switch lower := cond.LowerBound.(type) {
 	case *postgres.ColumnConditional:
-- 
2.43.0


From 7910056be0a23df919dd38705235dc7612735e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 13/26] fix: pass the arguments, and only those, that an UPDATE
 with DEFAULT columns refers to

---
 internal/generator/generator.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 970fd09..2485284 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -297,7 +297,13 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 
 	for _, fw := range g.info.Writes {
 		if canUseDefault(qs, fw.Field) {
-			g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			// DEFAULT can be assigned to a column directly, but it
+			// is not allowed in the VALUES list of a FROM clause.
+			if qs.IsUpdateSlice() {
+				g.updateCols = append(g.updateCols, SQL.DEFAULT)
+			} else {
+				g.inputVals = append(g.inputVals, SQL.DEFAULT)
+			}
 			continue
 		}
 
@@ -1008,7 +1014,13 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Rel.Type.IsSlice {
 		stmt.Head.From.List = append(stmt.Head.From.List, SQL.ValuesListClausePartial{})
 
-		columns := append(g.inputCols, g.inputColsPKeys...)
+		var columns SQL.NameGroup
+		for _, fw := range g.info.Writes {
+			if !canUseDefault(qs, fw.Field) {
+				columns = append(columns, SQL.Name(fw.Column.Name))
+			}
+		}
+		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
 		g.sqlTailNode = SQL.NodeList{alias, tail}
@@ -2050,10 +2062,12 @@ func buildQueryResultRowsScan(g *generator, qs *analysis.QueryStruct) {
 //
 
 func inputPKeys(t *postgres.TargetInfo) (out []*postgres.FieldWrite) {
+	qs, _ := t.Struct.(*analysis.QueryStruct)
 	for i := 0; i < len(t.PKeys); i++ {
+		// a key that's set to DEFAULT does not have an argument among the writes
 		elide := false
 		for j := 0; j < len(t.Writes); j++ {
-			if t.Writes[j].Field == t.PKeys[i].Field {
+			if t.Writes[j].Field == t.PKeys[i].Field && (qs == nil || !canUseDefault(qs, t.PKeys[i].Field)) {
 				elide = true
 			}
 		}
-- 
2.43.0


From 60af58f923366568a91ae1efa0d68d791982a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 14/26] fix: return the columns that an UPDATE of a slice scans

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 2485284..f3be98b 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1023,6 +1023,7 @@ func buildSQLUpdateStatement(g *generator, qs *analysis.QueryStruct) {
 		columns = append(columns, g.inputColsPKeys...)
 		alias := SQL.ValuesListAliasPartial{Alias: "x", Columns: columns}
 		tail := SQL.UpdateTail{Where: g.whereClause}
+		tail.Returning = SQL.ReturningClause(g.outputVals)
 		g.sqlTailNode = SQL.NodeList{alias, tail}
 		g.sqlMainNode = stmt
 		return
-- 
2.43.0


From f9688932f919e90d8ad5b297138019ac5386ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 15/26] fix: put the RETURNING of a filtered DELETE after its
 WHERE clause

---
 internal/generator/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f3be98b..3b609a2 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1068,6 +1068,12 @@ func buildSQLDeleteStatement(g *generator, qs *analysis.QueryStruct) {
 	}
 
 	stmt.Where = g.whereClause
+	if qs.Filter != nil && len(g.outputVals) > 0 {
+		// the filter's WHERE clause goes before RETURNING
+		g.sqlTailNode = SQL.ReturningClause(g.outputVals)
+		g.sqlMainNode = stmt
+		return
+	}
 	stmt.Returning = SQL.ReturningClause(g.outputVals) //returning
 	g.sqlMainNode = stmt
 }
-- 
2.43.0


From 942dae8d1f6a35b6a565653772701f6f6cc84bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 16/26] fix: convert the primary keys that an UPDATE is passed

---
 internal/generator/generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 3b609a2..f305274 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -420,6 +420,7 @@ func buildQueryInputPKeyFields(g *generator, qs *analysis.QueryStruct) {
 				fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{node.Name}}
 			}
 			fx = GO.SelectorExpr{X: fx, Sel: GO.Ident{fw.Field.Name}}
+			fx = addConverterCallExpr(g, fx, fw.Valuer)
 			g.inputArgs = append(g.inputArgs, fx)
 		}
 	}
-- 
2.43.0


From b401d1a0fd25edbc34a58c500187b7d3c009b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 17/26] fix: cast every plain parameter of an UPDATE of a slice

---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index f305274..97437b8 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -317,7 +317,8 @@ func buildQueryInputTargetValues(g *generator, qs *analysis.QueryStruct) {
 			expr = makeParamSpec(g, fw.Field)
 			if fw.NeedsNULLIF() {
 				expr = addNULLIFCallExpr(expr, fw.Column)
-			} else {
+			}
+			if _, ok := expr.(SQL.OrdinalParameterSpec); ok {
 				cast := SQL.CastExpr{}
 				cast.Expr = expr
 				cast.Type = fw.Column.Type.NameFmt
-- 
2.43.0


From 4af8bfcd8bc562e2a27636deecca455ce7ed60e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 18/26] fix: no default LIMIT before the clauses of a filter

---
 internal/generator/generator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 97437b8..47f8e43 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1131,7 +1131,8 @@ func buildSQLLimitClause(g *generator, qs *analysis.QueryStruct) {
 		// In case the QueryStruct doesn't have a "limit" field, but the relation
 		// field handles only a single record (i.e. it's not a slice, etc.)
 		// then, by default, generate a `LIMIT 1` clause.
-		if typ := qs.Rel.Type; !typ.IsArray && !typ.IsSlice && !typ.IsIter {
+		// A filter is written after it, and may have a limit of its own.
+		if typ := qs.Rel.Type; qs.Filter == nil && !typ.IsArray && !typ.IsSlice && !typ.IsIter {
 			g.limitClause.Value = SQL.LimitInt(1)
 		}
 		return
-- 
2.43.0


From 67002dd5475da0991bbc31650a94caa2bc703c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 19/26] fix: keep the limit of a SELECT COUNT, whose argument
 is passed

---
 internal/generator/generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 47f8e43..70a982c 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -1092,6 +1092,9 @@ func buildSQLSelectCountStatement(g *generator, qs *analysis.QueryStruct) {
 	if qs.Filter == nil {
 		stmt.Where = g.whereClause
 		stmt.Order = g.orderClause
+		if qs.Limit != nil {
+			stmt.Limit = g.limitClause
+		}
 		stmt.Offset = g.offsetClause
 	}
 
-- 
2.43.0


From 835f14000fd3c78727f2d140020e68f232a3864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:44 +0000
Subject: [PATCH 20/26] fix: read inet arrays with the scanners, not the
 valuers

---
 internal/postgres/compatibility.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/compatibility.go b/internal/postgres/compatibility.go
index 115333b..80ba236 100644
--- a/internal/postgres/compatibility.go
+++ b/internal/postgres/compatibility.go
@@ -215,8 +215,8 @@ func init_oid2literal() map[compkey]map[analysis.LiteralType]compentry {
 			analysis.LiteralByteSlice: {},
 		},
 		{oid: oid.InetArr}: {
-			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayFromIPSlice"},
-			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayFromIPNetSlice"},
+			analysis.LiteralIPSlice:    {valuer: "InetArrayFromIPSlice", scanner: "InetArrayToIPSlice"},
+			analysis.LiteralIPNetSlice: {valuer: "InetArrayFromIPNetSlice", scanner: "InetArrayToIPNetSlice"},
 			analysis.LiteralString:     {},
 			analysis.LiteralByteSlice:  {},
 		},
-- 
2.43.0


From 755cdbec06c01998e39433f3e55b61325f7aba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 21/26] fix: accept length 1 columns of types without a length
 1 entry

---
 internal/postgres/postgres.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 4e996c3..e4d9034 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2015,6 +2015,12 @@ func typeCompatibility(c *checker, ctyp *Type, ftyp analysis.TypeInfo, typmod1 b
 		return &comp
 	}
 
+	// no entry specific to the type of length 1, use that of any length
+	key.typmod1 = false
+	if comp, ok := compatibility.oid2literal[key][lit]; ok {
+		return &comp
+	}
+
 	// try to salvage this
 	if ctyp.Category == TypeCategoryString || ctyp.Category == TypeCategoryArray {
 		if ctyp.Category == TypeCategoryString {
-- 
2.43.0


From 9c97abdd7957d0bf1cd51664ede55ace5aba9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 22/26] fix: report a literal of a type the catalog does not
 hold

---
 internal/postgres/postgres.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index e4d9034..56bc01a 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -2046,7 +2046,12 @@ func typeOfLiteral(c *checker, expr string) (*Type, dbErrorCode) {
 	if err := row.Scan(&typoid); err != nil {
 		return nil, errPredicateLiteralExpr
 	}
-	return c.db.catalog.Types[typoid], 0
+
+	typ := c.db.catalog.Types[typoid]
+	if typ == nil { // e.g. a pseudo-type, which the catalog does not hold
+		return nil, errPredicateLiteralExpr
+	}
+	return typ, 0
 }
 
 // isLength1Type reports whether or not the given column's type
-- 
2.43.0


From ca510bfdd3557ac1840926f0d68b7ae0335f10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 23/26] fix: apply a function only to columns that are cast
 implicitly

---
 internal/postgres/postgres.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/postgres/postgres.go b/internal/postgres/postgres.go
index 56bc01a..068d011 100644
--- a/internal/postgres/postgres.go
+++ b/internal/postgres/postgres.go
@@ -1512,10 +1512,10 @@ func checkTypeCoercion(c *checker, target oid.OID, source oid.OID) bool {
 		return true
 	}
 
-	// if pg_cast says ok, accept.
+	// if pg_cast says ok, accept; function arguments are only ever cast implicitly.
 	key := CastKey{Target: target, Source: source}
 	if cast := c.db.catalog.Casts[key]; cast != nil {
-		return cast.Context == CastContextImplicit || cast.Context == CastContextAssignment
+		return cast.Context == CastContextImplicit
 	}
 	return false
 }
-- 
2.43.0


From 508927d1aafb466277772c3a488f7e1de8928c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:40 +0000
Subject: [PATCH 24/26] fix: an empty option in a column tag is no option, not
 a panic

---
 internal/analysis/fieldmode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/analysis/fieldmode.go b/internal/analysis/fieldmode.go
index 1fb9386..194389f 100644
--- a/internal/analysis/fieldmode.go
+++ b/internal/analysis/fieldmode.go
@@ -30,6 +30,10 @@ func parseFieldMode(t tagutil.Tag) (m FieldMode) {
 	}
 
 	for _, opt := range tag[1:] {
+		if len(opt) == 0 { // e.g. a trailing comma
+			continue
+		}
+
 		////////////////////////////////////////////////////////////////
 		// handle deprecated field options
 		switch opt {
-- 
2.43.0


From 5bbe6a140b38d6a272ceb5507b743883bfc5ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:40 +0000
Subject: [PATCH 25/26] fix: accept the betweenasym predicate in tags

---
 internal/analysis/enums.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/analysis/enums.go b/internal/analysis/enums.go
index d93b68e..7d3519d 100644
--- a/internal/analysis/enums.go
+++ b/internal/analysis/enums.go
@@ -355,6 +355,7 @@ var predicates = [...]string{
 // predicateAdjectives is a whitelist of predicate adjectives and adverbs. Used for parsing tags.
 var predicateAdjectives = []string{
 	"between",
+	"betweenasym",
 	"betweensym",
 	"distinct",
 	"false",
-- 
2.43.0


From f5877ab6a4d234e826dbee2e856a6252edb5f3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:45 +0000
Subject: [PATCH 26/26] fix: name the value types of filter methods by their
 own package

A field of a local named type, or of a pointer, slice or map of types from
packages with the same name, made the generated method refer to the wrong
package.
---
 internal/generator/generator.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 70a982c..71bbe37 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -859,17 +859,12 @@ func buildFilterMethodsForColumns(g *generator, fs *analysis.FilterStruct, mapid
 		}
 
 		// add import if necessary
-		if imported := ff.Field.Type.ImportedTypes(); len(imported) > 0 {
-			for _, typ := range imported {
-				imp := addimport(g.file, typ.PkgPath, typ.PkgName)
-				ff.Field.Type.PkgName = imp.name
-			}
-		}
+		typ := importType(g.file, ff.Field.Type)
 
 		// the method's input and output arguments
 		methodecl.Type.Params = GO.ParamList{
 			{Names: oper, Type: GO.Ident{"string"}},
-			{Names: value, Type: GO.Ident{string(ff.Field.Type.Literal())}},
+			{Names: value, Type: GO.Ident{string(typ.Literal())}},
 		}
 		methodecl.Type.Results = GO.ParamList{{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}
 
@@ -2124,6 +2119,29 @@ func addimport(f *file, path, name string) *impspec {
 	return imp
 }
 
+// importType adds the imports required by t to the given file, and returns t with
+// the package names under which the file imports them. The file's own types are
+// left without a package name.
+func importType(f *file, t analysis.TypeInfo) analysis.TypeInfo {
+	if len(t.Name) > 0 {
+		if t.IsImported {
+			t.PkgName = addimport(f, t.PkgPath, t.PkgName).name
+		} else {
+			t.PkgName = ""
+		}
+		return t
+	}
+	if t.Key != nil {
+		key := importType(f, *t.Key)
+		t.Key = &key
+	}
+	if t.Elem != nil {
+		elem := importType(f, *t.Elem)
+		t.Elem = &elem
+	}
+	return t
+}
+
 // newImportDecl produces an import declaration for packages that are to be imported by the given file.
 func newImportDecl(f *file) *GO.ImportDecl {
 	imports := new(GO.ImportDecl)
-- 
2.43.0

