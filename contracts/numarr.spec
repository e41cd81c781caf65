use std.spec
package ./pgsql

// ---- elements of a byte string separated by the byte c
rec lastsep(a Bytes, i Int, c Int) Int = ite(i <= 0, 0, ite(a[i-1] == c, i, lastsep(a, i-1, c)))
rec splitc(a Bytes, i Int, c Int) Seq[Slc[Int]] = ite(i <= 0, empty("Slc[Int]"), ite(a[i-1] == c, cat(splitc(a, i-1, c), unit(mk("Slc[Int]", false, sub(a, lastsep(a, i-1, c), i-1-lastsep(a, i-1, c))))), splitc(a, i-1, c)))
rec elems(a Bytes, c Int) Seq[Slc[Int]] = ite(len(a) == 0, empty("Slc[Int]"), cat(splitc(a, len(a), c), unit(mk("Slc[Int]", false, sub(a, lastsep(a, len(a), c), len(a)-lastsep(a, len(a), c))))))

contract pgsql.pgParseCommaArray(a)
  property N01 N03
  requires len(a) >= 2
  requires !isnil(a)
  ensures elements: data(r0) == elems(sub(a, 1, len(a)-2), 44)
  inv (n cnt, i cnt, out acc:[][]byte): n == lastsep(sub(data(a),1,len(a)-2), i, 44) && data(out) == splitc(sub(data(a),1,len(a)-2), i, 44) && n <= i && 0 <= n

contract pgsql.pgParseVector(a)
  property N01
  ensures elements: data(r0) == elems(data(a), 32)
  inv (n cnt, i cnt, out acc:[][]byte): n == lastsep(data(a), i, 32) && data(out) == splitc(data(a), i, 32) && n <= i && 0 <= n

// ---- the text of k numbers, separated by the byte c
rec joinints(v Seq[Int], k Int, c Int) Bytes = ite(k <= 0, "", ite(k == 1, itoa(v[0]), cat(joinints(v, k-1, c), unit(c), itoa(v[k-1]))))
rec joinf2i(v Seq[Flt], k Int, c Int) Bytes = ite(k <= 0, "", ite(k == 1, itoa(f2i_int64(v[0])), cat(joinf2i(v, k-1, c), unit(c), itoa(f2i_int64(v[k-1])))))
rec joinf32(v Seq[Flt], k Int, c Int) Bytes = ite(k <= 0, "", ite(k == 1, ftoa(v[0], 102, -1, 32), cat(joinf32(v, k-1, c), unit(c), ftoa(v[k-1], 102, -1, 32))))
rec joinf64(v Seq[Flt], k Int, c Int) Bytes = ite(k <= 0, "", ite(k == 1, ftoa(v[0], 102, -1, 64), cat(joinf64(v, k-1, c), unit(c), ftoa(v[k-1], 102, -1, 64))))

template arr_value(CTOR, JOIN)
target $CTOR: pgsql.$CTOR(v).Value()
  property N01
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", $JOIN(data(v), len(v), 44), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == cat(ite(k <= 0, "{", cat("{", $JOIN(data(v), k, 44), ","))) && 0 <= k
end
template vec_value(CTOR, JOIN)
target $CTOR: pgsql.$CTOR(v).Value()
  property N01
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == $JOIN(data(v), len(v), 32))
  inv (acc acc:[]byte, k cnt): data(acc) == ite(k <= 0, "", cat($JOIN(data(v), k, 32), " ")) && 0 <= k
end

rec ints(E Seq[Slc[Int]], k Int) Seq[Int] = ite(k <= 0, empty("Int"), cat(ints(E, k-1), unit(atoi(E[k-1].data))))
rec intsok(E Seq[Slc[Int]], k Int, bits Int, s Bool) Bool = k <= 0 || (intsok(E, k-1, bits, s) && ite(s, isint(E[k-1].data), isuint(E[k-1].data)) && infit(atoi(E[k-1].data), bits, s))
lemma intsok_at(E Seq[Slc[Int]], n Int, j Int, bits Int, s Bool) : intsok(E, n, bits, s), E[j] => imp(0 <= j && j < n && intsok(E, n, bits, s), ite(s, isint(E[j].data), isuint(E[j].data)) && infit(atoi(E[j].data), bits, s))
  by up n
rec ints_f32(E Seq[Slc[Int]], k Int) Seq[Flt] = ite(k <= 0, empty("Flt"), cat(ints_f32(E, k-1), unit(i2f32(atoi(E[k-1].data)))))
rec ints_f64(E Seq[Slc[Int]], k Int) Seq[Flt] = ite(k <= 0, empty("Flt"), cat(ints_f64(E, k-1), unit(i2f64(atoi(E[k-1].data)))))
rec flts32(E Seq[Slc[Int]], k Int) Seq[Flt] = ite(k <= 0, empty("Flt"), cat(flts32(E, k-1), unit(f64to32(atof(E[k-1].data, 32)))))
rec flts64(E Seq[Slc[Int]], k Int) Seq[Flt] = ite(k <= 0, empty("Flt"), cat(flts64(E, k-1), unit(atof(E[k-1].data, 64))))
rec fltsok(E Seq[Slc[Int]], k Int, bits Int, s Bool) Bool = k <= 0 || (fltsok(E, k-1, bits, s) && isflt(E[k-1].data, bits))
lemma fltsok_at(E Seq[Slc[Int]], n Int, j Int, bits Int, s Bool) : fltsok(E, n, bits, s), E[j] => imp(0 <= j && j < n && fltsok(E, n, bits, s), isflt(E[j].data, bits))
  by up n

template arr_scan(CTOR, T, PARSE, OK, BITS, S)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N01
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  let E = elems(sub(text(src), 1, len(text(src))-2), 44)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures null: imp(src == nil, r0 == nil && isnil(*v))
  ensures parsed: imp(isarr && r0 == nil, data(*v) == $PARSE(E, len(E)) && $OK(E, len(E), $BITS, $S))
  ensures accepted: imp(isarr && $OK(E, len(E), $BITS, $S), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
  inv (acc acc:[]$T, k cnt): sub(data(acc), 0, k) == $PARSE(E, k) && $OK(E, k, $BITS, $S) && 0 <= k
end
template vec_scan(CTOR, T, PARSE, OK, BITS, S)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N01
  cases src
  let E = elems(text(src), 32)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures null: imp(src == nil, r0 == nil && isnil(*v))
  ensures parsed: imp(isarr && r0 == nil, data(*v) == $PARSE(E, len(E)) && $OK(E, len(E), $BITS, $S))
  ensures accepted: imp(isarr && $OK(E, len(E), $BITS, $S), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
  inv (acc acc:[]$T, k cnt): sub(data(acc), 0, k) == $PARSE(E, k) && $OK(E, k, $BITS, $S) && 0 <= k
end

instance arr_value(Int2ArrayFromIntSlice, joinints)
instance arr_scan(Int2ArrayToIntSlice, int, ints, intsok, 16, true)
instance arr_value(Int2ArrayFromInt8Slice, joinints)
instance arr_scan(Int2ArrayToInt8Slice, int8, ints, intsok, 8, true)
instance arr_value(Int2ArrayFromInt16Slice, joinints)
instance arr_scan(Int2ArrayToInt16Slice, int16, ints, intsok, 16, true)
instance arr_value(Int2ArrayFromInt32Slice, joinints)
instance arr_scan(Int2ArrayToInt32Slice, int32, ints, intsok, 16, true)
instance arr_value(Int2ArrayFromInt64Slice, joinints)
instance arr_scan(Int2ArrayToInt64Slice, int64, ints, intsok, 16, true)
instance arr_value(Int2ArrayFromUintSlice, joinints)
instance arr_scan(Int2ArrayToUintSlice, uint, ints, intsok, 16, false)
instance arr_value(Int2ArrayFromUint8Slice, joinints)
instance arr_scan(Int2ArrayToUint8Slice, uint8, ints, intsok, 8, false)
instance arr_value(Int2ArrayFromUint16Slice, joinints)
instance arr_scan(Int2ArrayToUint16Slice, uint16, ints, intsok, 16, false)
instance arr_value(Int2ArrayFromUint32Slice, joinints)
instance arr_scan(Int2ArrayToUint32Slice, uint32, ints, intsok, 16, false)
instance arr_value(Int2ArrayFromUint64Slice, joinints)
instance arr_scan(Int2ArrayToUint64Slice, uint64, ints, intsok, 16, false)
instance arr_value(Int2ArrayFromFloat32Slice, joinf2i)
instance arr_scan(Int2ArrayToFloat32Slice, float32, ints_f32, intsok, 16, true)
instance arr_value(Int2ArrayFromFloat64Slice, joinf2i)
instance arr_scan(Int2ArrayToFloat64Slice, float64, ints_f64, intsok, 16, true)
instance arr_value(Int4ArrayFromIntSlice, joinints)
instance arr_scan(Int4ArrayToIntSlice, int, ints, intsok, 32, true)
instance arr_value(Int4ArrayFromInt8Slice, joinints)
instance arr_scan(Int4ArrayToInt8Slice, int8, ints, intsok, 8, true)
instance arr_value(Int4ArrayFromInt16Slice, joinints)
instance arr_scan(Int4ArrayToInt16Slice, int16, ints, intsok, 16, true)
instance arr_value(Int4ArrayFromInt32Slice, joinints)
instance arr_scan(Int4ArrayToInt32Slice, int32, ints, intsok, 32, true)
instance arr_value(Int4ArrayFromInt64Slice, joinints)
instance arr_scan(Int4ArrayToInt64Slice, int64, ints, intsok, 32, true)
instance arr_value(Int4ArrayFromUintSlice, joinints)
instance arr_scan(Int4ArrayToUintSlice, uint, ints, intsok, 32, false)
instance arr_value(Int4ArrayFromUint8Slice, joinints)
instance arr_scan(Int4ArrayToUint8Slice, uint8, ints, intsok, 8, false)
instance arr_value(Int4ArrayFromUint16Slice, joinints)
instance arr_scan(Int4ArrayToUint16Slice, uint16, ints, intsok, 16, false)
instance arr_value(Int4ArrayFromUint32Slice, joinints)
instance arr_scan(Int4ArrayToUint32Slice, uint32, ints, intsok, 32, false)
instance arr_value(Int4ArrayFromUint64Slice, joinints)
instance arr_scan(Int4ArrayToUint64Slice, uint64, ints, intsok, 32, false)
instance arr_value(Int4ArrayFromFloat32Slice, joinf2i)
instance arr_scan(Int4ArrayToFloat32Slice, float32, ints_f32, intsok, 32, true)
instance arr_value(Int4ArrayFromFloat64Slice, joinf2i)
instance arr_scan(Int4ArrayToFloat64Slice, float64, ints_f64, intsok, 32, true)
instance arr_value(Int8ArrayFromIntSlice, joinints)
instance arr_scan(Int8ArrayToIntSlice, int, ints, intsok, 64, true)
instance arr_value(Int8ArrayFromInt8Slice, joinints)
instance arr_scan(Int8ArrayToInt8Slice, int8, ints, intsok, 8, true)
instance arr_value(Int8ArrayFromInt16Slice, joinints)
instance arr_scan(Int8ArrayToInt16Slice, int16, ints, intsok, 16, true)
instance arr_value(Int8ArrayFromInt32Slice, joinints)
instance arr_scan(Int8ArrayToInt32Slice, int32, ints, intsok, 32, true)
instance arr_value(Int8ArrayFromInt64Slice, joinints)
instance arr_scan(Int8ArrayToInt64Slice, int64, ints, intsok, 64, true)
instance arr_value(Int8ArrayFromUintSlice, joinints)
instance arr_scan(Int8ArrayToUintSlice, uint, ints, intsok, 64, false)
instance arr_value(Int8ArrayFromUint8Slice, joinints)
instance arr_scan(Int8ArrayToUint8Slice, uint8, ints, intsok, 8, false)
instance arr_value(Int8ArrayFromUint16Slice, joinints)
instance arr_scan(Int8ArrayToUint16Slice, uint16, ints, intsok, 16, false)
instance arr_value(Int8ArrayFromUint32Slice, joinints)
instance arr_scan(Int8ArrayToUint32Slice, uint32, ints, intsok, 32, false)
instance arr_value(Int8ArrayFromUint64Slice, joinints)
instance arr_scan(Int8ArrayToUint64Slice, uint64, ints, intsok, 64, false)
instance arr_value(Int8ArrayFromFloat32Slice, joinf2i)
instance arr_scan(Int8ArrayToFloat32Slice, float32, ints_f32, intsok, 64, true)
instance arr_value(Int8ArrayFromFloat64Slice, joinf2i)
instance arr_scan(Int8ArrayToFloat64Slice, float64, ints_f64, intsok, 64, true)
instance arr_value(NumericArrayFromIntSlice, joinints)
instance arr_scan(NumericArrayToIntSlice, int, ints, intsok, 64, true)
instance arr_value(NumericArrayFromInt8Slice, joinints)
instance arr_scan(NumericArrayToInt8Slice, int8, ints, intsok, 8, true)
instance arr_value(NumericArrayFromInt16Slice, joinints)
instance arr_scan(NumericArrayToInt16Slice, int16, ints, intsok, 16, true)
instance arr_value(NumericArrayFromInt32Slice, joinints)
instance arr_scan(NumericArrayToInt32Slice, int32, ints, intsok, 32, true)
instance arr_value(NumericArrayFromInt64Slice, joinints)
instance arr_scan(NumericArrayToInt64Slice, int64, ints, intsok, 64, true)
instance arr_value(NumericArrayFromUintSlice, joinints)
instance arr_scan(NumericArrayToUintSlice, uint, ints, intsok, 64, false)
instance arr_value(NumericArrayFromUint8Slice, joinints)
instance arr_scan(NumericArrayToUint8Slice, uint8, ints, intsok, 8, false)
instance arr_value(NumericArrayFromUint16Slice, joinints)
instance arr_scan(NumericArrayToUint16Slice, uint16, ints, intsok, 16, false)
instance arr_value(NumericArrayFromUint32Slice, joinints)
instance arr_scan(NumericArrayToUint32Slice, uint32, ints, intsok, 32, false)
instance arr_value(NumericArrayFromUint64Slice, joinints)
instance arr_scan(NumericArrayToUint64Slice, uint64, ints, intsok, 64, false)
instance arr_value(NumericArrayFromFloat32Slice, joinf32)
instance arr_scan(NumericArrayToFloat32Slice, float32, flts32, fltsok, 32, true)
instance arr_value(NumericArrayFromFloat64Slice, joinf64)
instance arr_scan(NumericArrayToFloat64Slice, float64, flts64, fltsok, 64, true)
instance vec_value(Int2VectorFromIntSlice, joinints)
instance vec_scan(Int2VectorToIntSlice, int, ints, intsok, 16, true)
instance vec_value(Int2VectorFromInt8Slice, joinints)
instance vec_scan(Int2VectorToInt8Slice, int8, ints, intsok, 8, true)
instance vec_value(Int2VectorFromInt16Slice, joinints)
instance vec_scan(Int2VectorToInt16Slice, int16, ints, intsok, 16, true)
instance vec_value(Int2VectorFromInt32Slice, joinints)
instance vec_scan(Int2VectorToInt32Slice, int32, ints, intsok, 16, true)
instance vec_value(Int2VectorFromInt64Slice, joinints)
instance vec_scan(Int2VectorToInt64Slice, int64, ints, intsok, 16, true)
instance vec_value(Int2VectorFromUintSlice, joinints)
instance vec_scan(Int2VectorToUintSlice, uint, ints, intsok, 16, false)
instance vec_value(Int2VectorFromUint8Slice, joinints)
instance vec_scan(Int2VectorToUint8Slice, uint8, ints, intsok, 8, false)
instance vec_value(Int2VectorFromUint16Slice, joinints)
instance vec_scan(Int2VectorToUint16Slice, uint16, ints, intsok, 16, false)
instance vec_value(Int2VectorFromUint32Slice, joinints)
instance vec_scan(Int2VectorToUint32Slice, uint32, ints, intsok, 16, false)
instance vec_value(Int2VectorFromUint64Slice, joinints)
instance vec_scan(Int2VectorToUint64Slice, uint64, ints, intsok, 16, false)
instance vec_value(Int2VectorFromFloat32Slice, joinf2i)
instance vec_scan(Int2VectorToFloat32Slice, float32, ints_f32, intsok, 16, true)
instance vec_value(Int2VectorFromFloat64Slice, joinf2i)
instance vec_scan(Int2VectorToFloat64Slice, float64, ints_f64, intsok, 16, true)
instance arr_value(Float4ArrayFromFloat32Slice, joinf32)
instance arr_value(Float4ArrayFromFloat64Slice, joinf64)
instance arr_value(Float8ArrayFromFloat32Slice, joinf64)
instance arr_value(Float8ArrayFromFloat64Slice, joinf64)
instance arr_scan(Float4ArrayToFloat32Slice, float32, flts32, fltsok, 32, true)
instance arr_scan(Float4ArrayToFloat64Slice, float64, flts64, fltsok, 64, true)
instance arr_scan(Float8ArrayToFloat32Slice, float32, flts32, fltsok, 32, true)
instance arr_scan(Float8ArrayToFloat64Slice, float64, flts64, fltsok, 64, true)

// ---- reading back what was written
lemma splitc_agree(a Bytes, b Bytes, i Int, c Int) : splitc(a, i, c), splitc(b, i, c) => imp(0 <= i && i <= len(a) && i <= len(b) && sub(a, 0, i) == sub(b, 0, i), splitc(a, i, c) == splitc(b, i, c) && lastsep(a, i, c) == lastsep(b, i, c))
  by up i
rec nosep(a Bytes, n Int, i Int, c Int) Bool = i <= n || (nosep(a, n, i-1, c) && a[i-1] != c)
lemma splitc_tail(a Bytes, n Int, i Int, c Int) : nosep(a, n, i, c), splitc(a, n, c) => imp(0 <= n && n <= i && nosep(a, n, i, c), splitc(a, i, c) == splitc(a, n, c) && lastsep(a, i, c) == lastsep(a, n, c))
  by up i
rec issep(c Int) Bool = c == 44 || c == 32
lemma nosep_num(a Bytes, n Int, x Int, i Int, c Int) : nosep(a, n, i, c), itoa(x) => imp(issep(c) && 0 <= n && n <= i && i <= len(a) && sub(a, n, len(a)-n) == itoa(x), nosep(a, n, i, c))
  by up i
  hint itoa(x)[i-n]
rec texts(v Seq[Int], k Int) Seq[Slc[Int]] = ite(k <= 0, empty("Slc[Int]"), cat(texts(v, k-1), unit(mk("Slc[Int]", false, itoa(v[k-1])))))
rec int64s(v Seq[Int], k Int) Bool = k <= 0 || (int64s(v, k-1) && -9223372036854775808 <= v[k-1] && v[k-1] <= 18446744073709551615)
lemma joinints_pos(v Seq[Int], k Int, c Int) : joinints(v, k, c) => imp(1 <= k, len(joinints(v, k, c)) >= 1)
  by up k
lemma elems_joinints(v Seq[Int], k Int, c Int) : elems(joinints(v, k, c), c) => imp(issep(c) && 1 <= k && k <= len(v), elems(joinints(v, k, c), c) == texts(v, k))
  by up k
  hint elems(joinints(v, k, c), c)
  hint elems(joinints(v, k+1, c), c)
  hint splitc(joinints(v, k+1, c), len(joinints(v, k, c)), c)
  hint splitc(joinints(v, k+1, c), len(joinints(v, k, c))+1, c)
  hint nosep(joinints(v, k+1, c), len(joinints(v, k, c))+1, len(joinints(v, k+1, c)), c)
  hint nosep(itoa(v[0]), 0, len(itoa(v[0])), c)
  hint splitc(itoa(v[0]), 0, c)
lemma texts_len(v Seq[Int], k Int) : texts(v, k) => imp(0 <= k, len(texts(v, k)) == k)
  by up k
lemma texts_at(v Seq[Int], n Int, j Int) : texts(v, n)[j] => imp(0 <= j && j < n, texts(v, n)[j] == mk("Slc[Int]", false, itoa(v[j])))
  by up n
rec allfit(v Seq[Int], k Int, bits Int, s Bool) Bool = k <= 0 || (allfit(v, k-1, bits, s) && infit(v[k-1], bits, s))
lemma ints_texts(v Seq[Int], n Int, k Int, bits Int, s Bool) : ints(texts(v, n), k), intsok(texts(v, n), k, bits, s) => imp(0 <= k && k <= n && n <= len(v), ints(texts(v, n), k) == sub(v, 0, k) && imp(allfit(v, k, bits, s), intsok(texts(v, n), k, bits, s)))
  by up k
// the text an array of integers is written as reads back as the same integers
lemma int_roundtrip(v Seq[Int], bits Int, s Bool, c Int) : ints(elems(joinints(v, len(v), c), c), len(v)), intsok(elems(joinints(v, len(v), c), c), len(v), bits, s) => imp(issep(c) && 1 <= len(v) && allfit(v, len(v), bits, s), len(elems(joinints(v, len(v), c), c)) == len(v) && ints(elems(joinints(v, len(v), c), c), len(v)) == v && intsok(elems(joinints(v, len(v), c), c), len(v), bits, s))
  hint ints(texts(v, len(v)), len(v))
  hint intsok(texts(v, len(v)), len(v), bits, s)
