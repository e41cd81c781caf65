use numarr.spec

// ---- the text of one range: [lo,hi) and its bounds (a missing bound is empty)
rec nextc(a Bytes, j Int, c Int) Int = ite(j >= len(a), len(a), ite(a[j] == c, j, nextc(a, j+1, c)))
lemma nextc_range(a Bytes, j Int, c Int) : nextc(a, j, c) => imp(0 <= j && j <= len(a), j <= nextc(a, j, c) && nextc(a, j, c) <= len(a) && imp(nextc(a, j, c) < len(a), a[nextc(a, j, c)] == c))
  by down j len(a)
rec inner(a Bytes) Bytes = ite(len(a) < 2, "", sub(a, 1, len(a)-2))
opaque rlo(a Bytes) Bytes = ite(nextc(inner(a), 0, 44) < len(inner(a)), sub(inner(a), 0, nextc(inner(a), 0, 44)), "")
opaque rhi(a Bytes) Bytes = ite(nextc(inner(a), 0, 44) < len(inner(a)), sub(inner(a), nextc(inner(a), 0, 44)+1, len(inner(a))-nextc(inner(a), 0, 44)-1), "")

contract pgsql.pgParseRange(a)
  property N02
  requires len(a) == 0 || len(a) >= 2
  ensures lower: data(r0[0]) == rlo(data(a))
  reveal rlo
  reveal rhi
  ensures upper: data(r0[1]) == rhi(data(a))
  inv (i cnt): nextc(inner(data(a)), 0, 44) == nextc(inner(data(a)), i, 44) && 0 <= i

// ---- the elements of the text of a range array: quoted strings, NULL or the unquoted empty range
rec qend(a Bytes, j Int) Int = ite(j >= len(a), len(a), ite(a[j] == 92, qend(a, j+2), ite(a[j] == 34, j, qend(a, j+1))))
opaque qelems(a Bytes, i Int) Seq[Slc[Int]] = ite(i >= len(a), empty("Slc[Int]"), ite(a[i] == 34, cat(unit(mk("Slc[Int]", false, sub(a, i+1, qend(a, i+1)-i-1))), qelems(a, qend(a, i+1)+2)), ite(a[i] == 78, cat(unit(mk("Slc[Int]", true, "")), qelems(a, i+5)), ite(i+5 <= len(a) && sub(a, i, 5) == "empty", cat(unit(mk("Slc[Int]", false, "empty")), qelems(a, i+6)), qelems(a, i+1)))))
// the texts PostgreSQL writes: quotes are closed, a quoted range has its delimiters
opaque qwf(a Bytes, i Int) Bool = i >= len(a) || ite(a[i] == 34, qend(a, i+1) < len(a) && qend(a, i+1)-i-1 >= 2 && qwf(a, qend(a, i+1)+2), ite(a[i] == 78, qwf(a, i+5), ite(i+5 <= len(a) && sub(a, i, 5) == "empty", qwf(a, i+6), qwf(a, i+1))))
lemma qend_range(a Bytes, j Int) : qend(a, j) => imp(0 <= j && j <= len(a), j <= qend(a, j) && qend(a, j) <= len(a) && imp(qend(a, j) < len(a), a[qend(a, j)] == 34) && imp(j+1 <= len(a), j+1 <= qend(a, j+1)) && qend(a, j+1) <= len(a) && imp(qend(a, j+1) < len(a), a[qend(a, j+1)] == 34))
  by down j len(a)
rec okrange(E Seq[Slc[Int]], k Int) Bool = k <= 0 || (okrange(E, k-1) && (len(E[k-1].data) == 0 || len(E[k-1].data) >= 2))
lemma okrange_at(E Seq[Slc[Int]], n Int, j Int) : okrange(E, n), E[j] => imp(0 <= j && j < n && okrange(E, n), len(E[j].data) == 0 || len(E[j].data) >= 2)
  by up n
lemma okrange_app(E Seq[Slc[Int]], x Slc[Int], k Int) : okrange(cat(E, unit(x)), k) => imp(0 <= k && k <= len(E), okrange(cat(E, unit(x)), k) == okrange(E, k))
  by up k
contract pgsql.pgParseQuotedStringArray(a)
  property N02
  requires len(a) >= 2
  requires !isnil(a)
  requires qwf(sub(a, 1, len(a)-2), 0)
  let b = sub(data(a), 1, len(a)-2)
  reveal qelems
  reveal qwf
  ensures elements: data(r0) == qelems(b, 0)
  ensures ranges: okrange(data(r0), len(r0))
  inv (i cnt, out acc:[][]byte): cat(data(out), qelems(b, i)) == qelems(b, 0) && qwf(b, i) && 0 <= i && okrange(data(out), len(out))
  inv (j cnt, i src:int): qend(b, i+1) == qend(b, j) && i+1 <= j

// ---- bounds
rec bint(t Bytes) Int = ite(len(t) == 0, 0, atoi(t))
rec bok(t Bytes, bits Int, s Bool) Bool = len(t) == 0 || (ite(s, isint(t), isuint(t)) && infit(atoi(t), bits, s))
rec bintf32(t Bytes) Flt = i2f32(bint(t))
rec bintf64(t Bytes) Flt = i2f64(bint(t))
rec bflt32(t Bytes) Flt = ite(len(t) == 0, zero("float32"), f64to32(atof(t, 32)))
rec bflt64(t Bytes) Flt = ite(len(t) == 0, zero("float64"), atof(t, 64))
rec bfok(t Bytes, bits Int, s Bool) Bool = len(t) == 0 || isflt(t, bits)
rec tint(x Int) Bytes = itoa(x)
rec tf2i(x Flt) Bytes = itoa(f2i_int64(x))
rec tf32(x Flt) Bytes = ftoa(x, 102, -1, 32)
rec tf64(x Flt) Bytes = ftoa(x, 102, -1, 64)

template range_value(CTOR, TEXT)
target $CTOR: pgsql.$CTOR(v).Value()
  property N02
  ensures noerr: r1 == nil
  ensures text: istext(r0) && text(r0) == cat("[", $TEXT(v[0]), ",", $TEXT(v[1]), ")")
end
template range_scan(CTOR, BOUND, OK, BITS, S)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N02
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  let isr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  let fits = $OK(rlo(text(src)), $BITS, $S) && $OK(rhi(text(src)), $BITS, $S)
  ensures null: imp(src == nil, r0 == nil && *v == old(*v))
  ensures lower: imp(isr && r0 == nil, (*v)[0] == $BOUND(rlo(text(src))))
  ensures upper: imp(isr && r0 == nil, (*v)[1] == $BOUND(rhi(text(src))))
  ensures fits: imp(isr && r0 == nil, fits)
  ensures accepted: imp(isr && fits, r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
end

rec rtext_int(v Seq[Seq[Int]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"[", tint(v[0][0]), ",", tint(v[0][1]), ")\""), cat(rtext_int(v, k-1), ",\"[", tint(v[k-1][0]), ",", tint(v[k-1][1]), ")\"")))
rec rtext_f2i(v Seq[Seq[Flt]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"[", tf2i(v[0][0]), ",", tf2i(v[0][1]), ")\""), cat(rtext_f2i(v, k-1), ",\"[", tf2i(v[k-1][0]), ",", tf2i(v[k-1][1]), ")\"")))
rec rtext_f32(v Seq[Seq[Flt]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"[", tf32(v[0][0]), ",", tf32(v[0][1]), ")\""), cat(rtext_f32(v, k-1), ",\"[", tf32(v[k-1][0]), ",", tf32(v[k-1][1]), ")\"")))
rec rtext_f64(v Seq[Seq[Flt]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"[", tf64(v[0][0]), ",", tf64(v[0][1]), ")\""), cat(rtext_f64(v, k-1), ",\"[", tf64(v[k-1][0]), ",", tf64(v[k-1][1]), ")\"")))
rec rs_bint(E Seq[Slc[Int]], k Int) Seq[Seq[Int]] = ite(k <= 0, empty("Seq[Int]"), cat(rs_bint(E, k-1), unit(cat(unit(bint(rlo(E[k-1].data))), unit(bint(rhi(E[k-1].data)))))))
rec rs_bintf32(E Seq[Slc[Int]], k Int) Seq[Seq[Flt]] = ite(k <= 0, empty("Seq[Flt]"), cat(rs_bintf32(E, k-1), unit(cat(unit(bintf32(rlo(E[k-1].data))), unit(bintf32(rhi(E[k-1].data)))))))
rec rs_bintf64(E Seq[Slc[Int]], k Int) Seq[Seq[Flt]] = ite(k <= 0, empty("Seq[Flt]"), cat(rs_bintf64(E, k-1), unit(cat(unit(bintf64(rlo(E[k-1].data))), unit(bintf64(rhi(E[k-1].data)))))))
rec rs_bflt32(E Seq[Slc[Int]], k Int) Seq[Seq[Flt]] = ite(k <= 0, empty("Seq[Flt]"), cat(rs_bflt32(E, k-1), unit(cat(unit(bflt32(rlo(E[k-1].data))), unit(bflt32(rhi(E[k-1].data)))))))
rec rs_bflt64(E Seq[Slc[Int]], k Int) Seq[Seq[Flt]] = ite(k <= 0, empty("Seq[Flt]"), cat(rs_bflt64(E, k-1), unit(cat(unit(bflt64(rlo(E[k-1].data))), unit(bflt64(rhi(E[k-1].data)))))))
rec rs_bok(E Seq[Slc[Int]], k Int, bits Int, s Bool) Bool = k <= 0 || (rs_bok(E, k-1, bits, s) && bok(rlo(E[k-1].data), bits, s) && bok(rhi(E[k-1].data), bits, s))
lemma rs_bok_at(E Seq[Slc[Int]], n Int, j Int, bits Int, s Bool) : rs_bok(E, n, bits, s), E[j] => imp(0 <= j && j < n && rs_bok(E, n, bits, s), bok(rlo(E[j].data), bits, s) && bok(rhi(E[j].data), bits, s))
  by up n
rec rs_bfok(E Seq[Slc[Int]], k Int, bits Int, s Bool) Bool = k <= 0 || (rs_bfok(E, k-1, bits, s) && bfok(rlo(E[k-1].data), bits, s) && bfok(rhi(E[k-1].data), bits, s))
lemma rs_bfok_at(E Seq[Slc[Int]], n Int, j Int, bits Int, s Bool) : rs_bfok(E, n, bits, s), E[j] => imp(0 <= j && j < n && rs_bfok(E, n, bits, s), bfok(rlo(E[j].data), bits, s) && bfok(rhi(E[j].data), bits, s))
  by up n

template rangearr_value(CTOR, RTEXT)
target $CTOR: pgsql.$CTOR(v).Value()
  property N02
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", $RTEXT(data(v), len(v)), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == ite(k <= 0, "{", cat("{", $RTEXT(data(v), k), ",")) && 0 <= k
end
template rangearr_scan(CTOR, T, BOUND, OK, BITS, S)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N02
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  requires qwf(sub(text(src), 1, len(text(src))-2), 0)
  let E = qelems(sub(text(src), 1, len(text(src))-2), 0)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures null: imp(src == nil, r0 == nil && isnil(*v))
  ensures parsed: imp(isarr && r0 == nil, data(*v) == rs_$BOUND(E, len(E)))
  ensures fits: imp(isarr && r0 == nil, rs_$OK(E, len(E), $BITS, $S))
  ensures accepted: imp(isarr && rs_$OK(E, len(E), $BITS, $S), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
  inv (acc acc:[]$T, k cnt): sub(data(acc), 0, k) == rs_$BOUND(E, k) && rs_$OK(E, k, $BITS, $S) && 0 <= k
end

instance range_value(Int4RangeFromIntArray2, tint)
instance range_scan(Int4RangeToIntArray2, bint, bok, 32, true)
instance rangearr_value(Int4RangeArrayFromIntArray2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToIntArray2Slice, [2]int, bint, bok, 32, true)
instance range_value(Int4RangeFromInt8Array2, tint)
instance range_scan(Int4RangeToInt8Array2, bint, bok, 8, true)
instance rangearr_value(Int4RangeArrayFromInt8Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToInt8Array2Slice, [2]int8, bint, bok, 8, true)
instance range_value(Int4RangeFromInt16Array2, tint)
instance range_scan(Int4RangeToInt16Array2, bint, bok, 16, true)
instance rangearr_value(Int4RangeArrayFromInt16Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToInt16Array2Slice, [2]int16, bint, bok, 16, true)
instance range_value(Int4RangeFromInt32Array2, tint)
instance range_scan(Int4RangeToInt32Array2, bint, bok, 32, true)
instance rangearr_value(Int4RangeArrayFromInt32Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToInt32Array2Slice, [2]int32, bint, bok, 32, true)
instance range_value(Int4RangeFromInt64Array2, tint)
instance range_scan(Int4RangeToInt64Array2, bint, bok, 32, true)
instance rangearr_value(Int4RangeArrayFromInt64Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToInt64Array2Slice, [2]int64, bint, bok, 32, true)
instance range_value(Int4RangeFromUintArray2, tint)
instance range_scan(Int4RangeToUintArray2, bint, bok, 32, false)
instance rangearr_value(Int4RangeArrayFromUintArray2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToUintArray2Slice, [2]uint, bint, bok, 32, false)
instance range_value(Int4RangeFromUint8Array2, tint)
instance range_scan(Int4RangeToUint8Array2, bint, bok, 8, false)
instance rangearr_value(Int4RangeArrayFromUint8Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToUint8Array2Slice, [2]uint8, bint, bok, 8, false)
instance range_value(Int4RangeFromUint16Array2, tint)
instance range_scan(Int4RangeToUint16Array2, bint, bok, 16, false)
instance rangearr_value(Int4RangeArrayFromUint16Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToUint16Array2Slice, [2]uint16, bint, bok, 16, false)
instance range_value(Int4RangeFromUint32Array2, tint)
instance range_scan(Int4RangeToUint32Array2, bint, bok, 32, false)
instance rangearr_value(Int4RangeArrayFromUint32Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToUint32Array2Slice, [2]uint32, bint, bok, 32, false)
instance range_value(Int4RangeFromUint64Array2, tint)
instance range_scan(Int4RangeToUint64Array2, bint, bok, 32, false)
instance rangearr_value(Int4RangeArrayFromUint64Array2Slice, rtext_int)
instance rangearr_scan(Int4RangeArrayToUint64Array2Slice, [2]uint64, bint, bok, 32, false)
instance range_value(Int4RangeFromFloat32Array2, tf2i)
instance range_scan(Int4RangeToFloat32Array2, bintf32, bok, 32, true)
instance rangearr_value(Int4RangeArrayFromFloat32Array2Slice, rtext_f2i)
instance rangearr_scan(Int4RangeArrayToFloat32Array2Slice, [2]float32, bintf32, bok, 32, true)
instance range_value(Int4RangeFromFloat64Array2, tf2i)
instance range_scan(Int4RangeToFloat64Array2, bintf64, bok, 32, true)
instance rangearr_value(Int4RangeArrayFromFloat64Array2Slice, rtext_f2i)
instance rangearr_scan(Int4RangeArrayToFloat64Array2Slice, [2]float64, bintf64, bok, 32, true)
instance range_value(Int8RangeFromIntArray2, tint)
instance range_scan(Int8RangeToIntArray2, bint, bok, 64, true)
instance rangearr_value(Int8RangeArrayFromIntArray2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToIntArray2Slice, [2]int, bint, bok, 64, true)
instance range_value(Int8RangeFromInt8Array2, tint)
instance range_scan(Int8RangeToInt8Array2, bint, bok, 8, true)
instance rangearr_value(Int8RangeArrayFromInt8Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToInt8Array2Slice, [2]int8, bint, bok, 8, true)
instance range_value(Int8RangeFromInt16Array2, tint)
instance range_scan(Int8RangeToInt16Array2, bint, bok, 16, true)
instance rangearr_value(Int8RangeArrayFromInt16Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToInt16Array2Slice, [2]int16, bint, bok, 16, true)
instance range_value(Int8RangeFromInt32Array2, tint)
instance range_scan(Int8RangeToInt32Array2, bint, bok, 32, true)
instance rangearr_value(Int8RangeArrayFromInt32Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToInt32Array2Slice, [2]int32, bint, bok, 32, true)
instance range_value(Int8RangeFromInt64Array2, tint)
instance range_scan(Int8RangeToInt64Array2, bint, bok, 64, true)
instance rangearr_value(Int8RangeArrayFromInt64Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToInt64Array2Slice, [2]int64, bint, bok, 64, true)
instance range_value(Int8RangeFromUintArray2, tint)
instance range_scan(Int8RangeToUintArray2, bint, bok, 64, false)
instance rangearr_value(Int8RangeArrayFromUintArray2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToUintArray2Slice, [2]uint, bint, bok, 64, false)
instance range_value(Int8RangeFromUint8Array2, tint)
instance range_scan(Int8RangeToUint8Array2, bint, bok, 8, false)
instance rangearr_value(Int8RangeArrayFromUint8Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToUint8Array2Slice, [2]uint8, bint, bok, 8, false)
instance range_value(Int8RangeFromUint16Array2, tint)
instance range_scan(Int8RangeToUint16Array2, bint, bok, 16, false)
instance rangearr_value(Int8RangeArrayFromUint16Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToUint16Array2Slice, [2]uint16, bint, bok, 16, false)
instance range_value(Int8RangeFromUint32Array2, tint)
instance range_scan(Int8RangeToUint32Array2, bint, bok, 32, false)
instance rangearr_value(Int8RangeArrayFromUint32Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToUint32Array2Slice, [2]uint32, bint, bok, 32, false)
instance range_value(Int8RangeFromUint64Array2, tint)
instance range_scan(Int8RangeToUint64Array2, bint, bok, 64, false)
instance rangearr_value(Int8RangeArrayFromUint64Array2Slice, rtext_int)
instance rangearr_scan(Int8RangeArrayToUint64Array2Slice, [2]uint64, bint, bok, 64, false)
instance range_value(Int8RangeFromFloat32Array2, tf2i)
instance range_scan(Int8RangeToFloat32Array2, bintf32, bok, 64, true)
instance rangearr_value(Int8RangeArrayFromFloat32Array2Slice, rtext_f2i)
instance rangearr_scan(Int8RangeArrayToFloat32Array2Slice, [2]float32, bintf32, bok, 64, true)
instance range_value(Int8RangeFromFloat64Array2, tf2i)
instance range_scan(Int8RangeToFloat64Array2, bintf64, bok, 64, true)
instance rangearr_value(Int8RangeArrayFromFloat64Array2Slice, rtext_f2i)
instance rangearr_scan(Int8RangeArrayToFloat64Array2Slice, [2]float64, bintf64, bok, 64, true)
instance range_value(NumRangeFromIntArray2, tint)
instance range_scan(NumRangeToIntArray2, bint, bok, 64, true)
instance rangearr_value(NumRangeArrayFromIntArray2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToIntArray2Slice, [2]int, bint, bok, 64, true)
instance range_value(NumRangeFromInt8Array2, tint)
instance range_scan(NumRangeToInt8Array2, bint, bok, 8, true)
instance rangearr_value(NumRangeArrayFromInt8Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToInt8Array2Slice, [2]int8, bint, bok, 8, true)
instance range_value(NumRangeFromInt16Array2, tint)
instance range_scan(NumRangeToInt16Array2, bint, bok, 16, true)
instance rangearr_value(NumRangeArrayFromInt16Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToInt16Array2Slice, [2]int16, bint, bok, 16, true)
instance range_value(NumRangeFromInt32Array2, tint)
instance range_scan(NumRangeToInt32Array2, bint, bok, 32, true)
instance rangearr_value(NumRangeArrayFromInt32Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToInt32Array2Slice, [2]int32, bint, bok, 32, true)
instance range_value(NumRangeFromInt64Array2, tint)
instance range_scan(NumRangeToInt64Array2, bint, bok, 64, true)
instance rangearr_value(NumRangeArrayFromInt64Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToInt64Array2Slice, [2]int64, bint, bok, 64, true)
instance range_value(NumRangeFromUintArray2, tint)
instance range_scan(NumRangeToUintArray2, bint, bok, 64, false)
instance rangearr_value(NumRangeArrayFromUintArray2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToUintArray2Slice, [2]uint, bint, bok, 64, false)
instance range_value(NumRangeFromUint8Array2, tint)
instance range_scan(NumRangeToUint8Array2, bint, bok, 8, false)
instance rangearr_value(NumRangeArrayFromUint8Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToUint8Array2Slice, [2]uint8, bint, bok, 8, false)
instance range_value(NumRangeFromUint16Array2, tint)
instance range_scan(NumRangeToUint16Array2, bint, bok, 16, false)
instance rangearr_value(NumRangeArrayFromUint16Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToUint16Array2Slice, [2]uint16, bint, bok, 16, false)
instance range_value(NumRangeFromUint32Array2, tint)
instance range_scan(NumRangeToUint32Array2, bint, bok, 32, false)
instance rangearr_value(NumRangeArrayFromUint32Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToUint32Array2Slice, [2]uint32, bint, bok, 32, false)
instance range_value(NumRangeFromUint64Array2, tint)
instance range_scan(NumRangeToUint64Array2, bint, bok, 64, false)
instance rangearr_value(NumRangeArrayFromUint64Array2Slice, rtext_int)
instance rangearr_scan(NumRangeArrayToUint64Array2Slice, [2]uint64, bint, bok, 64, false)
instance range_value(NumRangeFromFloat32Array2, tf32)
instance range_scan(NumRangeToFloat32Array2, bflt32, bfok, 32, true)
instance rangearr_value(NumRangeArrayFromFloat32Array2Slice, rtext_f32)
instance rangearr_scan(NumRangeArrayToFloat32Array2Slice, [2]float32, bflt32, bfok, 32, true)
instance range_value(NumRangeFromFloat64Array2, tf64)
instance range_scan(NumRangeToFloat64Array2, bflt64, bfok, 64, true)
instance rangearr_value(NumRangeArrayFromFloat64Array2Slice, rtext_f64)
instance rangearr_scan(NumRangeArrayToFloat64Array2Slice, [2]float64, bflt64, bfok, 64, true)
