use numarr.spec

// ---- the text of a list of integer vectors: {"1 2","","3"}
rec vecs_text(v Seq[Slc[Int]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"", joinints(v[0].data, len(v[0].data), 32), "\""), cat(vecs_text(v, k-1), ",\"", joinints(v[k-1].data, len(v[k-1].data), 32), "\"")))
rec vecs_f2i(v Seq[Slc[Flt]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, cat("\"", joinf2i(v[0].data, len(v[0].data), 32), "\""), cat(vecs_f2i(v, k-1), ",\"", joinf2i(v[k-1].data, len(v[k-1].data), 32), "\"")))

template vecarr_value(CTOR, T, VECS, JOIN)
target $CTOR: pgsql.$CTOR(v).Value()
  property N01
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", $VECS(data(v), len(v)), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == cat(ite(k <= 0, "{", cat("{", $VECS(data(v), k), ","))) && 0 <= k
  inv (acc acc:[]byte, e src:[]$T, j cnt): data(acc) == cat(data(entry(acc)), ite(j <= 0, "", cat($JOIN(data(e), j, 32), " "))) && 0 <= j
end

// ---- the elements of the text of an int2vector[]: quoted, unquoted or NULL
rec nextc(a Bytes, j Int, c Int) Int = ite(j >= len(a), len(a), ite(a[j] == c, j, nextc(a, j+1, c)))
rec vecelems(a Bytes, i Int) Seq[Slc[Slc[Int]]] = ite(i >= len(a), empty("Slc[Slc[Int]]"), ite(a[i] == 34, cat(unit(mk("Slc[Slc[Int]]", false, elems(sub(a, i+1, nextc(a, i+1, 34)-i-1), 32))), vecelems(a, nextc(a, i+1, 34)+2)), ite(a[i] == 78, cat(unit(mk("Slc[Slc[Int]]", true, empty("Slc[Int]"))), vecelems(a, i+5)), cat(unit(mk("Slc[Slc[Int]]", false, unit(mk("Slc[Int]", false, sub(a, i, nextc(a, i, 44)-i))))), vecelems(a, nextc(a, i, 44)+1)))))
// the texts PostgreSQL writes: quotes are closed and vectors do not end in a space, N starts NULL
rec vecwf(a Bytes, i Int) Bool = i >= len(a) || ite(a[i] == 34, nextc(a, i+1, 34) < len(a) && a[nextc(a, i+1, 34)-1] != 32 && vecwf(a, nextc(a, i+1, 34)+2), ite(a[i] == 78, i+4 <= len(a) && sub(a, i, 4) == "NULL" && vecwf(a, i+5), vecwf(a, nextc(a, i, 44)+1)))
lemma nextc_range(a Bytes, j Int, c Int) : nextc(a, j, c) => imp(0 <= j && j <= len(a), j <= nextc(a, j, c) && nextc(a, j, c) <= len(a) && imp(nextc(a, j, c) < len(a), a[nextc(a, j, c)] == c))
  by down j len(a)

lemma splitc_sub(a Bytes, o Int, n Int, m Int, i Int, k Int, c Int) : splitc(sub(a, o, n), i, c), splitc(sub(a, o, m), k, c) => imp(i == k && 0 <= o && 0 <= i && i <= n && i <= m && o+n <= len(a) && o+m <= len(a), splitc(sub(a, o, n), i, c) == splitc(sub(a, o, m), i, c) && lastsep(sub(a, o, n), i, c) == lastsep(sub(a, o, m), i, c))
  hint splitc(sub(a, o, m), i, c)
  hint splitc(sub(a, o, n), i, c)

lemma lastsep_range(a Bytes, i Int, c Int) : lastsep(a, i, c) => imp(0 <= i, 0 <= lastsep(a, i, c) && lastsep(a, i, c) <= i)
  by up i

contract pgsql.pgParseVectorArray(a)
  property N01
  requires len(a) >= 2
  requires !isnil(a)
  requires vecwf(sub(a, 1, len(a)-2), 0)
  let b = sub(data(a), 1, len(a)-2)
  ensures elements: data(r0) == vecelems(b, 0)
  inv (i cnt, out acc:[][][]byte): cat(data(out), vecelems(b, i)) == vecelems(b, 0) && vecwf(b, i) && 0 <= i
  inv (j cnt, k cnt, i src:int, vector acc:[][]byte): i+1 <= k && k <= j && data(vector) == splitc(sub(b, i+1, len(b)-i-1), j-i-1, 32) && k-i-1 == lastsep(sub(b, i+1, len(b)-i-1), j-i-1, 32) && nextc(b, i+1, 34) == nextc(b, j, 34)
  inv (j cnt, i src:int): b[i] == 34 || (nextc(b, i, 44) == nextc(b, j, 44) && i <= j)

rec vecs(E Seq[Slc[Slc[Int]]], k Int) Seq[Slc[Int]] = ite(k <= 0, empty("Slc[Int]"), cat(vecs(E, k-1), unit(mk("Slc[Int]", false, ints(E[k-1].data, len(E[k-1].data))))))
rec vecs_f32(E Seq[Slc[Slc[Int]]], k Int) Seq[Slc[Flt]] = ite(k <= 0, empty("Slc[Flt]"), cat(vecs_f32(E, k-1), unit(mk("Slc[Flt]", false, ints_f32(E[k-1].data, len(E[k-1].data))))))
rec vecs_f64(E Seq[Slc[Slc[Int]]], k Int) Seq[Slc[Flt]] = ite(k <= 0, empty("Slc[Flt]"), cat(vecs_f64(E, k-1), unit(mk("Slc[Flt]", false, ints_f64(E[k-1].data, len(E[k-1].data))))))
rec vecsok(E Seq[Slc[Slc[Int]]], k Int, bits Int, s Bool) Bool = k <= 0 || (vecsok(E, k-1, bits, s) && intsok(E[k-1].data, len(E[k-1].data), bits, s))
template vecarr_scan(CTOR, T, VECS, INTS, BITS, S)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N01
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  requires vecwf(sub(text(src), 1, len(text(src))-2), 0)
  let E = vecelems(sub(text(src), 1, len(text(src))-2), 0)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures null: imp(src == nil, r0 == nil && isnil(*v))
  ensures parsed: imp(isarr && r0 == nil, data(*v) == $VECS(E, len(E)) && vecsok(E, len(E), $BITS, $S))
  ensures accepted: imp(isarr && vecsok(E, len(E), $BITS, $S), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
  inv (acc acc:[][]$T, i cnt): sub(data(acc), 0, i) == $VECS(E, i) && vecsok(E, i, $BITS, $S) && 0 <= i
  inv (acc acc:[]$T, j cnt, i src:int): sub(data(acc), 0, j) == $INTS(E[i].data, j) && intsok(E[i].data, j, $BITS, $S) && 0 <= j
end
lemma vecsok_at(E Seq[Slc[Slc[Int]]], n Int, j Int, bits Int, s Bool) : vecsok(E, n, bits, s), E[j] => imp(0 <= j && j < n && vecsok(E, n, bits, s), intsok(E[j].data, len(E[j].data), bits, s))
  by up n
instance vecarr_value(Int2VectorArrayFromIntSliceSlice, int, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToIntSliceSlice, int, vecs, ints, 16, true)
instance vecarr_value(Int2VectorArrayFromInt8SliceSlice, int8, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToInt8SliceSlice, int8, vecs, ints, 8, true)
instance vecarr_value(Int2VectorArrayFromInt16SliceSlice, int16, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToInt16SliceSlice, int16, vecs, ints, 16, true)
instance vecarr_value(Int2VectorArrayFromInt32SliceSlice, int32, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToInt32SliceSlice, int32, vecs, ints, 16, true)
instance vecarr_value(Int2VectorArrayFromInt64SliceSlice, int64, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToInt64SliceSlice, int64, vecs, ints, 16, true)
instance vecarr_value(Int2VectorArrayFromUintSliceSlice, uint, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToUintSliceSlice, uint, vecs, ints, 16, false)
instance vecarr_value(Int2VectorArrayFromUint8SliceSlice, uint8, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToUint8SliceSlice, uint8, vecs, ints, 8, false)
instance vecarr_value(Int2VectorArrayFromUint16SliceSlice, uint16, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToUint16SliceSlice, uint16, vecs, ints, 16, false)
instance vecarr_value(Int2VectorArrayFromUint32SliceSlice, uint32, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToUint32SliceSlice, uint32, vecs, ints, 16, false)
instance vecarr_value(Int2VectorArrayFromUint64SliceSlice, uint64, vecs_text, joinints)
instance vecarr_scan(Int2VectorArrayToUint64SliceSlice, uint64, vecs, ints, 16, false)
instance vecarr_value(Int2VectorArrayFromFloat32SliceSlice, float32, vecs_f2i, joinf2i)
instance vecarr_scan(Int2VectorArrayToFloat32SliceSlice, float32, vecs_f32, ints_f32, 16, true)
instance vecarr_value(Int2VectorArrayFromFloat64SliceSlice, float64, vecs_f2i, joinf2i)
instance vecarr_scan(Int2VectorArrayToFloat64SliceSlice, float64, vecs_f64, ints_f64, 16, true)
