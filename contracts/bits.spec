use numarr.spec

// ---- booleans and bits in array text: one character each
rec chb(b Bool, one Int, zero Int) Int = ite(b, one, zero)
rec chi(b Int, one Int, zero Int) Int = ite(b == 0, zero, one)
rec jbool(v Seq[Bool], k Int, one Int, zero Int) Bytes = ite(k <= 0, "", ite(k == 1, unit(chb(v[0], one, zero)), cat(jbool(v, k-1, one, zero), ",", unit(chb(v[k-1], one, zero)))))
rec jbit(v Seq[Int], k Int, one Int, zero Int) Bytes = ite(k <= 0, "", ite(k == 1, unit(chi(v[0], one, zero)), cat(jbit(v, k-1, one, zero), ",", unit(chi(v[k-1], one, zero)))))
lemma jbool_len(v Seq[Bool], k Int, one Int, zero Int) : jbool(v, k, one, zero) => imp(1 <= k, len(jbool(v, k, one, zero)) == 2*k-1)
  by up k
lemma jbit_len(v Seq[Int], k Int, one Int, zero Int) : jbit(v, k, one, zero) => imp(1 <= k, len(jbit(v, k, one, zero)) == 2*k-1)
  by up k

// the first character of every element
rec ebools(E Seq[Slc[Int]], k Int, one Int) Seq[Bool] = ite(k <= 0, empty("Bool"), cat(ebools(E, k-1, one), unit(E[k-1].data[0] == one)))
rec ebits(E Seq[Slc[Int]], k Int, one Int) Seq[Int] = ite(k <= 0, empty("Int"), cat(ebits(E, k-1, one), unit(ite(E[k-1].data[0] == one, 1, 0))))
rec filled(E Seq[Slc[Int]], k Int) Bool = k <= 0 || filled(E, k-1) && 1 <= len(E[k-1].data)
lemma filled_at(E Seq[Slc[Int]], n Int, j Int) : filled(E, n), E[j] => imp(0 <= j && j < n && filled(E, n), 1 <= len(E[j].data))
  by up n

template bits_value(CTOR, JOIN, ONE, ZERO)
target $CTOR: pgsql.$CTOR(v).Value()
  property N03
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", $JOIN(data(v), len(v), $ONE, $ZERO), "}"))
  inv (acc acc:[]byte, j acc:int, k cnt): sub(data(acc), 0, j) == ite(k <= 0, "{", cat("{", $JOIN(data(v), k, $ONE, $ZERO), ",")) && 0 <= k && j == 1 + 2*k && len(acc) == 1 + 2*len(v)
end
template bits_scan(CTOR, T, PARSE, ONE)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N03
  cases src
  requires imp(istext(src), len(text(src)) >= 2 && filled(elems(sub(text(src), 1, len(text(src))-2), 44), len(elems(sub(text(src), 1, len(text(src))-2), 44))))
  let E = elems(sub(text(src), 1, len(text(src))-2), 44)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures noerr: imp(isarr || src == nil, r0 == nil)
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == $PARSE(E, len(E), $ONE))
  inv (acc acc:[]$T, k cnt): sub(data(acc), 0, k) == $PARSE(E, k, $ONE) && 0 <= k
end
instance bits_value(BoolArrayFromBoolSlice, jbool, 116, 102)
instance bits_value(BitArrayFromBoolSlice, jbool, 49, 48)
instance bits_value(BitArrayFromUint8Slice, jbit, 49, 48)
instance bits_value(BitArrayFromUintSlice, jbit, 49, 48)
instance bits_scan(BoolArrayToBoolSlice, bool, ebools, 116)
instance bits_scan(BitArrayToBoolSlice, bool, ebools, 49)
instance bits_scan(BitArrayToUint8Slice, uint8, ebits, 49)
instance bits_scan(BitArrayToUintSlice, uint, ebits, 49)

target BitFromBool: pgsql.BitFromBool(v).Value()
  property N03
  ensures r1 == nil && istext(r0) && text(r0) == unit(ite(v, 49, 48))

// ---- bit strings
rec tbool(v Seq[Bool], k Int) Bytes = ite(k <= 0, "", cat(tbool(v, k-1), unit(chb(v[k-1], 49, 48))))
rec tbit(v Seq[Int], k Int) Bytes = ite(k <= 0, "", cat(tbit(v, k-1), unit(chi(v[k-1], 49, 48))))
lemma tbool_len(v Seq[Bool], k Int) : tbool(v, k) => imp(0 <= k, len(tbool(v, k)) == k)
  by up k
lemma tbit_len(v Seq[Int], k Int) : tbit(v, k) => imp(0 <= k, len(tbit(v, k)) == k)
  by up k
// every element is a bit
rec arebits(v Seq[Int], k Int) Bool = k <= 0 || arebits(v, k-1) && 0 <= v[k-1] && v[k-1] <= 1
lemma arebits_at(v Seq[Int], n Int, j Int) : arebits(v, n), v[j] => imp(0 <= j && j < n && arebits(v, n), 0 <= v[j] && v[j] <= 1)
  by up n
rec pbool(s Bytes, k Int) Seq[Bool] = ite(k <= 0, empty("Bool"), cat(pbool(s, k-1), unit(s[k-1] == 49)))
rec pbit(s Bytes, k Int) Seq[Int] = ite(k <= 0, empty("Int"), cat(pbit(s, k-1), unit(ite(s[k-1] == 49, 1, 0))))

target VarBitFromBoolSlice: pgsql.VarBitFromBoolSlice(v).Value()
  property N03
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == tbool(data(v), len(v)))
  inv (acc acc:[]byte, k cnt): sub(data(acc), 0, k) == tbool(data(v), k) && 0 <= k && len(acc) == len(v)
target VarBitFromUint8Slice: pgsql.VarBitFromUint8Slice(v).Value()
  property N03
  requires arebits(data(v), len(v))
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == tbit(data(v), len(v)))
  inv (acc acc:[]byte, k cnt): sub(data(acc), 0, k) == tbit(data(v), k) && 0 <= k && len(acc) == len(v)
template varbit_scan(CTOR, T, PARSE, ZERO)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N03
  cases src
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures noerr: r0 == nil
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == $PARSE(text(src), len(text(src))))
  inv (acc acc:[]$T, k cnt): sub(data(acc), 0, k) == $PARSE(text(src), k) && 0 <= k && len(acc) == len(text(src))
  inv (acc acc:[]$T, k cnt): k <= len(acc) && sub(data(acc), k, len(acc)-k) == sub(data(entry(acc)), k, len(acc)-k)
end
instance varbit_scan(VarBitToBoolSlice, bool, pbool, false)
instance varbit_scan(VarBitToUint8Slice, uint8, pbit, 0)

// ---- arrays of bit strings
rec ebool(s Slc[Bool]) Bytes = ite(isnil(s), "NULL", ite(len(s.data) == 0, "\"\"", tbool(s.data, len(s.data))))
rec ebit(s Slc[Int]) Bytes = ite(isnil(s), "NULL", ite(len(s.data) == 0, "\"\"", tbit(s.data, len(s.data))))
rec estr(s Bytes) Bytes = ite(len(s) == 0, "\"\"", s)
rec jebool(v Seq[Slc[Bool]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, ebool(v[0]), cat(jebool(v, k-1), ",", ebool(v[k-1]))))
rec jebit(v Seq[Slc[Int]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, ebit(v[0]), cat(jebit(v, k-1), ",", ebit(v[k-1]))))
rec jestr(v Seq[Bytes], k Int) Bytes = ite(k <= 0, "", ite(k == 1, estr(v[0]), cat(jestr(v, k-1), ",", estr(v[k-1]))))
lemma jebool_fit(v Seq[Slc[Bool]], n Int, k Int) : jebool(v, n), jebool(v, k) => imp(0 <= k && k < n, len(jebool(v, k)) + ite(k <= 0, 0, 1) + ite(isnil(v[k]), 4, ite(len(v[k].data) == 0, 2, len(v[k].data))) <= len(jebool(v, n)))
  by up n
lemma jebit_fit(v Seq[Slc[Int]], n Int, k Int) : jebit(v, n), jebit(v, k) => imp(0 <= k && k < n, len(jebit(v, k)) + ite(k <= 0, 0, 1) + ite(isnil(v[k]), 4, ite(len(v[k].data) == 0, 2, len(v[k].data))) <= len(jebit(v, n)))
  by up n
lemma jestr_fit(v Seq[Bytes], n Int, k Int) : jestr(v, n), jestr(v, k) => imp(0 <= k && k < n, len(jestr(v, k)) + ite(k <= 0, 0, 1) + ite(len(v[k]) == 0, 2, len(v[k])) <= len(jestr(v, n)))
  by up n
rec allbits(v Seq[Slc[Int]], k Int) Bool = k <= 0 || allbits(v, k-1) && arebits(v[k-1].data, len(v[k-1].data))
lemma allbits_at(v Seq[Slc[Int]], n Int, j Int) : allbits(v, n), v[j] => imp(0 <= j && j < n && allbits(v, n), arebits(v[j].data, len(v[j].data)))
  by up n

template bitss_value(CTOR, JOIN, T, OK)
target $CTOR: pgsql.$CTOR(v).Value()
  property N03
  requires $OK
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", $JOIN(data(v), len(v)), "}"))
  inv (size acc:int, k cnt): size == 1 + len(v) - k + len($JOIN(data(v), k)) + ite(k <= 0, 0, k-(k-1)) && 0 <= k && k <= len(v)
  inv (acc acc:[]byte, x acc:int, k cnt): sub(data(acc), 0, x) == ite(k <= 0, "{", cat("{", $JOIN(data(v), k), ",")) && 0 <= k && k <= len(v) && x == 1 + len($JOIN(data(v), k)) + ite(k <= 0, 0, 1) && len(acc) == 2 + len($JOIN(data(v), len(v)))
  inv (acc acc:[]byte, x acc:int, j cnt, k src:int): sub(data(acc), 0, x) == cat(sub(data(entry(acc)), 0, entry(x)), $T(data(v)[k].data, j)) && x == entry(x) + j && 0 <= j && j <= len(data(v)[k].data) && 0 <= entry(x) && entry(x) + len(data(v)[k].data) + 1 <= len(acc) && len(acc) == len(entry(acc))
end
instance bitss_value(VarBitArrayFromBoolSliceSlice, jebool, tbool, true)
instance bitss_value(VarBitArrayFromUint8SliceSlice, jebit, tbit, allbits(data(v), len(v)))
target VarBitArrayFromStringSlice: pgsql.VarBitArrayFromStringSlice(v).Value()
  property N03
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", jestr(data(v), len(v)), "}"))
  inv (size acc:int, k cnt): size == 1 + len(v) - k + len(jestr(data(v), k)) + ite(k <= 0, 0, 1) && 0 <= k && k <= len(v)
  inv (acc acc:[]byte, x acc:int, k cnt): sub(data(acc), 0, x) == ite(k <= 0, "{", cat("{", jestr(data(v), k), ",")) && 0 <= k && k <= len(v) && 0 <= x && len(acc) == 2 + len(jestr(data(v), len(v)))

rec pebool(E Seq[Slc[Int]], k Int) Seq[Slc[Bool]] = ite(k <= 0, empty("Slc[Bool]"), cat(pebool(E, k-1), unit(ite(len(E[k-1].data) == 4 && E[k-1].data[0] == 78, mk("Slc[Bool]", true, empty("Bool")), ite(len(E[k-1].data) == 2 && E[k-1].data[0] == 34, mk("Slc[Bool]", false, empty("Bool")), mk("Slc[Bool]", false, pbool(E[k-1].data, len(E[k-1].data))))))))
rec pebit(E Seq[Slc[Int]], k Int) Seq[Slc[Int]] = ite(k <= 0, empty("Slc[Int]"), cat(pebit(E, k-1), unit(ite(len(E[k-1].data) == 4 && E[k-1].data[0] == 78, mk("Slc[Int]", true, empty("Int")), ite(len(E[k-1].data) == 2 && E[k-1].data[0] == 34, mk("Slc[Int]", false, empty("Int")), mk("Slc[Int]", false, pbit(E[k-1].data, len(E[k-1].data))))))))
rec pestr(E Seq[Slc[Int]], k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(pestr(E, k-1), unit(ite(len(E[k-1].data) == 2 && E[k-1].data[0] == 34, "", E[k-1].data))))
// the elements PostgreSQL writes: none is NULL
rec nonull(E Seq[Slc[Int]], k Int) Bool = k <= 0 || nonull(E, k-1) && E[k-1].data[0] != 78
lemma nonull_at(E Seq[Slc[Int]], n Int, j Int) : nonull(E, n), E[j] => imp(0 <= j && j < n && nonull(E, n), E[j].data[0] != 78)
  by up n

template bitss_scan(CTOR, T, PARSE, ONE)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property N03
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  let E = elems(sub(text(src), 1, len(text(src))-2), 44)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures noerr: imp(isarr || src == nil, r0 == nil)
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == $PARSE(E, len(E)))
  inv (acc acc:[][]$T, k cnt): sub(data(acc), 0, k) == $PARSE(E, k) && 0 <= k && len(acc) == len(E)
  inv (acc acc:[][]$T, k cnt): k <= len(acc) && sub(data(acc), k, len(acc)-k) == sub(data(entry(acc)), k, len(acc)-k)
  inv (acc acc:[]$T, j cnt, i src:int): sub(data(acc), 0, j) == $ONE(E[i].data, j) && 0 <= j && j <= len(acc) && len(acc) == len(E[i].data)
  inv (acc acc:[]$T, j cnt, i src:int): j <= len(acc) && sub(data(acc), j, len(acc)-j) == sub(data(entry(acc)), j, len(acc)-j)
end
instance bitss_scan(VarBitArrayToBoolSliceSlice, bool, pebool, pbool)
instance bitss_scan(VarBitArrayToUint8SliceSlice, uint8, pebit, pbit)
target VarBitArrayToStringSlice: pgsql.VarBitArrayToStringSlice(v).Scan(src)
  property N03
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  let E = elems(sub(text(src), 1, len(text(src))-2), 44)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  requires nonull(E, len(E))
  ensures noerr: imp(isarr || src == nil, r0 == nil)
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == pestr(E, len(E)))
  inv (acc acc:[]string, k cnt): sub(data(acc), 0, k) == pestr(E, k) && 0 <= k && len(acc) == len(E)
  inv (acc acc:[]string, k cnt): k <= len(acc) && sub(data(acc), k, len(acc)-k) == sub(data(entry(acc)), k, len(acc)-k)

// ---- a bit string as the binary text of a number
target VarBitFromInt64: pgsql.VarBitFromInt64(v).Value()
  property N03
  requires 0 <= v
  ensures r1 == nil && istext(r0) && text(r0) == itoabase(v, 2)
target VarBitToInt64: pgsql.VarBitToInt64(v).Scan(src)
  property N03
  cases src
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures parsed: imp(isarr && r0 == nil, isbin(text(src)) && infit(btoi(text(src)), 64, true) && *v == btoi(text(src)))
  ensures accepted: imp(isarr && isbin(text(src)) && infit(btoi(text(src)), 64, true), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
rec jbin(v Seq[Int], k Int) Bytes = ite(k <= 0, "", ite(k == 1, itoabase(v[0], 2), cat(jbin(v, k-1), ",", itoabase(v[k-1], 2))))
rec bins(E Seq[Slc[Int]], k Int) Seq[Int] = ite(k <= 0, empty("Int"), cat(bins(E, k-1), unit(btoi(E[k-1].data))))
rec binsok(E Seq[Slc[Int]], k Int) Bool = k <= 0 || (binsok(E, k-1) && isbin(E[k-1].data) && infit(btoi(E[k-1].data), 64, true))
lemma binsok_at(E Seq[Slc[Int]], n Int, j Int) : binsok(E, n), E[j] => imp(0 <= j && j < n && binsok(E, n), isbin(E[j].data) && infit(btoi(E[j].data), 64, true))
  by up n
target VarBitArrayFromInt64Slice: pgsql.VarBitArrayFromInt64Slice(v).Value()
  property N03
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", jbin(data(v), len(v)), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == cat(ite(k <= 0, "{", cat("{", jbin(data(v), k), ","))) && 0 <= k
target VarBitArrayToInt64Slice: pgsql.VarBitArrayToInt64Slice(v).Scan(src)
  property N03
  cases src
  requires imp(istext(src), len(text(src)) >= 2)
  let E = elems(sub(text(src), 1, len(text(src))-2), 44)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures null: imp(src == nil, r0 == nil && isnil(*v))
  ensures parsed: imp(isarr && r0 == nil, data(*v) == bins(E, len(E)) && binsok(E, len(E)))
  ensures accepted: imp(isarr && binsok(E, len(E)), r0 == nil)
  ensures kept: imp(r0 != nil, *v == old(*v))
  inv (acc acc:[]int64, k cnt): sub(data(acc), 0, k) == bins(E, k) && binsok(E, k) && 0 <= k
