use std.spec
package ./pgsql

// ---- the text of an array of strings: each element quoted, with quotes, backslashes and control characters escaped
rec special(c Int) Bool = c == 34 || c == 92 || (7 <= c && c <= 13)
rec esc(c Int) Bytes = ite(special(c), cat("\\", unit(c)), unit(c))
rec qtext(s Bytes, k Int) Bytes = ite(k <= 0, "", cat(qtext(s, k-1), esc(s[k-1])))
rec quoted(s Bytes) Bytes = cat("\"", qtext(s, len(s)), "\"")
rec strs_text(v Seq[Bytes], k Int) Bytes = ite(k <= 0, "", ite(k == 1, quoted(v[0]), cat(strs_text(v, k-1), ",", quoted(v[k-1]))))
rec elem_text(s Slc[Int]) Bytes = ite(isnil(s), "NULL", quoted(s.data))
rec bufs_text(v Seq[Slc[Int]], k Int) Bytes = ite(k <= 0, "", ite(k == 1, elem_text(v[0]), cat(bufs_text(v, k-1), ",", elem_text(v[k-1]))))

contract pgsql.pgAppendQuote1(b, elem)
  property T01
  ensures quoted: data(r0) == cat(data(b), quoted(data(elem))) && !isnil(r0)
  inv (acc acc:[]byte, i cnt): data(acc) == cat(data(b), "\"", qtext(data(elem), i)) && 0 <= i

// ---- the elements of such a text
rec nextc(a Bytes, j Int, c Int) Int = ite(j >= len(a), len(a), ite(a[j] == c, j, nextc(a, j+1, c)))
lemma nextc_range(a Bytes, j Int, c Int) : nextc(a, j, c) => imp(0 <= j && j <= len(a), j <= nextc(a, j, c) && nextc(a, j, c) <= len(a) && imp(nextc(a, j, c) < len(a), a[nextc(a, j, c)] == c))
  by down j len(a)
rec qend(a Bytes, j Int) Int = ite(j >= len(a), len(a), ite(a[j] == 92, qend(a, j+2), ite(a[j] == 34, j, qend(a, j+1))))
lemma qend_range(a Bytes, j Int) : qend(a, j) => imp(0 <= j && j <= len(a), j <= qend(a, j) && qend(a, j) <= len(a) && imp(qend(a, j) < len(a), a[qend(a, j)] == 34) && imp(j+1 <= len(a), j+1 <= qend(a, j+1)) && qend(a, j+1) <= len(a) && imp(qend(a, j+1) < len(a), a[qend(a, j+1)] == 34))
  by down j len(a)
// the string between two quotes, escapes removed
rec unq(a Bytes, j Int) Bytes = ite(j >= len(a), "", ite(a[j] == 92, ite(j+1 < len(a), cat(unit(a[j+1]), unq(a, j+2)), ""), ite(a[j] == 34, "", cat(unit(a[j]), unq(a, j+1)))))
rec isnull(a Bytes, i Int) Bool = i+4 <= len(a) && sub(a, i, 4) == "NULL" && (i+4 == len(a) || a[i+4] == 44)
opaque selems(a Bytes, i Int) Seq[Slc[Int]] = ite(i >= len(a), empty("Slc[Int]"), ite(a[i] == 44, selems(a, i+1), ite(a[i] == 34, cat(unit(mk("Slc[Int]", false, unq(a, i+1))), selems(a, qend(a, i+1)+1)), ite(isnull(a, i), cat(unit(mk("Slc[Int]", true, "")), selems(a, i+4)), cat(unit(mk("Slc[Int]", false, sub(a, i, nextc(a, i, 44)-i))), selems(a, nextc(a, i, 44)+1))))))
// quotes are closed
opaque swf(a Bytes, i Int) Bool = i >= len(a) || ite(a[i] == 44, swf(a, i+1), ite(a[i] == 34, qend(a, i+1) < len(a) && swf(a, qend(a, i+1)+1), ite(isnull(a, i), swf(a, i+4), swf(a, nextc(a, i, 44)+1))))

contract pgsql.pgParseStringArray(a)
  property T01
  reveal selems
  reveal swf
  requires len(a) >= 2
  requires swf(sub(a, 1, len(a)-2), 0)
  let b = sub(data(a), 1, len(a)-2)
  ensures elements: data(r0) == selems(b, 0)
  inv (i cnt, out acc:[][]byte): cat(data(out), selems(b, i)) == selems(b, 0) && swf(b, i) && 0 <= i
  inv (j cnt, i acc:int, str acc:[]byte): cat(data(str), sub(b, i+1, j-i-1), unq(b, j)) == unq(b, entry(i)+1) && qend(b, j) == qend(b, entry(i)+1) && i+1 <= j && 0 <= i && !isnil(str)
  inv (j cnt, i src:int): nextc(b, i, 44) == nextc(b, j, 44) && i <= j

rec bufs(E Seq[Slc[Int]], k Int) Seq[Slc[Int]] = ite(k <= 0, empty("Slc[Int]"), cat(bufs(E, k-1), unit(ite(isnil(E[k-1]), mk("Slc[Int]", true, ""), mk("Slc[Int]", false, E[k-1].data)))))
rec strs(E Seq[Slc[Int]], k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(strs(E, k-1), unit(E[k-1].data)))


template strarr_value(CTOR)
target $CTOR: pgsql.$CTOR(v).Value()
  property T01
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", strs_text(data(v), len(v)), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == cat("{", ite(k <= 0, "", cat(strs_text(data(v), k), ","))) && 0 <= k
end
template bufarr_value(CTOR)
target $CTOR: pgsql.$CTOR(v).Value()
  property T01
  ensures null: imp(isnil(v), r0 == nil && r1 == nil)
  ensures noerr: r1 == nil
  ensures text: imp(!isnil(v), istext(r0) && text(r0) == cat("{", bufs_text(data(v), len(v)), "}"))
  inv (acc acc:[]byte, k cnt): data(acc) == cat("{", ite(k <= 0, "", cat(bufs_text(data(v), k), ","))) && 0 <= k
end
template strarr_scan(CTOR)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property T01
  cases src
  requires imp(istext(src), len(text(src)) >= 2 && swf(sub(text(src), 1, len(text(src))-2), 0))
  let E = selems(sub(text(src), 1, len(text(src))-2), 0)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures noerr: imp(isarr || src == nil, r0 == nil)
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == strs(E, len(E)))
  inv (acc acc:[]string, i cnt): sub(data(acc), 0, i) == strs(E, i) && 0 <= i
end
template bufarr_scan(CTOR)
target $CTOR: pgsql.$CTOR(v).Scan(src)
  property T01
  cases src
  requires imp(istext(src), len(text(src)) >= 2 && swf(sub(text(src), 1, len(text(src))-2), 0))
  let E = selems(sub(text(src), 1, len(text(src))-2), 0)
  let isarr = istext(src) && !(is(src, "[]byte") && isnil(as(src, "[]byte")))
  ensures noerr: imp(isarr || src == nil, r0 == nil)
  ensures null: imp(src == nil, isnil(*v))
  ensures elements: imp(isarr, !isnil(*v) && data(*v) == bufs(E, len(E)))
  inv (acc acc:[][]byte, i cnt): sub(data(acc), 0, i) == bufs(E, i) && 0 <= i
  inv (acc acc:[][]byte, i cnt): i <= len(acc) && sub(data(acc), i, len(acc)-i) == sub(data(entry(acc)), i, len(acc)-i)
end

instance strarr_value(TextArrayFromStringSlice)
instance strarr_scan(TextArrayToStringSlice)
instance strarr_value(VarCharArrayFromStringSlice)
instance strarr_scan(VarCharArrayToStringSlice)
instance strarr_value(TSQueryArrayFromStringSlice)
instance strarr_scan(TSQueryArrayToStringSlice)
instance bufarr_value(TextArrayFromByteSliceSlice)
instance bufarr_scan(TextArrayToByteSliceSlice)
instance bufarr_value(VarCharArrayFromByteSliceSlice)
instance bufarr_scan(VarCharArrayToByteSliceSlice)
instance bufarr_value(TSQueryArrayFromByteSliceSlice)
instance bufarr_scan(TSQueryArrayToByteSliceSlice)
instance bufarr_value(JSONArrayFromByteSliceSlice)
instance bufarr_scan(JSONArrayToByteSliceSlice)
instance bufarr_value(XMLArrayFromByteSliceSlice)
instance bufarr_scan(XMLArrayToByteSliceSlice)
