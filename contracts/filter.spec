use gosql.spec
package ./filter
package ./pgsql
noinit gosql
noinit pgsql

// ---- to_tsquery text: the words of the input, each a prefix, joined by &
func trimspace(Bytes) Bytes
func pieces(Bytes) Seq[Bytes]
axiom pieces_nonempty(s Bytes): pieces(s) => 1 <= len(pieces(s))
// a trimmed text that is not empty starts with a word
axiom pieces_trim(s Bytes): pieces(trimspace(s)) => imp(pieces(trimspace(s))[0] == "", len(pieces(trimspace(s))) == 1)
extern strings.TrimSpace(s)
  ensures r0 == trimspace(s)
extern strings.Split(s, sep)
  requires space: sep == " "
  ensures data(r0) == pieces(s) && !isnil(r0)
rec lexemes(P Seq[Bytes], k Int) Bytes = ite(k <= 0, "", ite(P[k-1] == "", lexemes(P, k-1), ite(lexemes(P, k-1) == "", cat(P[k-1], ":*"), cat(lexemes(P, k-1), " & ", P[k-1], ":*"))))
lemma lexemes_first(P Seq[Bytes], k Int) : lexemes(P, k) => imp(1 <= k && k <= len(P) && P[0] != "", lexemes(P, k) != "")
  by up k
contract filter.toTSQuery(str)
  property F01
  let P = pieces(trimspace(str))
  ensures words: r0 == lexemes(P, len(P))
  inv (out acc:string, i cnt): out == lexemes(P, i+1) && 0 <= i

// ---- what each node writes, when p parameters come before it
rec ords_csv(p Int, k Int) Bytes = ite(k <= 0, "", ite(k == 1, ord(p), cat(ords_csv(p, k-1), ",", ord(p+k-1))))
rec boxed_i64(v Seq[Int], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(boxed_i64(v, k-1), unit(box("int64", v[k-1]))))
rec boxed_int(v Seq[Int], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(boxed_int(v, k-1), unit(box("int", v[k-1]))))
rec boxed_i16(v Seq[Int], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(boxed_i16(v, k-1), unit(box("int16", v[k-1]))))
rec boxed_str(v Seq[Bytes], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(boxed_str(v, k-1), unit(box("string", v[k-1]))))

lemma boxed_i64_len(v Seq[Int], k Int) : boxed_i64(v, k) => imp(0 <= k, len(boxed_i64(v, k)) == k)
  by up k
lemma boxed_int_len(v Seq[Int], k Int) : boxed_int(v, k) => imp(0 <= k, len(boxed_int(v, k)) == k)
  by up k
lemma boxed_i16_len(v Seq[Int], k Int) : boxed_i16(v, k) => imp(0 <= k, len(boxed_i16(v, k)) == k)
  by up k
lemma boxed_str_len(v Seq[Bytes], k Int) : boxed_str(v, k) => imp(0 <= k, len(boxed_str(v, k)) == k)
  by up k
rec tsquery(s Bytes) Bytes = lexemes(pieces(trimspace(s)), len(pieces(trimspace(s))))
rec isnode(n Ifc) Bool = is(n, "filter.sqlBinary") || is(n, "filter.sqlUnary") || is(n, "filter.sqlTextSearch") || is(n, "filter.sqlAnd") || is(n, "filter.sqlOr") || is(n, "filter.sqlLParen") || is(n, "filter.sqlRParen") || is(n, "filter.sqlAny") || is(n, "filter.sqlIn[int64]") || is(n, "filter.sqlIn[int]") || is(n, "filter.sqlIn[int16]") || is(n, "filter.sqlIn[string]")
rec nparams(n Ifc) Seq[Ifc] = ite(is(n, "filter.sqlBinary"), unit(unbox("filter.sqlBinary", n).val), ite(is(n, "filter.sqlTextSearch"), unit(box("string", tsquery(unbox("filter.sqlTextSearch", n).val))), ite(is(n, "filter.sqlAny"), unit(unbox("filter.sqlAny", n).vals), ite(is(n, "filter.sqlIn[int64]"), boxed_i64(unbox("filter.sqlIn[int64]", n).vals.data, len(unbox("filter.sqlIn[int64]", n).vals.data)), ite(is(n, "filter.sqlIn[int]"), boxed_int(unbox("filter.sqlIn[int]", n).vals.data, len(unbox("filter.sqlIn[int]", n).vals.data)), ite(is(n, "filter.sqlIn[int16]"), boxed_i16(unbox("filter.sqlIn[int16]", n).vals.data, len(unbox("filter.sqlIn[int16]", n).vals.data)), ite(is(n, "filter.sqlIn[string]"), boxed_str(unbox("filter.sqlIn[string]", n).vals.data, len(unbox("filter.sqlIn[string]", n).vals.data)), empty("Ifc"))))))))
rec intext(col Bytes, p Int, k Int) Bytes = cat(col, " IN (", ords_csv(p, k), ")")
rec ntext(n Ifc, p Int) Bytes = ite(is(n, "filter.sqlBinary"), cat(unbox("filter.sqlBinary", n).col, " ", unbox("filter.sqlBinary", n).op, " ", ord(p)), ite(is(n, "filter.sqlUnary"), cat(unbox("filter.sqlUnary", n).col, " ", unbox("filter.sqlUnary", n).pred), ite(is(n, "filter.sqlTextSearch"), cat(unbox("filter.sqlTextSearch", n).col, " @@ to_tsquery('simple', ", ord(p), ")"), ite(is(n, "filter.sqlAnd"), " AND ", ite(is(n, "filter.sqlOr"), " OR ", ite(is(n, "filter.sqlLParen"), "(", ite(is(n, "filter.sqlRParen"), ")", ite(is(n, "filter.sqlAny"), cat(unbox("filter.sqlAny", n).col, " = ANY(", ord(p), unbox("filter.sqlAny", n).cast, ")"), ite(is(n, "filter.sqlIn[int64]"), intext(unbox("filter.sqlIn[int64]", n).col, p, len(nparams(n))), ite(is(n, "filter.sqlIn[int]"), intext(unbox("filter.sqlIn[int]", n).col, p, len(nparams(n))), ite(is(n, "filter.sqlIn[int16]"), intext(unbox("filter.sqlIn[int16]", n).col, p, len(nparams(n))), intext(unbox("filter.sqlIn[string]", n).col, p, len(nparams(n))))))))))))))

rec wparams(N Seq[Ifc], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(wparams(N, k-1), nparams(N[k-1])))
rec wtext(N Seq[Ifc], p Int, k Int) Bytes = ite(k <= 0, "", cat(wtext(N, p, k-1), ntext(N[k-1], p+len(wparams(N, k-1)))))
rec nodesok(N Seq[Ifc], k Int) Bool = k <= 0 || (nodesok(N, k-1) && isnode(N[k-1]))
lemma nodesok_at(N Seq[Ifc], n Int, j Int) : nodesok(N, n), N[j] => imp(0 <= j && j < n && nodesok(N, n), isnode(N[j]))
  by up n
lemma wparams_mono(N Seq[Ifc], n Int, j Int) : wparams(N, n), wparams(N, j) => imp(0 <= j && j <= n, len(wparams(N, j)) <= len(wparams(N, n)))
  by up n

lemma wparams_room(N Seq[Ifc], n Int, j Int) : wparams(N, n), nparams(N[j]) => imp(0 <= j && j < n, len(wparams(N, j))+len(nparams(N[j])) <= len(wparams(N, n)))
  by up n

contract filter.sqlNode.write(n, w)
  property F01
  requires isnode(n) && 0 <= w.p && w.p+len(nparams(n)) <= 65535
  modifies w.Builder, w.p, w.params
  ensures text: buf(w.Builder) == cat(buf(old(w.Builder)), ntext(n, old(w.p)))
  ensures position: w.p == old(w.p)+len(nparams(n))
  ensures params: data(w.params) == cat(data(old(w.params)), nparams(n))
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, i cnt, n src:filter.sqlIn[int64]): p == entry(p)+i && buf(b) == cat(buf(entry(b)), ords_csv(entry(p), i)) && data(params) == cat(data(entry(params)), boxed_i64(data(n.vals), i)) && 0 <= i
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, i cnt, n src:filter.sqlIn[int]): p == entry(p)+i && buf(b) == cat(buf(entry(b)), ords_csv(entry(p), i)) && data(params) == cat(data(entry(params)), boxed_int(data(n.vals), i)) && 0 <= i
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, i cnt, n src:filter.sqlIn[int16]): p == entry(p)+i && buf(b) == cat(buf(entry(b)), ords_csv(entry(p), i)) && data(params) == cat(data(entry(params)), boxed_i16(data(n.vals), i)) && 0 <= i
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, i cnt, n src:filter.sqlIn[string]): p == entry(p)+i && buf(b) == cat(buf(entry(b)), ords_csv(entry(p), i)) && data(params) == cat(data(entry(params)), boxed_str(data(n.vals), i)) && 0 <= i

// ---- the finished filter
rec wheretext(N Seq[Ifc], p Int) Bytes = ite(len(N) == 0, "", cat(" WHERE ", wtext(N, p, len(N))))
rec tailtext(o Bytes, l Int, s Int) Bytes = cat(ite(o == "", "", cat(" ORDER BY ", o)), ite(l > 0, cat(" LIMIT ", itoa(l)), ""), ite(s > 0, cat(" OFFSET ", itoa(s)), ""))
target ToSQL: filter.Constructor.Filter(c).ToSQL(pos)
  property F01
  let N = data(c.filter.where)
  requires nodesok(N, len(N))
  requires 0 <= pos && pos+len(wparams(N, len(N))) <= 65535
  ensures text: r0 == cat(wheretext(N, pos), tailtext(c.filter.orderby, c.filter.limit, c.filter.offset))
  ensures params: data(r1) == wparams(N, len(N))
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, k cnt): p == pos+len(wparams(N, k)) && data(params) == wparams(N, k) && buf(b) == cat(" WHERE ", wtext(N, pos, k)) && 0 <= k

// ---- what the builder methods add to the condition
func upper(Bytes) Bytes
extern strings.ToUpper(s)
  ensures r0 == upper(s)
rec opnd(n Ifc) Bool = isnode(n) && !is(n, "filter.sqlAnd") && !is(n, "filter.sqlOr") && !is(n, "filter.sqlLParen")
contract filter.sqlNode.canAndOr(n)
  property F01 F02
  requires isnode(n)
  ensures r0 == opnd(n)
// a condition that ends in an operand is continued with the given operator
rec joined(N Seq[Ifc], op Ifc) Seq[Ifc] = ite(len(N) > 0 && opnd(N[len(N)-1]), cat(N, unit(op)), N)
// reading a condition: twice the number of open parentheses, plus one after an operand; -1 when malformed
rec step(s Int, n Ifc) Int = ite(s < 0 || !isnode(n), -1, ite(is(n, "filter.sqlLParen"), ite(mod(s, 2) == 0, s+2, -1), ite(is(n, "filter.sqlRParen"), ite(mod(s, 2) == 1 && s >= 3, s-2, -1), ite(is(n, "filter.sqlAnd") || is(n, "filter.sqlOr"), ite(mod(s, 2) == 1, s-1, -1), ite(mod(s, 2) == 0, s+1, -1)))))
rec shape(N Seq[Ifc]) Int = ite(len(N) <= 0, 0, step(shape(sub(N, 0, len(N)-1)), N[len(N)-1]))
rec after(s Int) Int = ite(mod(s, 2) == 1, s, s+1)
lemma shape_nodes(N Seq[Ifc], n Int) : nodesok(N, n) => imp(n <= len(N) && 0 <= shape(sub(N, 0, n)), nodesok(N, n))
  by up n
rec lastok(N Seq[Ifc]) Bool = len(N) <= 0 || isnode(N[len(N)-1])
rec andnode() Ifc = box("filter.sqlAnd", zero("filter.sqlAnd"))
rec ornode() Ifc = box("filter.sqlOr", zero("filter.sqlOr"))
rec with(N Seq[Ifc], n Ifc) Seq[Ifc] = cat(joined(N, andnode()), unit(n))
rec unary(col Bytes, pred Bytes) Ifc = box("filter.sqlUnary", mk("Go[filter.sqlUnary]", col, pred))

template COLIN(METHOD, T)
contract filter.Constructor.$METHOD(c, column, values)
  property F01 F02
  let N = data(c.filter.where)
  requires lastok(N)
  modifies c.filter.where
  ensures added: data(c.filter.where) == with(N, box("filter.sqlIn[$T]", mk("Go[filter.sqlIn[$T]]", column, enc(values))))
  ensures shape: imp(0 <= shape(N), data(c.filter.where) == N || shape(data(c.filter.where)) == after(shape(N)))
  ensures last: lastok(data(c.filter.where))
end
instance COLIN(ColInInt64s, int64)
instance COLIN(ColInInts, int)
instance COLIN(ColInInt16s, int16)
instance COLIN(ColInStrings, string)
contract filter.Constructor.TextSearch(c, value)
  property F01 F02
  let N = data(c.filter.where)
  requires lastok(N)
  modifies c.filter.where
  ensures added: data(c.filter.where) == ite(len(c.tscol) == 0, N, with(N, box("filter.sqlTextSearch", mk("Go[filter.sqlTextSearch]", c.tscol, value))))
  ensures shape: imp(0 <= shape(N), data(c.filter.where) == N || shape(data(c.filter.where)) == after(shape(N)))
  ensures last: lastok(data(c.filter.where))

rec joinedc(N Seq[Ifc]) Seq[Ifc] = joined(N, andnode())
template COLANY(METHOD, PG, CAST)
contract filter.Constructor.$METHOD(c, column, values)
  property F01 F02
  let N = data(c.filter.where)
  requires lastok(N)
  modifies c.filter.where
  ensures added: data(c.filter.where) == with(N, box("filter.sqlAny", mk("Go[filter.sqlAny]", column, box("pgsql.$PG", mk("Go[pgsql.$PG]", enc(values))), "$CAST")))
  ensures shape: imp(0 <= shape(N), data(c.filter.where) == N || shape(data(c.filter.where)) == after(shape(N)))
  ensures last: lastok(data(c.filter.where))
end
instance COLANY(ColAnyInt64s, int8ArrayFromInt64Slice, ::int8[])
instance COLANY(ColAnyInts, int4ArrayFromIntSlice, ::int4[])
instance COLANY(ColAnyInt16s, int2ArrayFromInt16Slice, ::int2[])
instance COLANY(ColAnyStrings, textArrayFromStringSlice, ::text[])
rec boolcol(col Bytes, op Bytes, v Bool) Ifc = ite(op == "=", unary(col, ite(v, "IS TRUE", "IS FALSE")), unary(col, ite(v, "IS NOT TRUE", "IS NOT FALSE")))
rec anyvals(v Ifc) Ifc = ite(is(v, "[]int64"), box("pgsql.int8ArrayFromInt64Slice", mk("Go[pgsql.int8ArrayFromInt64Slice]", unbox("[]int64", v))), ite(is(v, "[]int"), box("pgsql.int4ArrayFromIntSlice", mk("Go[pgsql.int4ArrayFromIntSlice]", unbox("[]int", v))), ite(is(v, "[]int16"), box("pgsql.int2ArrayFromInt16Slice", mk("Go[pgsql.int2ArrayFromInt16Slice]", unbox("[]int16", v))), box("pgsql.textArrayFromStringSlice", mk("Go[pgsql.textArrayFromStringSlice]", unbox("[]string", v))))))
rec anycast(v Ifc) Bytes = ite(is(v, "[]int64"), "::int8[]", ite(is(v, "[]int"), "::int4[]", ite(is(v, "[]int16"), "::int2[]", "::text[]")))
rec innode(col Bytes, v Ifc) Ifc = ite(is(v, "[]int64"), box("filter.sqlIn[int64]", mk("Go[filter.sqlIn[int64]]", col, unbox("[]int64", v))), ite(is(v, "[]int"), box("filter.sqlIn[int]", mk("Go[filter.sqlIn[int]]", col, unbox("[]int", v))), ite(is(v, "[]int16"), box("filter.sqlIn[int16]", mk("Go[filter.sqlIn[int16]]", col, unbox("[]int16", v))), box("filter.sqlIn[string]", mk("Go[filter.sqlIn[string]]", col, unbox("[]string", v))))))
rec listv(v Ifc) Bool = is(v, "[]int64") || is(v, "[]int") || is(v, "[]int16") || is(v, "[]string")
rec condtruth(v Ifc) Bool = v == nil || is(v, "bool")
rec withcol(N Seq[Ifc], col Bytes, op Bytes, v Ifc) Seq[Ifc] = ite(upper(op) == "ANY", ite(listv(v), with(N, box("filter.sqlAny", mk("Go[filter.sqlAny]", col, anyvals(v), anycast(v)))), N), ite(upper(op) == "IN", ite(listv(v), with(N, innode(col, v)), N), ite(v == nil, ite(op == "=", with(N, unary(col, "IS NULL")), ite(op == "<>", with(N, unary(col, "IS NOT NULL")), N)), ite(is(v, "bool"), ite(op == "=" || op == "<>", with(N, boolcol(col, op, unbox("bool", v))), N), with(N, box("filter.sqlBinary", mk("Go[filter.sqlBinary]", col, op, v, false)))))))
contract filter.Constructor.Col(c, column, op, value)
  property F01 F02
  let N = data(c.filter.where)
  requires lastok(N)
  modifies c.filter.where
  ensures added: data(c.filter.where) == withcol(N, column, op, value)
  ensures shape: imp(0 <= shape(N), data(c.filter.where) == N || shape(data(c.filter.where)) == after(shape(N)))
  ensures last: lastok(data(c.filter.where))

// ---- AND, OR and nested groups
// the nested function is made of builder calls and adds at least one predicate
functype func()(f)
  requires 0 <= shape(data(c.filter.where))
  modifies c.filter.where
  ensures 0 <= shape(data(c.filter.where)) && shape(data(c.filter.where)) == after(shape(data(old(c.filter.where))))
template ANDOR(METHOD, NODE)
contract filter.Constructor.$METHOD(c, nest)
  property F02
  let N = data(c.filter.where)
  requires 0 <= shape(N)
  modifies c.filter.where
  ensures joined: imp(nest == nil, data(c.filter.where) == joined(N, $NODE()))
  ensures nested: imp(nest != nil, shape(data(c.filter.where)) == after(shape(N)))
end
instance ANDOR(And, andnode)
instance ANDOR(Or, ornode)

// ---- ORDER BY, LIMIT, OFFSET
rec ordcol(o Bytes, col Bytes, desc Bool) Bytes = cat(o, ite(o == "", "", ", "), col, ite(desc, " DESC", " ASC"))
contract filter.Constructor.OrderBy(c, column, desc, nullsfirst)
  property F03
  modifies c.filter.orderby
  ensures appended: c.filter.orderby == cat(ordcol(old(c.filter.orderby), column, desc), ite(nullsfirst, " NULLS FIRST", " NULLS LAST"))
contract filter.Constructor.OrderByV2(c, column, desc, nullable, nullsfirst)
  property F03
  modifies c.filter.orderby
  ensures appended: c.filter.orderby == cat(ordcol(old(c.filter.orderby), column, desc), ite(nullable, ite(nullsfirst, " NULLS FIRST", " NULLS LAST"), ""))
contract filter.Constructor.Limit(c, count)
  property F03
  modifies c.filter.limit
  ensures set: c.filter.limit == ite(count > 0, count, old(c.filter.limit))
contract filter.Constructor.Offset(c, start)
  property F03
  modifies c.filter.offset
  ensures set: c.filter.offset == ite(start > 0, start, old(c.filter.offset))
contract filter.Constructor.Page(c, page)
  property F03
  requires imp(page > 0, c.filter.limit*(page-1) <= 9223372036854775807)
  modifies c.filter.offset
  ensures set: c.filter.offset == ite(page > 0 && 0 <= c.filter.limit, c.filter.limit*(page-1), old(c.filter.offset))
contract filter.Constructor.StrictSwitch(c)
  property F03
  modifies c.strict
  ensures toggled: c.strict == !old(c.strict)

// ---- the filter for counting has the same condition and parameters, and nothing after it
target CountToSQL: filter.Constructor.CountFilter(c).ToSQL(pos)
  property F01
  let N = data(c.filter.where)
  requires nodesok(N, len(N))
  requires 0 <= pos && pos+len(wparams(N, len(N))) <= 65535
  ensures text: r0 == wheretext(N, pos)
  ensures params: data(r1) == wparams(N, len(N))
  inv (b acc:strings.Builder, p acc:int, params acc:[]interface{}, k cnt): p == pos+len(wparams(N, k)) && data(params) == wparams(N, k) && buf(b) == cat(" WHERE ", wtext(N, pos, k)) && 0 <= k

// ---- sort keys: a comma separated list of keys, each optionally preceded by a hyphen
rec comma(s Bytes, i Int) Int = ite(i >= len(s), len(s), ite(s[i] == 44, i, comma(s, i+1)))
lemma comma_range(s Bytes, i Int) : comma(s, i) => imp(0 <= i && i <= len(s), i <= comma(s, i) && comma(s, i) <= len(s))
  by down i len(s)
rec sortkey(s Bytes, i Int) Bytes = ite(s[i] == 45, sub(s, i+1, comma(s, i)-i-1), sub(s, i, comma(s, i)-i))
rec sortcol(m Go[map[string]filter.Column], s Bytes, i Int, o Bytes) Bytes = ite(sortkey(s, i) != "" && dom(m, sortkey(s, i)), cat(ordcol(o, mval(m, sortkey(s, i)).Name, s[i] == 45), ite(mval(m, sortkey(s, i)).IsNULLable, " NULLS LAST", "")), o)
rec sorttext(m Go[map[string]filter.Column], s Bytes, i Int, o Bytes) Bytes = ite(i >= len(s), o, sorttext(m, s, comma(s, i)+1, sortcol(m, s, i, o)))
rec sortbad(m Go[map[string]filter.Column], s Bytes, i Int) Bool = i < len(s) && ((sortkey(s, i) != "" && !dom(m, sortkey(s, i))) || sortbad(m, s, comma(s, i)+1))
rec sortbadkey(m Go[map[string]filter.Column], s Bytes, i Int) Bytes = ite(i < len(s), ite(sortkey(s, i) != "" && !dom(m, sortkey(s, i)), sortkey(s, i), sortbadkey(m, s, comma(s, i)+1)), "")
contract filter.Constructor.UnmarshalSort(c, str)
  property F03
  let o = old(c.filter.orderby)
  let m = c.colmap
  modifies c.filter.orderby
  ensures vetted: imp(r0 == nil, c.filter.orderby == sorttext(m, str, 0, o))
  ensures unknown: (r0 != nil) == (c.strict && sortbad(m, str, 0))
  ensures which: imp(r0 != nil, is(r0, "filter.UnknownColumnKeyError") && as(r0, "filter.UnknownColumnKeyError").Key == sortbadkey(m, str, 0))
  inv (start cnt, orderby acc:string): 0 <= start && sorttext(m, str, start, orderby) == sorttext(m, str, 0, o)
  inv (start cnt): imp(c.strict, sortbad(m, str, start) == sortbad(m, str, 0) && sortbadkey(m, str, start) == sortbadkey(m, str, 0))
  inv (pos cnt, start src:int): comma(str, pos) == comma(str, start)

// ---- conditions written in FQL; the tokenizer (github.com/frk/fql) and the column converters are trusted
func trimfql(Bytes) Bytes
func fqlinit(Bytes) Go[fql.Tokenizer]
func fqlnext(Go[fql.Tokenizer]) Go[fql.Tokenizer]
func fqltok(Go[fql.Tokenizer]) Int
func fqlerr(Go[fql.Tokenizer]) Ifc
func fqlkey(Go[fql.Tokenizer]) Bytes
func fqlcmp(Go[fql.Tokenizer]) Int
func fqlval(Go[fql.Tokenizer]) Ifc
func convval(Go[func(any) (any, error)], Ifc) Ifc
func converr(Go[func(any) (any, error)], Ifc) Ifc
extern strings.Trim(s, cutset)
  requires sanitized: cutset == ";,"
  ensures r0 == trimfql(s)
extern fql.NewTokenizer(s)
  opt fresh
  ensures enc(*r0) == fqlinit(s)
extern fql.Tokenizer.Next(z)
  modifies *z
  ensures r0 == fqltok(enc(*old(z))) && r1 == fqlerr(enc(*old(z))) && enc(*z) == fqlnext(enc(*old(z)))
extern fql.Tokenizer.Rule(z)
  ensures r0 != nil && r0.Key == fqlkey(enc(*z)) && r0.Cmp == fqlcmp(enc(*z)) && r0.Val == fqlval(enc(*z))
functype func(any) (any, error)(f, v)
  ensures r0 == convval(f, v) && r1 == converr(f, v)
rec cmptext(o Int) Bytes = ite(o == 1, "=", ite(o == 2, "<>", ite(o == 3, ">", ite(o == 4, "<", ite(o == 5, ">=", ite(o == 6, "<=", ""))))))
rec rawval(z1 Go[fql.Tokenizer]) Ifc = ite(fqlval(z1) == box("fql.nullbit", true), nilifc(), fqlval(z1))
rec colval(k Go[filter.Column], z1 Go[fql.Tokenizer]) Ifc = ite(k.ConvertValue == zero("func(any) (any, error)"), rawval(z1), convval(k.ConvertValue, rawval(z1)))
rec rulecol(m Go[map[string]filter.Column], N Seq[Ifc], z1 Go[fql.Tokenizer]) Seq[Ifc] = ite(dom(m, fqlkey(z1)), withcol(N, mval(m, fqlkey(z1)).Name, cmptext(fqlcmp(z1)), colval(mval(m, fqlkey(z1)), z1)), N)
rec fqlstep(m Go[map[string]filter.Column], N Seq[Ifc], z Go[fql.Tokenizer]) Seq[Ifc] = ite(fqltok(z) == 1, with(N, box("filter.sqlLParen", zero("filter.sqlLParen"))), ite(fqltok(z) == 2, cat(N, unit(box("filter.sqlRParen", zero("filter.sqlRParen")))), ite(fqltok(z) == 3, cat(N, unit(andnode())), ite(fqltok(z) == 4, cat(N, unit(ornode())), ite(fqltok(z) == 5, rulecol(m, N, fqlnext(z)), N)))))
rec ruleerr(m Go[map[string]filter.Column], z1 Go[fql.Tokenizer], strict Bool) Ifc = ite(dom(m, fqlkey(z1)), ite(mval(m, fqlkey(z1)).ConvertValue == zero("func(any) (any, error)"), nilifc(), converr(mval(m, fqlkey(z1)).ConvertValue, rawval(z1))), ite(strict, box("filter.UnknownColumnKeyError", mk("Go[filter.UnknownColumnKeyError]", fqlkey(z1))), nilifc()))
rec fqlwhere(m Go[map[string]filter.Column], z Go[fql.Tokenizer], N Seq[Ifc]) Seq[Ifc] = ite(fqlerr(z) != nilifc(), N, fqlwhere(m, fqlnext(z), fqlstep(m, N, z)))
rec fqlend(m Go[map[string]filter.Column], z Go[fql.Tokenizer], strict Bool) Ifc = ite(fqlerr(z) != nilifc(), ite(fqlerr(z) == gvar("fql.EOF"), nilifc(), fqlerr(z)), ite(fqltok(z) == 5 && ruleerr(m, fqlnext(z), strict) != nilifc(), ruleerr(m, fqlnext(z), strict), fqlend(m, fqlnext(z), strict)))
contract filter.Constructor.UnmarshalFQL(c, str)
  property F03
  let m = c.colmap
  let N = data(c.filter.where)
  let z0 = fqlinit(trimfql(str))
  requires lastok(N)
  modifies c.filter.where
  ensures vetted: imp(r0 == nil, data(c.filter.where) == fqlwhere(m, z0, N))
  ensures error: r0 == fqlend(m, z0, c.strict)
  inv (z acc:fql.Tokenizer, where acc:[]filter.sqlNode): lastok(data(where)) && fqlwhere(m, enc(z), data(where)) == fqlwhere(m, z0, N)
  inv (z acc:fql.Tokenizer): fqlend(m, enc(z), c.strict) == fqlend(m, z0, c.strict)
