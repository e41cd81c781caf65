use std.spec
package ./internal/analysis
package ./internal/postgres
package ./internal/postgres/oid
noinit analysis
noinit postgres
noinit oid

// Functions below have no contract (or only in part): a search over random relations,
// catalogs and targets against an independent reading of the rules stands in for them,
// and goes through every entry of the converter table.
bounded C01 postgres.compatibility (the converter table: every entry), Check, typeCheckQueryStruct, typeCheckFilterStruct
bounded C02 postgres.typeCheckQueryStruct, typeCheckQueryJoinStruct, typeCheckQueryWhereStruct, typeCheckWhereItem, typeCheckWhereBetweenStruct, typeCheckFieldConditionalWithFunc (the choice of function and operand types), predicateToOprname (the table of operator names)
bounded C03 postgres.Check, typeCheckQueryStruct

// ---- the kind and the spelling of a field's type
rec member(K Seq[Int], x Int, k Int) Bool = k < len(K) && (K[k] == x || member(K, x, k+1))
macro ispk(T Go[analysis.TypeInfo], x Int) Bool = T.Kind == x || T.Kind == analysis.TypeKindPtr && T.Elem.Kind == x
rec anyk(T Go[analysis.TypeInfo], K Seq[Int], k Int) Bool = k < len(K) && (ispk(T, K[k]) || anyk(T, K, k+1))
contract analysis.TypeInfo.Is(t, kk)
  property C01
  ensures kind: r0 == anyk(enc(*t), data(kk), 0)
  inv (i cnt): 0 <= i && anyk(enc(*t), data(kk), i) == anyk(enc(*t), data(kk), 0)
contract analysis.TypeInfo.IsSliceKind(t, kk)
  property C01
  ensures kind: r0 == (t.Kind == analysis.TypeKindSlice && member(data(kk), t.Elem.Kind, 0))
  inv (i cnt): 0 <= i && member(data(kk), t.Elem.Kind, i) == member(data(kk), t.Elem.Kind, 0)
macro kindname(k Int) Bytes = gvar("analysis.typeKinds")[k]
macro pkgd(T Go[analysis.TypeInfo]) Bytes = ite(len(T.PkgName) > 0, cat(T.PkgName, ".", T.Name), T.Name)
opaque litx(T Go[analysis.TypeInfo], elide Bool) Bytes =
  ite(len(T.Name) > 0, pkgd(T),
  ite(T.Kind == analysis.TypeKindArray, cat("[", itoa(T.ArrayLen), "]", litx(*T.Elem, false)),
  ite(T.Kind == analysis.TypeKindSlice, cat("[]", litx(*T.Elem, false)),
  ite(T.Kind == analysis.TypeKindMap, cat("map[", litx(*T.Key, false), "]", litx(*T.Elem, false)),
  ite(T.Kind == analysis.TypeKindPtr, ite(elide, litx(*T.Elem, false), cat("*", litx(*T.Elem, false))),
  ite(T.Kind == analysis.TypeKindUint8, ite(T.IsByte, "byte", "uint8"),
  ite(T.Kind == analysis.TypeKindInt32, ite(T.IsRune, "rune", "int32"),
  ite(T.Kind == analysis.TypeKindInterface, ite(T.IsEmptyInterface, "interface{}", "<unsupported>"),
  ite(T.Kind == analysis.TypeKindStruct || T.Kind == analysis.TypeKindChan || T.Kind == analysis.TypeKindFunc, "<unsupported>", kindname(T.Kind))))))))))
macro haselem(T Go[analysis.TypeInfo]) Bool = T.Kind == analysis.TypeKindArray || T.Kind == analysis.TypeKindSlice || T.Kind == analysis.TypeKindMap || T.Kind == analysis.TypeKindPtr
opaque typeok(T Go[analysis.TypeInfo]) Bool = 0 <= T.Kind && T.Kind <= analysis.TypeKindFunc && imp(haselem(T), T.Elem != 0 && typeok(*T.Elem)) && imp(T.Kind == analysis.TypeKindMap, T.Key != 0 && typeok(*T.Key))
contract analysis.TypeInfo.literal(t, pkgLocal, elidePtr)
  reveal typeok litx
  property C01
  requires !pkgLocal
  requires typeok(enc(*t))
  ensures spelled: r0 == litx(enc(*t), elidePtr)

macro isbasic(k Int) Bool = analysis.TypeKindBool <= k && k <= analysis.TypeKindUnsafePointer
macro lit(T Go[analysis.TypeInfo]) Bytes = ite(isbasic(T.Kind), ite(T.IsByte, "byte", ite(T.IsRune, "rune", kindname(T.Kind))), litx(T, true))
contract analysis.TypeInfo.GenericLiteral(t)
  reveal typeok
  property C01
  requires typeok(enc(*t))
  ensures spelled: r0 == lit(enc(*t))

// ---- columns are looked up by name
opaque colat(C Seq[Go[*postgres.Column]], n Bytes, k Int) Go[*postgres.Column] = ite(k >= len(C), 0, ite(C[k].Name == n, C[k], colat(C, n, k+1)))
macro relcol(r Go[*postgres.Relation], n Bytes) Go[*postgres.Column] = colat(data(r.Columns), n, 0)
contract postgres.findRelColumn(rel, name)
  reveal colat
  property C01 C02
  ensures first: r0 == relcol(rel, name)
  inv (i cnt): 0 <= i && colat(data(rel.Columns), name, i) == colat(data(rel.Columns), name, 0)
contract postgres.findColumn(c, id)
  reveal colat
  property C02
  ensures qualifier: imp(!dom(c.relMap, id.Qualifier), r0 == nil && r1 == postgres.errColumnQualifierUnknown)
  ensures found: imp(dom(c.relMap, id.Qualifier), r0 == relcol(mval(c.relMap, id.Qualifier), id.Name))
  ensures missing: imp(dom(c.relMap, id.Qualifier), r1 == ite(r0 == nil, postgres.errColumnUnknown, 0))
  inv (i cnt): 0 <= i && colat(data(mval(c.relMap, id.Qualifier).Columns), id.Name, i) == colat(data(mval(c.relMap, id.Qualifier).Columns), id.Name, 0)

// ---- a field is skipped for an operation its options exclude, unless the directive forces it
macro hasmode(m Int, b Int) Bool = div(m, b) - 2*div(m, 2*b) == 1
opaque named(S Seq[Go[analysis.ColIdent]], n Bytes, k Int) Bool = k < len(S) && (S[k].Name == n || named(S, n, k+1))
macro forced(c Go[*postgres.checker], n Bytes) Bool = c.force != 0 && (c.force.All || named(data(c.force.Items), n, 0))
contract analysis.ColIdentList.Contains(cl, cid)
  reveal named
  property C01
  ensures listed: r0 == (cl.All || named(data(cl.Items), cid.Name, 0))
  inv (i idx): 0 <= i && named(data(cl.Items), cid.Name, i) == named(data(cl.Items), cid.Name, 0)
contract postgres.skipFieldInsert(c, fw)
  property C01
  ensures skipped: r0 == (!hasmode(fw.Field.Mode, 4) && !forced(c, fw.ColIdent.Name))
contract postgres.skipFieldUpdate(c, fw)
  property C01
  ensures skipped: r0 == (!hasmode(fw.Field.Mode, 8) && !forced(c, fw.ColIdent.Name))
macro writeonly(m Int) Bool = (hasmode(m, 4) || hasmode(m, 8)) && !hasmode(m, 1)
macro readonly(m Int) Bool = hasmode(m, 1) && !hasmode(m, 4) && !hasmode(m, 8)
opaque anywo(S Seq[Go[*analysis.FieldSelectorNode]], k Int) Bool = k < len(S) && (writeonly(S[k].Mode) || anywo(S, k+1))
opaque anyro(S Seq[Go[*analysis.FieldSelectorNode]], k Int) Bool = k < len(S) && (readonly(S[k].Mode) || anyro(S, k+1))
opaque anyxf(S Seq[Go[*analysis.FieldSelectorNode]], k Int) Bool = k < len(S) && (!hasmode(S[k].Mode, 2) || anyxf(S, k+1))
contract analysis.FieldInfo.IsWriteOnly(f)
  reveal anywo
  property C01
  ensures nested: r0 == (anywo(data(f.Selector), 0) || writeonly(f.Mode))
  inv (i cnt): 0 <= i && anywo(data(f.Selector), i) == anywo(data(f.Selector), 0)
contract analysis.FieldInfo.IsReadOnly(f)
  reveal anyro
  property C01
  ensures nested: r0 == (anyro(data(f.Selector), 0) || readonly(f.Mode))
  inv (i cnt): 0 <= i && anyro(data(f.Selector), i) == anyro(data(f.Selector), 0)
contract analysis.FieldInfo.ExcludeFromFilter(f)
  reveal anyxf
  property C01
  ensures nested: r0 == (anyxf(data(f.Selector), 0) || !hasmode(f.Mode, 2))
  inv (i cnt): 0 <= i && anyxf(data(f.Selector), i) == anyxf(data(f.Selector), 0)
contract postgres.skipFieldRead(c, fr)
  property C01
  ensures skipped: r0 == ((anywo(data(fr.Field.Selector), 0) || writeonly(fr.Field.Mode)) && !forced(c, fr.ColIdent.Name))

// ---- the converter for a type and a column: the entry of the table for the column's
// type and the spelling of the field's, or else the entry for text
macro table() Go[map[postgres.compkey]map[analysis.LiteralType]postgres.compentry] = gvar("postgres.compatibility").oid2literal
macro row(o Int, one Bool) Go[map[analysis.LiteralType]postgres.compentry] = mval(table(), postgres.compkey{oid: o, typmod1: one})
macro listed(o Int, one Bool, l Bytes) Bool = dom(table(), postgres.compkey{oid: o, typmod1: one}) && dom(row(o, one), l)
macro entryof(o Int, one Bool, l Bytes) Go[postgres.compentry] = mval(row(o, one), l)
macro typeat(c Go[*postgres.checker], o Int) Go[*postgres.Type] = ite(dom(c.db.catalog.Types, o), mval(c.db.catalog.Types, o), 0)
macro oid1(t Go[*postgres.Type]) Int = ite(t.Type == postgres.TypeTypeEnum, oid.Text, t.OID)
macro isstr(t Go[*postgres.Type]) Bool = t.Category == postgres.TypeCategoryString
macro isarr(t Go[*postgres.Type]) Bool = t.Category == postgres.TypeCategoryArray
macro oid2(c Go[*postgres.checker], t Go[*postgres.Type]) Int = ite(isstr(t), oid.Text, ite(isarr(t) && typeat(c, t.Elem) != 0 && isstr(typeat(c, t.Elem)), oid.TextArr, oid1(t)))
// a type of length 1 may have an entry of its own
opaque fits(c Go[*postgres.checker], t Go[*postgres.Type], l Bytes, one Bool) Bool = listed(oid1(t), one, l) || listed(oid1(t), false, l) || listed(oid2(c, t), false, l)
opaque convs(c Go[*postgres.checker], t Go[*postgres.Type], l Bytes, one Bool) Go[postgres.compentry] = ite(listed(oid1(t), one, l), entryof(oid1(t), one, l), ite(listed(oid1(t), false, l), entryof(oid1(t), false, l), entryof(oid2(c, t), false, l)))
contract postgres.typeCompatibility(c, ctyp, ftyp, typmod1)
  property C01 C02
  reveal fits convs
  requires typeok(enc(ftyp))
  ensures fit: (r0 != nil) == fits(c, ctyp, lit(enc(ftyp)), typmod1)
  ensures entry: imp(r0 != nil, *r0 == convs(c, ctyp, lit(enc(ftyp)), typmod1))
macro len1t(t Go[*postgres.Type], m Int) Bool = t.Category == postgres.TypeCategoryBitstring && m == 1 || isstr(t) && m == 5
macro len1(c Go[*postgres.checker], col Go[*postgres.Column]) Bool = len1t(ite(isarr(col.Type), typeat(c, col.Type.Elem), col.Type), col.TypeMod)
contract postgres.isLength1Type(c, col)
  property C01
  ensures length: r0 == len1(c, col)

// ---- errors
extern go/token.FileSet.Position(s, p)
extern go/types.object.Pos(obj)
extern go/types.object.Name(obj)
extern go/types.object.Type(obj)
iface go/types.Type.String(t)
contract postgres.checker.dbError(c, e, ptr)
  property C01 C02
  ensures reported: r0 != nil && r0.Code == e.Code

// ---- the converter of a field: a type that converts itself needs none; json and xml columns
// take what the encoding can represent; other columns what the table lists
macro elemof(T Go[analysis.TypeInfo]) Go[analysis.TypeInfo] = *T.Elem
macro isptr(T Go[analysis.TypeInfo]) Bool = T.Kind == analysis.TypeKindPtr
macro scans(T Go[analysis.TypeInfo]) Bool = T.IsScanner && T.Kind != analysis.TypeKindInterface || isptr(T) && T.Elem.IsScanner && T.Elem.Kind != analysis.TypeKindInterface
macro values(T Go[analysis.TypeInfo]) Bool = T.IsValuer || isptr(T) && T.Elem.IsValuer
macro isjson(col Go[*postgres.Column]) Bool = col.Type.OID == oid.JSON || col.Type.OID == oid.JSONB
macro isxml(col Go[*postgres.Column]) Bool = col.Type.OID == oid.XML
macro raw(T Go[analysis.TypeInfo]) Bool = T.Kind == analysis.TypeKindSlice && T.Elem.Kind == analysis.TypeKindByte || ispk(T, analysis.TypeKindString)
macro nojson(T Go[analysis.TypeInfo]) Bool = anyk(T, cat(unit(analysis.TypeKindChan), unit(analysis.TypeKindFunc), unit(analysis.TypeKindComplex64), unit(analysis.TypeKindComplex128)), 0)
macro noxml(T Go[analysis.TypeInfo]) Bool = anyk(T, cat(unit(analysis.TypeKindChan), unit(analysis.TypeKindFunc), unit(analysis.TypeKindMap)), 0)
macro jsonin(T Go[analysis.TypeInfo]) Bool = T.IsJSONUnmarshaler || isptr(T) && T.Elem.IsJSONUnmarshaler
macro jsonout(T Go[analysis.TypeInfo]) Bool = T.IsJSONMarshaler || isptr(T) && T.Elem.IsJSONMarshaler
macro xmlin(T Go[analysis.TypeInfo]) Bool = T.IsXMLUnmarshaler || isptr(T) && T.Elem.IsXMLUnmarshaler
macro xmlout(T Go[analysis.TypeInfo]) Bool = T.IsXMLMarshaler || isptr(T) && T.Elem.IsXMLMarshaler
macro readable(c Go[*postgres.checker], T Go[analysis.TypeInfo], col Go[*postgres.Column]) Bool =
  ite(T.Kind == analysis.TypeKindInterface && !T.IsEmptyInterface, false,
  ite(scans(T), true,
  ite(isjson(col), jsonin(T) || !nojson(T),
  ite(T.IsEmptyInterface, true,
  ite(isxml(col), xmlin(T) || !noxml(T), fits(c, col.Type, lit(T), len1(c, col)))))))
macro scanner(c Go[*postgres.checker], T Go[analysis.TypeInfo], col Go[*postgres.Column]) Bytes =
  ite(scans(T), "",
  ite(isjson(col), ite(!jsonin(T) && raw(T), "", "JSON"),
  ite(T.IsEmptyInterface, "AnyToEmptyInterface",
  ite(isxml(col), ite(!xmlin(T) && raw(T), "", "XML"), convs(c, col.Type, lit(T), len1(c, col)).scanner))))
macro writable(c Go[*postgres.checker], T Go[analysis.TypeInfo], col Go[*postgres.Column]) Bool =
  ite(values(T), true,
  ite(isjson(col), jsonout(T) || !nojson(T),
  ite(isxml(col), xmlout(T) || !noxml(T), fits(c, col.Type, lit(T), len1(c, col)))))
macro valuer(c Go[*postgres.checker], T Go[analysis.TypeInfo], col Go[*postgres.Column]) Bytes =
  ite(values(T), "",
  ite(isjson(col), ite(!jsonout(T) && raw(T), "", "JSON"),
  ite(isxml(col), ite(!xmlout(T) && raw(T), "", "XML"), convs(c, col.Type, lit(T), len1(c, col)).valuer)))
macro qualified(id Go[analysis.ColIdent], q Bytes) Go[analysis.ColIdent] = analysis.ColIdent{Name: id.Name, Qualifier: q}

// what is recorded for a field
opaque okread(c Go[*postgres.checker], f Go[*analysis.FieldInfo], strict Bool) Bool = ite(relcol(c.rel, f.ColIdent.Name) == 0, !strict, readable(c, f.Type, relcol(c.rel, f.ColIdent.Name)))
opaque okwrite(c Go[*postgres.checker], f Go[*analysis.FieldInfo]) Bool = relcol(c.rel, f.ColIdent.Name) == 0 || (!f.UseDefault || relcol(c.rel, f.ColIdent.Name).HasDefault) && writable(c, f.Type, relcol(c.rel, f.ColIdent.Name))
opaque okfilter(c Go[*postgres.checker], f Go[*analysis.FieldInfo], strict Bool) Bool = anyxf(data(f.Selector), 0) || !hasmode(f.Mode, 2) || ite(relcol(c.rel, f.ColIdent.Name) == 0, !strict, writable(c, f.Type, relcol(c.rel, f.ColIdent.Name)))
opaque readof(c Go[*postgres.checker], f Go[*analysis.FieldInfo]) Seq[Go[postgres.FieldRead]] =
  ite(relcol(c.rel, f.ColIdent.Name) == 0 || (anywo(data(f.Selector), 0) || writeonly(f.Mode)) && !forced(c, f.ColIdent.Name), empty("Go[postgres.FieldRead]"), unit(postgres.FieldRead{Field: f, Column: relcol(c.rel, f.ColIdent.Name), ColIdent: qualified(f.ColIdent, c.rid.Alias), Scanner: scanner(c, f.Type, relcol(c.rel, f.ColIdent.Name))}))
opaque writeof(c Go[*postgres.checker], f Go[*analysis.FieldInfo]) Go[postgres.FieldWrite] =
  postgres.FieldWrite{Field: f, Column: relcol(c.rel, f.ColIdent.Name), ColIdent: qualified(f.ColIdent, c.rid.Alias), Valuer: valuer(c, f.Type, relcol(c.rel, f.ColIdent.Name))}
opaque filterof(c Go[*postgres.checker], f Go[*analysis.FieldInfo]) Seq[Go[postgres.FieldFilter]] =
  ite(anyxf(data(f.Selector), 0) || !hasmode(f.Mode, 2) || relcol(c.rel, f.ColIdent.Name) == 0, empty("Go[postgres.FieldFilter]"), unit(postgres.FieldFilter{Field: f, Column: relcol(c.rel, f.ColIdent.Name), ColIdent: qualified(f.ColIdent, c.rid.Alias), Valuer: valuer(c, f.Type, relcol(c.rel, f.ColIdent.Name))}))
rec rds(S Seq[Go[*postgres.FieldRead]], k Int) Seq[Go[postgres.FieldRead]] = ite(k <= 0, empty("Go[postgres.FieldRead]"), cat(rds(S, k-1), unit(*S[k-1])))
rec wrs(S Seq[Go[*postgres.FieldWrite]], k Int) Seq[Go[postgres.FieldWrite]] = ite(k <= 0, empty("Go[postgres.FieldWrite]"), cat(wrs(S, k-1), unit(*S[k-1])))
rec fls(S Seq[Go[*postgres.FieldFilter]], k Int) Seq[Go[postgres.FieldFilter]] = ite(k <= 0, empty("Go[postgres.FieldFilter]"), cat(fls(S, k-1), unit(*S[k-1])))
lemma rds_pre(A Seq[Go[*postgres.FieldRead]], B Seq[Go[*postgres.FieldRead]], k Int) : rds(cat(A, B), k) => imp(0 <= k && k <= len(A), rds(cat(A, B), k) == rds(A, k))
  by up k
lemma wrs_pre(A Seq[Go[*postgres.FieldWrite]], B Seq[Go[*postgres.FieldWrite]], k Int) : wrs(cat(A, B), k) => imp(0 <= k && k <= len(A), wrs(cat(A, B), k) == wrs(A, k))
  by up k
lemma fls_pre(A Seq[Go[*postgres.FieldFilter]], B Seq[Go[*postgres.FieldFilter]], k Int) : fls(cat(A, B), k) => imp(0 <= k && k <= len(A), fls(cat(A, B), k) == fls(A, k))
  by up k

contract postgres.typeCheckFieldWrite(c, f)
  property C01
  reveal okwrite writeof
  requires typeok(enc(f.Type))
  let col = relcol(c.rel, f.ColIdent.Name)
  ensures unknown: imp(col == 0, r0 == nil && r1 == nil)
  ensures accepted: imp(okwrite(c, f), r1 == nil)
  ensures fit: imp(r1 == nil, okwrite(c, f))
  ensures rejected: imp(r1 != nil, r0 == nil)
  ensures write: imp(col != 0 && r1 == nil, r0 != nil && *r0 == writeof(c, f))
  ensures names: imp(col != 0 && r1 == nil, r0.Field == f && r0.Column == col && r0.ColIdent.Name == f.ColIdent.Name)
contract postgres.typeCheckFieldRead(c, f, strict)
  property C01
  reveal okread readof
  requires typeok(enc(f.Type))
  modifies c.res.Reads
  ensures accepted: imp(okread(c, f, strict), r0 == nil)
  ensures fit: imp(r0 == nil, okread(c, f, strict))
  ensures read: imp(r0 == nil, rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), readof(c, f)))
contract postgres.typeCheckFieldFilter(c, f, strict)
  property C01
  reveal okfilter filterof
  requires typeok(enc(f.Type))
  modifies c.res.Filters
  ensures accepted: imp(okfilter(c, f, strict), r0 == nil)
  ensures fit: imp(r0 == nil, okfilter(c, f, strict))
  ensures filter: imp(r0 == nil, fls(data(c.res.Filters), len(c.res.Filters)) == cat(fls(data(old(c.res.Filters)), len(old(c.res.Filters))), filterof(c, f)))

// ---- the fields of the record, in order
rec alltypes(F Seq[Go[*analysis.FieldInfo]], k Int) Bool = k >= len(F) || typeok(F[k].Type) && alltypes(F, k+1)
rec strictly(c Go[*postgres.checker], o Go[*analysis.OptionalDirective], f Go[*analysis.FieldInfo]) Bool = o == 0 || !(o.All || named(data(o.Items), f.ColIdent.Name, 0))
rec reads(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Seq[Go[postgres.FieldRead]] = ite(k <= 0, empty("Go[postgres.FieldRead]"), cat(reads(c, F, k-1), readof(c, F[k-1])))
rec filters(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Seq[Go[postgres.FieldFilter]] = ite(k <= 0, empty("Go[postgres.FieldFilter]"), cat(filters(c, F, k-1), filterof(c, F[k-1])))
rec allread(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], strict Bool, k Int) Bool = k >= len(F) || okread(c, F[k], strict) && allread(c, F, strict, k+1)
rec allopt(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Bool = k >= len(F) || okread(c, F[k], strictly(c, c.optional, F[k])) && allopt(c, F, k+1)
rec allfilter(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Bool = k >= len(F) || okfilter(c, F[k], false) && allfilter(c, F, k+1)
contract postgres.typeCheckFilterRelField(c, fs)
  property C01
  let F = data(fs.Rel.Type.Fields)
  requires alltypes(F, 0)
  modifies c.res.Filters
  ensures accepted: (r0 == nil) == allfilter(c, F, 0)
  ensures filters: imp(r0 == nil, fls(data(c.res.Filters), len(c.res.Filters)) == cat(fls(data(old(c.res.Filters)), len(old(c.res.Filters))), filters(c, F, len(F))))
  inv (k cnt): 0 <= k && k <= len(F) && alltypes(F, k) && allfilter(c, F, k) == allfilter(c, F, 0) && fls(data(c.res.Filters), len(c.res.Filters)) == cat(fls(data(old(c.res.Filters)), len(old(c.res.Filters))), filters(c, F, k))
contract postgres.typeCheckQueryResultField(c, qs)
  property C01
  let F = ite(qs.Result == nil, empty("Go[*analysis.FieldInfo]"), data(qs.Result.Type.Fields))
  requires alltypes(F, 0)
  modifies c.res.Reads
  ensures accepted: (r0 == nil) == allread(c, F, true, 0)
  ensures reads: imp(r0 == nil, rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), reads(c, F, len(F))))
  inv (k cnt): 0 <= k && k <= len(F) && alltypes(F, k) && allread(c, F, true, k) == allread(c, F, true, 0) && rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), reads(c, F, k))

// ---- RETURNING: the fields named, or all of them
opaque fieldat(F Seq[Go[*analysis.FieldInfo]], n Bytes, k Int) Go[*analysis.FieldInfo] = ite(k >= len(F), 0, ite(F[k].ColIdent.Name == n, F[k], fieldat(F, n, k+1)))
rec colknown(c Go[*postgres.checker], id Go[analysis.ColIdent]) Bool = dom(c.relMap, id.Qualifier) && relcol(mval(c.relMap, id.Qualifier), id.Name) != 0
lemma fieldat_ok(F Seq[Go[*analysis.FieldInfo]], n Bytes, k Int) : alltypes(F, k), fieldat(F, n, k) => imp(0 <= k && alltypes(F, k) && fieldat(F, n, k) != 0, typeok(fieldat(F, n, k).Type))
  by down k len(F)
  reveal fieldat
contract postgres.findQueryColumnField(c, qs, cid, strict)
  reveal fieldat
  property C01
  let F = data(qs.Rel.Type.Fields)
  may_panic fieldat(F, cid.Name, 0) == 0
  ensures found: imp(r1 == 0, r0 == fieldat(F, cid.Name, 0))
  ensures known: (r1 == 0) == (!strict || colknown(c, enc(cid)))
  ensures missing: imp(r1 != 0, r0 == nil)
  inv (k cnt): 0 <= k && k <= len(F) && fieldat(F, cid.Name, k) == fieldat(F, cid.Name, 0)
rec tagged(F Seq[Go[*analysis.FieldInfo]], I Seq[Go[analysis.ColIdent]], k Int) Bool = k >= len(I) || fieldat(F, I[k].Name, 0) != 0 && tagged(F, I, k+1)
rec allknown(c Go[*postgres.checker], I Seq[Go[analysis.ColIdent]], k Int) Bool = k >= len(I) || colknown(c, I[k]) && allknown(c, I, k+1)
rec fieldsfor(F Seq[Go[*analysis.FieldInfo]], I Seq[Go[analysis.ColIdent]], k Int) Seq[Go[*analysis.FieldInfo]] = ite(k <= 0, empty("Go[*analysis.FieldInfo]"), cat(fieldsfor(F, I, k-1), unit(fieldat(F, I[k-1].Name, 0))))
contract postgres.typeCheckQueryReturnDirective(c, qs)
  property C01
  let F = data(qs.Rel.Type.Fields)
  let I = data(qs.Return.Items)
  let R = ite(qs.Return.All, F, fieldsfor(F, I, len(I)))
  requires alltypes(F, 0)
  requires tagged(F, I, 0)
  modifies c.res.Reads
  ensures absent: imp(qs.Return == nil, r0 == nil && data(c.res.Reads) == data(old(c.res.Reads)))
  ensures accepted: imp(qs.Return != nil, (r0 == nil) == ((qs.Return.All || allknown(c, I, 0)) && allread(c, R, !qs.Return.All, 0)))
  ensures reads: imp(qs.Return != nil && r0 == nil, rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), reads(c, R, len(R))))
  inv (k cnt, r acc:[]*analysis.FieldInfo): 0 <= k && k <= len(I) && data(r) == fieldsfor(F, I, k) && allknown(c, I, k) == allknown(c, I, 0) && tagged(F, I, k) && alltypes(data(r), 0)
  inv (k cnt, r src:[]*analysis.FieldInfo, s acc:bool): 0 <= k && k <= len(R) && data(r) == R && alltypes(R, k) && allread(c, R, !qs.Return.All, k) == allread(c, R, !qs.Return.All, 0) && rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), reads(c, R, k))
  inv (k cnt, r src:[]*analysis.FieldInfo): 0 <= k && k <= len(R) && data(r) == R && alltypes(R, k) && allread(c, R, !qs.Return.All, k) == allread(c, R, !qs.Return.All, 0) && rds(data(c.res.Reads), len(c.res.Reads)) == cat(rds(data(old(c.res.Reads)), len(old(c.res.Reads))), reads(c, R, k))
lemma alltypes_app(F Seq[Go[*analysis.FieldInfo]], x Go[*analysis.FieldInfo], k Int) : alltypes(cat(F, unit(x)), k) => imp(0 <= k && alltypes(F, k) && typeok(x.Type), alltypes(cat(F, unit(x)), k))
  by down k len(F)

// ---- the columns written, and those that identify the row
rec allwrite(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Bool = k >= len(F) || okwrite(c, F[k]) && (relcol(c.rel, F[k].ColIdent.Name) != 0 || anyro(data(F[k].Selector), 0) || readonly(F[k].Mode)) && allwrite(c, F, k+1)
macro skipped(c Go[*postgres.checker], f Go[*analysis.FieldInfo], ins Bool) Bool = ite(ins, !hasmode(f.Mode, 4), !hasmode(f.Mode, 8)) && !forced(c, f.ColIdent.Name)
opaque writeif(c Go[*postgres.checker], f Go[*analysis.FieldInfo], ins Bool) Seq[Go[postgres.FieldWrite]] = ite(relcol(c.rel, f.ColIdent.Name) == 0 || skipped(c, f, ins), empty("Go[postgres.FieldWrite]"), unit(writeof(c, f)))
opaque keyif(c Go[*postgres.checker], f Go[*analysis.FieldInfo]) Seq[Go[postgres.FieldWrite]] = ite(relcol(c.rel, f.ColIdent.Name) == 0 || !relcol(c.rel, f.ColIdent.Name).IsPrimary, empty("Go[postgres.FieldWrite]"), unit(writeof(c, f)))
rec writes(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], ins Bool, k Int) Seq[Go[postgres.FieldWrite]] = ite(k <= 0, empty("Go[postgres.FieldWrite]"), cat(writes(c, F, ins, k-1), writeif(c, F[k-1], ins)))
rec pkeys(c Go[*postgres.checker], F Seq[Go[*analysis.FieldInfo]], k Int) Seq[Go[postgres.FieldWrite]] = ite(k <= 0, empty("Go[postgres.FieldWrite]"), cat(pkeys(c, F, k-1), keyif(c, F[k-1])))
contract postgres.typeCheckQueryRelField(c, qs)
  property C01
  reveal writeif keyif
  let F = data(qs.Rel.Type.Fields)
  let record = qs.Rel != nil && !qs.Rel.IsDirective
  let inserts = qs.Kind == analysis.QueryKindInsert
  let updates = qs.Kind == analysis.QueryKindUpdate
  let selects = qs.Kind == analysis.QueryKindSelect
  let R0 = rds(data(old(c.res.Reads)), len(old(c.res.Reads)))
  let W0 = wrs(data(old(c.res.Writes)), len(old(c.res.Writes)))
  let P0 = wrs(data(old(c.res.PKeys)), len(old(c.res.PKeys)))
  requires alltypes(F, 0)
  modifies c.res.Reads, c.res.Writes, c.res.PKeys
  ensures other: imp(!record || !(selects || inserts || updates), r0 == nil)
  ensures readable: imp(record && selects, (r0 == nil) == allopt(c, F, 0))
  ensures writable: imp(record && (inserts || updates), (r0 == nil) == allwrite(c, F, 0))
  ensures reads: imp(r0 == nil, rds(data(c.res.Reads), len(c.res.Reads)) == ite(record && selects, cat(R0, reads(c, F, len(F))), R0))
  ensures writes: imp(r0 == nil, wrs(data(c.res.Writes), len(c.res.Writes)) == ite(record && (inserts || updates), cat(W0, writes(c, F, inserts, len(F))), W0))
  ensures keys: imp(r0 == nil, wrs(data(c.res.PKeys), len(c.res.PKeys)) == ite(record && (inserts || updates), cat(P0, pkeys(c, F, len(F))), P0))
  inv (k cnt): 0 <= k && k <= len(F) && alltypes(F, k) && allopt(c, F, k) == allopt(c, F, 0) && rds(data(c.res.Reads), len(c.res.Reads)) == cat(R0, reads(c, F, k))
  inv (k cnt): 0 <= k && k <= len(F) && alltypes(F, k) && allwrite(c, F, k) == allwrite(c, F, 0) && wrs(data(c.res.Writes), len(c.res.Writes)) == cat(W0, writes(c, F, inserts, k)) && wrs(data(c.res.PKeys), len(c.res.PKeys)) == cat(P0, pkeys(c, F, k))

// ---- directives name columns that exist
rec allorder(c Go[*postgres.checker], I Seq[Go[analysis.OrderByTagItem]], k Int) Bool = k >= len(I) || colknown(c, I[k].ColIdent) && allorder(c, I, k+1)
rec alldefault(c Go[*postgres.checker], I Seq[Go[analysis.ColIdent]], k Int) Bool = k >= len(I) || relcol(c.rel, I[k].Name) != 0 && relcol(c.rel, I[k].Name).HasDefault && alldefault(c, I, k+1)
contract postgres.typeCheckQueryForceDirective(c, qs)
  property C02
  let I = data(qs.Force.Items)
  modifies c.force
  ensures absent: imp(qs.Force == nil, r0 == nil && c.force == old(c.force))
  ensures known: imp(qs.Force != nil, (r0 == nil) == allknown(c, I, 0))
  ensures kept: imp(qs.Force != nil, c.force == qs.Force)
  inv (k cnt): 0 <= k && k <= len(I) && allknown(c, I, k) == allknown(c, I, 0)
contract postgres.typeCheckQueryDefaultDirective(c, qs)
  property C02
  let I = data(qs.Default.Items)
  ensures absent: imp(qs.Default == nil, r0 == nil)
  ensures known: imp(qs.Default != nil, (r0 == nil) == alldefault(c, I, 0))
  inv (k cnt): 0 <= k && k <= len(I) && alldefault(c, I, k) == alldefault(c, I, 0)
contract postgres.typeCheckQueryOrderByDirective(c, qs)
  property C02
  let I = data(qs.OrderBy.Items)
  ensures absent: imp(qs.OrderBy == nil, r0 == nil)
  ensures known: imp(qs.OrderBy != nil, (r0 == nil) == allorder(c, I, 0))
  inv (k cnt): 0 <= k && k <= len(I) && allorder(c, I, k) == allorder(c, I, 0)
contract postgres.typeCheckFilterTextSearchDirective(c, fs)
  property C02
  ensures absent: imp(fs.TextSearch == nil, r0 == nil)
  ensures vector: imp(fs.TextSearch != nil, (r0 == nil) == (relcol(c.rel, fs.TextSearch.Name) != 0 && relcol(c.rel, fs.TextSearch.Name).Type.OID == oid.TSVector))

// ---- comparisons for which the database has an operator
macro oprname(p Int) Bytes = ite(dom(gvar("postgres.predicateToOprname"), p), mval(gvar("postgres.predicateToOprname"), p), "")
macro hasop(c Go[*postgres.checker], n Bytes, l Int, r Int) Bool = dom(c.db.catalog.Operators, postgres.OpKey{Name: n, Left: l, Right: r})
macro castat(c Go[*postgres.checker], t Int, s Int) Go[*postgres.Cast] = ite(dom(c.db.catalog.Casts, postgres.CastKey{Target: t, Source: s}), mval(c.db.catalog.Casts, postgres.CastKey{Target: t, Source: s}), 0)
macro implicit(x Go[*postgres.Cast]) Bool = x != 0 && x.Context == postgres.CastContextImplicit
macro pseq(p Int) Bool = p == analysis.IsIn || p == analysis.NotIn
macro pbool(p Int) Bool = analysis.IsTrue <= p && p <= analysis.NotUnknown
macro pnull(p Int) Bool = p == analysis.IsNull || p == analysis.NotNull
contract postgres.checkTypeCoercion(c, target, source)
  property C02
  ensures coercible: r0 == (target == source || target == oid.Any || source == oid.Unknown || castat(c, target, source) != 0 && castat(c, target, source).Context == postgres.CastContextImplicit)
macro castop(c Go[*postgres.checker], n Bytes, s Int, t Int) Bool = implicit(castat(c, t, s)) && hasop(c, n, castat(c, t, s).Target, castat(c, t, s).Target)
macro comparable(c Go[*postgres.checker], l Go[*postgres.Type], r Go[*postgres.Type], n Bytes) Bool = l.OID == r.OID || (isstr(l) || l.Type == postgres.TypeTypeEnum) && r.OID == oid.Unknown || hasop(c, n, l.OID, r.OID) || castop(c, n, l.OID, r.OID) || castop(c, n, r.OID, l.OID)
opaque compares(c Go[*postgres.checker], l Go[*postgres.Type], r Go[*postgres.Type], p Int, q Int) Bool = ite(pseq(p) || q > 0, isarr(r) && comparable(c, l, typeat(c, r.Elem), oprname(p)), comparable(c, l, r, oprname(p)))
contract postgres.typeCheckComparison(c, ltyp, rtyp, pred, qua)
  property C02
  reveal compares
  ensures accepted: (r0 == 0) == compares(c, ltyp, rtyp, pred, qua)
  ensures list: imp((pseq(pred) || qua > 0) && !isarr(rtyp), r0 == ite(pseq(pred), postgres.errPredicateOperandArray, postgres.errPredicateOperandQuantifier))
  ensures operator: imp(r0 != 0 && (isarr(rtyp) || !(pseq(pred) || qua > 0)), r0 == postgres.errColumnComparison)

// ---- ON CONFLICT: the columns listed make up a unique index, or the index or constraint named exists and is unique
rec hasnum(B Seq[Int], x Int, k Int) Bool = k < len(B) && (B[k] == x || hasnum(B, x, k+1))
opaque subnums(A Seq[Int], B Seq[Int], k Int) Bool = k >= len(A) || hasnum(B, A[k], 0) && subnums(A, B, k+1)
macro samenums(A Seq[Int], B Seq[Int]) Bool = len(A) == len(B) && subnums(A, B, 0)
contract postgres.matchNumbers(a, b)
  property C03
  reveal subnums
  ensures same: r0 == samenums(data(a), data(b))
  inv (i cnt): 0 <= i && i <= len(a) && len(a) == len(b) && subnums(data(a), data(b), i) == subnums(data(a), data(b), 0)
  inv (j cnt, i src:int): 0 <= i && i < len(a) && 0 <= j && hasnum(data(b), a[i], j) == hasnum(data(b), a[i], 0)
opaque indat(S Seq[Go[*postgres.Index]], n Bytes, k Int) Go[*postgres.Index] = ite(k >= len(S), 0, ite(S[k].Name == n, S[k], indat(S, n, k+1)))
contract postgres.findRelIndex(rel, name)
  property C03
  reveal indat
  ensures first: r0 == indat(data(rel.Indexes), name, 0)
  inv (i cnt): 0 <= i && indat(data(rel.Indexes), name, i) == indat(data(rel.Indexes), name, 0)
opaque conat(S Seq[Go[*postgres.Constraint]], n Bytes, k Int) Go[*postgres.Constraint] = ite(k >= len(S), 0, ite(S[k].Name == n, S[k], conat(S, n, k+1)))
contract postgres.findRelConstraint(rel, name)
  property C03
  reveal conat
  ensures first: r0 == conat(data(rel.Constraints), name, 0)
  inv (i cnt): 0 <= i && conat(data(rel.Constraints), name, i) == conat(data(rel.Constraints), name, 0)

macro uniq(x Go[*postgres.Index]) Bool = x.IsUnique || x.IsPrimary
rec colnums(r Go[*postgres.Relation], I Seq[Go[analysis.ColIdent]], k Int) Seq[Int] = ite(k <= 0, empty("Int"), cat(colnums(r, I, k-1), unit(relcol(r, I[k-1].Name).Num)))
rec allcols(r Go[*postgres.Relation], I Seq[Go[analysis.ColIdent]], k Int) Bool = k >= len(I) || relcol(r, I[k].Name) != 0 && allcols(r, I, k+1)
rec colsof(r Go[*postgres.Relation], I Seq[Go[analysis.ColIdent]], k Int) Seq[Go[*postgres.Column]] = ite(k <= 0, empty("Go[*postgres.Column]"), cat(colsof(r, I, k-1), unit(relcol(r, I[k-1].Name))))
rec wcols(W Seq[Go[*postgres.FieldWrite]], k Int) Seq[Go[*postgres.Column]] = ite(k <= 0, empty("Go[*postgres.Column]"), cat(wcols(W, k-1), unit(W[k-1].Column)))
// the first unique index over exactly the columns
opaque uniqat(S Seq[Go[*postgres.Index]], N Seq[Int], k Int) Go[*postgres.Index] = ite(k >= len(S), 0, ite(samenums(data(S[k].Key), N) && uniq(S[k]), S[k], uniqat(S, N, k+1)))
contract postgres.typeCheckQueryOnConflictStruct(c, qs)
  opt merge
  property C03
  reveal uniqat
  let o = qs.OnConflict
  let I = data(o.Column.ColIdents)
  let N = colnums(c.rel, I, len(I))
  let U = uniqat(data(c.rel.Indexes), N, 0)
  let X = indat(data(c.rel.Indexes), o.Index.Name, 0)
  let K = conat(data(c.rel.Constraints), o.Constraint.Name, 0)
  let Y = data(o.Update.Items)
  let W = data(c.res.Writes)
  let okcols = o.Column == nil || allcols(c.rel, I, 0) && U != 0
  let okindex = o.Index == nil || X != 0 && uniq(X)
  let okcons = o.Constraint == nil || K != 0 && (K.Type == postgres.ConstraintTypePKey || K.Type == postgres.ConstraintTypeUnique)
  let okupdate = o.Update == nil || o.Update.All || allcols(c.rel, Y, 0)
  modifies c.res.Conflict
  ensures absent: imp(o == nil, r0 == nil && c.res.Conflict == old(c.res.Conflict))
  ensures accepted: imp(o != nil && okcols && okindex && okcons && okupdate, r0 == nil)
  ensures columns: imp(o != nil && r0 == nil, okcols)
  ensures index: imp(o != nil && r0 == nil, okindex)
  ensures constraint: imp(o != nil && r0 == nil, okcons)
  ensures update: imp(o != nil && r0 == nil, okupdate)
  ensures reported: imp(o != nil && r0 == nil, c.res.Conflict != nil)
  ensures none: imp(o != nil && r0 == nil && o.Column == nil && o.Index == nil && o.Constraint == nil, c.res.Conflict.Target == nil)
  ensures unique: imp(o != nil && r0 == nil && o.Column != nil && o.Index == nil && o.Constraint == nil, is(c.res.Conflict.Target, "*postgres.ConflictIndex") && *as(c.res.Conflict.Target, "*postgres.ConflictIndex") == postgres.ConflictIndex{Expression: U.Expression, Predicate: U.Predicate})
  ensures named: imp(o != nil && r0 == nil && o.Index != nil && o.Constraint == nil, is(c.res.Conflict.Target, "*postgres.ConflictIndex") && *as(c.res.Conflict.Target, "*postgres.ConflictIndex") == postgres.ConflictIndex{Expression: X.Expression, Predicate: X.Predicate})
  ensures constrained: imp(o != nil && r0 == nil && o.Constraint != nil, is(c.res.Conflict.Target, "*postgres.ConflictConstraint") && as(c.res.Conflict.Target, "*postgres.ConflictConstraint").Name == K.Name)
  ensures updates: imp(o != nil && r0 == nil, data(c.res.Conflict.Update) == ite(o.Update == nil, empty("Go[*postgres.Column]"), ite(o.Update.All, wcols(W, len(W)), colsof(c.rel, Y, len(Y)))))
  inv (k cnt, a acc:[]int16): 0 <= k && k <= len(I) && data(a) == colnums(c.rel, I, k) && allcols(c.rel, I, k) == allcols(c.rel, I, 0)
  inv (k cnt, a src:[]int16, e acc:bool): 0 <= k && uniqat(data(c.rel.Indexes), data(a), k) == U
  inv (k cnt, a acc:[]*postgres.Column): o.Update.All && 0 <= k && k <= len(W) && data(a) == wcols(W, k)
  inv (k cnt, a acc:[]*postgres.Column): !o.Update.All && 0 <= k && k <= len(Y) && data(a) == colsof(c.rel, Y, k) && allcols(c.rel, Y, k) == allcols(c.rel, Y, 0)

// ---- the condition of a column: both sides exist and the database can compare them
extern database/sql.DB.QueryRow(d, q, a)
extern database/sql.Row.Scan(r, d)
  modifies any("oid.OID")
contract postgres.typeOfLiteral(c, expr)
  property C02
  modifies any("oid.OID")
  ensures typed: imp(r1 == 0, r0 != nil)
  ensures reported: r1 == 0 || r1 == postgres.errPredicateLiteralExpr && r0 == nil
macro colid(c Go[*postgres.checker], id Go[analysis.ColIdent]) Go[*postgres.Column] = ite(dom(c.relMap, id.Qualifier), relcol(mval(c.relMap, id.Qualifier), id.Name), 0)
macro unary(p Int) Bool = pbool(p) || pnull(p)
contract postgres.typeCheckColumnConditional(c, cond, rel, rid, ptr)
  property C02
  let L = ite(cond.LHSColumn != 0, cond.LHSColumn, ite(rel != 0, relcol(rel, cond.LHSColIdent.Name), colid(c, cond.LHSColIdent)))
  let R = colid(c, cond.RHSColIdent)
  let p = cond.Predicate
  let q = cond.Quantifier
  let column = len(cond.RHSColIdent.Name) > 0
  let joined = is(ptr, "*analysis.WhereColumnDirective") && c.rel != L.Relation
  requires unary(p) || column || len(cond.RHSLiteral) > 0
  modifies cond.LHSColumn, cond.RHSColumn, cond.RHSType, any("oid.OID")
  ensures left: imp(r0 == nil, L != 0 && cond.LHSColumn == L)
  ensures truth: imp(r0 == nil && pbool(p), L.Type.OID == oid.Bool)
  ensures nullable: imp(r0 == nil && pnull(p), !L.HasNotNull || joined)
  ensures right: imp(r0 == nil && !unary(p) && column, R != 0 && cond.RHSColumn == R && cond.RHSType == R.Type)
  ensures compared: imp(r0 == nil && !unary(p), compares(c, L.Type, cond.RHSType, p, q))
  ensures unary: imp(L != 0 && unary(p) && (pnull(p) || L.Type.OID == oid.Bool) && (pbool(p) || !L.HasNotNull || joined), r0 == nil)
  ensures binary: imp(L != 0 && !unary(p) && column && R != 0 && compares(c, L.Type, R.Type, p, q), r0 == nil)

// ---- the condition of a field: an operator between the column and a type the field can be written as
macro textual(T Go[analysis.TypeInfo]) Go[analysis.TypeInfo] = ite(!isbasic(T.Kind) && T.IsValuer, analysis.TypeInfo{Kind: analysis.TypeKindString}, T)
macro arrayof(o Int) Int = mval(gvar("oid.TypeToArray"), o)
macro hasarray(c Go[*postgres.checker], o Int) Bool = dom(gvar("oid.TypeToArray"), o) && dom(c.db.catalog.Types, arrayof(o))
opaque opfits(c Go[*postgres.checker], K Seq[Go[postgres.OpKey]], n Bytes, o Int, l Bytes, k Int) Bool = k < len(K) && (K[k].Name == n && K[k].Left == o && dom(c.db.catalog.Types, K[k].Right) && fits(c, mval(c.db.catalog.Types, K[k].Right), l, false) || opfits(c, K, n, o, l, k+1))
contract postgres.typeCheckFieldConditionalWithFunc(c, cond)
  property C02
  reveal typeok
  requires typeok(cond.FieldType)
  modifies cond.Valuer
  ensures known: imp(!dom(c.db.catalog.Procs, cond.FuncName), r0 == postgres.errProcedureUnknown)
  ensures reported: r0 == 0 || r0 == postgres.errProcedureUnknown
contract postgres.typeCheckFieldConditional(c, cond)
  property C02
  opt merge
  reveal typeok opfits
  let p = cond.Predicate
  let C = cond.Column
  let T = textual(cond.FieldType)
  let fn = len(cond.FuncName) > 0
  let list = pseq(p) || cond.Quantifier > 0
  let t = ite(list, typeat(c, arrayof(C.Type.OID)), C.Type)
  let direct = hasop(c, oprname(p), oid1(C.Type), oid1(C.Type)) && fits(c, t, lit(T), len1(c, C))
  let K = keys(c.db.catalog.Operators)
  let some = opfits(c, K, oprname(p), oid1(C.Type), lit(T), 0)
  requires typeok(cond.FieldType)
  modifies cond.Valuer
  ensures array: imp(!fn && list && !hasarray(c, C.Type.OID), r0 == ite(pseq(p), postgres.errPredicateOperandArray, postgres.errPredicateOperandQuantifier))
  ensures same: imp(!fn && (!list || hasarray(c, C.Type.OID)) && direct, r0 == 0 && cond.Valuer == convs(c, t, lit(T), len1(c, C)).valuer)
  ensures other: imp(!fn && (!list || hasarray(c, C.Type.OID)) && !direct, r0 == ite(some, 0, postgres.errColumnFieldComparison))
  inv (k cnt, e acc:*postgres.compentry): 0 <= k && k <= len(K) && (e != nil || opfits(c, K, oprname(p), oid1(C.Type), lit(T), k)) == some
