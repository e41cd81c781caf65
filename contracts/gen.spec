use std.spec
package ./internal/generator
package ./internal/analysis
package ./internal/postgres
package ./internal/postgres/oid
package ./internal/config
noinit SQL
noinit GO
noinit analysis
noinit postgres
noinit config
noinit oid

// ---- placeholder numbers: a field's number is fixed when it is first asked for
// Functions below have no contract yet (or only partly): a bounded search over
// random targets interprets the code Write generates and stands in for them.
bounded G01 generator.buildQueryStringForSliceInsertOrUpdate, buildQueryStringForSliceArgs, buildQueryStringForFilter, buildQueryFilterParams, makeInputArgsList, buildQueryCallExec, buildQueryCallQueryRow, buildQueryCallQuery, buildQueryLimitOffsetFallback
bounded G02 generator.buildQueryOutputRoot, buildQueryOutputInitRoot, buildQueryOutputInitFields, makeOutputArgsList, buildQueryResultRowScan, buildQueryResultRowsScan, buildQueryResultRowsAffected
bounded G03 generator.buildQueryStringDecl, buildQueryStringForSliceInsertOrUpdate, buildQueryStringForFilter, and the printing of the syntax trees by github.com/frk/ast

macro pnew(M Go[map[interface{}]int], p Ifc) Int = ite(p != nil && dom(M, p), 0, 1)
macro pnum(M Go[map[interface{}]int], n Int, p Ifc) Int = ite(p != nil && dom(M, p), mval(M, p), n+1)
macro pset(M Go[map[interface{}]int], n Int, p Ifc) Go[map[interface{}]int] = ite(p == nil || dom(M, p), M, mput(M, p, n+1))
macro param(M Go[map[interface{}]int], n Int, p Ifc) Go[SQL.OrdinalParameterSpec] = SQL.OrdinalParameterSpec{pnum(M, n, p)}
contract generator.makeParamSpec(g, ptr)
  property G01
  modifies g.paramSet, g.paramNum
  ensures number: r0 == param(enc(old(g.paramSet)), old(g.paramNum), ptr)
  ensures count: g.paramNum == old(g.paramNum) + pnew(enc(old(g.paramSet)), ptr)
  ensures remembered: enc(g.paramSet) == pset(enc(old(g.paramSet)), old(g.paramNum), ptr)

// ---- field selectors
rec selx(X Ifc, S Seq[Go[*analysis.FieldSelectorNode]], k Int) Ifc = ite(k <= 0, X, ifc(GO.SelectorExpr{X: selx(X, S, k-1), Sel: GO.Ident{S[k-1].Name}}))
rec fieldx(X Ifc, f Go[*analysis.FieldInfo]) Ifc = ifc(GO.SelectorExpr{X: selx(X, data(f.Selector), len(f.Selector)), Sel: GO.Ident{f.Name}})
macro conv(x Ifc, name Bytes) Ifc = ite(len(name) > 0, ifc(GO.CallExpr{Fun: GO.SelectorExpr{X: GO.Ident{"pgsql"}, Sel: GO.Ident{name}}, Args: GO.ArgsList{List: x}}), x)

// ---- a WHERE or ON condition, as checked: what it is made of
macro fc(c Ifc) Go[*postgres.FieldConditional] = unbox("*postgres.FieldConditional", c)
macro cc(c Ifc) Go[*postgres.ColumnConditional] = unbox("*postgres.ColumnConditional", c)
macro bc(c Ifc) Go[*postgres.BetweenConditional] = unbox("*postgres.BetweenConditional", c)
macro nc(c Ifc) Go[*postgres.NestedConditional] = unbox("*postgres.NestedConditional", c)
macro isbool(c Ifc) Bool = is(c, "*postgres.Boolean")
macro isfield(c Ifc) Bool = is(c, "*postgres.FieldConditional")
macro iscol(c Ifc) Bool = is(c, "*postgres.ColumnConditional")
macro isbetween(c Ifc) Bool = is(c, "*postgres.BetweenConditional")
macro isnested(c Ifc) Bool = is(c, "*postgres.NestedConditional")
macro inlist(p Int) Bool = p == analysis.IsIn || p == analysis.NotIn
macro isin(c Ifc) Bool = isfield(c) && inlist(fc(c).Predicate)
macro fieldok(p Int) Bool = analysis.IsEQ <= p && p <= analysis.NotDistinct || analysis.IsMatch <= p && p <= analysis.NotSimilar || inlist(p) || p == analysis.IsNull || p == analysis.NotNull || analysis.IsTrue <= p && p <= analysis.NotUnknown
macro colok(c Ifc) Bool = iscol(c) && !inlist(cc(c).Predicate)
macro bound(b Ifc) Bool = isfield(b) && !isin(b) || iscol(b)
// the operator written between two conditions is that of the Boolean before the second
rec lastbool(C Seq[Ifc], k Int) Int = ite(k <= 0, 0, ite(isbool(C[k-1]), unbox("*postgres.Boolean", C[k-1]).Value, lastbool(C, k-1)))
// every condition is of a known kind, and every one but the first follows an AND or OR
rec condok(c Ifc) Bool = isbool(c) || colok(c) || isfield(c) && fieldok(fc(c).Predicate) || isbetween(c) && bound(bc(c).LowerBound) && bound(bc(c).UpperBound) || isnested(c) && condsok(data(nc(c).Conditionals), len(nc(c).Conditionals))
rec condsok(C Seq[Ifc], k Int) Bool = k <= 0 || condsok(C, k-1) && condok(C[k-1]) && ite(k == 1, !isbool(C[0]), isbool(C[k-1]) || lastbool(C, k-1) == analysis.BoolAnd || lastbool(C, k-1) == analysis.BoolOr)
lemma condsok_at(C Seq[Ifc], n Int, j Int) : condsok(C, n), C[j] => imp(0 <= j && j < n && condsok(C, n), condok(C[j]) && imp(j == 0, !isbool(C[j])) && imp(0 < j, isbool(C[j]) || lastbool(C, j) == analysis.BoolAnd || lastbool(C, j) == analysis.BoolOr))
  by up n

// ---- the fields that take a placeholder, in order
macro visb(b Ifc) Seq[Ifc] = ite(isfield(b), unit(b), empty("Ifc"))
opaque vis1(c Ifc) Seq[Ifc] = ite(isfield(c), unit(c), ite(isbetween(c), cat(visb(bc(c).LowerBound), visb(bc(c).UpperBound)), ite(isnested(c), visits(data(nc(c).Conditionals), len(nc(c).Conditionals)), empty("Ifc"))))
opaque visits(C Seq[Ifc], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(visits(C, k-1), vis1(C[k-1])))
// numbering: the table and the count after the first k of V; list fields take no number of their own
rec numM(V Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) Go[map[interface{}]int] = ite(k <= 0, M, pset(numM(V, k-1, M, n), numN(V, k-1, M, n), V[k-1]))
rec numN(V Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) Int = ite(k <= 0, n, numN(V, k-1, M, n) + pnew(numM(V, k-1, M, n), V[k-1]) - ite(isin(V[k-1]), 1, 0))
lemma num_prefix(A Seq[Ifc], B Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) : numM(cat(A, B), k, M, n) => imp(0 <= k && k <= len(A), numM(cat(A, B), k, M, n) == numM(A, k, M, n) && numN(cat(A, B), k, M, n) == numN(A, k, M, n))
  by up k
lemma num_cat(A Seq[Ifc], B Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) : numM(cat(A, B), k, M, n) => imp(len(A) <= k && k <= len(A)+len(B), numM(cat(A, B), k, M, n) == numM(B, k-len(A), numM(A, len(A), M, n), numN(A, len(A), M, n)) && numN(cat(A, B), k, M, n) == numN(B, k-len(A), numM(A, len(A), M, n), numN(A, len(A), M, n)))
  by up k

lemma num_step(C Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) : numM(visits(C, k), len(visits(C, k)), M, n) => imp(0 < k, numM(visits(C, k), len(visits(C, k)), M, n) == numM(vis1(C[k-1]), len(vis1(C[k-1])), numM(visits(C, k-1), len(visits(C, k-1)), M, n), numN(visits(C, k-1), len(visits(C, k-1)), M, n)) && numN(visits(C, k), len(visits(C, k)), M, n) == numN(vis1(C[k-1]), len(vis1(C[k-1])), numM(visits(C, k-1), len(visits(C, k-1)), M, n), numN(visits(C, k-1), len(visits(C, k-1)), M, n)))
  reveal visits
  hint numM(cat(visits(C, k-1), vis1(C[k-1])), len(visits(C, k-1))+len(vis1(C[k-1])), M, n)
  hint numM(cat(visits(C, k-1), vis1(C[k-1])), len(visits(C, k-1)), M, n)
lemma num_stepN(C Seq[Ifc], k Int, M Go[map[interface{}]int], n Int) : numN(visits(C, k), len(visits(C, k)), M, n) => imp(0 < k, numM(visits(C, k), len(visits(C, k)), M, n) == numM(vis1(C[k-1]), len(vis1(C[k-1])), numM(visits(C, k-1), len(visits(C, k-1)), M, n), numN(visits(C, k-1), len(visits(C, k-1)), M, n)) && numN(visits(C, k), len(visits(C, k)), M, n) == numN(vis1(C[k-1]), len(vis1(C[k-1])), numM(visits(C, k-1), len(visits(C, k-1)), M, n), numN(visits(C, k-1), len(visits(C, k-1)), M, n)))
  reveal visits
  hint numM(cat(visits(C, k-1), vis1(C[k-1])), len(visits(C, k-1))+len(vis1(C[k-1])), M, n)
  hint numM(cat(visits(C, k-1), vis1(C[k-1])), len(visits(C, k-1)), M, n)

// ---- the SQL of a condition
macro colref(id Go[analysis.ColIdent]) Go[SQL.ColumnReference] = SQL.ColumnReference{Qual: id.Qualifier, Name: id.Name}
contract generator.makeColRef(id)
  property G03
  ensures r0 == colref(enc(id))
macro called(name Bytes, x Ifc) Ifc = ite(len(name) > 0, ifc(SQL.RoutineInvocation{Name: name, Args: []SQL.ValueExpr{x}}), x)
macro quaop(q Int) Int = ite(q == analysis.QuantAny, SQL.ANY, ite(q == analysis.QuantSome, SQL.SOME, SQL.ALL))
macro quantified(q Int, typ Bytes, x Ifc) Ifc = ite(q > 0, ifc(SQL.QuantifiedExpr{Qua: quaop(q), Expr: ite(len(typ) > 0, ifc(SQL.CastExpr{Expr: x, Type: cat(typ, "[]")}), x)}), x)
macro cmpop(p Int) Int = ite(p == analysis.IsEQ, SQL.EQUAL, ite(p == analysis.NotEQ, SQL.NOT_EQUAL, ite(p == analysis.NotEQ2, SQL.NOT_EQUAL2, ite(p == analysis.IsLT, SQL.LESS_THAN, ite(p == analysis.IsGT, SQL.GREATER_THAN, ite(p == analysis.IsLTE, SQL.LESS_THAN_EQUAL, SQL.GREATER_THAN_EQUAL))))))
macro regexop(p Int) Int = ite(p == analysis.IsMatch, SQL.MATCH, ite(p == analysis.IsMatchi, SQL.MATCH_CI, ite(p == analysis.NotMatch, SQL.NOT_MATCH, SQL.NOT_MATCH_CI)))
macro truth(p Int) Int = ite(p == analysis.IsTrue || p == analysis.NotTrue, SQL.TRUE, ite(p == analysis.IsFalse || p == analysis.NotFalse, SQL.FALSE, SQL.UNKNOWN))
macro listcall(s Int) Ifc = ifc(SQL.HostValue{Value: GO.RawStringInsertExpr{GO.CallExpr{Fun: GO.QualifiedIdent{"gosql", "InValueList"}, Args: GO.ArgsList{List: GO.ExprList{GO.Ident{cat("len", itoa(s))}, GO.Ident{cat("pos", itoa(s))}}}}}})
rec predx(p Int, l Ifc, r Ifc, s Int) Ifc =
  ite(analysis.IsEQ <= p && p <= analysis.IsGTE, ifc(SQL.ComparisonPredicate{Cmp: cmpop(p), LPredicand: l, RPredicand: r}),
  ite(p == analysis.IsDistinct || p == analysis.NotDistinct, ifc(SQL.DistinctPredicate{Not: p == analysis.NotDistinct, LPredicand: l, RPredicand: r}),
  ite(analysis.IsMatch <= p && p <= analysis.NotMatchi, ifc(SQL.RegexPredicate{Op: regexop(p), Predicand: l, Pattern: r}),
  ite(p == analysis.IsLike || p == analysis.NotLike, ifc(SQL.LikePredicate{Not: p == analysis.NotLike, Predicand: l, Pattern: r}),
  ite(p == analysis.IsILike || p == analysis.NotILike, ifc(SQL.ILikePredicate{Not: p == analysis.NotILike, Predicand: l, Pattern: r}),
  ite(p == analysis.IsSimilar || p == analysis.NotSimilar, ifc(SQL.SimilarPredicate{Not: p == analysis.NotSimilar, Predicand: l, Pattern: r}),
  ite(inlist(p), ifc(SQL.InPredicate{Not: p == analysis.NotIn, Predicand: l, ValueList: listcall(s+1)}),
  ite(p == analysis.IsNull || p == analysis.NotNull, ifc(SQL.NullPredicate{Not: p == analysis.NotNull, Predicand: l}),
  ite(analysis.IsTrue <= p && p <= analysis.NotUnknown, ifc(SQL.TruthPredicate{Not: p == analysis.NotTrue || p == analysis.NotFalse || p == analysis.NotUnknown, Truth: truth(p), Predicand: l}), l)))))))))
macro fieldx1(c Go[*postgres.FieldConditional], M Go[map[interface{}]int], n Int, s Int) Ifc = predx(c.Predicate, called(c.FuncName, ifc(colref(c.ColIdent))), quantified(c.Quantifier, c.Column.Type.NameFmt, called(c.FuncName, ifc(param(M, n, ifc(c))))), s)
macro colrhs(c Go[*postgres.ColumnConditional]) Ifc = ite(c.RHSColIdent.Name != "" || c.RHSColIdent.Qualifier != "", ifc(colref(c.RHSColIdent)), ite(len(c.RHSLiteral) > 0, ifc(SQL.Literal{c.RHSLiteral}), nilifc()))
macro colx1(c Go[*postgres.ColumnConditional], s Int) Ifc = predx(c.Predicate, ifc(colref(c.LHSColIdent)), quantified(c.Quantifier, "", colrhs(c)), s)
macro boundx(b Ifc, M Go[map[interface{}]int], n Int) Ifc = ite(isfield(b), ifc(param(M, n, b)), ifc(colref(cc(b).RHSColIdent)))
macro betweenx(c Go[*postgres.BetweenConditional], M Go[map[interface{}]int], n Int) Go[SQL.BetweenPredicate] = SQL.BetweenPredicate{
  Not: c.Predicate == analysis.NotBetween || c.Predicate == analysis.NotBetweenSym || c.Predicate == analysis.NotBetweenAsym,
  Sym: ite(c.Predicate == analysis.IsBetweenSym || c.Predicate == analysis.NotBetweenSym, SQL.SYMMETRIC, ite(c.Predicate == analysis.IsBetweenAsym || c.Predicate == analysis.NotBetweenAsym, SQL.ASYMMETRIC, 0)),
  Predicand: colref(c.ColIdent), LowEnd: boundx(c.LowerBound, M, n), HighEnd: boundx(c.UpperBound, numM(visb(c.LowerBound), len(visb(c.LowerBound)), M, n), numN(visb(c.LowerBound), len(visb(c.LowerBound)), M, n))}
rec oneof(S Seq[Int], k Int, p Int) Bool = k < len(S) && (S[k] == p || oneof(S, k+1, p))
contract analysis.Predicate.IsOneOf(p, pp)
  property G03
  ensures member: r0 == oneof(data(pp), 0, p)
  inv (i cnt): 0 <= i && oneof(data(pp), i, p) == oneof(data(pp), 0, p)
contract generator.makeSQLBetweenPredicate(g, cond)
  reveal vis1
  property G01 G03
  requires bound(cond.LowerBound) && bound(cond.UpperBound)
  let V = vis1(box("*postgres.BetweenConditional", cond))
  modifies g.paramSet, g.paramNum
  ensures r0 == betweenx(cond, enc(old(g.paramSet)), old(g.paramNum))
  ensures table: enc(g.paramSet) == numM(V, len(V), enc(old(g.paramSet)), old(g.paramNum))
  ensures count: g.paramNum == numN(V, len(V), enc(old(g.paramSet)), old(g.paramNum))

// ---- a list of conditions
opaque ccount(C Seq[Ifc], k Int) Int = ite(k <= 0, 0, ccount(C, k-1) + ite(isbool(C[k-1]), 0, ite(isnested(C[k-1]), ccount(data(nc(C[k-1]).Conditionals), len(nc(C[k-1]).Conditionals)), 1)))
// the slices behind IN lists
opaque sarg1(c Ifc, X Go[GO.SelectorExpr]) Seq[Go[GO.SelectorExpr]] = ite(isin(c), unit(GO.SelectorExpr{X: X, Sel: GO.Ident{fc(c).FieldName}}), ite(isnested(c), sargs(data(nc(c).Conditionals), len(nc(c).Conditionals), GO.SelectorExpr{X: X, Sel: GO.Ident{nc(c).FieldName}}), empty("Go[GO.SelectorExpr]")))
opaque sargs(C Seq[Ifc], k Int, X Go[GO.SelectorExpr]) Seq[Go[GO.SelectorExpr]] = ite(k <= 0, empty("Go[GO.SelectorExpr]"), cat(sargs(C, k-1, X), sarg1(C[k-1], X)))
// condition j of C, when n numbers and s slices come before C; X selects the fields of C
opaque cexpr(c Ifc, M Go[map[interface{}]int], n Int, s Int, X Go[GO.SelectorExpr]) Ifc = ite(isnested(c), ifc(blist(data(nc(c).Conditionals), len(nc(c).Conditionals), M, n, s, GO.SelectorExpr{X: X, Sel: GO.Ident{nc(c).FieldName}}, true)), ite(isbetween(c), ifc(betweenx(bc(c), M, n)), ite(isfield(c), fieldx1(fc(c), M, n, s), colx1(cc(c), s))))
macro cexpr_at(C Seq[Ifc], j Int, M Go[map[interface{}]int], n Int, s Int, X Go[GO.SelectorExpr]) Ifc = cexpr(C[j], numM(visits(C, j), len(visits(C, j)), M, n), numN(visits(C, j), len(visits(C, j)), M, n), s + len(sargs(C, j, X)), X)
macro item(C Seq[Ifc], j Int, x Ifc) Ifc = ite(lastbool(C, j) == analysis.BoolAnd, ifc(SQL.AND{Operand: x}), ifc(SQL.OR{Operand: x}))
opaque items(C Seq[Ifc], k Int, M Go[map[interface{}]int], n Int, s Int, X Go[GO.SelectorExpr]) Seq[Ifc] = ite(k <= 1, empty("Ifc"), ite(isbool(C[k-1]), items(C, k-1, M, n, s, X), cat(items(C, k-1, M, n, s, X), unit(item(C, k-1, cexpr_at(C, k-1, M, n, s, X))))))
rec blist(C Seq[Ifc], k Int, M Go[map[interface{}]int], n Int, s Int, X Go[GO.SelectorExpr], p Bool) Go[SQL.BoolValueExprList] = SQL.BoolValueExprList{Parenthesized: p, ListStyle: ccount(C, k) > 2, Initial: ite(k > 0, cexpr(C[0], M, n, s, X), nilifc()), Items: mk("Slc[Ifc]", len(items(C, k, M, n, s, X)) == 0, items(C, k, M, n, s, X))}
contract generator.makeSQLBoolValueExprList(g, conds, sx, parenthesized)
  opt merge
  reveal cexpr items ccount visits vis1 sargs sarg1
  property G01 G03
  requires condsok(data(conds), len(conds))
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  let A = data(old(g.inputSliceArgs))
  let C = data(conds)
  let K = len(conds)
  modifies g.paramSet, g.paramNum, g.inputSliceArgs
  ensures conditions: r0 == blist(C, K, M, n, len(A), sx, parenthesized)
  ensures counted: r1 == ccount(C, K)
  ensures table: enc(g.paramSet) == numM(visits(C, K), len(visits(C, K)), M, n)
  ensures count: g.paramNum == numN(visits(C, K), len(visits(C, K)), M, n)
  ensures slices: data(g.inputSliceArgs) == cat(A, sargs(C, K, sx))
  inv (first acc:SQL.BoolValueExpr, rest acc:[]SQL.BoolOpExpr, boolean acc:analysis.Boolean, count acc:int, i cnt): 0 <= i && i <= K && boolean == lastbool(C, i) && count == ccount(C, i)  && first == ite(i > 0, cexpr(C[0], M, n, len(A), sx), nilifc()) && data(rest) == items(C, i, M, n, len(A), sx) && isnil(rest) == (len(items(C, i, M, n, len(A), sx)) == 0) && enc(g.paramSet) == numM(visits(C, i), len(visits(C, i)), M, n) && g.paramNum == numN(visits(C, i), len(visits(C, i)), M, n) && data(g.inputSliceArgs) == cat(A, sargs(C, i, sx))

// ---- writes: the columns, their values, and the arguments that fill the placeholders
rec colnamed(D Seq[Go[analysis.ColIdent]], k Int, name Bytes) Bool = k < len(D) && (D[k].Name == name || colnamed(D, k+1, name))
contract analysis.ColIdentList.Contains(cl, cid)
  property G01
  ensures listed: r0 == (cl.All || colnamed(data(cl.Items), 0, cid.Name))
  inv (i cnt): 0 <= i && i <= len(cl.Items) && colnamed(data(cl.Items), i, cid.Name) == colnamed(data(cl.Items), 0, cid.Name)
macro usesdef(qs Go[*analysis.QueryStruct], f Go[*analysis.FieldInfo]) Bool = f.UseDefault || qs.Default != nil && (qs.Default.All || colnamed(data(qs.Default.Items), 0, f.ColIdent.Name))
macro updslice(qs Go[*analysis.QueryStruct]) Bool = qs.Kind == analysis.QueryKindUpdate && qs.Rel.Type.IsSlice
macro bykeys(qs Go[*analysis.QueryStruct]) Bool = qs.Kind == analysis.QueryKindUpdate && qs.Where == nil && qs.Filter == nil && qs.All == nil
rec wnames(W Seq[Go[*postgres.FieldWrite]], k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(wnames(W, k-1), unit(W[k-1].Column.Name)))
contract generator.buildQueryInputTargetColumns(g, qs)
  property G01
  modifies g.inputCols, g.inputColsPKeys
  ensures columns: data(g.inputCols) == cat(data(old(g.inputCols)), wnames(data(g.info.Writes), len(g.info.Writes)))
  ensures keys: data(g.inputColsPKeys) == ite(updslice(qs), cat(data(old(g.inputColsPKeys)), wnames(data(g.inputPKeys), len(g.inputPKeys))), data(old(g.inputColsPKeys)))
  inv (k cnt): 0 <= k && k <= len(g.info.Writes) && data(g.inputCols) == cat(data(old(g.inputCols)), wnames(data(g.info.Writes), k))
  inv (k cnt): 0 <= k && k <= len(g.inputPKeys) && data(g.inputColsPKeys) == cat(data(old(g.inputColsPKeys)), wnames(data(g.inputPKeys), k))

macro needsnullif(w Go[*postgres.FieldWrite]) Bool = w.Column.Relation != nil && w.Column.Relation.RelKind == "r" && !w.Column.HasNotNull && w.Field.Type.Kind != analysis.TypeKindPtr && !(w.Field.Type.IsValuer || w.Field.Type.Kind == analysis.TypeKindPtr && w.Field.Type.Elem.IsValuer) && w.Valuer == ""
macro zerolit(c Go[*postgres.Column]) Bytes = mval(gvar("oid.TypeToZeroValue"), c.Type.OID)
macro haszero(c Go[*postgres.Column]) Bool = dom(gvar("oid.TypeToZeroValue"), c.Type.OID)
macro nullif(x Ifc, lit Bytes, typ Bytes) Ifc = ifc(SQL.CastExpr{Expr: ifc(SQL.NULLIF{Value: x, Expr: ifc(SQL.Literal{lit})}), Type: typ})
macro nullifx(x Ifc, c Go[*postgres.Column]) Ifc = ite(c.Type.OID == oid.UUID, nullif(ite(is(x, "SQL.OrdinalParameterSpec"), x, ifc(SQL.CastExpr{Expr: x, Type: "text"})), "''", c.Type.NameFmt), ite(haszero(c), nullif(x, zerolit(c), c.Type.NameFmt), x))
contract generator.addNULLIFCallExpr(x, c)
  property G01
  ensures r0 == nullifx(x, c)

macro fieldp(f Go[*analysis.FieldInfo]) Ifc = box("*analysis.FieldInfo", f)
rec wM(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Go[map[interface{}]int] = ite(k <= 0, M, ite(usesdef(qs, W[k-1].Field), wM(W, k-1, qs, M, n), pset(wM(W, k-1, qs, M, n), wN(W, k-1, qs, M, n), fieldp(W[k-1].Field))))
rec wN(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Int = ite(k <= 0, n, ite(usesdef(qs, W[k-1].Field), wN(W, k-1, qs, M, n), wN(W, k-1, qs, M, n) + pnew(wM(W, k-1, qs, M, n), fieldp(W[k-1].Field))))
macro castx(x Ifc, typ Bytes) Ifc = ite(is(x, "SQL.OrdinalParameterSpec"), ifc(SQL.CastExpr{Expr: x, Type: typ}), x)
macro plainval(w Go[*postgres.FieldWrite], p Ifc) Ifc = ite(needsnullif(w), nullifx(p, w.Column), p)
macro wval(w Go[*postgres.FieldWrite], p Ifc, qs Go[*analysis.QueryStruct]) Ifc = ite(usesdef(qs, w.Field), ifc(SQL.DefaultMarker{}), ite(updslice(qs), castx(plainval(w, p), w.Column.Type.NameFmt), plainval(w, p)))
rec wvals(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(wvals(W, k-1, qs, M, n), ite(updslice(qs) && usesdef(qs, W[k-1].Field), empty("Ifc"), unit(wval(W[k-1], ifc(param(wM(W, k-1, qs, M, n), wN(W, k-1, qs, M, n), fieldp(W[k-1].Field))), qs)))))
rec ucols(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct]) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(ucols(W, k-1, qs), unit(ite(usesdef(qs, W[k-1].Field), ifc(SQL.DefaultMarker{}), ifc(SQL.ColumnIdent{Name: W[k-1].Column.Name, Qual: "x"})))))
rec kM(W Seq[Go[*postgres.FieldWrite]], k Int, M Go[map[interface{}]int], n Int) Go[map[interface{}]int] = ite(k <= 0, M, pset(kM(W, k-1, M, n), kN(W, k-1, M, n), fieldp(W[k-1].Field)))
rec kN(W Seq[Go[*postgres.FieldWrite]], k Int, M Go[map[interface{}]int], n Int) Int = ite(k <= 0, n, kN(W, k-1, M, n) + pnew(kM(W, k-1, M, n), fieldp(W[k-1].Field)))
rec kvals(W Seq[Go[*postgres.FieldWrite]], k Int, M Go[map[interface{}]int], n Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(kvals(W, k-1, M, n), unit(ifc(param(kM(W, k-1, M, n), kN(W, k-1, M, n), fieldp(W[k-1].Field))))))
contract generator.buildQueryInputTargetValues(g, qs)
  opt merge
  property G01
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  let W = data(g.info.Writes)
  let K = data(g.inputPKeys)
  let M1 = wM(W, len(W), qs, M, n)
  let n1 = wN(W, len(W), qs, M, n)
  let keyed = updslice(qs) && len(W) > 0
  let values0 = data(old(g.inputVals))
  let columns0 = data(old(g.updateCols))
  let keys0 = data(old(g.inputValsPKeys))
  modifies g.paramSet, g.paramNum, g.inputVals, g.updateCols, g.inputValsPKeys
  ensures values: data(g.inputVals) == cat(values0, wvals(W, len(W), qs, M, n))
  ensures columns: data(g.updateCols) == ite(updslice(qs), cat(columns0, ucols(W, len(W), qs)), columns0)
  ensures keys: data(g.inputValsPKeys) == ite(keyed, cat(keys0, kvals(K, len(K), M1, n1)), keys0)
  ensures table: enc(g.paramSet) == ite(keyed, kM(K, len(K), M1, n1), M1)
  ensures count: g.paramNum == ite(keyed, kN(K, len(K), M1, n1), n1)
  inv (k cnt): 0 <= k && k <= len(W) && data(g.inputVals) == cat(values0, wvals(W, k, qs, M, n)) && data(g.updateCols) == ite(updslice(qs), cat(columns0, ucols(W, k, qs)), columns0) && enc(g.paramSet) == wM(W, k, qs, M, n) && g.paramNum == wN(W, k, qs, M, n)
  inv (k cnt): 0 <= k && k <= len(K) && data(g.inputValsPKeys) == cat(keys0, kvals(K, k, M1, n1)) && enc(g.paramSet) == kM(K, k, M1, n1) && g.paramNum == kN(K, k, M1, n1)

// ---- arguments
contract generator.addimport(f, path, name)
  property G01 G02
  opt maybevacuous
  modifies f.impset, any("generator.impspec")
contract generator.addConverterCallExpr(g, x, converter)
  property G01 G02
  modifies g.file.impset, any("generator.impspec")
  ensures r0 == conv(x, converter)
rec wargs(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], X Ifc) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(wargs(W, k-1, qs, X), ite(usesdef(qs, W[k-1].Field), empty("Ifc"), unit(conv(fieldx(X, W[k-1].Field), W[k-1].Valuer)))))
contract generator.buildQueryInputSourceFields(g, qs)
  opt merge
  property G01
  let W = data(g.info.Writes)
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), wargs(W, len(W), qs, g.inputRoot))
  inv (k cnt, w src:[]*postgres.FieldWrite): 0 <= k && k <= len(W) && data(g.inputArgs) == cat(data(old(g.inputArgs)), wargs(W, k, qs, g.inputRoot))
  inv (k cnt, n src:[]*analysis.FieldSelectorNode, x acc:GO.ExprNode): 0 <= k && k <= len(n) && x == selx(g.inputRoot, data(n), k)
macro farg(c Go[*postgres.FieldConditional], X Go[GO.SelectorExpr]) Seq[Ifc] = ite(inlist(c.Predicate), empty("Ifc"), unit(conv(ifc(GO.SelectorExpr{X: X, Sel: GO.Ident{c.FieldName}}), c.Valuer)))
macro endarg(b Ifc, X Go[GO.SelectorExpr]) Seq[Ifc] = ite(isfield(b), farg(fc(b), X), empty("Ifc"))
macro inner(X Go[GO.SelectorExpr], name Bytes) Go[GO.SelectorExpr] = GO.SelectorExpr{X: X, Sel: GO.Ident{name}}
rec carg(c Ifc, X Go[GO.SelectorExpr]) Seq[Ifc] = ite(isfield(c), farg(fc(c), X), ite(isbetween(c), cat(endarg(bc(c).LowerBound, inner(X, bc(c).FieldName)), endarg(bc(c).UpperBound, inner(X, bc(c).FieldName))), ite(isnested(c), cargs(data(nc(c).Conditionals), len(nc(c).Conditionals), inner(X, nc(c).FieldName)), empty("Ifc"))))
rec cargs(C Seq[Ifc], k Int, X Go[GO.SelectorExpr]) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(cargs(C, k-1, X), carg(C[k-1], X)))
contract generator.buildQueryInputFieldConditional(g, cond, sx)
  property G01
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures data(g.inputArgs) == cat(data(old(g.inputArgs)), farg(cond, sx))
contract generator.buildQueryInputBetweenConditional(g, cond, sx)
  property G01
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures data(g.inputArgs) == cat(data(old(g.inputArgs)), carg(box("*postgres.BetweenConditional", cond), sx))
contract generator.buildQueryInputWhereConditional(g, conds, sx)
  opt merge
  property G01
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), cargs(data(conds), len(conds), sx))
  inv (k cnt): 0 <= k && k <= len(conds) && data(g.inputArgs) == cat(data(old(g.inputArgs)), cargs(data(conds), k, sx))
macro recvfield(g Go[*generator.generator], name Bytes) Go[GO.SelectorExpr] = GO.SelectorExpr{X: g.queryRecv, Sel: GO.Ident{name}}
contract generator.buildQueryInputWhereStruct(g, qs)
  property G01
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), ite(qs.Where == nil, empty("Ifc"), cargs(data(g.info.Where), len(g.info.Where), recvfield(g, qs.Where.FieldName))))
rec kargs(W Seq[Go[*postgres.FieldWrite]], k Int, X Ifc) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(kargs(W, k-1, X), unit(conv(fieldx(X, W[k-1].Field), W[k-1].Valuer))))
contract generator.buildQueryInputPKeyFields(g, qs)
  property G01
  let K = data(g.inputPKeys)
  modifies g.inputArgs, g.file.impset, any("generator.impspec")
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), ite(bykeys(qs), kargs(K, len(K), g.inputRoot), empty("Ifc")))
  inv (k cnt, w src:[]*postgres.FieldWrite): 0 <= k && k <= len(K) && data(g.inputArgs) == cat(data(old(g.inputArgs)), kargs(K, k, g.inputRoot))
  inv (k cnt, n src:[]*analysis.FieldSelectorNode, x acc:GO.ExprNode): 0 <= k && k <= len(n) && x == selx(g.inputRoot, data(n), k)
contract generator.buildQueryInputLimitField(g, qs)
  property G01
  modifies g.inputArgs
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), ite(qs.Limit != nil && len(qs.Limit.Name) > 0, unit(ifc(recvfield(g, qs.Limit.Name))), empty("Ifc")))
contract generator.buildQueryInputOffsetField(g, qs)
  property G01
  modifies g.inputArgs
  ensures arguments: data(g.inputArgs) == cat(data(old(g.inputArgs)), ite(qs.Offset != nil && len(qs.Offset.Name) > 0, unit(ifc(recvfield(g, qs.Offset.Name))), empty("Ifc")))
macro rootx(g Go[*generator.generator], qs Go[*analysis.QueryStruct]) Ifc = ite(qs.Rel.Type.IsSlice, ifc(GO.Ident{"v"}), ifc(recvfield(g, qs.Rel.FieldName)))
contract generator.buildQueryInputRoot(g, qs)
  property G01
  modifies g.inputRoot
  ensures g.inputRoot == rootx(g, qs)

// ---- clauses
macro limited(qs Go[*analysis.QueryStruct], v Ifc, M Go[map[interface{}]int], n Int) Ifc = ite(qs.Limit == nil, ite(qs.Filter == nil && !qs.Rel.Type.IsArray && !qs.Rel.Type.IsSlice && !qs.Rel.Type.IsIter, box("SQL.LimitInt", 1), v), ite(len(qs.Limit.Name) > 0, ifc(param(M, n, box("*analysis.LimitField", qs.Limit))), ite(qs.Limit.Value > 0, box("SQL.LimitUint", qs.Limit.Value), v)))
macro haslimit(qs Go[*analysis.QueryStruct]) Bool = qs.Limit != nil && len(qs.Limit.Name) > 0
macro hasoffset(qs Go[*analysis.QueryStruct]) Bool = qs.Offset != nil && len(qs.Offset.Name) > 0
contract generator.buildSQLLimitClause(g, qs)
  property G01 G03
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  modifies g.paramSet, g.paramNum, g.limitClause
  ensures limit: g.limitClause.Value == limited(qs, old(g.limitClause.Value), M, n)
  ensures count: g.paramNum == ite(haslimit(qs), n + pnew(M, box("*analysis.LimitField", qs.Limit)), n)
  ensures table: enc(g.paramSet) == ite(haslimit(qs), pset(M, n, box("*analysis.LimitField", qs.Limit)), M)
contract generator.buildSQLOffsetClause(g, qs)
  property G01 G03
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  modifies g.paramSet, g.paramNum, g.offsetClause
  ensures offset: g.offsetClause.Value == ite(hasoffset(qs), ifc(param(M, n, box("*analysis.OffsetField", qs.Offset))), ite(qs.Offset != nil && qs.Offset.Value > 0, box("SQL.OffsetUint", qs.Offset.Value), old(g.offsetClause.Value)))
  ensures count: g.paramNum == ite(hasoffset(qs), n + pnew(M, box("*analysis.OffsetField", qs.Offset)), n)
  ensures table: enc(g.paramSet) == ite(hasoffset(qs), pset(M, n, box("*analysis.OffsetField", qs.Offset)), M)
rec orders(O Seq[Go[analysis.OrderByTagItem]], k Int) Seq[Go[SQL.OrderBy]] = ite(k <= 0, empty("Go[SQL.OrderBy]"), cat(orders(O, k-1), unit(SQL.OrderBy{Column: colref(O[k-1].ColIdent), Desc: O[k-1].Direction == analysis.OrderDesc, NullsFirst: O[k-1].Nulls == analysis.NullsFirst})))
contract generator.buildSQLOrderClause(g, qs)
  property G03
  modifies g.orderClause
  ensures order: data(g.orderClause.List) == ite(qs.OrderBy == nil, data(old(g.orderClause.List)), cat(data(old(g.orderClause.List)), orders(data(qs.OrderBy.Items), len(qs.OrderBy.Items))))
  inv (k cnt): 0 <= k && k <= len(qs.OrderBy.Items) && data(g.orderClause.List) == cat(data(old(g.orderClause.List)), orders(data(qs.OrderBy.Items), k))

// the primary keys of the row to update
macro keyx(w Go[*postgres.FieldWrite], qs Go[*analysis.QueryStruct], p Ifc) Ifc = ifc(SQL.ComparisonPredicate{Cmp: SQL.EQUAL, LPredicand: colref(w.ColIdent), RPredicand: ite(qs.Rel.Type.IsSlice, ifc(SQL.CastExpr{Expr: ifc(SQL.ColumnIdent{Qual: "x", Name: w.ColIdent.Name}), Type: w.Column.Type.NameFmt}), p)})
macro keyat(P Seq[Go[*postgres.FieldWrite]], j Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Ifc = keyx(P[j], qs, ifc(param(kM(P, j, M, n), kN(P, j, M, n), fieldp(P[j].Field))))
rec keyitems(P Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Seq[Ifc] = ite(k <= 1, empty("Ifc"), cat(keyitems(P, k-1, qs, M, n), unit(ifc(SQL.AND{Operand: keyat(P, k-1, qs, M, n)}))))
rec keylist(P Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct], M Go[map[interface{}]int], n Int) Go[SQL.BoolValueExprList] = SQL.BoolValueExprList{Initial: ite(k > 0, keyat(P, 0, qs, M, n), nilifc()), Items: mk("Slc[Ifc]", len(keyitems(P, k, qs, M, n)) == 0, keyitems(P, k, qs, M, n))}
contract generator.buildSQLWhereClause(g, qs)
  property G01 G03
  requires condsok(data(g.info.Where), len(g.info.Where))
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  let P = data(g.info.PKeys)
  let C = data(g.info.Where)
  let A = data(old(g.inputSliceArgs))
  modifies g.paramSet, g.paramNum, g.inputSliceArgs, g.whereClause
  ensures keys: imp(bykeys(qs), g.whereClause.SearchCondition == ifc(keylist(P, len(P), qs, M, n)) && data(g.inputSliceArgs) == A)
  ensures conditions: imp(!bykeys(qs) && len(C) > 0, g.whereClause.SearchCondition == ifc(blist(C, len(C), M, n, len(A), recvfield(g, qs.Where.FieldName), false)) && data(g.inputSliceArgs) == cat(A, sargs(C, len(C), recvfield(g, qs.Where.FieldName))))
  ensures none: imp(!bykeys(qs) && len(C) == 0, g.whereClause.SearchCondition == old(g.whereClause.SearchCondition) && data(g.inputSliceArgs) == A)
  ensures table: enc(g.paramSet) == ite(bykeys(qs), kM(P, len(P), M, n), numM(visits(C, len(C)), len(visits(C, len(C))), M, n))
  ensures count: g.paramNum == ite(bykeys(qs), kN(P, len(P), M, n), numN(visits(C, len(C)), len(visits(C, len(C))), M, n))
  inv (k cnt, first acc:SQL.BoolValueExpr, rest acc:[]SQL.BoolOpExpr): 0 <= k && k <= len(P) && enc(g.paramSet) == kM(P, k, M, n) && g.paramNum == kN(P, k, M, n) && first == ite(k > 0, keyat(P, 0, qs, M, n), nilifc()) && data(rest) == keyitems(P, k, qs, M, n) && isnil(rest) == (len(keyitems(P, k, qs, M, n)) == 0)

// ---- statements
macro relid(id Go[analysis.RelIdent]) Go[SQL.Ident] = SQL.Ident{Name: id.Name, Qual: id.Qualifier, Alias: id.Alias}
contract generator.makeRelIdent(id)
  property G03
  ensures r0 == relid(enc(id))
macro ins(x Ifc) Go[SQL.InsertStatement] = unbox("SQL.InsertStatement", x)
macro upd(x Ifc) Go[SQL.UpdateStatement] = unbox("SQL.UpdateStatement", x)
macro itail(x Ifc) Go[SQL.InsertTail] = unbox("SQL.InsertTail", x)
contract generator.buildSQLInsertStatement(g, qs)
  property G01 G02
  post S = g.sqlMainNode
  post T = g.sqlTailNode
  let late = qs.Rel.Type.IsSlice && (len(g.outputVals) > 0 || g.onConflictClause != nil)
  modifies g.sqlMainNode, g.sqlTailNode
  ensures insert: is(S, "SQL.InsertStatement")
  ensures table: ins(S).Head.Table == relid(qs.Rel.Id)
  ensures columns: data(ins(S).Head.Columns) == data(g.inputCols)
  ensures values: data(ins(S).Head.Source.Values.Exprs) == ite(qs.Rel.Type.IsSlice, empty("Ifc"), data(g.inputVals))
  ensures override: ins(S).Head.Overriding == ite(qs.Override == nil, "", ite(qs.Override.Kind == analysis.OverridingSystem, "SYSTEM", ite(qs.Override.Kind == analysis.OverridingUser, "USER", "")))
  ensures tail: imp(!late, data(ins(S).Tail.Returning) == data(g.outputVals) && ins(S).Tail.OnConflict == g.onConflictClause && T == old(g.sqlTailNode))
  ensures later: imp(late, is(T, "SQL.InsertTail") && data(itail(T).Returning) == data(g.outputVals) && itail(T).OnConflict == g.onConflictClause && len(ins(S).Tail.Returning) == 0 && ins(S).Tail.OnConflict == nil)

rec joinexprs(J Seq[Go[SQL.TableJoin]], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(joinexprs(J, k-1), unit(ifc(J[k-1]))))
contract generator.generator.tableExprSlice(g)
  property G03
  ensures joins: data(r0) == joinexprs(data(g.tableJoinSlice), len(g.tableJoinSlice))
  inv (k cnt, s acc:[]SQL.TableExpr): 0 <= k && k <= len(g.tableJoinSlice) && len(s) == len(g.tableJoinSlice) && sub(data(s), 0, k) == joinexprs(data(g.tableJoinSlice), k) && len(joinexprs(data(g.tableJoinSlice), k)) == k
macro fromlist(qs Go[*analysis.QueryStruct], J Seq[Go[SQL.TableJoin]]) Seq[Ifc] = ite(qs.Join == nil, empty("Ifc"), cat(unit(ifc(relid(qs.Join.Relation.RelIdent))), joinexprs(J, len(J))))
macro nodes(T Ifc) Seq[Ifc] = data(unbox("SQL.NodeList", T))
// the columns of the VALUES list of an UPDATE of a slice: those that get a value from it
rec vnames(W Seq[Go[*postgres.FieldWrite]], k Int, qs Go[*analysis.QueryStruct]) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(vnames(W, k-1, qs), ite(usesdef(qs, W[k-1].Field), empty("Bytes"), unit(W[k-1].Column.Name))))
contract generator.buildSQLUpdateStatement(g, qs)
  property G01 G02 G03
  requires qs.Kind == analysis.QueryKindUpdate
  let W = data(g.info.Writes)
  let J = data(g.tableJoinSlice)
  let late = qs.Filter != nil && len(g.outputVals) > 0
  post S = g.sqlMainNode
  post T = g.sqlTailNode
  modifies g.sqlMainNode, g.sqlTailNode
  ensures update: is(S, "SQL.UpdateStatement")
  ensures table: upd(S).Head.Table == relid(qs.Rel.Id)
  ensures targets: data(upd(S).Head.Set.Targets) == data(g.inputCols)
  ensures values: data(upd(S).Head.Set.Values.Exprs) == ite(qs.Rel.Type.IsSlice, data(g.updateCols), data(g.inputVals))
  ensures from: data(upd(S).Head.From.List) == ite(qs.Rel.Type.IsSlice, cat(fromlist(qs, J), unit(ifc(SQL.ValuesListClausePartial{}))), fromlist(qs, J))
  ensures tail: imp(!qs.Rel.Type.IsSlice && !late, upd(S).Tail.Where == g.whereClause && data(upd(S).Tail.Returning) == data(g.outputVals))
  ensures later: imp(!qs.Rel.Type.IsSlice && late, is(T, "SQL.UpdateTail") && data(unbox("SQL.UpdateTail", T).Returning) == data(g.outputVals) && unbox("SQL.UpdateTail", T).Where.SearchCondition == nilifc())
  ensures values_alias: imp(qs.Rel.Type.IsSlice, is(T, "SQL.NodeList") && len(nodes(T)) == 2 && is(nodes(T)[0], "SQL.ValuesListAliasPartial") && unbox("SQL.ValuesListAliasPartial", nodes(T)[0]).Alias == "x" && data(unbox("SQL.ValuesListAliasPartial", nodes(T)[0]).Columns) == cat(vnames(W, len(W), qs), data(g.inputColsPKeys)))
  ensures slice_tail: imp(qs.Rel.Type.IsSlice, is(nodes(T)[1], "SQL.UpdateTail") && unbox("SQL.UpdateTail", nodes(T)[1]).Where == g.whereClause && data(unbox("SQL.UpdateTail", nodes(T)[1]).Returning) == data(g.outputVals))
  inv (k cnt, c acc:SQL.NameGroup): 0 <= k && k <= len(W) && data(c) == vnames(W, k, qs)
macro slct(x Ifc) Go[SQL.SelectStatement] = unbox("SQL.SelectStatement", x)
contract generator.buildSQLSelectStatement(g, qs)
  property G02 G03
  post S = g.sqlMainNode
  modifies g.sqlMainNode
  ensures select: is(S, "SQL.SelectStatement")
  ensures columns: is(slct(S).Columns, "SQL.ValueExprList") && data(unbox("SQL.ValueExprList", slct(S).Columns)) == data(g.outputVals)
  ensures table: slct(S).Table == relid(qs.Rel.Id)
  ensures joins: data(slct(S).Join.List) == ite(qs.Join == nil, empty("Go[SQL.TableJoin]"), data(g.tableJoinSlice))
  ensures where: slct(S).Where == g.whereClause
  ensures order: slct(S).Order == g.orderClause
  ensures limit: slct(S).Limit == g.limitClause
  ensures offset: slct(S).Offset == g.offsetClause
macro del(x Ifc) Go[SQL.DeleteStatement] = unbox("SQL.DeleteStatement", x)
contract generator.buildSQLDeleteStatement(g, qs)
  property G02 G03
  post S = g.sqlMainNode
  let late = qs.Filter != nil && len(g.outputVals) > 0
  post T = g.sqlTailNode
  modifies g.sqlMainNode, g.sqlTailNode
  ensures delete: is(S, "SQL.DeleteStatement")
  ensures table: del(S).Table == relid(qs.Rel.Id)
  ensures using: data(del(S).Using.List) == fromlist(qs, data(g.tableJoinSlice))
  ensures where: del(S).Where == g.whereClause
  ensures returning: imp(!late, data(del(S).Returning) == data(g.outputVals) && T == old(g.sqlTailNode))
  ensures later: imp(late, len(del(S).Returning) == 0 && is(T, "SQL.ReturningClause") && data(unbox("SQL.ReturningClause", T)) == data(g.outputVals))
macro cnt(x Ifc) Go[SQL.SelectCountStatement] = unbox("SQL.SelectCountStatement", x)
contract generator.buildSQLSelectCountStatement(g, qs)
  property G03
  post S = g.sqlMainNode
  modifies g.sqlMainNode
  ensures count: is(S, "SQL.SelectCountStatement")
  ensures table: cnt(S).Table == relid(qs.Rel.Id)
  ensures joins: data(cnt(S).Join.List) == ite(qs.Join == nil, empty("Go[SQL.TableJoin]"), data(g.tableJoinSlice))
  ensures clauses: imp(qs.Filter == nil, cnt(S).Where == g.whereClause && cnt(S).Order == g.orderClause && cnt(S).Offset == g.offsetClause)
  ensures limit: imp(qs.Filter == nil && qs.Limit != nil, cnt(S).Limit == g.limitClause)
macro exi(x Ifc) Go[SQL.SelectExistsStatement] = unbox("SQL.SelectExistsStatement", x)
contract generator.buildSQLSelectExistsStatement(g, qs)
  property G03
  post S = g.sqlMainNode
  modifies g.sqlMainNode, g.closeFilter
  ensures exists: is(S, "SQL.SelectExistsStatement")
  ensures table: exi(S).Table == relid(qs.Rel.Id)
  ensures negated: exi(S).Not == (qs.Kind == analysis.QueryKindSelectNotExists)
  ensures joins: data(exi(S).Join.List) == ite(qs.Join == nil, empty("Go[SQL.TableJoin]"), data(g.tableJoinSlice))
  ensures clauses: imp(qs.Filter == nil, exi(S).Where == g.whereClause && exi(S).Order == g.orderClause && exi(S).Limit == g.limitClause && exi(S).Offset == g.offsetClause && !exi(S).Open && g.closeFilter == old(g.closeFilter))
  ensures open: imp(qs.Filter != nil, exi(S).Open && g.closeFilter)

// ---- joins
macro joincond(c Ifc) Bool = isbool(c) || iscol(c)
rec joinconds(C Seq[Ifc], k Int) Bool = k <= 0 || joinconds(C, k-1) && joincond(C[k-1])
lemma join_novisits(C Seq[Ifc], k Int) : visits(C, k) => imp(joinconds(C, k), visits(C, k) == empty("Ifc"))
  reveal visits vis1
  by up k
lemma join_nosargs(C Seq[Ifc], k Int, X Go[GO.SelectorExpr]) : sargs(C, k, X) => imp(joinconds(C, k), sargs(C, k, X) == empty("Go[GO.SelectorExpr]"))
  reveal sargs sarg1
  by up k
macro jtype(j Int) Bytes = ite(j == analysis.JoinTypeLeft, SQL.JoinLeft, ite(j == analysis.JoinTypeRight, SQL.JoinRight, ite(j == analysis.JoinTypeFull, SQL.JoinFull, ite(j == analysis.JoinTypeCross, SQL.JoinCross, SQL.JoinInner))))
macro joinx(d Go[*analysis.JoinDirective], C Seq[Ifc], M Go[map[interface{}]int], n Int, s Int) Go[SQL.TableJoin] = SQL.TableJoin{Type: jtype(d.JoinType), Rel: relid(d.RelIdent), Cond: SQL.JoinCondition{SearchCondition: ifc(SQL.BoolValueExprList{Initial: ite(len(C) > 0, cexpr(C[0], M, n, s, zero("GO.SelectorExpr")), nilifc()), Items: mk("Slc[Ifc]", len(items(C, len(C), M, n, s, zero("GO.SelectorExpr"))) == 0, items(C, len(C), M, n, s, zero("GO.SelectorExpr")))})}}
rec joinsok(J Seq[Go[[]postgres.TableJoinConditional]], D Seq[Go[*analysis.JoinDirective]], k Int) Bool = k <= 0 || joinsok(J, D, k-1) && condsok(data(J[k-1]), len(J[k-1])) && joinconds(data(J[k-1]), len(J[k-1])) && (D[k-1].JoinType == analysis.JoinTypeInner || D[k-1].JoinType == analysis.JoinTypeLeft || D[k-1].JoinType == analysis.JoinTypeRight || D[k-1].JoinType == analysis.JoinTypeFull || D[k-1].JoinType == analysis.JoinTypeCross)
lemma joinsok_at(J Seq[Go[[]postgres.TableJoinConditional]], D Seq[Go[*analysis.JoinDirective]], n Int, j Int) : joinsok(J, D, n), J[j] => imp(0 <= j && j < n && joinsok(J, D, n), condsok(data(J[j]), len(J[j])) && joinconds(data(J[j]), len(J[j])) && (D[j].JoinType == analysis.JoinTypeInner || D[j].JoinType == analysis.JoinTypeLeft || D[j].JoinType == analysis.JoinTypeRight || D[j].JoinType == analysis.JoinTypeFull || D[j].JoinType == analysis.JoinTypeCross))
  by up n
rec joinlist(J Seq[Go[[]postgres.TableJoinConditional]], D Seq[Go[*analysis.JoinDirective]], k Int, M Go[map[interface{}]int], n Int, s Int) Seq[Go[SQL.TableJoin]] = ite(k <= 0, empty("Go[SQL.TableJoin]"), cat(joinlist(J, D, k-1, M, n, s), unit(joinx(D[k-1], data(J[k-1]), M, n, s))))
contract generator.buildSQLTableJoinSlice(g, qs)
  opt merge
  property G03
  requires imp(qs.Join != nil, len(g.info.Joins) == len(qs.Join.Directives) && joinsok(data(g.info.Joins), data(qs.Join.Directives), len(g.info.Joins)))
  let M = enc(old(g.paramSet))
  let n = old(g.paramNum)
  let A = data(old(g.inputSliceArgs))
  modifies g.paramSet, g.paramNum, g.inputSliceArgs, g.tableJoinSlice
  ensures joins: data(g.tableJoinSlice) == ite(qs.Join == nil, data(old(g.tableJoinSlice)), cat(data(old(g.tableJoinSlice)), joinlist(data(g.info.Joins), data(qs.Join.Directives), len(g.info.Joins), M, n, len(A))))
  ensures numbers: enc(g.paramSet) == M && g.paramNum == n && data(g.inputSliceArgs) == A
  inv (k cnt, d src:[]*analysis.JoinDirective): 0 <= k && k <= len(g.info.Joins) && data(g.tableJoinSlice) == cat(data(old(g.tableJoinSlice)), joinlist(data(g.info.Joins), data(qs.Join.Directives), k, M, n, len(A))) && enc(g.paramSet) == M && g.paramNum == n && data(g.inputSliceArgs) == A
  inv (j cnt, c acc:[]postgres.WhereConditional, s src:[]postgres.TableJoinConditional): 0 <= j && j <= len(s) && len(c) == len(s) && sub(data(c), 0, j) == sub(data(s), 0, j)

// ---- ON CONFLICT
rec colnames(D Seq[Go[*postgres.Column]], k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(colnames(D, k-1), unit(D[k-1].Name)))
macro isindex(c Ifc) Bool = is(c, "*postgres.ConflictIndex")
macro isconstraint(c Ifc) Bool = is(c, "*postgres.ConflictConstraint")
contract generator.buildSQLOnConflictClause(g, qs)
  property G03
  let F = g.info.Conflict
  let on = qs.Kind == analysis.QueryKindInsert && F != nil
  post R = g.onConflictClause
  modifies g.onConflictClause
  ensures none: imp(!on, R == old(g.onConflictClause))
  ensures made: imp(on, R != nil)
  ensures index: imp(on && isindex(F.Target), R.Target == ifc(SQL.ConflictIndex{Expr: unbox("*postgres.ConflictIndex", F.Target).Expression, Pred: unbox("*postgres.ConflictIndex", F.Target).Predicate}))
  ensures constraint: imp(on && isconstraint(F.Target), R.Target == box("SQL.ConflictConstraint", unbox("*postgres.ConflictConstraint", F.Target).Name))
  ensures anywhere: imp(on && !isindex(F.Target) && !isconstraint(F.Target), R.Target == nilifc())
  ensures nothing: imp(on && len(F.Update) == 0, R.Action == nil)
  ensures update: imp(on && len(F.Update) > 0, R.Action != nil && data(R.Action.Update.Columns) == colnames(data(F.Update), len(F.Update)))
  inv (k cnt, c acc:[]SQL.Name): 0 <= k && k <= len(F.Update) && data(c) == colnames(data(F.Update), k)

// ---- reads: the columns selected and the places they are scanned into
macro coalesce(a Ifc, b Ifc) Ifc = ifc(SQL.Coalesce{A: a, B: b})
macro coalescex(x Ifc, val Bytes, c Go[*postgres.Column]) Ifc = ite(len(val) > 0, coalesce(x, ifc(SQL.CastExpr{Expr: ifc(SQL.Literal{val}), Type: c.Type.NameFmt})), ite(c.Type.OID == oid.UUID, coalesce(ifc(SQL.CastExpr{Expr: x, Type: "text"}), ifc(SQL.Literal{"''"})), ite(haszero(c), coalesce(x, ifc(SQL.CastExpr{Expr: ifc(SQL.Literal{zerolit(c)}), Type: c.Type.NameFmt})), x)))
contract generator.addCoalesceCallExpr(x, val, c)
  property G02
  ensures r0 == coalescex(x, val, c)
macro needscoalesce(r Go[*postgres.FieldRead]) Bool = r.Field.UseCoalesce || r.Column.Relation != nil && r.Column.Relation.RelKind == "r" && !r.Column.HasNotNull && r.Field.Type.Kind != analysis.TypeKindPtr && !(r.Field.Type.IsScanner && r.Field.Type.Kind != analysis.TypeKindInterface || r.Field.Type.Kind == analysis.TypeKindPtr && r.Field.Type.Elem.IsScanner && r.Field.Type.Elem.Kind != analysis.TypeKindInterface) && r.Scanner == ""
macro outcol(r Go[*postgres.FieldRead]) Ifc = ite(needscoalesce(r), coalescex(ifc(colref(r.ColIdent)), r.Field.CoalesceValue, r.Column), ifc(colref(r.ColIdent)))
rec outcols(R Seq[Go[*postgres.FieldRead]], k Int) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(outcols(R, k-1), unit(outcol(R[k-1]))))
contract generator.buildQueryOutputSourceColumns(g, qs)
  property G02
  let R = data(g.info.Reads)
  modifies g.outputVals
  ensures columns: data(g.outputVals) == cat(data(old(g.outputVals)), outcols(R, len(R)))
  inv (k cnt): 0 <= k && k <= len(R) && data(g.outputVals) == cat(data(old(g.outputVals)), outcols(R, k))
macro amp(x Ifc) Ifc = ifc(GO.UnaryExpr{Op: GO.UnaryAmp, X: x})
macro isscalar(qs Go[*analysis.QueryStruct]) Bool = qs.Kind == analysis.QueryKindSelectCount || qs.Kind == analysis.QueryKindSelectExists || qs.Kind == analysis.QueryKindSelectNotExists
rec outargs(R Seq[Go[*postgres.FieldRead]], k Int, X Ifc) Seq[Ifc] = ite(k <= 0, empty("Ifc"), cat(outargs(R, k-1, X), unit(conv(amp(fieldx(X, R[k-1].Field)), R[k-1].Scanner))))
contract generator.buildQueryOutputTargetFields(g, qs)
  opt merge
  property G02
  let R = data(g.info.Reads)
  modifies g.outputArgs, g.file.impset, any("generator.impspec")
  ensures scalar: imp(isscalar(qs), data(g.outputArgs) == cat(data(old(g.outputArgs)), unit(amp(g.outputRoot))))
  ensures fields: imp(!isscalar(qs), data(g.outputArgs) == cat(data(old(g.outputArgs)), outargs(R, len(R), g.outputVar)))
  inv (k cnt, w src:[]*postgres.FieldRead): 0 <= k && k <= len(R) && data(g.outputArgs) == cat(data(old(g.outputArgs)), outargs(R, k, g.outputVar))
  inv (k cnt, n src:[]*analysis.FieldSelectorNode, x acc:GO.ExprNode): 0 <= k && k <= len(n) && x == selx(g.outputVar, data(n), k)
lemma outcols_len(R Seq[Go[*postgres.FieldRead]], k Int) : len(outcols(R, k)) => imp(0 <= k, len(outcols(R, k)) == k)
  by up k
lemma outcols_at(R Seq[Go[*postgres.FieldRead]], n Int, j Int) : outcols(R, n), R[j] => imp(0 <= j && j < n, outcols(R, n)[j] == outcol(R[j]))
  property G02
  by up n
  hint len(outcols(R, n-1))
lemma outargs_len(R Seq[Go[*postgres.FieldRead]], k Int, X Ifc) : len(outargs(R, k, X)) => imp(0 <= k, len(outargs(R, k, X)) == k)
  by up k
lemma outargs_at(R Seq[Go[*postgres.FieldRead]], n Int, j Int, X Ifc) : outargs(R, n, X), R[j] => imp(0 <= j && j < n, outargs(R, n, X)[j] == conv(amp(fieldx(X, R[j].Field)), R[j].Scanner))
  property G02
  by up n
  hint len(outargs(R, n-1, X))

// ---- the primary keys that take an argument of their own: those not already written
rec written(W Seq[Go[*postgres.FieldWrite]], k Int, f Go[*analysis.FieldInfo]) Bool = k > 0 && (written(W, k-1, f) || W[k-1].Field == f)
macro argued(t Go[*postgres.TargetInfo], f Go[*analysis.FieldInfo]) Bool = !is(t.Struct, "*analysis.QueryStruct") || unbox("*analysis.QueryStruct", t.Struct) == nil || !usesdef(unbox("*analysis.QueryStruct", t.Struct), f)
macro elided(W Seq[Go[*postgres.FieldWrite]], t Go[*postgres.TargetInfo], f Go[*analysis.FieldInfo]) Bool = written(W, len(W), f) && argued(t, f)
rec ownkeys(P Seq[Go[*postgres.FieldWrite]], k Int, W Seq[Go[*postgres.FieldWrite]], t Go[*postgres.TargetInfo]) Seq[Go[*postgres.FieldWrite]] = ite(k <= 0, empty("Go[*postgres.FieldWrite]"), cat(ownkeys(P, k-1, W, t), ite(elided(W, t, P[k-1].Field), empty("Go[*postgres.FieldWrite]"), unit(P[k-1]))))
contract generator.inputPKeys(t)
  property G01
  let P = data(t.PKeys)
  let W = data(t.Writes)
  ensures keys: data(r0) == ownkeys(P, len(P), W, t)
  inv (k cnt, o acc:[]*postgres.FieldWrite): 0 <= k && k <= len(P) && data(o) == ownkeys(P, k, W, t)
  inv (k cnt, e acc:bool, i src:int): 0 <= k && k <= len(W) && e == (written(W, k, P[i].Field) && argued(t, P[i].Field))
