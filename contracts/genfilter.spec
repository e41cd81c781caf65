use std.spec
package ./internal/generator
package ./internal/analysis
package ./internal/postgres
package ./internal/postgres/oid
package ./internal/config
noinit SQL
noinit GO
noinit analysis
noinit postgres
noinit config
noinit oid

// Functions below have no contract: a search over random filters reads the code Write
// generates and stands in for them.
bounded G04 generator.addimport, importType, newImportDecl, analysis.TypeInfo.Literal, and the printing by github.com/frk/ast

// ---- names of columns
macro plainid(q Bytes, n Bytes) Bytes = ite(len(q) > 0, cat(q, ".", n), n)
macro quotedid(q Bytes, n Bytes) Bytes = ite(len(q) > 0, cat(q, ".\"", n, "\""), cat("\"", n, "\""))
contract generator.fmtColIdent(id)
  property G04
  ensures text: r0 == plainid(id.Qualifier, id.Name)
contract generator.fmtColIdentQuoted(id)
  property G04
  ensures text: r0 == quotedid(id.Qualifier, id.Name)

// a generator writes every column through its formatter
func coltext(Bytes, Bytes) Bytes
functype func(github.com/frk/gosql/internal/analysis.ColIdent) string(f, id)
  ensures r0 == coltext(id.Qualifier, id.Name)

macro recv(fs Go[*analysis.FilterStruct]) Ifc = ifc(GO.PointerRecvType{fs.TypeName})
macro ctor(fs Go[*analysis.FilterStruct], m Bytes) Go[GO.SelectorExpr] = GO.SelectorExpr{X: GO.SelectorExpr{X: GO.Ident{"f"}, Sel: GO.Ident{fs.FilterConstructor.Name}}, Sel: GO.Ident{m}}
macro stmt(x Ifc) Ifc = ifc(GO.ExprStmt{x})
contract generator.buildFilterMethodInit(g, fs, mapid)
  property G04
  modifies g.file.Decls
  ensures init: data(g.file.Decls) == cat(data(old(g.file.Decls)), unit(ifc(GO.MethodDecl{
    Recv: GO.RecvParam{Name: GO.Ident{"f"}, Type: recv(fs)}, Name: GO.Ident{"Init"},
    Body: GO.BlockStmt{[]GO.StmtNode{stmt(ifc(GO.CallExpr{Fun: ctor(fs, ite(fs.FilterConstructor != nil && fs.FilterConstructor.IsV2, "InitV2", "Init")), Args: GO.ArgsList{List: GO.ExprList{mapid, ite(fs.TextSearch != nil, box("GO.RawStringLit", coltext(fs.TextSearch.ColIdent.Qualifier, fs.TextSearch.ColIdent.Name)), box("GO.StringLit", ""))}}}))}}})))
contract generator.buildFilterMethodBoolOp(g, fs, name)
  property G04
  modifies g.file.Decls
  ensures method: data(g.file.Decls) == cat(data(old(g.file.Decls)), unit(ifc(GO.MethodDecl{
    Recv: GO.RecvParam{Name: GO.Ident{"f"}, Type: recv(fs)}, Name: GO.Ident{name},
    Type: GO.Signature{Params: GO.ParamList{GO.Param{Names: GO.Ident{"nest"}, Type: GO.FuncType{Params: GO.ParamList{GO.Param{Type: recv(fs)}}}}}, Results: GO.ParamList{GO.Param{Type: recv(fs)}}},
    Body: GO.BlockStmt{[]GO.StmtNode{
      GO.IfStmt{Cond: GO.BinaryExpr{X: GO.Ident{"nest"}, Op: GO.BinaryEql, Y: GO.Ident{"nil"}}, Body: GO.BlockStmt{[]GO.StmtNode{GO.ExprStmt{GO.CallExpr{Fun: ctor(fs, name), Args: GO.ArgsList{List: GO.Ident{"nil"}}}}, GO.ReturnStmt{GO.Ident{"f"}}}}},
      GO.ExprStmt{GO.CallExpr{Fun: ctor(fs, name), Args: GO.ArgsList{List: GO.ExprList{GO.FuncLit{Body: GO.BlockStmt{[]GO.StmtNode{GO.ExprStmt{GO.CallExpr{Fun: GO.Ident{"nest"}, Args: GO.ArgsList{List: GO.Ident{"f"}}}}}}}}}}},
      GO.ReturnStmt{GO.Ident{"f"}}}}})))

// ---- one method per field
contract generator.addimport(f, path, name)
  property G04
  opt maybevacuous
  modifies f.impset, any("generator.impspec")
contract generator.importType(f, t)
  property G04
  ensures type: r0.Name == t.Name && r0.Kind == t.Kind && r0.ArrayLen == t.ArrayLen && r0.IsByte == t.IsByte && r0.IsRune == t.IsRune
  ensures local: imp(len(t.Name) > 0 && !t.IsImported, r0.PkgName == "")
  modifies f.impset, any("generator.impspec")
extern analysis.TypeInfo.Literal(t)
rec snames(S Seq[Go[*analysis.FieldSelectorNode]], k Int) Bytes = ite(k <= 0, "", cat(snames(S, k-1), S[k-1].Name))
rec mname(ff Go[*postgres.FieldFilter]) Bytes = cat(snames(data(ff.Field.Selector), len(ff.Field.Selector)), ff.Field.Name)
rec reserved(n Bytes) Bool = n == "UnmarshalFQL" || n == "UnmarshalSort" || n == "TextSearch" || n == "AND" || n == "OR"
rec kept(F Seq[Go[*postgres.FieldFilter]], k Int) Int = ite(k <= 0, 0, kept(F, k-1) + ite(reserved(mname(F[k-1])), 0, 1))
// the method of a field, but for the text of the type of its value
rec fmethod(fs Go[*analysis.FilterStruct], ff Go[*postgres.FieldFilter], typ Ifc) Ifc = ifc(GO.MethodDecl{
    Recv: GO.RecvParam{Name: GO.Ident{"f"}, Type: recv(fs)}, Name: GO.Ident{mname(ff)},
    Type: GO.Signature{Params: GO.ParamList{GO.Param{Names: GO.Ident{"op"}, Type: GO.Ident{"string"}}, GO.Param{Names: GO.Ident{"val"}, Type: typ}}, Results: GO.ParamList{GO.Param{Type: GO.PointerType{GO.Ident{fs.TypeName}}}}},
    Body: GO.BlockStmt{[]GO.StmtNode{
      GO.ExprStmt{GO.CallExpr{Fun: ctor(fs, "Col"), Args: GO.ArgsList{List: GO.ExprList{box("GO.RawStringLit", coltext(ff.ColIdent.Qualifier, ff.ColIdent.Name)), GO.Ident{"op"}, GO.Ident{"val"}}}}},
      GO.ReturnStmt{GO.Ident{"f"}}}}})
macro ptype(d Ifc) Ifc = data(unbox("GO.MethodDecl", d).Type.Params)[1].Type
rec methods(D Seq[Ifc], b Int, F Seq[Go[*postgres.FieldFilter]], k Int, fs Go[*analysis.FilterStruct]) Bool = k <= 0 || methods(D, b, F, k-1, fs) && (reserved(mname(F[k-1])) || D[b+kept(F, k-1)] == fmethod(fs, F[k-1], ptype(D[b+kept(F, k-1)])))
lemma kept_up(F Seq[Go[*postgres.FieldFilter]], k Int) : kept(F, k) => imp(0 <= k, 0 <= kept(F, k))
  by up k
lemma methods_cat(D Seq[Ifc], X Seq[Ifc], b Int, F Seq[Go[*postgres.FieldFilter]], k Int, fs Go[*analysis.FilterStruct]) : methods(cat(D, X), b, F, k, fs) => imp(0 <= k && 0 <= b && b+kept(F, k) <= len(D), methods(cat(D, X), b, F, k, fs) == methods(D, b, F, k, fs))
  by up k
contract generator.buildFilterMethodsForColumns(g, fs, mapid)
  property G04
  modifies g.file.Decls, g.file.impset, any("generator.impspec")
  let F = data(g.info.Filters)
  let D0 = data(old(g.file.Decls))
  ensures count: len(g.file.Decls) == len(D0) + kept(F, len(F))
  ensures others: sub(data(g.file.Decls), 0, len(D0)) == D0
  ensures methods: methods(data(g.file.Decls), len(D0), F, len(F), fs)
  inv (k cnt): 0 <= k && k <= len(F) && len(g.file.Decls) == len(D0) + kept(F, k) && sub(data(g.file.Decls), 0, len(D0)) == D0 && methods(data(g.file.Decls), len(D0), F, k, fs)
  inv (k cnt, n src:[]*analysis.FieldSelectorNode, m acc:string): 0 <= k && k <= len(n) && m == snames(data(n), k)

// ---- the column map: the first field of a key has it
rec keyset(F Seq[Go[*postgres.FieldFilter]], k Int) Go[map[string]struct{}] = ite(k <= 0, made("map[string]struct{}"), ite(F[k-1].Field.FilterColumnKey == "" || dom(keyset(F, k-1), F[k-1].Field.FilterColumnKey), keyset(F, k-1), mput(keyset(F, k-1), F[k-1].Field.FilterColumnKey, zero("struct{}"))))
rec mapped(F Seq[Go[*postgres.FieldFilter]], k Int) Bool = F[k].Field.FilterColumnKey != "" && !dom(keyset(F, k), F[k].Field.FilterColumnKey)
rec nmapped(F Seq[Go[*postgres.FieldFilter]], k Int) Int = ite(k <= 0, 0, nmapped(F, k-1) + ite(mapped(F, k-1), 1, 0))
macro convkey(ff Go[*postgres.FieldFilter]) Bytes = cat(ff.Field.Type.PkgPath, ".", ff.Field.Type.Name)
macro convid(ff Go[*postgres.FieldFilter]) Go[*analysis.Identifier] = ite(dom(gvar("analysis.filterValueConverters"), convkey(ff)), mval(gvar("analysis.filterValueConverters"), convkey(ff)), 0)
macro rawcol(ff Go[*postgres.FieldFilter]) Ifc = box("GO.RawStringLit", coltext(ff.ColIdent.Qualifier, ff.ColIdent.Name))
macro notnull(ff Go[*postgres.FieldFilter]) Bool = mod(div(ff.Field.Mode, 16), 2) == 1 || ff.Column.HasNotNull
// the fields of a Column; q is the name under which the converter's package is imported
rec cfields(ff Go[*postgres.FieldFilter], pk Bytes, q Bytes) Seq[Go[GO.FieldElement]] = cat(unit(GO.FieldElement{Field: "Name", Value: rawcol(ff)}),
  ite(convid(ff) != 0, unit(GO.FieldElement{Field: "ConvertValue", Value: ite(convid(ff).PkgPath != pk, ifc(GO.QualifiedIdent{q, convid(ff).Name}), ifc(GO.Ident{convid(ff).Name}))}), empty("Go[GO.FieldElement]")),
  ite(notnull(ff), empty("Go[GO.FieldElement]"), unit(GO.FieldElement{Field: "IsNULLable", Value: GO.Ident{"true"}})))
rec kelem(ff Go[*postgres.FieldFilter], v2 Bool, pk Bytes, q Bytes) Go[GO.KeyElement] = GO.KeyElement{Key: box("GO.StringLit", ff.Field.FilterColumnKey), Value: ite(v2, ifc(GO.StructLit{Elems: mk("Slc[Go[GO.FieldElement]]", false, cfields(ff, pk, q)), Compact: true}), rawcol(ff))}
macro convpkg(e Go[GO.KeyElement]) Bytes = unbox("GO.QualifiedIdent", data(unbox("GO.StructLit", e.Value).Elems)[1].Value).Package
rec kelems(E Seq[Go[GO.KeyElement]], F Seq[Go[*postgres.FieldFilter]], k Int, v2 Bool, pk Bytes) Bool = k <= 0 || kelems(E, F, k-1, v2, pk) && (!mapped(F, k-1) || E[nmapped(F, k-1)] == kelem(F[k-1], v2, pk, convpkg(E[nmapped(F, k-1)])))
lemma nmapped_up(F Seq[Go[*postgres.FieldFilter]], k Int) : nmapped(F, k) => imp(0 <= k, 0 <= nmapped(F, k))
  by up k
lemma kelems_cat(E Seq[Go[GO.KeyElement]], X Seq[Go[GO.KeyElement]], F Seq[Go[*postgres.FieldFilter]], k Int, v2 Bool, pk Bytes) : kelems(cat(E, X), F, k, v2, pk) => imp(0 <= k && nmapped(F, k) <= len(E), kelems(cat(E, X), F, k, v2, pk) == kelems(E, F, k, v2, pk))
  by up k
contract generator.buildFilterColumnMap(g, fs)
  opt merge
  property G04
  modifies g.file.Decls, g.file.impset, any("generator.impspec")
  let F = data(g.info.Filters)
  let D0 = data(old(g.file.Decls))
  let v2 = fs.FilterConstructor != nil && fs.FilterConstructor.IsV2
  let pk = g.info.Info.PkgPath
  ensures name: r0 == GO.Ident{cat("_", fs.TypeName, "_colmap")}
  ensures others: len(g.file.Decls) == len(D0)+1 && sub(data(g.file.Decls), 0, len(D0)) == D0
  ensures named: unbox("GO.ValueSpec", unbox("GO.VarDecl", data(g.file.Decls)[len(D0)]).Spec).Names == ifc(r0)
  ensures elements: len(unbox("GO.MapLit", unbox("GO.ValueSpec", unbox("GO.VarDecl", data(g.file.Decls)[len(D0)]).Spec).Values).Elems) == nmapped(F, len(F)) && kelems(data(unbox("GO.MapLit", unbox("GO.ValueSpec", unbox("GO.VarDecl", data(g.file.Decls)[len(D0)]).Spec).Values).Elems), F, len(F), v2, pk)
  inv (k cnt, e acc:[]GO.KeyElement, m acc:map[string]struct{}): 0 <= k && k <= len(F) && enc(m) == keyset(F, k) && len(e) == nmapped(F, k) && kelems(data(e), F, k, v2, pk)
