use std.spec
package ./internal/analysis
noinit analysis

// Functions below have no contract: a search over random tags against an independent
// reading of the documented syntax stands in for them.
bounded A01 analysis.parseFieldMode, parsePredicateExpr, parseFilterColumnKey, parseCoalesceInfo, and the regular expressions of identifiers

// ---- identifiers of relations and columns
func rxmatch(Int, Bytes) Bool
extern regexp.Regexp.MatchString(re, s)
  ensures r0 == rxmatch(re, s)
macro isrel(s Bytes) Bool = rxmatch(gvar("analysis.rxRelIdent"), s)
macro iscol(s Bytes) Bool = rxmatch(gvar("analysis.rxColIdent"), s) && !rxmatch(gvar("analysis.rxReserved"), s)
macro after(s Bytes, c Int) Bytes = sub(s, lastidx(s, c)+1, len(s))
macro before(s Bytes, c Int) Bytes = ite(lastidx(s, c) > -1, sub(s, 0, lastidx(s, c)), "")
contract analysis.parseRelIdent(val)
  property A01
  ensures accepted: (r1 == 0) == isrel(val)
  ensures qualifier: imp(r1 == 0, r0.Qualifier == before(val, 46))
  ensures name: imp(r1 == 0, r0.Name == ite(lastidx(after(val, 46), 58) > -1, before(after(val, 46), 58), after(val, 46)))
  ensures alias: imp(r1 == 0, r0.Alias == ite(lastidx(after(val, 46), 58) > -1, after(after(val, 46), 58), ""))
macro okcol(a Go[*analysis.analysis], s Bytes) Bool = iscol(s) && (lastidx(s, 46) == -1 || dom(a.info.RelSpace, before(s, 46)))
macro colid(s Bytes) Go[analysis.ColIdent] = analysis.ColIdent{Qualifier: before(s, 46), Name: after(s, 46)}
contract analysis.parseColIdent(a, val)
  property A01
  ensures accepted: (r1 == 0) == okcol(a, val)
  ensures parts: imp(r1 == 0, r0 == colid(val))
rec okcols(a Go[*analysis.analysis], S Seq[Bytes], k Int) Bool = k >= len(S) || okcol(a, S[k]) && okcols(a, S, k+1)
rec colids(S Seq[Bytes], k Int) Seq[Go[analysis.ColIdent]] = ite(k <= 0, empty("Go[analysis.ColIdent]"), cat(colids(S, k-1), unit(colid(S[k-1]))))
contract analysis.parseColIdents(a, tag)
  property A01
  ensures accepted: (r1 == 0) == (len(tag) > 0 && okcols(a, data(tag), 0))
  ensures columns: imp(r1 == 0, data(r0) == colids(data(tag), len(tag)))
  inv (i cnt, ids acc:[]analysis.ColIdent): 0 <= i && okcols(a, data(tag), i) == okcols(a, data(tag), 0) && len(ids) == len(tag) && sub(data(ids), 0, i) == colids(data(tag), i)
macro star(t Go[[]string]) Bool = len(t) == 1 && t[0] == "*"
contract analysis.parseColIdentList(a, tag)
  property A01
  ensures accepted: (r1 == 0) == (star(tag) || len(tag) > 0 && okcols(a, data(tag), 0))
  ensures all: imp(r1 == 0, r0.All == star(tag))
  ensures columns: imp(r1 == 0, data(r0.Items) == ite(star(tag), empty("Go[analysis.ColIdent]"), colids(data(tag), len(tag))))
contract analysis.addToRelSpace(a, id)
  property A01
  let key = ite(len(id.Alias) > 0, id.Alias, id.Name)
  ensures unique: (r0 == 0) == !dom(old(a.info.RelSpace), key)
  ensures added: imp(r0 == 0, dom(a.info.RelSpace, key) && mval(a.info.RelSpace, key) == id)
  modifies a.info.RelSpace

// ---- functions and keys
func lowered(Bytes) Bytes
extern strings.ToLower(s)
  ensures r0 == lowered(s)
rec fname(S Seq[Bytes], k Int) Bytes = ite(k < len(S), ite(len(S[k]) > 0 && S[k][0] == 64, lowered(sub(S[k], 1, len(S[k])-1)), fname(S, k+1)), "")
contract analysis.parseFuncName(tagvals)
  property A01
  ensures function: r0 == fname(data(tagvals), 0)
  inv (k cnt): 0 <= k && fname(data(tagvals), k) == fname(data(tagvals), 0)
rec names(S Seq[Go[*analysis.FieldSelectorNode]], sep Bytes, k Int) Bytes = ite(k <= 0, "", cat(names(S, sep, k-1), S[k-1].Name, sep))
contract analysis.joinFieldName(f, sel, sep)
  property A01
  ensures key: r0 == cat(names(data(sel), sep, len(sel)), f.Name)
  inv (key acc:string, k cnt): 0 <= k && key == names(data(sel), sep, k)
func joined(Seq[Bytes], Bytes) Bytes
extern strings.Join(a, sep)
  ensures r0 == joined(data(a), sep)
macro first(t Go[map[string][]string], k Bytes) Bytes = ite(dom(t, k) && len(mval(t, k)) > 0, data(mval(t, k))[0], "")
extern tagutil.Tag.First(t, k)
  ensures r0 == first(t, k)
rec hidden(S Seq[Go[*analysis.FieldSelectorNode]], tag Bytes, k Int) Bool = k < len(S) && (first(S[k].Tag, tag) == "-" || hidden(S, tag, k+1))
rec tagkeys(S Seq[Go[*analysis.FieldSelectorNode]], tag Bytes, k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), ite(first(S[k-1].Tag, tag) == "", tagkeys(S, tag, k-1), cat(tagkeys(S, tag, k-1), unit(first(S[k-1].Tag, tag)))))
contract analysis.joinFieldTag(f, sel, tag, sep)
  property A01
  ensures key: r0 == ite(hidden(data(sel), tag, 0) || first(f.Tag, tag) == "-", "", joined(cat(tagkeys(data(sel), tag, len(sel)), ite(first(f.Tag, tag) == "", empty("Bytes"), unit(first(f.Tag, tag)))), sep))
  inv (items acc:[]string, k cnt): 0 <= k && data(items) == tagkeys(data(sel), tag, k) && hidden(data(sel), tag, k) == hidden(data(sel), tag, 0)
