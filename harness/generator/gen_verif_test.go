// verif:package internal/generator
package generator

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/postgres"
	"github.com/frk/gosql/internal/postgres/oid"
)

// The oracle: for a random target it says, independently of the generator, which
// SQL text (parameters replaced by their arguments) the generated method runs, and
// what it does with the rows.

type colType struct {
	oid  oid.OID
	name string
	zero string
}

var colTypes = []colType{
	{oid.Text, "text", "''"},
	{oid.Int4, "integer", "0"},
	{oid.Int8, "bigint", "0"},
	{oid.UUID, "uuid", "-"},
	{oid.Bool, "boolean", "false"},
	{oid.Interval, "interval", "'00:00:00'"},
	{oid.Box, "box", "'(0,0),(0,0)'"},
	{oid.OID(99999), "mytype", ""},
}

type gcase struct {
	r    *rand.Rand
	t    *postgres.TargetInfo
	q    *analysis.QueryStruct
	n    int
	tree []*tnode
	zero map[*postgres.Column]string
}

type tnode struct {
	sel  []*analysis.FieldSelectorNode
	kids int
}

func (c *gcase) flip(n int) bool { return c.r.Intn(n) == 0 }

func (c *gcase) name(p string) string {
	c.n++
	return p + strconv.Itoa(c.n)
}

func (c *gcase) qual() string {
	return []string{"", "a", "b"}[c.r.Intn(3)]
}

func (c *gcase) column() *postgres.Column {
	ct := colTypes[c.r.Intn(len(colTypes))]
	col := &postgres.Column{Name: c.name("col"), Type: &postgres.Type{OID: ct.oid, NameFmt: ct.name}, HasNotNull: c.flip(2)}
	switch c.r.Intn(5) {
	case 0:
	case 1:
		col.Relation = &postgres.Relation{RelKind: "v"}
	default:
		col.Relation = &postgres.Relation{RelKind: postgres.RelKindOrdinaryTable}
	}
	c.zero[col] = ct.zero
	return col
}

func (c *gcase) typeInfo() analysis.TypeInfo {
	t := analysis.TypeInfo{Kind: analysis.TypeKindString}
	switch c.r.Intn(8) {
	case 0:
		t = analysis.TypeInfo{Kind: analysis.TypeKindPtr, Elem: &analysis.TypeInfo{Kind: analysis.TypeKindInt}}
	case 1:
		t = analysis.TypeInfo{Kind: analysis.TypeKindStruct, Name: "T", IsScanner: c.flip(2), IsValuer: c.flip(2)}
	case 2:
		t = analysis.TypeInfo{Kind: analysis.TypeKindInterface, IsScanner: c.flip(2), IsValuer: c.flip(2)}
	case 3:
		t = analysis.TypeInfo{Kind: analysis.TypeKindInt}
	}
	return t
}

func (c *gcase) selNode() *analysis.FieldSelectorNode {
	n := &analysis.FieldSelectorNode{Name: []string{"Foo", "Bar", "FooBar", "Baz"}[c.r.Intn(4)], TypeName: c.name("T"), IsPointer: !c.flip(3)}
	if c.flip(3) {
		n.IsImported = true
		n.TypePkgName = []string{"common", "sql"}[c.r.Intn(2)]
		n.TypePkgPath = "example.com/" + []string{"x", "y"}[c.r.Intn(2)] + "/" + n.TypePkgName
	}
	return n
}

func (c *gcase) selector() []*analysis.FieldSelectorNode {
	if c.flip(2) {
		return nil
	}
	if len(c.tree) > 0 && !c.flip(3) {
		base := c.tree[c.r.Intn(len(c.tree))].sel
		if c.flip(2) || len(base) > 3 {
			return base
		}
		return c.extend(base)
	}
	return c.extend(nil)
}

func pathOf(s []*analysis.FieldSelectorNode) string {
	p := ""
	for _, n := range s {
		p += "." + n.Name
	}
	return p
}

func (c *gcase) extend(base []*analysis.FieldSelectorNode) []*analysis.FieldSelectorNode {
	s := append(append([]*analysis.FieldSelectorNode{}, base...), c.selNode())
	for _, t := range c.tree {
		if pathOf(t.sel) == pathOf(s) {
			return t.sel
		}
	}
	c.tree = append(c.tree, &tnode{sel: s})
	return s
}

func (c *gcase) field(id analysis.ColIdent) *analysis.FieldInfo {
	f := &analysis.FieldInfo{Name: c.name("F"), Type: c.typeInfo(), Selector: c.selector(), ColIdent: id}
	f.UseDefault = c.flip(6)
	if c.flip(4) {
		f.UseCoalesce = true
		if c.flip(2) {
			f.CoalesceValue = []string{"'x y'", "42", "now()"}[c.r.Intn(3)]
		}
	}
	return f
}

func (c *gcase) conv(kind string) string {
	if c.flip(3) {
		return c.name(kind)
	}
	return ""
}

func (c *gcase) write() *postgres.FieldWrite {
	col := c.column()
	id := analysis.ColIdent{Name: col.Name, Qualifier: c.qual()}
	return &postgres.FieldWrite{Field: c.field(id), Column: col, ColIdent: id, Valuer: c.conv("Val")}
}

func (c *gcase) read() *postgres.FieldRead {
	col := c.column()
	id := analysis.ColIdent{Name: col.Name, Qualifier: c.qual()}
	if n := len(c.t.Reads); n > 0 && c.flip(4) { // two fields may read one column
		prev := c.t.Reads[c.r.Intn(n)]
		col, id = prev.Column, prev.ColIdent
	}
	return &postgres.FieldRead{Field: c.field(id), Column: col, ColIdent: id, Scanner: c.conv("Scan")}
}

func (c *gcase) colID() analysis.ColIdent {
	return analysis.ColIdent{Name: c.name("col"), Qualifier: c.qual()}
}

var cmpPreds = []analysis.Predicate{analysis.IsEQ, analysis.NotEQ, analysis.NotEQ2, analysis.IsLT, analysis.IsGT, analysis.IsLTE, analysis.IsGTE}
var binPreds = append([]analysis.Predicate{analysis.IsDistinct, analysis.NotDistinct, analysis.IsMatch, analysis.IsMatchi, analysis.NotMatch, analysis.NotMatchi,
	analysis.IsLike, analysis.NotLike, analysis.IsILike, analysis.NotILike, analysis.IsSimilar, analysis.NotSimilar}, cmpPreds...)
var unaryPreds = []analysis.Predicate{analysis.IsNull, analysis.NotNull, analysis.IsTrue, analysis.NotTrue, analysis.IsFalse, analysis.NotFalse, analysis.IsUnknown, analysis.NotUnknown}
var rangePreds = []analysis.Predicate{analysis.IsBetween, analysis.NotBetween, analysis.IsBetweenSym, analysis.NotBetweenSym, analysis.IsBetweenAsym, analysis.NotBetweenAsym}

func (c *gcase) pick(l []analysis.Predicate) analysis.Predicate { return l[c.r.Intn(len(l))] }

func (c *gcase) colCond() *postgres.ColumnConditional {
	cc := &postgres.ColumnConditional{LHSColIdent: c.colID()}
	if c.flip(3) {
		cc.Predicate = c.pick(unaryPreds)
		return cc
	}
	cc.Predicate = c.pick(binPreds)
	if c.flip(2) {
		cc.RHSColIdent = c.colID()
		if c.flip(4) {
			cc.Predicate = c.pick(cmpPreds)
			cc.Quantifier = analysis.Quantifier(1 + c.r.Intn(3))
		}
	} else {
		cc.RHSLiteral = "'lit" + strconv.Itoa(c.r.Intn(10)) + "'"
	}
	return cc
}

func (c *gcase) fieldCond() *postgres.FieldConditional {
	col := c.column()
	fc := &postgres.FieldConditional{FieldName: c.name("W"), Column: col, ColIdent: analysis.ColIdent{Name: col.Name, Qualifier: c.qual()}, Valuer: c.conv("Val")}
	switch c.r.Intn(6) {
	case 0:
		fc.Predicate = analysis.IsIn
		fc.Valuer = ""
	case 1:
		fc.Predicate = analysis.NotIn
		fc.Valuer = ""
	case 2:
		fc.Predicate = c.pick(cmpPreds)
		fc.Quantifier = analysis.Quantifier(1 + c.r.Intn(3))
	case 3:
		fc.Predicate = c.pick(binPreds)
		fc.FuncName = analysis.FuncName([]string{"lower", "upper"}[c.r.Intn(2)])
	default:
		fc.Predicate = c.pick(binPreds)
	}
	return fc
}

func (c *gcase) bound() postgres.RangeBound {
	if c.flip(3) {
		return &postgres.ColumnConditional{RHSColIdent: c.colID()}
	}
	return &postgres.FieldConditional{FieldName: c.name("W"), Valuer: c.conv("Val")}
}

func (c *gcase) conds(depth, max int) (out []postgres.WhereConditional) {
	n := 1 + c.r.Intn(max)
	for i := 0; i < n; i++ {
		if i > 0 {
			b := analysis.BoolAnd
			if c.flip(2) {
				b = analysis.BoolOr
			}
			out = append(out, &postgres.Boolean{Value: b})
		}
		switch k := c.r.Intn(7); {
		case k == 0 && depth > 0:
			out = append(out, &postgres.NestedConditional{FieldName: c.name("N"), Conditionals: c.conds(depth-1, 3)})
		case k == 1:
			out = append(out, &postgres.BetweenConditional{FieldName: c.name("B"), ColIdent: c.colID(), Predicate: c.pick(rangePreds), LowerBound: c.bound(), UpperBound: c.bound()})
		case k == 2:
			out = append(out, c.colCond())
		default:
			out = append(out, c.fieldCond())
		}
	}
	return out
}

func (c *gcase) relIdent() analysis.RelIdent {
	id := analysis.RelIdent{Name: c.name("tab")}
	if c.flip(2) {
		id.Alias = "a"
	}
	if c.flip(3) {
		id.Qualifier = "s"
	}
	return id
}

func (c *gcase) relType(iter bool) analysis.RelType {
	t := analysis.RelType{Base: analysis.TypeInfo{Name: c.name("User"), Kind: analysis.TypeKindStruct}}
	t.IsPointer = c.flip(2)
	switch c.r.Intn(3) {
	case 0:
		t.IsSlice = true
	case 1:
		if iter {
			t.IsIter = true
			if c.flip(2) {
				t.IterMethod = "Next"
			}
		}
	}
	t.IsAfterScanner = c.flip(4)
	if c.flip(3) {
		t.Base.IsImported = true
		t.Base.PkgName = "common"
		t.Base.PkgPath = "example.com/" + []string{"x", "y"}[c.r.Intn(2)] + "/common"
	}
	return t
}

func newCase(r *rand.Rand) *gcase {
	c := &gcase{r: r, zero: map[*postgres.Column]string{}}
	q := &analysis.QueryStruct{TypeName: "Query"}
	t := &postgres.TargetInfo{Info: &analysis.Info{}, Struct: q}
	c.q, c.t = q, t
	q.Kind = []analysis.QueryKind{analysis.QueryKindInsert, analysis.QueryKindUpdate, analysis.QueryKindUpdate, analysis.QueryKindDelete, analysis.QueryKindSelect, analysis.QueryKindSelect,
		analysis.QueryKindSelectCount, analysis.QueryKindSelectExists, analysis.QueryKindSelectNotExists}[r.Intn(9)]
	sel := q.Kind == analysis.QueryKindSelect || q.IsSelectCountOrExists()
	writes := q.Kind == analysis.QueryKindInsert || q.Kind == analysis.QueryKindUpdate
	q.Rel = &analysis.RelField{FieldName: "Rel", Id: c.relIdent(), Type: c.relType(!writes)}
	if q.IsSelectCountOrExists() {
		q.Rel.Type = analysis.RelType{Base: analysis.TypeInfo{Kind: analysis.TypeKindInt, Name: "int"}}
	}
	if writes {
		for n := 1 + r.Intn(4); n > 0; n-- {
			t.Writes = append(t.Writes, c.write())
		}
		if c.flip(3) {
			q.Default = &analysis.DefaultDirective{}
			q.Default.Items = append(q.Default.Items, t.Writes[r.Intn(len(t.Writes))].Field.ColIdent)
		}
	}
	// the condition of the query
	mode := r.Intn(4)
	if q.Kind == analysis.QueryKindInsert || q.IsUpdateSlice() {
		mode = 3
	} else if q.Kind == analysis.QueryKindDelete && mode == 3 {
		mode = 2
	}
	switch mode {
	case 0:
		q.Where = &analysis.WhereStruct{FieldName: "Where"}
		t.Where = c.conds(2, 4)
	case 1:
		q.Filter = &analysis.FilterField{Name: "Filter"}
	case 2:
		if !sel {
			q.All = &analysis.AllDirective{}
		}
	case 3:
		if q.Kind == analysis.QueryKindUpdate {
			for n := 1 + r.Intn(3); n > 0; n-- {
				w := c.write()
				w.Field.UseDefault = false
				if c.flip(3) {
					w = t.Writes[r.Intn(len(t.Writes))]
					dup := false
					for _, k := range t.PKeys {
						dup = dup || k.Field == w.Field
					}
					if dup {
						continue
					}
					w = &postgres.FieldWrite{Field: w.Field, Column: w.Column, ColIdent: w.ColIdent, Valuer: w.Valuer}
				}
				t.PKeys = append(t.PKeys, w)
			}
		}
	}
	if sel || q.Kind == analysis.QueryKindDelete || q.Kind == analysis.QueryKindUpdate && !q.Rel.Type.IsSlice {
		if c.flip(3) {
			q.Join = &analysis.JoinStruct{FieldName: "Join"}
			if !sel {
				q.Join.Relation = &analysis.RelationDirective{RelIdent: c.relIdent()}
			}
			n := r.Intn(3)
			if sel {
				n++
			}
			for ; n > 0; n-- {
				q.Join.Directives = append(q.Join.Directives, &analysis.JoinDirective{JoinType: analysis.JoinType(2 + r.Intn(4)), RelIdent: c.relIdent()})
				var l []postgres.TableJoinConditional
				for k := r.Intn(3); k >= 0; k-- {
					l = append(l, c.colCond())
					if k > 0 {
						b := analysis.BoolAnd
						if c.flip(2) {
							b = analysis.BoolOr
						}
						l = append(l, &postgres.Boolean{Value: b})
					}
				}
				t.Joins = append(t.Joins, l)
			}
		}
	}
	if sel && q.Filter == nil {
		if c.flip(2) {
			q.OrderBy = &analysis.OrderByDirective{}
			for n := r.Intn(3); n >= 0; n-- {
				q.OrderBy.Items = append(q.OrderBy.Items, analysis.OrderByTagItem{ColIdent: c.colID(), Direction: analysis.OrderDirection(r.Intn(2)), Nulls: analysis.NullsPosition(r.Intn(3))})
			}
		}
		if c.flip(2) {
			q.Limit = &analysis.LimitField{Value: uint64(r.Intn(2) * 25)}
			if q.Limit.Value == 0 || c.flip(2) {
				q.Limit.Name = "Limit"
			}
		}
		if c.flip(2) {
			q.Offset = &analysis.OffsetField{Value: uint64(r.Intn(2) * 50)}
			if q.Offset.Value == 0 || c.flip(2) {
				q.Offset.Name = "Offset"
			}
		}
	}
	if q.Kind == analysis.QueryKindInsert {
		if c.flip(3) {
			q.Override = &analysis.OverrideDirective{Kind: analysis.OverridingKind(1 + r.Intn(2))}
		}
		if c.flip(3) {
			t.Conflict = &postgres.ConflictInfo{}
			switch r.Intn(3) {
			case 0:
				t.Conflict.Target = &postgres.ConflictIndex{Expression: `"k", lower("n")`, Predicate: []string{"", `"k" > 0`}[r.Intn(2)]}
			case 1:
				t.Conflict.Target = &postgres.ConflictConstraint{Name: "con"}
			}
			if t.Conflict.Target != nil {
				for n := r.Intn(3); n > 0; n-- {
					t.Conflict.Update = append(t.Conflict.Update, c.column())
				}
			}
		}
	}
	// the output
	out := q.Kind == analysis.QueryKindSelect
	if !sel {
		switch r.Intn(4) {
		case 0:
			q.Return = &analysis.ReturnDirective{}
			out = true
		case 1:
			q.Result = &analysis.ResultField{FieldName: "Result", Type: c.relType(true)}
			out = true
		case 2:
			q.RowsAffected = &analysis.RowsAffectedField{Name: "Count", TypeKind: []analysis.TypeKind{analysis.TypeKindInt, analysis.TypeKindInt64}[r.Intn(2)]}
		}
	}
	if out {
		c.tree = nil
		for n := 1 + r.Intn(5); n > 0; n-- {
			t.Reads = append(t.Reads, c.read())
		}
	}
	switch r.Intn(4) {
	case 0:
		q.ErrorHandler = &analysis.ErrorHandlerField{Name: "eh", IsInfo: c.flip(2)}
	}
	if c.flip(4) {
		q.Context = &analysis.ContextField{Name: "Ctx"}
	}
	return c
}

// ---- the oracle

type sqlb struct{ toks []string }

func (b *sqlb) add(text string) *sqlb { b.toks = append(b.toks, sqlTokens(text)...); return b }
func (b *sqlb) arg(x string) *sqlb    { b.toks = append(b.toks, "<"+x+">"); return b }
func quoteID(s string) string         { return `"` + s + `"` }

func colText(id analysis.ColIdent) string {
	if id.Qualifier != "" {
		return id.Qualifier + "." + quoteID(id.Name)
	}
	return quoteID(id.Name)
}

func relText(id analysis.RelIdent) string {
	s := quoteID(id.Name)
	if id.Qualifier != "" {
		s = id.Qualifier + "." + s
	}
	if id.Alias != "" {
		s += " AS " + id.Alias
	}
	return s
}

func fieldText(root string, f *analysis.FieldInfo) string {
	return root + pathOf(f.Selector) + "." + f.Name
}

func convText(x, conv string) string {
	if conv != "" {
		return "github.com/frk/gosql/pgsql." + conv + "(" + x + ")"
	}
	return x
}

var predText = map[analysis.Predicate]string{
	analysis.IsEQ: "=", analysis.NotEQ: "<>", analysis.NotEQ2: "!=", analysis.IsLT: "<", analysis.IsGT: ">", analysis.IsLTE: "<=", analysis.IsGTE: ">=",
	analysis.IsDistinct: "IS DISTINCT FROM", analysis.NotDistinct: "IS NOT DISTINCT FROM",
	analysis.IsMatch: "~", analysis.IsMatchi: "~*", analysis.NotMatch: "!~", analysis.NotMatchi: "!~*",
	analysis.IsLike: "LIKE", analysis.NotLike: "NOT LIKE", analysis.IsILike: "ILIKE", analysis.NotILike: "NOT ILIKE",
	analysis.IsSimilar: "SIMILAR TO", analysis.NotSimilar: "NOT SIMILAR TO",
	analysis.IsIn: "IN", analysis.NotIn: "NOT IN",
	analysis.IsNull: "IS NULL", analysis.NotNull: "IS NOT NULL",
	analysis.IsTrue: "IS TRUE", analysis.NotTrue: "IS NOT TRUE", analysis.IsFalse: "IS FALSE", analysis.NotFalse: "IS NOT FALSE",
	analysis.IsUnknown: "IS UNKNOWN", analysis.NotUnknown: "IS NOT UNKNOWN",
	analysis.IsBetween: "BETWEEN", analysis.NotBetween: "NOT BETWEEN", analysis.IsBetweenSym: "BETWEEN SYMMETRIC", analysis.NotBetweenSym: "NOT BETWEEN SYMMETRIC",
	analysis.IsBetweenAsym: "BETWEEN ASYMMETRIC", analysis.NotBetweenAsym: "NOT BETWEEN ASYMMETRIC",
}

var quantText = map[analysis.Quantifier]string{analysis.QuantAny: "ANY", analysis.QuantSome: "SOME", analysis.QuantAll: "ALL"}

func (b *sqlb) bound(x postgres.RangeBound, at string) {
	switch v := x.(type) {
	case *postgres.ColumnConditional:
		b.add(colText(v.RHSColIdent))
	case *postgres.FieldConditional:
		b.arg(convText(at+"."+v.FieldName, v.Valuer))
	}
}

func (b *sqlb) cond(x postgres.WhereConditional, at string) {
	switch v := x.(type) {
	case *postgres.Boolean:
		b.add(map[analysis.Boolean]string{analysis.BoolAnd: "AND", analysis.BoolOr: "OR"}[v.Value])
	case *postgres.NestedConditional:
		b.add("(")
		b.conds(v.Conditionals, at+"."+v.FieldName)
		b.add(")")
	case *postgres.BetweenConditional:
		b.add(colText(v.ColIdent)).add(predText[v.Predicate])
		b.bound(v.LowerBound, at+"."+v.FieldName)
		b.add("AND")
		b.bound(v.UpperBound, at+"."+v.FieldName)
	case *postgres.ColumnConditional:
		b.add(colText(v.LHSColIdent)).add(predText[v.Predicate])
		if v.Quantifier > 0 {
			b.add(quantText[v.Quantifier] + "(")
		}
		if v.RHSColIdent.Name != "" {
			b.add(colText(v.RHSColIdent))
		} else {
			b.add(v.RHSLiteral)
		}
		if v.Quantifier > 0 {
			b.add(")")
		}
	case *postgres.FieldConditional:
		fn := string(v.FuncName)
		if fn != "" {
			b.add(fn + "(" + colText(v.ColIdent) + ")")
		} else {
			b.add(colText(v.ColIdent))
		}
		b.add(predText[v.Predicate])
		f := at + "." + v.FieldName
		switch {
		case v.Predicate == analysis.IsIn || v.Predicate == analysis.NotIn:
			b.add("(")
			for i := 0; i < sliceLen(f); i++ {
				if i > 0 {
					b.add(",")
				}
				b.arg(fmt.Sprintf("%s[%d]", f, i))
			}
			b.add(")")
		case v.Quantifier > 0:
			b.add(quantText[v.Quantifier] + "(").arg(convText(f, v.Valuer)).add("::" + v.Column.Type.NameFmt + "[])")
		case fn != "":
			b.add(fn + "(").arg(convText(f, v.Valuer)).add(")")
		default:
			b.arg(convText(f, v.Valuer))
		}
	}
}

func (b *sqlb) conds(l []postgres.WhereConditional, at string) {
	for _, c := range l {
		b.cond(c, at)
	}
}

func (c *gcase) isDefault(f *analysis.FieldInfo) bool {
	if f.UseDefault {
		return true
	}
	if c.q.Default != nil {
		for _, id := range c.q.Default.Items {
			if id == f.ColIdent {
				return true
			}
		}
	}
	return false
}

func nullable(col *postgres.Column) bool {
	return col.Relation != nil && col.Relation.RelKind == "r" && !col.HasNotNull
}

// value prints the value written to a column.
func (c *gcase) value(b *sqlb, w *postgres.FieldWrite, x string, inFrom bool) {
	t := w.Field.Type
	valuer := t.IsValuer || t.Kind == analysis.TypeKindPtr && t.Elem.IsValuer
	zero := c.zero[w.Column]
	switch {
	case nullable(w.Column) && t.Kind != analysis.TypeKindPtr && !valuer && w.Valuer == "" && zero != "":
		if zero == "-" {
			zero = "''"
		}
		b.add("NULLIF(").arg(x).add(", " + zero + ")::" + w.Column.Type.NameFmt)
	case inFrom:
		b.arg(x).add("::" + w.Column.Type.NameFmt)
	default:
		b.arg(x)
	}
}

func (c *gcase) output(r *postgres.FieldRead) string {
	t := r.Field.Type
	scanner := t.IsScanner && t.Kind != analysis.TypeKindInterface || t.Kind == analysis.TypeKindPtr && t.Elem.IsScanner && t.Elem.Kind != analysis.TypeKindInterface
	col, typ := colText(r.ColIdent), r.Column.Type.NameFmt
	if !r.Field.UseCoalesce && !(nullable(r.Column) && t.Kind != analysis.TypeKindPtr && !scanner && r.Scanner == "") {
		return col
	}
	switch zero := c.zero[r.Column]; {
	case r.Field.CoalesceValue != "":
		return "COALESCE(" + col + ", " + r.Field.CoalesceValue + "::" + typ + ")"
	case zero == "-":
		return "COALESCE(" + col + "::text, '')"
	case zero != "":
		return "COALESCE(" + col + ", " + zero + "::" + typ + ")"
	}
	return col
}

func (c *gcase) bySlicePKeys() []*postgres.FieldWrite {
	var out []*postgres.FieldWrite
	for _, k := range c.t.PKeys {
		own := true
		for _, w := range c.t.Writes {
			own = own && (w.Field != k.Field || c.isDefault(w.Field))
		}
		if own {
			out = append(out, k)
		}
	}
	return out
}

func (c *gcase) from(b *sqlb) {
	q := c.q
	if q.Join == nil {
		return
	}
	switch q.Kind {
	case analysis.QueryKindUpdate:
		b.add("FROM " + relText(q.Join.Relation.RelIdent))
	case analysis.QueryKindDelete:
		b.add("USING " + relText(q.Join.Relation.RelIdent))
	}
	for i, d := range q.Join.Directives {
		b.add(map[analysis.JoinType]string{analysis.JoinTypeInner: "INNER JOIN", analysis.JoinTypeLeft: "LEFT JOIN", analysis.JoinTypeRight: "RIGHT JOIN", analysis.JoinTypeFull: "FULL JOIN", analysis.JoinTypeCross: "CROSS JOIN"}[d.JoinType])
		b.add(relText(d.RelIdent) + " ON")
		for _, x := range c.t.Joins[i] {
			b.cond(x.(postgres.WhereConditional), "")
		}
	}
}

func (c *gcase) where(b *sqlb, filter int) {
	q := c.q
	switch {
	case q.Where != nil:
		b.add("WHERE")
		b.conds(c.t.Where, "q.Where")
	case q.Filter != nil:
		b.add("WHERE")
		for i := 1; i <= filter; i++ {
			b.add(fmt.Sprintf("f%d =", i)).arg(fmt.Sprintf("q.Filter#%d", i))
		}
	case q.Kind == analysis.QueryKindUpdate && q.All == nil:
		b.add("WHERE")
		for i, k := range c.t.PKeys {
			if i > 0 {
				b.add("AND")
			}
			b.add(colText(k.ColIdent) + " =")
			if q.Rel.Type.IsSlice {
				b.add("x." + quoteID(k.ColIdent.Name) + "::" + k.Column.Type.NameFmt)
			} else {
				// a key that is also written uses the argument of the write
				b.arg(convText(fieldText("q.Rel", k.Field), k.Valuer))
			}
		}
	}
}

func (c *gcase) page(b *sqlb) {
	q := c.q
	if q.OrderBy != nil {
		for i, o := range q.OrderBy.Items {
			b.add([]string{"ORDER BY", ","}[map[bool]int{true: 0, false: 1}[i == 0]])
			b.add(colText(o.ColIdent))
			if o.Direction == analysis.OrderDesc {
				b.add("DESC")
			} else {
				b.add("ASC")
			}
			if o.Nulls == analysis.NullsFirst {
				b.add("NULLS FIRST")
			} else {
				b.add("NULLS LAST")
			}
		}
	}
	switch {
	case q.Limit != nil && q.Limit.Name != "":
		b.add("LIMIT").arg("q." + q.Limit.Name)
	case q.Limit != nil:
		b.add("LIMIT " + strconv.FormatUint(q.Limit.Value, 10))
	case q.Filter == nil && !q.Rel.Type.IsSlice && !q.Rel.Type.IsIter && q.Kind != analysis.QueryKindSelectCount:
		b.add("LIMIT 1")
	}
	switch {
	case q.Offset != nil && q.Offset.Name != "":
		b.add("OFFSET").arg("q." + q.Offset.Name)
	case q.Offset != nil:
		b.add("OFFSET " + strconv.FormatUint(q.Offset.Value, 10))
	}
}

func names(cols []string) string {
	for i := range cols {
		cols[i] = quoteID(cols[i])
	}
	return "(" + strings.Join(cols, ", ") + ")"
}

func (c *gcase) returning(b *sqlb) {
	for i, r := range c.t.Reads {
		b.add([]string{"RETURNING", ","}[map[bool]int{true: 0, false: 1}[i == 0]])
		b.add(c.output(r))
	}
}

func (c *gcase) sql(filter int) string {
	q, t := c.q, c.t
	b := &sqlb{}
	roots := []string{"q.Rel"}
	if q.Rel.Type.IsSlice {
		roots = nil
		for i := 0; i < sliceLen("q.Rel"); i++ {
			roots = append(roots, fmt.Sprintf("q.Rel[%d]", i))
		}
	}
	var cols []string
	for _, w := range t.Writes {
		cols = append(cols, w.Column.Name)
	}
	switch q.Kind {
	case analysis.QueryKindInsert:
		b.add("INSERT INTO " + relText(q.Rel.Id) + names(cols))
		if q.Override != nil {
			b.add("OVERRIDING " + map[analysis.OverridingKind]string{analysis.OverridingSystem: "SYSTEM", analysis.OverridingUser: "USER"}[q.Override.Kind] + " VALUE")
		}
		b.add("VALUES")
		for ri, root := range roots {
			if ri > 0 {
				b.add(",")
			}
			for i, w := range t.Writes {
				b.add([]string{"(", ","}[map[bool]int{true: 0, false: 1}[i == 0]])
				if c.isDefault(w.Field) {
					b.add("DEFAULT")
				} else {
					c.value(b, w, convText(fieldText(root, w.Field), w.Valuer), false)
				}
			}
			b.add(")")
		}
		if t.Conflict != nil {
			b.add("ON CONFLICT")
			switch x := t.Conflict.Target.(type) {
			case *postgres.ConflictIndex:
				b.add("(" + x.Expression + ")")
				if x.Predicate != "" {
					b.add("WHERE " + x.Predicate)
				}
			case *postgres.ConflictConstraint:
				b.add("ON CONSTRAINT " + quoteID(x.Name))
			}
			if len(t.Conflict.Update) == 0 {
				b.add("DO NOTHING")
			}
			for i, col := range t.Conflict.Update {
				b.add([]string{"DO UPDATE SET", ","}[map[bool]int{true: 0, false: 1}[i == 0]])
				b.add(quoteID(col.Name) + " = EXCLUDED." + quoteID(col.Name))
			}
		}
		c.returning(b)
	case analysis.QueryKindUpdate:
		b.add("UPDATE " + relText(q.Rel.Id) + " SET")
		one := len(t.Writes) == 1
		if one {
			b.add(quoteID(cols[0]) + " =")
		} else {
			b.add(names(cols) + " = (")
		}
		for i, w := range t.Writes {
			if i > 0 {
				b.add(",")
			}
			switch {
			case c.isDefault(w.Field):
				b.add("DEFAULT")
			case q.Rel.Type.IsSlice:
				b.add("x." + quoteID(w.Column.Name))
			default:
				c.value(b, w, convText(fieldText("q.Rel", w.Field), w.Valuer), false)
			}
		}
		if !one {
			b.add(")")
		}
		c.from(b)
		if q.Rel.Type.IsSlice {
			b.add("FROM (VALUES")
			var xs []string
			for ri, root := range roots {
				if ri > 0 {
					b.add(",")
				}
				first := true
				sep := func() {
					if first {
						b.add("(")
					} else {
						b.add(",")
					}
					first = false
				}
				for _, w := range t.Writes {
					if !c.isDefault(w.Field) {
						sep()
						c.value(b, w, convText(fieldText(root, w.Field), w.Valuer), true)
						if ri == 0 {
							xs = append(xs, w.Column.Name)
						}
					}
				}
				for _, k := range c.bySlicePKeys() {
					sep()
					b.arg(convText(fieldText(root, k.Field), k.Valuer))
					if ri == 0 {
						xs = append(xs, k.Column.Name)
					}
				}
				b.add(")")
			}
			b.add(") AS x " + names(xs))
		}
		c.where(b, filter)
		c.returning(b)
	case analysis.QueryKindDelete:
		b.add("DELETE FROM " + relText(q.Rel.Id))
		c.from(b)
		c.where(b, filter)
		c.returning(b)
	case analysis.QueryKindSelect:
		b.add("SELECT")
		for i, r := range t.Reads {
			if i > 0 {
				b.add(",")
			}
			b.add(c.output(r))
		}
		b.add("FROM " + relText(q.Rel.Id))
		c.from(b)
		c.where(b, filter)
		c.page(b)
	case analysis.QueryKindSelectCount:
		b.add("SELECT COUNT(*) FROM " + relText(q.Rel.Id))
		c.from(b)
		c.where(b, filter)
		c.page(b)
	default:
		b.add("SELECT")
		if q.Kind == analysis.QueryKindSelectNotExists {
			b.add("NOT")
		}
		b.add("EXISTS(SELECT 1 FROM " + relText(q.Rel.Id))
		c.from(b)
		c.where(b, filter)
		c.page(b)
		b.add(")")
	}
	return strings.Join(b.toks, " ")
}

// expected says what the generated method does when the query gives rows rows.
func (c *gcase) expected(rows, filter int) (out []event) {
	q := c.q
	ctx := ""
	if q.Context != nil {
		ctx = "q.Ctx"
	}
	for _, l := range []struct {
		n string
		v uint64
	}{limitOf(q), offsetOf(q)} {
		if l.n != "" && l.v > 0 {
			out = append(out, event{"fallback", []string{"zero? q." + l.n + " 0", "q." + l.n, fmt.Sprint(l.v)}})
		}
	}
	if q.Result == nil && q.Return == nil && q.Kind != analysis.QueryKindSelect && !q.IsSelectCountOrExists() {
		out = append(out, event{"query", []string{ctx, "Exec", c.sql(filter)}})
		if q.RowsAffected != nil {
			v := "affected"
			if q.RowsAffected.TypeKind == analysis.TypeKindInt {
				v = "int(affected)"
			}
			out = append(out, event{"set", []string{"q.Count", v}})
		}
		return out
	}
	typ, root := q.Rel.Type, "q.Rel"
	own := q.Kind == analysis.QueryKindInsert || q.Kind == analysis.QueryKindUpdate
	if q.Result != nil {
		typ, root, own = q.Result.Type, "q.Result", false
	}
	base := typ.Base.Name
	if typ.Base.IsImported {
		base = typ.Base.PkgPath + "." + base
	}
	many := typ.IsSlice || typ.IsIter
	kind := "QueryRow"
	if many {
		kind = "Query"
	} else {
		rows = 1
	}
	out = append(out, event{"query", []string{ctx, kind, c.sql(filter)}})
	if many {
		out = append(out, event{"defer", []string{"rows.Close"}})
	}
	for i := 0; i < rows; i++ {
		v := root
		inits := map[string]string{}
		if many {
			v = fmt.Sprintf("v#%d", i+1)
			inits[v] = base
			if own {
				v = fmt.Sprintf("%s[%d]", root, i)
				inits = map[string]string{}
			}
		} else if typ.IsPointer && !own {
			inits[v] = base
		}
		var args []string
		if q.IsSelectCountOrExists() {
			args = append(args, "&"+root)
		}
		for _, r := range c.t.Reads {
			if !own {
				p := v
				for _, n := range r.Field.Selector {
					p += "." + n.Name
					if n.IsPointer {
						inits[p] = n.TypeName
						if n.IsImported {
							inits[p] = n.TypePkgPath + "." + n.TypeName
						}
					}
				}
			}
			args = append(args, convText("&"+fieldText(v, r.Field), r.Scanner))
		}
		done := []string{}
		for k, t := range inits {
			done = append(done, k+"="+t)
		}
		sort.Strings(done)
		out = append(out, event{"scan", []string{strings.Join(args, " "), strings.Join(done, ";")}})
		if typ.IsAfterScanner {
			out = append(out, event{"afterscan", []string{v}})
		}
		switch {
		case !many:
		case typ.IsIter && typ.IterMethod != "":
			out = append(out, event{"iter", []string{root + "." + typ.IterMethod, v}})
		case typ.IsIter:
			out = append(out, event{"iter", []string{root, v}})
		case !own:
			out = append(out, event{"deliver", []string{root, v}})
		}
	}
	return out
}

func limitOf(q *analysis.QueryStruct) (o struct {
	n string
	v uint64
}) {
	if q.Limit != nil {
		o.n, o.v = q.Limit.Name, q.Limit.Value
	}
	return o
}

func offsetOf(q *analysis.QueryStruct) (o struct {
	n string
	v uint64
}) {
	if q.Offset != nil {
		o.n, o.v = q.Offset.Name, q.Offset.Value
	}
	return o
}

// normalised drops what differs between runs of a row only.
func normalised(evs []event) (out []event) {
	for _, e := range evs {
		a := append([]string{}, e.args...)
		if e.what == "scan" {
			// only the pointers of the scanned value count
			var keep []string
			seen := map[string]bool{}
			for _, d := range strings.Split(a[1], ";") {
				if d == "" {
					continue
				}
				at := d[:strings.IndexByte(d, '=')]
				if i := strings.IndexAny(at, "#"); i >= 0 {
					row := at
					if j := strings.IndexByte(at[i:], '.'); j >= 0 {
						row = at[:i+j]
					}
					if !strings.Contains(a[0], row+".") {
						continue
					}
				}
				if !seen[d] {
					seen[d] = true
					keep = append(keep, d)
				}
			}
			a[1] = strings.Join(keep, ";")
		}
		out = append(out, event{e.what, a})
	}
	return out
}

func (c *gcase) describe() string {
	q := c.q
	s := fmt.Sprintf("%v query", q.Kind)
	switch q.Kind {
	case analysis.QueryKindSelectCount:
		s = "SelectCount query"
	case analysis.QueryKindSelectExists, analysis.QueryKindSelectNotExists:
		s = "SelectExists query"
	}
	if q.Rel.Type.IsSlice {
		s += " over a slice"
	}
	if q.Filter != nil {
		s += " with a filter"
	}
	if q.Where != nil {
		s += " with a where struct"
	}
	if q.Result != nil {
		s += " with a result field"
	}
	if q.Return != nil {
		s += " with a return directive"
	}
	return s
}

func generate(c *gcase) (src []byte, err interface{}) {
	cfg := config.Config{MethodName: config.String{Value: "Exec"}, MethodArgumentType: config.GoType{Name: "Conn", PkgPath: "github.com/frk/gosql", PkgName: "gosql"}}
	var buf bytes.Buffer
	err = guard(func() {
		if e := Write(&buf, "testdata", []*postgres.TargetInfo{c.t}, cfg); e != nil {
			panic(e)
		}
	})
	return buf.Bytes(), err
}

// checkCase compares one generated method with the oracle.
func checkCase(f *vf, c *gcase) {
	src, err := generate(c)
	if err != nil {
		f.bad("Write", "%s: %v", c.describe(), err)
		return
	}
	rows, filter := f.r.Intn(4), f.r.Intn(3)
	got, _, calls, rerr := runGenerated(src, "Exec", rows, filter, -1)
	if rerr != nil {
		f.bad("Write/run", "%s: the generated method does not run: %v", c.describe(), rerr)
		return
	}
	want := c.expected(rows, filter)
	g, w := normalised(got), normalised(want)
	for i := 0; i < len(g) || i < len(w); i++ {
		a, b := "nothing", "nothing"
		kind := ""
		if i < len(g) {
			a, kind = g[i].String(), g[i].what
		}
		if i < len(w) {
			b, kind = w[i].String(), w[i].what
		}
		if a == b {
			continue
		}
		f.bad("Write/"+kind, "%s: the generated method does %s and should do %s", c.describe(), a, b)
		return
	}
	// a call that fails ends the method with its error
	for k := 0; k < calls; k++ {
		evs, res, _, rerr := runGenerated(src, "Exec", rows, filter, k)
		if rerr != nil {
			f.bad("Write/error", "%s: with call %d failing: %v", c.describe(), k, rerr)
			return
		}
		if len(evs) > len(got) {
			f.bad("Write/error", "%s: with call %d failing the method goes on: %v", c.describe(), k, evs)
			return
		}
		if !strings.Contains(symText(res), "E!") {
			f.bad("Write/error", "%s: with call %d failing the method returns %v", c.describe(), k, symText(res))
			return
		}
	}
}

func searchCases(t *testing.T) {
	f := newVF()
	n, max := 0, 60000
	if os.Getenv("VERIF_BOUNDED") != "" {
		max = 20000
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		max = 600000
	}
	for ; !f.done() && n < max; n++ {
		c := newCase(rand.New(rand.NewSource(f.r.Int63())))
		checkCase(f, c)
	}
	fmt.Printf("CASES %d random targets from seed %s: at most 4 written, 5 read and 3 key columns, 3 levels of conditions and of nested fields, 3 rows\n", n, os.Getenv("VERIF_SEED"))
	f.finish(t)
}

func TestVerifG01(t *testing.T) { searchCases(t) }
func TestVerifG02(t *testing.T) { searchCases(t) }
func TestVerifG03(t *testing.T) { searchCases(t) }
