// verif:package internal/postgres
package postgres

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"go/token"
	"io"
	"log"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/postgres/oid"
)

type LT = analysis.LiteralType
type TI = analysis.TypeInfo

// ---- a database that only knows the type of a literal: its own spelling is the oid
type fakeDriver struct{}
type fakeConn struct{}
type fakeStmt struct{ q string }
type fakeRows struct {
	v    int64
	done bool
}

func (fakeDriver) Open(string) (driver.Conn, error)         { return fakeConn{}, nil }
func (fakeConn) Prepare(q string) (driver.Stmt, error)      { return fakeStmt{q}, nil }
func (fakeConn) Close() error                               { return nil }
func (fakeConn) Begin() (driver.Tx, error)                  { return nil, fmt.Errorf("no") }
func (fakeStmt) Close() error                               { return nil }
func (fakeStmt) NumInput() int                              { return -1 }
func (fakeStmt) Exec([]driver.Value) (driver.Result, error) { return nil, fmt.Errorf("no") }
func (s fakeStmt) Query([]driver.Value) (driver.Rows, error) {
	i := strings.Index(s.q, "pg_typeof(")
	if i < 0 {
		return nil, fmt.Errorf("unexpected query %s", s.q)
	}
	e := s.q[i+len("pg_typeof("):]
	n, err := strconv.ParseInt(e[:strings.IndexByte(e, ')')], 10, 64)
	if err != nil {
		return nil, err
	}
	return &fakeRows{v: n}, nil
}
func (*fakeRows) Columns() []string { return []string{"id"} }
func (*fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(d []driver.Value) error {
	if r.done {
		return io.EOF
	}
	r.done = true
	d[0] = r.v
	return nil
}

var fakeDB *sql.DB

func init() {
	log.SetOutput(io.Discard)
	sql.Register("verif-fake", fakeDriver{})
	fakeDB, _ = sql.Open("verif-fake", "")
}

// ---- the catalog
const (
	oidEnum, oidEnumArr, oidDom, oidDomArr, oidPseudo = 50000, 50001, 50002, 50003, 2249
)

func catalogTypes() (map[oid.OID]*Type, []oid.OID) {
	m := map[oid.OID]*Type{}
	var order []oid.OID
	add := func(o oid.OID, name string, cat TypeCategory) {
		m[o] = &Type{OID: o, Name: name, NameFmt: name, Type: TypeTypeBase, Category: cat}
		order = append(order, o)
		if a, ok := oid.TypeToArray[o]; ok {
			m[a] = &Type{OID: a, Name: "_" + name, NameFmt: name + "[]", Type: TypeTypeBase, Category: TypeCategoryArray, Elem: o}
			order = append(order, a)
		}
	}
	add(oid.Bool, "bool", TypeCategoryBoolean)
	for i, o := range []oid.OID{oid.Int2, oid.Int4, oid.Int8, oid.Float4, oid.Float8, oid.Numeric} {
		add(o, "n"+strconv.Itoa(i), TypeCategoryNumeric)
	}
	for i, o := range []oid.OID{oid.Text, oid.VarChar, oid.BPChar, oid.Char} {
		add(o, "s"+strconv.Itoa(i), TypeCategoryString)
	}
	add(oid.Bit, "bit", TypeCategoryBitstring)
	add(oid.VarBit, "varbit", TypeCategoryBitstring)
	for i, o := range []oid.OID{oid.JSON, oid.JSONB, oid.XML, oid.UUID, oid.TSVector, oid.Bytea, oid.MACAddr} {
		add(o, "u"+strconv.Itoa(i), TypeCategoryUserdefined)
	}
	add(oid.Date, "date", TypeCategoryDatetime)
	add(oid.Timestamptz, "timestamptz", TypeCategoryDatetime)
	add(oid.Inet, "inet", TypeCategoryNetaddress)
	add(oid.Int4Range, "int4range", TypeCategoryRange)
	add(oid.Point, "point", TypeCategoryGeometric)
	m[oid.Unknown] = &Type{OID: oid.Unknown, Name: "unknown", Type: TypeTypePseudo, Category: TypeCategoryUnknown}
	m[oidEnum] = &Type{OID: oidEnum, Name: "mood", Type: TypeTypeEnum, Category: TypeCategoryEnum}
	m[oidEnumArr] = &Type{OID: oidEnumArr, Name: "_mood", Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oidEnum}
	m[oidDom] = &Type{OID: oidDom, Name: "email", Type: TypeTypeDomain, Category: TypeCategoryString}
	m[oidDomArr] = &Type{OID: oidDomArr, Name: "_email", Type: TypeTypeBase, Category: TypeCategoryArray, Elem: oidDom}
	order = append(order, oidEnum, oidEnumArr, oidDom, oidDomArr)
	return m, order
}

// ---- Go types from their spelling
var kindNames = map[string]analysis.TypeKind{
	"bool": analysis.TypeKindBool, "int": analysis.TypeKindInt, "int8": analysis.TypeKindInt8, "int16": analysis.TypeKindInt16,
	"int32": analysis.TypeKindInt32, "int64": analysis.TypeKindInt64, "uint": analysis.TypeKindUint, "uint8": analysis.TypeKindUint8,
	"uint16": analysis.TypeKindUint16, "uint32": analysis.TypeKindUint32, "uint64": analysis.TypeKindUint64, "uintptr": analysis.TypeKindUintptr,
	"float32": analysis.TypeKindFloat32, "float64": analysis.TypeKindFloat64, "complex64": analysis.TypeKindComplex64,
	"complex128": analysis.TypeKindComplex128, "string": analysis.TypeKindString,
}

func typeFrom(s string) TI {
	switch {
	case s == "byte":
		return TI{Kind: analysis.TypeKindUint8, IsByte: true}
	case s == "rune":
		return TI{Kind: analysis.TypeKindInt32, IsRune: true}
	case s == "interface{}":
		return TI{Kind: analysis.TypeKindInterface, IsEmptyInterface: true}
	case strings.HasPrefix(s, "[]"):
		e := typeFrom(s[2:])
		return TI{Kind: analysis.TypeKindSlice, Elem: &e}
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		n, _ := strconv.ParseInt(s[1:i], 10, 64)
		e := typeFrom(s[i+1:])
		return TI{Kind: analysis.TypeKindArray, ArrayLen: n, Elem: &e}
	case strings.HasPrefix(s, "map["):
		i := strings.IndexByte(s, ']')
		k, e := typeFrom(s[4:i]), typeFrom(s[i+1:])
		return TI{Kind: analysis.TypeKindMap, Key: &k, Elem: &e}
	case strings.HasPrefix(s, "*"):
		e := typeFrom(s[1:])
		return TI{Kind: analysis.TypeKindPtr, Elem: &e}
	}
	if k, ok := kindNames[s]; ok {
		return TI{Kind: k}
	}
	if i := strings.IndexByte(s, '.'); i > 0 {
		k := analysis.TypeKindStruct
		if s == "net.IP" || s == "net.HardwareAddr" {
			k = analysis.TypeKindSlice
		}
		t := TI{Name: s[i+1:], Kind: k, PkgName: s[:i], PkgPath: s[:i], PkgLocal: s[:i], IsImported: true}
		if k == analysis.TypeKindSlice {
			t.Elem = &TI{Kind: analysis.TypeKindUint8, IsByte: true}
		}
		return t
	}
	return TI{Kind: analysis.TypeKindInt}
}

var kindSpelling = func() map[analysis.TypeKind]string {
	m := map[analysis.TypeKind]string{}
	for s, k := range kindNames {
		m[k] = s
	}
	m[analysis.TypeKindUnsafePointer] = "unsafe.Pointer"
	return m
}()

// litOf is the spelling the table is looked up by: a named type of a basic kind goes by its kind,
// and a pointer by what it points to.
func litOf(t TI) string {
	if t.Kind.IsBasic() {
		if t.IsByte {
			return "byte"
		}
		if t.IsRune {
			return "rune"
		}
		return kindSpelling[t.Kind]
	}
	if t.Name == "" && t.Kind == analysis.TypeKindPtr {
		return spell(*t.Elem)
	}
	return spell(t)
}

func spell(t TI) string {
	if t.Name != "" {
		if t.PkgName != "" {
			return t.PkgName + "." + t.Name
		}
		return t.Name
	}
	switch t.Kind {
	case analysis.TypeKindArray:
		return "[" + itoa(int(t.ArrayLen)) + "]" + spell(*t.Elem)
	case analysis.TypeKindSlice:
		return "[]" + spell(*t.Elem)
	case analysis.TypeKindMap:
		return "map[" + spell(*t.Key) + "]" + spell(*t.Elem)
	case analysis.TypeKindPtr:
		return "*" + spell(*t.Elem)
	case analysis.TypeKindUint8:
		if t.IsByte {
			return "byte"
		}
	case analysis.TypeKindInt32:
		if t.IsRune {
			return "rune"
		}
	case analysis.TypeKindInterface:
		if t.IsEmptyInterface {
			return "interface{}"
		}
		return "<unsupported>"
	case analysis.TypeKindStruct, analysis.TypeKindChan, analysis.TypeKindFunc:
		return "<unsupported>"
	}
	return kindSpelling[t.Kind]
}

// ---- the oracle
type oracle struct {
	types map[oid.OID]*Type
	cat   *Catalog
	rel   *Relation
	rels  map[string]*Relation
	alias string
	force *analysis.ForceDirective
}

func (o *oracle) col(r *Relation, n string) *Column {
	for _, c := range r.Columns {
		if c.Name == n {
			return c
		}
	}
	return nil
}
func (o *oracle) find(id analysis.ColIdent) *Column {
	if r, ok := o.rels[id.Qualifier]; ok {
		return o.col(r, id.Name)
	}
	return nil
}
func (o *oracle) fits(t *Type, g TI, one bool) (compentry, bool) {
	l := LT(litOf(g))
	id := t.OID
	if t.Type == TypeTypeEnum {
		id = oid.Text
	}
	get := func(id oid.OID, one bool) (compentry, bool) {
		e, ok := compatibility.oid2literal[compkey{id, one}][l]
		return e, ok
	}
	if one {
		if e, ok := get(id, true); ok {
			return e, true
		}
	}
	if e, ok := get(id, false); ok {
		return e, true
	}
	if t.Category == TypeCategoryString {
		return get(oid.Text, false)
	}
	if t.Category == TypeCategoryArray && o.types[t.Elem] != nil && o.types[t.Elem].Category == TypeCategoryString {
		return get(oid.TextArr, false)
	}
	return compentry{}, false
}
func (o *oracle) one(c *Column) bool {
	t := c.Type
	if t.Category == TypeCategoryArray {
		t = o.types[t.Elem]
	}
	return t.Category == TypeCategoryBitstring && c.TypeMod == 1 || t.Category == TypeCategoryString && c.TypeMod == 5
}
func deref(t TI) TI {
	if t.Kind == analysis.TypeKindPtr {
		return *t.Elem
	}
	return t
}
func either(t TI, fn func(TI) bool) bool {
	return fn(t) || t.Kind == analysis.TypeKindPtr && fn(*t.Elem)
}
func kindIn(ks ...analysis.TypeKind) func(TI) bool {
	return func(t TI) bool {
		for _, k := range ks {
			if t.Kind == k {
				return true
			}
		}
		return false
	}
}
func text(t TI) bool {
	return t.Kind == analysis.TypeKindSlice && t.Elem.Kind == analysis.TypeKindUint8 || either(t, kindIn(analysis.TypeKindString))
}
func encoded(t TI, own func(TI) bool, bad func(TI) bool, name string) (string, bool) {
	if either(t, own) {
		return name, true
	}
	if either(t, bad) {
		return "", false
	}
	if text(t) {
		return "", true
	}
	return name, true
}

var noJSON = kindIn(analysis.TypeKindChan, analysis.TypeKindFunc, analysis.TypeKindComplex64, analysis.TypeKindComplex128)
var noXML = kindIn(analysis.TypeKindChan, analysis.TypeKindFunc, analysis.TypeKindMap)

func (o *oracle) scanner(t TI, c *Column) (string, bool) {
	if t.Kind == analysis.TypeKindInterface && !t.IsEmptyInterface {
		return "", false
	}
	if either(t, func(t TI) bool { return t.IsScanner && t.Kind != analysis.TypeKindInterface }) {
		return "", true
	}
	if c.Type.OID == oid.JSON || c.Type.OID == oid.JSONB {
		return encoded(t, func(t TI) bool { return t.IsJSONUnmarshaler }, noJSON, "JSON")
	}
	if t.IsEmptyInterface {
		return "AnyToEmptyInterface", true
	}
	if c.Type.OID == oid.XML {
		return encoded(t, func(t TI) bool { return t.IsXMLUnmarshaler }, noXML, "XML")
	}
	e, ok := o.fits(c.Type, t, o.one(c))
	return e.scanner, ok
}
func (o *oracle) valuer(t TI, c *Column) (string, bool) {
	if either(t, func(t TI) bool { return t.IsValuer }) {
		return "", true
	}
	if c.Type.OID == oid.JSON || c.Type.OID == oid.JSONB {
		return encoded(t, func(t TI) bool { return t.IsJSONMarshaler }, noJSON, "JSON")
	}
	if c.Type.OID == oid.XML {
		return encoded(t, func(t TI) bool { return t.IsXMLMarshaler }, noXML, "XML")
	}
	e, ok := o.fits(c.Type, t, o.one(c))
	return e.valuer, ok
}

const mSel, mFil, mIns, mUpd = 1, 2, 4, 8

func (o *oracle) forced(n string) bool {
	if o.force == nil {
		return false
	}
	if o.force.All {
		return true
	}
	for _, c := range o.force.Items {
		if c.Name == n {
			return true
		}
	}
	return false
}
func modes(f *analysis.FieldInfo) (out []analysis.FieldMode) {
	for _, n := range f.Selector {
		out = append(out, n.Mode)
	}
	return append(out, f.Mode)
}
func wo(f *analysis.FieldInfo) bool {
	for _, m := range modes(f) {
		if m&mSel == 0 && m&(mIns|mUpd) != 0 {
			return true
		}
	}
	return false
}
func ro(f *analysis.FieldInfo) bool {
	for _, m := range modes(f) {
		if m&mSel != 0 && m&(mIns|mUpd) == 0 {
			return true
		}
	}
	return false
}

type bound struct {
	f    *analysis.FieldInfo
	c    *Column
	conv string
}

func (b bound) String() string { return fmt.Sprintf("%s=%s(%s)", b.c.Name, b.conv, litOf(b.f.Type)) }

// read: what a field to be read is bound to; nothing, or a rejection
func (o *oracle) read(f *analysis.FieldInfo, strict bool) (out []bound, ok bool) {
	c := o.col(o.rel, f.ColIdent.Name)
	if c == nil {
		return nil, !strict
	}
	s, ok := o.scanner(f.Type, c)
	if !ok {
		return nil, false
	}
	if wo(f) && !o.forced(f.ColIdent.Name) {
		return nil, true
	}
	return []bound{{f, c, s}}, true
}
func (o *oracle) reads(fs []*analysis.FieldInfo, strict func(*analysis.FieldInfo) bool) (out []bound, ok bool) {
	for _, f := range fs {
		b, ok := o.read(f, strict(f))
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, true
}
func listed(n string, all bool, items []analysis.ColIdent) bool {
	if all {
		return true
	}
	for _, c := range items {
		if c.Name == n {
			return true
		}
	}
	return false
}

// ---- random input
type gen struct {
	*vf
	o     *oracle
	order []oid.OID
	lits  map[oid.OID][]string
	info  *analysis.Info
	db    *DB
}

func (g *gen) p(n int) bool { return g.r.Intn(n) == 0 }

var colNames = []string{"a", "b", "c", "d", "e", "f"}

func newGen(f *vf) *gen {
	g := &gen{vf: f, o: &oracle{}}
	g.o.types, g.order = catalogTypes()
	g.lits = map[oid.OID][]string{}
	for k, row := range compatibility.oid2literal {
		for l := range row {
			g.lits[k.oid] = append(g.lits[k.oid], string(l))
		}
	}
	for k := range g.lits {
		sortStrings(g.lits[k])
	}
	return g
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func (g *gen) relation(name string) *Relation {
	r := &Relation{Name: name}
	n := 1 + g.r.Intn(len(colNames))
	for i := 0; i < n; i++ {
		o := g.order[g.r.Intn(len(g.order))]
		c := &Column{Num: int16(i + 1), Name: colNames[i], Type: g.o.types[o], TypeOID: o, TypeMod: []int{-1, 1, 5, 4, 9}[g.r.Intn(5)],
			HasNotNull: g.p(2), HasDefault: g.p(2), IsPrimary: g.p(4), Relation: r}
		r.Columns = append(r.Columns, c)
	}
	if g.p(6) && n > 1 { // a name twice: the first counts
		r.Columns[n-1].Name = r.Columns[0].Name
	}
	return r
}

func (g *gen) typeFor(c *Column) TI {
	var t TI
	id := oid.OID(oid.Text)
	if c != nil {
		id = c.Type.OID
	}
	ls := g.lits[id]
	if len(ls) == 0 {
		ls = g.lits[oid.Text]
		if c.Type.Category == TypeCategoryArray {
			ls = g.lits[oid.TextArr]
		}
	}
	switch g.r.Intn(10) {
	default:
		t = typeFrom(ls[g.r.Intn(len(ls))])
	case 0, 1:
		all := []string{"chan", "func", "struct", "iface", "interface{}", "map[string]int", "[]byte", "string", "complex64", "[]string", "[][]byte", "int", "rune", "byte", "uint8", "int32", "[]uint8", "[]int32", "[2]int", "[3]string", "time.Time", "*string", "net.IP"}
		s := all[g.r.Intn(len(all))]
		switch s {
		case "chan":
			t = TI{Kind: analysis.TypeKindChan}
		case "func":
			t = TI{Kind: analysis.TypeKindFunc}
		case "struct":
			t = TI{Kind: analysis.TypeKindStruct, Name: "T", PkgName: "m"}
		case "iface":
			t = TI{Kind: analysis.TypeKindInterface, Name: "I", PkgName: "m"}
		default:
			t = typeFrom(s)
		}
	}
	mark := func(t *TI) {
		if g.p(9) {
			t.IsScanner = g.p(2)
			t.IsValuer = g.p(2)
			t.IsJSONMarshaler, t.IsJSONUnmarshaler = g.p(2), g.p(2)
			t.IsXMLMarshaler, t.IsXMLUnmarshaler = g.p(2), g.p(2)
		}
	}
	mark(&t)
	if g.p(8) && t.Kind.IsBasic() {
		t.Name, t.PkgName, t.PkgLocal = "N", "m", "m"
	}
	if g.p(4) {
		e := t
		t = TI{Kind: analysis.TypeKindPtr, Elem: &e}
		mark(&t)
	}
	return t
}

var modeChoices = []analysis.FieldMode{15, 15, 15, 15, 1, 3, 12, 14, 13, 11, 7, 2, 0, 8, 4, 31}

func (g *gen) field(i int) *analysis.FieldInfo {
	n := colNames[g.r.Intn(len(colNames))]
	if !g.p(30) && g.o.col(g.o.rel, n) == nil {
		n = g.o.rel.Columns[g.r.Intn(len(g.o.rel.Columns))].Name
	}
	f := &analysis.FieldInfo{Name: "F" + itoa(i), ColIdent: analysis.ColIdent{Name: n, Qualifier: []string{"", "x"}[g.r.Intn(2)]}, Mode: modeChoices[g.r.Intn(len(modeChoices))]}
	f.Type = g.typeFor(g.o.col(g.o.rel, n))
	f.UseDefault = g.p(12)
	for g.p(5) {
		f.Selector = append(f.Selector, &analysis.FieldSelectorNode{Name: "S", Mode: modeChoices[g.r.Intn(len(modeChoices))]})
	}
	return f
}
func (g *gen) fields() (out []*analysis.FieldInfo) {
	for i := g.r.Intn(5); i > 0; i-- {
		out = append(out, g.field(i))
	}
	return
}
func (g *gen) list(from []string) analysis.ColIdentList {
	var l analysis.ColIdentList
	if g.p(4) {
		l.All = true
		return l
	}
	for i := g.r.Intn(3); i >= 0; i-- {
		l.Items = append(l.Items, analysis.ColIdent{Name: from[g.r.Intn(len(from))]})
	}
	return l
}
func (g *gen) known() []string {
	var out []string
	for _, c := range g.o.rel.Columns {
		out = append(out, c.Name)
	}
	return out
}

// setup makes the database: the target relation t (alias x) and, for conditions, u.
func (g *gen) setup() {
	cat := &Catalog{Types: g.o.types, Operators: map[OpKey]*Operator{}, Casts: map[CastKey]*Cast{}, Procs: map[string][]*Proc{}, Relations: map[analysis.RelIdent]*Relation{}}
	g.o.cat, g.o.force = cat, nil
	g.o.rel = g.relation("t")
	u := g.relation("u")
	g.o.alias = []string{"", "x"}[g.r.Intn(2)]
	cat.Relations[analysis.RelIdent{Name: "t", Alias: g.o.alias}] = g.o.rel
	cat.Relations[analysis.RelIdent{Name: "u", Alias: "v"}] = u
	key := g.o.alias
	if key == "" {
		key = "t"
	}
	g.o.rels = map[string]*Relation{"": g.o.rel, key: g.o.rel}
	g.db = &DB{DB: fakeDB, catalog: cat}
	g.info = &analysis.Info{FileSet: token.NewFileSet(), FieldMap: map[analysis.FieldPtr]analysis.FieldVar{}}
}
func (g *gen) target(fs []*analysis.FieldInfo) *analysis.RelField {
	return &analysis.RelField{FieldName: "Rel", Id: analysis.RelIdent{Name: "t", Alias: g.o.alias}, Type: analysis.RelType{Fields: fs}}
}

// run checks the target and returns the result, or a panic
func (g *gen) run(ts analysis.TargetStruct) (ti *TargetInfo, err error, p interface{}) {
	p = guard(func() { ti, err = Check(g.db, ts, g.info) })
	return
}

func (g *gen) accept(name string, want bool, err error, p interface{}, what string) bool {
	if p != nil {
		g.bad(name+"/panic", "%v: %s", p, what)
		return false
	}
	if (err == nil) != want {
		g.bad(name+"/accepted", "accepted %v, want %v: %s", err == nil, want, what)
		return false
	}
	return err == nil
}

func showRel(r *Relation) string {
	var s []string
	for _, c := range r.Columns {
		x := c.Name + " " + c.Type.Name + "(" + itoa(c.TypeMod) + ")"
		if c.IsPrimary {
			x += " pk"
		}
		if c.HasDefault {
			x += " def"
		}
		if c.HasNotNull {
			x += " nn"
		}
		s = append(s, x)
	}
	return r.Name + "(" + strings.Join(s, ", ") + ")"
}
func showFields(fs []*analysis.FieldInfo) string {
	var s []string
	for _, f := range fs {
		x := f.ColIdent.Name + ":" + spell(f.Type)
		for _, m := range modes(f) {
			x += "/" + itoa(int(m))
		}
		if f.UseDefault {
			x += " default"
		}
		s = append(s, x)
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func (g *gen) sameWrites(name string, got []*FieldWrite, want []bound, what string) {
	if len(got) != len(want) {
		g.bad(name, "%d bound, want %v: %s", len(got), want, what)
		return
	}
	for i, w := range want {
		x := got[i]
		if x.Field != w.f || x.Column != w.c || x.Valuer != w.conv || x.ColIdent.Name != w.f.ColIdent.Name || x.ColIdent.Qualifier != g.o.alias {
			g.bad(name, "%d: %s.%s through %q, want %v: %s", i, x.ColIdent.Qualifier, x.Column.Name, x.Valuer, w, what)
		}
	}
}
func (g *gen) sameReads(name string, got []*FieldRead, want []bound, what string) {
	if len(got) != len(want) {
		g.bad(name, "%d bound, want %v: %s", len(got), want, what)
		return
	}
	for i, w := range want {
		x := got[i]
		if x.Field != w.f || x.Column != w.c || x.Scanner != w.conv || x.ColIdent.Name != w.f.ColIdent.Name || x.ColIdent.Qualifier != g.o.alias {
			g.bad(name, "%d: %s.%s through %q, want %v: %s", i, x.ColIdent.Qualifier, x.Column.Name, x.Scanner, w, what)
		}
	}
}

// ---- C01: fields and columns
func (g *gen) fieldCase() {
	g.setup()
	o := g.o
	fs := g.fields()
	what := showRel(o.rel) + " fields " + showFields(fs)
	if g.p(4) { // a filter
		want, ok := []bound{}, true
		for _, f := range fs {
			ex := false
			for _, m := range modes(f) {
				ex = ex || m&mFil == 0
			}
			c := o.col(o.rel, f.ColIdent.Name)
			if ex || c == nil {
				continue
			}
			v, fit := o.valuer(f.Type, c)
			ok = ok && fit
			want = append(want, bound{f, c, v})
		}
		ti, err, p := g.run(&analysis.FilterStruct{Rel: g.target(fs)})
		if g.accept("filter", ok, err, p, what) {
			var got []*FieldWrite
			for _, x := range ti.Filters {
				got = append(got, &FieldWrite{Field: x.Field, ColIdent: x.ColIdent, Column: x.Column, Valuer: x.Valuer})
			}
			g.sameWrites("filter/bound", got, want, what)
		}
		return
	}
	qs := &analysis.QueryStruct{Rel: g.target(fs)}
	kinds := []analysis.QueryKind{analysis.QueryKindSelect, analysis.QueryKindInsert, analysis.QueryKindUpdate, analysis.QueryKindDelete, analysis.QueryKindSelectCount}
	qs.Kind = kinds[g.r.Intn(len(kinds))]
	qs.Rel.IsDirective = g.p(10)
	if g.p(3) {
		qs.Force = &analysis.ForceDirective{ColIdentList: g.list(g.known())}
		o.force = qs.Force
		what += fmt.Sprintf(" force %v", qs.Force.ColIdentList)
	}
	if g.p(3) {
		qs.Optional = &analysis.OptionalDirective{ColIdentList: g.list(colNames)}
		what += fmt.Sprintf(" optional %v", qs.Optional.ColIdentList)
	}
	what += " " + qs.Kind.String()
	var reads, writes, keys []bound
	ok := true
	add := func(b []bound, fit bool) {
		reads = append(reads, b...)
		ok = ok && fit
	}
	if g.p(3) && len(fs) > 0 {
		qs.Return = &analysis.ReturnDirective{}
		if g.p(2) {
			qs.Return.All = true
			add(o.reads(fs, func(*analysis.FieldInfo) bool { return false }))
		} else {
			var sel []*analysis.FieldInfo
			for i := g.r.Intn(3); i >= 0; i-- {
				n := fs[g.r.Intn(len(fs))].ColIdent.Name
				qs.Return.Items = append(qs.Return.Items, analysis.ColIdent{Name: n})
				ok = ok && o.col(o.rel, n) != nil
				for _, f := range fs {
					if f.ColIdent.Name == n {
						sel = append(sel, f)
						break
					}
				}
			}
			if ok {
				add(o.reads(sel, func(*analysis.FieldInfo) bool { return true }))
			}
		}
		what += fmt.Sprintf(" return %v", qs.Return.ColIdentList)
	}
	if g.p(4) {
		qs.Result = &analysis.ResultField{Type: analysis.RelType{Fields: g.fields()}}
		add(o.reads(qs.Result.Type.Fields, func(*analysis.FieldInfo) bool { return true }))
		what += " result " + showFields(qs.Result.Type.Fields)
	}
	if !qs.Rel.IsDirective {
		switch qs.Kind {
		case analysis.QueryKindSelect:
			add(o.reads(fs, func(f *analysis.FieldInfo) bool {
				return qs.Optional == nil || !listed(f.ColIdent.Name, qs.Optional.All, qs.Optional.Items)
			}))
		case analysis.QueryKindInsert, analysis.QueryKindUpdate:
			bit := analysis.FieldMode(mIns)
			if qs.Kind == analysis.QueryKindUpdate {
				bit = mUpd
			}
			for _, f := range fs {
				c := o.col(o.rel, f.ColIdent.Name)
				if c == nil {
					ok = ok && ro(f)
					continue
				}
				v, fit := o.valuer(f.Type, c)
				ok = ok && fit && (!f.UseDefault || c.HasDefault)
				if c.IsPrimary {
					keys = append(keys, bound{f, c, v})
				}
				if f.Mode&bit != 0 || o.forced(f.ColIdent.Name) {
					writes = append(writes, bound{f, c, v})
				}
			}
		}
	}
	ti, err, p := g.run(qs)
	if g.accept("fields", ok, err, p, what) {
		g.sameReads("fields/reads", ti.Reads, reads, what)
		g.sameWrites("fields/writes", ti.Writes, writes, what)
		g.sameWrites("fields/keys", ti.PKeys, keys, what)
	}
}

func TestVerifC01(t *testing.T) {
	f := newVF()
	n := searchTable(f)
	g := newGen(f)
	it := 0
	for ; it < 60000 && !f.done(); it++ {
		g.fieldCase()
	}
	fmt.Printf("CASES every one of the %d entries of the table; %d random records, relations and directives\n", n, it)
	f.finish(t)
}

// ---- C02: names and conditions
var opNames = map[analysis.Predicate]string{
	analysis.IsEQ: "=", analysis.NotEQ: "<>", analysis.NotEQ2: "<>", analysis.IsLT: "<", analysis.IsGT: ">", analysis.IsLTE: "<=", analysis.IsGTE: ">=",
	analysis.IsMatch: "~", analysis.IsMatchi: "~*", analysis.NotMatch: "!~", analysis.NotMatchi: "!~*", analysis.IsDistinct: "<>", analysis.NotDistinct: "=",
	analysis.IsLike: "~~", analysis.NotLike: "!~~", analysis.IsILike: "~~*", analysis.NotILike: "!~~*", analysis.IsSimilar: "~~", analysis.NotSimilar: "!~~",
	analysis.IsIn: "=", analysis.NotIn: "<>",
}
var binary = []analysis.Predicate{analysis.IsEQ, analysis.NotEQ, analysis.NotEQ2, analysis.IsLT, analysis.IsGT, analysis.IsLTE, analysis.IsGTE, analysis.IsDistinct, analysis.NotDistinct,
	analysis.IsMatch, analysis.IsMatchi, analysis.NotMatch, analysis.NotMatchi, analysis.IsLike, analysis.NotLike, analysis.IsILike, analysis.NotILike, analysis.IsSimilar, analysis.NotSimilar}

func isNull(p analysis.Predicate) bool { return p == analysis.IsNull || p == analysis.NotNull }
func isTruth(p analysis.Predicate) bool {
	switch p {
	case analysis.IsTrue, analysis.NotTrue, analysis.IsFalse, analysis.NotFalse, analysis.IsUnknown, analysis.NotUnknown:
		return true
	}
	return false
}
func isSeq(p analysis.Predicate) bool { return p == analysis.IsIn || p == analysis.NotIn }

func (o *oracle) hasop(n string, l, r oid.OID) bool {
	_, ok := o.cat.Operators[OpKey{Name: n, Left: l, Right: r}]
	return ok
}
func (o *oracle) compares(l, r *Type, p analysis.Predicate, q analysis.Quantifier) bool {
	if isSeq(p) || q > 0 {
		if r.Category != TypeCategoryArray {
			return false
		}
		r = o.types[r.Elem]
	}
	if l.OID == r.OID {
		return true
	}
	if (l.Category == TypeCategoryString || l.Type == TypeTypeEnum) && r.OID == oid.Unknown {
		return true
	}
	n := opNames[p]
	imp := func(s, t oid.OID) bool {
		c := o.cat.Casts[CastKey{Source: s, Target: t}]
		return c != nil && c.Context == CastContextImplicit && o.hasop(n, t, t)
	}
	return o.hasop(n, l.OID, r.OID) || imp(l.OID, r.OID) || imp(r.OID, l.OID)
}
func (o *oracle) column(l, r *Column, rt *Type, p analysis.Predicate, q analysis.Quantifier, where bool) bool {
	if isTruth(p) {
		return l.Type.OID == oid.Bool
	}
	if isNull(p) {
		return !l.HasNotNull || where && l.Relation != o.rel
	}
	if rt == nil {
		return false
	}
	return o.compares(l.Type, rt, p, q)
}

// field: whether the condition is accepted, and the valuers it may use
func (o *oracle) field(c *Column, t TI, p analysis.Predicate, q analysis.Quantifier, fn string) (map[string]bool, bool) {
	if !t.Kind.IsBasic() && t.IsValuer {
		t = TI{Kind: analysis.TypeKindString}
	}
	if fn != "" {
		procs, ok := o.cat.Procs[fn]
		if !ok {
			return nil, false
		}
		for _, l := range procs {
			for _, r := range procs {
				lt, rt, la, ra := o.types[l.RetType], o.types[r.RetType], o.types[l.ArgType], o.types[r.ArgType]
				if lt == nil || rt == nil || !o.compares(lt, rt, p, q) || la == nil || ra == nil {
					continue
				}
				src := c.Type.OID
				cast := o.cat.Casts[CastKey{Source: src, Target: la.OID}]
				if la.OID == src || la.OID == oid.Any || src == oid.Unknown || cast != nil && cast.Context == CastContextImplicit {
					if e, ok := o.fits(ra, t, false); ok {
						return map[string]bool{e.valuer: true}, true
					}
				}
			}
		}
		return nil, false
	}
	ct := c.Type
	id := ct.OID
	if ct.Type == TypeTypeEnum {
		id = oid.Text
	}
	if isSeq(p) || q > 0 {
		a, ok := oid.TypeToArray[c.Type.OID]
		if !ok || o.types[a] == nil {
			return nil, false
		}
		ct = o.types[a]
	}
	n := opNames[p]
	if o.hasop(n, id, id) {
		if e, ok := o.fits(ct, t, o.one(c)); ok {
			return map[string]bool{e.valuer: true}, true
		}
	}
	out := map[string]bool{}
	for k := range o.cat.Operators {
		if k.Name == n && k.Left == id && o.types[k.Right] != nil {
			if e, ok := o.fits(o.types[k.Right], t, false); ok {
				out[e.valuer] = true
			}
		}
	}
	if out[""] {
		out = map[string]bool{"": true}
	}
	return out, len(out) > 0
}

func (g *gen) qual() string {
	qs := []string{"", g.o.alias}
	if _, ok := g.o.rels["v"]; ok {
		qs = append(qs, "v")
	}
	if g.p(40) {
		return "nope"
	}
	return qs[g.r.Intn(len(qs))]
}
func (g *gen) ident() analysis.ColIdent {
	id := analysis.ColIdent{Qualifier: g.qual()}
	r := g.o.rels[id.Qualifier]
	if r == nil && id.Qualifier == "" {
		r = g.o.rel
	}
	if r == nil || g.p(30) {
		id.Name = colNames[g.r.Intn(len(colNames))]
	} else {
		id.Name = r.Columns[g.r.Intn(len(r.Columns))].Name
	}
	return id
}
func (g *gen) pred() (analysis.Predicate, analysis.Quantifier) {
	switch g.r.Intn(8) {
	case 0:
		return []analysis.Predicate{analysis.IsIn, analysis.NotIn}[g.r.Intn(2)], 0
	case 1:
		return binary[g.r.Intn(len(binary))], analysis.Quantifier(1 + g.r.Intn(3))
	}
	return binary[g.r.Intn(len(binary))], 0
}
func (g *gen) unary() analysis.Predicate {
	return []analysis.Predicate{analysis.IsNull, analysis.NotNull, analysis.IsTrue, analysis.NotTrue, analysis.IsFalse, analysis.NotFalse, analysis.IsUnknown, analysis.NotUnknown}[g.r.Intn(8)]
}

// column makes a condition on columns; rel is the relation its left side must be of, or nil
func (g *gen) column(rel *Relation, where bool) (c ColumnConditional, ok bool, what string) {
	c.LHSColIdent = g.ident()
	if rel != nil && !g.p(30) {
		c.LHSColIdent.Name = rel.Columns[g.r.Intn(len(rel.Columns))].Name
	}
	l := g.o.find(c.LHSColIdent)
	if rel != nil {
		l = g.o.col(rel, c.LHSColIdent.Name)
	}
	c.LHSColumn = l
	var rt *Type
	ok = l != nil
	if g.p(3) {
		c.Predicate = g.unary()
		if l != nil && l.Type.OID != oid.Bool && !g.p(6) {
			c.Predicate = analysis.IsNull
		}
	} else {
		c.Predicate, c.Quantifier = g.pred()
		if g.p(2) {
			c.RHSColIdent = g.ident()
			r := g.o.find(c.RHSColIdent)
			c.RHSColumn = r
			ok = ok && r != nil
			if r != nil {
				rt = r.Type
			}
		} else {
			id := g.order[g.r.Intn(len(g.order))]
			switch g.r.Intn(5) {
			case 0:
				id = oid.Unknown
			case 1, 2:
				if l != nil {
					id = l.Type.OID
					if a, is := oid.TypeToArray[id]; is && (isSeq(c.Predicate) || c.Quantifier > 0) {
						id = a
					}
				}
			}
			if g.p(20) {
				id = oidPseudo
			}
			c.RHSLiteral = itoa(int(id))
			rt = g.o.types[id]
		}
		c.RHSType = rt
	}
	ok = ok && g.o.column(l, c.RHSColumn, rt, c.Predicate, c.Quantifier, where)
	what = fmt.Sprintf("%v %d/%d %v %s", c.LHSColIdent, c.Predicate, c.Quantifier, c.RHSColIdent, c.RHSLiteral)
	return
}

// wanted conditions
type wantCond struct {
	field   *FieldConditional
	valuers map[string]bool
	column  *ColumnConditional
	between *analysis.WhereBetweenStruct
	col     *Column
	lo, hi  *wantCond
	bool    *analysis.Boolean
	nested  []wantCond
	name    string
}

func (g *gen) fieldCond() (w wantCond, wi *analysis.WhereStructField, ok bool, what string) {
	id := g.ident()
	p, q := g.pred()
	c := g.o.find(id)
	t := g.typeFor(c)
	if c != nil && (isSeq(p) || q > 0) {
		if a, is := oid.TypeToArray[c.Type.OID]; is && g.o.types[a] != nil {
			t = g.typeFor(&Column{Type: g.o.types[a]})
		}
	}
	fn := ""
	if g.p(5) {
		fn = []string{"lower", "upper", "max"}[g.r.Intn(3)]
	}
	wi = &analysis.WhereStructField{Name: "W" + itoa(g.r.Intn(9)), Type: t, ColIdent: id, Predicate: p, Quantifier: q, FuncName: analysis.FuncName(fn)}
	w.field = &FieldConditional{FieldName: wi.Name, FieldType: t, ColIdent: id, Column: c, Predicate: p, Quantifier: q, FuncName: wi.FuncName}
	ok = c != nil
	if ok {
		w.valuers, ok = g.o.field(c, t, p, q, fn)
	}
	what = fmt.Sprintf("%v %s(%d/%d) %s", id, fn, p, q, spell(t))
	return
}

func (g *gen) item(depth int) (w wantCond, it analysis.WhereItem, ok bool, what string) {
	switch n := g.r.Intn(8); {
	case n == 0:
		b := analysis.Boolean(1 + g.r.Intn(2))
		return wantCond{bool: &b}, &analysis.WhereBoolTag{Value: b}, true, "bool"
	case n == 1 && depth > 0:
		ws := &analysis.WhereStruct{FieldName: "N" + itoa(g.r.Intn(9))}
		w = wantCond{nested: []wantCond{}, name: ws.FieldName}
		ok = true
		for i := g.r.Intn(3); i >= 0; i-- {
			x, y, k, s := g.item(depth - 1)
			w.nested = append(w.nested, x)
			ws.Items = append(ws.Items, y)
			ok = ok && k
			what += s + "; "
		}
		return w, ws, ok, "{" + what + "}"
	case n == 2 || n == 3:
		c, k, s := g.column(nil, true)
		return wantCond{column: &c}, &analysis.WhereColumnDirective{LHSColIdent: c.LHSColIdent, RHSColIdent: c.RHSColIdent, RHSLiteral: c.RHSLiteral, Predicate: c.Predicate, Quantifier: c.Quantifier}, k, s
	case n == 4:
		ps := []analysis.Predicate{analysis.IsBetween, analysis.NotBetween, analysis.IsBetweenSym, analysis.NotBetweenSym, analysis.IsBetweenAsym, analysis.NotBetweenAsym}
		wb := &analysis.WhereBetweenStruct{FieldName: "B" + itoa(g.r.Intn(9)), ColIdent: g.ident(), Predicate: ps[g.r.Intn(len(ps))]}
		col := g.o.find(wb.ColIdent)
		ok = col != nil
		w = wantCond{between: wb, col: col}
		what = fmt.Sprintf("%v between %d", wb.ColIdent, wb.Predicate)
		not := wb.Predicate == analysis.NotBetween || wb.Predicate == analysis.NotBetweenSym || wb.Predicate == analysis.NotBetweenAsym
		for i := 0; i < 2; i++ {
			p := [][]analysis.Predicate{{analysis.IsGTE, analysis.IsLTE}, {analysis.IsLT, analysis.IsGT}}[map[bool]int{true: 1}[not]][i]
			var b analysis.RangeBound
			x := &wantCond{}
			if g.p(2) {
				id := g.ident()
				r := g.o.find(id)
				b = &analysis.BetweenColumnDirective{ColIdent: id}
				x.column = &ColumnConditional{LHSColIdent: wb.ColIdent, LHSColumn: col, RHSColIdent: id, RHSColumn: r, Predicate: p}
				if r != nil {
					x.column.RHSType = r.Type
				}
				ok = ok && r != nil && g.o.compares(col.Type, r.Type, p, 0)
				what += fmt.Sprintf(" %v", id)
			} else {
				f := &analysis.BetweenStructField{Name: "X" + itoa(i), Type: g.typeFor(col)}
				b = f
				x.field = &FieldConditional{FieldName: f.Name, FieldType: f.Type, ColIdent: wb.ColIdent, Column: col, Predicate: p}
				if ok {
					x.valuers, ok = g.o.field(col, f.Type, p, 0, "")
				}
				what += " " + spell(f.Type)
			}
			if i == 0 {
				wb.LowerBound, w.lo = b, x
			} else {
				wb.UpperBound, w.hi = b, x
			}
		}
		return w, wb, ok, what
	}
	w, f, ok, what := g.fieldCond()
	return w, f, ok, what
}

func (g *gen) sameCond(got interface{}, w *wantCond) string {
	diff := func(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
	switch {
	case w.bool != nil:
		b, is := got.(*Boolean)
		if !is || b.Value != *w.bool {
			return diff("%T, want a boolean %v", got, *w.bool)
		}
	case w.nested != nil:
		n, is := got.(*NestedConditional)
		if !is || n.FieldName != w.name || len(n.Conditionals) != len(w.nested) {
			return diff("%T, want %d nested", got, len(w.nested))
		}
		for i := range w.nested {
			if s := g.sameCond(n.Conditionals[i], &w.nested[i]); s != "" {
				return s
			}
		}
	case w.column != nil:
		c, is := got.(*ColumnConditional)
		if !is || !reflect.DeepEqual(*c, *w.column) {
			return diff("%T %+v, want %+v", got, got, *w.column)
		}
	case w.field != nil:
		f, is := got.(*FieldConditional)
		if !is || !w.valuers[f.Valuer] {
			return diff("%T %+v, want a valuer of %v", got, got, w.valuers)
		}
		x := *f
		x.Valuer = ""
		if !reflect.DeepEqual(x, *w.field) {
			return diff("%+v, want %+v", x, *w.field)
		}
	case w.between != nil:
		b, is := got.(*BetweenConditional)
		if !is || b.FieldName != w.between.FieldName || b.ColIdent != w.between.ColIdent || b.Column != w.col || b.Predicate != w.between.Predicate {
			return diff("%T %+v, want %+v", got, got, *w.between)
		}
		if s := g.sameCond(b.LowerBound, w.lo); s != "" {
			return "lower: " + s
		}
		if s := g.sameCond(b.UpperBound, w.hi); s != "" {
			return "upper: " + s
		}
	}
	return ""
}

func (g *gen) operators() {
	cat := g.o.cat
	names := []string{"=", "<>", "<", ">", "<=", ">=", "~", "~*", "!~", "!~*", "~~", "!~~", "~~*", "!~~*"}
	ids := []oid.OID{oid.Text, oid.Int4, oid.Bool}
	for _, r := range g.o.cat.Relations {
		for _, c := range r.Columns {
			ids = append(ids, c.Type.OID)
		}
	}
	for _, id := range ids {
		for _, n := range names {
			if !g.p(4) {
				cat.Operators[OpKey{Name: n, Left: id, Right: id}] = &Operator{Name: n, Left: id, Right: id}
			}
			if g.p(3) {
				k := OpKey{Name: n, Left: id, Right: ids[g.r.Intn(len(ids))]}
				if g.p(10) {
					k.Right = 999999
				}
				cat.Operators[k] = &Operator{Name: n, Left: k.Left, Right: k.Right}
			}
		}
	}
	for i := 0; i < 12; i++ {
		k := CastKey{Target: ids[g.r.Intn(len(ids))], Source: ids[g.r.Intn(len(ids))]}
		if g.p(6) {
			k.Source = oid.Unknown
		}
		cat.Casts[k] = &Cast{Source: k.Source, Target: k.Target, Context: []CastContext{CastContextExplicit, CastContextImplicit, CastContextAssignment}[g.r.Intn(3)]}
	}
	for _, n := range []string{"lower", "upper"} {
		for i := g.r.Intn(3); i >= 0; i-- {
			a, r := ids[g.r.Intn(len(ids))], ids[g.r.Intn(len(ids))]
			if g.p(8) {
				a = oid.Any
			}
			if g.p(12) {
				r = 999999
			}
			cat.Procs[n] = append(cat.Procs[n], &Proc{Name: n, ArgType: a, RetType: r})
		}
	}
}

func (g *gen) condCase() {
	g.setup()
	g.operators()
	o := g.o
	what := showRel(o.rel) + " " + showRel(o.cat.Relations[analysis.RelIdent{Name: "u", Alias: "v"}])
	if g.p(12) { // text search
		id := analysis.ColIdent{Name: colNames[g.r.Intn(len(colNames))]}
		if g.p(2) {
			o.rel.Columns[0].Type = o.types[oid.TSVector]
			id.Name = o.rel.Columns[0].Name
		}
		c := o.col(o.rel, id.Name)
		_, err, p := g.run(&analysis.FilterStruct{Rel: g.target(nil), TextSearch: &analysis.TextSearchDirective{ColIdent: id}})
		g.accept("textsearch", c != nil && c.Type.OID == oid.TSVector, err, p, what+" "+id.Name)
		return
	}
	qs := &analysis.QueryStruct{Rel: g.target(nil), Kind: analysis.QueryKindDelete}
	ok := true
	var joins [][]wantCond
	if g.p(2) {
		qs.Join = &analysis.JoinStruct{}
		u := o.cat.Relations[analysis.RelIdent{Name: "u", Alias: "v"}]
		rid := analysis.RelIdent{Name: "u", Alias: "v"}
		o.rels["v"] = u
		if g.p(2) {
			qs.Join.Relation = &analysis.RelationDirective{RelIdent: rid}
		} else {
			d := &analysis.JoinDirective{RelIdent: rid}
			ws := []wantCond{}
			for i := g.r.Intn(3); i > 0; i-- {
				if g.p(4) {
					b := analysis.Boolean(1 + g.r.Intn(2))
					d.TagItems = append(d.TagItems, &analysis.JoinBoolTagItem{Value: b})
					ws = append(ws, wantCond{bool: &b})
					continue
				}
				c, k, s := g.column(u, false)
				ok = ok && k
				what += " join " + s
				d.TagItems = append(d.TagItems, &analysis.JoinConditionTagItem{LHSColIdent: c.LHSColIdent, RHSColIdent: c.RHSColIdent, RHSLiteral: c.RHSLiteral, Predicate: c.Predicate, Quantifier: c.Quantifier})
				ws = append(ws, wantCond{column: &c})
			}
			qs.Join.Directives = append(qs.Join.Directives, d)
			joins = append(joins, ws)
		}
	}
	if g.p(6) {
		qs.Force = &analysis.ForceDirective{}
		for i := g.r.Intn(3); i >= 0; i-- {
			id := g.ident()
			qs.Force.Items = append(qs.Force.Items, id)
			ok = ok && o.find(id) != nil
		}
		what += fmt.Sprintf(" force %v", qs.Force.Items)
	}
	if g.p(6) {
		qs.Default = &analysis.DefaultDirective{}
		for i := g.r.Intn(2); i >= 0; i-- {
			id := analysis.ColIdent{Name: g.ident().Name}
			c := o.col(o.rel, id.Name)
			qs.Default.Items = append(qs.Default.Items, id)
			ok = ok && c != nil && c.HasDefault
		}
		what += fmt.Sprintf(" default %v", qs.Default.Items)
	}
	if g.p(6) {
		qs.OrderBy = &analysis.OrderByDirective{}
		for i := g.r.Intn(3); i >= 0; i-- {
			id := g.ident()
			qs.OrderBy.Items = append(qs.OrderBy.Items, analysis.OrderByTagItem{ColIdent: id})
			ok = ok && o.find(id) != nil
		}
		what += fmt.Sprintf(" orderby %v", qs.OrderBy.Items)
	}
	var where []wantCond
	if !g.p(4) {
		qs.Where = &analysis.WhereStruct{}
		for i := g.r.Intn(3); i >= 0; i-- {
			w, it, k, s := g.item(2)
			qs.Where.Items = append(qs.Where.Items, it)
			where = append(where, w)
			ok = ok && k
			what += " where " + s
		}
	}
	ti, err, p := g.run(qs)
	if !g.accept("conditions", ok, err, p, what) {
		return
	}
	if len(ti.Where) != len(where) || len(ti.Joins) != len(joins) {
		g.bad("conditions/count", "%d conditions and %d joins, want %d and %d: %s", len(ti.Where), len(ti.Joins), len(where), len(joins), what)
		return
	}
	for i := range where {
		if s := g.sameCond(ti.Where[i], &where[i]); s != "" {
			g.bad("conditions/where", "%d: %s: %s", i, s, what)
		}
	}
	for i := range joins {
		if len(ti.Joins[i]) != len(joins[i]) {
			g.bad("conditions/join", "%d: %d conditions, want %d: %s", i, len(ti.Joins[i]), len(joins[i]), what)
			continue
		}
		for j := range joins[i] {
			if s := g.sameCond(ti.Joins[i][j], &joins[i][j]); s != "" {
				g.bad("conditions/join", "%d.%d: %s: %s", i, j, s, what)
			}
		}
	}
}

func TestVerifC02(t *testing.T) {
	f := newVF()
	g := newGen(f)
	it := 0
	for ; it < 60000 && !f.done(); it++ {
		g.condCase()
	}
	fmt.Printf("CASES %d random relations, catalogs, joins and conditions nested up to three deep\n", it)
	f.finish(t)
}

// ---- C03: ON CONFLICT
func (g *gen) conflictCase() {
	g.setup()
	o := g.o
	rel := o.rel
	for i := g.r.Intn(4); i > 0; i-- {
		x := &Index{Name: []string{"i", "j", "k"}[g.r.Intn(3)], IsUnique: g.p(2), IsPrimary: g.p(4), Expression: "e" + itoa(i), Predicate: "p" + itoa(i)}
		perm := g.r.Perm(len(rel.Columns))
		for _, k := range perm[:g.r.Intn(min2(3, len(perm)))+1] {
			x.Key = append(x.Key, rel.Columns[k].Num)
		}
		rel.Indexes = append(rel.Indexes, x)
	}
	for i := g.r.Intn(3); i > 0; i-- {
		ts := []ConstraintType{ConstraintTypeCheck, ConstraintTypeFKey, ConstraintTypePKey, ConstraintTypeUnique, ConstraintTypeTrigger, ConstraintTypeExclusion}
		rel.Constraints = append(rel.Constraints, &Constraint{Name: []string{"m", "n"}[g.r.Intn(2)], Type: ts[g.r.Intn(len(ts))]})
	}
	fs := g.fields()
	for _, f := range fs {
		f.Type.IsValuer, f.UseDefault = true, false
		if o.col(rel, f.ColIdent.Name) == nil {
			f.ColIdent.Name = rel.Columns[0].Name
		}
	}
	what := showRel(rel)
	for _, x := range rel.Indexes {
		what += fmt.Sprintf(" index %s%v unique=%v primary=%v", x.Name, x.Key, x.IsUnique, x.IsPrimary)
	}
	for _, x := range rel.Constraints {
		what += fmt.Sprintf(" constraint %s %s", x.Name, x.Type)
	}
	oc := &analysis.OnConflictStruct{}
	ok := true
	var target ConflictTarget
	switch g.r.Intn(4) {
	case 0:
		d := &analysis.ColumnDirective{}
		if len(rel.Indexes) > 0 && !g.p(4) {
			key := rel.Indexes[g.r.Intn(len(rel.Indexes))].Key
			for _, k := range g.r.Perm(len(key)) {
				d.ColIdents = append(d.ColIdents, analysis.ColIdent{Name: rel.Columns[key[k]-1].Name})
			}
			if g.p(6) {
				d.ColIdents = d.ColIdents[1:]
			}
		} else {
			d.ColIdents = append(d.ColIdents, analysis.ColIdent{Name: colNames[g.r.Intn(len(colNames))]})
		}
		oc.Column = d
		var nums []int16
		for _, id := range d.ColIdents {
			c := o.col(rel, id.Name)
			if c == nil {
				ok = false
				break
			}
			nums = append(nums, c.Num)
		}
		if ok {
			ok = false
			for _, x := range rel.Indexes {
				if !ok && subset(x.Key, nums) && len(x.Key) == len(nums) && (x.IsUnique || x.IsPrimary) {
					ok = true
					target = &ConflictIndex{Expression: x.Expression, Predicate: x.Predicate}
				}
			}
		}
		what += fmt.Sprintf(" columns %v", d.ColIdents)
	case 1:
		oc.Index = &analysis.IndexDirective{Name: []string{"i", "j", "k"}[g.r.Intn(3)]}
		ok = false
		for _, x := range rel.Indexes {
			if x.Name == oc.Index.Name {
				ok = x.IsUnique || x.IsPrimary
				target = &ConflictIndex{Expression: x.Expression, Predicate: x.Predicate}
				break
			}
		}
		what += " index " + oc.Index.Name
	case 2:
		oc.Constraint = &analysis.ConstraintDirective{Name: []string{"m", "n"}[g.r.Intn(2)]}
		ok = false
		for _, x := range rel.Constraints {
			if x.Name == oc.Constraint.Name {
				ok = x.Type == ConstraintTypePKey || x.Type == ConstraintTypeUnique
				target = &ConflictConstraint{Name: x.Name}
				break
			}
		}
		what += " constraint " + oc.Constraint.Name
	}
	var update []*Column
	if g.p(2) {
		oc.Update = &analysis.UpdateDirective{ColIdentList: g.list(colNames)}
		if oc.Update.All {
			for _, f := range fs {
				if f.Mode&mIns != 0 {
					update = append(update, o.col(rel, f.ColIdent.Name))
				}
			}
		} else {
			for _, id := range oc.Update.Items {
				c := o.col(rel, id.Name)
				ok = ok && c != nil
				update = append(update, c)
			}
		}
		what += fmt.Sprintf(" update %v of %s", oc.Update.ColIdentList, showFields(fs))
	}
	ti, err, p := g.run(&analysis.QueryStruct{Rel: g.target(fs), Kind: analysis.QueryKindInsert, OnConflict: oc})
	if !g.accept("conflict", ok, err, p, what) {
		return
	}
	if ti.Conflict == nil {
		g.bad("conflict/kept", "no conflict recorded: %s", what)
		return
	}
	if !reflect.DeepEqual(ti.Conflict.Target, target) {
		g.bad("conflict/target", "%T %+v, want %+v: %s", ti.Conflict.Target, ti.Conflict.Target, target, what)
	}
	if len(update) != len(ti.Conflict.Update) {
		g.bad("conflict/update", "%d columns, want %d: %s", len(ti.Conflict.Update), len(update), what)
		return
	}
	for i := range update {
		if ti.Conflict.Update[i] != update[i] {
			g.bad("conflict/update", "%d: %s, want %s: %s", i, ti.Conflict.Update[i].Name, update[i].Name, what)
		}
	}
}
func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func subset(a, b []int16) bool {
	for _, x := range a {
		in := false
		for _, y := range b {
			in = in || x == y
		}
		if !in {
			return false
		}
	}
	return true
}

func TestVerifC03(t *testing.T) {
	f := newVF()
	g := newGen(f)
	it := 0
	for ; it < 60000 && !f.done(); it++ {
		g.conflictCase()
	}
	fmt.Printf("CASES %d random relations, indexes, constraints and directives\n", it)
	f.finish(t)
}
