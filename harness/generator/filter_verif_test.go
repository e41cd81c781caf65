// verif:package internal/generator
package generator

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/frk/gosql/internal/analysis"
	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/postgres"
)

// The oracle of generated filters: which key and which method stands for which column.

const filterHome = "example.com/home"

// ftype is a random field type, and how it is written with packages by their path
func ftype(r *rand.Rand, depth int) (analysis.TypeInfo, string) {
	k := r.Intn(9)
	if depth > 2 && k > 4 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return analysis.TypeInfo{Kind: analysis.TypeKindString}, "string"
	case 1:
		return analysis.TypeInfo{Kind: analysis.TypeKindInt}, "int"
	case 2:
		return analysis.TypeInfo{Kind: analysis.TypeKindUint8, IsByte: true}, "byte"
	case 3: // a named type of the package itself
		n := []string{"Local", "Other"}[r.Intn(2)]
		t := analysis.TypeInfo{Kind: analysis.TypeKindStruct, Name: n, PkgPath: filterHome, PkgName: "home"}
		if r.Intn(2) == 0 {
			e, _ := ftype(r, 3)
			t.Kind, t.Elem = analysis.TypeKindSlice, &e
		}
		return t, n
	case 4: // a type of another one, some of which have the same name
		p := [][2]string{{"time", "time"}, {"example.com/a/common", "common"}, {"example.com/b/common", "common"}, {"example.com/c/common", "common"}, {"example.com/x-y", "y"}}[r.Intn(5)]
		n := []string{"Time", "T", "U"}[r.Intn(3)]
		return analysis.TypeInfo{Kind: analysis.TypeKindStruct, Name: n, PkgPath: p[0], PkgName: p[1], IsImported: true}, p[0] + "!" + n
	case 5, 6:
		e, s := ftype(r, depth+1)
		if depth > 0 {
			s = "*" + s
		}
		return analysis.TypeInfo{Kind: analysis.TypeKindPtr, Elem: &e}, s
	case 7:
		e, s := ftype(r, depth+1)
		return analysis.TypeInfo{Kind: analysis.TypeKindSlice, Elem: &e}, "[]" + s
	}
	e, s := ftype(r, depth+1)
	return analysis.TypeInfo{Kind: analysis.TypeKindMap, Key: &analysis.TypeInfo{Kind: analysis.TypeKindString}, Elem: &e}, "map[string]" + s
}

type fcol struct {
	name, conv string
	null       bool
}

type ftarget struct {
	info *postgres.TargetInfo
	fs   *analysis.FilterStruct
	keys map[string]fcol
	meth map[string][2]string // the column and the type of the value
}

var convImpl = map[string]*analysis.Identifier{}

func newFilter(r *rand.Rand, typeName string, quote bool) *ftarget {
	t := &ftarget{keys: map[string]fcol{}, meth: map[string][2]string{}}
	t.fs = &analysis.FilterStruct{TypeName: typeName, FilterConstructor: &analysis.FilterConstructorField{Name: []string{"Filter", "Constructor"}[r.Intn(2)], IsV2: r.Intn(2) == 0}}
	col := func() (id analysis.ColIdent, text string) {
		id = analysis.ColIdent{Name: []string{"id", "name", "a_b", "at"}[r.Intn(4)]}
		if r.Intn(2) == 0 {
			id.Qualifier = []string{"u", "v"}[r.Intn(2)]
		}
		n := id.Name
		if quote {
			n = `"` + n + `"`
		}
		if id.Qualifier != "" {
			return id, id.Qualifier + "." + n
		}
		return id, n
	}
	if r.Intn(3) == 0 {
		id, _ := col()
		t.fs.TextSearch = &analysis.TextSearchDirective{ColIdent: id}
	}
	t.info = &postgres.TargetInfo{Info: &analysis.Info{PkgPath: filterHome}, Struct: t.fs}
	for i, n := 0, r.Intn(6); i < n; i++ {
		id, text := col()
		f := &analysis.FieldInfo{Name: "F" + strconv.Itoa(i), ColIdent: id, Mode: analysis.FieldMode(r.Intn(32)), FilterColumnKey: []string{"", "k", "id", "u.name", "x y"}[r.Intn(5)]}
		if r.Intn(8) == 0 {
			f.Name = []string{"UnmarshalFQL", "UnmarshalSort", "TextSearch", "AND", "OR"}[r.Intn(5)]
			if t.meth[f.Name] != [2]string{} {
				f.Name = "F" + strconv.Itoa(i)
			}
		}
		var lit string
		f.Type, lit = ftype(r, 0)
		name := f.Name
		for j := r.Intn(3); j > 0; j-- {
			s := &analysis.FieldSelectorNode{Name: []string{"Foo", "Bar"}[r.Intn(2)], IsEmbedded: r.Intn(2) == 0, IsPointer: r.Intn(2) == 0}
			f.Selector = append(f.Selector, s)
		}
		pre := ""
		for _, s := range f.Selector {
			pre += s.Name
		}
		name = pre + name
		if _, dup := t.meth[name]; dup {
			continue
		}
		ff := &postgres.FieldFilter{Field: f, ColIdent: id, Column: &postgres.Column{Name: id.Name, HasNotNull: r.Intn(2) == 0}}
		c := fcol{name: text, null: !ff.Column.HasNotNull && !f.Mode.TreatAsNotNULL()}
		if im, ok := convImpl[f.Type.PkgPath+"."+f.Type.Name]; ok {
			c.conv = im.PkgPath + "!" + im.Name
			if im.PkgPath == filterHome {
				c.conv = im.Name
			}
		}
		if !t.fs.IsV2() {
			c.conv, c.null = "", false
		}
		if k := f.FilterColumnKey; k != "" {
			if _, seen := t.keys[k]; !seen { // the first field of a key has it
				t.keys[k] = c
			}
		}
		switch name {
		case "UnmarshalFQL", "UnmarshalSort", "TextSearch", "AND", "OR": // would hide the constructor's
		default:
			t.meth[name] = [2]string{text, lit}
		}
		t.info.Filters = append(t.info.Filters, ff)
	}
	return t
}

type fout struct {
	imps map[string]string
	used map[string]bool
	fset *token.FileSet
}

func (o *fout) pkgs(x ast.Node) {
	ast.Inspect(x, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if p, ok := o.imps[id.Name]; ok {
					o.used[p] = true
					id.Name = p + "!"
				}
			}
		}
		return true
	})
}

// text prints an expression, packages by their path
func (o *fout) text(x ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, o.fset, x)
	return strings.Replace(b.String(), "!.", "!", -1)
}

func lit(x ast.Expr) string {
	if b, ok := x.(*ast.BasicLit); ok {
		if s, err := strconv.Unquote(b.Value); err == nil {
			return s
		}
	}
	return "?"
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func checkFilters(f *vf, r *rand.Rand) {
	quote := r.Intn(3) > 0
	var cfg config.Config
	cfg.QuoteIdentifiers.Value = quote
	var infos []*postgres.TargetInfo
	var ts []*ftarget
	for i := 1 + r.Intn(2); i > 0; i-- {
		t := newFilter(r, "Filter"+strconv.Itoa(i), quote)
		ts = append(ts, t)
		infos = append(infos, t.info)
	}
	desc := func() string {
		s := fmt.Sprintf("quoted %v", quote)
		for _, t := range ts {
			s += fmt.Sprintf("; %s v2=%v", t.fs.TypeName, t.fs.IsV2())
			for _, x := range t.info.Filters {
				s += fmt.Sprintf(", field %s%s key %q column %s", func() (p string) {
					for _, n := range x.Field.Selector {
						p += n.Name + "."
					}
					return
				}(), x.Field.Name, x.Field.FilterColumnKey, x.ColIdent)
			}
		}
		return s
	}
	var buf bytes.Buffer
	if p := guard(func() {
		if e := Write(&buf, "testdata", infos, cfg); e != nil {
			panic(e)
		}
	}); p != nil {
		f.bad("Write/filter", "%s: %v", desc(), p)
		return
	}
	o := &fout{imps: map[string]string{}, used: map[string]bool{}, fset: token.NewFileSet()}
	file, err := parser.ParseFile(o.fset, "x.go", buf.Bytes(), 0)
	if err != nil {
		f.bad("Write/filter", "%s: does not parse: %v: %s", desc(), err, strings.Split(buf.String(), "\n"))
		return
	}
	for _, im := range file.Imports {
		p := lit(im.Path)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if p == "example.com/x-y" {
			n = "y"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		if o.imps[n] != "" {
			f.bad("Write/filter/import", "%s: %s is imported twice", desc(), n)
		}
		o.imps[n] = p
	}
	o.pkgs(file)
	for n, p := range o.imps {
		if !o.used[p] {
			f.bad("Write/filter/import", "%s: %s %q is imported and not used", desc(), n, p)
		}
	}
	maps := map[string]*ast.CompositeLit{}
	meths := map[string]*ast.FuncDecl{}
	for _, d := range file.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok && len(v.Names) == 1 && len(v.Values) == 1 {
					if m, ok := v.Values[0].(*ast.CompositeLit); ok {
						maps[v.Names[0].Name] = m
					}
				}
			}
		case *ast.FuncDecl:
			k := ""
			if d.Recv != nil && len(d.Recv.List) == 1 {
				k = o.text(d.Recv.List[0].Type) + "."
			}
			k += d.Name.Name
			if meths[k] != nil {
				f.bad("Write/filter/twice", "%s: %s is declared twice", desc(), k)
			}
			meths[k] = d
		}
	}
	nm := 0
	for _, t := range ts {
		T := t.fs.TypeName
		m := maps["_"+T+"_colmap"]
		if m == nil {
			f.bad("Write/filter/map", "%s: %s has no column map", desc(), T)
			return
		}
		wantType := "map[string]string"
		if t.fs.IsV2() {
			wantType = "map[string]github.com/frk/gosql/filter!Column"
		}
		if s := o.text(m.Type); s != wantType {
			f.bad("Write/filter/map", "%s: the column map of %s is a %s", desc(), T, s)
		}
		got := map[string]fcol{}
		for _, e := range m.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			c := fcol{}
			if cl, ok := kv.Value.(*ast.CompositeLit); ok {
				for _, e := range cl.Elts {
					if x, ok := e.(*ast.KeyValueExpr); ok {
						switch o.text(x.Key) {
						case "Name":
							c.name = lit(x.Value)
						case "ConvertValue":
							c.conv = o.text(x.Value)
						case "IsNULLable":
							c.null = o.text(x.Value) == "true"
						}
					}
				}
			} else {
				c.name = lit(kv.Value)
			}
			if _, dup := got[lit(kv.Key)]; dup {
				f.bad("Write/filter/map", "%s: key %q is in the map of %s twice", desc(), lit(kv.Key), T)
			}
			got[lit(kv.Key)] = c
		}
		for k, c := range t.keys {
			if g, ok := got[k]; !ok || g != c {
				f.bad("Write/filter/map", "%s: key %q of %s is mapped to %+v, want %+v", desc(), k, T, g, c)
			}
		}
		if len(got) != len(t.keys) {
			f.bad("Write/filter/map", "%s: the map of %s has %d keys, want %d", desc(), T, len(got), len(t.keys))
		}
		want := map[string]string{}
		init, ts := "Init", ""
		if t.fs.IsV2() {
			init = "InitV2"
		}
		if t.fs.TextSearch != nil {
			ts = t.fs.TextSearch.ColIdent.Name
			if quote {
				ts = `"` + ts + `"`
			}
			if q := t.fs.TextSearch.ColIdent.Qualifier; q != "" {
				ts = q + "." + ts
			}
		}
		ctor := "f." + t.fs.FilterConstructor.Name
		want["Init"] = fmt.Sprintf("func() { %s.%s(_%s_colmap, %q) }", ctor, init, T, ts)
		for _, b := range []string{"And", "Or"} {
			want[b] = fmt.Sprintf("func(nest func(*%s)) *%s { if nest == nil { %s.%s(nil) return f } %s.%s(func() { nest(f) }) return f }", T, T, ctor, b, ctor, b)
		}
		for n, c := range t.meth {
			want[n] = fmt.Sprintf("func(op string, val %s) *%s { %s.Col(%q, op, val) return f }", c[1], T, ctor, c[0])
		}
		nm += len(want)
		for n, w := range want {
			d := meths["*"+T+"."+n]
			if d == nil {
				f.bad("Write/filter/method", "%s: %s has no method %s", desc(), T, n)
				continue
			}
			recv := "?"
			if len(d.Recv.List[0].Names) == 1 {
				recv = d.Recv.List[0].Names[0].Name
			}
			ast.Inspect(d, func(x ast.Node) bool { // literals in one form
				if b, ok := x.(*ast.BasicLit); ok && b.Kind == token.STRING {
					b.Value = strconv.Quote(lit(b))
				}
				return true
			})
			g := squeeze(o.text(d.Type) + " " + o.text(d.Body))
			if recv != "f" || g != squeeze(w) {
				f.bad("Write/filter/method/"+strings.TrimRight(n, "0123456789"), "%s: %s.%s is (%s) %s, want %s", desc(), T, n, recv, g, w)
			}
		}
	}
	if len(meths) != nm {
		f.bad("Write/filter/method", "%s: %d methods, want %d", desc(), len(meths), nm)
	}
}

// setConverters names the converters of the configuration: in the filter's package and in others.
func setConverters() {
	var cfg config.Config
	for _, c := range [][4]string{{"example.com/b/common", "T", filterHome, "Conv1"}, {filterHome, "Local", "example.com/d/conv", "Conv2"}, {"time", "Time", "example.com/a/common", "Conv3"}} {
		var v config.FilterValueConverter
		v.Type.PkgPath, v.Type.Name, v.Func.PkgPath, v.Func.Name = c[0], c[1], c[2], c[3]
		cfg.FilterValueConverters = append(cfg.FilterValueConverters, v)
		convImpl[c[0]+"."+c[1]] = &analysis.Identifier{PkgPath: c[2], Name: c[3]}
	}
	if err := analysis.AnalyzeFilterValueConverters(cfg); err != nil {
		panic(err)
	}
}

func TestVerifG04(t *testing.T) {
	f := newVF()
	setConverters()
	n, max := 0, 20000
	if os.Getenv("VERIF_BOUNDED") != "" {
		max = 8000
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		max = 200000
	}
	for ; !f.done() && n < max; n++ {
		checkFilters(f, rand.New(rand.NewSource(f.r.Int63())))
	}
	fmt.Printf("CASES %d random filters from seed %s: at most 5 fields and 2 filters in a file\n", n, os.Getenv("VERIF_SEED"))
	f.finish(t)
}
