package main

// The contract language: line-oriented declarations, Go-syntax expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type clause struct {
	name string
	src  string
	expr ast.Expr
}
type letc struct {
	name string
	expr ast.Expr
	post bool
}
type metavar struct {
	name string
	kind string // acc, cnt, src
	typ  string
}
type tmpl struct {
	vars []metavar
	src  string
	expr ast.Expr
}
type ghostp struct{ name, sort string }

type Contract struct {
	Kind     string // func, target, extern, iface, functype, lemma
	Name     string
	Target   string // function key under verification
	Entry    ast.Expr
	Params   []string
	Ghosts   []ghostp
	Lets     []letc
	Requires []clause
	Ensures  []clause
	Panics   []clause // condition under which the function may panic
	Modifies []ast.Expr
	Invs     []tmpl
	Props    []string
	Opts     map[string]bool
	Pure     bool
	Inline   bool
	File     string
	Line     int
	Lemma    *axiom
	Hints    []*Term
	Absent   bool     // the function it names is not in the current source
	Cases    []string // interface parameters split by dynamic type: nil, string, []byte, other
	Reveal   []string // opaque functions whose definition this task may use
	IndVar   *Term
	IndUp    *Term
	Import   []string
	Bind     map[string]string // parameter name -> concrete type for generics / functions
}

type Spec struct {
	All    []*Contract
	byName map[string]*Contract
	pkgs   []*packages.Package
	axioms int
	axs    []*axiom
	// functions that are checked by a bounded search only, per property
	bounded [][2]string
	noInit  map[string]bool
}

func (s *Spec) find(name string) *Contract { return s.byName[name] }
func (s *Spec) checkNil(x *Exec) bool      { return x.spec != nil && x.spec.Opts["checknil"] }

var kw = regexp.MustCompile(`^(sort|func|rec|axiom|lemma|extern|iface|functype|contract|target|template|end|instance|property|requires|ensures|inv|modifies|ghost|let|post|pure|inline|opt|trig|by|may_panic|bind|opaque|cases|use|package|noinit|hint|global|reveal|macro|bounded)\b`)

func (s *Spec) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var lines []string
	var nums []int
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && strings.TrimSpace(l[:j]) == "" {
			continue
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if !kw.MatchString(t) && len(lines) > 0 {
			lines[len(lines)-1] += " " + t
			continue
		}
		lines = append(lines, t)
		nums = append(nums, i+1)
	}
	// templates
	type tp struct {
		params []string
		body   []string
		nums   []int
	}
	tps := map[string]*tp{}
	var out []string
	var onums []int
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "template ") {
			n, ps := splitHead(strings.TrimPrefix(l, "template "))
			t := &tp{params: ps}
			for i++; i < len(lines) && lines[i] != "end"; i++ {
				t.body = append(t.body, lines[i])
				t.nums = append(t.nums, nums[i])
			}
			tps[n] = t
			continue
		}
		if strings.HasPrefix(l, "instance ") {
			n, as := splitHead(strings.TrimPrefix(l, "instance "))
			t := tps[n]
			if t == nil || len(as) != len(t.params) {
				return fmt.Errorf("%s:%d: bad instance %s", file, nums[i], l)
			}
			for k, bl := range t.body {
				for j, p := range t.params {
					bl = strings.ReplaceAll(bl, "$"+p, as[j])
				}
				out = append(out, bl)
				onums = append(onums, t.nums[k])
			}
			continue
		}
		out = append(out, l)
		onums = append(onums, nums[i])
	}
	// definitions may refer to later ones
	for _, l := range out {
		if strings.HasPrefix(l, "rec ") || strings.HasPrefix(l, "opaque ") || strings.HasPrefix(l, "macro ") {
			rest := strings.TrimSpace(l[strings.IndexByte(l, ' '):])
			head := rest[:strings.Index(rest, " = ")]
			n, ps := splitHead(head)
			ds, err := parseDecls(ps)
			if err != nil {
				return err
			}
			ret := head[matchParen(head, strings.IndexByte(head, '('))+1:]
			th.funs[n] = &funSig{name: n, ret: parseSort(ret), args: sortsOf(ds), macro: strings.HasPrefix(l, "macro ")}
			if t := sortType(ret); t != nil {
				recTypes[n] = t
			}
		}
	}
	var cur *Contract
	for i, l := range out {
		if err := s.lineSafe(l, &cur, file, onums[i]); err != nil {
			return fmt.Errorf("%s:%d: %v  in: %s", file, onums[i], err, l)
		}
	}
	return nil
}

func (s *Spec) lineSafe(l string, cur **Contract, file string, num int) (err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case unsupported:
			err = fmt.Errorf("%s", r.msg)
		default:
			panic(r)
		}
	}()
	return s.line(l, cur, file, num)
}

func splitHead(s string) (string, []string) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return strings.TrimSpace(s), nil
	}
	j := matchParen(s, i)
	return strings.TrimSpace(s[:i]), splitTop(s[i+1 : j])
}
func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(', '[':
			d++
		case ')', ']':
			d--
			if d == 0 {
				return j
			}
		}
	}
	return len(s)
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func parseSort(s string) string {
	s = strings.TrimSpace(s)
	switch s {
	case "Int", "Bool":
		return s
	case "Bytes":
		return sBytes
	case "Ifc", "Flt":
		return th.usort(s)
	}
	if strings.HasPrefix(s, "Seq[") {
		return seqOf(parseSort(s[4 : len(s)-1]))
	}
	if strings.HasPrefix(s, "Slc[") {
		return slcSort(parseSort(s[4 : len(s)-1]))
	}
	if strings.HasPrefix(s, "Go[") {
		t := goType(s[3 : len(s)-1])
		return encSort(t)
	}
	return th.usort(s)
}

func parseDecls(ps []string) ([]*Term, error) {
	var out []*Term
	for _, p := range ps {
		f := strings.SplitN(p, " ", 2)
		if len(f) != 2 {
			return nil, fmt.Errorf("bad parameter %q", p)
		}
		out = append(out, tSym("$"+f[0], parseSort(f[1])))
	}
	return out, nil
}

func (s *Spec) line(l string, cur **Contract, file string, num int) error {
	sp := strings.IndexAny(l, " (")
	word := l
	rest := ""
	if sp > 0 {
		word = l[:sp]
		rest = strings.TrimSpace(l[sp:])
	}
	parse := func(e string) (ast.Expr, error) { return parser.ParseExpr(e) }
	named := func(r string) (clause, error) {
		// NAME: expr
		if m := regexp.MustCompile(`^([a-zA-Z0-9_\-]+):\s`).FindStringSubmatch(r); m != nil {
			e, err := parse(r[len(m[0]):])
			return clause{m[1], r[len(m[0]):], e}, err
		}
		e, err := parse(r)
		return clause{"", r, e}, err
	}
	switch word {
	case "use", "package":
	case "bounded":
		// bounded PROP functions: what stands in for a contract
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			return fmt.Errorf("bounded: property and functions expected")
		}
		s.bounded = append(s.bounded, [2]string{rest[:i], strings.TrimSpace(rest[i:])})
	case "noinit":
		if s.noInit == nil {
			s.noInit = map[string]bool{}
		}
		s.noInit[rest] = true
	case "hint":
		c := *cur
		e, err := parse(rest)
		if err != nil {
			return err
		}
		cx := &sctx{env: map[string]SV{}}
		for _, v := range c.Lemma.vars {
			cx.env[v.Name[1:]] = SV{T: v}
		}
		c.Hints = append(c.Hints, cx.term(cx.eval(e)))
	case "global":
		c := &Contract{Kind: "global", Name: "global " + rest, Target: rest, File: file, Line: num, Opts: map[string]bool{}, Bind: map[string]string{}}
		s.All = append(s.All, c)
		*cur = c
	case "sort":
		th.usort(rest)
	case "func":
		n, ps := splitHead(rest)
		j := matchParen(rest, strings.IndexByte(rest, '('))
		f := &funSig{name: n, ret: parseSort(rest[j+1:])}
		for _, p := range ps {
			f.args = append(f.args, parseSort(p))
		}
		th.funs[n] = f
	case "rec", "opaque", "macro":
		eq := strings.Index(rest, " = ")
		head, body := rest[:eq], rest[eq+3:]
		n, ps := splitHead(head)
		j := matchParen(head, strings.IndexByte(head, '('))
		ds, err := parseDecls(ps)
		if err != nil {
			return err
		}
		r := &recDef{name: n, params: ds, ret: parseSort(head[j+1:]), opaque: word == "opaque"}
		if word != "macro" {
			th.recs[n] = r
		}
		if t := sortType(head[j+1:]); t != nil {
			recTypes[n] = t
		}
		th.funs[n] = &funSig{name: n, ret: r.ret, args: sortsOf(ds), macro: word == "macro"}
		e, err := parse(body)
		if err != nil {
			return err
		}
		cx := &sctx{env: map[string]SV{}}
		for i, p := range ps {
			cx.env[strings.Fields(p)[0]] = SV{T: ds[i], LT: sortType(strings.SplitN(p, " ", 2)[1])}
		}
		r.body = cx.term(cx.eval(e))
		if r.body.S != r.ret {
			return fmt.Errorf("body sort %s, declared %s", r.body.S, r.ret)
		}
		if word == "macro" {
			th.funs[n].def = r
		}
	case "axiom", "lemma":
		// axiom name(vars) : trig1, trig2 => body
		n, ps := splitHead(rest)
		j := matchParen(rest, strings.IndexByte(rest, '('))
		r := strings.TrimSpace(rest[j+1:])
		r = strings.TrimPrefix(r, ":")
		k := strings.Index(r, "=>")
		ds, err := parseDecls(ps)
		if err != nil {
			return err
		}
		cx := &sctx{env: map[string]SV{}}
		for i, p := range ps {
			cx.env[strings.Fields(p)[0]] = SV{T: ds[i], LT: sortType(strings.SplitN(p, " ", 2)[1])}
		}
		ax := &axiom{name: n, vars: ds}
		for _, t := range splitTop(r[:k]) {
			e, err := parse(t)
			if err != nil {
				return err
			}
			ax.trig = append(ax.trig, cx.term(cx.eval(e)))
		}
		e, err := parse(r[k+2:])
		if err != nil {
			return err
		}
		ax.body = cx.term(cx.eval(e))
		if word == "axiom" {
			s.axs = append(s.axs, ax)
			s.axioms++
			c := &Contract{Kind: "axiom", Name: n, Lemma: ax, File: file, Line: num}
			s.All = append(s.All, c)
			*cur = c
			return nil
		}
		c := &Contract{Kind: "lemma", Name: n, Lemma: ax, File: file, Line: num, Opts: map[string]bool{}}
		s.All = append(s.All, c)
		*cur = c
	case "by":
		// by up k / by down(k, n)
		c := *cur
		f := strings.Fields(rest)
		for _, v := range c.Lemma.vars {
			if v.Name == "$"+f[1] {
				c.IndVar = v
			}
		}
		if f[0] == "down" {
			e, err := parse(strings.Join(f[2:], " "))
			if err != nil {
				return err
			}
			cx := &sctx{env: map[string]SV{}}
			for _, v := range c.Lemma.vars {
				cx.env[v.Name[1:]] = SV{T: v}
			}
			c.IndUp = cx.term(cx.eval(e))
		}
	case "extern", "iface", "functype", "contract", "target":
		c := &Contract{Kind: word, File: file, Line: num, Opts: map[string]bool{}, Bind: map[string]string{}}
		if word == "contract" {
			c.Kind = "func"
		}
		if word == "functype" {
			i := strings.LastIndexByte(rest, '(')
			c.Name = "functype " + strings.TrimSpace(rest[:i])
			c.Params = splitTop(rest[i+1 : len(rest)-1])
			s.byName[c.Name] = c
		} else if word == "target" {
			i := strings.Index(rest, ": ")
			c.Name = rest[:i]
			e, err := parse(rest[i+2:])
			if err != nil {
				return err
			}
			c.Entry = e
		} else {
			n, ps := splitHead(rest)
			c.Name, c.Params = n, ps
			c.Target = n
			if word == "iface" {
				c.Name = "iface " + n
			}
			if word == "contract" {
				e, err := parse(n + "(" + strings.Join(ps, ",") + ")")
				if err != nil {
					return err
				}
				c.Entry = e
			}
			if s.byName[c.Name] != nil {
				return fmt.Errorf("duplicate contract %s", c.Name)
			}
			s.byName[c.Name] = c
		}
		s.All = append(s.All, c)
		*cur = c
	case "property":
		(*cur).Props = append((*cur).Props, strings.Fields(rest)...)
	case "requires":
		cl, err := named(rest)
		if err != nil {
			return err
		}
		(*cur).Requires = append((*cur).Requires, cl)
	case "may_panic":
		cl, err := named(rest)
		if err != nil {
			return err
		}
		(*cur).Panics = append((*cur).Panics, cl)
	case "ensures":
		cl, err := named(rest)
		if err != nil {
			return err
		}
		if cl.name == "" {
			cl.name = fmt.Sprintf("post%d", len((*cur).Ensures)+1)
		}
		(*cur).Ensures = append((*cur).Ensures, cl)
	case "modifies":
		for _, p := range splitTop(rest) {
			e, err := parse(p)
			if err != nil {
				return err
			}
			(*cur).Modifies = append((*cur).Modifies, e)
		}
	case "ghost":
		f := strings.SplitN(rest, " ", 2)
		(*cur).Ghosts = append((*cur).Ghosts, ghostp{f[0], f[1]})
	case "let", "post":
		eq := strings.Index(rest, " = ")
		e, err := parse(rest[eq+3:])
		if err != nil {
			return err
		}
		(*cur).Lets = append((*cur).Lets, letc{strings.TrimSpace(rest[:eq]), e, word == "post"})
	case "pure":
		(*cur).Pure = true
	case "inline":
		(*cur).Inline = true
	case "opt":
		for _, o := range strings.Fields(rest) {
			(*cur).Opts[o] = true
		}
	case "reveal":
		(*cur).Reveal = append((*cur).Reveal, strings.Fields(rest)...)
	case "cases":
		(*cur).Cases = append((*cur).Cases, strings.Fields(rest)...)
	case "bind":
		f := strings.SplitN(rest, " ", 2)
		(*cur).Bind[f[0]] = f[1]
	case "inv":
		// inv (a acc:[]byte, k cnt, v src:[]int): expr
		j := matchParen(rest, 0)
		var t tmpl
		for _, p := range splitTop(rest[1:j]) {
			f := strings.SplitN(p, " ", 2)
			kt := strings.SplitN(f[1], ":", 2)
			mv := metavar{name: f[0], kind: kt[0]}
			if len(kt) == 2 {
				mv.typ = normType(kt[1])
			}
			t.vars = append(t.vars, mv)
		}
		t.src = strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":")
		e, err := parse(t.src)
		if err != nil {
			return err
		}
		t.expr = e
		(*cur).Invs = append((*cur).Invs, t)
	default:
		return fmt.Errorf("unknown keyword %q", word)
	}
	return nil
}
func sortsOf(ts []*Term) (out []string) {
	for _, t := range ts {
		out = append(out, t.S)
	}
	return
}

func normType(s string) string {
	s = regexp.MustCompile(`\bbyte\b`).ReplaceAllString(s, "uint8")
	s = regexp.MustCompile(`\brune\b`).ReplaceAllString(s, "int32")
	return strings.TrimSpace(s)
}
func shortType(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return shortPkg(p) })
	s = strings.ReplaceAll(s, "interface {}", "interface{}")
	s = regexp.MustCompile(`\bany\b`).ReplaceAllString(s, "interface{}")
	return normType(s)
}

var goTypePkgs []*packages.Package
var goTypeCache = map[string]types.Type{}

// goType resolves a Go type expression such as "[]byte" or "analysis.ColIdent".
func goType(s string) types.Type {
	termMu.Lock()
	if t, ok := goTypeCache[s]; ok {
		termMu.Unlock()
		return t
	}
	termMu.Unlock()
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(fmt.Errorf("type %q: %v", s, err))
	}
	t := resolveType(e)
	termMu.Lock()
	goTypeCache[s] = t
	termMu.Unlock()
	return t
}
func resolveType(e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(e.Name); o != nil {
			return o.Type()
		}
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(resolveType(e.Elt))
		}
		n, _ := strconv.Atoi(e.Len.(*ast.BasicLit).Value)
		return types.NewArray(resolveType(e.Elt), int64(n))
	case *ast.StarExpr:
		return types.NewPointer(resolveType(e.X))
	case *ast.MapType:
		return types.NewMap(resolveType(e.Key), resolveType(e.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		if len(e.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.FuncType:
		var ps, rs []*types.Var
		for _, f := range e.Params.List {
			ps = append(ps, types.NewVar(0, nil, "", resolveType(f.Type)))
		}
		if e.Results != nil {
			for _, f := range e.Results.List {
				rs = append(rs, types.NewVar(0, nil, "", resolveType(f.Type)))
			}
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), types.NewTuple(rs...), false)
	case *ast.IndexExpr:
		g := resolveType(e.X)
		t, err := types.Instantiate(nil, g, []types.Type{resolveType(e.Index)}, false)
		if err != nil {
			panic(err)
		}
		return t
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if o := lookupPkgObj(id.Name, e.Sel.Name); o != nil {
				return o.Type()
			}
		}
	}
	panic(fmt.Errorf("cannot resolve type %s", types.ExprString(e)))
}

var recTypes = map[string]types.Type{}

func lookupPkgObj(pkg, name string) types.Object {
	seen := map[*types.Package]bool{}
	var found types.Object
	var rec func(p *types.Package)
	rec = func(p *types.Package) {
		if seen[p] || found != nil {
			return
		}
		seen[p] = true
		sp := shortPkg(p)
		if sp == pkg || sp[strings.LastIndexByte(sp, '/')+1:] == pkg {
			if o := p.Scope().Lookup(name); o != nil {
				found = o
				return
			}
		}
		for _, i := range p.Imports() {
			rec(i)
		}
	}
	for _, p := range goTypePkgs {
		if p.Types != nil {
			rec(p.Types)
		}
	}
	return found
}

// ---- evaluation

type SV struct {
	V  Val
	Ty types.Type
	T  *Term
	LT types.Type // Go type of the term T, when known
	St *State     // evaluate slice contents in this state
}

// sortType is the Go type behind a sort, if it has one: Go[T], or the elements of Seq[Go[T]].
func sortType(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "Go[") {
		return goType(s[3 : len(s)-1])
	}
	if strings.HasPrefix(s, "Seq[Go[") {
		return types.NewSlice(goType(s[7 : len(s)-2]))
	}
	return nil
}

func isIfcType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// goTypeOf is the static Go type of a value, or nil.
func goTypeOf(v SV) types.Type {
	if v.T != nil {
		return v.LT
	}
	return v.Ty
}

// coerce gives the term of v stored in a place of Go type t: values go into interfaces by boxing.
func (c *sctx) coerce(v SV, t types.Type) *Term {
	vt := goTypeOf(v)
	if isIfcType(t) {
		if b, ok := vt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return tApp("nil_Ifc", th.usort("Ifc"))
		}
		if vt != nil && !isIfcType(vt) {
			tagID(fullKey(vt))
			return mkApp("box_"+fullKey(vt), th.usort("Ifc"), c.term(v))
		}
	}
	x := c.term(v)
	if want := encSort(t); x.S != want {
		if strings.HasPrefix(want, "Slc_") && slcSort(strings.TrimSuffix(strings.TrimPrefix(x.S, "(Seq "), ")")) == want {
			return tMk(want, tFalse, x)
		}
		c.fail("value of sort %s where %s has sort %s", x.S, t, want)
	}
	return x
}

func (c *sctx) composite(e *ast.CompositeLit) SV {
	t := goType(types.ExprString(e.Type))
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := encSort(t)
		as := make([]*Term, u.NumFields())
		for i, el := range e.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				as[i] = c.coerce(c.eval(el), u.Field(i).Type())
				continue
			}
			n := kv.Key.(*ast.Ident).Name
			found := false
			for j := range as {
				if u.Field(j).Name() == n {
					as[j] = c.coerce(c.eval(kv.Value), u.Field(j).Type())
					found = true
				}
			}
			if !found {
				return c.fail("no field %s in %s", n, t)
			}
		}
		for i := range as {
			if as[i] == nil {
				as[i] = zeroTerm(u.Field(i).Type())
			}
		}
		return SV{T: tMk(s, as...), LT: t}
	case *types.Slice:
		es := seqOf(encSort(u.Elem()))
		var ts []*Term
		for _, el := range e.Elts {
			ts = append(ts, tUnit(c.coerce(c.eval(el), u.Elem())))
		}
		d := tEmpty(es)
		if len(ts) > 0 {
			d = tCat(es, ts...)
		}
		return SV{T: tMk(slcSort(encSort(u.Elem())), tFalse, d), LT: t}
	}
	return c.fail("literal of type %s", t)
}

// field selects a field of a term of known Go type, through pointers.
func (c *sctx) field(t *Term, typ types.Type, name string) (SV, bool) {
	through := func() {
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
			t = tApp("deref_"+typeKey(typ), encSort(typ), t)
		}
	}
	through()
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return SV{}, false
	}
	obj, path, _ := types.LookupFieldOrMethod(typ, true, fieldPkg(typ, st), name)
	if obj == nil {
		return SV{}, false
	}
	for _, p := range path {
		through()
		encSort(typ)
		t = tSel(t, th.dt(t.S).fields[p].name)
		typ = typ.Underlying().(*types.Struct).Field(p).Type()
	}
	return SV{T: t, LT: typ}, true
}

type sctx struct {
	x     *Exec
	cur   *State
	old   *State
	env   map[string]SV
	entry map[string]SV
}

func (c *sctx) fail(f string, a ...interface{}) SV {
	panic(unsupported{"contract expression: " + fmt.Sprintf(f, a...)})
}
func (c *sctx) st(v SV) *State {
	if v.St != nil {
		return v.St
	}
	return c.cur
}
func (c *sctx) term(v SV) *Term {
	if v.T != nil {
		return v.T
	}
	return c.st(v).encode(v.V, v.Ty)
}
func (c *sctx) boolean(e ast.Expr) *Term {
	t := c.term(c.eval(e))
	if t.S != sBool {
		c.fail("not boolean: %s", types.ExprString(e))
	}
	return t
}

// seqData gives the content of slices, strings, builders and sequences.
func (c *sctx) seqData(v SV) *Term {
	if v.T != nil {
		if strings.HasPrefix(v.T.S, "Slc_") {
			return tSel(v.T, "data")
		}
		if v.T.S == "T_strings.Builder" || v.T.S == "T_bytes.Buffer" {
			return c.x.bufText(c.cur, VT{v.T})
		}
		return v.T
	}
	switch x := v.V.(type) {
	case VSl:
		es := encSort(v.Ty.Underlying().(*types.Slice).Elem())
		return c.st(v).sliceData(x, seqOf(es))
	case VAr:
		return x.T
	case VT:
		if strings.HasPrefix(x.T.S, "Slc_") {
			return tSel(x.T, "data")
		}
		if x.T.S == "T_strings.Builder" || x.T.S == "T_bytes.Buffer" {
			return c.x.bufText(c.st(v), x)
		}
		return x.T
	}
	c.fail("data of %T", v.V)
	return nil
}

func (c *sctx) deref(v SV) SV {
	pt, ok := v.Ty.Underlying().(*types.Pointer)
	if !ok {
		return c.fail("deref of %s", v.Ty)
	}
	st := c.st(v)
	switch p := v.V.(type) {
	case VPt:
		if st.heap[p.Obj] == nil {
			return c.fail("object not in state")
		}
		return SV{V: st.load(p), Ty: pt.Elem(), St: v.St}
	case VT:
		id, ok := st.refs[p.T]
		if !ok {
			id = st.materialise(p.T, pt.Elem())
		}
		return SV{V: st.heap[id].v, Ty: pt.Elem(), St: v.St}
	}
	return c.fail("deref of %T", v.V)
}

func (c *sctx) eval(e ast.Expr) SV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.Ident:
		if v, ok := c.env[e.Name]; ok {
			return v
		}
		switch e.Name {
		case "true":
			return SV{T: tTrue}
		case "false":
			return SV{T: tFalse}
		case "nil":
			return SV{V: VIf{}, Ty: types.Typ[types.UntypedNil]}
		}
		if f := th.funs[e.Name]; f != nil && len(f.args) == 0 {
			return SV{T: mkApp(f.name, f.ret)}
		}
		return c.fail("unknown name %s", e.Name)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(e.Value, 0)
			return SV{T: tBig(n)}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			return SV{T: tInt(int64(r))}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				return c.fail("bad string %s", e.Value)
			}
			return SV{T: tLit(s)}
		}
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return SV{T: tNot(c.term(c.eval(e.X)))}
		case token.SUB:
			return SV{T: tMulC(big.NewInt(-1), c.term(c.eval(e.X)))}
		}
	case *ast.StarExpr:
		v := c.eval(e.X)
		if p, ok := v.LT.(*types.Pointer); ok && v.T != nil {
			return SV{T: tApp("deref_"+typeKey(p.Elem()), encSort(p.Elem()), v.T), LT: p.Elem()}
		}
		return c.deref(v)
	case *ast.CompositeLit:
		return c.composite(e)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			a := c.term(c.eval(e.X))
			if a == tFalse {
				return SV{T: tFalse}
			}
			return SV{T: tAnd(a, c.term(c.eval(e.Y)))}
		case token.LOR:
			a := c.term(c.eval(e.X))
			if a == tTrue {
				return SV{T: tTrue}
			}
			return SV{T: tOr(a, c.term(c.eval(e.Y)))}
		case token.EQL, token.NEQ:
			t := c.equal(c.eval(e.X), c.eval(e.Y))
			if e.Op == token.NEQ {
				t = tNot(t)
			}
			return SV{T: t}
		}
		a, b := c.term(c.eval(e.X)), c.term(c.eval(e.Y))
		switch e.Op {
		case token.ADD:
			if a.S != sInt {
				return SV{T: tCat(a.S, a, b)}
			}
			return SV{T: tAdd(a, b)}
		case token.SUB:
			return SV{T: tSub(a, b)}
		case token.MUL:
			return SV{T: tMul(a, b)}
		case token.QUO:
			return SV{T: tDiv(a, b)}
		case token.REM:
			return SV{T: tMod(a, b)}
		case token.LSS:
			return SV{T: tLt(a, b)}
		case token.LEQ:
			return SV{T: tLe(a, b)}
		case token.GTR:
			return SV{T: tLt(b, a)}
		case token.GEQ:
			return SV{T: tLe(b, a)}
		}
	case *ast.IndexExpr:
		v := c.eval(e.X)
		i := c.term(c.eval(e.Index))
		if v.Ty != nil {
			switch u := v.Ty.Underlying().(type) {
			case *types.Slice:
				return c.wrap(tNth(c.seqData(v), i), u.Elem(), c.st(v))
			case *types.Array:
				return c.wrap(tNth(c.seqData(v), i), u.Elem(), c.st(v))
			case *types.Map:
				m := c.term(v)
				k := i
				return c.wrap(tSelect(tSel(m, "val"), k, encSort(u.Elem())), u.Elem(), c.st(v))
			}
		}
		if v.LT != nil {
			switch u := v.LT.Underlying().(type) {
			case *types.Slice:
				return SV{T: tNth(c.seqData(v), i), LT: u.Elem()}
			case *types.Array:
				return SV{T: tNth(c.seqData(v), i), LT: u.Elem()}
			}
		}
		return SV{T: tNth(c.seqData(v), i)}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, bound := c.env[id.Name]; !bound {
				if o := lookupPkgObj(id.Name, e.Sel.Name); o != nil {
					if k, ok := o.(*types.Const); ok {
						return constSV(k)
					}
				}
				return c.fail("unknown constant %s.%s", id.Name, e.Sel.Name)
			}
		}
		v := c.eval(e.X)
		if v.Ty == nil {
			if v.LT != nil {
				if f, ok := c.field(v.T, v.LT, e.Sel.Name); ok {
					return f
				}
			}
			if d := th.dt(v.T.S); d != nil {
				for _, f := range d.fields {
					if f.name == e.Sel.Name || strings.HasSuffix(f.name, "_"+e.Sel.Name) && strings.HasPrefix(f.name, "f") {
						return SV{T: tSel(v.T, f.name)}
					}
				}
			}
			return c.fail("field %s of sort %s", e.Sel.Name, v.T.S)
		}
		if vi, ok := v.V.(VIf); ok && vi.Typ != nil {
			v = SV{V: vi.V, Ty: vi.Typ, St: v.St}
		}
		if _, ok := v.Ty.Underlying().(*types.Pointer); ok {
			v = c.deref(v)
		}
		st, ok := v.Ty.Underlying().(*types.Struct)
		if !ok {
			return c.fail("field %s of %s", e.Sel.Name, v.Ty)
		}
		obj, path, _ := types.LookupFieldOrMethod(v.Ty, true, fieldPkg(v.Ty, st), e.Sel.Name)
		if obj == nil {
			return c.fail("no field %s in %s", e.Sel.Name, v.Ty)
		}
		for _, p := range path {
			if _, ok := v.Ty.Underlying().(*types.Pointer); ok {
				v = c.deref(v)
			}
			sv, ok := v.V.(VSt)
			if !ok {
				return c.fail("field of %T", v.V)
			}
			v = SV{V: sv.F[p], Ty: v.Ty.Underlying().(*types.Struct).Field(p).Type(), St: v.St}
		}
		return v
	case *ast.CallExpr:
		return c.call(e)
	}
	return c.fail("unsupported expression %s", types.ExprString(e))
}

func fieldPkg(t types.Type, st *types.Struct) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	if st.NumFields() > 0 {
		return st.Field(0).Pkg()
	}
	return nil
}

func constSV(k *types.Const) SV {
	switch k.Val().Kind() {
	case constant.Int:
		n, _ := new(big.Int).SetString(k.Val().ExactString(), 10)
		return SV{T: tBig(n)}
	case constant.String:
		return SV{T: tLit(constant.StringVal(k.Val()))}
	case constant.Bool:
		return SV{T: tBool(constant.BoolVal(k.Val()))}
	}
	panic(unsupported{"constant kind"})
}

func (c *sctx) wrap(t *Term, typ types.Type, st *State) SV {
	if st == nil {
		return SV{T: t}
	}
	return SV{V: st.decode(t, typ), Ty: typ}
}

func (c *sctx) equal(a, b SV) *Term {
	if a.Ty != nil && b.Ty != nil && a.V != nil && b.V != nil {
		isNil := func(v SV) bool { i, ok := v.V.(VIf); return ok && i.Typ == nil && v.Ty == types.Typ[types.UntypedNil] }
		if isNil(a) {
			a, b = b, a
		}
		if isNil(b) {
			switch v := a.V.(type) {
			case VSl:
				return v.Nil
			case VMp:
				return v.Nil
			case VIf:
				return tBool(v.Typ == nil)
			case VPt:
				return tFalse
			case VFn:
				return tFalse
			case VT:
				if v.T.S == "Ifc" {
					return tEq(mkApp("tagof", sInt, v.T), tInt(0))
				}
				if v.T.S == sInt {
					return tEq(v.T, tInt(0))
				}
				return tEq(v.T, zeroTerm(a.Ty))
			}
		}
	}
	if a.T == nil && b.T != nil {
		a, b = b, a
	}
	if a.T != nil && b.T == nil && b.Ty == types.Typ[types.UntypedNil] {
		switch {
		case a.T.S == "Ifc":
			return tEq(mkApp("tagof", sInt, a.T), tInt(0))
		case a.T.S == sInt:
			return tEq(a.T, tInt(0))
		case strings.HasPrefix(a.T.S, "Slc_") || strings.HasPrefix(a.T.S, "Map_"):
			return tSel(a.T, "nil")
		}
	}
	ta, tb := c.term(a), c.term(b)
	if ta.S != tb.S && isIfcType(goTypeOf(a)) && goTypeOf(b) != nil {
		tb = c.coerce(b, goTypeOf(a))
	} else if ta.S != tb.S && isIfcType(goTypeOf(b)) && goTypeOf(a) != nil {
		ta = c.coerce(a, goTypeOf(b))
	}
	if ta.S != tb.S {
		// slices against sequences compare contents
		if strings.HasPrefix(ta.S, "Slc_") {
			ta = tSel(ta, "data")
		}
		if strings.HasPrefix(tb.S, "Slc_") {
			tb = tSel(tb, "data")
		}
	}
	if ta.S != tb.S {
		c.fail("comparison of sorts %s and %s", ta.S, tb.S)
	}
	return tEq(ta, tb)
}

func (c *sctx) call(e *ast.CallExpr) SV {
	name := ""
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = types.ExprString(f)
	case *ast.IndexExpr:
		name = types.ExprString(f)
	}
	arg := func(i int) SV { return c.eval(e.Args[i]) }
	str := func(i int) string {
		l, ok := e.Args[i].(*ast.BasicLit)
		if !ok {
			c.fail("string literal expected in %s", types.ExprString(e))
		}
		s, _ := strconv.Unquote(l.Value)
		return s
	}
	switch name {
	case "old":
		n := *c
		n.cur = c.old
		v := n.eval(e.Args[0])
		if v.St == nil && v.T == nil {
			v.St = c.old
		}
		return v
	case "entry":
		id := e.Args[0].(*ast.Ident).Name
		v, ok := c.entry[id]
		if !ok {
			return c.fail("entry(%s)", id)
		}
		return v
	case "imp":
		a := c.term(arg(0))
		if a == tFalse {
			return SV{T: tTrue}
		}
		return SV{T: tImp(a, c.term(arg(1)))}
	case "iff":
		return SV{T: tEq(c.term(arg(0)), c.term(arg(1)))}
	case "ite":
		cnd := c.term(arg(0))
		if cnd == tTrue {
			return arg(1)
		}
		if cnd == tFalse {
			return arg(2)
		}
		x, y := arg(1), arg(2)
		tx, ty := goTypeOf(x), goTypeOf(y)
		isptr := func(t types.Type) bool {
			if t == nil {
				return false
			}
			_, ok := t.Underlying().(*types.Pointer)
			return ok
		}
		if isptr(tx) && ty == types.Typ[types.UntypedNil] {
			y, ty = SV{T: tInt(0), LT: tx}, tx
		} else if isptr(ty) && tx == types.Typ[types.UntypedNil] {
			x, tx = SV{T: tInt(0), LT: ty}, ty
		}
		if tx != nil && ty != nil && !types.Identical(tx, ty) && (th.usort("Ifc") != "") && (isIfcType(tx) || isIfcType(ty) || c.term(x).S != c.term(y).S) {
			it := types.NewInterfaceType(nil, nil)
			return SV{T: tIte(cnd, c.coerce(x, it), c.coerce(y, it)), LT: it}
		}
		a, b := c.term(x), c.term(y)
		return SV{T: tIte(cnd, a, b), LT: tx}
	case "len":
		v := arg(0)
		if s, ok := v.V.(VSl); ok {
			return SV{T: s.Len}
		}
		if v.Ty != nil {
			if _, ok := v.Ty.Underlying().(*types.Map); ok {
				return SV{T: tLen(tSel(c.term(v), "keys"))}
			}
		}
		return SV{T: tLen(c.seqData(v))}
	case "data":
		v := arg(0)
		return SV{T: c.seqData(v), LT: goTypeOf(v)}
	case "isnil":
		v := arg(0)
		if v.T != nil {
			return SV{T: tSel(v.T, "nil")}
		}
		return SV{T: c.equal(v, SV{V: VIf{}, Ty: types.Typ[types.UntypedNil]})}
	case "keys", "dom", "mval":
		v := arg(0)
		m := c.term(v)
		switch name {
		case "keys":
			return SV{T: tSel(m, "keys")}
		case "dom":
			return SV{T: tSelect(tSel(m, "dom"), c.term(arg(1)), sBool)}
		default:
			_, vs := arrSorts(tSel(m, "val").S)
			var lt types.Type
			if mt := goTypeOf(v); mt != nil {
				if mt, ok := mt.Underlying().(*types.Map); ok {
					lt = mt.Elem()
				}
			}
			return SV{T: tSelect(tSel(m, "val"), c.term(arg(1)), vs), LT: lt}
		}
	case "store":
		m := c.term(arg(0))
		k, v := c.term(arg(1)), c.term(arg(2))
		return SV{T: tStore(m, k, v)}
	case "mapdom":
		return SV{T: tSel(c.term(arg(0)), "dom")}
	case "mapval":
		return SV{T: tSel(c.term(arg(0)), "val")}
	case "sel":
		a := c.term(arg(0))
		_, vs := arrSorts(a.S)
		return SV{T: tSelect(a, c.term(arg(1)), vs)}
	case "cat":
		var ts []*Term
		for i := range e.Args {
			ts = append(ts, c.seqData(arg(i)))
		}
		return SV{T: tCat(ts[0].S, ts...)}
	case "unit":
		return SV{T: tUnit(c.term(arg(0)))}
	case "empty":
		return SV{T: tEmpty(seqOf(parseSort(str(0))))}
	case "sub":
		v := arg(0)
		return SV{T: tExt(c.seqData(v), c.term(arg(1)), c.term(arg(2))), LT: goTypeOf(v)}
	case "is":
		v := arg(0)
		key := normType(str(1))
		if vi, ok := v.V.(VIf); ok {
			if vi.Typ == nil {
				return SV{T: tFalse}
			}
			return SV{T: tBool(shortType(vi.Typ) == key)}
		}
		t := goType(str(1))
		return SV{T: tEq(mkApp("tagof", sInt, c.term(v)), tInt(tagID(fullKey(t))))}
	case "as":
		v := arg(0)
		t := goType(str(1))
		if vi, ok := v.V.(VIf); ok {
			if vi.Typ != nil && types.Identical(vi.Typ, t) {
				return SV{V: vi.V, Ty: t, St: v.St}
			}
			// not that type: an arbitrary value (guarded by is(...))
			return SV{V: c.cur.fresh("notas", t), Ty: t}
		}
		u := mkApp("unbox_"+fullKey(t), encSort(t), c.term(v))
		return SV{V: c.cur.decode(u, t), Ty: t}
	case "istext": // string or []byte
		v := arg(0)
		if vi, ok := v.V.(VIf); ok {
			if vi.Typ == nil {
				return SV{T: tFalse}
			}
			k := shortType(vi.Typ)
			return SV{T: tBool(k == "string" || k == "[]uint8")}
		}
		tag := mkApp("tagof", sInt, c.term(v))
		return SV{T: tOr(tEq(tag, tInt(tagID("string"))), tEq(tag, tInt(tagID("[]uint8"))))}
	case "buf": // what was written to a builder
		return SV{T: c.x.bufText(c.cur, VT{c.term(arg(0))})}
	case "text":
		v := arg(0)
		if vi, ok := v.V.(VIf); ok {
			if vi.Typ == nil {
				return SV{T: tFresh("notext", sBytes)}
			}
			switch shortType(vi.Typ) {
			case "string", "[]uint8":
				return SV{T: c.seqData(SV{V: vi.V, Ty: vi.Typ, St: v.St})}
			}
			return SV{T: tFresh("notext", sBytes)}
		}
		t := c.term(v)
		tag := mkApp("tagof", sInt, t)
		return SV{T: tIte(tEq(tag, tInt(tagID("string"))), mkApp("unbox_string", sBytes, t), tSel(mkApp("unbox_[]uint8", slcSort(sInt), t), "data"))}
	case "unbox": // the contents of an interface value, as a term
		t := goType(str(0))
		return SV{T: mkApp("unbox_"+fullKey(t), encSort(t), c.term(arg(1))), LT: t}
	case "enc": // term of a Go value
		return SV{T: c.term(arg(0))}
	case "box":
		v := arg(1)
		t := goType(str(0))
		return SV{T: mkApp("box_"+fullKey(t), th.usort("Ifc"), c.term(v))}
	case "ifc":
		it := types.NewInterfaceType(nil, nil)
		return SV{T: c.coerce(arg(0), it), LT: it}
	case "mput": // m with m[k] = v
		v := arg(0)
		m, k, x := c.term(v), c.term(arg(1)), c.term(arg(2))
		dom, keys := tSel(m, "dom"), tSel(m, "keys")
		nk := tIte(tSelect(dom, k, sBool), keys, tCat(keys.S, keys, tUnit(k)))
		return SV{T: tMk(m.S, tFalse, tStore(dom, k, tTrue), tStore(tSel(m, "val"), k, x), nk), LT: goTypeOf(v)}
	case "made": // made("map[K]V"): an empty map that is not nil
		t := goType(str(0))
		z := zeroTerm(t)
		return SV{T: tMk(z.S, tFalse, z.A[1], z.A[2], z.A[3]), LT: t}
	case "nilifc":
		return SV{T: tApp("nil_Ifc", th.usort("Ifc"))}
	case "tag":
		return SV{T: mkApp("tagof", sInt, c.term(arg(0)))}
	case "tagid":
		return SV{T: tInt(tagID(fullKey(goType(str(0)))))}
	case "gvar": // a package variable of a dependency
		n := str(0)
		i := strings.LastIndexByte(n, '.')
		o := lookupPkgObj(n[:i], n[i+1:])
		if o == nil {
			return c.fail("no variable %s", n)
		}
		return SV{T: tSym("globalval_"+o.Pkg().Path()+"."+o.Name(), encSort(o.Type()))}
	case "zero":
		return SV{T: zeroTerm(goType(str(0)))}
	case "mk":
		// mk("Go type or sort", fields...)
		s := parseSort(str(0))
		var as []*Term
		for i := 1; i < len(e.Args); i++ {
			as = append(as, c.term(arg(i)))
		}
		return SV{T: tMk(s, as...)}
	case "godecode":
		t := goType(str(0))
		return SV{V: c.cur.decode(c.term(arg(1)), t), Ty: t}
	case "derefof":
		t := goType(str(0))
		return SV{T: tApp("deref_"+typeKey(t), encSort(t), c.term(arg(1))), LT: t}
	case "div":
		return SV{T: tDiv(c.term(arg(0)), c.term(arg(1)))}
	case "mod":
		return SV{T: tMod(c.term(arg(0)), c.term(arg(1)))}
	case "wrap":
		return SV{T: wrapTo(c.term(arg(1)), goType(str(0)))}
	case "inrange":
		lo, hi, _ := intRange(goType(str(0)))
		t := c.term(arg(1))
		return SV{T: tAnd(tLe(tBig(lo), t), tLe(t, tBig(hi)))}
	}
	if f := th.funs[name]; f != nil {
		if len(f.args) != len(e.Args) {
			return c.fail("%s expects %d arguments", name, len(f.args))
		}
		var as []*Term
		for i := range e.Args {
			v := arg(i)
			t := c.term(v)
			if t.S != f.args[i] && f.args[i] == "Ifc" && goTypeOf(v) != nil {
				t = c.coerce(v, types.NewInterfaceType(nil, nil))
			}
			if t.S != f.args[i] {
				t = c.seqData(v)
			}
			if t.S != f.args[i] {
				return c.fail("%s: argument %d has sort %s, want %s", name, i, t.S, f.args[i])
			}
			as = append(as, t)
		}
		if f.macro {
			if f.def == nil {
				return c.fail("macro %s is used before its definition", name)
			}
			m := map[*Term]*Term{}
			for i, p := range f.def.params {
				m[p] = as[i]
			}
			return SV{T: subst(f.def.body, m), LT: recTypes[name]}
		}
		return SV{T: mkApp(name, f.ret, as...), LT: recTypes[name]}
	}
	return c.fail("unknown function %s", name)
}

// anyOf is T in `modifies any("T")`: all memory of that type.
func anyOf(e ast.Expr) types.Type {
	if c, ok := e.(*ast.CallExpr); ok {
		if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "any" && len(c.Args) == 1 {
			s, _ := strconv.Unquote(c.Args[0].(*ast.BasicLit).Value)
			return goType(s)
		}
	}
	return nil
}

// location is the memory a `modifies` expression denotes: *p or p.Field...
func (c *sctx) location(e ast.Expr) (VPt, bool) {
	switch e := e.(type) {
	case *ast.StarExpr:
		v := c.eval(e.X)
		p, ok := c.x.ptrVal(v.V, v.Ty, c.cur)
		return p, ok
	case *ast.SelectorExpr:
		var p VPt
		var st types.Type
		if id, ok := e.X.(*ast.Ident); ok {
			base := c.eval(id)
			pt, ok := base.Ty.Underlying().(*types.Pointer)
			if !ok {
				c.fail("modifies %s", types.ExprString(e))
			}
			if p, ok = c.x.ptrVal(base.V, base.Ty, c.cur); !ok {
				return p, false
			}
			st = pt.Elem()
		} else {
			var ok bool
			if p, ok = c.location(e.X); !ok {
				return p, false
			}
			st = pathType(c.cur.heap[p.Obj].typ, p.Path)
			if pt, isp := st.Underlying().(*types.Pointer); isp {
				if p, ok = c.x.ptrVal(c.cur.load(p), st, c.cur); !ok {
					return p, false
				}
				st = pt.Elem()
			}
		}
		_, path, _ := types.LookupFieldOrMethod(st, true, pkgOf(st), e.Sel.Name)
		if path == nil {
			c.fail("modifies %s", types.ExprString(e))
		}
		for _, i := range path {
			p = VPt{p.Obj, append(append([]pel{}, p.Path...), pel{fld: i})}
		}
		return p, true
	}
	c.fail("modifies %s", types.ExprString(e))
	return VPt{}, false
}

// havoc forgets the location denoted by a contract expression.
func (c *sctx) havoc(e ast.Expr) {
	if t := anyOf(e); t != nil {
		c.cur.goWild(t)
		for _, w := range c.cur.track {
			if w.all == nil {
				w.all = map[string]types.Type{}
			}
			w.all[typeKey(t)] = t
		}
		return
	}
	p, ok := c.location(e)
	if !ok {
		return
	}
	o := c.cur.heap[p.Obj]
	c.cur.note(p)
	if m, ok := c.cur.load(p).(VMp); ok && m.Obj != 0 {
		c.cur.note(VPt{Obj: m.Obj})
		c.cur.setObj(m.Obj, VT{tFresh("mod", encSort(c.cur.heap[m.Obj].typ))})
	}
	nv := c.cur.fresh("mod", pathType(o.typ, p.Path))
	c.cur.setObj(p.Obj, c.cur.storePath(o.v, o.typ, p.Path, nv))
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
