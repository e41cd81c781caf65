// verif:package internal/generator
package generator

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"
)

// The generated method is run by a small interpreter over symbolic values: a
// field of the query struct is its own selector text. What is observed are the
// calls a generated method makes, with the arguments it passes.

type sym string

// event is one observable step of a generated method.
type event struct {
	what string
	args []string
}

func (e event) String() string { return e.what + "(" + strings.Join(e.args, " | ") + ")" }

type interp struct {
	imports map[string]string // local name -> path
	env     []map[string]interface{}
	inits   map[string]string // initialised pointer -> type
	events  []event
	rows    int // rows the query produces
	row     int
	filter  int // parameters of the filter
	calls   int
	failAt  int // the fallible call that fails, or -1
	fresh   int
	steps   int
}

type ret struct{ v interface{} }

func sliceLen(x string) int { return 1 + (len(x)+int(x[len(x)-1]))%3 }

func (in *interp) fallible() interface{} {
	in.calls++
	if in.calls-1 == in.failAt {
		return sym("E!")
	}
	return nil
}

func (in *interp) get(n string) (interface{}, bool) {
	for i := len(in.env) - 1; i >= 0; i-- {
		if v, ok := in.env[i][n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (in *interp) set(n string, v interface{}, define bool) {
	if n == "_" {
		return
	}
	if !define {
		for i := len(in.env) - 1; i >= 0; i-- {
			if _, ok := in.env[i][n]; ok {
				in.env[i][n] = v
				return
			}
		}
		panic("assignment to undeclared " + n)
	}
	in.env[len(in.env)-1][n] = v
}

func (in *interp) typ(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		p := x.X.(*ast.Ident).Name
		if path, ok := in.imports[p]; ok {
			return path + "." + x.Sel.Name
		}
		panic("package " + p + " is not imported")
	}
	panic(fmt.Sprintf("type %T", e))
}

func symText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case sym:
		return string(x)
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

func (in *interp) eval(e ast.Expr) interface{} {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.STRING {
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				panic(err)
			}
			return s
		}
		n, err := strconv.Atoi(x.Value)
		if err != nil {
			panic(err)
		}
		return n
	case *ast.ParenExpr:
		return in.eval(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			return nil
		}
		if v, ok := in.get(x.Name); ok {
			return v
		}
		panic("undeclared " + x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isvar := in.get(id.Name); !isvar {
				if path, ok := in.imports[id.Name]; ok {
					return sym(path + "." + x.Sel.Name)
				}
				panic("undeclared " + id.Name)
			}
		}
		return sym(symText(in.eval(x.X)) + "." + x.Sel.Name)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, ok := x.X.(*ast.CompositeLit); ok {
				return in.eval(x.X)
			}
			return sym("&" + symText(in.eval(x.X)))
		}
	case *ast.BinaryExpr:
		a, b := in.eval(x.X), in.eval(x.Y)
		if as, ok := a.(string); ok && x.Op == token.ADD {
			return as + b.(string)
		}
		ai, aok := a.(int)
		bi, bok := b.(int)
		if aok && bok {
			switch x.Op {
			case token.ADD:
				return ai + bi
			case token.SUB:
				return ai - bi
			case token.MUL:
				return ai * bi
			case token.LSS:
				return ai < bi
			case token.EQL:
				return ai == bi
			}
		}
		switch x.Op {
		case token.NEQ:
			return symText(a) != symText(b)
		case token.EQL:
			if _, ok := a.(sym); ok && bok {
				return sym("zero? " + symText(a) + " " + symText(b))
			}
			return symText(a) == symText(b)
		}
	case *ast.IndexExpr:
		b, i := in.eval(x.X), in.eval(x.Index)
		switch v := b.(type) {
		case []interface{}:
			return v[i.(int)]
		case sym:
			if v == "github.com/frk/gosql.OrdinalParameters" {
				return "$" + strconv.Itoa(i.(int)+1)
			}
			return sym(fmt.Sprintf("%s[%v]", v, i))
		}
	case *ast.SliceExpr:
		s := in.eval(x.X).(string)
		lo, hi := 0, len(s)
		if x.Low != nil {
			lo = in.eval(x.Low).(int)
		}
		if x.High != nil {
			hi = in.eval(x.High).(int)
		}
		return s[lo:hi]
	case *ast.CompositeLit:
		if _, ok := x.Type.(*ast.ArrayType); ok {
			out := []interface{}{}
			for _, el := range x.Elts {
				out = append(out, in.eval(el))
			}
			return out
		}
		s := in.typ(x.Type) + "{"
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			s += kv.Key.(*ast.Ident).Name + ":" + symText(in.eval(kv.Value)) + ","
		}
		return sym(s + "}")
	case *ast.CallExpr:
		r := in.call(x)
		if l, ok := r.(tuple); ok {
			if len(l) == 1 {
				return l[0]
			}
		}
		return r
	}
	panic(fmt.Sprintf("expression %T", e))
}

type tuple []interface{}

func (in *interp) args(x *ast.CallExpr) (out []interface{}) {
	for i, a := range x.Args {
		v := in.eval(a)
		if x.Ellipsis.IsValid() && i == len(x.Args)-1 {
			out = append(out, v.([]interface{})...)
			continue
		}
		out = append(out, v)
	}
	return out
}

func (in *interp) call(x *ast.CallExpr) interface{} {
	if id, ok := x.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "len":
			switch v := in.eval(x.Args[0]).(type) {
			case string:
				return len(v)
			case sym:
				return sliceLen(string(v))
			}
		case "make":
			return make([]interface{}, in.eval(x.Args[1]).(int))
		case "new":
			return sym("new " + in.typ(x.Args[0]))
		case "append":
			a := in.args(x)
			if l, ok := a[0].([]interface{}); ok {
				return append(append([]interface{}{}, l...), a[1:]...)
			}
			return sym("append " + symText(a[0]) + " " + symText(a[1]))
		}
		if _, isvar := in.get(id.Name); !isvar {
			return sym(id.Name + "(" + symText(in.eval(x.Args[0])) + ")")
		}
	}
	fn := symText(in.eval(x.Fun))
	a := in.args(x)
	var texts []string
	for _, v := range a {
		texts = append(texts, symText(v))
	}
	switch fn {
	case "github.com/frk/gosql.InValueList":
		var l []string
		for i := 0; i < a[0].(int); i++ {
			l = append(l, "$"+strconv.Itoa(a[1].(int)+i+1))
		}
		return strings.Join(l, ",")
	case "c.Exec", "c.Query", "c.QueryRow", "c.ExecContext", "c.QueryContext", "c.QueryRowContext":
		ctx := ""
		if strings.HasSuffix(fn, "Context") {
			ctx, a = texts[0], a[1:]
		}
		q, ok := a[0].(string)
		if !ok {
			panic("the first argument of " + fn + " is not the query")
		}
		in.events = append(in.events, event{"query", []string{ctx, strings.TrimSuffix(strings.TrimPrefix(fn, "c."), "Context"), bindParams(q, a[1:])}})
		switch strings.TrimSuffix(fn, "Context") {
		case "c.QueryRow":
			return sym("row")
		case "c.Query":
			return tuple{sym("rows"), in.fallible()}
		}
		return tuple{sym("res"), in.fallible()}
	case "row.Scan", "rows.Scan":
		err := in.fallible()
		done := []string{}
		for k, t := range in.inits {
			done = append(done, k+"="+t)
		}
		sort.Strings(done)
		if err == nil {
			in.events = append(in.events, event{"scan", []string{strings.Join(texts, " "), strings.Join(done, ";")}})
		}
		return tuple{err}
	case "rows.Next":
		in.row++
		return in.row <= in.rows
	case "rows.Err":
		return tuple{in.fallible()}
	case "rows.Close":
		return nil
	case "res.RowsAffected":
		return tuple{sym("affected"), in.fallible()}
	}
	if strings.HasSuffix(fn, ".ToSQL") {
		s := " WHERE"
		p := []interface{}{}
		n := a[0].(int)
		for i := 1; i <= in.filter; i++ {
			s += fmt.Sprintf(" f%d = $%d", i, n+i)
			p = append(p, sym(fmt.Sprintf("%s#%d", strings.TrimSuffix(fn, ".ToSQL"), i)))
		}
		return tuple{s, p}
	}
	if strings.HasSuffix(fn, ".AfterScan") {
		in.events = append(in.events, event{"afterscan", []string{strings.TrimSuffix(fn, ".AfterScan")}})
		return nil
	}
	if strings.HasPrefix(fn, "github.com/frk/gosql/pgsql.") || strings.HasSuffix(fn, ".HandleError") || strings.HasSuffix(fn, ".HandleErrorInfo") {
		return sym(fn + "(" + strings.Join(texts, ", ") + ")")
	}
	// an iterator
	err := in.fallible()
	if err == nil {
		in.events = append(in.events, event{"iter", append([]string{fn}, texts...)})
	}
	return tuple{err}
}

func (in *interp) assign(lhs ast.Expr, v interface{}, tok token.Token) {
	if id, ok := lhs.(*ast.Ident); ok {
		if s, ok := v.(sym); ok && strings.HasPrefix(string(s), "new ") {
			in.fresh++
			name := sym(fmt.Sprintf("%s#%d", id.Name, in.row))
			in.initialise(string(name), string(s)[4:])
			v = name
		}
		if tok == token.ADD_ASSIGN {
			old, _ := in.get(id.Name)
			switch o := old.(type) {
			case string:
				v = o + v.(string)
			case int:
				v = o + v.(int)
			}
		}
		in.set(id.Name, v, tok == token.DEFINE)
		return
	}
	if ix, ok := lhs.(*ast.IndexExpr); ok {
		if l, ok := in.eval(ix.X).([]interface{}); ok {
			l[in.eval(ix.Index).(int)] = v
			return
		}
	}
	at := symText(in.eval(lhs))
	s := symText(v)
	switch {
	case strings.HasPrefix(s, "new "):
		in.initialise(at, s[4:])
	case strings.HasPrefix(s, "append "+at+" "):
		in.events = append(in.events, event{"deliver", []string{at, s[len("append "+at+" "):]}})
	default:
		in.events = append(in.events, event{"set", []string{at, s}})
	}
}

// initialise records a pointer's new value; what hung off the old one is gone.
func (in *interp) initialise(at, typ string) {
	for k := range in.inits {
		if strings.HasPrefix(k, at+".") {
			delete(in.inits, k)
		}
	}
	in.inits[at] = typ
}

func (in *interp) block(l []ast.Stmt) *ret {
	in.env = append(in.env, map[string]interface{}{})
	defer func() { in.env = in.env[:len(in.env)-1] }()
	for _, s := range l {
		if r := in.exec(s); r != nil {
			return r
		}
	}
	return nil
}

func (in *interp) exec(s ast.Stmt) *ret {
	in.steps++
	if in.steps > 100000 {
		panic("does not end")
	}
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.ExprStmt:
		in.call(x.X.(*ast.CallExpr))
	case *ast.DeferStmt:
		in.events = append(in.events, event{"defer", []string{symText(in.eval(x.Call.Fun))}})
	case *ast.IncDecStmt:
		id := x.X.(*ast.Ident).Name
		v, _ := in.get(id)
		if x.Tok == token.INC {
			in.set(id, v.(int)+1, false)
		} else {
			in.set(id, v.(int)-1, false)
		}
	case *ast.DeclStmt:
		for _, sp := range x.Decl.(*ast.GenDecl).Specs {
			vs := sp.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if len(vs.Values) > i {
					in.set(n.Name, in.eval(vs.Values[i]), true)
				} else {
					in.typ(vs.Type)
					name := fmt.Sprintf("%s#%d", n.Name, in.row)
					in.initialise(name, in.typ(vs.Type))
					in.set(n.Name, sym(name), true)
				}
			}
		}
	case *ast.AssignStmt:
		var vals []interface{}
		if len(x.Lhs) > 1 && len(x.Rhs) == 1 {
			r := in.call(x.Rhs[0].(*ast.CallExpr))
			vals = []interface{}(r.(tuple))
		} else {
			for _, r := range x.Rhs {
				vals = append(vals, in.eval(r))
			}
		}
		for i, l := range x.Lhs {
			in.assign(l, vals[i], x.Tok)
		}
	case *ast.IfStmt:
		in.env = append(in.env, map[string]interface{}{})
		defer func() { in.env = in.env[:len(in.env)-1] }()
		if x.Init != nil {
			in.exec(x.Init)
		}
		switch c := in.eval(x.Cond).(type) {
		case bool:
			if c {
				return in.block(x.Body.List)
			} else if x.Else != nil {
				return in.exec(x.Else)
			}
		case sym: // the fallback of a limit or an offset
			as, ok := x.Body.List[0].(*ast.AssignStmt)
			if !ok || len(x.Body.List) != 1 || !strings.HasPrefix(string(c), "zero? ") {
				panic("condition " + string(c))
			}
			in.events = append(in.events, event{"fallback", []string{string(c), symText(in.eval(as.Lhs[0])), symText(in.eval(as.Rhs[0]))}})
		}
	case *ast.BlockStmt:
		return in.block(x.List)
	case *ast.ForStmt:
		in.env = append(in.env, map[string]interface{}{})
		defer func() { in.env = in.env[:len(in.env)-1] }()
		if x.Init != nil {
			in.exec(x.Init)
		}
		for {
			if x.Cond != nil && !in.eval(x.Cond).(bool) {
				break
			}
			if r := in.block(x.Body.List); r != nil {
				return r
			}
			if x.Post != nil {
				in.exec(x.Post)
			}
		}
	case *ast.RangeStmt:
		over := in.eval(x.X).(sym)
		for i := 0; i < sliceLen(string(over)); i++ {
			in.env = append(in.env, map[string]interface{}{})
			if id, ok := x.Key.(*ast.Ident); ok {
				in.set(id.Name, i, true)
			}
			if id, ok := x.Value.(*ast.Ident); ok {
				in.set(id.Name, sym(fmt.Sprintf("%s[%d]", over, i)), true)
			}
			r := in.block(x.Body.List)
			in.env = in.env[:len(in.env)-1]
			if r != nil {
				return r
			}
		}
	case *ast.ReturnStmt:
		return &ret{in.eval(x.Results[0])}
	default:
		panic(fmt.Sprintf("statement %T", s))
	}
	return nil
}

// bindParams replaces every $k of the query by the k-th argument; an argument that
// is not referenced, or a parameter without argument, is reported in the text.
func bindParams(q string, args []interface{}) string {
	toks := sqlTokens(q)
	used := make([]bool, len(args))
	for i, t := range toks {
		if len(t) > 1 && t[0] == '$' {
			n, err := strconv.Atoi(t[1:])
			if err != nil || n < 1 || n > len(args) {
				toks[i] = t + "<no argument>"
				continue
			}
			used[n-1] = true
			toks[i] = "<" + symText(args[n-1]) + ">"
		}
	}
	for i, u := range used {
		if !u {
			toks = append(toks, fmt.Sprintf("<unused argument %d: %s>", i+1, symText(args[i])))
		}
	}
	return strings.Join(toks, " ")
}

// sqlTokens splits SQL text into tokens.
func sqlTokens(q string) (out []string) {
	word := func(c byte) bool {
		return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i < len(q); {
		c := q[i]
		j := i + 1
		switch {
		case c == ' ' || c == '\n' || c == '\t':
			i++
			continue
		case c == '"' || c == '\'':
			for j < len(q) && q[j] != c {
				j++
			}
			j++
		case word(c):
			for j < len(q) && word(q[j]) {
				j++
			}
		case strings.IndexByte("=<>!~*:", c) >= 0:
			for j < len(q) && strings.IndexByte("=<>!~*:", q[j]) >= 0 {
				j++
			}
		}
		if j > len(q) {
			j = len(q)
		}
		out = append(out, q[i:j])
		i = j
	}
	return out
}

// run executes the method of the generated source.
func runGenerated(src []byte, method string, rows, filter, failAt int) (evs []event, result interface{}, calls int, err interface{}) {
	fset := token.NewFileSet()
	f, perr := parser.ParseFile(fset, "out.go", src, 0)
	if perr != nil {
		return nil, nil, 0, perr
	}
	in := &interp{imports: map[string]string{}, inits: map[string]string{}, rows: rows, filter: filter, failAt: failAt}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		if old, ok := in.imports[n]; ok {
			return nil, nil, 0, "packages " + old + " and " + p + " are both imported as " + n
		}
		in.imports[n] = p
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Name.Name != method {
			continue
		}
		in.env = []map[string]interface{}{{}}
		in.env[0][fd.Recv.List[0].Names[0].Name] = sym("q")
		for _, p := range fd.Type.Params.List {
			in.env[0][p.Names[0].Name] = sym(p.Names[0].Name)
		}
		err = guard(func() {
			if r := in.block(fd.Body.List); r != nil {
				result = r.v
				return
			}
			panic("the method ends without a return")
		})
		return in.events, result, in.calls, err
	}
	return nil, nil, 0, "no method " + method
}
