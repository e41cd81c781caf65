// verif:package filter
package filter

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/frk/fql"
	"github.com/frk/gosql/pgsql"
)

// mtok is one element of the reference condition.
type mtok struct {
	kind byte // 'o' operand, '(' , ')', '&' , '|'
	text string
	vals []interface{} // one for every ? in text
}

type model struct {
	toks    []mtok
	orderby string
	limit   int64
	offset  int64
	tscol   string
	desc    []string // the calls made
}

func (m *model) open() bool { // an operand is expected
	if len(m.toks) == 0 {
		return true
	}
	k := m.toks[len(m.toks)-1].kind
	return k == '(' || k == '&' || k == '|'
}
func (m *model) join(k byte) {
	if !m.open() {
		m.toks = append(m.toks, mtok{kind: k})
	}
}
func (m *model) operand(text string, vals ...interface{}) {
	m.join('&')
	m.toks = append(m.toks, mtok{'o', text, vals})
}

// sql is the reference text and parameters.
func (m *model) where(pos int) (s string, ps []interface{}) {
	if len(m.toks) == 0 {
		return "", nil
	}
	s = " WHERE "
	for _, t := range m.toks {
		switch t.kind {
		case '(', ')':
			s += string(t.kind)
		case '&':
			s += " AND "
		case '|':
			s += " OR "
		default:
			parts := strings.Split(t.text, "?")
			for i, p := range parts {
				if i > 0 {
					pos++
					s += "$" + strconv.Itoa(pos)
				}
				s += p
			}
			ps = append(ps, t.vals...)
		}
	}
	return s, ps
}
func (m *model) sql(pos int) (string, []interface{}) {
	s, ps := m.where(pos)
	if m.orderby != "" {
		s += " ORDER BY " + m.orderby
	}
	if m.limit > 0 {
		s += fmt.Sprintf(" LIMIT %d", m.limit)
	}
	if m.offset > 0 {
		s += fmt.Sprintf(" OFFSET %d", m.offset)
	}
	return s, ps
}

func samePs(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

func refTS(s string) string {
	out := ""
	for _, w := range strings.Split(strings.TrimSpace(s), " ") {
		if w != "" {
			if out != "" {
				out += " & "
			}
			out += w + ":*"
		}
	}
	return out
}

var cols = []string{`a`, `b`, `t."c_d"`, `u.id`, `x::text`}

func (f *vf) col() string { return cols[f.r.Intn(len(cols))] }
func (f *vf) word() string {
	w := []string{"", "x", "foo", "a b", "o'x", " foo  bar ", "é", "foo bar baz", "\t", "a  b", "$1", "?"}
	return w[f.r.Intn(len(w))]
}
func (f *vf) size() int { return []int{0, 1, 1, 2, 3, 5, 12, 40}[f.r.Intn(8)] }

func (f *vf) i64s() (v []int64) {
	for i := f.size(); i > 0; i-- {
		v = append(v, f.r.Int63n(2000)-1000)
	}
	return
}
func (f *vf) ints() (v []int) {
	for i := f.size(); i > 0; i-- {
		v = append(v, f.r.Intn(2000)-1000)
	}
	return
}
func (f *vf) i16s() (v []int16) {
	for i := f.size(); i > 0; i-- {
		v = append(v, int16(f.r.Intn(2000)-1000))
	}
	return
}
func (f *vf) strs() (v []string) {
	for i := f.size(); i > 0; i-- {
		v = append(v, f.word())
	}
	return
}

type namedBool bool

func refIn(col string, n int) string {
	return col + " IN (" + strings.TrimSuffix(strings.Repeat("?,", n), ",") + ")"
}
func boxed(v interface{}) (out []interface{}) {
	r := reflect.ValueOf(v)
	for i := 0; i < r.Len(); i++ {
		out = append(out, r.Index(i).Interface())
	}
	return
}
func refCol(m *model, col, op string, val interface{}) {
	switch strings.ToUpper(op) {
	case "ANY":
		switch v := val.(type) {
		case []int64:
			m.operand(col+" = ANY(?::int8[])", pgsql.Int8ArrayFromInt64Slice(v))
		case []int:
			m.operand(col+" = ANY(?::int4[])", pgsql.Int4ArrayFromIntSlice(v))
		case []int16:
			m.operand(col+" = ANY(?::int2[])", pgsql.Int2ArrayFromInt16Slice(v))
		case []string:
			m.operand(col+" = ANY(?::text[])", pgsql.TextArrayFromStringSlice(v))
		}
		return
	case "IN":
		switch val.(type) {
		case []int64, []int, []int16, []string:
			b := boxed(val)
			m.operand(refIn(col, len(b)), b...)
		}
		return
	}
	lit := ""
	switch v := val.(type) {
	case nil:
		lit = "NULL"
	case bool:
		lit = strings.ToUpper(strconv.FormatBool(v))
	default:
		m.operand(col+" "+op+" ?", val)
		return
	}
	switch op {
	case "=":
		m.operand(col + " IS " + lit)
	case "<>":
		m.operand(col + " IS NOT " + lit)
	}
}

// act makes one random builder call on both sides.
func (f *vf) act(c *Constructor, m *model, depth int) {
	say := func(s string, a ...interface{}) { m.desc = append(m.desc, fmt.Sprintf(s, a...)) }
	switch f.r.Intn(13) {
	case 0, 1, 2:
		vals := []interface{}{nil, true, false, 1, int64(7), "x", "", 2.5, []byte("q"), namedBool(true), f.i64s(), f.ints(), f.i16s(), f.strs(), []float64{1}, (*int)(nil), uint(3)}
		ops := []string{"=", "<>", "<", ">", "<=", ">=", "LIKE", "in", "IN", "In", "any", "ANY", "aNy", "~*", "IS"}
		col, op, v := f.col(), ops[f.r.Intn(len(ops))], vals[f.r.Intn(len(vals))]
		say("Col(%q, %q, %T(%v))", col, op, v, v)
		c.Col(col, op, v)
		refCol(m, col, op, v)
	case 3:
		v := f.word()
		say("TextSearch(%q)", v)
		c.TextSearch(v)
		if m.tscol != "" {
			m.operand(m.tscol+" @@ to_tsquery('simple', ?)", refTS(v))
		}
	case 4:
		col := f.col()
		var v interface{}
		switch f.r.Intn(4) {
		case 0:
			x := f.i64s()
			c.ColInInt64s(col, x)
			v = x
		case 1:
			x := f.ints()
			c.ColInInts(col, x)
			v = x
		case 2:
			x := f.i16s()
			c.ColInInt16s(col, x)
			v = x
		default:
			x := f.strs()
			c.ColInStrings(col, x)
			v = x
		}
		say("ColIn(%q, %T%v)", col, v, v)
		refCol(m, col, "IN", v)
	case 5:
		col := f.col()
		var v interface{}
		switch f.r.Intn(4) {
		case 0:
			x := f.i64s()
			c.ColAnyInt64s(col, x)
			v = x
		case 1:
			x := f.ints()
			c.ColAnyInts(col, x)
			v = x
		case 2:
			x := f.i16s()
			c.ColAnyInt16s(col, x)
			v = x
		default:
			x := f.strs()
			c.ColAnyStrings(col, x)
			v = x
		}
		say("ColAny(%q, %T%v)", col, v, v)
		refCol(m, col, "ANY", v)
	case 6, 7, 8:
		k, name, call := byte('&'), "And", c.And
		if f.r.Intn(2) == 0 {
			k, name, call = '|', "Or", c.Or
		}
		if depth >= 3 || f.r.Intn(3) == 0 {
			say("%s(nil)", name)
			call(nil)
			m.join(k)
			// an operator is followed by an operand
			col := f.col()
			say("Col(%q, \"=\", 5)", col)
			c.Col(col, "=", 5)
			refCol(m, col, "=", 5)
			return
		}
		say("%s{", name)
		m.join(k)
		m.toks = append(m.toks, mtok{kind: '('})
		call(func() {
			n := f.r.Intn(3)
			for i := 0; i < n; i++ {
				f.act(c, m, depth+1)
			}
			if m.toks[len(m.toks)-1].kind == '(' { // a group is not empty
				say("Col(\"g\", \"=\", 9)")
				c.Col("g", "=", 9)
				refCol(m, "g", "=", 9)
			}
		})
		say("}")
		m.toks = append(m.toks, mtok{kind: ')'})
	case 9:
		col, d, nf, nl, v2 := f.col(), f.r.Intn(2) == 0, f.r.Intn(2) == 0, f.r.Intn(2) == 0, f.r.Intn(2) == 0
		if m.orderby != "" {
			m.orderby += ", "
		}
		m.orderby += col + map[bool]string{true: " DESC", false: " ASC"}[d]
		if !v2 || nl {
			m.orderby += map[bool]string{true: " NULLS FIRST", false: " NULLS LAST"}[nf]
		}
		if v2 {
			say("OrderByV2(%q, %v, %v, %v)", col, d, nl, nf)
			c.OrderByV2(col, d, nl, nf)
		} else {
			say("OrderBy(%q, %v, %v)", col, d, nf)
			c.OrderBy(col, d, nf)
		}
	case 10:
		n := []int64{-5, 0, 1, 10, 25, 1 << 40}[f.r.Intn(6)]
		say("Limit(%d)", n)
		c.Limit(n)
		if n > 0 {
			m.limit = n
		}
	case 11:
		n := []int64{-5, 0, 1, 10, 25, 1 << 40}[f.r.Intn(6)]
		say("Offset(%d)", n)
		c.Offset(n)
		if n > 0 {
			m.offset = n
		}
	case 12:
		n := []int64{-5, 0, 1, 2, 7}[f.r.Intn(5)]
		say("Page(%d)", n)
		c.Page(n)
		if n > 0 {
			m.offset = m.limit * (n - 1)
		}
	}
}

func (f *vf) build() (*Constructor, *model) {
	c, m := &Constructor{}, &model{}
	if f.r.Intn(3) > 0 {
		m.tscol = "d.ts"
	}
	c.Init(map[string]string{"a": "t.a", "b": "t.b"}, m.tscol)
	for i := f.r.Intn(7); i >= 0; i-- {
		f.act(c, m, 0)
	}
	return c, m
}

// TestVerifF01 compares text and parameters with the reference.
func TestVerifF01(t *testing.T) {
	f := newVF()
	for i := 0; i < 400000 && !f.done(); i++ {
		var c *Constructor
		var m *model
		pos := []int{0, 0, 1, 2, 3, 8, 9, 10, 99, 1000, 65000}[f.r.Intn(11)]
		var s, cs string
		var ps, cps []interface{}
		if p := guard(func() {
			c, m = f.build()
			s, ps = c.Filter().ToSQL(pos)
			cs, cps = c.CountFilter().ToSQL(pos)
		}); p != nil {
			f.bad("panic", "building or printing a filter panics: %v", p)
			continue
		}
		ws, wps := m.sql(pos)
		if s != ws || !samePs(ps, wps) {
			f.bad("ToSQL", "after %s: Filter().ToSQL(%d) = %q %v, want %q %v", strings.Join(m.desc, "; "), pos, s, ps, ws, wps)
		}
		wcs, wcps := m.where(pos)
		if cs != wcs || !samePs(cps, wcps) {
			f.bad("CountFilter", "after %s: CountFilter().ToSQL(%d) = %q %v, want %q %v", strings.Join(m.desc, "; "), pos, cs, cps, wcs, wcps)
		}
	}
	f.finish(t)
}

// wellFormed reads the text of a condition: operands separated by single
// operators, groups closed.
func wellFormed(s string) string {
	if s == "" {
		return ""
	}
	if !strings.HasPrefix(s, " WHERE ") {
		return "no WHERE"
	}
	s = s[7:]
	want, depth := true, 0
	for s != "" {
		switch {
		case strings.HasPrefix(s, " AND "), strings.HasPrefix(s, " OR "):
			if want {
				return "operator where an operand is expected"
			}
			want = true
			s = s[strings.IndexByte(s[1:], ' ')+2:]
		case s[0] == '(':
			if !want {
				return "group where an operator is expected"
			}
			depth++
			s = s[1:]
		case s[0] == ')':
			if want || depth == 0 {
				return "unexpected closing parenthesis"
			}
			depth--
			s = s[1:]
		default: // an operand, up to an operator or closing parenthesis outside of parentheses
			if !want {
				return "operand where an operator is expected"
			}
			d, i := 0, 0
			for i < len(s) {
				if d == 0 && (s[i] == ')' || strings.HasPrefix(s[i:], " AND ") || strings.HasPrefix(s[i:], " OR ")) {
					break
				}
				if s[i] == '(' {
					d++
				}
				if s[i] == ')' {
					d--
				}
				i++
			}
			if i == 0 {
				return "empty operand"
			}
			s, want = s[i:], false
		}
	}
	if want {
		return "ends where an operand is expected"
	}
	if depth != 0 {
		return "unclosed group"
	}
	return ""
}

// TestVerifF02 checks that every condition reads as operands joined by operators.
func TestVerifF02(t *testing.T) {
	f := newVF()
	for i := 0; i < 400000 && !f.done(); i++ {
		var c *Constructor
		var m *model
		var s, cs string
		if p := guard(func() {
			c, m = f.build()
			s, _ = c.CountFilter().ToSQL(0)
			cs, _ = c.Filter().ToSQL(0)
		}); p != nil {
			f.bad("panic", "building or printing a filter panics: %v", p)
			continue
		}
		for _, w := range []string{" ORDER BY ", " LIMIT ", " OFFSET "} {
			if j := strings.Index(cs, w); j >= 0 {
				cs = cs[:j]
			}
		}
		want, _ := m.where(0)
		for _, x := range []string{s, cs} {
			if e := wellFormed(x); e != "" {
				f.bad("malformed", "after %s: condition %q: %s", strings.Join(m.desc, "; "), x, e)
			}
			if skeleton(x) != skeleton(want) {
				f.bad("structure", "after %s: condition %q, want %q", strings.Join(m.desc, "; "), x, want)
			}
		}
	}
	f.finish(t)
}

// skeleton is the operators and groups of a condition.
func skeleton(s string) string {
	var o strings.Builder
	d := 0
	for i := 0; i < len(s); i++ {
		switch {
		case strings.HasPrefix(s[i:], " AND "):
			o.WriteByte('&')
		case strings.HasPrefix(s[i:], " OR "):
			o.WriteByte('|')
		case s[i] == '(':
			d++
			if i > 0 && (s[i-1] == '(' || strings.HasSuffix(s[:i], " AND ") || strings.HasSuffix(s[:i], " OR ") || strings.HasSuffix(s[:i], " WHERE ")) {
				o.WriteByte('(')
			}
		case s[i] == ')':
			d--
		}
	}
	return o.String()
}

func refSort(s string, cm map[string]Column, strict bool, o string) (string, string) {
	for _, it := range strings.Split(s, ",") {
		desc := strings.HasPrefix(it, "-")
		it = strings.TrimPrefix(it, "-")
		if it == "" {
			continue
		}
		c, ok := cm[it]
		if !ok {
			if strict {
				return o, it
			}
			continue
		}
		if o != "" {
			o += ", "
		}
		o += c.Name
		if desc {
			o += " DESC"
		} else {
			o += " ASC"
		}
		if c.IsNULLable {
			o += " NULLS LAST"
		}
	}
	return o, ""
}

// TestVerifF03 checks what FQL and sort strings add, and the other clauses.
func TestVerifF03(t *testing.T) {
	f := newVF()
	conv := func(v any) (any, error) {
		if v == "bad" {
			return nil, fmt.Errorf("bad value")
		}
		return fmt.Sprint("<", v, ">"), nil
	}
	cms := []map[string]Column{
		{"a": {Name: "t.a"}, "b": {Name: "t.b", IsNULLable: true}, "-a": {Name: "minus"}, "c": {Name: "t.c", ConvertValue: conv}, "key_d": {Name: `u."D"`, IsNULLable: true}},
		{"a": {Name: "t.a", IsNULLable: true}},
		{},
		nil,
	}
	frag := []string{"a", "b", "c", "key_d", "x", "-", "-a", "-x", ",", ",", ",,", "-b", "--a", " ", "a,b", "-c,x", "é"}
	fqlfrag := []string{"a:1", "b:\"foo\"", "c:\"q\"", "c:\"bad\"", "key_d:null", "a:!null", "x:3", "b:true", "b:!false", "a:>4", "a:<=5.5", "c:null", "c:5", "a:<1", "a:>=7", "a:!9", ";", ",", ";", ",", "(", ")", "a:d1600000000"}
	for i := 0; i < 400000 && !f.done(); i++ {
		cm := cms[f.r.Intn(len(cms))]
		strict := f.r.Intn(2) == 0
		mk := func() (*Constructor, *model) {
			c, m := &Constructor{}, &model{}
			m.tscol = "ts"
			c.InitV2(cm, "ts")
			if strict {
				c.StrictSwitch()
			}
			for j := f.r.Intn(3); j > 0; j-- {
				f.act(c, m, 1)
			}
			return c, m
		}
		// sort keys
		s := ""
		for j := f.r.Intn(6); j >= 0; j-- {
			s += frag[f.r.Intn(len(frag))]
		}
		var g string
		var err error
		var m *model
		if p := guard(func() {
			var c *Constructor
			c, m = mk()
			err = c.UnmarshalSort(s)
			g, _ = c.Filter().ToSQL(0)
		}); p != nil {
			f.bad("sort-panic", "UnmarshalSort(%q) panics: %v", s, p)
			continue
		}
		o, badkey := refSort(s, cm, strict, m.orderby)
		if badkey != "" {
			if u, ok := err.(UnknownColumnKeyError); !ok || u.Key != badkey {
				f.bad("sort-unknown", "UnmarshalSort(%q) on keys %v, strict: error %v, want unknown key %q", s, keysOf(cm), err, badkey)
			}
		} else {
			m.orderby = o
			if w, _ := m.sql(0); err != nil || g != w {
				f.bad("sort", "after %s: UnmarshalSort(%q), keys %v, strict %v: filter %q, error %v, want %q", strings.Join(m.desc, "; "), s, keysOf(cm), strict, g, err, w)
			}
		}
		// conditions
		s = ""
		ws := f.r.Intn(3) == 0
		for j := f.r.Intn(9); j >= 0; j-- {
			s += fqlfrag[f.r.Intn(len(fqlfrag))]
			if !ws && j > 0 && f.r.Intn(4) > 0 {
				s += []string{";", ","}[f.r.Intn(2)]
			}
		}
		var ps []interface{}
		if p := guard(func() {
			var c *Constructor
			c, m = mk()
			err = c.UnmarshalFQL(s)
			g, ps = c.Filter().ToSQL(0)
		}); p != nil {
			f.bad("fql-panic", "UnmarshalFQL(%q) panics: %v", s, p)
			continue
		}
		werr := refFQL(m, s, cm, strict)
		if (err == nil) != (werr == nil) || err != nil && err.Error() != werr.Error() {
			f.bad("fql-error", "UnmarshalFQL(%q), keys %v, strict %v: error %v, want %v", s, keysOf(cm), strict, err, werr)
		} else if w, wps := m.sql(0); err == nil && (g != w || !samePs(ps, wps)) {
			f.bad("fql", "after %s: UnmarshalFQL(%q), keys %v, strict %v: filter %q %v, want %q %v", strings.Join(m.desc, "; "), s, keysOf(cm), strict, g, ps, w, wps)
		}
		// the other clauses
		if p := guard(func() {
			var c *Constructor
			c, m = mk()
			for j := 0; j < 4; j++ {
				f.act(c, m, 3)
			}
			g, _ = c.Filter().ToSQL(0)
		}); p != nil {
			f.bad("panic", "building or printing a filter panics: %v", p)
		} else if w, _ := m.sql(0); g != w {
			f.bad("clauses", "after %s: filter %q, want %q", strings.Join(m.desc, "; "), g, w)
		}
	}
	f.finish(t)
}

func keysOf(m map[string]Column) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}

var cmps = map[fql.CmpOp]string{fql.CmpEq: "=", fql.CmpNe: "<>", fql.CmpGt: ">", fql.CmpLt: "<", fql.CmpGe: ">=", fql.CmpLe: "<="}

func refFQL(m *model, s string, cm map[string]Column, strict bool) error {
	z := fql.NewTokenizer(strings.Trim(s, ";,"))
	for {
		tok, err := z.Next()
		if err == fql.EOF {
			return nil
		}
		if err != nil {
			return err
		}
		switch tok {
		case fql.LPAREN:
			m.join('&')
			m.toks = append(m.toks, mtok{kind: '('})
		case fql.RPAREN:
			m.toks = append(m.toks, mtok{kind: ')'})
		case fql.AND:
			m.toks = append(m.toks, mtok{kind: '&'})
		case fql.OR:
			m.toks = append(m.toks, mtok{kind: '|'})
		case fql.RULE:
			r := z.Rule()
			c, ok := cm[r.Key]
			if !ok {
				if strict {
					return UnknownColumnKeyError{Key: r.Key}
				}
				continue
			}
			v := r.Val
			if v == fql.Null {
				v = nil
			}
			if c.ConvertValue != nil {
				if v, err = c.ConvertValue(v); err != nil {
					return err
				}
			}
			refCol(m, c.Name, cmps[r.Cmp], v)
		}
	}
}
