// verif:package internal/analysis
package analysis

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/frk/tagutil"
)

func (f *vf) p(n int) bool             { return f.r.Intn(n) == 0 }
func (f *vf) pick(ss ...string) string { return ss[f.r.Intn(len(ss))] }
func (f *vf) text(alpha string, n int) string {
	rs := []rune(alpha)
	s := ""
	for i := f.r.Intn(n + 1); i > 0; i-- {
		s += string(rs[f.r.Intn(len(rs))])
	}
	return s
}

// ---- options
func (f *vf) modeCase() {
	opts := []string{f.pick("a", "x.b", "")}
	for i := f.r.Intn(5); i > 0; i-- {
		opts = append(opts, f.pick("ro", "wo", "xf", "nn", "json", "", "Ro", "-", "+", "-rw", "-"+f.text("rwsfiuNxR é", 5), "+"+f.text("rwsfiuNxR é", 5)))
	}
	can := map[rune]bool{'s': true, 'f': true, 'i': true, 'u': true}
	groups := map[rune]string{'r': "sf", 'w': "iu", 's': "s", 'f': "f", 'i': "i", 'u': "u"}
	setAll := func(g rune, v bool) {
		for _, c := range groups[g] {
			can[c] = v
		}
	}
	for _, o := range opts[1:] {
		switch o {
		case "ro":
			setAll('w', false)
		case "wo":
			setAll('r', false)
		case "xf":
			setAll('f', false)
		case "nn":
			can['N'] = true
		}
		if o == "" || o[0] != '-' && o[0] != '+' {
			continue
		}
		for _, c := range o[1:] {
			if c == 'N' {
				can['N'] = o[0] == '-'
			} else {
				setAll(c, o[0] == '+')
			}
		}
	}
	var m FieldMode
	if p := guard(func() { m = parseFieldMode(tagutil.Tag{"sql": opts}) }); p != nil {
		f.bad("mode/panic", "%q: %v", opts, p)
		return
	}
	got := []bool{m.CanSelect(), !m.CanExcludeFilter(), m.CanInsert(), m.CanUpdate(), m.TreatAsNotNULL(), m.IsReadOnly(), m.IsWriteOnly()}
	want := []bool{can['s'], can['f'], can['i'], can['u'], can['N'], can['s'] && !can['i'] && !can['u'], !can['s'] && (can['i'] || can['u'])}
	if !reflect.DeepEqual(got, want) {
		f.bad("mode", "%q: select, filter, insert, update, not null, read only, write only = %v, want %v", opts, got, want)
	}
}

// ---- identifiers
func ident(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || i > 0 && '0' <= c && c <= '9') {
			return false
		}
	}
	return s != ""
}
func reserved(s string) bool {
	switch strings.ToLower(s) {
	case "true", "false", "current_date", "current_time", "current_timestamp", "current_role", "current_schema", "current_user", "session_user", "localtime", "localtimestamp":
		return true
	}
	return false
}
func (f *vf) name() string {
	if f.p(8) {
		return f.text("aZ_1.: -é\n", 5)
	}
	return f.pick("a", "b", "c_1", "Zed", "_", "user", "true", "True", "userx", "localtime", "current_date", "*")
}
func (f *vf) identCase() {
	s := f.name()
	if f.p(2) {
		s = f.name() + "." + s
	}
	v := s
	if f.p(3) {
		v += ":" + f.name()
	}
	// a relation
	q, n, a := "", v, ""
	ok := true
	if i := strings.IndexByte(n, '.'); i >= 0 {
		q, n = n[:i], n[i+1:]
		ok = ident(q)
	}
	if i := strings.IndexByte(n, ':'); i >= 0 {
		n, a = n[:i], n[i+1:]
		ok = ok && ident(a)
	}
	ok = ok && ident(n)
	id, e := parseRelIdent(v)
	if (e == 0) != ok || ok && id != (RelIdent{Qualifier: q, Name: n, Alias: a}) {
		f.bad("relation", "%q: %+v, error %d", v, id, e)
	}
	// columns
	an := &analysis{info: &Info{RelSpace: map[string]RelIdent{"a": {}, "c_1": {}}}}
	list := []string{s}
	for i := f.r.Intn(3); i > 0; i-- {
		x := f.name()
		if f.p(2) {
			x = f.pick("a", "a", "c_1", "b") + "." + x
		}
		list = append(list, x)
	}
	if f.p(10) {
		list = nil
	}
	if f.p(10) {
		list = []string{"*"}
	}
	want := []ColIdent{}
	good := len(list) > 0
	for _, s := range list {
		var c ColIdent
		c.Name = s
		if i := strings.IndexByte(s, '.'); i >= 0 {
			c = ColIdent{Qualifier: s[:i], Name: s[i+1:]}
			_, in := an.info.RelSpace[c.Qualifier]
			good = good && in && ident(c.Qualifier)
		}
		good = good && ident(c.Name) && !reserved(s)
		want = append(want, c)
	}
	ids, e, _ := parseColIdents(an, list)
	if (e == 0) != good || good && !reflect.DeepEqual(ids, want) {
		f.bad("columns", "%q: %+v, error %d", list, ids, e)
	}
	all := len(list) == 1 && list[0] == "*"
	l, e, _ := parseColIdentList(an, list)
	if (e == 0) != (good || all) || e == 0 && (l.All != all || !all && !reflect.DeepEqual(l.Items, want)) {
		f.bad("columnlist", "%q: %+v, error %d", list, l, e)
	}
	// the names in use
	an.info.RelSpace = nil
	used := map[string]RelIdent{}
	for i := 0; i < 4; i++ {
		id := RelIdent{Qualifier: f.pick("", "p"), Name: f.pick("a", "b", "c"), Alias: f.pick("", "", "a", "x")}
		k := id.Name
		if id.Alias != "" {
			k = id.Alias
		}
		_, dup := used[k]
		e, _ := addToRelSpace(an, id)
		if !dup {
			used[k] = id
		}
		if (e != 0) != dup || !reflect.DeepEqual(an.info.RelSpace, used) {
			f.bad("relspace", "%+v: error %d, %v, want %v", id, e, an.info.RelSpace, used)
		}
	}
}

// ---- predicates
func (f *vf) anycase(s string) string {
	switch f.r.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.Title(s)
	}
	return s
}
func (f *vf) sp(min int) string { return strings.Repeat(" ", min+f.r.Intn(2)) }

func (f *vf) predicateCase() {
	lhs := f.pick("a", "b.c", "isx", "notable", "T.Not_1", "anyx")
	var ps []Predicate
	for p, s := range predicates {
		if s != "" {
			ps = append(ps, Predicate(p))
		}
	}
	p := ps[f.r.Intn(len(ps))]
	op := predicates[p]
	word := op[0] == 'i' || op[0] == 'n'
	expr := f.sp(0) + lhs
	q, rhs := "", ""
	rest := ""
	if !p.IsUnary() || f.p(5) {
		rhs = f.pick("a", "b.c", "anyone", "allx", "somebody", "some_1", "all_day", "any1", "all.x", "any.a_b", "some.id", "some2", "any_",  "'x = y'", "12", "now()", "isnull", "", "array[1]", "~x", "-3", "'any'")
		if f.p(3) {
			q = f.pick("any", "all", "some")
		}
		if rhs == "~x" && !word { // would be read as a part of the operator
			rhs = "x"
		}
		if q != "" {
			rest = f.anycase(q)
			if rhs != "" {
				rest += f.sp(1) + rhs
			}
		} else {
			rest = rhs
		}
	}
	if word {
		expr += " " + f.anycase(op)
		if rest != "" {
			expr += f.sp(1) + rest
		}
	} else {
		expr += f.sp(0) + op + f.sp(0) + rest
	}
	expr += f.sp(0)
	l, c, u, r := parsePredicateExpr(expr)
	if l != lhs || c != op || u != q || r != rhs || stringToPredicate[c] != p {
		f.bad("predicate/"+op, "%q: %q %q %q %q, want %q %q %q %q", expr, l, c, u, r, lhs, op, q, rhs)
	}
	if u != "" && stringToQuantifier[u] == 0 {
		f.bad("quantifier", "%q", u)
	}
	bare := f.pick("a", "b.c", "is", "not x", "a b", "= b", "isnull")
	l, c, u, r = parsePredicateExpr(bare)
	if l != bare || c+u+r != "" {
		f.bad("predicate/none", "%q: %q %q %q %q", bare, l, c, u, r)
	}
}

// ---- keys, functions, coalesce
func (f *vf) keyCase() {
	tag := func() tagutil.Tag {
		t := tagutil.Tag{}
		if !f.p(4) {
			t["json"] = []string{f.pick("k", "key", "", "-", "x")}
		}
		if f.p(4) {
			t["yaml"] = []string{f.pick("y", "-")}
		}
		if f.p(5) {
			n := f.r.Intn(4)
			for i := 0; i < n; i++ {
				t["fck"] = append(t["fck"], f.pick("tag:json", "tag:yaml", "tag:", "sep:_", "base:true", "base:false", "junk"))
			}
		}
		return t
	}
	fi := &FieldInfo{Name: "F", Tag: tag()}
	for i := f.r.Intn(4); i > 0; i-- {
		fi.Selector = append(fi.Selector, &FieldSelectorNode{Name: f.pick("A", "B", "C"), Tag: tag()})
	}
	an := &analysis{}
	an.cfg.FilterColumnKeyTag.Value = f.pick("", "json", "yaml")
	an.cfg.FilterColumnKeySeparator.Value = f.pick(".", "")
	an.cfg.FilterColumnKeyBase.Value = f.p(2)
	tg, sep, base := an.cfg.FilterColumnKeyTag.Value, an.cfg.FilterColumnKeySeparator.Value, an.cfg.FilterColumnKeyBase.Value
	sel, over := fi.Selector, fi.Tag["fck"]
	for i := 0; len(over) == 0 && i < len(fi.Selector); i++ {
		if over = fi.Selector[i].Tag["fck"]; len(over) > 0 {
			sel = fi.Selector[i:]
		}
	}
	for _, o := range over {
		kv := strings.SplitN(o, ":", 2)
		switch kv[0] {
		case "tag":
			tg = kv[1]
		case "sep":
			sep = kv[1]
		case "base":
			base = kv[1] == "true"
		}
	}
	if base {
		sel = nil
	}
	want, hide := []string{}, false
	for _, n := range sel {
		k := n.Name
		if tg != "" {
			k = n.Tag.First(tg)
			hide = hide || k == "-"
		}
		if k != "" {
			want = append(want, k)
		}
	}
	k := fi.Name
	if tg != "" {
		k = fi.Tag.First(tg)
		hide = hide || k == "-"
	}
	if k != "" {
		want = append(want, k)
	}
	key := strings.Join(want, sep)
	if hide {
		key = ""
	}
	if err := parseFilterColumnKey(an, fi); err != nil || fi.FilterColumnKey != key {
		s := ""
		for _, n := range fi.Selector {
			s += fmt.Sprintf(" %s%v", n.Name, n.Tag)
		}
		f.bad("filterkey", "%q, want %q: F%v in%s, configured %q %q %v", fi.FilterColumnKey, key, fi.Tag, s, an.cfg.FilterColumnKeyTag.Value, an.cfg.FilterColumnKeySeparator.Value, an.cfg.FilterColumnKeyBase.Value)
	}

	var vals []string
	for i := f.r.Intn(4); i > 0; i-- {
		vals = append(vals, f.pick("a", "", "@Lower", "@upper", "@", "x@y"))
	}
	fn := ""
	for _, v := range vals {
		if strings.HasPrefix(v, "@") {
			fn = strings.ToLower(v[1:])
			break
		}
	}
	if got := parseFuncName(vals); string(got) != fn {
		f.bad("function", "%q: %q", vals, got)
	}

	opts := []string{"c"}
	for i := f.r.Intn(3); i > 0; i-- {
		opts = append(opts, f.pick("ro", "coalesce", "coalesce()", "coalesce(1)", "coalesce('a)')", "json"))
	}
	use, val := false, ""
	for _, o := range opts[1:] {
		if strings.HasPrefix(o, "coalesce") {
			use = true
			if len(o) > len("coalesce") {
				val = o[len("coalesce(") : len(o)-1]
			}
			break
		}
	}
	if u, v := parseCoalesceInfo(tagutil.Tag{"sql": opts}); u != use || v != val {
		f.bad("coalesce", "%q: %v %q", opts, u, v)
	}
}

func TestVerifA01(t *testing.T) {
	f := newVF()
	it := 0
	for ; it < 60000 && !f.done(); it++ {
		f.modeCase()
		f.identCase()
		f.predicateCase()
		f.keyCase()
	}
	fmt.Printf("CASES %d random option lists, identifiers, predicates and keys each\n", it)
	f.finish(t)
}
