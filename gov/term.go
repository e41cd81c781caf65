package main

// Hash-consed first-order terms with a light simplifier. Terms denote
// mathematical integers, booleans, finite sequences and values of
// uninterpreted sorts or datatypes.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Term struct {
	Op   string // int, bool, sym, app, lin, ge0, eq, ite, and, or, not, empty, unit, lit, cat, len, nth, ext, mod, div, mul, select, store
	Name string // symbol / function name; payload of lit
	A    []*Term
	C    []*big.Int // coefficients for lin
	N    *big.Int   // integer constant (int) or constant part (lin)
	S    string     // sort
	id   int
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
)

const (
	sInt   = "Int"
	sBool  = "Bool"
	sBytes = "(Seq Int)"
)

func seqOf(s string) string { return "(Seq " + s + ")" }
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Seq ") {
		panic("elemSort of " + s)
	}
	return s[5 : len(s)-1]
}

func mk(op, name, sort string, n *big.Int, c []*big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(name)
	sb.WriteByte(0)
	sb.WriteString(sort)
	sb.WriteByte(0)
	if n != nil {
		sb.WriteString(n.String())
	}
	for _, x := range c {
		sb.WriteByte(',')
		sb.WriteString(x.String())
	}
	sb.WriteByte(0)
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(' ')
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{Op: op, Name: name, A: args, C: c, N: n, S: sort, id: termSeq}
	termTab[k] = t
	return t
}

var (
	tTrue       = mk("bool", "true", sBool, nil, nil)
	tFalse      = mk("bool", "false", sBool, nil, nil)
	tEmptyBytes = mk("lit", "", sBytes, nil, nil)
)

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func tBig(n *big.Int) *Term { return mk("int", "", sInt, n, nil) }
func tInt(n int64) *Term    { return tBig(big.NewInt(n)) }

var symMu sync.Mutex
var symCnt = map[string]int{}

// fresh symbols are numbered per name so that reruns give the same text.
func tFresh(name, sort string) *Term {
	symMu.Lock()
	symCnt[name]++
	n := symCnt[name]
	symMu.Unlock()
	return mk("sym", fmt.Sprintf("%s!%d", name, n), sort, nil, nil)
}
func tSym(name, sort string) *Term { return mk("sym", name, sort, nil, nil) }
func tApp(name, sort string, args ...*Term) *Term {
	return mk("app", name, sort, nil, nil, args...)
}

// ---- linear integer terms

type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}
func addLin(l *lin, t *Term, c *big.Int) {
	switch t.Op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(c, t.N))
	case "lin":
		l.k.Add(l.k, new(big.Int).Mul(c, t.N))
		for i, a := range t.A {
			addAtom(l, a, new(big.Int).Mul(c, t.C[i]))
		}
	default:
		addAtom(l, t, c)
	}
}
func addAtom(l *lin, a *Term, c *big.Int) {
	x := l.m[a]
	if x == nil {
		x = new(big.Int)
	}
	x = new(big.Int).Add(x, c)
	if x.Sign() == 0 {
		delete(l.m, a)
	} else {
		l.m[a] = x
	}
}
func fromLin(l lin) *Term {
	if len(l.m) == 0 {
		return tBig(l.k)
	}
	as := make([]*Term, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].IsInt64() && l.m[as[0]].Int64() == 1 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return mk("lin", "", sInt, l.k, cs, as...)
}
func tAdd(ts ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, t := range ts {
		addLin(&l, t, big.NewInt(1))
	}
	return fromLin(l)
}
func tSub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func tMulC(c *big.Int, a *Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	addLin(&l, a, c)
	return fromLin(l)
}
func tMul(a, b *Term) *Term {
	if a.Op == "int" {
		return tMulC(a.N, b)
	}
	if b.Op == "int" {
		return tMulC(b.N, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("mul", "", sInt, nil, nil, a, b)
}
func tDiv(a, b *Term) *Term { // euclidean/floor div for positive divisor
	if a.Op == "int" && b.Op == "int" && b.N.Sign() > 0 {
		return tBig(new(big.Int).Div(a.N, b.N))
	}
	return mk("div", "", sInt, nil, nil, a, b)
}
func tMod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.N.Sign() > 0 {
		return tBig(new(big.Int).Mod(a.N, b.N))
	}
	return mk("mod", "", sInt, nil, nil, a, b)
}

// syntactic non-negativity
func knownNonneg(t *Term) bool {
	switch t.Op {
	case "int":
		return t.N.Sign() >= 0
	case "len":
		return true
	case "mod":
		return t.A[1].Op == "int" && t.A[1].N.Sign() > 0
	case "lin":
		if t.N.Sign() < 0 {
			return false
		}
		for i, a := range t.A {
			if t.C[i].Sign() < 0 || !knownNonneg(a) {
				return false
			}
		}
		return true
	case "ite":
		return knownNonneg(t.A[1]) && knownNonneg(t.A[2])
	}
	return false
}
func tGe0(t *Term) *Term {
	if t.Op == "int" {
		return tBool(t.N.Sign() >= 0)
	}
	if knownNonneg(t) {
		return tTrue
	}
	// divide by gcd of coefficients
	if t.Op == "lin" {
		g := new(big.Int)
		for _, c := range t.C {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			l := lin{new(big.Int).Div(t.N, g), map[*Term]*big.Int{}}
			for i, a := range t.A {
				l.m[a] = new(big.Int).Div(t.C[i], g)
			}
			t = fromLin(l)
		}
		neg := true
		for i, a := range t.A {
			if t.C[i].Sign() > 0 || !knownNonneg(a) {
				neg = false
			}
		}
		if t.Op == "lin" && neg && t.N.Sign() < 0 {
			return tFalse
		}
	}
	return mk("ge0", "", sBool, nil, nil, t)
}
func tLe(a, b *Term) *Term { return tGe0(tSub(b, a)) }
func tLt(a, b *Term) *Term { return tGe0(tAdd(tSub(b, a), tInt(-1))) }
func tGe(a, b *Term) *Term { return tLe(b, a) }
func tGt(a, b *Term) *Term { return tLt(b, a) }

// ---- booleans

func tNot(a *Term) *Term {
	switch a.Op {
	case "bool":
		return tBool(a.Name != "true")
	case "not":
		return a.A[0]
	case "ge0":
		return tGe0(tSub(tInt(-1), a.A[0]))
	}
	return mk("not", "", sBool, nil, nil, a)
}
func nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, a := range t.A {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range out {
		if seen[tNot(t)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "", sBool, nil, nil, out...)
}
func tAnd(ts ...*Term) *Term { return nary("and", tTrue, tFalse, ts) }
func tOr(ts ...*Term) *Term  { return nary("or", tFalse, tTrue, ts) }
func tImp(a, b *Term) *Term  { return tOr(tNot(a), b) }
func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.S == sBool {
		return tAnd(tImp(c, a), tOr(c, b))
	}
	if c.Op == "not" {
		return mk("ite", "", a.S, nil, nil, c.A[0], b, a)
	}
	return mk("ite", "", a.S, nil, nil, c, a, b)
}

func isCtor(t *Term) bool { return t.Op == "app" && strings.HasPrefix(t.Name, "mk_") }

func tEq(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("tEq sort mismatch %s vs %s: %s = %s", a.S, b.S, a, b))
	}
	if a == b {
		return tTrue
	}
	switch a.S {
	case sInt:
		d := tSub(a, b)
		if d.Op == "int" {
			return tBool(d.N.Sign() == 0)
		}
		if knownNonneg(d) && d.Op == "lin" && d.N.Sign() > 0 {
			return tFalse
		}
		// ite with constant branches
		for k := 0; k < 2; k++ {
			if a.Op == "ite" && b.Op == "int" && (a.A[1].Op == "int" || a.A[2].Op == "int") {
				return tAnd(tImp(a.A[0], tEq(a.A[1], b)), tOr(a.A[0], tEq(a.A[2], b)))
			}
			a, b = b, a
		}
		nd := tSub(b, a)
		if nd.id < d.id {
			d = nd
		}
		return mk("eq", "", sBool, nil, nil, d, tInt(0))
	case sBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if strings.HasPrefix(a.S, "(Seq ") {
		// strip common ends
		pa, pb := catParts(a), catParts(b)
		ch := false
		for len(pa) > 0 && len(pb) > 0 {
			if pa[0] == pb[0] {
				pa, pb, ch = pa[1:], pb[1:], true
				continue
			}
			if pa[0].Op == "lit" && pb[0].Op == "lit" {
				x, y := pa[0].Name, pb[0].Name
				n := 0
				for n < len(x) && n < len(y) && x[n] == y[n] {
					n++
				}
				if n < len(x) && n < len(y) {
					return tFalse
				}
				if n > 0 {
					pa = append(catParts(tLit(x[n:])), pa[1:]...)
					pb = append(catParts(tLit(y[n:])), pb[1:]...)
					ch = true
					continue
				}
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			la, lb := pa[len(pa)-1], pb[len(pb)-1]
			if la == lb {
				pa, pb, ch = pa[:len(pa)-1], pb[:len(pb)-1], true
				continue
			}
			if la.Op == "lit" && lb.Op == "lit" {
				x, y := la.Name, lb.Name
				n := 0
				for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
					n++
				}
				if n < len(x) && n < len(y) {
					return tFalse
				}
				if n > 0 {
					pa = append(append([]*Term{}, pa[:len(pa)-1]...), catParts(tLit(x[:len(x)-n]))...)
					pb = append(append([]*Term{}, pb[:len(pb)-1]...), catParts(tLit(y[:len(y)-n]))...)
					ch = true
					continue
				}
			}
			break
		}
		if ch {
			return tEq(tCat(a.S, pa...), tCat(a.S, pb...))
		}
		if len(pa) == 0 || len(pb) == 0 {
			rest := append(pa, pb...)
			for _, r := range rest {
				if r.Op == "unit" || (r.Op == "lit" && r.Name != "") {
					return tFalse
				}
			}
		}
		if a.Op == "unit" && b.Op == "unit" {
			return tEq(a.A[0], b.A[0])
		}
		if len(pa) == 1 && len(pb) == 1 {
			for k := 0; k < 2; k++ {
				if pa[0].Op == "lit" && len(pa[0].Name) == 1 && pb[0].Op == "unit" {
					return tEq(tInt(int64(pa[0].Name[0])), pb[0].A[0])
				}
				pa, pb = pb, pa
			}
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.Name != b.Name {
			return tFalse
		}
		var cs []*Term
		for i := range a.A {
			cs = append(cs, tEq(a.A[i], b.A[i]))
		}
		return tAnd(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", sBool, nil, nil, a, b)
}

// ---- sequences

func tLit(s string) *Term { return mk("lit", s, sBytes, nil, nil) }
func tEmpty(sort string) *Term {
	if sort == sBytes {
		return tEmptyBytes
	}
	return mk("empty", "", sort, nil, nil)
}
func tUnit(t *Term) *Term {
	if t.S == sInt && t.Op == "int" && t.N.IsInt64() && t.N.Int64() >= 0 && t.N.Int64() < 256 {
		return tLit(string([]byte{byte(t.N.Int64())}))
	}
	return mk("unit", "", seqOf(t.S), nil, nil, t)
}
func catParts(t *Term) []*Term {
	if t.Op == "cat" {
		return t.A
	}
	if t.Op == "empty" || (t.Op == "lit" && t.Name == "") {
		return nil
	}
	return []*Term{t}
}
func tCat(sort string, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.S != sort {
			panic(fmt.Sprintf("tCat sort mismatch %s vs %s (%s)", sort, t.S, t))
		}
		for _, p := range catParts(t) {
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.Op == "lit" && p.Op == "lit" {
					out[n-1] = tLit(l.Name + p.Name)
					continue
				}
				// merge adjacent extracts of the same sequence
				if l.Op == "ext" && p.Op == "ext" && l.A[0] == p.A[0] && tAdd(l.A[1], l.A[2]) == p.A[1] {
					out[n-1] = tExt(l.A[0], l.A[1], tAdd(l.A[2], p.A[2]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return tEmpty(sort)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", sort, nil, nil, out...)
}
func tLen(t *Term) *Term {
	switch t.Op {
	case "empty":
		return tInt(0)
	case "lit":
		return tInt(int64(len(t.Name)))
	case "unit":
		return tInt(1)
	case "app":
		if zrepElem(t) != nil {
			return t.A[0]
		}
		if strings.HasPrefix(t.Name, "zeros_") { // a zeroed array of known length
			n, err := strconv.ParseInt(t.Name[strings.LastIndexByte(t.Name, '_')+1:], 10, 64)
			if err == nil {
				return tInt(n)
			}
		}
	case "cat":
		if a, _, _, _, ok := asUpd(t); ok {
			return tLen(a)
		}
		var ls []*Term
		for _, a := range t.A {
			ls = append(ls, tLen(a))
		}
		return tAdd(ls...)
	case "ite":
		return tIte(t.A[0], tLen(t.A[1]), tLen(t.A[2]))
	}
	return mk("len", "", sInt, nil, nil, t)
}

// tExt is sequence extraction; callers guarantee 0<=o, 0<=l, o+l<=len(s).
func tExt(s, o, l *Term) *Term {
	if l.Op == "int" && l.N.Sign() == 0 {
		return tEmpty(s.S)
	}
	if o.Op == "int" && o.N.Sign() == 0 && l == tLen(s) {
		return s
	}
	if s.Op == "ext" {
		return tExt(s.A[0], tAdd(s.A[1], o), l)
	}
	if z := zrepElem(s); z != nil {
		return tZeros(s.S, z, l)
	}
	if s.Op == "lit" && o.Op == "int" && l.Op == "int" && o.N.IsInt64() && l.N.IsInt64() {
		a, n := o.N.Int64(), l.N.Int64()
		if a >= 0 && n >= 0 && a+n <= int64(len(s.Name)) {
			return tLit(s.Name[a : a+n])
		}
	}
	if a, i, mid, m, ok := asUpd(s); ok && o.Op == "int" && o.N.Sign() == 0 {
		if l == i {
			return tExt(a, o, l)
		}
		if l == tAdd(i, tInt(m)) {
			return tCat(s.S, append([]*Term{tExt(a, o, i)}, mid...)...)
		}
	}
	if a, i, _, m, ok := asUpd(s); ok && knownNonneg(tSub(tSub(o, i), tInt(m))) {
		return tExt(a, o, l)
	}
	if s.Op == "cat" {
		parts := s.A
		// strip leading parts entirely before o
		for len(parts) > 0 {
			d := tSub(o, tLen(parts[0]))
			if knownNonneg(d) {
				o = d
				parts = parts[1:]
				continue
			}
			break
		}
		if len(parts) == 0 {
			return tEmpty(s.S)
		}
		// leading literal partially consumed
		if parts[0].Op == "lit" && o.Op == "int" && o.N.IsInt64() && o.N.Int64() > 0 && o.N.Int64() <= int64(len(parts[0].Name)) {
			k := o.N.Int64()
			np := []*Term{}
			if k < int64(len(parts[0].Name)) {
				np = append(np, tLit(parts[0].Name[k:]))
			}
			parts = append(np, parts[1:]...)
			o = tInt(0)
		}
		if o.Op == "int" && o.N.Sign() == 0 {
			// take whole parts
			var take []*Term
			rem := l
			for len(parts) > 0 {
				d := tSub(rem, tLen(parts[0]))
				if knownNonneg(d) {
					take = append(take, parts[0])
					rem = d
					parts = parts[1:]
					continue
				}
				if parts[0].Op == "lit" && rem.Op == "int" && rem.N.IsInt64() && rem.N.Int64() >= 0 && rem.N.Int64() < int64(len(parts[0].Name)) {
					take = append(take, tLit(parts[0].Name[:rem.N.Int64()]))
					rem = tInt(0)
				}
				break
			}
			if rem.Op == "int" && rem.N.Sign() == 0 {
				return tCat(s.S, take...)
			}
			if len(parts) > 0 {
				// the last consumed literal could be cut from the right: rem = total - const
				full := tLen(tCat(s.S, parts...))
				d := tSub(full, rem) // number dropped at the right
				if d.Op == "int" && d.N.IsInt64() && d.N.Sign() >= 0 {
					k := d.N.Int64()
					ps := append([]*Term{}, parts...)
					for k > 0 && len(ps) > 0 {
						last := ps[len(ps)-1]
						if last.Op == "unit" {
							ps = ps[:len(ps)-1]
							k--
							continue
						}
						if last.Op == "lit" {
							n := int64(len(last.Name))
							if n <= k {
								ps = ps[:len(ps)-1]
								k -= n
							} else {
								ps[len(ps)-1] = tLit(last.Name[:n-k])
								k = 0
							}
							continue
						}
						break
					}
					if k == 0 {
						return tCat(s.S, append(take, ps...)...)
					}
				}
				if len(take) > 0 {
					return tCat(s.S, append(take, tExt(tCat(s.S, parts...), tInt(0), rem))...)
				}
			}
		}
		ns := tCat(s.S, parts...)
		if ns != s {
			return tExt(ns, o, l)
		}
	}
	return mk("ext", "", s.S, nil, nil, s, o, l)
}

// zreps maps the function symbol of zeroed sequences to their element.
var zreps sync.Map

// tZeros is the sequence of n zero elements (0 <= n).
func tZeros(sort string, z, n *Term) *Term {
	name := fmt.Sprintf("zrep_%d_%s", z.id, sort)
	zreps.Store(name, z)
	return tApp(name, sort, n)
}
func zrepElem(t *Term) *Term {
	if t.Op == "app" && strings.HasPrefix(t.Name, "zrep_") {
		if z, ok := zreps.Load(t.Name); ok {
			return z.(*Term)
		}
	}
	return nil
}

func tNth(s, i *Term) *Term {
	es := elemSort(s.S)
	switch s.Op {
	case "app":
		if z := zrepElem(s); z != nil {
			return z
		}
	case "lit":
		if i.Op == "int" && i.N.IsInt64() {
			k := i.N.Int64()
			if k >= 0 && k < int64(len(s.Name)) {
				return tInt(int64(s.Name[k]))
			}
		}
	case "unit":
		if i.Op == "int" && i.N.Sign() == 0 {
			return s.A[0]
		}
	case "ext":
		return tNth(s.A[0], tAdd(s.A[1], i))
	case "cat":
		if _, j, mid, m, ok := asUpd(s); ok {
			if d := tSub(i, j); d.Op == "int" && d.N.IsInt64() && d.N.Sign() >= 0 && d.N.Int64() < m {
				return midAt(mid, d.N.Int64())
			}
		}
		parts := s.A
		j := i
		for len(parts) > 0 {
			d := tSub(j, tLen(parts[0]))
			if knownNonneg(d) {
				j = d
				parts = parts[1:]
				continue
			}
			// is j < len(parts[0]) known?
			if knownNonneg(tSub(tAdd(tLen(parts[0]), tInt(-1)), j)) && knownNonneg(j) {
				return tNth(parts[0], j)
			}
			break
		}
		if len(parts) > 0 && len(parts) < len(s.A) {
			return tNth(tCat(s.S, parts...), j)
		}
	}
	return mk("nth", "", es, nil, nil, s, i)
}

// asUpd recognises what tUpd built: a with the elements mid, m of them, at the
// in-range index i.
func asUpd(s *Term) (a, i *Term, mid []*Term, m int64, ok bool) {
	if s.Op != "cat" || len(s.A) < 2 {
		return
	}
	p := s.A
	last := p[len(p)-1]
	if last.Op != "ext" {
		return
	}
	a, i, mid = last.A[0], tInt(0), p[:len(p)-1]
	if p[0].Op == "ext" {
		if p[0].A[0] != a || p[0].A[1] != tInt(0) {
			return
		}
		i, mid = p[0].A[2], p[1:len(p)-1]
	}
	for _, e := range mid {
		switch e.Op {
		case "unit":
			m++
		case "lit":
			m += int64(len(e.Name))
		default:
			return
		}
	}
	if m == 0 || last.A[1] != tAdd(i, tInt(m)) || last.A[2] != tSub(tSub(tLen(a), i), tInt(m)) {
		return
	}
	return a, i, mid, m, true
}

// midAt is the k-th element of mid.
func midAt(mid []*Term, k int64) *Term {
	for _, e := range mid {
		if e.Op == "unit" {
			if k == 0 {
				return e.A[0]
			}
			k--
			continue
		}
		if k < int64(len(e.Name)) {
			return tInt(int64(e.Name[k]))
		}
		k -= int64(len(e.Name))
	}
	return nil
}

// tUpd is s with x at index i, which callers know to be in range.
func tUpd(s, i, x *Term) *Term {
	if a, j, mid, m, ok := asUpd(s); ok {
		if d := tSub(i, j); m == 1 && i == j {
			return tUpd(a, i, x)
		} else if d == tInt(m) {
			// the element after those written so far
			ps := append([]*Term{tExt(a, tInt(0), j)}, mid...)
			ps = append(ps, tUnit(x), tExt(a, tAdd(i, tInt(1)), tSub(tSub(tLen(a), i), tInt(1))))
			return tCat(s.S, ps...)
		}
	}
	n := tLen(s)
	return tCat(s.S, tExt(s, tInt(0), i), tUnit(x), tExt(s, tAdd(i, tInt(1)), tSub(tSub(n, i), tInt(1))))
}

func tSelect(a, i *Term, sort string) *Term {
	for a.Op == "store" {
		e := tEq(a.A[1], i)
		if e == tTrue {
			return a.A[2]
		}
		if e == tFalse {
			a = a.A[0]
			continue
		}
		break
	}
	if a.Op == "karr" {
		return a.A[0]
	}
	return mk("select", "", sort, nil, nil, a, i)
}
func tStore(a, i, v *Term) *Term { return mk("store", "", a.S, nil, nil, a, i, v) }
func tConstArr(sort string, v *Term) *Term {
	return mk("karr", "", sort, nil, nil, v)
}

// ---- substitution / rebuild

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		l := lin{new(big.Int).Set(t.N), map[*Term]*big.Int{}}
		for i, a := range args {
			addLin(&l, a, t.C[i])
		}
		return fromLin(l)
	case "ge0":
		return tGe0(args[0])
	case "eq":
		return tEq(args[0], args[1])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "and":
		return tAnd(args...)
	case "or":
		return tOr(args...)
	case "not":
		return tNot(args[0])
	case "unit":
		return tUnit(args[0])
	case "cat":
		return tCat(t.S, args...)
	case "len":
		return tLen(args[0])
	case "nth":
		return tNth(args[0], args[1])
	case "ext":
		return tExt(args[0], args[1], args[2])
	case "mul":
		return tMul(args[0], args[1])
	case "div":
		return tDiv(args[0], args[1])
	case "mod":
		return tMod(args[0], args[1])
	case "select":
		return tSelect(args[0], args[1], t.S)
	case "store":
		return tStore(args[0], args[1], args[2])
	case "karr":
		return tConstArr(t.S, args[0])
	case "app":
		return mkApp(t.Name, t.S, args...)
	}
	return mk(t.Op, t.Name, t.S, t.N, t.C, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.A) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.A))
		ch := false
		for i, a := range t.A {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- printing (SMT-LIB)

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func smtName(s string) string {
	return "|" + s + "|"
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder) {
	wr := func(op string, args ...*Term) {
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range args {
			sb.WriteByte(' ')
			a.write(sb)
		}
		sb.WriteByte(')')
	}
	switch t.Op {
	case "int":
		sb.WriteString(smtInt(t.N))
	case "bool":
		sb.WriteString(t.Name)
	case "sym":
		sb.WriteString(smtName(t.Name))
	case "app":
		if len(t.A) == 0 {
			sb.WriteString(smtName(t.Name))
		} else {
			wr(smtName(t.Name), t.A...)
		}
	case "lin":
		sb.WriteString("(+")
		if t.N.Sign() != 0 || len(t.A) < 2 {
			sb.WriteByte(' ')
			sb.WriteString(smtInt(t.N))
		}
		for i, a := range t.A {
			sb.WriteByte(' ')
			if t.C[i].IsInt64() && t.C[i].Int64() == 1 {
				a.write(sb)
			} else {
				sb.WriteString("(* ")
				sb.WriteString(smtInt(t.C[i]))
				sb.WriteByte(' ')
				a.write(sb)
				sb.WriteByte(')')
			}
		}
		sb.WriteByte(')')
	case "ge0":
		sb.WriteString("(>= ")
		t.A[0].write(sb)
		sb.WriteString(" 0)")
	case "eq":
		wr("=", t.A...)
	case "ite", "and", "or", "not", "mod", "div", "select", "store":
		wr(t.Op, t.A...)
	case "mul":
		wr("*", t.A...)
	case "empty":
		sb.WriteString("(as seq.empty " + smtSort(t.S) + ")")
	case "unit":
		wr("seq.unit", t.A...)
	case "lit":
		switch len(t.Name) {
		case 0:
			sb.WriteString("(as seq.empty (Seq Int))")
		case 1:
			fmt.Fprintf(sb, "(seq.unit %d)", t.Name[0])
		default:
			sb.WriteString("(seq.++")
			for i := 0; i < len(t.Name); i++ {
				fmt.Fprintf(sb, " (seq.unit %d)", t.Name[i])
			}
			sb.WriteString(")")
		}
	case "cat":
		wr("seq.++", t.A...)
	case "len":
		wr("seq.len", t.A...)
	case "nth":
		wr("seq.nth", t.A...)
	case "ext":
		wr("seq.extract", t.A...)
	case "karr":
		sb.WriteString("((as const " + smtSort(t.S) + ") ")
		t.A[0].write(sb)
		sb.WriteByte(')')
	default:
		panic("write " + t.Op)
	}
}

// pretty gives a compact human rendering for reports.
func (t *Term) pretty() string {
	switch t.Op {
	case "lit":
		return strconv.Quote(t.Name)
	case "sym":
		return t.Name
	case "int", "bool", "empty":
		return t.String()
	}
	var as []string
	for i, a := range t.A {
		s := a.pretty()
		if t.Op == "lin" && !(t.C[i].IsInt64() && t.C[i].Int64() == 1) {
			s = t.C[i].String() + "*" + s
		}
		as = append(as, s)
	}
	switch t.Op {
	case "lin":
		s := strings.Join(as, "+")
		if t.N.Sign() > 0 {
			s += "+" + t.N.String()
		} else if t.N.Sign() < 0 {
			s += t.N.String()
		}
		return s
	case "ge0":
		return as[0] + ">=0"
	case "eq":
		return "(" + as[0] + "==" + as[1] + ")"
	case "nth":
		return as[0] + "[" + as[1] + "]"
	case "app":
		return t.Name + "(" + strings.Join(as, ",") + ")"
	}
	return t.Op + "(" + strings.Join(as, ",") + ")"
}
