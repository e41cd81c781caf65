package main

// Symbolic values, their encoding as terms, and the symbolic heap.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VT struct{ T *Term } // scalar, string, opaque value, encoded interface or symbolic pointer
type VSl struct {
	Nil, Off, Len *Term
	Obj           int
}
type VSt struct{ F []Val }
type VAr struct{ T *Term }
type VPt struct {
	Obj  int
	Path []pel
}
type pel struct {
	fld int
	idx *Term // if non-nil an index
}
type VIf struct {
	Typ types.Type // nil for the nil interface
	V   Val
}
type VMp struct {
	Nil *Term
	Obj int
}
type VFn struct {
	Fn   *ssa.Function
	Free []Val
}
type VTu struct{ E []Val }
type VIt struct { // range iterator over map or string
	Obj  int // cell with int position
	Keys *Term
	Map  *Term // encoded map (snapshot) or nil for strings
	KT   types.Type
	VTy  types.Type
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- sorts

func isOpaqueStruct(n *types.Named, st *types.Struct) bool {
	p := n.Obj().Pkg()
	if p == nil || strings.HasPrefix(p.Path(), "github.com/frk/gosql") || strings.HasPrefix(p.Path(), "github.com/frk/ast") || strings.HasPrefix(p.Path(), "github.com/frk/fql") || strings.HasPrefix(p.Path(), "fixture/") {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	s = strings.ReplaceAll(s, "interface {}", "interface{}")
	s = strings.ReplaceAll(s, "any", "interface{}")
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
	}
	s = strings.ReplaceAll(s, "|", "!")
	return s
}

func fullKey(t types.Type) string {
	switch t := t.(type) {
	case *types.Slice:
		return "[]" + fullKey(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), fullKey(t.Elem()))
	case *types.Pointer:
		return "*" + fullKey(t.Elem())
	case *types.Map:
		return "map[" + fullKey(t.Key()) + "]" + fullKey(t.Elem())
	}
	return typeKey(types.Unalias(t))
}

func encSort(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.TypeParam:
		return th.usort("TP")
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			if isOpaqueStruct(u, st) {
				return th.usort("T_" + typeKey(u))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return th.usort("Ifc")
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsString != 0:
			return sBytes
		case u.Info()&types.IsFloat != 0:
			return th.usort("Flt")
		}
		return th.usort("B_" + u.Name())
	case *types.Slice:
		return slcSort(encSort(u.Elem()))
	case *types.Array:
		return seqOf(encSort(u.Elem()))
	case *types.Struct:
		name := "St_" + typeKey(t)
		if d := th.dt(name); d != nil {
			return name
		}
		var fs []dfield
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, dfield{fmt.Sprintf("f%d_%s", i, u.Field(i).Name()), encSort(u.Field(i).Type())})
		}
		return th.datatype(name, fs...)
	case *types.Pointer:
		return sInt
	case *types.Interface:
		return th.usort("Ifc")
	case *types.Map:
		k, v := encSort(u.Key()), encSort(u.Elem())
		return th.datatype("Map_"+k+"_"+v, dfield{"nil", sBool}, dfield{"dom", "(Array " + k + " Bool)"}, dfield{"val", "(Array " + k + " " + v + ")"}, dfield{"keys", seqOf(k)})
	case *types.Signature:
		return th.usort("Fn")
	case *types.Tuple:
		return th.usort("Tuple")
	}
	return th.usort("X_" + typeKey(t))
}
func slcSort(es string) string {
	return th.datatype("Slc_"+es, dfield{"nil", sBool}, dfield{"data", seqOf(es)})
}

// ---- state

type Obj struct {
	id      int
	typ     types.Type // type of the cell
	v       Val
	parents []int
	frozen  bool
	caught  [][2]*Term // what was captured of this backing array, and its whole content then
	lazy    *Term      // the reference through which memory that existed on entry was reached
	owner   *owner     // the slice element this backing array was read from
}

// owner is where a backing array decoded from an element of another slice lives.
type owner struct {
	p   VPt
	typ types.Type
}

type State struct {
	heap    map[int]*Obj
	wild    map[string]bool // types of memory whose content on entry is no longer known
	refs    map[*Term]int   // symbolic pointer -> materialised object
	ros     map[string]int
	pc      []*Term
	forks   []*Term // the branch conditions among them
	known   map[*Term]bool
	ghost   map[string]Val
	nextObj *int
	track   []*writeSet
	trace   uint64 // the blocks entered so far
	gen     int    // the loop iteration under analysis this state belongs to
}
type writeSet struct {
	limit int
	locs  map[string]wloc
	lazy  map[*Term]lazyLoc     // memory that existed on entry but was reached through a reference only later
	all   map[string]types.Type // any memory of these types
}

// newRefs are references to memory a callee has just allocated (opt fresh).
var newRefs sync.Map

type lazyLoc struct {
	typ   types.Type
	paths map[string][]int
}
type wloc struct {
	obj  int
	path []int
}

func newState() *State {
	n := 0
	return &State{heap: map[int]*Obj{}, refs: map[*Term]int{}, ros: map[string]int{}, known: map[*Term]bool{}, ghost: map[string]Val{}, nextObj: &n}
}
func (st *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(st.heap)), refs: make(map[*Term]int, len(st.refs)), ros: make(map[string]int, len(st.ros)),
		pc: append([]*Term{}, st.pc...), forks: append([]*Term{}, st.forks...), known: make(map[*Term]bool, len(st.known)), ghost: make(map[string]Val, len(st.ghost)), nextObj: st.nextObj, track: st.track, trace: st.trace, gen: st.gen}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.wild = st.wild
	for k, v := range st.refs {
		n.refs[k] = v
	}
	for k, v := range st.ros {
		n.ros[k] = v
	}
	for k := range st.known {
		n.known[k] = true
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return n
}
func (st *State) assume(t *Term) {
	if t == tTrue || st.known[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.A {
			st.assume(a)
		}
		return
	}
	st.known[t] = true
	st.pc = append(st.pc, t)
}
func (st *State) infeasible() bool {
	for _, t := range st.pc {
		if t == tFalse || st.known[tNot(t)] {
			return true
		}
	}
	return false
}
func (st *State) newObj(typ types.Type, v Val, parents ...int) int {
	*st.nextObj++
	id := *st.nextObj
	st.heap[id] = &Obj{id: id, typ: typ, v: v, parents: parents}
	return id
}
func (st *State) setObj(id int, v Val) {
	o := *st.heap[id]
	o.v = v
	st.heap[id] = &o
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	return big.NewInt(0), new(big.Int).Sub(h, big.NewInt(1)), true
}
func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

// decode turns a term of sort encSort(t) into a value, adding type facts.
func (st *State) decode(t *Term, typ types.Type) Val {
	typ = types.Unalias(typ)
	if n, ok := typ.(*types.Named); ok {
		if s, ok := n.Underlying().(*types.Struct); ok && isOpaqueStruct(n, s) {
			return VT{t}
		}
	}
	if _, ok := typ.(*types.TypeParam); ok {
		return VT{t}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok && t.Op != "int" {
			st.assume(tLe(tBig(lo), t))
			st.assume(tLe(t, tBig(hi)))
		}
		return VT{t}
	case *types.Slice:
		data, nl := tSel(t, "data"), tSel(t, "nil")
		if nl != tFalse && data.Op != "empty" {
			st.assume(tImp(nl, tEq(tLen(data), tInt(0))))
		}
		key := fmt.Sprintf("%d/%s", data.id, typeKey(u.Elem()))
		id, ok := st.ros[key]
		if ok {
			// the read-only object must still hold this content
			if a, isA := st.heap[id].v.(VAr); !isA || a.T != data {
				ok = false
			}
		}
		if !ok {
			id = st.newObj(types.NewArray(u.Elem(), -1), VAr{data})
			st.ros[key] = id
		}
		return VSl{Nil: nl, Off: tInt(0), Len: tLen(data), Obj: id}
	case *types.Array:
		if tLen(t).Op != "int" && u.Len() <= 4096 {
			st.assume(tEq(tLen(t), tInt(u.Len())))
		}
		return VAr{t}
	case *types.Struct:
		encSort(typ)
		d := th.dt(t.S)
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = st.decode(tSel(t, d.fields[i].name), u.Field(i).Type())
		}
		return VSt{fs}
	case *types.Map:
		id := st.newObj(typ, VT{t})
		nl := tSel(t, "nil")
		if nl != tFalse && nl != tTrue {
			st.assume(tImp(nl, tEq(t, zeroTerm(typ))))
		}
		return VMp{Nil: nl, Obj: id}
	case *types.Pointer:
		if id, ok := st.refs[t]; ok {
			return VPt{Obj: id}
		}
		return VT{t}
	}
	return VT{t}
}

// encode gives the term for a value of the given static type.
func (st *State) encode(v Val, typ types.Type) *Term {
	typ = types.Unalias(typ)
	switch x := v.(type) {
	case VT:
		return x.T
	case VAr:
		return x.T
	case VSl:
		es := encSort(typ.Underlying().(*types.Slice).Elem())
		if x.Obj == 0 {
			return tMk(slcSort(es), x.Nil, tEmpty(seqOf(es)))
		}
		d := st.sliceData(x, seqOf(es))
		st.freeze(x.Obj)
		o := *st.heap[x.Obj]
		o.caught = append(append([][2]*Term{}, o.caught...), [2]*Term{d, st.heap[x.Obj].v.(VAr).T})
		st.heap[x.Obj] = &o
		return tMk(slcSort(es), x.Nil, d)
	case VSt:
		u := typ.Underlying().(*types.Struct)
		s := encSort(typ)
		args := make([]*Term, len(x.F))
		for i := range x.F {
			args[i] = st.encode(x.F[i], u.Field(i).Type())
		}
		return tMk(s, args...)
	case VIf:
		if x.Typ == nil {
			return tApp("nil_Ifc", th.usort("Ifc"))
		}
		k := fullKey(x.Typ)
		tagID(k)
		return mkApp("box_"+k, th.usort("Ifc"), st.encode(x.V, x.Typ))
	case VMp:
		if x.Obj == 0 {
			return zeroTerm(typ)
		}
		return st.heap[x.Obj].v.(VT).T
	case VPt:
		for t, id := range st.refs {
			if id == x.Obj && len(x.Path) == 0 {
				return t
			}
		}
		if len(x.Path) == 0 {
			// an allocated object escapes: give it a reference
			r := tFresh("ref", sInt)
			st.assume(tGt(r, tInt(0)))
			st.assume(tEq(tApp("allocid", sInt, r), tInt(int64(x.Obj))))
			o := st.heap[x.Obj]
			et := o.typ
			if st.encodable(o.v) {
				c := st.encode(o.v, et)
				st.assume(tEq(tApp("deref_"+typeKey(et), encSort(et), r), c))
			}
			st.refs[r] = x.Obj
			st.freeze(x.Obj)
			return r
		}
		// interior pointer: identify by object and path
		s := fmt.Sprintf("addr_%d", x.Obj)
		for _, p := range x.Path {
			if p.idx != nil {
				s += "_i" + p.idx.pretty()
			} else {
				s += fmt.Sprintf("_f%d", p.fld)
			}
		}
		return tSym(s, sInt)
	case VFn:
		return tSym("fn_"+x.Fn.String(), th.usort("Fn"))
	}
	unsup("encode %T as %s", v, typ)
	return nil
}
func (st *State) encodable(v Val) bool {
	switch x := v.(type) {
	case VT, VAr, VSl, VIf, VMp:
		return true
	case VSt:
		for _, f := range x.F {
			if !st.encodable(f) {
				return false
			}
		}
		return true
	case VPt, VFn:
		return true
	}
	return false
}

func (st *State) freeze(id int) {
	o := *st.heap[id]
	if !o.frozen {
		o.frozen = true
		st.heap[id] = &o
	}
}

func (st *State) sliceData(x VSl, sort string) *Term {
	if x.Obj == 0 {
		return tEmpty(sort)
	}
	c := st.heap[x.Obj].v.(VAr).T
	return tExt(c, x.Off, x.Len)
}

func zeroTerm(typ types.Type) *Term {
	typ = types.Unalias(typ)
	s := encSort(typ)
	switch {
	case s == sInt:
		return tInt(0)
	case s == sBool:
		return tFalse
	case s == sBytes:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return tEmptyBytes
		}
	}
	if n, ok := typ.(*types.Named); ok {
		if stt, ok := n.Underlying().(*types.Struct); ok && isOpaqueStruct(n, stt) {
			return tApp("zero_"+s, s)
		}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return tApp("flt_0", s)
		}
	case *types.Slice:
		return tMk(s, tTrue, tEmpty(seqOf(encSort(u.Elem()))))
	case *types.Array:
		n := u.Len()
		if n > 64 {
			return tApp(fmt.Sprintf("zeros_%s_%d", s, n), s)
		}
		z := tUnit(zeroTerm(u.Elem()))
		var ps []*Term
		for i := int64(0); i < n; i++ {
			ps = append(ps, z)
		}
		return tCat(s, ps...)
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroTerm(u.Field(i).Type()))
		}
		return tMk(s, as...)
	case *types.Interface:
		return tApp("nil_Ifc", s)
	case *types.Map:
		k, v := encSort(u.Key()), encSort(u.Elem())
		return tMk(s, tTrue, tConstArr("(Array "+k+" Bool)", tFalse), tConstArr("(Array "+k+" "+v+")", zeroTerm(u.Elem())), tEmpty(seqOf(k)))
	}
	return tApp("zero_"+s, s)
}

func (st *State) zero(typ types.Type) Val {
	typ = types.Unalias(typ)
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return VSl{Nil: tTrue, Off: tInt(0), Len: tInt(0)}
	case *types.Interface:
		return VIf{}
	case *types.Map:
		return VMp{Nil: tTrue, Obj: 0}
	case *types.Struct:
		if n, ok := typ.(*types.Named); ok && isOpaqueStruct(n, u) {
			return VT{zeroTerm(typ)}
		}
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = st.zero(u.Field(i).Type())
		}
		return VSt{fs}
	case *types.Array:
		return VAr{zeroTerm(typ)}
	}
	return VT{zeroTerm(typ)}
}

func (st *State) fresh(name string, typ types.Type) Val {
	return st.decode(tFresh(name, encSort(typ)), typ)
}

// ---- pointers

// goWild forgets the content of all memory of a type that is reached through
// references.
func (st *State) goWild(t types.Type) {
	w := map[string]bool{typeKey(t): true}
	for k := range st.wild {
		w[k] = true
	}
	st.wild = w
	var ids []int
	for _, id := range st.refs {
		if o := st.heap[id]; o != nil && o.lazy != nil && typeKey(o.typ) == typeKey(t) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		st.note(VPt{Obj: id})
		st.setObj(id, st.fresh("wild", t))
	}
}

func (st *State) materialise(ref *Term, elem types.Type) int {
	if id, ok := st.refs[ref]; ok {
		return id
	}
	c := tApp("deref_"+typeKey(elem), encSort(elem), ref)
	id := st.newObj(elem, nil)
	st.refs[ref] = id
	if st.wild[typeKey(elem)] {
		c = tFresh("wild", encSort(elem))
	}
	st.setObj(id, st.decode(c, elem))
	o := *st.heap[id]
	o.lazy = ref
	st.heap[id] = &o
	return id
}

func pathType(t types.Type, path []pel) types.Type {
	for _, p := range path {
		if p.idx != nil {
			t = t.Underlying().(*types.Array).Elem()
		} else {
			t = t.Underlying().(*types.Struct).Field(p.fld).Type()
		}
	}
	return t
}

func (st *State) load(p VPt) Val {
	o := st.heap[p.Obj]
	return st.loadPath(o.v, o.typ, p.Path)
}
func (st *State) loadPath(v Val, typ types.Type, path []pel) Val {
	for len(path) > 0 {
		if path[0].idx != nil {
			et := typ.Underlying().(*types.Array).Elem()
			a := v.(VAr)
			v = st.decode(tNth(a.T, path[0].idx), et)
			typ = et
		} else {
			ft := typ.Underlying().(*types.Struct).Field(path[0].fld).Type()
			if o, ok := v.(VT); ok { // a struct whose contents are not modelled
				v = st.decode(tApp(fmt.Sprintf("field%d_%s", path[0].fld, typeKey(typ)), encSort(ft), o.T), ft)
			} else {
				v = v.(VSt).F[path[0].fld]
			}
			typ = ft
		}
		path = path[1:]
	}
	return v
}
func (st *State) storePath(v Val, typ types.Type, path []pel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	if path[0].idx != nil {
		et := typ.Underlying().(*types.Array).Elem()
		a := v.(VAr)
		old := st.decode(tNth(a.T, path[0].idx), et)
		n := nv
		if len(path) > 1 {
			n = st.storePath(old, et, path[1:], nv)
		}
		x := st.encode(n, et)
		if l := typ.Underlying().(*types.Array).Len(); l >= 0 && l <= 4 && path[0].idx.Op == "int" {
			var us []*Term
			for k := int64(0); k < l; k++ {
				if path[0].idx == tInt(k) {
					us = append(us, tUnit(x))
				} else {
					us = append(us, tUnit(tNth(a.T, tInt(k))))
				}
			}
			return VAr{tCat(a.T.S, us...)}
		}
		return VAr{tUpd(a.T, path[0].idx, x)}
	}
	if o, ok := v.(VT); ok { // a struct whose contents are not modelled
		return VT{tFresh("opaque", o.T.S)}
	}
	s := v.(VSt)
	fs := append([]Val{}, s.F...)
	ft := typ.Underlying().(*types.Struct).Field(path[0].fld).Type()
	fs[path[0].fld] = st.storePath(fs[path[0].fld], ft, path[1:], nv)
	return VSt{fs}
}

func (st *State) related(id int) (anc, desc map[int]bool) {
	anc = map[int]bool{}
	var up func(i int)
	up = func(i int) {
		for _, p := range st.heap[i].parents {
			if p != 0 && !anc[p] {
				anc[p] = true
				up(p)
			}
		}
	}
	up(id)
	desc = map[int]bool{}
	// descendants of id
	child := map[int][]int{}
	for k, o := range st.heap {
		for _, p := range o.parents {
			child[p] = append(child[p], k)
		}
	}
	var dn func(i int)
	dn = func(i int) {
		for _, c := range child[i] {
			if !desc[c] {
				desc[c] = true
				dn(c)
			}
		}
	}
	dn(id)
	return
}

// clobber forgets the contents of objects that may share memory.
func (x *Exec) clobber(st *State, ids map[int]bool, why string) {
	var list []int
	for id := range ids {
		list = append(list, id)
	}
	sort.Ints(list)
	for _, id := range list {
		o := st.heap[id]
		a, ok := o.v.(VAr)
		if !ok {
			continue
		}
		if o.frozen {
			x.oblige(st, "no-write-to-shared-memory", why, tFalse)
		}
		n := tFresh("clob", a.T.S)
		st.assume(tEq(tLen(n), tLen(a.T)))
		st.setObj(id, VAr{n})
	}
}

func (x *Exec) store(st *State, p VPt, v Val) {
	o := st.heap[p.Obj]
	st.note(p)
	if len(p.Path) > 0 && p.Path[0].idx != nil {
		if o.frozen {
			x.oblige(st, "no-write-to-shared-memory", "store after capture", tFalse)
		}
		anc, desc := st.related(p.Obj)
		// siblings through common ancestors
		for a := range anc {
			_, d2 := st.related(a)
			for k := range d2 {
				if k != p.Obj {
					desc[k] = true
				}
			}
		}
		for k := range anc {
			desc[k] = true
		}
		delete(desc, p.Obj)
		x.clobber(st, desc, "store through aliased slice")
	} else if o.frozen {
		// a pointer to this cell has escaped into a data structure
		o2 := *o
		o2.frozen = true
		st.heap[p.Obj] = &o2
		if x.escapedCellWrites == "fail" {
			x.oblige(st, "no-write-to-shared-memory", "store to escaped variable", tFalse)
		}
	}
	before := st.heap[p.Obj].v
	nv := st.storePath(before, st.heap[p.Obj].typ, p.Path, v)
	st.setObj(p.Obj, nv)
	x.writeBack(st, p.Obj, before)
}

// own records where the slices of a value read from an element live.
func (st *State) own(v Val, typ types.Type, p VPt) Val {
	switch y := v.(type) {
	case VSl:
		if y.Obj == 0 {
			return v
		}
		o := *st.heap[y.Obj]
		if o.owner != nil && (o.owner.p.Obj != p.Obj || !samePath(o.owner.p.Path, p.Path)) {
			y.Obj = st.newObj(o.typ, o.v)
			o = *st.heap[y.Obj]
		}
		o.owner = &owner{p, typ}
		st.heap[y.Obj] = &o
		return y
	case VSt:
		u := typ.Underlying().(*types.Struct)
		fs := make([]Val, len(y.F))
		for i := range fs {
			fs[i] = y.F[i]
			switch fs[i].(type) {
			case VSl, VSt:
				fs[i] = st.own(fs[i], u.Field(i).Type(), VPt{p.Obj, append(append([]pel{}, p.Path...), pel{fld: i})})
			}
		}
		return VSt{fs}
	}
	return v
}
func samePath(a, b []pel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// writeBack propagates a write to the backing array of a slice element to that element.
func (x *Exec) writeBack(st *State, id int, before Val) {
	o := st.heap[id]
	old, ok := before.(VAr)
	if o.owner == nil || !ok {
		return
	}
	fail := func(why string) {
		x.oblige(st, "no-write-to-shared-memory", why, tFalse)
	}
	ow := o.owner
	slot := st.loadPath(st.heap[ow.p.Obj].v, st.heap[ow.p.Obj].typ, ow.p.Path)
	sl, isSl := slot.(VSl)
	if !isSl || sl.Obj == 0 || st.heap[sl.Obj].v.(VAr).T != old.T {
		fail("write through an element read earlier")
		return
	}
	// the array the element was made from, if it is still around, changes too
	var ids []int
	for k := range st.heap {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		q := st.heap[k]
		if k == id || k == sl.Obj {
			continue
		}
		for _, c := range q.caught {
			if c[0] != old.T {
				continue
			}
			a, isA := q.v.(VAr)
			if len(q.caught) > 1 || q.owner != nil || !isA || a.T != c[1] {
				fail("write through a shared element")
				return
			}
			n := tFresh("clob", a.T.S)
			st.assume(tEq(tLen(n), tLen(a.T)))
			st.setObj(k, VAr{n})
			break
		}
	}
	fr, ca := o.frozen, o.caught
	x.store(st, ow.p, VSl{Nil: sl.Nil, Off: tInt(0), Len: sl.Len, Obj: id})
	n := *st.heap[id]
	n.frozen, n.caught, n.owner = fr, ca, ow
	st.heap[id] = &n
}
func (st *State) note(p VPt) {
	for _, w := range st.track {
		if p.Obj <= w.limit {
			var path []int
			k := fmt.Sprint(p.Obj)
			for _, e := range p.Path {
				if e.idx != nil {
					break
				}
				path = append(path, e.fld)
				k += fmt.Sprintf(".%d", e.fld)
			}
			w.locs[k] = wloc{p.Obj, path}
		} else if o := st.heap[p.Obj]; o != nil && o.lazy != nil {
			if w.lazy == nil {
				w.lazy = map[*Term]lazyLoc{}
			}
			l, ok := w.lazy[o.lazy]
			if !ok {
				l = lazyLoc{o.typ, map[string][]int{}}
				w.lazy[o.lazy] = l
			}
			var path []int
			for _, e := range p.Path {
				if e.idx != nil {
					break
				}
				path = append(path, e.fld)
			}
			l.paths[fmt.Sprint(path)] = path
		}
	}
}
