package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// With "opt merge" the states of the paths through an if or switch are joined
// again where those paths meet: facts of one path hold under its branch
// conditions, and values that differ become conditional values. Paths whose
// values cannot be joined go on separately.

type mergeCtx struct {
	join  *ssa.BasicBlock
	depth int
	vals  []ssa.Value // the phis of the join block, then values of the forking block used later
	arr   []arrival
}
type arrival struct {
	st   *State
	vals []Val
}

var joinCache = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// joinOf returns the block all paths from b to a return go through first, if any.
func joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	m, ok := joinCache[fn]
	if !ok {
		m = postDominators(fn)
		joinCache[fn] = m
	}
	return m[b]
}
func postDominators(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	// blocks that can return
	live := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				live[b] = true
				work = append(work, b)
			}
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !live[p] {
				live[p] = true
				work = append(work, p)
			}
		}
	}
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		s := map[int]bool{}
		if len(b.Succs) == 0 {
			s[b.Index] = true
		} else {
			for _, c := range fn.Blocks {
				if live[c] {
					s[c.Index] = true
				}
			}
		}
		pd[b.Index] = s
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !live[b] || len(b.Succs) == 0 {
				continue
			}
			var s map[int]bool
			for _, c := range b.Succs {
				if !live[c] {
					continue
				}
				if s == nil {
					s = map[int]bool{}
					for k := range pd[c.Index] {
						s[k] = true
					}
				} else {
					for k := range s {
						if !pd[c.Index][k] {
							delete(s, k)
						}
					}
				}
			}
			if s == nil {
				s = map[int]bool{}
			}
			s[b.Index] = true
			if len(s) != len(pd[b.Index]) {
				pd[b.Index] = s
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		// the immediate one is post-dominated by all the others
		for k := range pd[b.Index] {
			if k == b.Index {
				continue
			}
			if len(pd[k]) == len(pd[b.Index])-1 {
				out[b] = fn.Blocks[k]
			}
		}
	}
	return out
}

// forkMerge executes what follows instruction i of block b, where the path
// forks, and joins the outcomes where they meet.
func (x *Exec) forkMerge(fr *Frame, b *ssa.BasicBlock, i int, st *State, run func(f *Frame)) {
	j := x.joinFor(fr, b)
	if j == nil {
		run(fr)
		return
	}
	ctx := &mergeCtx{join: j, depth: len(fr.loops)}
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ctx.vals = append(ctx.vals, p)
	}
	for _, in := range b.Instrs[i:] {
		v, ok := in.(ssa.Value)
		if !ok || v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if r.Block() == j || j.Dominates(r.Block()) {
				ctx.vals = append(ctx.vals, v)
				break
			}
		}
	}
	pcLen, fkLen, base := len(st.pc), len(st.forks), st.trace
	saved := x.stack
	f := fr.clone()
	f.merges = append(append([]*mergeCtx{}, fr.merges...), ctx)
	run(f)
	var gs []arrival
next:
	for _, a := range ctx.arr {
		for k := range gs {
			m, vals, ok := x.mergeStates(gs[k].st, a.st, pcLen, fkLen, ctx.vals, gs[k].vals, a.vals)
			if ok {
				gs[k] = arrival{m, vals}
				continue next
			}
		}
		gs = append(gs, a)
	}
	for k, g := range gs {
		f := fr.clone()
		g.st.trace = base*1099511628211 ^ uint64(j.Index*8191+k)
		for n, v := range ctx.vals {
			f.env[v] = g.vals[n]
		}
		x.stack = saved
		if !x.arrived(f, j, nil, g.st) {
			x.instrs(f, j, x.firstNonPhi(j), g.st)
		}
	}
	x.stack = saved
}

func (x *Exec) joinFor(fr *Frame, b *ssa.BasicBlock) *ssa.BasicBlock {
	if x.spec == nil || !x.spec.Opts["merge"] || x.unroll {
		return nil
	}
	j := joinOf(b)
	if j == nil || len(j.Preds) < 2 || loopsOf(b.Parent())[j] != nil {
		return nil
	}
	if n := len(fr.loops); n > 0 && !fr.loops[n-1].info.blocks[j] {
		return nil
	}
	return j
}

// arrived takes the path that reaches j if the innermost branch joins there.
func (x *Exec) arrived(f *Frame, j, prev *ssa.BasicBlock, st *State) bool {
	n := len(f.merges)
	if n == 0 {
		return false
	}
	c := f.merges[n-1]
	if c.join != j || c.depth != len(f.loops) {
		return false
	}
	a := arrival{st: st}
	for _, v := range c.vals {
		if p, ok := v.(*ssa.Phi); ok && prev != nil && p.Block() == j {
			a.vals = append(a.vals, x.val(f, p.Edges[predIndex(j, prev)], st))
		} else {
			a.vals = append(a.vals, f.env[v])
		}
	}
	c.arr = append(c.arr, a)
	return true
}

func andAll(ts []*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = tAnd(r, t)
	}
	return r
}

// mergeStates joins two states that share the first pcLen facts and fkLen branch conditions.
func (x *Exec) mergeStates(a, b *State, pcLen, fkLen int, phis []ssa.Value, va, vb []Val) (m *State, vals []Val, ok bool) {
	if len(a.forks) < fkLen || len(b.forks) < fkLen || a.gen != b.gen {
		return nil, nil, false
	}
	a, b = a.clone(), b.clone()
	ga, gb := andAll(a.forks[fkLen:]), andAll(b.forks[fkLen:])
	// objects both paths made for the same pointer
	remap := map[int]int{}
	var rts []*Term
	for t := range b.refs {
		rts = append(rts, t)
	}
	sort.Slice(rts, func(i, j int) bool { return b.refs[rts[i]] < b.refs[rts[j]] })
	for _, t := range rts {
		if ia, has := a.refs[t]; has && ia != b.refs[t] {
			if a.heap[b.refs[t]] != nil || b.heap[ia] != nil {
				return nil, nil, false
			}
			remap[b.refs[t]] = ia
		}
	}
	for k, ia := range a.ros {
		if ib, has := b.ros[k]; has && ia != ib {
			if a.heap[ib] != nil || b.heap[ia] != nil {
				return nil, nil, false
			}
			remap[ib] = ia
		}
	}
	if len(remap) > 0 {
		nh := map[int]*Obj{}
		for id, o := range b.heap {
			n := *o
			if r, has := remap[id]; has {
				n.id = r
				id = r
			}
			n.v = remapVal(o.v, remap)
			n.parents = nil
			for _, p := range o.parents {
				if r, has := remap[p]; has {
					p = r
				}
				n.parents = append(n.parents, p)
			}
			if o.owner != nil {
				if r, has := remap[o.owner.p.Obj]; has {
					n.owner = &owner{VPt{r, o.owner.p.Path}, o.owner.typ}
				}
			}
			nh[id] = &n
		}
		b.heap = nh
		for t, id := range b.refs {
			if r, has := remap[id]; has {
				b.refs[t] = r
			}
		}
		for t, id := range b.ros {
			if r, has := remap[id]; has {
				b.ros[t] = r
			}
		}
		vb2 := make([]Val, len(vb))
		for i := range vb {
			vb2[i] = remapVal(vb[i], remap)
		}
		vb = vb2
	}
	m = a.clone()
	// facts so far: those of both, and those of one under its conditions
	m.pc = append([]*Term{}, a.pc[:pcLen]...)
	m.known = map[*Term]bool{}
	for _, t := range m.pc {
		m.known[t] = true
	}
	m.forks = append([]*Term{}, a.forks[:fkLen]...)
	if g := tOr(ga, gb); g != tTrue && gb != tNot(ga) && ga != tNot(gb) {
		m.forks = append(m.forks, g)
		m.assume(g)
	}
	defer func() {
		if !ok {
			return
		}
		for _, s := range []struct {
			s, o *State
			g    *Term
		}{{a, b, ga}, {b, a, gb}} {
			for _, t := range s.s.pc[pcLen:] {
				if s.o.known[t] {
					m.assume(t)
				} else {
					m.assume(tImp(s.g, t))
				}
			}
		}
	}()
	if len(b.wild) > 0 {
		w := map[string]bool{}
		for k := range a.wild {
			w[k] = true
		}
		for k := range b.wild {
			w[k] = true
		}
		m.wild = w
	}
	for t, id := range b.refs {
		m.refs[t] = id
	}
	for t, id := range b.ros {
		m.ros[t] = id
	}
	for k, v := range b.ghost {
		av, has := a.ghost[k]
		if !has {
			m.ghost[k] = v
			continue
		}
		at, ok1 := av.(VT)
		bt, ok2 := v.(VT)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		m.ghost[k] = VT{tIte(ga, at.T, bt.T)}
	}
	var ids []int
	for id := range b.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if m.heap[id] == nil {
			o := *b.heap[id]
			m.heap[id] = &o
		}
	}
	mg := &merger{a: a, b: b, m: m, g: ga}
	for _, id := range ids {
		oa, ob := a.heap[id], b.heap[id]
		if oa == nil || oa == ob {
			continue
		}
		n := *oa
		n.frozen = oa.frozen || ob.frozen
		if oa.owner != ob.owner && (oa.owner == nil || ob.owner == nil || oa.owner.p.Obj != ob.owner.p.Obj || !samePath(oa.owner.p.Path, ob.owner.p.Path)) {
			return nil, nil, false
		}
		for _, p := range ob.parents {
			has := false
			for _, q := range n.parents {
				has = has || q == p
			}
			if !has {
				n.parents = append(append([]int{}, n.parents...), p)
			}
		}
		n.caught = append(append([][2]*Term{}, oa.caught...), ob.caught...)
		v, good := mg.val(oa.v, ob.v, oa.typ)
		if !good {
			return nil, nil, false
		}
		n.v = v
		m.heap[id] = &n
	}
	for i, p := range phis {
		v, good := mg.val(va[i], vb[i], p.Type())
		if !good {
			return nil, nil, false
		}
		vals = append(vals, v)
	}
	return m, vals, true
}

func remapVal(v Val, r map[int]int) Val {
	switch y := v.(type) {
	case VSl:
		if n, ok := r[y.Obj]; ok {
			y.Obj = n
		}
		return y
	case VPt:
		if n, ok := r[y.Obj]; ok {
			y.Obj = n
		}
		return y
	case VMp:
		if n, ok := r[y.Obj]; ok {
			y.Obj = n
		}
		return y
	case VSt:
		fs := make([]Val, len(y.F))
		for i := range fs {
			fs[i] = remapVal(y.F[i], r)
		}
		return VSt{fs}
	case VIf:
		if y.Typ != nil {
			y.V = remapVal(y.V, r)
		}
		return y
	}
	return v
}

type merger struct {
	a, b, m *State
	g       *Term
}

func sameVal(v, w Val) bool {
	switch y := v.(type) {
	case VT:
		z, ok := w.(VT)
		return ok && y.T == z.T
	case VAr:
		z, ok := w.(VAr)
		return ok && y.T == z.T
	case VSl:
		z, ok := w.(VSl)
		return ok && y == z
	case VMp:
		z, ok := w.(VMp)
		return ok && y == z
	case VPt:
		z, ok := w.(VPt)
		return ok && y.Obj == z.Obj && samePath(y.Path, z.Path)
	case VFn:
		z, ok := w.(VFn)
		return ok && y.Fn == z.Fn && len(y.Free) == 0 && len(z.Free) == 0
	case VIf:
		z, ok := w.(VIf)
		return ok && (y.Typ == nil && z.Typ == nil || y.Typ != nil && z.Typ != nil && types.Identical(y.Typ, z.Typ) && sameVal(y.V, z.V))
	case VSt:
		z, ok := w.(VSt)
		if !ok || len(z.F) != len(y.F) {
			return false
		}
		for i := range y.F {
			if !sameVal(y.F[i], z.F[i]) {
				return false
			}
		}
		return true
	}
	return v == nil && w == nil
}

func (g *merger) val(v, w Val, typ types.Type) (out Val, ok bool) {
	if sameVal(v, w) {
		return v, true
	}
	typ = types.Unalias(typ)
	switch y := v.(type) {
	case nil:
		return nil, false
	case VT:
		if z, is := w.(VT); is && z.T.S == y.T.S {
			return VT{tIte(g.g, y.T, z.T)}, true
		}
	case VAr:
		if z, is := w.(VAr); is && z.T.S == y.T.S {
			return VAr{tIte(g.g, y.T, z.T)}, true
		}
		return nil, false
	case VSl:
		z, is := w.(VSl)
		if !is {
			return nil, false
		}
		nl := tIte(g.g, y.Nil, z.Nil)
		same := y.Obj == z.Obj
		if !same && y.Obj != 0 && z.Obj != 0 && g.a.heap[z.Obj] == nil && g.b.heap[y.Obj] == nil {
			// each side read the same, unwritten array
			p, q := g.a.heap[y.Obj], g.b.heap[z.Obj]
			same = sameVal(p.v, q.v) && y.Off == z.Off && y.Len == z.Len && p.owner == nil && q.owner == nil && len(p.parents) == 0 && len(q.parents) == 0
		}
		if same {
			return VSl{Nil: nl, Off: tIte(g.g, y.Off, z.Off), Len: tIte(g.g, y.Len, z.Len), Obj: y.Obj}, true
		}
		es := seqOf(encSort(typ.Underlying().(*types.Slice).Elem()))
		d := tIte(g.g, g.a.sliceData(y, es), g.b.sliceData(z, es))
		var par []int
		for _, o := range []int{y.Obj, z.Obj} {
			if o != 0 && g.m.heap[o] != nil {
				par = append(par, o)
			}
		}
		var ot types.Type
		if y.Obj != 0 {
			ot = g.a.heap[y.Obj].typ
		} else {
			ot = g.b.heap[z.Obj].typ
		}
		id := g.m.newObj(ot, VAr{d}, par...)
		n := tIte(g.g, y.Len, z.Len)
		g.m.assume(tEq(tLen(d), n))
		return VSl{Nil: nl, Off: tInt(0), Len: n, Obj: id}, true
	case VSt:
		z, is := w.(VSt)
		if !is {
			break
		}
		u := typ.Underlying().(*types.Struct)
		fs := make([]Val, len(y.F))
		for i := range fs {
			if fs[i], ok = g.val(y.F[i], z.F[i], u.Field(i).Type()); !ok {
				return nil, false
			}
		}
		return VSt{fs}, true
	case VMp:
		z, is := w.(VMp)
		if !is {
			return nil, false
		}
		if y.Obj == 0 && z.Obj == 0 {
			return VMp{Nil: tIte(g.g, y.Nil, z.Nil)}, true
		}
		if y.Obj == z.Obj {
			return VMp{Nil: tIte(g.g, y.Nil, z.Nil), Obj: y.Obj}, true
		}
		t := tIte(g.g, g.a.encode(y, typ), g.b.encode(z, typ))
		return g.m.decode(t, typ), true
	}
	switch v.(type) {
	case VT, VIf, VSt:
	default:
		return nil, false
	}
	switch w.(type) {
	case VT, VIf, VSt:
	default:
		return nil, false
	}
	if !escapable(v) || !escapable(w) {
		return nil, false
	}
	return g.m.decode(tIte(g.g, g.a.encode(v, typ), g.b.encode(w, typ)), typ), true
}

// escapable: encoding the value does not give an allocated object a reference.
func escapable(v Val) bool {
	switch y := v.(type) {
	case VT, VAr, VMp, VSl:
		return true
	case VIf:
		return y.Typ == nil || escapable(y.V)
	case VSt:
		for _, f := range y.F {
			if !escapable(f) {
				return false
			}
		}
		return true
	}
	return false
}
