package main

// Loops: invariants are found by instantiating the contract's invariant
// templates (and a fixed stock of generic ones) over the loop's variables and
// keeping the largest inductive subset (Houdini). Templates name variables by
// role and type, never by source name.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopCtx struct {
	info    *loopInfo
	onBack  func(fr *Frame, prev *ssa.BasicBlock, st *State)
	onExit  func(fr *Frame, b, prev *ssa.BasicBlock, st *State)
	muteRet bool
}

var loopMu sync.Mutex
var loopTab = map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loopMu.Lock()
	defer loopMu.Unlock()
	if m, ok := loopTab[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := m[s]
				if li == nil {
					li = &loopInfo{s, map[*ssa.BasicBlock]bool{s: true}}
					m[s] = li
				}
				// natural loop of b->s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[n] {
						continue
					}
					li.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	loopTab[fn] = m
	return m
}

type lvar struct {
	name  string
	alias string // the name of the field or variable, when it is known
	typ   types.Type
	phi   *ssa.Phi
	loc   wloc
	isLoc bool
}
type lval struct {
	v  Val
	st *State
}
type cand struct {
	desc string
	user bool
	tmpl int  // 1+index of the template a contract invariant comes from
	full bool // every metavariable is bound to the variable of that name
	f    func(get func(i int) lval, cur *State) *Term
}

func (x *Exec) runLoop(fr *Frame, li *loopInfo, prev *ssa.BasicBlock, st *State) {
	h := li.header
	pi := predIndex(h, prev)
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	entry := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entry[p] = x.val(fr, p.Edges[pi], st)
	}
	written := map[string]wloc{}
	wild := map[string]bool{}
	var wildTypes []types.Type

	// havoc builds the arbitrary-iteration state.
	havoc := func() (*Frame, *State) {
		f2, s2 := fr.clone(), st.clone()
		for _, t := range wildTypes {
			s2.goWild(t)
		}
		for _, p := range phis {
			var par int
			switch e := entry[p].(type) {
			case VSl:
				par = e.Obj
			case VPt, VFn:
				// only pointers that do not change are supported
				same := true
				for k, ed := range p.Edges {
					if k != pi && ed != ssa.Value(p) {
						same = false
					}
				}
				if !same {
					f2.env[p] = VFn{} // any use will be unsupported
					continue
				}
				f2.env[p] = entry[p]
				continue
			}
			t := tFresh("l_"+p.Comment, encSort(p.Type()))
			v := s2.decode(t, p.Type())
			if sl, ok := v.(VSl); ok && par != 0 {
				o := *s2.heap[sl.Obj]
				o.parents = append(append([]int{}, o.parents...), par)
				s2.heap[sl.Obj] = &o
			}
			f2.env[p] = v
		}
		var ks []string
		for k := range written {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w := written[k]
			o := s2.heap[w.obj]
			if a, ok := o.v.(VAr); ok && len(w.path) == 0 {
				n := tFresh("arr", a.T.S)
				s2.assume(tEq(tLen(n), tLen(a.T)))
				s2.setObj(w.obj, VAr{n})
				continue
			}
			if m, ok := mapObj(o); ok && len(w.path) == 0 {
				n := tFresh("map", m.T.S)
				s2.assume(tEq(tSel(n, "nil"), tSel(m.T, "nil")))
				s2.setObj(w.obj, VT{n})
				continue
			}
			var path []pel
			for _, f := range w.path {
				path = append(path, pel{fld: f})
			}
			typ := pathType(o.typ, path)
			old := s2.loadPath(o.v, o.typ, path)
			nv := s2.fresh("w", typ)
			if sl, ok := nv.(VSl); ok {
				if os, ok := old.(VSl); ok && os.Obj != 0 {
					oo := *s2.heap[sl.Obj]
					oo.parents = append(append([]int{}, oo.parents...), os.Obj)
					s2.heap[sl.Obj] = &oo
				}
			}
			s2.setObj(w.obj, s2.storePath(s2.heap[w.obj].v, o.typ, path, nv))
		}
		return f2, s2
	}
	run := func(f2 *Frame, s2 *State, ctx *loopCtx) {
		f2.loops = append(f2.loops, ctx)
		x.gens++
		s2.gen = x.gens
		x.instrs(f2, h, x.firstNonPhi(h), s2)
	}
	savedStack := x.stack
	// 1. which locations does the body write?
	for round := 0; ; round++ {
		ws := &writeSet{limit: *st.nextObj, locs: map[string]wloc{}}
		f2, s2 := havoc()
		s2.track = append(append([]*writeSet{}, st.track...), ws)
		x.trial++
		x.noInfer++
		run(f2, s2, &loopCtx{info: li, muteRet: true,
			onBack: func(fr *Frame, prev *ssa.BasicBlock, st *State) {},
			onExit: func(fr *Frame, b, prev *ssa.BasicBlock, st *State) {}})
		x.noInfer--
		x.trial--
		x.stack = savedStack
		grew := false
		for k, w := range ws.locs {
			if _, ok := written[k]; !ok {
				// drop sub-locations of a wider write
				written[k] = w
				grew = true
			}
		}
		for _, l := range ws.lazy {
			if !wild[typeKey(l.typ)] {
				wild[typeKey(l.typ)] = true
				wildTypes = append(wildTypes, l.typ)
				grew = true
			}
		}
		for k, t := range ws.all {
			if !wild[k] {
				wild[k] = true
				wildTypes = append(wildTypes, t)
				grew = true
			}
		}
		sort.Slice(wildTypes, func(i, j int) bool { return typeKey(wildTypes[i]) < typeKey(wildTypes[j]) })
		// objects created during havoc are above the limit and ignored
		if !grew || round > 6 {
			break
		}
	}
	for k, w := range written {
		if st.heap[w.obj] == nil {
			delete(written, k)
		}
	}
	// 2. loop variables
	var lvs []lvar
	for _, p := range phis {
		if _, bad := entry[p].(VPt); bad {
			continue
		}
		if _, bad := entry[p].(VFn); bad {
			continue
		}
		lvs = append(lvs, lvar{name: "φ" + p.Comment, typ: p.Type(), phi: p})
	}
	var wk []string
	for k := range written {
		wk = append(wk, k)
	}
	sort.Strings(wk)
	for _, k := range wk {
		w := written[k]
		o := st.heap[w.obj]
		var path []pel
		for _, f := range w.path {
			path = append(path, pel{fld: f})
		}
		t := pathType(o.typ, path)
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() < 0 {
			t = types.NewSlice(a.Elem())
		}
		lvs = append(lvs, lvar{name: "@" + k, alias: pathName(o.typ, path), typ: t, loc: w, isLoc: true})
	}
	at := func(lv lvar, fr *Frame, phiVals map[*ssa.Phi]Val, s *State) lval {
		if !lv.isLoc {
			if phiVals != nil {
				return lval{phiVals[lv.phi], s}
			}
			return lval{fr.env[lv.phi], s}
		}
		o := s.heap[lv.loc.obj]
		if a, ok := o.v.(VAr); ok && len(lv.loc.path) == 0 {
			if _, isS := lv.typ.(*types.Slice); isS {
				return lval{VSl{Nil: tFalse, Off: tInt(0), Len: tLen(a.T), Obj: lv.loc.obj}, s}
			}
			return lval{a, s}
		}
		if _, ok := mapObj(o); ok && len(lv.loc.path) == 0 {
			return lval{VMp{Nil: tFalse, Obj: lv.loc.obj}, s}
		}
		var path []pel
		for _, f := range lv.loc.path {
			path = append(path, pel{fld: f})
		}
		return lval{s.loadPath(o.v, o.typ, path), s}
	}
	cands := x.candidates(fr, li, lvs, func(i int) lval { return at(lvs[i], fr, entry, st) }, st)
	if x.noInfer > 0 {
		cands = nil
	}
	// candidates that failed the last time this loop was reached along this path,
	// under stronger assumptions, fail again
	var sur *survivors
	if x.noInfer == 0 {
		k := fmt.Sprintf("%s#%d/%x", fr.fn.String(), h.Index, st.trace)
		if x.survive == nil {
			x.survive = map[string]*survivors{}
		}
		if sur = x.survive[k]; sur == nil {
			sur = &survivors{gen: st.gen, now: map[string]bool{}}
			x.survive[k] = sur
		} else if sur.gen != st.gen {
			sur.gen, sur.last, sur.now = st.gen, sur.now, map[string]bool{}
		}
		if sur.last != nil {
			var l []cand
			for _, c := range cands {
				if sur.last[normDesc(c.desc)] {
					l = append(l, c)
				}
			}
			cands = l
		}
	}
	// 3. initiation; a template whose metavariables name variables of the loop
	// is tried on those first, and on the others only if that does not apply
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].full && !cands[j].full })
	applied := map[int]bool{}
	var keep []cand
	seen := map[*Term]bool{}
	for _, c := range cands {
		if c.user && !c.full && applied[c.tmpl] {
			continue
		}
		t := c.safe(func(i int) lval { return at(lvs[i], fr, entry, st) }, st)
		if t == nil {
			continue
		}
		if x.quick(st, t) {
			keep = append(keep, c)
			if c.full {
				applied[c.tmpl] = true
			}
		} else if c.user && os.Getenv("GOV_DEBUG") == "2" {
			fmt.Fprintf(os.Stderr, "  init fail: %s\n     %s\n", c.desc, t.pretty())
		}
	}
	_ = seen
	// 4. consecution; those of the contract are checked once the others are settled
	settled := false
	for x.noInfer == 0 {
		f2, s2 := havoc()
		hyp := map[*Term]bool{}
		for _, c := range keep {
			if t := c.safe(func(i int) lval { return at(lvs[i], f2, nil, s2) }, s2); t != nil {
				s2.assume(t)
				hyp[t] = true
			}
		}
		bad := make([]bool, len(keep))
		x.trial++
		run(f2, s2, &loopCtx{info: li, muteRet: true,
			onBack: func(fr *Frame, prev *ssa.BasicBlock, s *State) {
				if s.infeasible() {
					return
				}
				bi := predIndex(h, prev)
				vals := map[*ssa.Phi]Val{}
				for _, p := range phis {
					vals[p] = x.val(fr, p.Edges[bi], s)
				}
				for i, c := range keep {
					if bad[i] || c.user && !settled {
						continue
					}
					t := c.safe(func(i int) lval { return at(lvs[i], fr, vals, s) }, s)
					if t == nil || !x.inductive(s, t, c.user) {
						bad[i] = true
						if c.user && os.Getenv("GOV_DEBUG") == "2" {
							fmt.Fprintf(os.Stderr, "  not inductive: %s\n", c.desc)
							if t != nil {
								fmt.Fprintf(os.Stderr, "     %s\n", t.pretty())
								if t.Op == "and" {
									for _, a := range t.A {
										fmt.Fprintf(os.Stderr, "     conjunct %v: %s\n", x.inductive(s, a, true), a.pretty())
									}
								}
								for _, p := range s.pc {
									fmt.Fprintf(os.Stderr, "       pc %s\n", p.pretty())
								}
							}
						}
					}
				}
			},
			onExit: func(fr *Frame, b, prev *ssa.BasicBlock, st *State) {}})
		x.trial--
		x.stack = savedStack
		var nk []cand
		for i, c := range keep {
			if !bad[i] {
				nk = append(nk, c)
			}
		}
		if len(nk) == len(keep) {
			if settled {
				break
			}
			settled = true
			nu := 0
			for _, c := range keep {
				if c.user {
					nu++
				}
			}
			if nu == 0 {
				break
			}
		}
		keep = nk
	}
	if sur != nil {
		for _, c := range keep {
			sur.now[normDesc(c.desc)] = true
		}
	}
	if x.trial == 0 {
		if os.Getenv("GOV_DEBUG") == "2" {
			for _, c := range keep {
				fmt.Fprintf(os.Stderr, "  inv[%s]: %s\n", fr.fn.Name(), c.desc)
			}
		}
		n := 0
		for _, c := range keep {
			if c.user {
				n++
			}
		}
		k := fmt.Sprintf("loop-invariant:%s#%d", fr.fn.Name(), h.Index)
		if x.obls[k] == nil && n > 0 {
			x.obls[k] = &Obligation{Target: x.target, Name: k, Status: "discharged", By: "z3", Detail: fmt.Sprintf("%d contract invariants and %d generic ones inductive", n, len(keep)-n)}
			x.order = append(x.order, k)
		}
	}
	// 5. continue after the loop with the inductive invariants
	f2, s2 := havoc()
	for _, c := range keep {
		if t := c.safe(func(i int) lval { return at(lvs[i], f2, nil, s2) }, s2); t != nil {
			s2.assume(t)
		}
	}
	run(f2, s2, &loopCtx{info: li,
		onBack: func(fr *Frame, prev *ssa.BasicBlock, st *State) {},
		onExit: func(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
			f3 := fr.clone()
			for len(f3.loops) > 0 {
				l := f3.loops[len(f3.loops)-1]
				if l.info == li {
					f3.loops = f3.loops[:len(f3.loops)-1]
					break
				}
				f3.loops = f3.loops[:len(f3.loops)-1]
			}
			x.enter(f3, b, prev, st)
		}})
}

type survivors struct {
	gen       int
	last, now map[string]bool
}

// normDesc is a candidate's description without object numbers.
func normDesc(d string) string {
	var sb strings.Builder
	skip := false
	for i := 0; i < len(d); i++ {
		c := d[i]
		if c == '@' || c == '!' {
			skip = true
			sb.WriteByte(c)
			continue
		}
		if skip && c >= '0' && c <= '9' {
			continue
		}
		skip = false
		sb.WriteByte(c)
	}
	return sb.String()
}

func (x *Exec) inductive(st *State, t *Term, user bool) bool {
	if t == tTrue {
		return true
	}
	if !user {
		if x.sol.split {
			ts := expand(append(relevant(st.pc, t), tNot(t)), 1, 1)
			return len(ts) == 1 && ts[0] == tFalse || x.sol.check(ts, 100) == "unsat"
		}
		return x.quick(st, t)
	}
	if x.sol.split {
		r, _ := x.sol.prove(st.pc, t, false)
		return r == "proved"
	}
	if t.Op == "and" {
		for _, a := range t.A {
			if !x.inductive(st, a, user) {
				return false
			}
		}
		return true
	}
	r, _ := x.sol.prove(st.pc, t, true)
	if r == "unknown" {
		r, _ = x.sol.prove(st.pc, t, false)
	} else if r == "refuted" {
		// retry with deeper unfolding before giving up
		base := append(append([]*Term{}, st.pc...), tNot(t))
		ts := expand(base, 4, 4)
		if x.sol.check(ts, 2500) == "unsat" {
			return true
		}
	}
	if d := os.Getenv("GOV_SMTLOG"); d != "" && r != "proved" {
		base := append(append([]*Term{}, st.pc...), tNot(t))
		os.WriteFile(fmt.Sprintf("%s/ind-%d-%d.smt2", d, os.Getpid(), t.id), []byte("; "+r+" "+t.pretty()+"\n"+fullScript(expand(base, 4, 4), false)), 0o644)
	}
	return r == "proved"
}

func (c cand) safe(get func(i int) lval, cur *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if os.Getenv("GOV_DEBUG") == "2" && c.user {
					fmt.Fprintln(os.Stderr, "  cand", c.desc, ":", u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(get, cur)
}

func (x *Exec) candidates(fr *Frame, li *loopInfo, lvs []lvar, ent func(i int) lval, st *State) []cand {
	var out []cand
	add := func(user bool, desc string, f func(get func(i int) lval, cur *State) *Term) {
		out = append(out, cand{desc: desc, user: user, f: f})
	}
	// values in scope
	type sv struct {
		t    *Term
		v    Val
		typ  types.Type
		name string
	}
	var scope []sv
	seenT := map[*Term]bool{}
	var regs []ssa.Value
	for v := range fr.env {
		regs = append(regs, v)
	}
	sort.Slice(regs, func(i, j int) bool {
		_, a := regs[i].(*ssa.Phi)
		_, b := regs[j].(*ssa.Phi)
		if a != b {
			return a
		}
		return regs[i].Name() < regs[j].Name()
	})
	var lens []*Term
	seenL := map[*Term]bool{}
	addLen := func(t *Term) {
		if t.Op != "int" && !seenL[t] {
			seenL[t] = true
			lens = append(lens, t)
		}
	}
	isPhiHere := map[ssa.Value]bool{}
	for _, lv := range lvs {
		if !lv.isLoc {
			isPhiHere[lv.phi] = true
		}
	}
	addScope := func(name string, v Val, typ types.Type) {
		switch w := v.(type) {
		case VSl:
			if w.Obj != 0 && st.heap[w.Obj] != nil {
				addLen(w.Len)
				scope = append(scope, sv{nil, v, typ, name})
			}
		case VT:
			if w.T.S == sBytes {
				addLen(tLen(w.T))
			}
			if w.T.S == sInt && w.T.Op != "int" && isInteger(typ) {
				addLen(w.T)
			}
			if !seenT[w.T] {
				seenT[w.T] = true
				scope = append(scope, sv{w.T, v, typ, name})
			}
		case VIt:
			addLen(tLen(w.Keys))
		case VAr, VSt, VMp, VIf:
			scope = append(scope, sv{nil, v, typ, name})
		}
	}
	for _, r := range regs {
		if isPhiHere[r] {
			continue
		}
		name := r.Name()
		if p, ok := r.(*ssa.Phi); ok && p.Comment != "" {
			name = p.Comment
		}
		addScope(name, fr.env[r], r.Type())
	}
	if len(lens) > 14 {
		lens = lens[:14]
	}
	isInt := func(i int) bool { return isInteger(lvs[i].typ) }
	isSl := func(i int) bool { _, ok := lvs[i].typ.Underlying().(*types.Slice); return ok }
	for i := range lvs {
		i := i
		nm := lvs[i].name
		e := ent(i)
		// unchanged
		var et *Term
		func() {
			defer func() { recover() }()
			et = e.st.clone().encode(e.v, lvs[i].typ)
		}()
		if et != nil && !isInt(i) && !isSl(i) {
			add(false, nm+"==entry", func(get func(int) lval, cur *State) *Term {
				g := get(i)
				return tEq(g.st.clone().encode(g.v, lvs[i].typ), et)
			})
		}
		switch {
		case isInt(i):
			tm := func(get func(int) lval, k int) *Term { return get(k).v.(VT).T }
			ei := e.v.(VT).T
			add(false, nm+">=entry", func(get func(int) lval, cur *State) *Term { return tLe(ei, tm(get, i)) })
			add(false, nm+"<=entry", func(get func(int) lval, cur *State) *Term { return tLe(tm(get, i), ei) })
			add(false, nm+">=0", func(get func(int) lval, cur *State) *Term { return tLe(tInt(0), tm(get, i)) })
			for _, l := range lens {
				l := l
				add(false, nm+"<="+l.pretty(), func(get func(int) lval, cur *State) *Term { return tLe(tm(get, i), l) })
				add(false, nm+"<"+l.pretty(), func(get func(int) lval, cur *State) *Term { return tLt(tm(get, i), l) })
			}
			for j := range lvs {
				j := j
				if j == i {
					continue
				}
				if isInt(j) {
					ej := ent(j).v.(VT).T
					add(false, nm+"<="+lvs[j].name, func(get func(int) lval, cur *State) *Term { return tLe(tm(get, i), tm(get, j)) })
					add(false, nm+"<"+lvs[j].name, func(get func(int) lval, cur *State) *Term { return tLt(tm(get, i), tm(get, j)) })
					if i < j {
						add(false, nm+"-"+lvs[j].name, func(get func(int) lval, cur *State) *Term {
							return tEq(tSub(tm(get, i), tm(get, j)), tSub(ei, ej))
						})
					}
				}
				if isSl(j) {
					ln := func(get func(int) lval) *Term { return get(j).v.(VSl).Len }
					ej := ent(j).v.(VSl).Len
					add(false, nm+"<=len", func(get func(int) lval, cur *State) *Term { return tLe(tm(get, i), ln(get)) })
					add(false, nm+"<len", func(get func(int) lval, cur *State) *Term { return tLt(tm(get, i), ln(get)) })
					add(false, nm+"-len", func(get func(int) lval, cur *State) *Term {
						return tEq(tSub(tm(get, i), ln(get)), tSub(ei, ej))
					})
				}
				if isString(lvs[j].typ) {
					add(false, nm+"<=slen", func(get func(int) lval, cur *State) *Term { return tLe(tm(get, i), tLen(get(j).v.(VT).T)) })
				}
			}
		case isSl(i):
			if lvs[i].isLoc && len(lvs[i].loc.path) == 0 {
				if _, isA := st.heap[lvs[i].loc.obj].v.(VAr); isA {
					break
				}
			}
			es := e.v.(VSl)
			add(false, nm+"!=nil", func(get func(int) lval, cur *State) *Term { return tNot(get(i).v.(VSl).Nil) })
			add(false, nm+".nil==entry", func(get func(int) lval, cur *State) *Term { return tEq(get(i).v.(VSl).Nil, es.Nil) })
			add(false, nm+".nil iff empty", func(get func(int) lval, cur *State) *Term {
				return tEq(get(i).v.(VSl).Nil, tEq(get(i).v.(VSl).Len, tInt(0)))
			})
			add(false, nm+".len>=entry", func(get func(int) lval, cur *State) *Term { return tLe(es.Len, get(i).v.(VSl).Len) })
			add(false, nm+".len==entry", func(get func(int) lval, cur *State) *Term { return tEq(es.Len, get(i).v.(VSl).Len) })
			if et != nil {
				add(false, nm+"==entry", func(get func(int) lval, cur *State) *Term {
					g := get(i)
					return tEq(g.st.clone().encode(g.v, lvs[i].typ), et)
				})
			}
		case isString(lvs[i].typ):
			add(false, nm+".len>=entry", func(get func(int) lval, cur *State) *Term {
				return tLe(tLen(e.v.(VT).T), tLen(get(i).v.(VT).T))
			})
		}
	}
	// contract templates: those of the function being executed and of the target
	var ts []tmpl
	if x.spec != nil {
		ts = append(ts, x.spec.Invs...)
	}
	if ct := x.sp.find(fnKey(fr.fn)); ct != nil && ct != x.spec {
		ts = append(ts, ct.Invs...)
	}
	for ti, t := range ts {
		t := t
		// choices per metavariable
		type choice struct {
			get  func(get func(int) lval, cur *State) SV
			ent  *SV
			desc string
			lv   int
			al   string
		}
		var opts [][]choice
		for _, mv := range t.vars {
			var cs []choice
			switch mv.kind {
			case "acc", "var":
				for i := range lvs {
					i := i
					if shortType(lvs[i].typ) == mv.typ || shortType(lvs[i].typ.Underlying()) == mv.typ {
						e := ent(i)
						es := SV{V: e.v, Ty: lvs[i].typ, St: st}
						cs = append(cs, choice{func(get func(int) lval, cur *State) SV {
							g := get(i)
							return SV{V: g.v, Ty: lvs[i].typ, St: g.st}
						}, &es, lvs[i].name, i, lvs[i].alias})
					}
				}
			case "cnt":
				for i := range lvs {
					i := i
					if !isInt(i) {
						continue
					}
					offs := []int64{0}
					if e, ok := ent(i).v.(VT); ok && e.T == tInt(-1) {
						offs = []int64{1} // hidden index of a range loop
					}
					for _, off := range offs {
						off := off
						cs = append(cs, choice{func(get func(int) lval, cur *State) SV {
							return SV{T: tAdd(get(i).v.(VT).T, tInt(off))}
						}, nil, fmt.Sprintf("%s+%d", lvs[i].name, off), i, lvs[i].alias})
					}
				}
			case "idx":
				for i := range lvs {
					i := i
					if !isInt(i) {
						continue
					}
					cs = append(cs, choice{func(get func(int) lval, cur *State) SV {
						return SV{T: get(i).v.(VT).T}
					}, nil, lvs[i].name, i, lvs[i].alias})
				}
			case "src":
				dedup := map[*Term]bool{}
				for _, s := range scope {
					s := s
					if shortType(s.typ) != mv.typ && shortType(s.typ.Underlying()) != mv.typ {
						continue
					}
					var tt *Term
					func() {
						defer func() { recover() }()
						tt = st.clone().encode(s.v, s.typ)
					}()
					if tt == nil || dedup[tt] {
						continue
					}
					dedup[tt] = true
					cs = append(cs, choice{func(get func(int) lval, cur *State) SV {
						return SV{V: s.v, Ty: s.typ, St: st}
					}, nil, s.name, -1, ""})
				}
			}
			opts = append(opts, cs)
		}
		n := 0
		var rec func(k int, pick []choice)
		rec = func(k int, pick []choice) {
			if n > 400 {
				return
			}
			if k == len(opts) {
				n++
				p := append([]choice{}, pick...)
				var ds []string
				full := true
				for i, c := range p {
					ds = append(ds, t.vars[i].name+"="+c.desc)
					b := strings.TrimPrefix(c.desc, "φ")
					if j := strings.IndexByte(b, '+'); j >= 0 {
						b = b[:j]
					}
					full = full && (b == t.vars[i].name || c.al == t.vars[i].name || len(opts[i]) == 1)
				}
				add(true, strings.Join(ds, ",")+" : "+t.src, func(get func(int) lval, cur *State) *Term {
					env := map[string]SV{}
					for k, v := range x.specEnv {
						env[k] = v
					}
					entm := map[string]SV{}
					for i, c := range p {
						env[t.vars[i].name] = c.get(get, cur)
						if c.ent != nil {
							entm[t.vars[i].name] = *c.ent
						}
					}
					cx := &sctx{x: x, cur: cur, old: x.specOld, env: env, entry: entm}
					return cx.boolean(t.expr)
				})
				out[len(out)-1].tmpl, out[len(out)-1].full = ti+1, full
				return
			}
			for _, c := range opts[k] {
				dup := false
				for _, q := range pick {
					if q.lv >= 0 && q.lv == c.lv && t.vars[k].kind != "cnt" {
						dup = true
					}
				}
				if !dup {
					rec(k+1, append(pick, c))
				}
			}
		}
		rec(0, nil)
	}
	return out
}

// pathName is the name of the last field on a path.
func pathName(t types.Type, path []pel) string {
	n := ""
	for _, p := range path {
		if s, ok := t.Underlying().(*types.Struct); ok && p.idx == nil {
			n = s.Field(p.fld).Name()
		}
		t = pathType(t, []pel{p})
	}
	return n
}

// mapObj reports whether an object holds the entries of a map.
func mapObj(o *Obj) (VT, bool) {
	if _, ok := o.typ.Underlying().(*types.Map); ok {
		t, ok := o.v.(VT)
		return t, ok
	}
	return VT{}, false
}
