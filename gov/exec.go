package main

// Path-based symbolic execution of go/ssa, in continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Target string `json:"target"`
	Name   string `json:"name"`
	Pos    string `json:"pos,omitempty"`
	Detail string `json:"detail,omitempty"`
	Status string `json:"status"`
	By     string `json:"by,omitempty"`
	SMT    string `json:"-"`
	Pc     string `json:"-"`
	n      int
}

type Exec struct {
	naming            bool // locations are named, not accessed
	prog              *ssa.Program
	sp                *Spec
	sol               *solver
	target            string
	obls              map[string]*Obligation // by name
	order             []string
	trial             int
	noInfer           int
	pos               token.Pos
	spec              *Contract // contract being verified
	specEnv           map[string]SV
	specOld           *State
	inl               map[string]bool // inlined functions
	trust             map[string]bool // trusted contracts used
	callee            map[string]bool // verified contracts relied upon
	assumed           map[string]bool
	escapedCellWrites string
	deadline          time.Time
	steps             int
	depth             int
	returns           int
	reachable         int
	initState         map[*ssa.Package]*State
	globals           map[*ssa.Global]Val
	stack             []*ssa.Function
	abort             string
	simCache          map[string]string
	noBounds          bool
	initOf            *ssa.Package
	hints             []*Term
	caseOf            map[string]string
	ran               map[string]bool
	unroll            bool // package initialisation: loops are executed concretely
	base              *State
	gens              int
	implOf            types.Type // the implementation a contract of an interface method is checked for
	survive           map[string]*survivors
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	loops  []*loopCtx
	ret    func(st *State, res []Val)
	mute   bool // returns suppressed (loop trial)
	parent *Frame
	merges []*mergeCtx
	defers []*ssa.Defer
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+4)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.loops = append([]*loopCtx{}, fr.loops...)
	n.defers = append([]*ssa.Defer{}, fr.defers...)
	return &n
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// oblige records and checks a proof obligation in the current state.
func (x *Exec) oblige(st *State, name, detail string, goal *Term) {
	if x.trial > 0 {
		st.assume(goal)
		return
	}
	if x.noBounds && strings.HasPrefix(name, "bounds") {
		st.assume(goal)
		return
	}
	o := x.obls[name]
	if o == nil {
		o = &Obligation{Target: x.target, Name: name, Status: "discharged"}
		x.obls[name] = o
		x.order = append(x.order, name)
	}
	o.n++
	if o.Status != "discharged" {
		st.assume(goal)
		return
	}
	if st.infeasible() {
		return
	}
	r, by := x.sol.prove(st.pc, goal, false)
	if r != "proved" {
		o.Status = r
		o.Pos = x.posStr(x.pos)
		o.Detail = detail + ": " + goal.pretty()
		base := append(append([]*Term{}, st.pc...), tNot(goal))
		o.SMT = fullScript(expand(base, 4, 4), false)
		var sb strings.Builder
		for _, t := range st.pc {
			sb.WriteString("  " + t.pretty() + "\n")
		}
		o.Pc = sb.String()
		if os.Getenv("GOV_DEBUG") != "" && false {
			fmt.Fprintf(os.Stderr, "FAIL %s %s [%s] at %s\n  goal %s\n pc:\n%s", x.target, name, r, o.Pos, goal.pretty(), o.Pc)
		}
	} else if by != "" && by != "simplifier" {
		o.By = by
	} else if o.By == "" {
		o.By = by
	}
	st.assume(goal)
}

// feasible reports whether cond may hold in st.
func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == tFalse {
		return false
	}
	if cond == tTrue || st.known[cond] {
		return true
	}
	if st.known[tNot(cond)] {
		return false
	}
	var sb strings.Builder
	for _, t := range st.pc {
		fmt.Fprintf(&sb, "%d ", t.id)
	}
	fmt.Fprintf(&sb, "|%d", cond.id)
	k := sb.String()
	if r, ok := x.simCache[k]; ok {
		return r != "unsat"
	}
	base := append(append([]*Term{}, st.pc...), cond)
	var ts []*Term
	tmo := 200
	if x.sol.split {
		// paths are joined again: an impossible one costs little
		ts, tmo = eqSubst(base), 50
	} else {
		ts = expand(base, 1, 1)
	}
	r := ""
	if len(ts) == 1 && ts[0] == tFalse {
		r = "unsat"
	} else {
		r = x.sol.check(ts, tmo)
	}
	x.simCache[k] = r
	return r != "unsat"
}

func (x *Exec) branch(st *State, cond *Term, yes, no func(st *State)) {
	if cond == tTrue || st.known[cond] {
		yes(st)
		return
	}
	if cond == tFalse || st.known[tNot(cond)] {
		no(st)
		return
	}
	fy := x.feasible(st, cond)
	fn := x.feasible(st, tNot(cond))
	if fy && fn {
		s2 := st.clone()
		st.assume(cond)
		st.forks = append(st.forks, cond)
		yes(st)
		s2.assume(tNot(cond))
		s2.forks = append(s2.forks, tNot(cond))
		no(s2)
		return
	}
	if fy {
		st.assume(cond)
		yes(st)
	} else if fn {
		st.assume(tNot(cond))
		no(st)
	}
}

func (x *Exec) tick() {
	x.steps++
	if x.abort != "" {
		panic(unsupported{x.abort})
	}
	if x.steps%256 == 0 && time.Now().After(x.deadline) {
		panic(unsupported{"time limit for this function exceeded"})
	}
}

// call runs fn with args and passes every outcome to ret.
func (x *Exec) call(fn *ssa.Function, free []Val, args []Val, st *State, ret func(st *State, res []Val)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s without a contract", fn)
		}
	}
	if len(x.stack) > 40 {
		unsup("inlining too deep at %s", fn)
	}
	x.stack = append(x.stack, fn)
	saved := x.stack
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	fr.ret = func(st *State, res []Val) {
		s := x.stack
		x.stack = saved[:len(saved)-1]
		ret(st, res)
		x.stack = s
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	x.enter(fr, fn.Blocks[0], nil, st)
	x.stack = saved[:len(saved)-1]
}

// enter transfers control along prev->b.
func (x *Exec) enter(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	x.tick()
	if prev != nil {
		st.trace = (st.trace*1099511628211 ^ uint64(prev.Index*4099+b.Index)) + uint64(len(b.Parent().Name()))
	}
	// leaving loops?
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.info.blocks[b] {
			if b == l.info.header {
				l.onBack(fr, prev, st)
				return
			}
			break
		}
		if l.onExit != nil {
			l.onExit(fr, b, prev, st)
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if x.arrived(fr, b, prev, st) {
		return
	}
	if li := loopsOf(b.Parent())[b]; li != nil && !fr.inLoop(li) && !x.unroll {
		x.runLoop(fr, li, prev, st)
		return
	}
	x.phis(fr, b, prev, st)
	x.instrs(fr, b, x.firstNonPhi(b), st)
}
func (fr *Frame) inLoop(li *loopInfo) bool {
	for _, l := range fr.loops {
		if l.info == li {
			return true
		}
	}
	return false
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}
func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}
func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if prev == nil {
		return
	}
	pi := predIndex(b, prev)
	var vals []Val
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, x.val(fr, p.Edges[pi], st))
	}
	for i, p := range ph {
		fr.env[p] = vals[i]
	}
}

func (x *Exec) constVal(c *ssa.Const, st *State) Val {
	if c.Value == nil {
		return st.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VT{tBool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				unsup("const %s", c)
			}
			return VT{tBig(n)}
		case u.Info()&types.IsString != 0:
			return VT{tLit(constant.StringVal(c.Value))}
		case u.Info()&types.IsFloat != 0:
			return VT{tApp("flt_"+c.Value.ExactString(), th.usort("Flt"))}
		}
	}
	unsup("const %s of type %s", c, c.Type())
	return nil
}

func (x *Exec) val(fr *Frame, v ssa.Value, st *State) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v, st)
	case *ssa.Function:
		return VFn{Fn: v}
	case *ssa.Global:
		return x.globalPtr(v, st)
	case *ssa.Builtin:
		return VFn{}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) term(fr *Frame, v ssa.Value, st *State) *Term {
	return st.encode(x.val(fr, v, st), v.Type())
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		x.tick()
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			x.pos = p
		}
		next := func(st2 *State) { x.instrs(fr, b, i+1, st2) }
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, in.Cond, st).(VT).T
			x.forkMerge(fr, b, len(b.Instrs), st, func(fr *Frame) {
				stack := x.stack
				x.branch(st, c, func(s *State) {
					x.enter(fr.clone(), b.Succs[0], b, s)
				}, func(s *State) {
					x.stack = stack
					x.enter(fr.clone(), b.Succs[1], b, s)
				})
			})
			return
		case *ssa.Jump:
			x.enter(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(fr, r, st))
			}
			for _, l := range fr.loops {
				if l.muteRet {
					return
				}
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			x.panics(fr, st)
			return
		case *ssa.RunDefers:
			if len(fr.defers) > 0 {
				unsup("defer in %s", fr.fn)
			}
		case *ssa.Defer:
			unsup("defer in %s", fr.fn)
		case *ssa.Store:
			p, ok := x.ptr(fr, in.Addr, st)
			if !ok {
				return
			}
			x.store(st, p, x.val(fr, in.Val, st))
		case *ssa.MapUpdate:
			x.mapUpdate(fr, in, st)
		case *ssa.Call:
			x.doCall(fr, &in.Call, in, st, func(s *State, v Val) {
				f2 := fr.clone()
				f2.env[in] = v
				x.instrs(f2, b, i+1, s)
			})
			return
		case *ssa.TypeAssert:
			x.forkMerge(fr, b, i, st, func(fr *Frame) {
				stack := x.stack
				x.typeAssert(fr, in, st, func(s *State, v Val) {
					x.stack = stack
					f2 := fr.clone()
					f2.env[in] = v
					x.instrs(f2, b, i+1, s)
				})
			})
			return
		case *ssa.Next:
			x.nextInstr(fr, in, st, func(s *State, v Val) {
				f2 := fr.clone()
				f2.env[in] = v
				x.instrs(f2, b, i+1, s)
			})
			return
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency instruction in %s", fr.fn)
		case ssa.Value:
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				// loads may need a nil check
				p, ok := x.ptr(fr, u.X, st)
				if !ok {
					return
				}
				fr.env[u] = x.loadVal(st, p)
				continue
			}
			fr.env[in] = x.eval(fr, in, st)
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
		_ = next
	}
}

func (x *Exec) loadVal(st *State, p VPt) Val {
	if st.heap[p.Obj] == nil {
		unsup("load of unknown object")
	}
	v := st.load(p)
	for _, e := range p.Path {
		if e.idx != nil {
			t := pathType(st.heap[p.Obj].typ, p.Path)
			return st.own(v, t, p)
		}
	}
	return v
}

// ptr resolves an address operand to a concrete location.
func (x *Exec) ptr(fr *Frame, v ssa.Value, st *State) (VPt, bool) {
	return x.ptrVal(x.val(fr, v, st), v.Type(), st)
}
func (x *Exec) ptrVal(pv Val, typ types.Type, st *State) (VPt, bool) {
	switch p := pv.(type) {
	case VPt:
		return p, true
	case VT:
		if p.T.Op == "int" && p.T.N.Sign() == 0 {
			x.oblige(st, "no-nil-dereference", "nil dereference", tFalse)
			return VPt{}, false
		}
		et := typ.Underlying().(*types.Pointer).Elem()
		for p.T.Op == "ite" && st.refs[p.T] == 0 {
			// a lookup that may have missed: the nil alternative cannot be dereferenced
			isnil := func(t *Term) bool { return t.Op == "int" && t.N.Sign() == 0 }
			c, a, b := p.T.A[0], p.T.A[1], p.T.A[2]
			switch {
			case st.known[c]:
				p = VT{a}
				continue
			case st.known[tNot(c)]:
				p = VT{b}
				continue
			case isnil(a) || isnil(b):
				nz := tNot(tEq(p.T, tInt(0)))
				if x.sp.checkNil(x) {
					x.oblige(st, "no-nil-dereference", "possibly nil pointer", nz)
				}
				st.assume(nz)
				if !x.sp.checkNil(x) {
					x.assumed["pointers reachable from parameters are non-nil where dereferenced"] = true
				}
				if isnil(a) {
					st.assume(tNot(c))
					p = VT{b}
				} else {
					st.assume(c)
					p = VT{a}
				}
				continue
			}
			unsup("conditional pointer")
		}
		if p.T.Op == "int" && p.T.N.Sign() == 0 {
			x.oblige(st, "no-nil-dereference", "nil dereference", tFalse)
			return VPt{}, false
		}
		if _, ok := st.refs[p.T]; !ok && !x.naming {
			nz := tNot(tEq(p.T, tInt(0)))
			if x.sp.checkNil(x) {
				x.oblige(st, "no-nil-dereference", "possibly nil pointer", nz)
			} else {
				st.assume(nz)
				x.assumed["pointers reachable from parameters are non-nil where dereferenced"] = true
			}
		}
		id := st.materialise(p.T, et)
		return VPt{Obj: id}, true
	}
	unsup("pointer value %T", pv)
	return VPt{}, false
}

func (x *Exec) eval(fr *Frame, v ssa.Value, st *State) Val {
	switch in := v.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		return VPt{Obj: st.newObj(et, st.zero(et))}
	case *ssa.BinOp:
		return x.binop(fr, in, st)
	case *ssa.UnOp:
		return x.unop(fr, in, st)
	case *ssa.ChangeType:
		return x.val(fr, in.X, st)
	case *ssa.ChangeInterface:
		return x.val(fr, in.X, st)
	case *ssa.Convert:
		return x.convert(st, x.val(fr, in.X, st), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		return VIf{Typ: in.X.Type(), V: x.val(fr, in.X, st)}
	case *ssa.FieldAddr:
		p, ok := x.ptr(fr, in.X, st)
		if !ok {
			unsup("field of nil")
		}
		return VPt{p.Obj, append(append([]pel{}, p.Path...), pel{fld: in.Field})}
	case *ssa.Field:
		s, ok := x.val(fr, in.X, st).(VSt)
		if !ok {
			unsup("field of %T", x.val(fr, in.X, st))
		}
		return s.F[in.Field]
	case *ssa.IndexAddr:
		idx := x.val(fr, in.Index, st).(VT).T
		switch b := x.val(fr, in.X, st).(type) {
		case VSl:
			x.oblige(st, "bounds:"+fr.fn.Name(), "index within slice", tAnd(tLe(tInt(0), idx), tLt(idx, b.Len)))
			if b.Obj == 0 {
				unsup("index of nil slice")
			}
			return VPt{b.Obj, []pel{{idx: tAdd(b.Off, idx)}}}
		default:
			p, ok := x.ptr(fr, in.X, st)
			if !ok {
				unsup("index of nil")
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.oblige(st, "bounds:"+fr.fn.Name(), "index within array", tAnd(tLe(tInt(0), idx), tLt(idx, tInt(n))))
			return VPt{p.Obj, append(append([]pel{}, p.Path...), pel{idx: idx})}
		}
	case *ssa.Index:
		idx := x.val(fr, in.Index, st).(VT).T
		switch a := x.val(fr, in.X, st).(type) {
		case VAr:
			x.oblige(st, "bounds:"+fr.fn.Name(), "index within array", tAnd(tLe(tInt(0), idx), tLt(idx, tLen(a.T))))
			return st.decode(tNth(a.T, idx), in.Type())
		case VT:
			x.oblige(st, "bounds:"+fr.fn.Name(), "index within string", tAnd(tLe(tInt(0), idx), tLt(idx, tLen(a.T))))
			return st.decode(tNth(a.T, idx), in.Type())
		}
	case *ssa.Slice:
		return x.slice(fr, in, st)
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len, st).(VT).T
		et := in.Type().Underlying().(*types.Slice).Elem()
		x.oblige(st, "makeslice:"+fr.fn.Name(), "non-negative length", tLe(tInt(0), n))
		s := seqOf(encSort(et))
		var c *Term
		if n.Op == "int" && n.N.IsInt64() && n.N.Int64() <= 32 {
			var us []*Term
			for i := int64(0); i < n.N.Int64(); i++ {
				us = append(us, tUnit(zeroTerm(et)))
			}
			c = tCat(s, us...)
		} else {
			c = tZeros(s, zeroTerm(et), n)
		}
		id := st.newObj(types.NewArray(et, -1), VAr{c})
		return VSl{Nil: tFalse, Off: tInt(0), Len: n, Obj: id}
	case *ssa.MakeMap:
		z := zeroTerm(in.Type())
		t := tMk(z.S, tFalse, z.A[1], z.A[2], z.A[3])
		return VMp{Nil: tFalse, Obj: st.newObj(in.Type(), VT{t})}
	case *ssa.MakeClosure:
		var fv []Val
		for _, b := range in.Bindings {
			fv = append(fv, x.val(fr, b, st))
		}
		return VFn{Fn: in.Fn.(*ssa.Function), Free: fv}
	case *ssa.Extract:
		return x.val(fr, in.Tuple, st).(VTu).E[in.Index]
	case *ssa.Lookup:
		return x.lookup(fr, in, st)
	case *ssa.Range:
		return x.rangeInstr(fr, in, st)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.MakeChan:
		unsup("%T", v)
	}
	unsup("value %T in %s", v, fr.fn)
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func wrapTo(t *Term, typ types.Type) *Term {
	lo, hi, _ := intRange(typ)
	if t.Op == "int" {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		v := new(big.Int).Sub(t.N, lo)
		v.Mod(v, m)
		v.Add(v, lo)
		return tBig(v)
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	return tAdd(tMod(tSub(t, tBig(lo)), tBig(m)), tBig(lo))
}

func (x *Exec) eqVals(st *State, a, b Val, ta, tb types.Type) *Term {
	// interface against nil / concrete
	if ia, ok := a.(VIf); ok {
		if ib, ok := b.(VIf); ok {
			if ia.Typ == nil || ib.Typ == nil {
				return tBool(ia.Typ == nil && ib.Typ == nil)
			}
			if !types.Identical(ia.Typ, ib.Typ) {
				return tFalse
			}
			return x.eqVals(st, ia.V, ib.V, ia.Typ, ib.Typ)
		}
	}
	isNilIf := func(v Val) bool { i, ok := v.(VIf); return ok && i.Typ == nil }
	if isNilIf(b) || isNilIf(a) {
		o := a
		if isNilIf(a) {
			o = b
		}
		if t, ok := o.(VT); ok {
			return tEq(mkApp("tagof", sInt, t.T), tInt(0))
		}
	}
	switch ta.Underlying().(type) {
	case *types.Slice:
		sa, oka := a.(VSl)
		sb, okb := b.(VSl)
		if oka && okb {
			if sb.Obj == 0 && sb.Nil == tTrue {
				return sa.Nil
			}
			if sa.Obj == 0 && sa.Nil == tTrue {
				return sb.Nil
			}
		}
	case *types.Map:
		ma, oka := a.(VMp)
		mb, okb := b.(VMp)
		if oka && okb {
			if mb.Obj == 0 {
				return ma.Nil
			}
			if ma.Obj == 0 {
				return mb.Nil
			}
		}
	case *types.Pointer:
		pa, oka := a.(VPt)
		pb, okb := b.(VPt)
		if oka && okb {
			if pa.Obj != pb.Obj {
				return tFalse
			}
			if len(pa.Path) == 0 && len(pb.Path) == 0 {
				return tTrue
			}
		}
		if oka || okb {
			o := b
			if okb {
				o = a
			}
			if t, ok := o.(VT); ok && t.T.Op == "int" && t.T.N.Sign() == 0 {
				return tFalse
			}
		}
	case *types.Signature:
		fa, oka := a.(VFn)
		if oka && fa.Fn != nil {
			if t, ok := b.(VT); ok && strings.HasPrefix(t.T.Name, "zero_") {
				return tFalse
			}
		}
		if t, ok := a.(VT); ok {
			if t2, ok := b.(VT); ok && strings.HasPrefix(t2.T.Name, "zero_") {
				return tEq(t.T, t2.T)
			}
		}
	case *types.Basic:
		if isFloat(ta) {
			ea, eb := st.encode(a, ta), st.encode(b, tb)
			if ea == eb && strings.HasPrefix(ea.Name, "flt_") {
				return tTrue
			}
			return tApp("feq", sBool, ea, eb)
		}
	}
	return tEq(st.encode(a, ta), st.encode(b, tb))
}

func (x *Exec) binop(fr *Frame, in *ssa.BinOp, st *State) Val {
	a, b := x.val(fr, in.X, st), x.val(fr, in.Y, st)
	ty := in.X.Type()
	switch in.Op {
	case token.EQL:
		return VT{x.eqVals(st, a, b, in.X.Type(), in.Y.Type())}
	case token.NEQ:
		return VT{tNot(x.eqVals(st, a, b, in.X.Type(), in.Y.Type()))}
	}
	ta, tb := a.(VT).T, b.(VT).T
	if isString(ty) {
		switch in.Op {
		case token.ADD:
			return VT{tCat(sBytes, ta, tb)}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return VT{tApp("str"+in.Op.String(), sBool, ta, tb)}
		}
	}
	if isFloat(ty) {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return VT{tApp("f"+in.Op.String(), ta.S, ta, tb)}
		default:
			return VT{tApp("f"+in.Op.String(), sBool, ta, tb)}
		}
	}
	if ta.S == sBool {
		switch in.Op {
		case token.AND:
			return VT{tAnd(ta, tb)}
		case token.OR:
			return VT{tOr(ta, tb)}
		}
	}
	if isInteger(ty) {
		bits, signed := intBits(in.X.Type().Underlying().(*types.Basic))
		wrap := func(t *Term) *Term {
			if t.Op == "int" || (bits < 64) {
				if t.Op != "int" {
					// avoid a modulo when the operands make overflow impossible
					lo, hi, _ := intRange(ty)
					if x.quick(st, tAnd(tLe(tBig(lo), t), tLe(t, tBig(hi)))) {
						return t
					}
				}
				return wrapTo(t, ty)
			}
			if !signed {
				lo, _, _ := intRange(ty)
				if in.Op == token.SUB && !x.quick(st, tLe(tBig(lo), t)) {
					return wrapTo(t, ty)
				}
			}
			return t // 64-bit arithmetic is treated as mathematical
		}
		switch in.Op {
		case token.ADD:
			return VT{wrap(tAdd(ta, tb))}
		case token.SUB:
			return VT{wrap(tSub(ta, tb))}
		case token.MUL:
			return VT{wrap(tMul(ta, tb))}
		case token.LSS:
			return VT{tLt(ta, tb)}
		case token.LEQ:
			return VT{tLe(ta, tb)}
		case token.GTR:
			return VT{tLt(tb, ta)}
		case token.GEQ:
			return VT{tLe(tb, ta)}
		case token.QUO:
			x.oblige(st, "divide:"+fr.fn.Name(), "non-zero divisor", tNot(tEq(tb, tInt(0))))
			if tb.Op == "int" && tb.N.Sign() > 0 {
				// truncated division
				return VT{tIte(tLe(tInt(0), ta), tDiv(ta, tb), tMulC(big.NewInt(-1), tDiv(tMulC(big.NewInt(-1), ta), tb)))}
			}
			return VT{tApp("quo", sInt, ta, tb)}
		case token.REM:
			x.oblige(st, "divide:"+fr.fn.Name(), "non-zero divisor", tNot(tEq(tb, tInt(0))))
			if tb.Op == "int" && tb.N.Sign() > 0 {
				return VT{tIte(tLe(tInt(0), ta), tMod(ta, tb), tMulC(big.NewInt(-1), tMod(tMulC(big.NewInt(-1), ta), tb)))}
			}
			return VT{tApp("rem", sInt, ta, tb)}
		case token.SHL:
			if tb.Op == "int" && tb.N.IsInt64() && tb.N.Int64() < 64 {
				return VT{wrap(tMulC(new(big.Int).Lsh(big.NewInt(1), uint(tb.N.Int64())), ta))}
			}
		case token.SHR:
			if tb.Op == "int" && tb.N.IsInt64() && tb.N.Int64() < 64 {
				return VT{tDiv(ta, tBig(new(big.Int).Lsh(big.NewInt(1), uint(tb.N.Int64()))))}
			}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return VT{x.bitop(in.Op, ta, tb, bits, signed)}
		}
		r := tApp("int"+in.Op.String(), sInt, ta, tb)
		lo, hi, _ := intRange(ty)
		st.assume(tAnd(tLe(tBig(lo), r), tLe(r, tBig(hi))))
		return VT{r}
	}
	unsup("binop %s on %s", in.Op, ty)
	return nil
}

// quick proves without escalation.
func (x *Exec) quick(st *State, g *Term) bool {
	if g == tTrue {
		return true
	}
	r, _ := x.sol.prove(st.pc, g, true)
	return r == "proved"
}

func (x *Exec) bitop(op token.Token, a, b *Term, bits int, signed bool) *Term {
	if a.Op == "int" && b.Op != "int" && op != token.AND_NOT {
		a, b = b, a
	}
	if a.Op == "int" && b.Op == "int" {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.N, b.N)
		case token.OR:
			r.Or(a.N, b.N)
		case token.XOR:
			r.Xor(a.N, b.N)
		case token.AND_NOT:
			r.AndNot(a.N, b.N)
		}
		return tBig(r)
	}
	if b.Op == "int" && b.N.Sign() >= 0 {
		// single bit and low masks
		if op == token.AND {
			m := new(big.Int).Add(b.N, big.NewInt(1))
			if new(big.Int).And(m, b.N).Sign() == 0 { // 2^k-1
				return tMod(a, tBig(m))
			}
		}
		if b.N.Sign() > 0 && new(big.Int).And(b.N, new(big.Int).Sub(b.N, big.NewInt(1))).Sign() == 0 {
			bit := tMod(tDiv(a, tBig(b.N)), tInt(2))
			set := tEq(bit, tInt(1))
			switch op {
			case token.AND:
				return tMulC(b.N, bit)
			case token.OR:
				return tIte(set, a, tAdd(a, tBig(b.N)))
			case token.XOR:
				return tIte(set, tSub(a, tBig(b.N)), tAdd(a, tBig(b.N)))
			case token.AND_NOT:
				return tIte(set, tSub(a, tBig(b.N)), a)
			}
		}
	}
	return tApp("bit"+op.String(), sInt, a, b)
}

func (x *Exec) unop(fr *Frame, in *ssa.UnOp, st *State) Val {
	a := x.val(fr, in.X, st)
	switch in.Op {
	case token.NOT:
		return VT{tNot(a.(VT).T)}
	case token.SUB:
		if isFloat(in.Type()) {
			return VT{tApp("fneg", a.(VT).T.S, a.(VT).T)}
		}
		return VT{wrapIf(tMulC(big.NewInt(-1), a.(VT).T), in.Type())}
	case token.XOR:
		return VT{wrapIf(tSub(tInt(-1), a.(VT).T), in.Type())}
	}
	unsup("unop %s", in.Op)
	return nil
}
func wrapIf(t *Term, typ types.Type) *Term {
	b := typ.Underlying().(*types.Basic)
	bits, signed := intBits(b)
	if bits == 64 && signed {
		return t
	}
	return wrapTo(t, typ)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			t := v.(VT).T
			switch {
			case isInteger(fb) && isInteger(tb):
				flo, fhi, _ := intRange(fb)
				tlo, thi, _ := intRange(tb)
				if t.Op == "int" {
					return VT{wrapTo(t, tb)}
				}
				if tlo.Cmp(flo) <= 0 && thi.Cmp(fhi) >= 0 {
					return VT{t}
				}
				if x.quick(st, tAnd(tLe(tBig(tlo), t), tLe(t, tBig(thi)))) {
					return VT{t}
				}
				return VT{wrapTo(t, tb)}
			case isString(fb) && isString(tb):
				return v
			case isInteger(fb) && isString(tb):
				return VT{x.utf8enc(st, t)}
			case isFloat(fb) && isFloat(tb):
				if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 {
					return v // widening is exact
				}
				if t.Op == "app" && t.Name == "flt_0" { // small constants are exact
					return VT{t}
				}
				return VT{tApp("f64to32", t.S, t)}
			case isInteger(fb) && isFloat(tb):
				n := "i2f64"
				if tb.Kind() == types.Float32 {
					n = "i2f32"
				}
				return VT{tApp(n, th.usort("Flt"), t)}
			case isFloat(fb) && isInteger(tb):
				r := tApp("f2i_"+tb.Name(), sInt, t)
				return st.decode(r, to)
			}
		}
		if ts, ok := tu.(*types.Slice); ok && isString(fb) {
			t := v.(VT).T
			if encSort(ts.Elem()) == sInt {
				eb := ts.Elem().Underlying().(*types.Basic)
				c := t
				if eb.Kind() == types.Int32 {
					c = tApp("runes", sBytes, t)
				}
				id := st.newObj(types.NewArray(ts.Elem(), -1), VAr{c})
				return VSl{Nil: tFalse, Off: tInt(0), Len: tLen(c), Obj: id}
			}
		}
	}
	if fs, ok := fu.(*types.Slice); ok && isString(to) {
		s := v.(VSl)
		d := st.sliceData(s, sBytes)
		if fs.Elem().Underlying().(*types.Basic).Kind() == types.Int32 {
			return VT{tApp("runestr", sBytes, d)}
		}
		return VT{d}
	}
	if types.Identical(fu, tu) {
		return v
	}
	if _, ok := fu.(*types.Slice); ok {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

// utf8enc is the UTF-8 text of a code point; ASCII is exact.
func (x *Exec) utf8enc(st *State, t *Term) *Term {
	if t.Op == "int" && t.N.IsInt64() {
		return tLit(string(rune(t.N.Int64())))
	}
	r := tApp("utf8enc", sBytes, t)
	st.assume(tImp(tAnd(tLe(tInt(0), t), tLt(t, tInt(128))), tEq(r, tUnit(t))))
	return r
}

func (x *Exec) slice(fr *Frame, in *ssa.Slice, st *State) Val {
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.val(fr, v, st).(VT).T
	}
	if in.Max != nil {
		unsup("3-index slice")
	}
	switch b := x.val(fr, in.X, st).(type) {
	case VT: // string
		lo := get(in.Low, tInt(0))
		hi := get(in.High, tLen(b.T))
		x.oblige(st, "bounds:"+fr.fn.Name(), "slice bounds", tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tLen(b.T))))
		return VT{tExt(b.T, lo, tSub(hi, lo))}
	case VSl:
		lo := get(in.Low, tInt(0))
		hi := get(in.High, b.Len)
		x.oblige(st, "bounds:"+fr.fn.Name(), "slice bounds", tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, b.Len)))
		return VSl{Nil: b.Nil, Off: tAdd(b.Off, lo), Len: tSub(hi, lo), Obj: b.Obj}
	case VPt:
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		lo := get(in.Low, tInt(0))
		hi := get(in.High, tInt(n))
		x.oblige(st, "bounds:"+fr.fn.Name(), "slice bounds", tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tInt(n))))
		obj := b.Obj
		if len(b.Path) > 0 {
			// slice of an array inside another object: read-only copy
			a := st.load(b).(VAr)
			obj = st.newObj(in.X.Type().Underlying().(*types.Pointer).Elem(), a)
			st.freeze(obj)
		}
		return VSl{Nil: tFalse, Off: lo, Len: tSub(hi, lo), Obj: obj}
	}
	unsup("slice of %T", x.val(fr, in.X, st))
	return nil
}

// appendTo implements append(s, t...).
func (x *Exec) appendTo(st *State, s VSl, data *Term, et types.Type) VSl {
	sort := seqOf(encSort(et))
	var old *Term
	if s.Obj == 0 {
		old = tEmpty(sort)
	} else {
		old = st.sliceData(s, sort)
		c := st.heap[s.Obj].v.(VAr).T
		bad := map[int]bool{}
		if end := tAdd(s.Off, s.Len); end != tLen(c) && !x.quick(st, tEq(end, tLen(c))) {
			bad[s.Obj] = true
		}
		anc, desc := st.related(s.Obj)
		for d := range desc {
			// descendants that are plain loop aliases share only the prefix
			if !anc[d] {
				bad[d] = true
			}
		}
		if len(bad) > 0 && tLen(data) != tInt(0) {
			x.clobber(st, bad, "append over shared backing array")
		}
	}
	par := []int{}
	if s.Obj != 0 {
		par = append(par, s.Obj)
	}
	c := tCat(sort, old, data)
	id := st.newObj(types.NewArray(et, -1), VAr{c}, par...)
	nl := tAnd(s.Nil, tEq(tLen(data), tInt(0)))
	return VSl{Nil: nl, Off: tInt(0), Len: tLen(c), Obj: id}
}

func (x *Exec) typeAssert(fr *Frame, in *ssa.TypeAssert, st *State, k func(*State, Val)) {
	v := x.val(fr, in.X, st)
	T := in.AssertedType
	done := func(s *State, ok bool, val Val) {
		if in.CommaOk {
			if !ok {
				val = s.zero(T)
			}
			k(s, VTu{[]Val{val, VT{tBool(ok)}}})
			return
		}
		if !ok {
			x.oblige(s, "no-panic:"+fr.fn.Name(), "type assertion", tFalse)
			return
		}
		k(s, val)
	}
	_, isI := T.Underlying().(*types.Interface)
	switch i := v.(type) {
	case VIf:
		if i.Typ == nil {
			done(st, false, nil)
			return
		}
		if isI {
			ok := types.Implements(i.Typ, T.Underlying().(*types.Interface))
			done(st, ok, i)
			return
		}
		if types.Identical(i.Typ, T) {
			done(st, true, i.V)
		} else {
			done(st, false, nil)
		}
		return
	case VT:
		tag := mkApp("tagof", sInt, i.T)
		if isI {
			c := tAnd(tNot(tEq(tag, tInt(0))), tApp("impl_"+fullKey(T), sBool, tag))
			if T.Underlying().(*types.Interface).NumMethods() == 0 {
				c = tNot(tEq(tag, tInt(0)))
			}
			x.branch(st, c, func(s *State) { done(s, true, v) }, func(s *State) { done(s, false, nil) })
			return
		}
		key := fullKey(T)
		c := tEq(tag, tInt(tagID(key)))
		x.branch(st, c, func(s *State) {
			u := mkApp("unbox_"+key, encSort(T), i.T)
			s.assume(tEq(mkApp("box_"+key, i.T.S, u), i.T))
			done(s, true, s.decode(u, T))
		}, func(s *State) { done(s, false, nil) })
		return
	}
	unsup("type assertion on %T", v)
}

// ---- maps

func (x *Exec) mapTerm(st *State, m VMp, typ types.Type) *Term {
	if m.Obj == 0 {
		return zeroTerm(typ)
	}
	return st.heap[m.Obj].v.(VT).T
}
func (x *Exec) asMap(v Val, typ types.Type, st *State) VMp {
	switch m := v.(type) {
	case VMp:
		return m
	case VT:
		return st.decode(m.T, typ).(VMp)
	}
	unsup("map value %T", v)
	return VMp{}
}
func (x *Exec) lookup(fr *Frame, in *ssa.Lookup, st *State) Val {
	if isString(in.X.Type()) {
		s := x.val(fr, in.X, st).(VT).T
		idx := x.val(fr, in.Index, st).(VT).T
		x.oblige(st, "bounds:"+fr.fn.Name(), "index within string", tAnd(tLe(tInt(0), idx), tLt(idx, tLen(s))))
		return st.decode(tNth(s, idx), in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := x.asMap(x.val(fr, in.X, st), in.X.Type(), st)
	t := x.mapTerm(st, m, in.X.Type())
	k := x.term(fr, in.Index, st)
	dom := tSelect(tSel(t, "dom"), k, sBool)
	raw := tSelect(tSel(t, "val"), k, encSort(mt.Elem()))
	v := tIte(dom, raw, zeroTerm(mt.Elem()))
	if in.CommaOk {
		return VTu{[]Val{st.decode(v, mt.Elem()), VT{dom}}}
	}
	return st.decode(v, mt.Elem())
}
func (x *Exec) mapUpdate(fr *Frame, in *ssa.MapUpdate, st *State) {
	mt := in.Map.Type().Underlying().(*types.Map)
	m := x.asMap(x.val(fr, in.Map, st), in.Map.Type(), st)
	x.oblige(st, "no-nil-map-write:"+fr.fn.Name(), "assignment to entry in nil map", tNot(m.Nil))
	if m.Obj == 0 {
		unsup("write to nil map")
	}
	t := x.mapTerm(st, m, in.Map.Type())
	k := x.term(fr, in.Key, st)
	v := st.encode(x.val(fr, in.Value, st), mt.Elem())
	dom := tSel(t, "dom")
	keys := tSel(t, "keys")
	has := tSelect(dom, k, sBool)
	nk := tIte(has, keys, tCat(keys.S, keys, tUnit(k)))
	nt := tMk(t.S, tFalse, tStore(dom, k, tTrue), tStore(tSel(t, "val"), k, v), nk)
	st.note(VPt{Obj: m.Obj})
	st.setObj(m.Obj, VT{nt})
}
func (x *Exec) rangeInstr(fr *Frame, in *ssa.Range, st *State) Val {
	pos := st.newObj(types.Typ[types.Int], VT{tInt(0)})
	if isString(in.X.Type()) {
		return VIt{Obj: pos, Keys: x.val(fr, in.X, st).(VT).T}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := x.asMap(x.val(fr, in.X, st), in.X.Type(), st)
	t := x.mapTerm(st, m, in.X.Type())
	x.assumed["map iteration visits each key of the map exactly once in some order (the ghost key sequence of the map)"] = true
	return VIt{Obj: pos, Keys: tSel(t, "keys"), Map: t, KT: mt.Key(), VTy: mt.Elem()}
}
func (x *Exec) nextInstr(fr *Frame, in *ssa.Next, st *State, k func(*State, Val)) {
	it := x.val(fr, in.Iter, st).(VIt)
	pos := st.heap[it.Obj].v.(VT).T
	c := tLt(pos, tLen(it.Keys))
	x.branch(st, c, func(s *State) {
		if it.Map == nil {
			b := tNth(it.Keys, pos)
			s.assume(tAnd(tLe(tInt(0), b), tLe(b, tInt(255))))
			x.branch(s, tLt(b, tInt(128)), func(s *State) {
				s.note(VPt{Obj: it.Obj})
				s.setObj(it.Obj, VT{tAdd(pos, tInt(1))})
				k(s, VTu{[]Val{VT{tTrue}, VT{pos}, VT{b}}})
			}, func(s *State) {
				w := tApp("runew", sInt, it.Keys, pos)
				r := tApp("runeat", sInt, it.Keys, pos)
				s.assume(tAnd(tLe(tInt(1), w), tLe(w, tInt(4)), tLe(tAdd(pos, w), tLen(it.Keys))))
				s.assume(tAnd(tLe(tInt(128), r), tLe(r, tInt(0x10ffff))))
				s.note(VPt{Obj: it.Obj})
				s.setObj(it.Obj, VT{tAdd(pos, w)})
				k(s, VTu{[]Val{VT{tTrue}, VT{pos}, VT{r}}})
			})
			return
		}
		key := tNth(it.Keys, pos)
		s.assume(tSelect(tSel(it.Map, "dom"), key, sBool))
		s.note(VPt{Obj: it.Obj})
		s.setObj(it.Obj, VT{tAdd(pos, tInt(1))})
		v := tSelect(tSel(it.Map, "val"), key, encSort(it.VTy))
		k(s, VTu{[]Val{VT{tTrue}, s.decode(key, it.KT), s.decode(v, it.VTy)}})
	}, func(s *State) {
		if it.Map == nil {
			k(s, VTu{[]Val{VT{tFalse}, VT{tInt(0)}, VT{tInt(0)}}})
			return
		}
		k(s, VTu{[]Val{VT{tFalse}, s.zero(it.KT), s.zero(it.VTy)}})
	})
}

func newExec(prog *ssa.Program, sp *Spec, target string) *Exec {
	return &Exec{prog: prog, sp: sp, sol: newSolver(), target: target, obls: map[string]*Obligation{},
		inl: map[string]bool{}, trust: map[string]bool{}, callee: map[string]bool{}, assumed: map[string]bool{},
		simCache: map[string]string{}, ran: map[string]bool{}, deadline: time.Now().Add(time.Hour)}
}

// mayPanic is the condition under which the function under contract may panic.
func (x *Exec) mayPanic() *Term {
	g := tFalse
	if x.spec != nil && x.specOld != nil {
		for _, c := range x.spec.Panics {
			cx := &sctx{x: x, cur: x.specOld.clone(), old: x.specOld, env: x.specEnv}
			g = tOr(g, cx.boolean(c.expr))
		}
	}
	return g
}
func (x *Exec) panics(fr *Frame, st *State) {
	x.oblige(st, "no-panic:"+fr.fn.Name(), "explicit panic reachable", x.mayPanic())
}
