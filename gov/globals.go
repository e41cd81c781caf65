package main

// Package-level variables. Variables that are only written by package
// initialisation keep the value computed by executing that initialisation
// symbolically; all others are arbitrary at function entry.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var mutableGlobals = map[*ssa.Global]bool{}
var globalObj = map[*ssa.Global]int{} // in the base state
var baseState *State

// findMutable marks globals that any function other than init writes or leaks.
func findMutable(pkgs []*ssa.Package) {
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				isInit := fn.Synthetic == "package initializer" || strings.HasPrefix(fn.Name(), "init#")
				switch in := in.(type) {
				case *ssa.Store:
					if g := rootGlobal(in.Addr); g != nil && !isInit {
						mutableGlobals[g] = true
					}
				case *ssa.MapUpdate:
					if g := rootGlobal(in.Map); g != nil && !isInit {
						mutableGlobals[g] = true
					}
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy") {
						if g := rootGlobal(in.Call.Args[0]); g != nil && !isInit {
							mutableGlobals[g] = true
						}
						continue
					}
					for _, a := range in.Call.Args {
						if g, ok := a.(*ssa.Global); ok && !isInit { // address passed on
							mutableGlobals[g] = true
						}
						if fa, ok := a.(*ssa.FieldAddr); ok {
							if g := rootGlobal(fa); g != nil {
								mutableGlobals[g] = true
							}
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := p.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
							visit(f)
						}
					}
				}
			}
		}
	}
}
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch w := v.(type) {
		case *ssa.Global:
			return w
		case *ssa.FieldAddr:
			v = w.X
		case *ssa.IndexAddr:
			v = w.X
		case *ssa.UnOp:
			v = w.X
		case *ssa.Slice:
			v = w.X
		default:
			return nil
		}
	}
}

// runInits computes the base state.
func runInits(prog *ssa.Program, sp *Spec, pkgs []*ssa.Package) {
	baseState = newState()
	for _, p := range pkgs {
		x := newExec(prog, sp, "init:"+p.Pkg.Path())
		if os.Getenv("GOV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path())
		}
		x.unroll = true
		x.deadline = time.Now().Add(20 * time.Second)
		for _, name := range []string{"init"} {
			fn := p.Func(name)
			if fn == nil {
				continue
			}
			var res *State
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							if os.Getenv("GOV_DEBUG") != "" {
								fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), u.msg)
							}
							return
						}
						panic(r)
					}
				}()
				x.initOf = p
				st := baseState.clone()
				x.call(fn, nil, nil, st, func(st *State, r []Val) {
					res = st
				})
			}()
			x.sol.close()
			if res != nil {
				baseState = res
				okInit[p] = true
			}
		}
	}
	baseState.pc = nil
	baseState.known = map[*Term]bool{}
}

var okInit = map[*ssa.Package]bool{}

func (x *Exec) globalPtr(g *ssa.Global, st *State) Val {
	key := tSym("global_"+g.String(), sInt)
	if id, ok := st.refs[key]; ok {
		return VPt{Obj: id}
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	if x.initOf != nil && g.Pkg == x.initOf {
		v = st.zero(et)
		if strings.HasPrefix(g.Name(), "init$guard") {
			v = VT{tFalse}
		}
	} else {
		v = st.decode(tSym("globalval_"+g.String(), encSort(et)), et)
		if sv, ok := v.(VT); ok && sv.T.S == "Ifc" {
			st.assume(tLt(tInt(0), mkApp("tagof", sInt, sv.T)))
		}
	}
	id := st.newObj(et, v)
	st.refs[key] = id
	return VPt{Obj: id}
}

// entryState is the state a function under verification starts in.
func entryState() *State {
	st := baseState.clone()
	n := *baseState.nextObj
	st.nextObj = &n
	for g := range mutableGlobals {
		key := tSym("global_"+g.String(), sInt)
		if id, ok := st.refs[key]; ok {
			delete(st.refs, key)
			delete(st.heap, id)
		}
	}
	for g := range mutableGlobals {
		_ = g
	}
	return st
}
