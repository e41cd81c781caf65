package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// fnKey names a function the way contracts do: pkg.Func or pkg.Type.Method.
func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		return recvKey(t) + "." + fn.Name()
	}
	if fn.Pkg != nil {
		return shortPkg(fn.Pkg.Pkg) + "." + fn.Name()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return shortPkg(fn.Object().Pkg()) + "." + fn.Name()
	}
	return fn.String()
}
func shortPkg(p *types.Package) string {
	s := p.Path()
	if strings.HasPrefix(s, "github.com/frk/gosql") {
		if i := strings.LastIndexByte(s, '/'); i >= 0 && s != "github.com/frk/gosql" {
			return s[i+1:]
		}
		return "gosql"
	}
	if strings.HasPrefix(s, "github.com/frk/ast/") {
		switch s[len("github.com/frk/ast/"):] {
		case "sqlang":
			return "SQL"
		case "golang":
			return "GO"
		}
	}
	if strings.HasPrefix(s, "github.com/frk/") {
		return s[len("github.com/frk/"):]
	}
	return s
}
func recvKey(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return t.String()
}

func inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		return strings.HasPrefix(p, "github.com/frk/gosql") || strings.HasPrefix(p, "fixture/")
	}
	if o := fn.Origin(); o != nil && o != fn {
		return inRepo(o)
	}
	if p := fn.Parent(); p != nil {
		return inRepo(p)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), "github.com/frk/gosql") || strings.HasPrefix(fn.Object().Pkg().Path(), "fixture/")
	}
	return false
}

func (x *Exec) doCall(fr *Frame, c *ssa.CallCommon, in *ssa.Call, st *State, k func(*State, Val)) {
	pack := func(s *State, res []Val) {
		switch len(res) {
		case 0:
			k(s, VTu{})
		case 1:
			k(s, res[0])
		default:
			k(s, VTu{res})
		}
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a, st))
	}
	if c.IsInvoke() {
		recv := x.val(fr, c.Value, st)
		x.invoke(recv, c.Value.Type(), c.Method, args, st, pack)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		k2 := func(v Val) { k(st, v) }
		x.builtin(fr, b.Name(), c, args, st, in, k, k2)
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		var free []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, bnd := range mc.Bindings {
				free = append(free, x.val(fr, bnd, st))
			}
		}
		x.callFn(fn, free, args, st, pack)
		return
	}
	switch f := x.val(fr, c.Value, st).(type) {
	case VFn:
		x.callFn(f.Fn, f.Free, args, st, pack)
		return
	case VT:
		sig := c.Value.Type().Underlying().(*types.Signature)
		key := "func " + f.T.Name
		if ct := x.sp.find("funcval " + baseSym(f.T)); ct != nil {
			x.apply(ct, sig, args, st, pack)
			return
		}
		// contract by function type
		if n, ok := c.Value.Type().(*types.Named); ok {
			if ct := x.sp.find("functype " + recvKey(n)); ct != nil {
				x.apply(ct, sig, append([]Val{f}, args...), st, pack)
				return
			}
		}
		if ct := x.sp.find("functype " + sig.String()); ct != nil {
			x.apply(ct, sig, append([]Val{f}, args...), st, pack)
			return
		}
		unsup("call of unknown function value %s of type %q", key, sig.String())
	}
	unsup("dynamic call")
}

func baseSym(t *Term) string {
	s := t.Name
	if i := strings.IndexByte(s, '!'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (x *Exec) invoke(recv Val, ityp types.Type, m *types.Func, args []Val, st *State, pack func(*State, []Val)) {
	if vi, ok := recv.(VIf); ok {
		if vi.Typ == nil {
			x.oblige(st, "no-nil-dereference", "method call on nil interface", tFalse)
			return
		}
		fn := x.prog.LookupMethod(vi.Typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %s", m.Name(), vi.Typ)
		}
		x.callFn(fn, nil, append([]Val{vi.V}, args...), st, pack)
		return
	}
	key := "iface " + recvKey(ityp) + "." + m.Name()
	if recvKey(ityp) == ityp.String() || m.Name() == "Error" {
		key = "iface " + m.Name()
	}
	if ct := x.sp.find(key); ct != nil {
		x.apply(ct, m.Type().(*types.Signature), append([]Val{recv}, args...), st, pack)
		return
	}
	// interface embedding: try the interface that declares the method
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		if ct := x.sp.find("iface " + recvKey(r.Type()) + "." + m.Name()); ct != nil {
			x.apply(ct, m.Type().(*types.Signature), append([]Val{recv}, args...), st, pack)
			return
		}
	}
	if ct := x.sp.find(strings.TrimPrefix(key, "iface ")); ct != nil && ct.Kind == "func" {
		x.apply(ct, m.Type().(*types.Signature), append([]Val{recv}, args...), st, pack)
		return
	}
	if v, ok := recv.(VT); ok && v.T.S == "Ifc" {
		if ts, closed := x.implementers(ityp); closed {
			// only types of this program implement it: one path for each
			tag := mkApp("tagof", sInt, v.T)
			var rest []*Term
			for _, t := range ts {
				k := fullKey(t)
				c := tEq(tag, tInt(tagID(k)))
				rest = append(rest, tNot(c))
				if !x.feasible(st, c) {
					continue
				}
				s := st.clone()
				s.assume(c)
				u := mkApp("unbox_"+k, encSort(t), v.T)
				s.assume(tEq(mkApp("box_"+k, v.T.S, u), v.T))
				x.invoke(VIf{Typ: t, V: s.decode(u, t)}, ityp, m, args, s, pack)
			}
			s := st.clone()
			for _, c := range rest {
				s.assume(c)
			}
			x.oblige(s, "no-nil-dereference", "method call on a possibly nil interface", tEq(tInt(0), tInt(1)))
			return
		}
	}
	x.havocCall(key, m.Type().(*types.Signature), args, st, pack)
}

var implMu sync.Mutex
var implTab = map[string][]types.Type{}

// implementers lists the types that can be in a value of an interface type
// that only this program's packages can implement.
func (x *Exec) implementers(ityp types.Type) ([]types.Type, bool) {
	n, ok := types.Unalias(ityp).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Exported() {
		return nil, false
	}
	it := n.Underlying().(*types.Interface)
	closed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil, false
	}
	implMu.Lock()
	defer implMu.Unlock()
	k := fullKey(ityp)
	if ts, ok := implTab[k]; ok {
		return ts, true
	}
	var ts []types.Type
	for _, t := range x.prog.RuntimeTypes() {
		if _, isI := t.Underlying().(*types.Interface); !isI && types.Implements(t, it) {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return fullKey(ts[i]) < fullKey(ts[j]) })
	implTab[k] = ts
	return ts, true
}

func (x *Exec) callFn(fn *ssa.Function, free []Val, args []Val, st *State, pack func(*State, []Val)) {
	key := fnKey(fn)
	if x.initOf != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		pack(st, nil)
		return
	}
	if ct := x.sp.find(key); ct != nil && !(x.spec != nil && ct == x.spec && len(x.stack) == 0) {
		if !ct.Inline {
			x.apply(ct, fn.Signature, args, st, pack)
			return
		}
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "instance") || inRepo(fn) {
		if len(fn.Blocks) > 0 {
			if inRepo(fn) && !(x.spec != nil && x.spec.Target == key) {
				x.inl[key] = true
			}
			x.call(fn, free, args, st, pack)
			return
		}
	}
	if h := builtinExterns[key]; h != nil {
		x.trust[key] = true
		h(x, st, fn.Signature, args, pack)
		return
	}
	if len(fn.Blocks) > 0 && inlineExtern[key] {
		x.inl[key] = true
		x.call(fn, free, args, st, pack)
		return
	}
	x.havocCall(key, fn.Signature, args, st, pack)
}

// havocCall models an external function without a contract: the results are
// arbitrary, and mutable memory handed to it is forgotten.
func (x *Exec) havocCall(key string, sig *types.Signature, args []Val, st *State, pack func(*State, []Val)) {
	x.assumed["results of "+key+" are unconstrained (no contract); it does not panic"] = true
	for _, a := range args {
		if p, ok := a.(VPt); ok {
			o := st.heap[p.Obj]
			st.note(p)
			nv := st.storePath(o.v, o.typ, p.Path, st.fresh("hv", pathType(o.typ, p.Path)))
			st.setObj(p.Obj, nv)
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, st.fresh("hv_"+key, sig.Results().At(i).Type()))
	}
	pack(st, res)
}

func (x *Exec) paramNames(ct *Contract, sig *types.Signature, args []Val) []string {
	return ct.Params
}

// apply uses a contract at a call site.
func (x *Exec) apply(ct *Contract, sig *types.Signature, args []Val, st *State, pack func(*State, []Val)) {
	if ct.Kind == "extern" || ct.Kind == "iface" || ct.Kind == "functype" {
		x.trust[ct.Name] = true
	} else {
		x.callee[ct.Name] = true
	}
	env := map[string]SV{}
	if ct.Kind == "functype" { // may speak about the parameters of the function under contract
		for k, v := range x.specEnv {
			env[k] = v
		}
	}
	var ptypes []types.Type
	if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
		ptypes = append(ptypes, sig.Recv().Type())
	} else if len(args) == sig.Params().Len()+1 {
		ptypes = append(ptypes, types.NewInterfaceType(nil, nil))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	for i, n := range ct.Params {
		if i < len(args) {
			env[n] = SV{V: args[i], Ty: ptypes[i]}
		}
	}
	pre := st.clone()
	cx := &sctx{x: x, cur: st, old: pre, env: env}
	for _, g := range ct.Ghosts {
		// ghost arguments are chosen by the contract's own `let`
		unsup("ghost parameter %s of %s at a call site", g.name, ct.Name)
	}
	for _, l := range ct.Lets {
		if l.post {
			continue
		}
		env[l.name] = cx.eval(l.expr)
	}
	for _, r := range ct.Requires {
		x.oblige(st, "pre:"+ct.Name+":"+r.name, "precondition at call", cx.boolean(r.expr))
	}
	for _, p := range ct.Panics {
		x.oblige(st, "no-panic:"+ct.Name, "call that panics", tOr(tNot(cx.boolean(p.expr)), x.mayPanic()))
	}
	for _, m := range ct.Modifies {
		cx.havoc(m)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		name := "r_" + ct.Name
		if ct.Pure {
			// deterministic: a function of the arguments
			var as []*Term
			for j, a := range args {
				as = append(as, pre.encode(a, ptypes[j]))
			}
			res = append(res, st.decode(mkApp(fmt.Sprintf("%s/%d", ct.Name, i), encSort(t), as...), t))
		} else {
			res = append(res, st.fresh(name, t))
		}
		if v, ok := res[i].(VT); ok && ct.Opts["fresh"] {
			newRefs.Store(v.T, true)
		}
		env[fmt.Sprintf("r%d", i)] = SV{V: res[i], Ty: t}
	}
	for _, l := range ct.Lets {
		if l.post {
			env[l.name] = cx.eval(l.expr)
		}
	}
	for _, e := range ct.Ensures {
		st.assume(cx.boolean(e.expr))
	}
	if st.infeasible() {
		return
	}
	pack(st, res)
}

func (x *Exec) builtin(fr *Frame, name string, c *ssa.CallCommon, args []Val, st *State, in *ssa.Call, k func(*State, Val), k1 func(Val)) {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case VSl:
			k1(VT{a.Len})
		case VAr:
			k1(VT{tLen(a.T)})
		case VMp:
			k1(VT{tLen(tSel(x.mapTerm(st, a, c.Args[0].Type()), "keys"))})
		case VT:
			if strings.HasPrefix(a.T.S, "Map_") {
				k1(VT{tLen(tSel(a.T, "keys"))})
				return
			}
			k1(VT{tLen(a.T)})
		default:
			unsup("len of %T", a)
		}
	case "cap":
		if a, ok := args[0].(VSl); ok {
			r := tFresh("cap", sInt)
			st.assume(tLe(a.Len, r))
			k1(VT{r})
			return
		}
		unsup("cap")
	case "append":
		s := args[0].(VSl)
		et := in.Type().Underlying().(*types.Slice).Elem()
		sort := seqOf(encSort(et))
		var data *Term
		switch b := args[1].(type) {
		case VSl:
			data = st.sliceData(b, sort)
		case VT: // string
			data = b.T
		}
		k1(x.appendTo(st, s, data, et))
	case "copy":
		d := args[0].(VSl)
		var src *Term
		var sl *Term
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		sort := seqOf(encSort(et))
		switch b := args[1].(type) {
		case VSl:
			src, sl = st.sliceData(b, sort), b.Len
		case VT:
			src, sl = b.T, tLen(b.T)
		}
		do := func(s *State, n *Term) {
			if d.Obj != 0 {
				cont := s.heap[d.Obj].v.(VAr).T
				if s.heap[d.Obj].frozen {
					x.oblige(s, "no-write-to-shared-memory", "copy", tFalse)
				}
				anc, desc := s.related(d.Obj)
				for a := range anc {
					desc[a] = true
				}
				delete(desc, d.Obj)
				x.clobber(s, desc, "copy")
				tot := tLen(cont)
				end := tAdd(d.Off, n)
				nc := tCat(sort, tExt(cont, tInt(0), d.Off), tExt(src, tInt(0), n), tExt(cont, end, tSub(tot, end)))
				s.note(VPt{Obj: d.Obj, Path: []pel{{idx: tInt(0)}}})
				s.setObj(d.Obj, VAr{nc})
				x.writeBack(s, d.Obj, VAr{cont})
			}
			k(s, VT{n})
		}
		x.branch(st, tLe(sl, d.Len), func(s *State) { do(s, sl) }, func(s *State) { do(s, d.Len) })
	case "ssa:wrapnilchk":
		k1(args[0])
	case "print", "println":
		k1(VTu{})
	case "min", "max":
		a, b := args[0].(VT).T, args[1].(VT).T
		c := tLe(a, b)
		if name == "max" {
			c = tLe(b, a)
		}
		k1(VT{tIte(c, a, b)})
	case "delete":
		m := args[0].(VMp)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		if m.Obj == 0 {
			k1(VTu{})
			return
		}
		t := x.mapTerm(st, m, c.Args[0].Type())
		key := st.encode(args[1], mt.Key())
		nk := tApp("seqremove", tSel(t, "keys").S, tSel(t, "keys"), key)
		st.note(VPt{Obj: m.Obj})
		st.setObj(m.Obj, VT{tMk(t.S, tSel(t, "nil"), tStore(tSel(t, "dom"), key, tFalse), tSel(t, "val"), nk)})
		k1(VTu{})
	default:
		unsup("builtin %s", name)
	}
}

// builtinExterns are std functions modelled directly (their meaning needs the heap).
var builtinExterns = map[string]func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)){}
var inlineExtern = map[string]bool{}

func init() {
	writeTo := func(get func(x *Exec, st *State, a Val) *Term, rets int) func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
		return func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			p, ok := args[0].(VPt)
			if !ok {
				unsup("builder receiver %T", args[0])
			}
			old := st.load(p)
			ot := x.bufText(st, old)
			d := get(x, st, args[1])
			st.note(p)
			o := st.heap[p.Obj]
			st.setObj(p.Obj, st.storePath(o.v, o.typ, p.Path, VT{x.mkBuf(old.(VT).T.S, tCat(sBytes, ot, d))}))
			var res []Val
			for i := 0; i < sig.Results().Len(); i++ {
				t := sig.Results().At(i).Type()
				if isInteger(t) {
					res = append(res, VT{tLen(d)})
				} else {
					res = append(res, VIf{})
				}
			}
			pack(st, res)
		}
	}
	str := func(x *Exec, st *State, a Val) *Term { return a.(VT).T }
	bts := func(x *Exec, st *State, a Val) *Term { return st.sliceData(a.(VSl), sBytes) }
	one := func(x *Exec, st *State, a Val) *Term { return tUnit(a.(VT).T) }
	rn := func(x *Exec, st *State, a Val) *Term { return x.utf8enc(st, a.(VT).T) }
	for _, b := range []string{"strings.Builder", "bytes.Buffer"} {
		builtinExterns[b+".WriteString"] = writeTo(str, 2)
		builtinExterns[b+".Write"] = writeTo(bts, 2)
		builtinExterns[b+".WriteByte"] = writeTo(one, 1)
		builtinExterns[b+".WriteRune"] = writeTo(rn, 2)
		builtinExterns[b+".String"] = func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			pack(st, []Val{VT{x.bufText(st, st.load(args[0].(VPt)))}})
		}
		builtinExterns[b+".Bytes"] = func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			c := x.bufText(st, st.load(args[0].(VPt)))
			id := st.newObj(types.NewArray(types.Typ[types.Uint8], -1), VAr{c})
			pack(st, []Val{VSl{Nil: tFalse, Off: tInt(0), Len: tLen(c), Obj: id}})
		}
		builtinExterns[b+".Len"] = func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			pack(st, []Val{VT{tLen(x.bufText(st, st.load(args[0].(VPt))))}})
		}
		builtinExterns[b+".Grow"] = func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			pack(st, nil)
		}
	}
}

func init() {
	// strconv.Append*: dst extended with the text Format* would give
	app := func(text func(x *Exec, st *State, a []Val) *Term) func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
		return func(x *Exec, st *State, sig *types.Signature, args []Val, pack func(*State, []Val)) {
			pack(st, []Val{x.appendTo(st, args[0].(VSl), text(x, st, args[1:]), types.Typ[types.Uint8])})
		}
	}
	tm := func(v Val) *Term { return v.(VT).T }
	dec := func(x *Exec, st *State, a []Val) *Term {
		if tm(a[1]) == tInt(10) {
			return mkApp("itoa", sBytes, tm(a[0]))
		}
		return mkApp("itoabase", sBytes, tm(a[0]), tm(a[1]))
	}
	builtinExterns["strconv.AppendInt"] = app(dec)
	builtinExterns["strconv.AppendUint"] = app(dec)
	builtinExterns["strconv.AppendBool"] = app(func(x *Exec, st *State, a []Val) *Term {
		return tIte(tm(a[0]), tLit("true"), tLit("false"))
	})
	builtinExterns["strconv.AppendFloat"] = app(func(x *Exec, st *State, a []Val) *Term {
		return mkApp("ftoa", sBytes, tm(a[0]), tm(a[1]), tm(a[2]), tm(a[3]))
	})
	builtinExterns["strconv.AppendQuote"] = app(func(x *Exec, st *State, a []Val) *Term {
		return mkApp("goquote", sBytes, tm(a[0]))
	})
}

func (x *Exec) bufText(st *State, v Val) *Term {
	t := v.(VT).T
	if t.Op == "app" && strings.HasPrefix(t.Name, "zero_") {
		return tEmptyBytes
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "buf_") {
		return t.A[0]
	}
	return mkApp("buftext", sBytes, t)
}
func (x *Exec) mkBuf(sort string, c *Term) *Term { return mkApp("buf_"+sort, sort, c) }
