package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Task    string
	Kind    string
	Props   []string
	Obls    []*Obligation
	Secs    float64
	Solver  float64
	Queries int64
	Steps   int
	Returns int
	Funcs   []string // functions whose body was executed
	Inlined []string
	Trusted []string
	Callees []string
	Assumed []string
	Backend map[string]int
	SmtErr  []string
}

// ---- term table checkpointing: every task starts from the same table, so its
// outcome does not depend on which tasks ran before it in the same process.

var ckTerms map[string]*Term
var ckSeq int
var ckSym map[string]int
var ckTags map[string]int64

func checkpoint() {
	ckTerms = map[string]*Term{}
	for k, v := range termTab {
		ckTerms[k] = v
	}
	ckSeq = termSeq
	ckSym = map[string]int{}
	for k, v := range symCnt {
		ckSym[k] = v
	}
	ckTags = map[string]int64{}
	for k, v := range tagTab {
		ckTags[k] = v
	}
}
func rollback() {
	termTab = map[string]*Term{}
	for k, v := range ckTerms {
		termTab[k] = v
	}
	termSeq = ckSeq
	symCnt = map[string]int{}
	for k, v := range ckSym {
		symCnt[k] = v
	}
	tagTab = map[string]int64{}
	for k, v := range ckTags {
		tagTab[k] = v
	}
}

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	spec := fs.String("spec", "", "")
	secs := fs.Int("t", 120, "")
	fs.Parse(args)
	out := json.NewEncoder(os.Stdout)
	w, err := loadWorld(*repo, strings.Split(*spec, ","))
	if err != nil {
		out.Encode(map[string]string{"Err": err.Error()})
		return
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		if p := os.Getenv("GOV_PROF"); p != "" {
			f, _ := os.Create(p)
			pprof.StartCPUProfile(f)
		}
		r := w.runTask(in.Text(), time.Duration(*secs)*time.Second)
		if os.Getenv("GOV_PROF") != "" {
			pprof.StopCPUProfile()
		}
		out.Encode(r)
	}
}

// runTasks distributes tasks over worker processes.
func runTasks(repo string, specs []string, names []string, par, secs int) map[string]*Result {
	return runTasksUntil(repo, specs, names, par, secs, time.Now().Add(24*time.Hour))
}
func runTasksUntil(repo string, specs []string, names []string, par, secs int, deadline time.Time) map[string]*Result {
	res := map[string]*Result{}
	var mu sync.Mutex
	ch := make(chan string, len(names))
	for _, n := range names {
		ch <- n
	}
	close(ch)
	if par > len(names) {
		par = len(names)
	}
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var enc interface{ Write([]byte) (int, error) }
			var sc *bufio.Reader
			start := func() {
				cmd = exec.Command(self, "worker", "-repo", repo, "-spec", strings.Join(specs, ","), "-t", fmt.Sprint(secs))
				cmd.Env = append(os.Environ(), "GOV_ROLE=worker", "GOV_ROOT="+root(), "GOMAXPROCS=2")
				cmd.Stderr = os.Stderr
				i, _ := cmd.StdinPipe()
				o, _ := cmd.StdoutPipe()
				enc = i
				sc = bufio.NewReaderSize(o, 1<<20)
				cmd.Start()
			}
			stop := func() {
				if cmd != nil {
					cmd.Process.Kill()
					cmd.Wait()
					cmd = nil
				}
			}
			defer stop()
			for n := range ch {
				if time.Now().After(deadline) {
					mu.Lock()
					res[n] = &Result{Task: n, Obls: []*Obligation{{Target: n, Name: "verifiable", Status: "unknown", Detail: "the time budget of the check is used up"}}}
					mu.Unlock()
					continue
				}
				if cmd == nil {
					start()
				}
				fmt.Fprintln(enc, n)
				type msg struct {
					r   *Result
					err string
				}
				c := make(chan msg, 1)
				go func() {
					l, err := sc.ReadBytes('\n')
					if err != nil {
						c <- msg{nil, "verifier process ended: " + err.Error()}
						return
					}
					var r struct {
						Result
						Err string
					}
					if err := json.Unmarshal(l, &r); err != nil {
						c <- msg{nil, err.Error()}
						return
					}
					if r.Err != "" {
						c <- msg{nil, r.Err}
						return
					}
					c <- msg{&r.Result, ""}
				}()
				var m msg
				select {
				case m = <-c:
				case <-time.After(time.Duration(secs+60) * time.Second):
					m = msg{nil, "time limit exceeded"}
				}
				if m.r == nil {
					stop()
					m.r = &Result{Task: n, Obls: []*Obligation{{Target: n, Name: "verifiable", Status: "unknown", Detail: m.err}}}
				}
				mu.Lock()
				res[n] = m.r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return res
}

func (w *world) runTask(name string, limit time.Duration) (res *Result) {
	rollback()
	debug.FreeOSMemory()
	t0 := time.Now()
	res = &Result{Task: name, Backend: map[string]int{}}
	smtErrors = sync.Map{}
	solverTime, nQueries = 0, 0
	for i := range backendProved {
		backendProved[i] = 0
	}
	var c *Contract
	for _, k := range w.sp.All {
		if taskName(k) == name {
			c = k
		}
	}
	x := newExec(w.prog, w.sp, name)
	x.deadline = time.Now().Add(limit)
	fail := func(n, d string) {
		if o := x.obls[n]; o != nil && o.Status != "discharged" {
			return
		}
		x.obls[n] = &Obligation{Target: name, Name: n, Status: "unknown", Detail: d, Pos: x.posStr(x.pos)}
		x.order = append(x.order, n)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				fail("verifiable", u.msg)
			} else {
				d := fmt.Sprint(r)
				if os.Getenv("GOV_DEBUG") != "" {
					d += "\n" + string(debug.Stack())
				}
				fail("verifiable", "internal: "+d)
			}
		}
		x.sol.close()
		smtErrors.Range(func(k, v interface{}) bool {
			res.SmtErr = append(res.SmtErr, fmt.Sprint(k))
			return true
		})
		if len(res.SmtErr) > 0 {
			sort.Strings(res.SmtErr)
			fail("solver-accepts-query", res.SmtErr[0])
		}
		if len(x.order) == 0 {
			fail("verifiable", "no obligation was generated")
		}
		seen := map[string]bool{}
		for _, n := range x.order {
			if !seen[n] {
				seen[n] = true
				res.Obls = append(res.Obls, x.obls[n])
			}
		}
		res.Secs = time.Since(t0).Seconds()
		res.Solver = float64(solverTime) / 1e9
		res.Queries = nQueries
		res.Steps = x.steps
		res.Returns = x.returns
		res.Inlined = sortedKeys(x.inl)
		res.Trusted = sortedKeys(x.trust)
		res.Callees = sortedKeys(x.callee)
		res.Assumed = sortedKeys(x.assumed)
		res.Funcs = sortedKeys(x.ran)
		for i, n := range []string{"z3", "z3-new", "cvc5"} {
			res.Backend[n] = int(backendProved[i])
		}
	}()
	if c == nil {
		fail("verifiable", "no such task")
		return
	}
	res.Kind = c.Kind
	res.Props = c.Props
	// lemmas declared before this one are available to a lemma; all to a target
	base := w.sp.axs
	th.axs = append([]*axiom{}, base...)
	for _, l := range w.sp.All {
		if l == c {
			break
		}
		if l.Kind == "lemma" && (c.Kind != "lemma" || l != c) {
			th.axs = append(th.axs, l.Lemma)
		}
	}
	if c.Kind != "lemma" {
		th.axs = append([]*axiom{}, base...)
		for _, l := range w.sp.All {
			if l.Kind == "lemma" {
				th.axs = append(th.axs, l.Lemma)
			}
		}
	}
	for _, n := range c.Reveal {
		if r := th.recs[n]; r != nil {
			r.opaque = false
			defer func() { r.opaque = true }()
		}
	}
	switch c.Kind {
	case "lemma":
		raceLimit = 60 * time.Second // independent of the code under check
		defer func() { raceLimit = 15 * time.Second }()
		x.runLemma(c)
	default:
		x.runTarget(w, c)
	}
	return
}

func (x *Exec) runLemma(c *Contract) {
	body := c.Lemma.body
	m := map[*Term]*Term{}
	for _, v := range c.Lemma.vars {
		m[v] = tFresh("L"+v.Name[1:], v.S)
	}
	goal := subst(body, m)
	st := newState()
	if c.IndVar == nil {
		for _, h := range c.Hints {
			x.hints = append(x.hints, subst(h, m))
		}
		x.obligeHint(st, c.Name, goal)
		return
	}
	k := m[c.IndVar]
	at := func(t *Term) *Term {
		m2 := map[*Term]*Term{}
		for a, b := range m {
			m2[a] = b
		}
		m2[c.IndVar] = t
		return subst(body, m2)
	}
	for _, h := range c.Hints {
		x.hints = append(x.hints, subst(h, m))
	}
	if c.IndUp == nil {
		s := newState()
		s.assume(tLe(k, tInt(0)))
		x.obligeHint(s, c.Name+":base", goal)
		s = newState()
		s.assume(tLe(tInt(0), k))
		s.assume(goal)
		x.obligeHint(s, c.Name+":step", at(tAdd(k, tInt(1))))
		return
	}
	n := subst(c.IndUp, m)
	s := newState()
	s.assume(tLe(n, k))
	x.obligeHint(s, c.Name+":base", goal)
	s = newState()
	s.assume(tLt(k, n))
	s.assume(at(tAdd(k, tInt(1))))
	x.obligeHint(s, c.Name+":step", goal)
}

// obligeHint proves goal with the hint terms made available for unfolding.
func (x *Exec) obligeHint(st *State, name string, goal *Term) {
	for _, h := range x.hints {
		// a tautology that only mentions the term
		st.pc = append(st.pc, tApp("mention_"+h.S, sBool, h))
	}
	x.oblige(st, name, "lemma", goal)
}

// ---- targets

type entryCtx struct {
	x      *Exec
	w      *world
	st     *State
	env    map[string]SV
	params []string
}

func (w *world) lookupFn(pkg, typ, name string) *ssa.Function {
	for _, p := range w.pkgs {
		if shortPkg(p.Pkg) != pkg && p.Pkg.Name() != pkg {
			continue
		}
		if typ == "" {
			if f := p.Func(name); f != nil {
				return f
			}
			continue
		}
		o := p.Pkg.Scope().Lookup(typ)
		if o == nil {
			continue
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			sel := w.prog.MethodSets.MethodSet(t).Lookup(p.Pkg, name)
			if sel != nil {
				return w.prog.MethodValue(sel)
			}
		}
	}
	return nil
}

// param makes an arbitrary value of a parameter type.
func (x *Exec) param(st *State, name string, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		x.assumed["pointer parameters are non-nil and distinct"] = true
		ref := tFresh(name+"_ref", sInt)
		st.assume(tGt(ref, tInt(0)))
		return VPt{Obj: st.materialise(ref, p.Elem())}
	}
	return st.fresh(name, t)
}

func (e *entryCtx) arg(a ast.Expr, t types.Type) Val {
	switch a := a.(type) {
	case *ast.Ident:
		switch a.Name {
		case "true":
			return VT{tTrue}
		case "false":
			return VT{tFalse}
		case "nil":
			return e.st.zero(t)
		}
		if v, ok := e.env[a.Name]; ok {
			return v.V
		}
		if e.x.spec.Bind[a.Name] != "" {
			ct := goType(e.x.spec.Bind[a.Name])
			v := e.x.param(e.st, a.Name, ct)
			if _, isI := t.Underlying().(*types.Interface); isI {
				v = VIf{Typ: ct, V: v}
			}
			e.env[a.Name] = SV{V: v, Ty: ct}
			if vi, ok := v.(VIf); ok {
				e.env[a.Name] = SV{V: vi.V, Ty: ct}
			}
			return v
		}
		if cs := e.x.caseOf[a.Name]; cs != "" {
			var v Val
			switch cs {
			case "nil":
				v = VIf{}
			case "other":
				f := e.st.fresh(a.Name, t).(VT)
				tag := mkApp("tagof", sInt, f.T)
				for _, n := range []int64{0, tagID("string"), tagID("[]uint8")} {
					e.st.assume(tNot(tEq(tag, tInt(n))))
				}
				v = f
			default:
				ct := goType(cs)
				v = VIf{Typ: ct, V: e.st.fresh(a.Name, ct)}
			}
			e.env[a.Name] = SV{V: v, Ty: t}
			return v
		}
		v := e.x.param(e.st, a.Name, t)
		e.env[a.Name] = SV{V: v, Ty: t}
		return v
	case *ast.BasicLit:
		cx := &sctx{x: e.x, cur: e.st, old: e.st, env: e.env}
		return VT{cx.term(cx.eval(a))}
	}
	unsup("entry argument %T", a)
	return nil
}

type pendingCall struct {
	fn   *ssa.Function
	args []ast.Expr
	recv *pendingCall // receiver is the result of another call
	meth string
	bind string
}

func (e *entryCtx) plan(call *ast.CallExpr) *pendingCall {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		unsup("entry %s", types.ExprString(call))
	}
	switch f := sel.X.(type) {
	case *ast.Ident:
		fn := e.w.lookupFn(f.Name, "", sel.Sel.Name)
		if fn == nil {
			unsup("function %s.%s not found in the current source", f.Name, sel.Sel.Name)
		}
		return &pendingCall{fn: fn, args: call.Args}
	case *ast.SelectorExpr:
		id, ok := f.X.(*ast.Ident)
		if !ok {
			break
		}
		fn := e.w.lookupFn(id.Name, f.Sel.Name, sel.Sel.Name)
		if fn == nil {
			unsup("method %s.%s.%s not found in the current source", id.Name, f.Sel.Name, sel.Sel.Name)
		}
		return &pendingCall{fn: fn, args: call.Args}
	case *ast.CallExpr:
		return &pendingCall{recv: e.plan(f), meth: sel.Sel.Name, args: call.Args}
	}
	unsup("entry %s", types.ExprString(call))
	return nil
}

// bindArgs creates every parameter before execution starts.
func (e *entryCtx) bindArgs(p *pendingCall) {
	if p.recv != nil {
		e.bindArgs(p.recv)
		rt := e.resultType(p.recv)
		obj, _, _ := types.LookupFieldOrMethod(rt, true, nil, p.meth)
		if obj == nil {
			if n, ok := types.Unalias(rt).(*types.Named); ok {
				obj, _, _ = types.LookupFieldOrMethod(rt, true, n.Obj().Pkg(), p.meth)
			}
		}
		f, ok := obj.(*types.Func)
		if !ok {
			unsup("no method %s on %s", p.meth, rt)
		}
		sig := f.Type().(*types.Signature)
		for i, a := range p.args {
			e.arg(a, sig.Params().At(i).Type())
		}
		return
	}
	sig := p.fn.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(p.args) {
		unsup("%s takes %d arguments, the contract names %d", p.fn, len(ts), len(p.args))
	}
	for i, a := range p.args {
		e.arg(a, ts[i])
	}
}
func (e *entryCtx) resultType(p *pendingCall) types.Type {
	if p.recv == nil {
		return p.fn.Signature.Results().At(0).Type()
	}
	rt := e.resultType(p.recv)
	obj, _, _ := types.LookupFieldOrMethod(rt, true, nil, p.meth)
	return obj.Type().(*types.Signature).Results().At(0).Type()
}

func (e *entryCtx) exec(p *pendingCall, st *State, k func(*State, []Val)) {
	x := e.x
	if p.recv == nil {
		var args []Val
		sig := p.fn.Signature
		var ts []types.Type
		if sig.Recv() != nil {
			ts = append(ts, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		for i, a := range p.args {
			v := e.arg(a, ts[i])
			if id, ok := a.(*ast.Ident); ok && x.spec.Bind[id.Name] != "" {
				if _, isI := ts[i].Underlying().(*types.Interface); isI {
					v = VIf{Typ: goType(x.spec.Bind[id.Name]), V: v}
				}
			}
			if vi, ok := v.(VIf); ok && i == 0 && x.implOf != nil {
				v = vi.V
			}
			args = append(args, v)
		}
		x.ran[fnKey(p.fn)] = true
		x.call(p.fn, nil, args, st, k)
		return
	}
	rt := e.resultType(p.recv)
	e.exec(p.recv, st, func(st *State, r []Val) {
		obj, _, _ := types.LookupFieldOrMethod(rt, true, nil, p.meth)
		f := obj.(*types.Func)
		var args []Val
		sig := f.Type().(*types.Signature)
		for i, a := range p.args {
			args = append(args, e.arg(a, sig.Params().At(i).Type()))
		}
		if _, isI := rt.Underlying().(*types.Interface); isI {
			if vi, ok := r[0].(VIf); ok && vi.Typ != nil {
				fn := x.prog.LookupMethod(vi.Typ, f.Pkg(), p.meth)
				x.ran[fnKey(fn)] = true
				x.callFn(fn, nil, append([]Val{vi.V}, args...), st, k)
				return
			}
			x.invoke(r[0], rt, f, args, st, k)
			return
		}
		fn := x.prog.FuncValue(f)
		x.ran[fnKey(fn)] = true
		x.callFn(fn, nil, append([]Val{r[0]}, args...), st, k)
	})
}

// ifaceOf is the interface type whose method a contract specifies, if any.
func (w *world) ifaceOf(c *Contract) types.Type {
	if c.Kind != "func" || c.Entry == nil {
		return nil
	}
	call, ok := c.Entry.(*ast.CallExpr)
	if !ok {
		return nil
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	tn, ok := sel.X.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	id, ok := tn.X.(*ast.Ident)
	if !ok {
		return nil
	}
	for _, p := range w.pkgs {
		if shortPkg(p.Pkg) == id.Name {
			if o := p.Pkg.Scope().Lookup(tn.Sel.Name); o != nil {
				if _, isI := o.Type().Underlying().(*types.Interface); isI {
					return o.Type()
				}
			}
		}
	}
	return nil
}
func pkgOf(t types.Type) *types.Package {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// checkFrame: memory that existed on entry is unchanged, but for what the
// contract says is modified.
func (x *Exec) checkFrame(s *State, c *Contract, env map[string]SV, ws *writeSet) {
	type reg struct {
		obj  int
		lazy *Term
		path []int
	}
	var mod []reg
	cx := &sctx{x: x, cur: x.specOld.clone(), old: x.specOld, env: env}
	anyT := map[string]bool{}
	for _, m := range c.Modifies {
		if t := anyOf(m); t != nil {
			anyT[typeKey(t)] = true
			continue
		}
		p, ok := cx.location(m)
		if !ok {
			continue
		}
		r := reg{obj: p.Obj, lazy: cx.cur.heap[p.Obj].lazy}
		for _, e := range p.Path {
			r.path = append(r.path, e.fld)
		}
		mod = append(mod, r)
		if m, ok := cx.cur.load(p).(VMp); ok { // the map's entries
			mod = append(mod, reg{obj: m.Obj})
		}
	}
	var refs []*Term
	for r := range ws.lazy {
		refs = append(refs, r)
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i].pretty() < refs[j].pretty() })
	for _, ref := range refs {
		l := ws.lazy[ref]
		all := true
		if _, ok := newRefs.Load(ref); ok {
			continue
		}
		for _, path := range l.paths {
			ok := anyT[typeKey(l.typ)]
			for _, r := range mod {
				if r.lazy == ref && len(r.path) <= len(path) && fmt.Sprint(r.path) == fmt.Sprint(path[:len(r.path)]) {
					ok = true
				}
			}
			all = all && ok
		}
		if all {
			continue
		}
		if id, ok := s.refs[ref]; ok && s.heap[id] != nil && !s.wild[typeKey(l.typ)] {
			o := s.heap[id]
			x.oblige(s, "frame", "memory outside the modifies clause is unchanged", tEq(tApp("deref_"+typeKey(l.typ), encSort(l.typ), ref), s.clone().encode(o.v, l.typ)))
		} else if s.wild[typeKey(l.typ)] {
			x.oblige(s, "frame", "memory of type "+typeKey(l.typ)+" outside the modifies clause is unchanged", tFalse)
		}
	}
	for k := range ws.all {
		if !anyT[k] {
			x.oblige(s, "frame", "memory of type "+k+" outside the modifies clause is unchanged", tFalse)
		}
	}
	var ks []string
	for k := range ws.locs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := ws.locs[k]
		if x.specOld.heap[l.obj] == nil || s.heap[l.obj] == nil {
			continue
		}
		covered := false
		for _, r := range mod {
			if r.obj == l.obj && len(r.path) <= len(l.path) {
				covered = true
				for i := range r.path {
					if r.path[i] != l.path[i] {
						covered = false
					}
				}
			}
			if covered {
				break
			}
		}
		if covered {
			continue
		}
		var path []pel
		for _, f := range l.path {
			path = append(path, pel{fld: f})
		}
		o, n := x.specOld.heap[l.obj], s.heap[l.obj]
		t := pathType(o.typ, path)
		a, b := x.specOld.loadPath(o.v, o.typ, path), s.loadPath(n.v, n.typ, path)
		if ar, ok := a.(VAr); ok {
			x.oblige(s, "frame", "memory outside the modifies clause is unchanged", tEq(ar.T, b.(VAr).T))
			continue
		}
		x.oblige(s, "frame", "memory outside the modifies clause is unchanged", tEq(x.specOld.clone().encode(a, t), s.clone().encode(b, t)))
	}
}

func (x *Exec) runTarget(w *world, c *Contract) {
	x.spec = c
	x.sol.split = c.Opts["merge"]
	if c.Opts["nobounds"] {
		x.noBounds = true
	}
	live := map[string]bool{}
	canary := false
	cases := []map[string]string{{}}
	for _, p := range c.Cases {
		var n []map[string]string
		for _, m := range cases {
			for _, t := range []string{"nil", "string", "[]byte", "other"} {
				m2 := map[string]string{p: t}
				for k, v := range m {
					m2[k] = v
				}
				n = append(n, m2)
			}
		}
		cases = n
	}
	impls := []types.Type{nil}
	if it := w.ifaceOf(c); it != nil {
		ts, closed := x.implementers(it)
		if !closed || len(ts) == 0 {
			unsup("%s can be implemented outside the program", it)
		}
		impls = ts
	}
	for _, t := range impls {
		x.implOf = t
		for _, m := range cases {
			x.caseOf = m
			x.stack = nil
			x.runCase(w, c, live, &canary)
		}
	}
	if !canary && !c.Opts["noreturn"] {
		unsup("no reachable return")
	}
	for _, en := range c.Ensures {
		if !live[en.name] && !c.Opts["maybevacuous"] {
			o := &Obligation{Target: x.target, Name: en.name + ":reachable", Status: "refuted", Detail: "the condition of this postcondition is never met on any path"}
			x.obls[o.Name] = o
			x.order = append(x.order, o.Name)
		}
	}
}

func (x *Exec) runCase(w *world, c *Contract, live map[string]bool, canary *bool) {
	var e *entryCtx
	var plan *pendingCall
	st := entryState()
	x.assumeGlobals(st, c)
	env := map[string]SV{}
	e = &entryCtx{x: x, w: w, st: st, env: env}
	var results *types.Tuple
	if c.Kind == "global" {
		st = newState()
	} else {
		call, ok := c.Entry.(*ast.CallExpr)
		if !ok {
			unsup("entry of %s", c.Name)
		}
		if x.implOf != nil {
			sel := call.Fun.(*ast.SelectorExpr)
			obj, _, _ := types.LookupFieldOrMethod(x.implOf, true, pkgOf(x.implOf), sel.Sel.Name)
			fn := x.prog.LookupMethod(x.implOf, obj.Pkg(), sel.Sel.Name)
			plan = &pendingCall{fn: fn, args: call.Args}
			v := x.param(st, "self", x.implOf)
			env[call.Args[0].(*ast.Ident).Name] = SV{V: VIf{Typ: x.implOf, V: v}, Ty: w.ifaceOf(c)}
		} else {
			plan = e.plan(call)
		}
		e.bindArgs(plan)
		if plan.recv == nil {
			results = plan.fn.Signature.Results()
		} else {
			obj, _, _ := types.LookupFieldOrMethod(e.resultType(plan.recv), true, nil, plan.meth)
			results = obj.Type().(*types.Signature).Results()
		}
	}
	for _, g := range c.Ghosts {
		s := parseSort(g.sort)
		t := tFresh("g_"+g.name, s)
		if strings.HasPrefix(g.sort, "Go[") {
			ty := goType(g.sort[3 : len(g.sort)-1])
			env[g.name] = SV{V: st.decode(t, ty), Ty: ty}
		} else {
			env[g.name] = SV{T: t}
		}
	}
	cx := &sctx{x: x, cur: st, old: st, env: env}
	for _, l := range c.Lets {
		if !l.post {
			env[l.name] = cx.eval(l.expr)
		}
	}
	for _, r := range c.Requires {
		st.assume(cx.boolean(r.expr))
	}
	if len(c.Requires) > 0 && !x.feasible(st, tTrue) {
		unsup("the preconditions are contradictory")
	}
	if !x.sp.checkNil(x) {
		// name the memory the frame speaks of, so that writes to it can be told apart
		x.naming = true
		for _, m := range c.Modifies {
			if anyOf(m) == nil {
				cx.location(m)
			}
		}
		x.naming = false
	}
	x.specEnv = env
	x.specOld = st.clone()
	ws := &writeSet{limit: *st.nextObj, locs: map[string]wloc{}}
	if c.Kind == "func" {
		st.track = append(append([]*writeSet{}, st.track...), ws)
	}
	onRet := func(s *State, res []Val) {
		x.returns++
		if s.infeasible() {
			return
		}
		if c.Kind == "func" {
			x.checkFrame(s, c, env, ws)
		}
		env2 := map[string]SV{}
		for k, v := range env {
			env2[k] = v
		}
		for i, r := range res {
			var t types.Type = types.NewInterfaceType(nil, nil)
			if results != nil {
				t = results.At(i).Type()
			}
			env2[fmt.Sprintf("r%d", i)] = SV{V: r, Ty: t}
		}
		if c.Kind == "global" {
			g := w.lookupGlobal(c.Target)
			if g == nil {
				unsup("no variable %s", c.Target)
			}
			p := x.globalPtr(g, s).(VPt)
			env2["g"] = SV{V: s.load(p), Ty: g.Type().Underlying().(*types.Pointer).Elem()}
		}
		cx := &sctx{x: x, cur: s, old: x.specOld, env: env2}
		for _, l := range c.Lets {
			if l.post {
				env2[l.name] = cx.eval(l.expr)
			}
		}
		if !*canary {
			if x.feasible(s, tTrue) {
				*canary = true
			}
		}
		for _, en := range c.Ensures {
			s2 := s.clone()
			cx2 := &sctx{x: x, cur: s2, old: x.specOld, env: env2}
			if !live[en.name] {
				if ce, ok := en.expr.(*ast.CallExpr); ok {
					if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "imp" {
						if x.feasible(s2, cx2.boolean(ce.Args[0])) {
							live[en.name] = true
						}
					} else {
						live[en.name] = true
					}
				} else {
					live[en.name] = true
				}
			}
			goal := cx2.boolean(en.expr)
			x.oblige(s2, en.name, "postcondition "+strings.TrimSpace(en.src), goal)
		}
	}
	if c.Kind == "global" {
		g := w.lookupGlobal(c.Target)
		if g == nil {
			unsup("no variable %s", c.Target)
		}
		if mutableGlobals[g] {
			unsup("variable %s is written outside initialisation", c.Target)
		}
		x.initOf = g.Pkg
		x.ran[c.Target] = true
		x.call(g.Pkg.Func("init"), nil, nil, st, onRet)
	} else {
		e.exec(plan, st, onRet)
	}
}

func (w *world) lookupGlobal(name string) *ssa.Global {
	i := strings.LastIndexByte(name, '.')
	for _, p := range w.pkgs {
		if shortPkg(p.Pkg) == name[:i] {
			if g, ok := p.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// assumeGlobals gives verified package variables their contract.
func (x *Exec) assumeGlobals(st *State, self *Contract) {
	for _, c := range x.sp.All {
		if c.Kind != "global" || c == self {
			continue
		}
		i := strings.LastIndexByte(c.Target, '.')
		for _, p := range x.prog.AllPackages() {
			if shortPkg(p.Pkg) != c.Target[:i] {
				continue
			}
			g, ok := p.Members[c.Target[i+1:]].(*ssa.Global)
			if !ok {
				continue
			}
			pt := x.globalPtr(g, st).(VPt)
			env := map[string]SV{"g": {V: st.load(pt), Ty: g.Type().Underlying().(*types.Pointer).Elem()}}
			cx := &sctx{x: x, cur: st, old: st, env: env}
			for _, e := range c.Ensures {
				f := cx.boolean(e.expr)
				if a, isA := st.load(pt).(VAr); isA && f.Op == "eq" {
					// the contract defines the value: use the definition itself
					if f.A[0] == a.T {
						st.setObj(pt.Obj, VAr{f.A[1]})
						continue
					}
					if f.A[1] == a.T {
						st.setObj(pt.Obj, VAr{f.A[0]})
						continue
					}
				}
				st.assume(f)
			}
			x.callee[c.Name] = true
		}
	}
}
