package main

// Theory registry (datatypes, recursive definitions, axioms) and solver back ends.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type dtype struct {
	name   string
	fields []dfield // selectors
	order  int
}
type dfield struct{ name, sort string }

type recDef struct {
	name   string
	params []*Term // symbols
	ret    string
	body   *Term
	opaque bool // unfolded only on demand (never automatically)
}
type axiom struct {
	name  string
	vars  []*Term
	trig  []*Term
	body  *Term
	proof string // "" = assumed
}

type theory struct {
	mu    sync.Mutex
	dts   map[string]*dtype
	sorts map[string]bool
	recs  map[string]*recDef
	funs  map[string]*funSig
	axs   []*axiom
}
type funSig struct {
	name  string
	args  []string
	ret   string
	macro bool
	def   *recDef
}

var th = &theory{dts: map[string]*dtype{}, sorts: map[string]bool{}, recs: map[string]*recDef{}, funs: map[string]*funSig{}}

func (th *theory) datatype(name string, fields ...dfield) string {
	th.mu.Lock()
	defer th.mu.Unlock()
	if _, ok := th.dts[name]; !ok {
		th.dts[name] = &dtype{name, fields, len(th.dts)}
	}
	return name
}
func (th *theory) usort(name string) string {
	th.mu.Lock()
	defer th.mu.Unlock()
	th.sorts[name] = true
	return name
}
func (th *theory) dt(name string) *dtype {
	th.mu.Lock()
	defer th.mu.Unlock()
	return th.dts[name]
}

// mkApp builds an application, folding selectors over constructors.
func mkApp(name, sort string, args ...*Term) *Term {
	if len(args) == 1 {
		if i := strings.LastIndex(name, "#"); i > 0 { // selector: <dt>#<field>
			a := args[0]
			if isCtor(a) {
				d := th.dt(a.S)
				for k, f := range d.fields {
					if a.S+"#"+f.name == name {
						return a.A[k]
					}
				}
			}
			if a.Op == "ite" {
				return tIte(a.A[0], mkApp(name, sort, a.A[1]), mkApp(name, sort, a.A[2]))
			}
		}
		if strings.HasPrefix(name, "unbox_") && args[0].Op == "app" && args[0].Name == "box_"+name[6:] {
			return args[0].A[0]
		}
		if name == "tagof" {
			a := args[0]
			if a.Op == "app" && strings.HasPrefix(a.Name, "box_") {
				return tInt(tagID(a.Name[4:]))
			}
			if a.Op == "app" && a.Name == "nil_Ifc" {
				return tInt(0)
			}
			if a.Op == "ite" {
				return tIte(a.A[0], mkApp(name, sort, a.A[1]), mkApp(name, sort, a.A[2]))
			}
		}
	}
	if strings.HasPrefix(name, "mk_") {
		// eta: mk(sel0(x),sel1(x)..) = x
		if d := th.dt(sort); d != nil && len(args) > 0 {
			var base *Term
			ok := true
			for k, f := range d.fields {
				if args[k].Op == "app" && args[k].Name == sort+"#"+f.name && len(args[k].A) == 1 {
					if base == nil {
						base = args[k].A[0]
					} else if base != args[k].A[0] {
						ok = false
					}
				} else {
					ok = false
				}
			}
			if ok && base != nil {
				return base
			}
		}
	}
	return tApp(name, sort, args...)
}
func tMk(dt string, args ...*Term) *Term { return mkApp("mk_"+dt, dt, args...) }
func tSel(t *Term, field string) *Term {
	d := th.dt(t.S)
	if d == nil {
		panic("tSel on " + t.S)
	}
	for _, f := range d.fields {
		if f.name == field {
			return mkApp(t.S+"#"+field, f.sort, t)
		}
	}
	panic("no field " + field + " in " + t.S)
}

var tagMu sync.Mutex
var tagTab = map[string]int64{}

func tagID(key string) int64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	if n, ok := tagTab[key]; ok {
		return n
	}
	n := int64(len(tagTab) + 1)
	tagTab[key] = n
	return n
}

// ---- term scanning

func subterms(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.A {
			rec(a)
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

func match(p, t *Term, vars map[*Term]bool, m map[*Term]*Term) bool {
	if vars[p] {
		if b, ok := m[p]; ok {
			return b == t
		}
		if p.S != t.S {
			return false
		}
		m[p] = t
		return true
	}
	if p == t {
		return true
	}
	if p.Op != t.Op || p.Name != t.Name || p.S != t.S || len(p.A) != len(t.A) || len(p.A) == 0 {
		return false
	}
	if p.Op == "lin" {
		// match x+c against lin: only the shape (var + const)
		return false
	}
	for i := range p.A {
		if !match(p.A[i], t.A[i], vars, m) {
			return false
		}
	}
	return true
}

// instances of recursive definitions and axioms relevant to the given terms.
func instances(ts []*Term, fuel, limit int) []*Term {
	chain := map[*Term]int{} // how many unfoldings of the same definition produced a term
	exts := map[*Term][]*Term{}
	var out []*Term
	done := map[*Term]bool{}
	cur := ts
	all := map[*Term]bool{}
	depth := map[*Term]int{} // round in which a term first appeared
	for round := 0; round < fuel; round++ {
		var next []*Term
		emit := func(t *Term) {
			if t == tTrue || done[t] {
				return
			}
			done[t] = true
			out = append(out, t)
			next = append(next, t)
		}
		var fresh []*Term
		subterms(cur, func(t *Term) {
			if !all[t] {
				all[t] = true
				depth[t] = round
				fresh = append(fresh, t)
			}
		})
		for _, t := range fresh {
			if t.Op == "ext" { // neighbouring extracts of one sequence
				for _, u := range exts[t.A[0]] {
					emitStep(t, u, emit)
				}
				exts[t.A[0]] = append(exts[t.A[0]], t)
			}
			if t.Op == "app" {
				if strings.HasPrefix(t.Name, "box_") { // what is boxed can be told and recovered
					emit(tEq(tApp("tagof", sInt, t), tInt(tagID(t.Name[4:]))))
					if len(t.A) == 1 {
						emit(tEq(tApp("unbox_"+t.Name[4:], t.A[0].S, t), t.A[0]))
					}
				}
				if t.Name == "nil_Ifc" {
					emit(tEq(tApp("tagof", sInt, t), tInt(0)))
				}
				if t.Name == "tagof" && t.A[0].Op != "ite" {
					nl := tApp("nil_Ifc", t.A[0].S)
					emit(tEq(tEq(t, tInt(0)), tEq(t.A[0], nl)))
				}
				if strings.HasPrefix(t.Name, "unbox_") && len(t.A) == 1 && t.A[0].S == "Ifc" {
					emit(tOr(tNot(tEq(mkApp("tagof", sInt, t.A[0]), tInt(tagID(t.Name[6:])))), tEq(mkApp("box_"+t.Name[6:], "Ifc", t), t.A[0])))
				}
				if z := zrepElem(t); z != nil {
					n := t.A[0]
					emit(tImp(tLe(tInt(0), n), tEq(mk("len", "", sInt, nil, nil, t), n)))
					emit(tImp(tEq(n, tInt(0)), tEq(t, tEmpty(t.S))))
					if chain[t] < 2 {
						u := tZeros(t.S, z, tAdd(n, tInt(-1)))
						if _, ok := chain[u]; !ok {
							chain[u] = chain[t] + 1
						}
						emit(tImp(tLt(tInt(0), n), tEq(t, tCat(t.S, tUnit(z), u))))
					}
				}
				if r := th.recs[t.Name]; r != nil && !r.opaque && chain[t] < limit {
					m := map[*Term]*Term{}
					for i, p := range r.params {
						m[p] = t.A[i]
					}
					b := subst(r.body, m)
					subterms([]*Term{b}, func(u *Term) {
						if u.Op == "app" && u.Name == t.Name && !all[u] {
							if _, ok := chain[u]; !ok {
								chain[u] = chain[t] + 1
							}
						}
					})
					emit(tEq(t, b))
				}
			}
		}
		if len(th.axs) > 0 {
			pool := make([]*Term, 0, len(all))
			for t := range all {
				pool = append(pool, t)
			}
			sort.Slice(pool, func(i, j int) bool { return pool[i].id < pool[j].id })
			isFresh := map[*Term]bool{}
			for _, t := range fresh {
				isFresh[t] = true
			}
			for _, ax := range th.axs {
				vars := map[*Term]bool{}
				for _, v := range ax.vars {
					vars[v] = true
				}
				var rec func(k int, m map[*Term]*Term, anyFresh bool, dep int)
				rec = func(k int, m map[*Term]*Term, anyFresh bool, dep int) {
					if k > 1 && dep > 2 {
						return // facts about several terms: near the goal only
					}
					if k == len(ax.trig) {
						if anyFresh || round == 0 {
							emit(subst(ax.body, m))
						}
						return
					}
					for _, t := range pool {
						if t.Op != ax.trig[k].Op {
							continue
						}
						m2 := map[*Term]*Term{}
						for a, b := range m {
							m2[a] = b
						}
						if match(ax.trig[k], t, vars, m2) {
							rec(k+1, m2, anyFresh || isFresh[t], dep+depth[t])
						}
					}
				}
				rec(0, map[*Term]*Term{}, false, 0)
			}
		}
		if len(next) == 0 {
			break
		}
		cur = next
	}
	return out
}

// emitStep relates two extracts of a sequence that differ by their first or last element.
func emitStep(t, u *Term, emit func(*Term)) {
	a := t.A[0]
	if t.A[1] == u.A[1] {
		d := tSub(t.A[2], u.A[2])
		if d == tInt(-1) {
			t, u = u, t
		} else if d != tInt(1) {
			return
		}
		o, n := u.A[1], u.A[2]
		emit(tImp(tAnd(tLe(tInt(0), o), tLe(tInt(0), n), tLt(tAdd(o, n), tLen(a))), tEq(t, tCat(a.S, u, tUnit(tNth(a, tAdd(o, n)))))))
		return
	}
	if tAdd(t.A[1], t.A[2]) != tAdd(u.A[1], u.A[2]) {
		return
	}
	d := tSub(t.A[1], u.A[1])
	if d == tInt(1) {
		t, u = u, t
	} else if d != tInt(-1) {
		return
	}
	o, n := u.A[1], u.A[2] // t starts one earlier
	emit(tImp(tAnd(tLt(tInt(0), o), tLe(tInt(0), n), tLe(tAdd(o, n), tLen(a))), tEq(t, tCat(a.S, tUnit(tNth(a, tAdd(o, tInt(-1)))), u))))
}

// byte facts: elements read from byte sequences are bytes is NOT assumed
// globally (sequences of Int also carry integers); facts are added by the
// executor where a Go string/[]byte is indexed.

// preamble declares everything used by ts.
type declSet struct {
	sorts map[string]bool
	syms  map[string]bool
}

func newDeclSet() *declSet { return &declSet{map[string]bool{}, map[string]bool{}} }

func (d *declSet) needSort(s string, sb *strings.Builder) {
	if d.sorts[s] {
		return
	}
	d.sorts[s] = true
	if s == sInt || s == sBool {
		return
	}
	if strings.HasPrefix(s, "(Seq ") {
		d.needSort(elemSort(s), sb)
		return
	}
	if strings.HasPrefix(s, "(Array ") {
		// "(Array K V)"
		k, v := arrSorts(s)
		d.needSort(k, sb)
		d.needSort(v, sb)
		return
	}
	if dt := th.dt(s); dt != nil {
		for _, f := range dt.fields {
			d.needSort(f.sort, sb)
		}
		fmt.Fprintf(sb, "(declare-datatypes ((%s 0)) (((%s", smtName(s), smtName("mk_"+s))
		for _, f := range dt.fields {
			fmt.Fprintf(sb, " (%s %s)", smtName(s+"#"+f.name), smtSort(f.sort))
		}
		sb.WriteString("))))\n")
		return
	}
	fmt.Fprintf(sb, "(declare-sort %s 0)\n", smtName(s))
}
func arrSorts(s string) (string, string) {
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("arrSorts " + s)
}
func smtSort(s string) string {
	switch {
	case s == sInt || s == sBool:
		return s
	case strings.HasPrefix(s, "(Seq "):
		return "(Seq " + smtSort(elemSort(s)) + ")"
	case strings.HasPrefix(s, "(Array "):
		k, v := arrSorts(s)
		return "(Array " + smtSort(k) + " " + smtSort(v) + ")"
	}
	return smtName(s)
}

func (d *declSet) declare(ts []*Term, sb *strings.Builder) {
	subterms(ts, func(t *Term) {
		d.needSort(t.S, sb)
		switch t.Op {
		case "sym":
			if !d.syms[t.Name] {
				d.syms[t.Name] = true
				fmt.Fprintf(sb, "(declare-fun %s () %s)\n", smtName(t.Name), smtSort(t.S))
			}
		case "app":
			if strings.HasPrefix(t.Name, "mk_") || strings.Contains(t.Name, "#") {
				return
			}
			if !d.syms[t.Name] {
				d.syms[t.Name] = true
				var as []string
				for _, a := range t.A {
					as = append(as, smtSort(a.S))
				}
				fmt.Fprintf(sb, "(declare-fun %s (%s) %s)\n", smtName(t.Name), strings.Join(as, " "), smtSort(t.S))
				if strings.HasPrefix(t.Name, "zeros_") {
					fmt.Fprintf(sb, "(assert (= (seq.len %s) %s))\n", smtName(t.Name), t.Name[strings.LastIndexByte(t.Name, '_')+1:])
				}
			}
		}
	})
}

// assertText renders an assertion with sharing through let-free define-fun is
// avoided; terms are small.
func assertText(t *Term) string { return "(assert " + smtText(t) + ")\n" }

// smtText fixes symbol sorts that need quoting.
func smtText(t *Term) string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

type solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	d     *declSet
	tmo   int
	n     int
	split bool // decide the conditions of conditional values one by one
}

var solverTime int64 // ns
var nQueries int64
var backendProved [3]int64 // z3 interactive, z3-new, cvc5

func newSolver() *solver {
	s := &solver{tmo: 3000}
	s.start()
	return s
}
func (s *solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.d = newDeclSet()
	s.n = 0
	io.WriteString(s.in, "(set-option :global-declarations true)\n(set-option :auto_config true)\n")
}
func (s *solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check returns "sat","unsat","unknown" for the conjunction of ts.
func (s *solver) check(ts []*Term, tmoMs int) string {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(t0)))
		atomic.AddInt64(&nQueries, 1)
		if os.Getenv("GOV_SLOW") != "" && time.Since(t0) > 200*time.Millisecond {
			l := 0
			for _, t := range ts {
				l += len(t.pretty())
			}
			fmt.Fprintf(os.Stderr, "SLOW %4dms limit %d size %d %s\n", time.Since(t0)/1e6, tmoMs, l, strings.Join(callers(), "<"))
			if d := os.Getenv("GOV_SMTLOG"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/slow-%d-%d.smt2", d, os.Getpid(), atomic.AddInt64(&nQueries, 1)), []byte(fullScript(ts, false)), 0o644)
			}
		}
	}()
	if s.cmd == nil || s.n > 400 {
		s.close()
		s.start()
	}
	s.n++
	var sb strings.Builder
	s.d.declare(ts, &sb)
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n(push)\n", tmoMs)
	for _, t := range ts {
		sb.WriteString(assertText(t))
	}
	sb.WriteString("(check-sat)\n(pop)\n")
	if dbgSMT != nil {
		dbgSMT.WriteString(sb.String())
	}
	done := make(chan string, 1)
	go func() {
		if _, err := io.WriteString(s.in, sb.String()); err != nil {
			done <- "unknown"
			return
		}
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				done <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			switch l {
			case "sat", "unsat", "unknown", "timeout":
				done <- l
				return
			case "":
			default:
				if strings.HasPrefix(l, "(error") {
					if os.Getenv("GOV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "z3:", l)
					}
					smtErrors.Store(l, true)
				}
			}
		}
	}()
	select {
	case r := <-done:
		if r == "dead" {
			s.close()
			return "unknown"
		}
		if r == "timeout" {
			r = "unknown"
		}
		return r
	case <-time.After(time.Duration(tmoMs)*time.Millisecond + 3*time.Second):
		s.cmd.Process.Kill()
		<-done
		s.close()
		return "unknown"
	}
}

var dbgSMT *os.File
var smtErrors sync.Map

func fullScript(ts []*Term, logic bool) string {
	var sb strings.Builder
	if logic {
		sb.WriteString("(set-logic ALL)\n")
	}
	newDeclSet().declare(ts, &sb)
	for _, t := range ts {
		sb.WriteString(assertText(t))
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// raceLimit bounds the portfolio of fallback back ends on one obligation.
var raceLimit = 15 * time.Second

// race runs the fallback back ends side by side; the first proof wins.
// It returns 1 (z3-new), 2 (cvc5) or 0 (no proof within the limit).
func race(pend [][]*Term, limit time.Duration) int {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&solverTime, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	ms := int(limit / time.Millisecond)
	type res struct {
		who int
		ok  bool
	}
	ch := make(chan res, 2*len(pend))
	n := 0
	for _, ts := range pend {
		a, b := fullScript(ts, false), fullScript(ts, true)
		n += 2
		go func() {
			ch <- res{1, oneShot(ctx, "z3-new", []string{"-in", fmt.Sprintf("-T:%d", ms/1000)}, a) == "unsat"}
		}()
		go func() {
			ch <- res{2, oneShot(ctx, "cvc5", []string{"--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-q"}, b) == "unsat"}
		}()
	}
	for i := 0; i < n; i++ {
		if r := <-ch; r.ok {
			return r.who
		}
	}
	return 0
}

func oneShot(ctx context.Context, bin string, args []string, script string) string {
	atomic.AddInt64(&nQueries, 1)
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// prove decides pc |= goal. It returns "proved", "refuted" (solver found a
// model of the negation) or "unknown", and the back end that decided.
func (s *solver) prove(pc []*Term, goal *Term, quick bool) (string, string) {
	if goal == tTrue {
		return "proved", "simplifier"
	}
	for _, p := range pc {
		if p == goal {
			return "proved", "simplifier"
		}
		if p == tFalse {
			return "proved", "simplifier"
		}
	}
	if goal.Op == "and" {
		worst, be := "proved", ""
		for _, g := range goal.A {
			r, b := s.prove(pc, g, quick)
			be = b
			if r != "proved" {
				return r, b
			}
		}
		return worst, be
	}
	if goal.Op == "or" {
		// push disjuncts but one into hypotheses
		var hyp []*Term
		hyp = append(hyp, pc...)
		var main *Term
		for _, g := range goal.A {
			if main == nil && (g.Op == "and" || (g.Op == "eq" && strings.HasPrefix(g.A[0].S, "(Seq"))) {
				main = g
				continue
			}
			hyp = append(hyp, tNot(g))
		}
		if main == nil {
			main = tFalse
		} else if main.Op == "and" {
			return s.prove(hyp, main, quick)
		}
		return s.proveAtom(hyp, main, quick)
	}
	return s.proveAtom(pc, goal, quick)
}

func (s *solver) proveAtom(pc []*Term, goal *Term, quick bool) (string, string) {
	if s.split && !quick {
		return s.proveSplit(pc, goal, splitDepth)
	}
	return s.proveAtom1(pc, goal, quick)
}

func (s *solver) proveAtom1(pc []*Term, goal *Term, quick bool) (string, string) {
	base := append(append([]*Term{}, pc...), tNot(goal))
	fuels := [][2]int{{2, 2}, {4, 1}, {4, 4}}
	if quick {
		fuels = fuels[:1]
	}
	last := "unknown"
	var pend [][]*Term
	for i, f := range fuels {
		ts := expand(base, f[0], f[1])
		if len(ts) == 1 && ts[0] == tFalse {
			return "proved", "simplifier"
		}
		tmo := 1500
		if quick {
			tmo = 700
		}
		r := s.check(ts, tmo)
		if r == "unsat" {
			atomic.AddInt64(&backendProved[0], 1)
			return "proved", "z3"
		}
		last = r
		if quick {
			break
		}
		if r == "unknown" {
			pend = append(pend, ts)
		}
		_ = i
	}
	if len(pend) > 0 {
		switch race(pend, raceLimit) {
		case 1:
			atomic.AddInt64(&backendProved[1], 1)
			return "proved", "z3-new"
		case 2:
			atomic.AddInt64(&backendProved[2], 1)
			return "proved", "cvc5"
		}
	}
	if d := os.Getenv("GOV_SMTLOG"); d != "" && !quick {
		os.WriteFile(fmt.Sprintf("%s/%d-%d.smt2", d, os.Getpid(), atomic.AddInt64(&nQueries, 1)), []byte("; "+goal.pretty()+"\n"+fullScript(expand(base, 4, 1), false)), 0o644)
	}
	if last == "sat" {
		return "refuted", "z3"
	}
	return "unknown", ""
}

// expand adds the instances of definitions and axioms that base mentions.
func expand(base []*Term, fuel, limit int) []*Term {
	ts := eqSubst(base)
	if len(ts) == 1 && ts[0] == tFalse {
		return ts
	}
	ts = append(append([]*Term{}, ts...), instances(ts, fuel, limit)...)
	return eqSubst(ts)
}

// substitutable terms: symbols and selections from symbols.
func isAtom(t *Term) bool {
	for t.Op == "app" && len(t.A) == 1 && strings.Contains(t.Name, "#") {
		t = t.A[0]
	}
	// definitions unfolded later may mention a package variable again
	return t.Op == "sym" && !strings.HasPrefix(t.Name, "globalval_")
}

// eqSubst uses oriented equalities sym = term to rewrite the other formulas,
// which lets the sequence normaliser decide most goals before the solver runs.
func eqSubst(ts []*Term) []*Term {
	var defs []*Term // equations of eliminated selector chains: their base may occur whole
	for iter := 0; iter < 60; iter++ {
		// flatten
		var flat []*Term
		seen := map[*Term]bool{}
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == "and" {
				for _, a := range t.A {
					add(a)
				}
				return
			}
			if t == tTrue || seen[t] {
				return
			}
			seen[t] = true
			flat = append(flat, t)
		}
		for _, t := range ts {
			add(t)
		}
		for _, t := range flat {
			if t == tFalse {
				return []*Term{tFalse}
			}
			if seen[tNot(t)] {
				return []*Term{tFalse}
			}
		}
		m := map[*Term]*Term{}
		used := map[*Term]bool{}
		for _, t := range flat {
			if t.Op != "eq" {
				continue
			}
			a, b := t.A[0], t.A[1]
			var from, to *Term
			if a.S == sInt {
				// d = 0 ; find a symbol with unit coefficient
				l := toLin(a)
				for s, c := range l.m {
					if isAtom(s) && c.IsInt64() && (c.Int64() == 1 || c.Int64() == -1) {
						if from == nil || s.id > from.id {
							rest := tSub(a, tMulC(c, s))
							to0 := tMulC(new2(-c.Int64()), rest)
							if !occurs(s, to0) {
								from, to = s, to0
							}
						}
					}
				}
			} else {
				if isAtom(a) && !occurs(a, b) {
					from, to = a, b
				} else if isAtom(b) && !occurs(b, a) {
					from, to = b, a
				}
				if from != nil && isAtom(to) && to.id > from.id && !occurs(to, from) {
					from, to = to, from
				}
			}
			if from == nil || used[from] {
				continue
			}
			// one substitution at a time keeps this acyclic
			m[from] = to
			used[from] = true
			for i, d := range defs {
				defs[i] = subst(d, m)
			}
			if from.Op != "sym" {
				defs = append(defs, t)
			}
			break
		}
		if len(m) == 0 {
			return withDefs(flat, defs)
		}
		var nt []*Term
		for _, t := range flat {
			nt = append(nt, subst(t, m))
		}
		ts = nt
	}
	return withDefs(ts, defs)
}

// withDefs adds those equations whose base symbol still occurs whole in ts.
func withDefs(ts, defs []*Term) []*Term {
	if len(defs) == 0 {
		return ts
	}
	whole := map[*Term]bool{}
	subterms(ts, func(t *Term) {
		isSel := t.Op == "app" && len(t.A) == 1 && strings.Contains(t.Name, "#")
		for _, a := range t.A {
			if !isSel && isAtom(a) && th.dt(a.S) != nil {
				whole[a] = true
			}
		}
	})
	for _, d := range defs {
		if d == tTrue {
			continue
		}
		keep := false
		subterms([]*Term{d}, func(t *Term) {
			if whole[t] {
				keep = true
			}
		})
		if keep {
			ts = append(ts, d)
		}
	}
	return ts
}
func occurs(s, t *Term) bool {
	found := false
	subterms([]*Term{t}, func(x *Term) {
		if x == s {
			found = true
		}
	})
	return found
}

func new2(n int64) *bigInt { return newBig(n) }

func callers() []string {
	pc := make([]uintptr, 12)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	var out []string
	for {
		f, more := fr.Next()
		out = append(out, f.Function[strings.LastIndexByte(f.Function, '.')+1:])
		if !more || len(out) > 6 {
			return out
		}
	}
}
