package main

import (
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"
)

// Proof by cases: joined paths leave conditional values in a goal; each case of
// the outermost conditions is proved on its own, with the conditions decided.

const splitDepth = 14

func (s *solver) proveSplit(pc []*Term, goal *Term, depth int) (string, string) {
	if goal == tTrue {
		return "proved", "simplifier"
	}
	for _, p := range pc {
		if p == tFalse || p == goal {
			return "proved", "simplifier"
		}
	}
	if goal.Op == "and" {
		be := ""
		for _, g := range goal.A {
			r, b := s.proveSplit(pc, g, depth)
			if r != "proved" {
				return r, b
			}
			be = b
		}
		return "proved", be
	}
	c := splitCond(goal)
	if c == nil || depth == 0 {
		if depth < splitDepth {
			ts := expand(append(append([]*Term{}, pc...), tNot(goal)), 2, 2)
			if len(ts) == 1 && ts[0] == tFalse {
				return "proved", "simplifier"
			}
		}
		if rel := relevant(pc, goal); len(rel) < len(pc) {
			for _, f := range [][2]int{{3, 2}, {5, 2}} {
				ts := expand(append(append([]*Term{}, rel...), tNot(goal)), f[0], f[1])
				if len(ts) == 1 && ts[0] == tFalse {
					return "proved", "simplifier"
				}
				if os.Getenv("GOV_DEBUG") == "2" {
					cnt := map[string]int{}
					subterms(ts, func(u *Term) {
						if u.Op == "app" {
							cnt[u.Name]++
						}
					})
					top := ""
					for n, c := range cnt {
						if c > 30 {
							top += fmt.Sprintf(" %s:%d", n, c)
						}
					}
					fmt.Fprintf(os.Stderr, "  leaf rel %d/%d facts, %d expanded:%s\n", len(rel), len(pc), len(ts), top)
				}
				if s.timed("leaf", f[0], ts, 1500) == "unsat" {
					atomic.AddInt64(&backendProved[0], 1)
					return "proved", "z3"
				}
			}
		}
		t0 := time.Now()
		r, b := s.proveAtom1(pc, goal, false)
		if os.Getenv("GOV_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "T full0 %s %d\n", r, time.Since(t0).Milliseconds())
		}
		if r != "proved" && os.Getenv("GOV_DEBUG") == "2" {
			fmt.Fprintf(os.Stderr, "  open case [%s] at depth %d: %s\n", r, depth, goal.pretty())
			for _, p := range pc {
				if len(p.pretty()) < 3000 {
					fmt.Fprintf(os.Stderr, "     case %s\n", p.pretty())
				}
			}
		}
		return r, b
	}
	base := append(append([]*Term{}, pc...), tNot(goal))
	for _, f := range [][2]int{{1, 1}} {
		ts := expand(base, f[0], f[1])
		if len(ts) == 1 && ts[0] == tFalse {
			return "proved", "simplifier"
		}
		if s.timed("node", f[0], ts, 40) == "unsat" {
			return "proved", "z3"
		}
	}
	be := "z3"
	for _, v := range []bool{true, false} {
		pc2, g2, ok := decide(pc, goal, c, v)
		if !ok {
			continue
		}
		r, b := s.proveSplit(pc2, g2, depth-1)
		if r != "proved" {
			return r, b
		}
		be = b
	}
	return "proved", be
}

// decide takes c to be v in the facts and the goal.
func decide(pc []*Term, goal, c *Term, v bool) ([]*Term, *Term, bool) {
	m := map[*Term]*Term{c: tBool(v)}
	if n := tNot(c); n != c {
		m[n] = tBool(!v)
	}
	if v && c.Op == "eq" && c.A[0].S == sInt {
		l := toLin(tSub(c.A[0], c.A[1]))
		if len(l.m) == 1 {
			for a, k := range l.m {
				if k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) && a.Op != "int" {
					m[a] = tMulC(new2(-k.Int64()), tSub(tSub(c.A[0], c.A[1]), tMulC(k, a)))
				}
			}
		}
	}
	fact := c
	if !v {
		fact = tNot(c)
	}
	out := []*Term{fact}
	for _, p := range pc {
		q := subst(p, m)
		if q == tFalse {
			return nil, nil, false
		}
		if q != tTrue {
			out = append(out, q)
		}
	}
	return out, subst(goal, m), true
}

// splitCond finds the condition of an outermost conditional value.
func splitCond(t *Term) *Term {
	seen := map[*Term]bool{}
	queue := []*Term{t}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		if n.Op == "ite" {
			c := n.A[0]
			for c.Op == "not" || c.Op == "and" || c.Op == "or" {
				c = c.A[0]
			}
			if c.Op != "true" && c.Op != "false" {
				return c
			}
		}
		queue = append(queue, n.A...)
	}
	return nil
}

// relevant keeps the facts about the state that are connected to the goal.
func relevant(pc []*Term, goal *Term) []*Term {
	key := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		subterms([]*Term{t}, func(u *Term) {
			if u.Op != "sym" {
				return
			}
			for _, p := range []string{"w!", "mod!", "r_", "arr!", "clob!"} {
				if strings.HasPrefix(u.Name, p) {
					m[u] = true
				}
			}
		})
		return m
	}
	have := key(goal)
	ks := make([]map[*Term]bool, len(pc))
	in := make([]bool, len(pc))
	for i, p := range pc {
		ks[i] = key(p)
		in[i] = len(ks[i]) == 0
	}
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if in[i] {
				continue
			}
			for k := range ks[i] {
				if have[k] {
					in[i] = true
					changed = true
					for k := range ks[i] {
						have[k] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if in[i] {
			out = append(out, p)
		}
	}
	return out
}

func (s *solver) timed(what string, fuel int, ts []*Term, ms int) string {
	t0 := time.Now()
	r := s.check(ts, ms)
	if os.Getenv("GOV_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "T %s%d %s %d\n", what, fuel, r, time.Since(t0).Milliseconds())
	}
	return r
}
