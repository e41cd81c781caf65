package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type known struct {
	prop, target, obligation, what string
	used                           bool
}

func readKnown(file string) []*known {
	var out []*known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := &known{}
		rest := strings.TrimPrefix(l, "known: ")
		for {
			rest = strings.TrimSpace(rest)
			i := strings.IndexByte(rest, '=')
			j := strings.IndexByte(rest, ' ')
			if i < 0 || j < 0 || i > j {
				break
			}
			v := rest[i+1 : j]
			switch rest[:i] {
			case "property":
				k.prop = v
			case "target":
				k.target = v
			case "obligation":
				k.obligation = v
			default:
				i = -1
			}
			if i < 0 {
				break
			}
			rest = rest[j+1:]
		}
		k.what = rest
		out = append(out, k)
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	par := fs.Int("j", 8, "")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	dir := root()
	cdir := filepath.Join(dir, "contracts")
	all, _ := filepath.Glob(filepath.Join(cdir, "*.spec"))
	var specs []string
	for _, f := range all {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 1 && w[0] == "property" && contains(w[1:], *prop) {
				specs = append(specs, f)
				break
			}
		}
	}
	if len(specs) == 0 {
		fmt.Fprintln(os.Stderr, "no contract carries property", *prop)
		return 1
	}
	os.Setenv("GOV_ROLE", "boss")
	secs := 400
	budget := 780 * time.Second
	if *tier == "thorough" {
		secs = 600
		budget = 3 * time.Hour
	}
	w, err := loadWorld(*repo, specs)
	var failed []*Obligation
	res := map[string]*Result{}
	var order []string
	var skipped []string
	if err != nil {
		failed = append(failed, &Obligation{Target: "load", Name: "loads", Status: "unknown", Detail: err.Error()})
	} else {
		byName := map[string]*Contract{}
		var names []string
		want := map[string]bool{}
		for _, c := range w.sp.All {
			n := taskName(c)
			if n == "" {
				continue
			}
			byName[n] = c
			if c.Kind == "lemma" || contains(c.Props, *prop) {
				if c.Absent {
					skipped = append(skipped, n)
					continue
				}
				names = append(names, n)
				want[n] = true
			}
		}
		done := map[string]bool{}
		deadline := t0.Add(budget)
		for len(names) > 0 {
			for _, n := range names {
				done[n] = true
			}
			order = append(order, names...)
			// long tasks first
			for n, r := range runTasksUntil(*repo, specs, names, *par, secs, deadline) {
				res[n] = r
			}
			names = nil
			for _, r := range res {
				for _, c := range r.Callees {
					if !done[c] && byName[c] != nil && !contains(names, c) {
						names = append(names, c)
					}
				}
			}
			sort.Strings(names)
		}
		for _, n := range order {
			for _, o := range res[n].Obls {
				if o.Status != "discharged" {
					failed = append(failed, o)
				}
			}
		}
	}
	kn := readKnown(filepath.Join(dir, "KNOWN_FINDINGS.txt"))
	var fresh []*Obligation
	for _, o := range failed {
		hit := false
		for _, k := range kn {
			if k.prop == *prop && k.target == o.Target && k.obligation == o.Name {
				hit = true
				if !k.used {
					k.used = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", *prop, o.Target, o.Name, k.what)
				}
			}
		}
		if !hit {
			fresh = append(fresh, o)
		}
	}
	code := 0
	var cex []string
	// functions without a contract are checked by a bounded search, on every run
	var bounded []string
	if w != nil {
		for _, b := range w.sp.bounded {
			if b[0] == *prop {
				bounded = append(bounded, b[1])
			}
		}
	}
	var out string
	if len(bounded) > 0 && len(fresh) == 0 {
		cex, out = searchInput(*repo, dir, *prop, seed, *tier, "VERIF_BOUNDED=1")
		if !strings.Contains(out, "CASES ") {
			fmt.Println("bounded search did not run:", firstLines(out, 3))
		}
	}
	if len(fresh) > 0 || len(cex) > 0 {
		code = 1
		if len(fresh) > 0 {
			cex, out = searchInput(*repo, dir, *prop, seed, *tier)
		}
		rp := filepath.Join(dir, "evidence", "replay-"+*prop+".txt")
		os.MkdirAll(filepath.Dir(rp), 0o755)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\n\nobligations that the verifier no longer discharges for the current source:\n", *prop)
		for _, o := range fresh {
			fmt.Fprintf(&sb, "\n== %s / %s  [%s] at %s\n%s\n", o.Target, o.Name, o.Status, o.Pos, o.Detail)
			if o.Pc != "" {
				fmt.Fprintf(&sb, "path condition:\n%s", o.Pc)
			}
		}
		if len(cex) > 0 {
			fmt.Fprintf(&sb, "\nfailing inputs replayed against the real code (rerun: GOV_ROOT=%s %s replay -property %s):\n", dir, os.Args[0], *prop)
			for _, c := range cex {
				fmt.Fprintln(&sb, c)
			}
		} else {
			fmt.Fprintf(&sb, "\nno failing input was found by the replay search; its output:\n%s\n", out)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, o := range fresh {
			if i < 12 {
				d := o.Detail
				if len(d) > 300 {
					d = d[:300] + "…"
				}
				fmt.Printf("failed obligation: %s / %s [%s] %s %s\n", o.Target, o.Name, o.Status, o.Pos, d)
			}
		}
		for i, c := range cex {
			if i < 5 {
				fmt.Println("failing input:", c)
			}
		}
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, rp)
		if len(cex) == 0 {
			line += " no-failing-input-found"
		}
		fmt.Println(line)
	}
	// evidence
	ev := map[string]interface{}{}
	nob, ndis := 0, 0
	backends := map[string]int{}
	funcs, inl, trust, assumed, lem := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, []string{}
	solver := 0.0
	var queries int64
	perTarget := []map[string]interface{}{}
	for _, n := range order {
		r := res[n]
		dis := 0
		for _, o := range r.Obls {
			nob++
			if o.Status == "discharged" {
				ndis++
				dis++
				backends[o.By]++
			}
		}
		solver += r.Solver
		queries += r.Queries
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for _, f := range r.Inlined {
			inl[f] = true
		}
		for _, f := range r.Trusted {
			trust[f] = true
		}
		for _, f := range r.Assumed {
			assumed[f] = true
		}
		if r.Kind == "lemma" {
			lem = append(lem, n)
		}
		perTarget = append(perTarget, map[string]interface{}{"task": n, "obligations": len(r.Obls), "discharged": dis, "seconds": round2(r.Secs)})
	}
	tb := []string{"gov, the verifier in /verif/gov (symbolic execution of go/ssa, term simplifier, condition generator)", "golang.org/x/tools/go/ssa translation of the source", "z3 4.8.12 (primary), z3 5.3 and cvc5 1.1.2 (fallback back ends)"}
	for f := range trust {
		tb = append(tb, "assumed contract of "+f)
	}
	sort.Strings(tb[3:])
	if w != nil {
		for _, a := range w.sp.axs {
			tb = append(tb, "axiom "+a.name)
		}
	}
	ass := sortedKeys(assumed)
	ass = append(ass, "64-bit integer arithmetic is treated as mathematical; narrower arithmetic and all narrowing conversions wrap exactly", "termination is not verified", "no data races: callers do not mutate arguments concurrently")
	ev["property"] = *prop
	ev["tier"] = *tier
	ev["seed"] = seed
	ev["level"] = "proof"
	ev["wall_s"] = round2(time.Since(t0).Seconds())
	ev["assumptions"] = ass
	ev["violations"] = len(fresh)
	ev["coverage"] = map[string]interface{}{
		"obligations": nob, "discharged": ndis,
		"checker_cmd":              "bin/gov check -property " + *prop,
		"trusted_base":             tb,
		"discharged_by":            backends,
		"solver_seconds":           round2(solver),
		"solver_queries":           queries,
		"functions_under_contract": sortedKeys(funcs),
		"functions_verified_inline_in_their_callers": sortedKeys(inl),
		"lemmas":                     lem,
		"tasks":                      perTarget,
		"contracts_without_function": skipped,
		"failing_inputs":             cex,
	}
	if len(bounded) > 0 {
		cases := "did not run"
		if i := strings.Index(out, "CASES "); i >= 0 {
			cases = firstLines(out[i+len("CASES "):], 1)
		}
		ev["coverage"].(map[string]interface{})["bounded"] = map[string]interface{}{
			"note":      "a bounded search stands in for contracts on these functions; it proves nothing",
			"functions": bounded, "bound": cases,
		}
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", *prop+".json"), b, 0o644)
	fmt.Printf("%s: %d of %d obligations discharged in %d tasks, %.1fs (solver %.1fs, %d queries)\n", *prop, ndis, nob, len(order), time.Since(t0).Seconds(), solver, queries)
	return code
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " ")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// searchInput replays the property's executable oracle against the real code.
func searchInput(repo, dir, prop string, seed int, tier string, env ...string) (cex []string, out string) {
	work, err := os.MkdirTemp("", "gov-replay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(work)
	rep := map[string]string{}
	hs, _ := filepath.Glob(filepath.Join(dir, "harness", "*", "*_verif_test.go"))
	pkgs := map[string]bool{}
	for _, h := range hs {
		b, _ := os.ReadFile(h)
		rel := "."
		for _, l := range strings.SplitN(string(b), "\n", 5) {
			if strings.HasPrefix(l, "// verif:package ") {
				rel = strings.TrimSpace(l[len("// verif:package "):])
			}
		}
		rep[filepath.Join(repo, rel, filepath.Base(h))] = h
		if strings.Contains(string(b), "func TestVerif"+prop+"(") {
			pkgs["./"+rel] = true
		}
	}
	if len(pkgs) == 0 {
		return nil, "no replay harness"
	}
	// the repository's own tests are left out: some need a database
	for p := range pkgs {
		own, _ := filepath.Glob(filepath.Join(repo, p, "*_test.go"))
		for _, f := range own {
			if rep[f] == "" {
				rep[f] = ""
			}
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(work, "overlay.json")
	os.WriteFile(ov, b, 0o644)
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "240s", "-run", "^TestVerif" + prop + "$", "-v"}
	args = append(args, sortedKeys(pkgs)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "TZ=UTC")
	cmd.Env = append(cmd.Env, env...)
	o, _ := cmd.CombinedOutput()
	sc := bufio.NewScanner(strings.NewReader(string(o)))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if i := strings.Index(l, "COUNTEREXAMPLE "); i >= 0 {
			cex = append(cex, l[i+len("COUNTEREXAMPLE "):])
		}
	}
	s := string(o)
	if len(s) > 20000 {
		s = s[:20000]
	}
	return cex, s
}
