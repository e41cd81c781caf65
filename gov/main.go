package main

// gov: a deductive verifier for Go functions under contract.
//
//   gov check  -property ID [-tier quick|thorough]   verify one property
//   gov run    -spec FILE [-only NAME]               verify targets (debugging)
//   gov worker ...                                   internal

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov check|run|worker|selftest")
		os.Exit(2)
	}
	// the toolchain /repo is built with
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "HOME": "/root", "LANG": "C.UTF-8"} {
		os.Setenv(k, v)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "replay":
		fs := flag.NewFlagSet("replay", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		prop := fs.String("property", "", "")
		v := fs.Bool("v", false, "")
		fs.Parse(os.Args[2:])
		cex, out := searchInput(*repo, root(), *prop, 1, "quick")
		for _, c := range cex {
			fmt.Println("failing input:", c)
		}
		if *v || len(cex) == 0 {
			fmt.Println(out)
		}
		if len(cex) > 0 {
			os.Exit(1)
		}
	case "worker":
		cmdWorker(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

type world struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	sp   *Spec
}

func root() string {
	if r := os.Getenv("GOV_ROOT"); r != "" {
		return r
	}
	e, _ := os.Executable()
	return filepath.Dir(filepath.Dir(e))
}

// loadProgram type-checks the given package patterns of /repo from source and
// builds their SSA form; dependencies come from export data.
func loadProgram(dir string, pats []string) (*ssa.Program, []*ssa.Package, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
		Dir: dir,
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, nil, nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	var out []*ssa.Package
	for _, s := range sps {
		if s != nil {
			s.Build()
			out = append(out, s)
		}
	}
	return prog, out, ps, nil
}

// usesOf lists a spec file and the files it includes, dependencies first.
func usesOf(file string, seen map[string]bool) ([]string, []string, error) {
	if seen[file] {
		return nil, nil, nil
	}
	seen[file] = true
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	var out, pkgs []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "use ") {
			o, p, err := usesOf(filepath.Join(filepath.Dir(file), strings.TrimSpace(l[4:])), seen)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, o...)
			pkgs = append(pkgs, p...)
		}
		if strings.HasPrefix(l, "package ") {
			pkgs = append(pkgs, strings.Fields(l)[1:]...)
		}
	}
	return append(out, file), pkgs, nil
}

func loadWorld(repo string, specs []string) (*world, error) {
	seen := map[string]bool{}
	var files, pats []string
	for _, s := range specs {
		f, p, err := usesOf(s, seen)
		if err != nil {
			return nil, err
		}
		files = append(files, f...)
		pats = append(pats, p...)
	}
	sort.Strings(pats)
	var up []string
	for i, p := range pats {
		if i == 0 || p != pats[i-1] {
			up = append(up, p)
		}
	}
	prog, pkgs, ps, err := loadProgram(repo, up)
	if err != nil {
		return nil, fmt.Errorf("loading %v: %v", up, err)
	}
	goTypePkgs = ps
	sp := &Spec{byName: map[string]*Contract{}, pkgs: ps}
	for _, f := range files {
		if err := sp.load(f); err != nil {
			return nil, err
		}
	}
	// helper contracts whose function is gone or has another shape do not apply
	for _, c := range sp.All {
		if c.Kind != "func" {
			continue
		}
		if !contractApplies(pkgs, prog, c) {
			c.Absent = true
			delete(sp.byName, c.Name)
		}
	}
	// packages in dependency order
	byPath := map[string]*ssa.Package{}
	for _, p := range pkgs {
		byPath[p.Pkg.Path()] = p
	}
	var order []*ssa.Package
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Pkg.Imports() {
			visit(byPath[i.Path()])
		}
		order = append(order, p)
	}
	for _, p := range pkgs {
		visit(p)
	}
	w := &world{prog: prog, pkgs: order, sp: sp}
	if os.Getenv("GOV_ROLE") != "boss" {
		findMutable(order)
		var withInit []*ssa.Package
		for _, p := range order {
			if !sp.noInit[p.Pkg.Name()] {
				withInit = append(withInit, p)
			}
		}
		runInits(prog, sp, withInit)
	}
	checkpoint()
	return w, nil
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	spec := fs.String("spec", "", "")
	only := fs.String("only", "", "")
	smt := fs.String("smt", "", "directory for failing queries")
	v := fs.Bool("v", false, "")
	par := fs.Int("j", 7, "")
	secs := fs.Int("t", 120, "")
	fs.Parse(args)
	specs := strings.Split(*spec, ",")
	os.Setenv("GOV_ROLE", "boss")
	w, err := loadWorld(*repo, specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gov:", err)
		return 2
	}
	var names []string
	for _, c := range w.sp.All {
		n := taskName(c)
		if n != "" && (*only == "" || matchAny(*only, n)) {
			names = append(names, n)
		}
	}
	res := runTasks(*repo, specs, names, *par, *secs)
	bad := 0
	for _, n := range names {
		r := res[n]
		nb := 0
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				nb++
			}
		}
		fmt.Printf("%-50s %4d obligations %3d failed  %6.1fs steps=%d returns=%d\n", n, len(r.Obls), nb, r.Secs, r.Steps, r.Returns)
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				bad++
				d := o.Detail
				if !*v && len(d) > 400 {
					d = d[:400] + "…"
				}
				fmt.Printf("    FAILED %s [%s] %s %s\n", o.Name, o.Status, o.Pos, d)
				if *smt != "" {
					os.WriteFile(filepath.Join(*smt, strings.Map(func(r rune) rune {
						if r == '/' || r == ':' || r == ' ' {
							return '_'
						}
						return r
					}, n+"-"+o.Name)+".smt2"), []byte(o.SMT), 0o644)
				}
				if *v {
					fmt.Println(o.Pc)
				}
			} else if *v {
				fmt.Printf("    ok %s %s %s\n", o.Name, o.By, o.Detail)
			}
		}
		if *v {
			fmt.Println("    assumed:", strings.Join(r.Assumed, "; "))
			fmt.Println("    trusted:", strings.Join(r.Trusted, "; "))
			fmt.Println("    inlined:", strings.Join(r.Inlined, "; "))
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func contractApplies(pkgs []*ssa.Package, prog *ssa.Program, c *Contract) bool {
	w := &world{prog: prog, pkgs: pkgs}
	parts := strings.Split(c.Target, ".")
	var fn *ssa.Function
	switch len(parts) {
	case 2:
		fn = w.lookupFn(parts[0], "", parts[1])
	case 3:
		fn = w.lookupFn(parts[0], parts[1], parts[2])
	}
	if it := w.ifaceOf(c); it != nil {
		obj, _, _ := types.LookupFieldOrMethod(it, false, pkgOf(it), parts[2])
		f, ok := obj.(*types.Func)
		return ok && f.Type().(*types.Signature).Params().Len()+1 == len(c.Params)
	}
	return fn != nil && len(fn.Params) == len(c.Params)
}

func matchAny(pats, n string) bool {
	for _, p := range strings.Split(pats, ",") {
		if p == n {
			return true
		}
		if ok, _ := filepath.Match(p, n); ok {
			return true
		}
	}
	return false
}

func taskName(c *Contract) string {
	switch c.Kind {
	case "func":
		if c.Inline || c.Absent || c.Opts["trusted"] {
			return ""
		}
		return c.Name
	case "target":
		return c.Name
	case "global":
		return c.Name
	case "lemma":
		return "lemma " + c.Name
	}
	return ""
}
