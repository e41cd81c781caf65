// verif:package internal/postgres
package postgres

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/frk/gosql/internal/postgres/oid"
)

// converters are the exported functions of pgsql with one parameter: the spelling of its
// type, and whether they return a driver.Valuer or a sql.Scanner.
type converter struct{ param, result string }

func converters() map[string]converter {
	out := map[string]converter{}
	files, _ := filepath.Glob("../../pgsql/*.go")
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, src, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !fd.Name.IsExported() || len(fd.Type.Params.List) != 1 || fd.Type.Results == nil || len(fd.Type.Results.List) != 1 {
				continue
			}
			out[fd.Name.Name] = converter{types.ExprString(fd.Type.Params.List[0].Type), types.ExprString(fd.Type.Results.List[0].Type)}
		}
	}
	return out
}

func oidName(o oid.OID) string { return "oid " + itoa(int(o)) }

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// spellings of the same type
func norm(s string) string {
	s = strings.ReplaceAll(s, "any", "interface{}")
	s = strings.ReplaceAll(s, "[]uint8", "[]byte")
	if s == "uint8" {
		s = "byte"
	}
	s = strings.ReplaceAll(s, "[]int32", "[]rune")
	if s == "int32" {
		s = "rune"
	}
	return s
}

// searchTable goes through every entry of the compatibility table: the functions named
// exist, convert in the right direction, take the entry's Go type, and belong to one
// family per column type.
func searchTable(f *vf) int {
	fns := converters()
	n := 0
	var keys []compkey
	for k := range compatibility.oid2literal {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].oid < keys[j].oid || keys[i].oid == keys[j].oid && keys[i].typmod1
	})
	for _, k := range keys {
		row := compatibility.oid2literal[k]
		var lits []string
		for l := range row {
			lits = append(lits, string(l))
		}
		sort.Strings(lits)
		fam := map[string]int{}
		for _, l := range lits {
			for _, s := range []string{row[LT(l)].valuer, row[LT(l)].scanner} {
				if s != "" {
					fam[family(s)]++
				}
			}
		}
		best := ""
		for s, c := range fam {
			if c > fam[best] || c == fam[best] && s < best {
				best = s
			}
		}
		for _, l := range lits {
			n++
			e := row[LT(l)]
			for i, s := range []string{e.valuer, e.scanner} {
				if s == "" {
					continue
				}
				dir, param, result := "From", l, "driver.Valuer"
				if i == 1 {
					dir, param, result = "To", "*"+l, "sql.Scanner"
				}
				name := "table/" + oidName(k.oid) + "/" + l + "/" + dir
				c, ok := fns[s]
				switch {
				case !ok:
					f.bad(name, "pgsql has no function %s", s)
				case !strings.Contains(c.result, result):
					f.bad(name, "%s returns %s", s, c.result)
				case norm(c.param) != norm(param) && c.param != "interface{}":
					f.bad(name, "%s takes %s", s, c.param)
				case family(s) != best:
					f.bad(name, "%s among the functions of %s", s, best)
				}
			}
		}
	}
	return n
}

func family(s string) string {
	for _, d := range []string{"From", "To"} {
		if i := strings.Index(s, d); i > 0 {
			return s[:i]
		}
	}
	return s
}
