// verif:package .
package gosql

import (
	"strconv"
	"strings"
	"testing"
)

func TestVerifI01(t *testing.T) {
	f := newVF()
	for i := 0; i < len(OrdinalParameters); i++ {
		if w := "$" + strconv.Itoa(i+1); OrdinalParameters[i] != w {
			f.bad("OrdinalParameters", "OrdinalParameters[%d] = %q, want %q", i, OrdinalParameters[i], w)
		}
	}
	check := func(num, pos int) {
		var b strings.Builder
		for i := 0; i < num; i++ {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString("$" + strconv.Itoa(pos+i+1))
		}
		w := b.String()
		var g string
		if p := guard(func() { g = InValueList(num, pos) }); p != nil {
			f.bad("InValueList", "InValueList(%d, %d) panics: %v", num, pos, p)
		} else if g != w {
			f.bad("InValueList", "InValueList(%d, %d) = %.300q, want %.300q", num, pos, g, w)
		}
	}
	for num := -2; num < 130; num++ {
		for pos := 0; pos < 130; pos++ {
			check(num, pos)
		}
	}
	max := 65535
	for _, n := range []int{1, 2, 9, 10, 255, 256, 257, 1000, 1024, 4096, 9999, 10000, 32767, 32768, 65534, 65535} {
		check(n, 0)
		check(n, max-n)
		for _, p := range []int{7, 255, 999, 9990, 32767, 65000} {
			if p+n <= max {
				check(n, p)
			}
		}
	}
	for i := 0; i < 300 && !f.done(); i++ {
		n := f.r.Intn(3000)
		check(n, f.r.Intn(max-n+1))
	}
	f.finish(t)
}
