// verif:package filter
package filter

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

// vf is the state of one replay search: it stops after a few failing inputs.
type vf struct {
	r     *rand.Rand
	found int
	max   int
	until time.Time
	seen  map[string]bool
}

func newVF() *vf {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 60 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 200 * time.Second
	}
	return &vf{r: rand.New(rand.NewSource(seed)), max: 12, until: time.Now().Add(d), seen: map[string]bool{}}
}

func (f *vf) done() bool { return f.found >= f.max || time.Now().After(f.until) }

// bad prints one counterexample; each name is printed once.
func (f *vf) bad(name, format string, args ...interface{}) {
	if f.seen[name] || f.found >= f.max {
		return
	}
	f.seen[name] = true
	f.found++
	fmt.Printf("COUNTEREXAMPLE %s: %s\n", name, fmt.Sprintf(format, args...))
}

func (f *vf) finish(t *testing.T) {
	if f.found > 0 {
		t.Fail()
	}
}

func guard(fn func()) (p interface{}) {
	defer func() { p = recover() }()
	fn()
	return nil
}
