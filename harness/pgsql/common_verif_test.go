// verif:package pgsql
package pgsql

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vf is the state of one replay search: it stops after a few failing inputs.
type vf struct {
	r     *rand.Rand
	found int
	max   int
	until time.Time
	seen  map[string]bool
}

func newVF() *vf {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 60 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 200 * time.Second
	}
	return &vf{r: rand.New(rand.NewSource(seed)), max: 12, until: time.Now().Add(d), seen: map[string]bool{}}
}

func (f *vf) done() bool { return f.found >= f.max || time.Now().After(f.until) }

// bad prints one counterexample; each name is printed once.
func (f *vf) bad(name, format string, args ...interface{}) {
	if f.seen[name] || f.found >= f.max {
		return
	}
	f.seen[name] = true
	f.found++
	fmt.Printf("COUNTEREXAMPLE %s: %s\n", name, fmt.Sprintf(format, args...))
}

func (f *vf) finish(t *testing.T) {
	if f.found > 0 {
		t.Fail()
	}
}

func guard(fn func()) (p interface{}) {
	defer func() { p = recover() }()
	fn()
	return nil
}

// mkFrom calls the valuer constructor fn with v.
func mkFrom(fn interface{}, v reflect.Value) driver.Valuer {
	x := reflect.ValueOf(fn).Call([]reflect.Value{v})[0].Interface()
	return x.(driver.Valuer)
}

// mkTo calls the scanner constructor fn with the pointer p.
func mkTo(fn interface{}, p reflect.Value) sql.Scanner {
	return reflect.ValueOf(fn).Call([]reflect.Value{p})[0].Interface().(sql.Scanner)
}

// asText is the text of a driver value.
func asText(v driver.Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case []byte:
		if x == nil {
			return "", false
		}
		return string(x), true
	}
	return "", false
}

// src gives the text as the driver would: []byte mostly, sometimes string.
func (f *vf) src(s string) interface{} {
	if f.r.Intn(3) == 0 {
		return s
	}
	return []byte(s)
}

var cornerInts = []int64{0, 1, -1, 9, 10, -10, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
	2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 16777217, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}

// randInt draws an integer that fits a kind of that many bits.
func (f *vf) randInt(bits int, signed bool) (int64, uint64) {
	var n int64
	switch f.r.Intn(3) {
	case 0:
		n = cornerInts[f.r.Intn(len(cornerInts))]
	case 1:
		n = int64(f.r.Intn(2001)) - 1000
	default:
		n = int64(f.r.Uint64()) >> uint(f.r.Intn(64))
	}
	if signed {
		s := uint(64 - bits)
		return n << s >> s, 0
	}
	u := uint64(n)
	s := uint(64 - bits)
	return 0, u << s >> s
}

func (f *vf) randFloat(bits int) float64 {
	var x float64
	switch f.r.Intn(4) {
	case 0:
		x = float64(f.r.Intn(2001) - 1000)
	case 1:
		x = math.Round(f.r.NormFloat64()*1e6) / 1e3
	case 2:
		x = f.r.NormFloat64() * math.Pow(10, float64(f.r.Intn(12)))
	default:
		x = []float64{0, 1, -1, 0.5, 0.1, -0.1, 1.5, 123456.789, 16777216, 1e15}[f.r.Intn(10)]
	}
	if bits == 32 {
		return float64(float32(x))
	}
	return x
}

// randNum sets v, of a numeric kind, to a random number.
func (f *vf) randNum(v reflect.Value) {
	switch k := v.Kind(); {
	case k >= reflect.Int && k <= reflect.Int64:
		n, _ := f.randInt(v.Type().Bits(), true)
		v.SetInt(n)
	case k >= reflect.Uint && k <= reflect.Uint64:
		_, n := f.randInt(v.Type().Bits(), false)
		v.SetUint(n)
	default:
		v.SetFloat(f.randFloat(v.Type().Bits()))
	}
}

// numText is the text of the number v in a column of integers (ints) or of
// decimal numbers with fbits significant bits.
func numText(v reflect.Value, ints bool, fbits int) string {
	switch k := v.Kind(); {
	case k >= reflect.Int && k <= reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case k >= reflect.Uint && k <= reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	}
	if ints {
		return strconv.FormatInt(int64(v.Float()), 10)
	}
	return strconv.FormatFloat(v.Float(), 'f', -1, fbits)
}

// parseNum reads the number s into a value of type t; bits is the width of the column.
func parseNum(s string, t reflect.Type, ints bool, bits int) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	b := t.Bits()
	if b > bits {
		b = bits
	}
	switch k := t.Kind(); {
	case k >= reflect.Int && k <= reflect.Int64:
		n, err := strconv.ParseInt(s, 10, b)
		v.SetInt(n)
		return v, err == nil
	case k >= reflect.Uint && k <= reflect.Uint64:
		n, err := strconv.ParseUint(s, 10, b)
		v.SetUint(n)
		return v, err == nil
	}
	if ints {
		n, err := strconv.ParseInt(s, 10, bits)
		if t.Kind() == reflect.Float32 {
			v.SetFloat(float64(float32(n)))
		} else {
			v.SetFloat(float64(n))
		}
		return v, err == nil
	}
	x, err := strconv.ParseFloat(s, t.Bits())
	v.SetFloat(x)
	return v, err == nil
}

// randNumText draws the text of a number, sometimes one that does not fit or does not parse.
func (f *vf) randNumText(ints bool, okOnly bool) string {
	if !okOnly && f.r.Intn(12) == 0 {
		return []string{"", "x", "1x", "-", "1.5.5", "99999999999999999999", "-99999999999999999999", "0x10", " 1", "--1"}[f.r.Intn(10)]
	}
	if !ints && f.r.Intn(2) == 0 {
		return strconv.FormatFloat(f.randFloat(64), 'f', -1, 64)
	}
	switch f.r.Intn(4) {
	case 0:
		_, n := f.randInt(64, false)
		return strconv.FormatUint(n, 10)
	case 1:
		n, _ := f.randInt(64, true)
		return strconv.FormatInt(n, 10)
	case 2:
		return strconv.Itoa(f.r.Intn(301) - 150)
	}
	return strconv.Itoa(f.r.Intn(120))
}

func show(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("[]byte(%q)", x)
	case string:
		return fmt.Sprintf("%q", x)
	}
	s := fmt.Sprintf("%#v", v)
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

func quoteAll(ss []string, q string) []string {
	var out []string
	for _, s := range ss {
		out = append(out, q+strings.ReplaceAll(s, q, q+q)+q)
	}
	return out
}

// fill puts something into *p, so that what a scanner leaves behind shows.
func (f *vf) fillSlice(p reflect.Value, n int, el func(reflect.Value)) {
	s := reflect.MakeSlice(p.Type().Elem(), n, n+3)
	for i := 0; i < n; i++ {
		el(s.Index(i))
	}
	p.Elem().Set(s)
}

// sameSlice compares two slices up to nil-ness of the slice, by element.
func sameSlice(a, b reflect.Value) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !sameVal(a.Index(i), b.Index(i)) {
			return false
		}
	}
	return true
}

func sameVal(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || (math.IsNaN(a.Float()) && math.IsNaN(b.Float()))
	case reflect.Slice, reflect.Array:
		return sameSlice(a, b)
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
