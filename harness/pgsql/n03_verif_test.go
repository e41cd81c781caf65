// verif:package pgsql
package pgsql

import (
	"database/sql/driver"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"
)

func bitChar(v reflect.Value, one, zero string) string {
	if v.Kind() == reflect.Bool && v.Bool() || v.Kind() != reflect.Bool && v.Uint() != 0 {
		return one
	}
	return zero
}

func (f *vf) bits(t reflect.Type, n int) reflect.Value {
	s := reflect.MakeSlice(t, n, n)
	for i := 0; i < n; i++ {
		if f.r.Intn(2) == 0 {
			if e := s.Index(i); e.Kind() == reflect.Bool {
				e.SetBool(true)
			} else {
				e.SetUint(1)
			}
		}
	}
	return s
}

func (f *vf) value(name string, v driver.Valuer, in interface{}, isnil bool, want string) {
	var got driver.Value
	var err error
	if p := guard(func() { got, err = v.Value() }); p != nil {
		f.bad(name+".Value", "%s panics: %v", show(in), p)
		return
	}
	if isnil {
		if got != nil || err != nil {
			f.bad(name+".Value/nil", "a nil slice gives %s, %v", show(got), err)
		}
		return
	}
	s, ok := asText(got)
	if err != nil || !ok || s != want {
		f.bad(name+".Value", "%s gives %s, %v; want %q", show(in), show(got), err, want)
	}
}

// scan reads src into a destination that holds old.
func (f *vf) scan(name string, to interface{}, t reflect.Type, src interface{}, old, want reflect.Value, fails bool) {
	p := reflect.New(t)
	if old.Kind() == reflect.Slice {
		own := reflect.MakeSlice(t, old.Len(), old.Len())
		reflect.Copy(own, old)
		p.Elem().Set(own)
	} else {
		p.Elem().Set(old)
	}
	var err error
	if pn := guard(func() { err = mkTo(to, p).Scan(src) }); pn != nil {
		f.bad(name+".Scan", "%s panics: %v", show(src), pn)
		return
	}
	if fails {
		if err == nil {
			f.bad(name+".Scan/accept", "%s is accepted, gives %s", show(src), show(p.Elem().Interface()))
		} else if !sameVal(p.Elem(), old) {
			f.bad(name+".Scan/kept", "%s fails and leaves %s", show(src), show(p.Elem().Interface()))
		}
		return
	}
	got := p.Elem()
	if err != nil || !reflect.DeepEqual(got.Interface(), want.Interface()) {
		f.bad(name+".Scan", "%s gives %s, %v; want %s", show(src), show(got.Interface()), err, show(want.Interface()))
	}
	if src == nil {
		return
	}
	// the result holds no memory of the source
	if b, ok := src.([]byte); ok {
		for i := range b {
			b[i] = '#'
		}
		if !reflect.DeepEqual(got.Interface(), want.Interface()) {
			f.bad(name+".Scan/shared", "the result changes with the source: %s", show(got.Interface()))
		}
	}
}

func TestVerifN03(t *testing.T) {
	f := newVF()
	type arr struct {
		name      string
		from, to  interface{}
		typ       reflect.Type
		one, zero string
	}
	bs, us, uis := reflect.TypeOf([]bool{}), reflect.TypeOf([]uint8{}), reflect.TypeOf([]uint{})
	arrs := []arr{
		{"BoolArray/bool", BoolArrayFromBoolSlice, BoolArrayToBoolSlice, bs, "t", "f"},
		{"BitArray/bool", BitArrayFromBoolSlice, BitArrayToBoolSlice, bs, "1", "0"},
		{"BitArray/uint8", BitArrayFromUint8Slice, BitArrayToUint8Slice, us, "1", "0"},
		{"BitArray/uint", BitArrayFromUintSlice, BitArrayToUintSlice, uis, "1", "0"},
	}
	vars := []arr{
		{"VarBit/bool", VarBitFromBoolSlice, VarBitToBoolSlice, bs, "1", "0"},
		{"VarBit/uint8", VarBitFromUint8Slice, VarBitToUint8Slice, us, "1", "0"},
	}
	lists := []arr{
		{"VarBitArray/bool", VarBitArrayFromBoolSliceSlice, VarBitArrayToBoolSliceSlice, bs, "1", "0"},
		{"VarBitArray/uint8", VarBitArrayFromUint8SliceSlice, VarBitArrayToUint8SliceSlice, us, "1", "0"},
	}
	text := func(v reflect.Value, one, zero, sep string) string {
		var ss []string
		for i := 0; i < v.Len(); i++ {
			ss = append(ss, bitChar(v.Index(i), one, zero))
		}
		return strings.Join(ss, sep)
	}
	for it := 0; it < 20000 && !f.done(); it++ {
		n := f.r.Intn(7)
		if f.r.Intn(10) == 0 {
			n = f.r.Intn(90)
		}
		null := f.r.Intn(12) == 0
		for _, c := range arrs {
			v, old := f.bits(c.typ, n), f.bits(c.typ, f.r.Intn(5))
			s := "{" + text(v, c.one, c.zero, ",") + "}"
			if null {
				f.value(c.name, mkFrom(c.from, reflect.Zero(c.typ)), nil, true, "")
				f.scan(c.name, c.to, c.typ, nil, old, reflect.Zero(c.typ), false)
				continue
			}
			f.value(c.name, mkFrom(c.from, v), v.Interface(), false, s)
			f.scan(c.name, c.to, c.typ, f.src(s), old, v, false)
		}
		for _, c := range vars {
			v, old := f.bits(c.typ, n), f.bits(c.typ, f.r.Intn(5))
			s := text(v, "1", "0", "")
			if null {
				f.value(c.name, mkFrom(c.from, reflect.Zero(c.typ)), nil, true, "")
				f.scan(c.name, c.to, c.typ, nil, old, reflect.Zero(c.typ), false)
				continue
			}
			f.value(c.name, mkFrom(c.from, v), v.Interface(), false, s)
			f.scan(c.name, c.to, c.typ, f.src(s), old, v, false)
		}
		for _, c := range lists {
			lt := reflect.SliceOf(c.typ)
			mk := func(n int) (reflect.Value, string) {
				v := reflect.MakeSlice(lt, n, n)
				var ss []string
				for i := 0; i < n; i++ {
					switch f.r.Intn(5) {
					case 0:
						ss = append(ss, "NULL")
						continue
					case 1:
						v.Index(i).Set(f.bits(c.typ, 0))
						ss = append(ss, `""`)
						continue
					}
					e := f.bits(c.typ, 1+f.r.Intn(6))
					v.Index(i).Set(e)
					ss = append(ss, text(e, "1", "0", ""))
				}
				return v, "{" + strings.Join(ss, ",") + "}"
			}
			v, s := mk(n)
			old, _ := mk(f.r.Intn(3))
			if null {
				f.value(c.name, mkFrom(c.from, reflect.Zero(lt)), nil, true, "")
				f.scan(c.name, c.to, lt, nil, old, reflect.Zero(lt), false)
				continue
			}
			f.value(c.name, mkFrom(c.from, v), v.Interface(), false, s)
			f.scan(c.name, c.to, lt, f.src(s), old, v, false)
		}
		// strings of bits and numbers
		strs, nums := make([]string, n), make([]int64, n)
		var ss, ns []string
		for i := range strs {
			strs[i] = text(f.bits(bs, f.r.Intn(5)), "1", "0", "")
			if strs[i] == "" {
				ss = append(ss, `""`)
			} else {
				ss = append(ss, strs[i])
			}
			x, _ := f.randInt(64, true)
			if x < 0 {
				x = -(x + 1)
			}
			nums[i] = x
			ns = append(ns, strconv.FormatInt(x, 2))
		}
		st, nt := reflect.TypeOf(strs), reflect.TypeOf(nums)
		olds, oldn := reflect.ValueOf([]string{"1", "11"}), reflect.ValueOf([]int64{7, 8})
		if null {
			f.value("VarBitArray/string", VarBitArrayFromStringSlice(nil), nil, true, "")
			f.value("VarBitArray/int64", VarBitArrayFromInt64Slice(nil), nil, true, "")
			f.scan("VarBitArray/string", VarBitArrayToStringSlice, st, nil, olds, reflect.Zero(st), false)
			f.scan("VarBitArray/int64", VarBitArrayToInt64Slice, nt, nil, oldn, reflect.Zero(nt), false)
			continue
		}
		s := "{" + strings.Join(ss, ",") + "}"
		f.value("VarBitArray/string", VarBitArrayFromStringSlice(strs), strs, false, s)
		f.scan("VarBitArray/string", VarBitArrayToStringSlice, st, f.src(s), olds, reflect.ValueOf(strs), false)
		s = "{" + strings.Join(ns, ",") + "}"
		f.value("VarBitArray/int64", VarBitArrayFromInt64Slice(nums), nums, false, s)
		f.scan("VarBitArray/int64", VarBitArrayToInt64Slice, nt, f.src(s), oldn, reflect.ValueOf(nums), false)
		long := "1" + strings.Repeat("0", 63+f.r.Intn(9))
		if n > 0 {
			k := f.r.Intn(n)
			bad := append([]string{}, ns...)
			bad[k] = long
			f.scan("VarBitArray/int64", VarBitArrayToInt64Slice, nt, f.src("{"+strings.Join(bad, ",")+"}"), oldn, oldn, true)
			x := nums[k]
			f.value("VarBit/int64", VarBitFromInt64(x), x, false, strconv.FormatInt(x, 2))
			zeros := strings.Repeat("0", f.r.Intn(70))
			f.scan("VarBit/int64", VarBitToInt64, reflect.TypeOf(x), f.src(zeros+strconv.FormatInt(x, 2)), reflect.ValueOf(int64(5)), reflect.ValueOf(x), false)
			f.scan("VarBit/int64", VarBitToInt64, reflect.TypeOf(x), f.src(long), reflect.ValueOf(int64(5)), reflect.ValueOf(int64(5)), true)
		}
		b := f.r.Intn(2) == 0
		f.value("Bit/bool", BitFromBool(b), b, false, bitChar(reflect.ValueOf(b), "1", "0"))
	}
	fmt.Println("done")
	f.finish(t)
}
