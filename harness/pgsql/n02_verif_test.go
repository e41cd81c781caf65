// verif:package pgsql
package pgsql

import (
	"reflect"
	"strings"
	"testing"
)

var rangeCodecs = []numCodec{
	{"Int4Range/int", Int4RangeFromIntArray2, Int4RangeToIntArray2, true, 32, 64, false},
	{"Int4Range/int8", Int4RangeFromInt8Array2, Int4RangeToInt8Array2, true, 32, 64, false},
	{"Int4Range/int16", Int4RangeFromInt16Array2, Int4RangeToInt16Array2, true, 32, 64, false},
	{"Int4Range/int32", Int4RangeFromInt32Array2, Int4RangeToInt32Array2, true, 32, 64, false},
	{"Int4Range/int64", Int4RangeFromInt64Array2, Int4RangeToInt64Array2, true, 32, 64, false},
	{"Int4Range/uint", Int4RangeFromUintArray2, Int4RangeToUintArray2, true, 32, 64, false},
	{"Int4Range/uint8", Int4RangeFromUint8Array2, Int4RangeToUint8Array2, true, 32, 64, false},
	{"Int4Range/uint16", Int4RangeFromUint16Array2, Int4RangeToUint16Array2, true, 32, 64, false},
	{"Int4Range/uint32", Int4RangeFromUint32Array2, Int4RangeToUint32Array2, true, 32, 64, false},
	{"Int4Range/uint64", Int4RangeFromUint64Array2, Int4RangeToUint64Array2, true, 32, 64, false},
	{"Int4Range/float32", Int4RangeFromFloat32Array2, Int4RangeToFloat32Array2, true, 32, 32, false},
	{"Int4Range/float64", Int4RangeFromFloat64Array2, Int4RangeToFloat64Array2, true, 32, 64, false},
	{"Int8Range/int", Int8RangeFromIntArray2, Int8RangeToIntArray2, true, 64, 64, false},
	{"Int8Range/int8", Int8RangeFromInt8Array2, Int8RangeToInt8Array2, true, 64, 64, false},
	{"Int8Range/int16", Int8RangeFromInt16Array2, Int8RangeToInt16Array2, true, 64, 64, false},
	{"Int8Range/int32", Int8RangeFromInt32Array2, Int8RangeToInt32Array2, true, 64, 64, false},
	{"Int8Range/int64", Int8RangeFromInt64Array2, Int8RangeToInt64Array2, true, 64, 64, false},
	{"Int8Range/uint", Int8RangeFromUintArray2, Int8RangeToUintArray2, true, 64, 64, false},
	{"Int8Range/uint8", Int8RangeFromUint8Array2, Int8RangeToUint8Array2, true, 64, 64, false},
	{"Int8Range/uint16", Int8RangeFromUint16Array2, Int8RangeToUint16Array2, true, 64, 64, false},
	{"Int8Range/uint32", Int8RangeFromUint32Array2, Int8RangeToUint32Array2, true, 64, 64, false},
	{"Int8Range/uint64", Int8RangeFromUint64Array2, Int8RangeToUint64Array2, true, 64, 64, false},
	{"Int8Range/float32", Int8RangeFromFloat32Array2, Int8RangeToFloat32Array2, true, 64, 32, false},
	{"Int8Range/float64", Int8RangeFromFloat64Array2, Int8RangeToFloat64Array2, true, 64, 64, false},
	{"NumRange/int", NumRangeFromIntArray2, NumRangeToIntArray2, false, 64, 64, false},
	{"NumRange/int8", NumRangeFromInt8Array2, NumRangeToInt8Array2, false, 64, 64, false},
	{"NumRange/int16", NumRangeFromInt16Array2, NumRangeToInt16Array2, false, 64, 64, false},
	{"NumRange/int32", NumRangeFromInt32Array2, NumRangeToInt32Array2, false, 64, 64, false},
	{"NumRange/int64", NumRangeFromInt64Array2, NumRangeToInt64Array2, false, 64, 64, false},
	{"NumRange/uint", NumRangeFromUintArray2, NumRangeToUintArray2, false, 64, 64, false},
	{"NumRange/uint8", NumRangeFromUint8Array2, NumRangeToUint8Array2, false, 64, 64, false},
	{"NumRange/uint16", NumRangeFromUint16Array2, NumRangeToUint16Array2, false, 64, 64, false},
	{"NumRange/uint32", NumRangeFromUint32Array2, NumRangeToUint32Array2, false, 64, 64, false},
	{"NumRange/uint64", NumRangeFromUint64Array2, NumRangeToUint64Array2, false, 64, 64, false},
	{"NumRange/float32", NumRangeFromFloat32Array2, NumRangeToFloat32Array2, false, 64, 32, false},
	{"NumRange/float64", NumRangeFromFloat64Array2, NumRangeToFloat64Array2, false, 64, 64, false},
}

var rangeArrCodecs = []numCodec{
	{"Int4RangeArray/int", Int4RangeArrayFromIntArray2Slice, Int4RangeArrayToIntArray2Slice, true, 32, 64, false},
	{"Int4RangeArray/int8", Int4RangeArrayFromInt8Array2Slice, Int4RangeArrayToInt8Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/int16", Int4RangeArrayFromInt16Array2Slice, Int4RangeArrayToInt16Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/int32", Int4RangeArrayFromInt32Array2Slice, Int4RangeArrayToInt32Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/int64", Int4RangeArrayFromInt64Array2Slice, Int4RangeArrayToInt64Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/uint", Int4RangeArrayFromUintArray2Slice, Int4RangeArrayToUintArray2Slice, true, 32, 64, false},
	{"Int4RangeArray/uint8", Int4RangeArrayFromUint8Array2Slice, Int4RangeArrayToUint8Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/uint16", Int4RangeArrayFromUint16Array2Slice, Int4RangeArrayToUint16Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/uint32", Int4RangeArrayFromUint32Array2Slice, Int4RangeArrayToUint32Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/uint64", Int4RangeArrayFromUint64Array2Slice, Int4RangeArrayToUint64Array2Slice, true, 32, 64, false},
	{"Int4RangeArray/float32", Int4RangeArrayFromFloat32Array2Slice, Int4RangeArrayToFloat32Array2Slice, true, 32, 32, false},
	{"Int4RangeArray/float64", Int4RangeArrayFromFloat64Array2Slice, Int4RangeArrayToFloat64Array2Slice, true, 32, 64, false},
	{"Int8RangeArray/int", Int8RangeArrayFromIntArray2Slice, Int8RangeArrayToIntArray2Slice, true, 64, 64, false},
	{"Int8RangeArray/int8", Int8RangeArrayFromInt8Array2Slice, Int8RangeArrayToInt8Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/int16", Int8RangeArrayFromInt16Array2Slice, Int8RangeArrayToInt16Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/int32", Int8RangeArrayFromInt32Array2Slice, Int8RangeArrayToInt32Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/int64", Int8RangeArrayFromInt64Array2Slice, Int8RangeArrayToInt64Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/uint", Int8RangeArrayFromUintArray2Slice, Int8RangeArrayToUintArray2Slice, true, 64, 64, false},
	{"Int8RangeArray/uint8", Int8RangeArrayFromUint8Array2Slice, Int8RangeArrayToUint8Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/uint16", Int8RangeArrayFromUint16Array2Slice, Int8RangeArrayToUint16Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/uint32", Int8RangeArrayFromUint32Array2Slice, Int8RangeArrayToUint32Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/uint64", Int8RangeArrayFromUint64Array2Slice, Int8RangeArrayToUint64Array2Slice, true, 64, 64, false},
	{"Int8RangeArray/float32", Int8RangeArrayFromFloat32Array2Slice, Int8RangeArrayToFloat32Array2Slice, true, 64, 32, false},
	{"Int8RangeArray/float64", Int8RangeArrayFromFloat64Array2Slice, Int8RangeArrayToFloat64Array2Slice, true, 64, 64, false},
	{"NumRangeArray/int", NumRangeArrayFromIntArray2Slice, NumRangeArrayToIntArray2Slice, false, 64, 64, false},
	{"NumRangeArray/int8", NumRangeArrayFromInt8Array2Slice, NumRangeArrayToInt8Array2Slice, false, 64, 64, false},
	{"NumRangeArray/int16", NumRangeArrayFromInt16Array2Slice, NumRangeArrayToInt16Array2Slice, false, 64, 64, false},
	{"NumRangeArray/int32", NumRangeArrayFromInt32Array2Slice, NumRangeArrayToInt32Array2Slice, false, 64, 64, false},
	{"NumRangeArray/int64", NumRangeArrayFromInt64Array2Slice, NumRangeArrayToInt64Array2Slice, false, 64, 64, false},
	{"NumRangeArray/uint", NumRangeArrayFromUintArray2Slice, NumRangeArrayToUintArray2Slice, false, 64, 64, false},
	{"NumRangeArray/uint8", NumRangeArrayFromUint8Array2Slice, NumRangeArrayToUint8Array2Slice, false, 64, 64, false},
	{"NumRangeArray/uint16", NumRangeArrayFromUint16Array2Slice, NumRangeArrayToUint16Array2Slice, false, 64, 64, false},
	{"NumRangeArray/uint32", NumRangeArrayFromUint32Array2Slice, NumRangeArrayToUint32Array2Slice, false, 64, 64, false},
	{"NumRangeArray/uint64", NumRangeArrayFromUint64Array2Slice, NumRangeArrayToUint64Array2Slice, false, 64, 64, false},
	{"NumRangeArray/float32", NumRangeArrayFromFloat32Array2Slice, NumRangeArrayToFloat32Array2Slice, false, 64, 32, false},
	{"NumRangeArray/float64", NumRangeArrayFromFloat64Array2Slice, NumRangeArrayToFloat64Array2Slice, false, 64, 64, false},
}

func TestVerifN02(t *testing.T) {
	f := newVF()
	for round := 0; round < 20000 && !f.done(); round++ {
		for _, c := range rangeCodecs {
			f.oneRange(c, round)
		}
		for _, c := range rangeArrCodecs {
			f.rangeArr(c, round)
		}
	}
	f.finish(t)
}

func rangeText(v reflect.Value, c numCodec) string {
	return "[" + numText(v.Index(0), c.ints, c.fbits) + "," + numText(v.Index(1), c.ints, c.fbits) + ")"
}

// randRange draws the text of a range and what it reads as.
func (f *vf) randRange(c numCodec, t reflect.Type, okOnly bool) (string, reflect.Value, bool) {
	exp := reflect.New(t).Elem()
	ok := true
	if f.r.Intn(15) == 0 {
		return "empty", exp, true
	}
	var ss [2]string
	for i := range ss {
		switch f.r.Intn(6) {
		case 0:
		case 1:
			if !okOnly {
				ss[i] = f.randNumText(c.ints, false)
			}
		default:
			x := reflect.New(t.Elem()).Elem()
			f.randNum(x)
			ss[i] = numText(x, c.ints, c.fbits)
		}
		if ss[i] == "" {
			continue
		}
		x, good := parseNum(ss[i], t.Elem(), c.ints, c.bits)
		ok = ok && good
		if good {
			exp.Index(i).Set(x)
		}
	}
	return "[("[f.r.Intn(2):][:1] + ss[0] + "," + ss[1] + ")]"[f.r.Intn(2):][:1], exp, ok
}

func (f *vf) oneRange(c numCodec, round int) {
	t := reflect.TypeOf(c.from).In(0)
	v := reflect.New(t).Elem()
	f.randNum(v.Index(0))
	f.randNum(v.Index(1))
	want := rangeText(v, c)
	var got interface{}
	var err error
	if p := guard(func() { got, err = mkFrom(c.from, v).Value() }); p != nil {
		f.bad(c.name+" write", "writing %s panics: %v", show(v.Interface()), p)
	} else if s, ok := asText(got); err != nil || !ok || s != want {
		f.bad(c.name+" write", "%s is written as %s, %v; want %q", show(v.Interface()), show(got), err, want)
	}
	p := reflect.New(t)
	f.randNum(p.Elem().Index(0))
	f.randNum(p.Elem().Index(1))
	before := p.Elem().Interface()
	if round%11 == 10 {
		if pc := guard(func() { err = mkTo(c.to, p).Scan(nil) }); pc != nil || err != nil || p.Elem().Interface() != before {
			f.bad(c.name+" read null", "reading NULL into %s gives %s, %v, panic %v; want it unchanged", show(before), show(p.Elem().Interface()), err, pc)
		}
		return
	}
	text, exp, ok := f.randRange(c, t, round%3 == 0)
	if pc := guard(func() { err = mkTo(c.to, p).Scan(f.src(text)) }); pc != nil {
		f.bad(c.name+" read", "reading %q panics: %v", text, pc)
	} else if ok && (err != nil || !sameSlice(p.Elem(), exp)) {
		f.bad(c.name+" read", "reading %q gives %s, %v; want %s", text, show(p.Elem().Interface()), err, show(exp.Interface()))
	} else if !ok && err == nil {
		f.bad(c.name+" read", "reading %q succeeds with %s; want an error", text, show(p.Elem().Interface()))
	} else if !ok && p.Elem().Interface() != before {
		f.bad(c.name+" read error", "the failed reading of %q changes the destination from %s to %s", text, show(before), show(p.Elem().Interface()))
	}
}

func (f *vf) rangeArr(c numCodec, round int) {
	st := reflect.TypeOf(c.from).In(0)
	n := f.length(round)
	v := reflect.MakeSlice(st, n, n)
	var ss []string
	for i := 0; i < n; i++ {
		f.randNum(v.Index(i).Index(0))
		f.randNum(v.Index(i).Index(1))
		ss = append(ss, "\""+rangeText(v.Index(i), c)+"\"")
	}
	want := "{" + strings.Join(ss, ",") + "}"
	if round%13 == 12 {
		v = reflect.Zero(st)
	}
	in := show(v.Interface())
	var got interface{}
	var err error
	if p := guard(func() { got, err = mkFrom(c.from, v).Value() }); p != nil {
		f.bad(c.name+" write", "writing %s panics: %v", in, p)
	} else if v.IsNil() {
		if got != nil || err != nil {
			f.bad(c.name+" write nil", "a nil slice is written as %s, %v; want NULL", show(got), err)
		}
	} else if s, ok := asText(got); err != nil || !ok || s != want {
		f.bad(c.name+" write", "%s is written as %s, %v; want %q", in, show(got), err, want)
	}
	p := reflect.New(st)
	f.fillSlice(p, f.r.Intn(4), func(e reflect.Value) { f.randNum(e.Index(0)); f.randNum(e.Index(1)) })
	before := reflect.AppendSlice(reflect.MakeSlice(st, 0, 4), p.Elem())
	if round%11 == 10 {
		if pc := guard(func() { err = mkTo(c.to, p).Scan(nil) }); pc != nil || err != nil || !p.Elem().IsNil() {
			f.bad(c.name+" read null", "reading NULL gives %s, %v, panic %v; want nil", show(p.Elem().Interface()), err, pc)
		}
		return
	}
	exp := reflect.MakeSlice(st, 0, n)
	ok := true
	ss = nil
	for i := 0; i < n; i++ {
		s, e, good := f.randRange(c, st.Elem(), round%3 == 0)
		switch {
		case f.r.Intn(12) == 0:
			s, e, good = "NULL", reflect.Zero(st.Elem()), true
		case s != "empty" || f.r.Intn(2) == 0:
			s = "\"" + s + "\""
		}
		ss = append(ss, s)
		exp = reflect.Append(exp, e)
		ok = ok && good
	}
	text := "{" + strings.Join(ss, ",") + "}"
	if pc := guard(func() { err = mkTo(c.to, p).Scan(f.src(text)) }); pc != nil {
		f.bad(c.name+" read", "reading %q panics: %v", text, pc)
	} else if ok && (err != nil || !sameSlice(p.Elem(), exp)) {
		f.bad(c.name+" read", "reading %q gives %s, %v; want %s", text, show(p.Elem().Interface()), err, show(exp.Interface()))
	} else if !ok && err == nil {
		f.bad(c.name+" read", "reading %q succeeds with %s; want an error", text, show(p.Elem().Interface()))
	} else if !ok && !sameSlice(p.Elem(), before) {
		f.bad(c.name+" read error", "the failed reading of %q changes the destination from %s to %s", text, show(before.Interface()), show(p.Elem().Interface()))
	}
}
