// verif:package pgsql
package pgsql

import (
	"reflect"
	"strings"
	"testing"
)

type numCodec struct {
	name     string
	from, to interface{}
	ints     bool
	bits     int // of the column
	fbits    int // of the text of floats
	vector   bool
}

var numCodecs = []numCodec{
	{"Int2Array/int", Int2ArrayFromIntSlice, Int2ArrayToIntSlice, true, 16, 64, false},
	{"Int2Array/int8", Int2ArrayFromInt8Slice, Int2ArrayToInt8Slice, true, 16, 64, false},
	{"Int2Array/int16", Int2ArrayFromInt16Slice, Int2ArrayToInt16Slice, true, 16, 64, false},
	{"Int2Array/int32", Int2ArrayFromInt32Slice, Int2ArrayToInt32Slice, true, 16, 64, false},
	{"Int2Array/int64", Int2ArrayFromInt64Slice, Int2ArrayToInt64Slice, true, 16, 64, false},
	{"Int2Array/uint", Int2ArrayFromUintSlice, Int2ArrayToUintSlice, true, 16, 64, false},
	{"Int2Array/uint8", Int2ArrayFromUint8Slice, Int2ArrayToUint8Slice, true, 16, 64, false},
	{"Int2Array/uint16", Int2ArrayFromUint16Slice, Int2ArrayToUint16Slice, true, 16, 64, false},
	{"Int2Array/uint32", Int2ArrayFromUint32Slice, Int2ArrayToUint32Slice, true, 16, 64, false},
	{"Int2Array/uint64", Int2ArrayFromUint64Slice, Int2ArrayToUint64Slice, true, 16, 64, false},
	{"Int2Array/float32", Int2ArrayFromFloat32Slice, Int2ArrayToFloat32Slice, true, 16, 32, false},
	{"Int2Array/float64", Int2ArrayFromFloat64Slice, Int2ArrayToFloat64Slice, true, 16, 64, false},
	{"Int4Array/int", Int4ArrayFromIntSlice, Int4ArrayToIntSlice, true, 32, 64, false},
	{"Int4Array/int8", Int4ArrayFromInt8Slice, Int4ArrayToInt8Slice, true, 32, 64, false},
	{"Int4Array/int16", Int4ArrayFromInt16Slice, Int4ArrayToInt16Slice, true, 32, 64, false},
	{"Int4Array/int32", Int4ArrayFromInt32Slice, Int4ArrayToInt32Slice, true, 32, 64, false},
	{"Int4Array/int64", Int4ArrayFromInt64Slice, Int4ArrayToInt64Slice, true, 32, 64, false},
	{"Int4Array/uint", Int4ArrayFromUintSlice, Int4ArrayToUintSlice, true, 32, 64, false},
	{"Int4Array/uint8", Int4ArrayFromUint8Slice, Int4ArrayToUint8Slice, true, 32, 64, false},
	{"Int4Array/uint16", Int4ArrayFromUint16Slice, Int4ArrayToUint16Slice, true, 32, 64, false},
	{"Int4Array/uint32", Int4ArrayFromUint32Slice, Int4ArrayToUint32Slice, true, 32, 64, false},
	{"Int4Array/uint64", Int4ArrayFromUint64Slice, Int4ArrayToUint64Slice, true, 32, 64, false},
	{"Int4Array/float32", Int4ArrayFromFloat32Slice, Int4ArrayToFloat32Slice, true, 32, 32, false},
	{"Int4Array/float64", Int4ArrayFromFloat64Slice, Int4ArrayToFloat64Slice, true, 32, 64, false},
	{"Int8Array/int", Int8ArrayFromIntSlice, Int8ArrayToIntSlice, true, 64, 64, false},
	{"Int8Array/int8", Int8ArrayFromInt8Slice, Int8ArrayToInt8Slice, true, 64, 64, false},
	{"Int8Array/int16", Int8ArrayFromInt16Slice, Int8ArrayToInt16Slice, true, 64, 64, false},
	{"Int8Array/int32", Int8ArrayFromInt32Slice, Int8ArrayToInt32Slice, true, 64, 64, false},
	{"Int8Array/int64", Int8ArrayFromInt64Slice, Int8ArrayToInt64Slice, true, 64, 64, false},
	{"Int8Array/uint", Int8ArrayFromUintSlice, Int8ArrayToUintSlice, true, 64, 64, false},
	{"Int8Array/uint8", Int8ArrayFromUint8Slice, Int8ArrayToUint8Slice, true, 64, 64, false},
	{"Int8Array/uint16", Int8ArrayFromUint16Slice, Int8ArrayToUint16Slice, true, 64, 64, false},
	{"Int8Array/uint32", Int8ArrayFromUint32Slice, Int8ArrayToUint32Slice, true, 64, 64, false},
	{"Int8Array/uint64", Int8ArrayFromUint64Slice, Int8ArrayToUint64Slice, true, 64, 64, false},
	{"Int8Array/float32", Int8ArrayFromFloat32Slice, Int8ArrayToFloat32Slice, true, 64, 32, false},
	{"Int8Array/float64", Int8ArrayFromFloat64Slice, Int8ArrayToFloat64Slice, true, 64, 64, false},
	{"NumericArray/int", NumericArrayFromIntSlice, NumericArrayToIntSlice, false, 64, 64, false},
	{"NumericArray/int8", NumericArrayFromInt8Slice, NumericArrayToInt8Slice, false, 64, 64, false},
	{"NumericArray/int16", NumericArrayFromInt16Slice, NumericArrayToInt16Slice, false, 64, 64, false},
	{"NumericArray/int32", NumericArrayFromInt32Slice, NumericArrayToInt32Slice, false, 64, 64, false},
	{"NumericArray/int64", NumericArrayFromInt64Slice, NumericArrayToInt64Slice, false, 64, 64, false},
	{"NumericArray/uint", NumericArrayFromUintSlice, NumericArrayToUintSlice, false, 64, 64, false},
	{"NumericArray/uint8", NumericArrayFromUint8Slice, NumericArrayToUint8Slice, false, 64, 64, false},
	{"NumericArray/uint16", NumericArrayFromUint16Slice, NumericArrayToUint16Slice, false, 64, 64, false},
	{"NumericArray/uint32", NumericArrayFromUint32Slice, NumericArrayToUint32Slice, false, 64, 64, false},
	{"NumericArray/uint64", NumericArrayFromUint64Slice, NumericArrayToUint64Slice, false, 64, 64, false},
	{"NumericArray/float32", NumericArrayFromFloat32Slice, NumericArrayToFloat32Slice, false, 64, 32, false},
	{"NumericArray/float64", NumericArrayFromFloat64Slice, NumericArrayToFloat64Slice, false, 64, 64, false},
	{"Int2Vector/int", Int2VectorFromIntSlice, Int2VectorToIntSlice, true, 16, 64, true},
	{"Int2Vector/int8", Int2VectorFromInt8Slice, Int2VectorToInt8Slice, true, 16, 64, true},
	{"Int2Vector/int16", Int2VectorFromInt16Slice, Int2VectorToInt16Slice, true, 16, 64, true},
	{"Int2Vector/int32", Int2VectorFromInt32Slice, Int2VectorToInt32Slice, true, 16, 64, true},
	{"Int2Vector/int64", Int2VectorFromInt64Slice, Int2VectorToInt64Slice, true, 16, 64, true},
	{"Int2Vector/uint", Int2VectorFromUintSlice, Int2VectorToUintSlice, true, 16, 64, true},
	{"Int2Vector/uint8", Int2VectorFromUint8Slice, Int2VectorToUint8Slice, true, 16, 64, true},
	{"Int2Vector/uint16", Int2VectorFromUint16Slice, Int2VectorToUint16Slice, true, 16, 64, true},
	{"Int2Vector/uint32", Int2VectorFromUint32Slice, Int2VectorToUint32Slice, true, 16, 64, true},
	{"Int2Vector/uint64", Int2VectorFromUint64Slice, Int2VectorToUint64Slice, true, 16, 64, true},
	{"Int2Vector/float32", Int2VectorFromFloat32Slice, Int2VectorToFloat32Slice, true, 16, 32, true},
	{"Int2Vector/float64", Int2VectorFromFloat64Slice, Int2VectorToFloat64Slice, true, 16, 64, true},
	{"Float4Array/float32", Float4ArrayFromFloat32Slice, Float4ArrayToFloat32Slice, false, 64, 32, false},
	{"Float4Array/float64", Float4ArrayFromFloat64Slice, Float4ArrayToFloat64Slice, false, 64, 64, false},
	{"Float8Array/float32", Float8ArrayFromFloat32Slice, Float8ArrayToFloat32Slice, false, 64, 64, false},
	{"Float8Array/float64", Float8ArrayFromFloat64Slice, Float8ArrayToFloat64Slice, false, 64, 64, false},
}

var vecCodecs = []numCodec{
	{"Int2VectorArray/int", Int2VectorArrayFromIntSliceSlice, Int2VectorArrayToIntSliceSlice, true, 16, 64, true},
	{"Int2VectorArray/int8", Int2VectorArrayFromInt8SliceSlice, Int2VectorArrayToInt8SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/int16", Int2VectorArrayFromInt16SliceSlice, Int2VectorArrayToInt16SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/int32", Int2VectorArrayFromInt32SliceSlice, Int2VectorArrayToInt32SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/int64", Int2VectorArrayFromInt64SliceSlice, Int2VectorArrayToInt64SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/uint", Int2VectorArrayFromUintSliceSlice, Int2VectorArrayToUintSliceSlice, true, 16, 64, true},
	{"Int2VectorArray/uint8", Int2VectorArrayFromUint8SliceSlice, Int2VectorArrayToUint8SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/uint16", Int2VectorArrayFromUint16SliceSlice, Int2VectorArrayToUint16SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/uint32", Int2VectorArrayFromUint32SliceSlice, Int2VectorArrayToUint32SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/uint64", Int2VectorArrayFromUint64SliceSlice, Int2VectorArrayToUint64SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/float32", Int2VectorArrayFromFloat32SliceSlice, Int2VectorArrayToFloat32SliceSlice, true, 16, 64, true},
	{"Int2VectorArray/float64", Int2VectorArrayFromFloat64SliceSlice, Int2VectorArrayToFloat64SliceSlice, true, 16, 64, true},
}

func TestVerifN01(t *testing.T) {
	f := newVF()
	for round := 0; round < 20000 && !f.done(); round++ {
		for _, c := range numCodecs {
			f.numArray(c, round)
		}
		for _, c := range vecCodecs {
			f.vecArray(c, round)
		}
	}
	f.finish(t)
}

func joinNums(v reflect.Value, c numCodec, sep string) string {
	var ss []string
	for i := 0; i < v.Len(); i++ {
		ss = append(ss, numText(v.Index(i), c.ints, c.fbits))
	}
	return strings.Join(ss, sep)
}

func (f *vf) length(round int) int {
	if round < 6 {
		return round
	}
	return f.r.Intn(14)
}

func (f *vf) numArray(c numCodec, round int) {
	st := reflect.TypeOf(c.from).In(0)
	sep, open, close := ",", "{", "}"
	if c.vector {
		sep, open, close = " ", "", ""
	}
	// writing
	n := f.length(round)
	v := reflect.MakeSlice(st, n, n+f.r.Intn(3))
	for i := 0; i < n; i++ {
		f.randNum(v.Index(i))
	}
	if round%13 == 12 {
		v = reflect.Zero(st)
	}
	in := show(v.Interface())
	want := open + joinNums(v, c, sep) + close
	var got interface{}
	var err error
	if p := guard(func() { got, err = mkFrom(c.from, v).Value() }); p != nil {
		f.bad(c.name+" write", "writing %s panics: %v", in, p)
	} else if v.IsNil() {
		if got != nil || err != nil {
			f.bad(c.name+" write nil", "a nil slice is written as %s, %v; want NULL", show(got), err)
		}
	} else if s, ok := asText(got); err != nil || !ok || s != want {
		f.bad(c.name+" write", "%s is written as %s, %v; want %q", in, show(got), err, want)
	}
	// reading
	p := reflect.New(st)
	old := f.r.Intn(4)
	f.fillSlice(p, old, f.randNum)
	before := reflect.ValueOf(p.Elem().Interface())
	copyBefore := reflect.MakeSlice(st, before.Len(), before.Len())
	reflect.Copy(copyBefore, before)
	if round%11 == 10 {
		if pc := guard(func() { err = mkTo(c.to, p).Scan(nil) }); pc != nil || err != nil || !p.Elem().IsNil() {
			f.bad(c.name+" read null", "reading NULL gives %s, %v, panic %v; want nil", show(p.Elem().Interface()), err, pc)
		}
		return
	}
	var ss []string
	n = f.length(round)
	for i := 0; i < n; i++ {
		ss = append(ss, f.randNumText(c.ints, round%2 == 0))
	}
	if round%4 == 1 {
		// numbers that fit
		for i := range ss {
			x := reflect.New(st.Elem()).Elem()
			f.randNum(x)
			ss[i] = numText(x, c.ints, c.fbits)
		}
	}
	if n == 1 && ss[0] == "" {
		return
	}
	text := open + strings.Join(ss, sep) + close
	exp := reflect.MakeSlice(st, 0, n)
	ok := true
	for _, s := range ss {
		x, good := parseNum(s, st.Elem(), c.ints, c.bits)
		if !good {
			ok = false
			break
		}
		exp = reflect.Append(exp, x)
	}
	src := f.src(text)
	if pc := guard(func() { err = mkTo(c.to, p).Scan(src) }); pc != nil {
		f.bad(c.name+" read", "reading %q panics: %v", text, pc)
	} else if ok && (err != nil || !sameSlice(p.Elem(), exp)) {
		f.bad(c.name+" read", "reading %q gives %s, %v; want %s", text, show(p.Elem().Interface()), err, show(exp.Interface()))
	} else if !ok && err == nil {
		f.bad(c.name+" read", "reading %q succeeds with %s; want an error", text, show(p.Elem().Interface()))
	} else if !ok && !sameSlice(p.Elem(), copyBefore) {
		f.bad(c.name+" read error", "the failed reading of %q changes the destination from %s to %s", text, show(copyBefore.Interface()), show(p.Elem().Interface()))
	}
}

func (f *vf) vecArray(c numCodec, round int) {
	st := reflect.TypeOf(c.from).In(0)
	n := f.length(round)
	v := reflect.MakeSlice(st, n, n)
	var ss []string
	for i := 0; i < n; i++ {
		m := f.r.Intn(5)
		if m == 4 {
			ss = append(ss, "\"\"")
			continue
		}
		e := reflect.MakeSlice(st.Elem(), m, m)
		for j := 0; j < m; j++ {
			f.randNum(e.Index(j))
		}
		v.Index(i).Set(e)
		ss = append(ss, "\""+joinNums(e, c, " ")+"\"")
	}
	want := "{" + strings.Join(ss, ",") + "}"
	in := show(v.Interface())
	var got interface{}
	var err error
	if p := guard(func() { got, err = mkFrom(c.from, v).Value() }); p != nil {
		f.bad(c.name+" write", "writing %s panics: %v", in, p)
	} else if s, ok := asText(got); err != nil || !ok || s != want {
		f.bad(c.name+" write", "%s is written as %s, %v; want %q", in, show(got), err, want)
	}
	if got, err := mkFrom(c.from, reflect.Zero(st)).Value(); got != nil || err != nil {
		f.bad(c.name+" write nil", "a nil slice is written as %s, %v; want NULL", show(got), err)
	}
	// reading: quoted, single and NULL elements
	p := reflect.New(st)
	exp := reflect.MakeSlice(st, 0, n)
	ok := true
	ss = nil
	for i := 0; i < n; i++ {
		m := f.r.Intn(5)
		if m == 4 {
			ss = append(ss, "NULL")
			exp = reflect.Append(exp, reflect.Zero(st.Elem()))
			continue
		}
		e := reflect.MakeSlice(st.Elem(), 0, m)
		var es []string
		for j := 0; j < m; j++ {
			x := reflect.New(st.Elem().Elem()).Elem()
			f.randNum(x)
			t := numText(x, true, 64)
			if f.r.Intn(20) == 0 {
				t = f.randNumText(true, true)
			}
			es = append(es, t)
			y, good := parseNum(t, st.Elem().Elem(), true, 16)
			ok = ok && good
			e = reflect.Append(e, y)
		}
		exp = reflect.Append(exp, e)
		if m == 1 && f.r.Intn(2) == 0 {
			ss = append(ss, es[0])
		} else {
			ss = append(ss, "\""+strings.Join(es, " ")+"\"")
		}
	}
	text := "{" + strings.Join(ss, ",") + "}"
	src := f.src(text)
	if pc := guard(func() { err = mkTo(c.to, p).Scan(src) }); pc != nil {
		f.bad(c.name+" read", "reading %q panics: %v", text, pc)
	} else if ok && (err != nil || !sameSlice(p.Elem(), exp)) {
		f.bad(c.name+" read", "reading %q gives %s, %v; want %s", text, show(p.Elem().Interface()), err, show(exp.Interface()))
	} else if !ok && (err == nil || p.Elem().Len() != 0) {
		f.bad(c.name+" read", "reading %q gives %s, %v; want an error and the destination unchanged", text, show(p.Elem().Interface()), err)
	}
}
