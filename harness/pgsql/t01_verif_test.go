// verif:package pgsql
package pgsql

import (
	"reflect"
	"strings"
	"testing"
)

var textCodecs = []struct {
	name     string
	from, to interface{}
}{
	{"TextArray/string", TextArrayFromStringSlice, TextArrayToStringSlice},
	{"VarCharArray/string", VarCharArrayFromStringSlice, VarCharArrayToStringSlice},
	{"TSQueryArray/string", TSQueryArrayFromStringSlice, TSQueryArrayToStringSlice},
	{"TextArray/[]byte", TextArrayFromByteSliceSlice, TextArrayToByteSliceSlice},
	{"VarCharArray/[]byte", VarCharArrayFromByteSliceSlice, VarCharArrayToByteSliceSlice},
	{"TSQueryArray/[]byte", TSQueryArrayFromByteSliceSlice, TSQueryArrayToByteSliceSlice},
	{"JSONArray/[]byte", JSONArrayFromByteSliceSlice, JSONArrayToByteSliceSlice},
	{"XMLArray/[]byte", XMLArrayFromByteSliceSlice, XMLArrayToByteSliceSlice},
}

var textPieces = []string{"a", "b", "NULL", "null", "N", "\"", "\\", ",", "{", "}", " ", "\a", "\b", "\t", "\n", "\v", "\f", "\r", "\x00", "\x7f", "é", "世", "\xff", "'", "\\\\", "\"\"", "0", "nul", "NULLS", "\x1b"}

func (f *vf) randText() string {
	s := ""
	for n := f.r.Intn(6); n > 0; n-- {
		if f.r.Intn(8) == 0 {
			s += string([]byte{byte(f.r.Intn(256))})
		} else {
			s += textPieces[f.r.Intn(len(textPieces))]
		}
	}
	return s
}

func quoteElem(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '"' || c == '\\' || (7 <= c && c <= 13) {
			b = append(b, '\\')
		}
		b = append(b, s[i])
	}
	return string(append(b, '"'))
}

// the text PostgreSQL's array_out writes for one element
func pgElem(s string) string {
	need := s == "" || strings.EqualFold(s, "NULL")
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' || c == '\\' {
			b = append(b, '\\')
			need = true
		}
		if strings.IndexByte(",{} \t\n\v\f\r", c) >= 0 {
			need = true
		}
		b = append(b, c)
	}
	if need {
		return string(append(b, '"'))
	}
	return s
}

func TestVerifT01(t *testing.T) {
	f := newVF()
	for round := 0; round < 60000 && !f.done(); round++ {
		for _, c := range textCodecs {
			st := reflect.TypeOf(c.from).In(0)
			isStr := st.Elem().Kind() == reflect.String
			n := f.r.Intn(5)
			if round%50 == 0 {
				n = 40
			}
			v := reflect.MakeSlice(st, 0, n)
			exp := reflect.MakeSlice(st, 0, n)
			want, server := []string{}, []string{}
			for i := 0; i < n; i++ {
				if f.r.Intn(6) == 0 {
					z := reflect.Zero(st.Elem())
					v, exp = reflect.Append(v, z), reflect.Append(exp, z)
					if isStr {
						want = append(want, `""`)
					} else {
						want = append(want, "NULL")
					}
					server = append(server, "NULL")
					continue
				}
				s := f.randText()
				x := reflect.ValueOf([]byte(s)).Convert(st.Elem())
				v, exp = reflect.Append(v, x), reflect.Append(exp, x)
				want = append(want, quoteElem(s))
				if f.r.Intn(2) == 0 {
					server = append(server, pgElem(s))
				} else {
					server = append(server, quoteElem(s))
				}
			}
			if round%31 == 7 {
				v = reflect.Zero(st)
			}
			var got interface{}
			var err error
			if p := guard(func() { got, err = mkFrom(c.from, v).Value() }); p != nil {
				f.bad(c.name+" write", "writing %s panics: %v", show(v.Interface()), p)
			} else if v.IsNil() {
				if got != nil || err != nil {
					f.bad(c.name+" write null", "a nil slice is written as %s, %v; want NULL", show(got), err)
				}
			} else if s, ok := asText(got); err != nil || !ok || s != "{"+strings.Join(want, ",")+"}" {
				f.bad(c.name+" write", "%q is written as %q, %v; want %q", v.Interface(), got, err, "{"+strings.Join(want, ",")+"}")
			}
			p := reflect.New(st)
			p.Elem().Set(reflect.MakeSlice(st, 1, 1))
			if round%29 == 5 {
				if pc := guard(func() { err = mkTo(c.to, p).Scan(nil) }); pc != nil || err != nil || !p.Elem().IsNil() {
					f.bad(c.name+" read null", "reading NULL gives %s, %v, panic %v; want nil", show(p.Elem().Interface()), err, pc)
				}
				continue
			}
			text := "{" + strings.Join(server, ",") + "}"
			buf := f.src(text)
			if pc := guard(func() { err = mkTo(c.to, p).Scan(buf) }); pc != nil {
				f.bad(c.name+" read", "reading %q panics: %v", text, pc)
				continue
			}
			if err != nil || p.Elem().Len() != n || p.Elem().IsNil() {
				f.bad(c.name+" read", "%q is read as %q, %v; want %q", text, p.Elem().Interface(), err, exp.Interface())
				continue
			}
			for i := 0; i < n; i++ {
				a, b := p.Elem().Index(i), exp.Index(i)
				if string(a.Convert(reflect.TypeOf([]byte{})).Bytes()) != string(b.Convert(reflect.TypeOf([]byte{})).Bytes()) || (!isStr && a.IsNil() != b.IsNil()) {
					f.bad(c.name+" read", "%q is read as %q; want %q", text, p.Elem().Interface(), exp.Interface())
				}
			}
		}
	}
	f.finish(t)
}
