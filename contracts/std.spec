// Contracts assumed of the Go standard library (trusted).

// ---- decimal text
func itoa(Int) Bytes
func isint(Bytes) Bool
func isuint(Bytes) Bool
func atoi(Bytes) Int
axiom itoa_isint(n Int): itoa(n) => isint(itoa(n)) && atoi(itoa(n)) == n && imp(0 <= n, isuint(itoa(n)))
axiom itoa_len(n Int): itoa(n) => 1 <= len(itoa(n))
// the characters of a decimal numeral
axiom itoa_dig(n Int, j Int): itoa(n)[j] => imp(0 <= j && j < len(itoa(n)), itoa(n)[j] == 45 || (48 <= itoa(n)[j] && itoa(n)[j] <= 57))

rec infit(n Int, bits Int, signed Bool) Bool = ite(signed, ite(bits == 8, -128 <= n && n <= 127, ite(bits == 16, -32768 <= n && n <= 32767, ite(bits == 32, -2147483648 <= n && n <= 2147483647, -9223372036854775808 <= n && n <= 9223372036854775807))), 0 <= n && ite(bits == 8, n <= 255, ite(bits == 16, n <= 65535, ite(bits == 32, n <= 4294967295, n <= 18446744073709551615))))

// binary text
func itoabase(Int, Int) Bytes
func isbin(Bytes) Bool
func btoi(Bytes) Int
axiom itoabase_isbin(n Int): itoabase(n, 2) => isbin(itoabase(n, 2)) && btoi(itoabase(n, 2)) == n && 1 <= len(itoabase(n, 2))
axiom itoabase_dig(n Int, j Int): itoabase(n, 2)[j] => imp(0 <= n && 0 <= j && j < len(itoabase(n, 2)), itoabase(n, 2)[j] == 48 || itoabase(n, 2)[j] == 49)
extern strconv.ParseInt(s, base, bits)
  requires base10or2: base == 10 || base == 2
  ensures imp(base == 10, (r1 == nil) == (isint(s) && infit(atoi(s), bits, true)))
  ensures imp(base == 10 && r1 == nil, r0 == atoi(s))
  ensures imp(base == 2, (r1 == nil) == (isbin(s) && infit(btoi(s), bits, true)))
  ensures imp(base == 2 && r1 == nil, r0 == btoi(s))
extern strconv.ParseUint(s, base, bits)
  requires base10: base == 10
  ensures (r1 == nil) == (isuint(s) && infit(atoi(s), bits, false))
  ensures imp(r1 == nil, r0 == atoi(s))
extern strconv.Atoi(s)
  ensures (r1 == nil) == (isint(s) && infit(atoi(s), 64, true))
  ensures imp(r1 == nil, r0 == atoi(s))
extern strconv.Itoa(i)
  ensures r0 == itoa(i)
extern strconv.FormatInt(i, base)
  requires base10: base == 10
  ensures r0 == itoa(i)
extern strconv.FormatUint(i, base)
  requires base10: base == 10
  ensures r0 == itoa(i)

// ---- floating point numbers and their text (opaque; narrowing and the text conversions are trusted)
func ftoa(Flt, Int, Int, Int) Bytes
func atof(Bytes, Int) Flt
func isflt(Bytes, Int) Bool
func f2i_int64(Flt) Int
func i2f32(Int) Flt
func i2f64(Int) Flt
func f64to32(Flt) Flt
// shortest text reads back as the same number
axiom ftoa_rt64(x Flt): ftoa(x, 102, -1, 64) => isflt(ftoa(x, 102, -1, 64), 64) && atof(ftoa(x, 102, -1, 64), 64) == x && 1 <= len(ftoa(x, 102, -1, 64))
axiom ftoa_rt32(x Flt): ftoa(x, 102, -1, 32) => imp(f64to32(x) == x, isflt(ftoa(x, 102, -1, 32), 32) && f64to32(atof(ftoa(x, 102, -1, 32), 32)) == x) && 1 <= len(ftoa(x, 102, -1, 32))
extern strconv.ParseFloat(s, bits)
  ensures (r1 == nil) == isflt(s, bits)
  ensures imp(r1 == nil, r0 == atof(s, bits))
extern bytes.HasPrefix(s, p)
  ensures r0 == (len(p) <= len(s) && sub(data(s), 0, len(p)) == data(p))
func lastidx(Bytes, Int) Int
extern strings.LastIndexByte(s, c)
  ensures -1 <= r0 && r0 < len(s)
  ensures r0 == lastidx(s, c)
