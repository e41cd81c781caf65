use std.spec
package .
noinit gosql

// ---- the text of a positional parameter; positions count from 0
rec ord(p Int) Bytes = cat("$", itoa(p+1))
opaque ords(k Int) Seq[Bytes] = ite(k <= 0, empty("Bytes"), cat(ords(k-1), unit(ord(k-1))))
lemma ords_len(k Int) : len(ords(k)) => imp(0 <= k, len(ords(k)) == k)
  by up k
  reveal ords
lemma ords_at(n Int, j Int) : ords(n)[j] => imp(0 <= j && j < n, ords(n)[j] == ord(j))
  by up n
  reveal ords
  hint len(ords(n))

global gosql.OrdinalParameters
  property I01 F01
  reveal ords
  ensures ordinals: data(g) == ords(65535)
  inv (acc acc:[65535]string, k cnt): len(data(acc)) == 65535 && sub(data(acc), 0, k) == ords(k) && 0 <= k && k <= 65535

rec ordlist(pos Int, k Int) Bytes = ite(k <= 0, "", ite(k == 1, ord(pos), cat(ordlist(pos, k-1), ",", ord(pos+k-1))))
contract gosql.InValueList(num, pos)
  property I01
  requires 0 <= pos && pos+num <= 65535
  ensures list: r0 == ordlist(pos, num)
  inv (acc acc:strings.Builder, i cnt): buf(acc) == ordlist(pos, ite(num <= 0, 0, i)) && imp(num > 0, 0 <= i)
