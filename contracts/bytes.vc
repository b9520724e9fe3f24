# Facts about the standard library: documented behaviour of unicode/utf8 and bytes.
package .

def cont(b int) bool = 128 <= b && b <= 191

# width of the rune starting at a[i], text ends at e (RFC 3629; invalid or truncated: 1)
def u8w(a [0]byte, i int, e int) int = a[i] < 128 ? 1 : a[i] < 194 ? 1 : a[i] < 224 ? (i+1 < e && cont(a[i+1]) ? 2 : 1) : a[i] < 240 ? (i+2 < e && (a[i] == 224 ? 160 : 128) <= a[i+1] && a[i+1] <= (a[i] == 237 ? 159 : 191) && cont(a[i+2]) ? 3 : 1) : a[i] < 245 ? (i+3 < e && (a[i] == 240 ? 144 : 128) <= a[i+1] && a[i+1] <= (a[i] == 244 ? 143 : 191) && cont(a[i+2]) && cont(a[i+3]) ? 4 : 1) : 1

spec runew(a [0]byte, i int, e int) int = u8w(a, i, e)

# value of that rune (65533 = U+FFFD for anything invalid)
def u8r(a [0]byte, i int, e int) int = a[i] < 128 ? a[i] : runew(a, i, e) == 2 ? (a[i]-192)*64 + a[i+1]-128 : runew(a, i, e) == 3 ? (a[i]-224)*4096 + (a[i+1]-128)*64 + a[i+2]-128 : runew(a, i, e) == 4 ? (a[i]-240)*262144 + (a[i+1]-128)*4096 + (a[i+2]-128)*64 + a[i+3]-128 : 65533

# number of runes in a[i:e]
spec runes(a [0]byte, i int, e int) int = i >= e ? 0 : 1 + runes(a, i + runew(a, i, e), e)

# number of bytes equal to 10 in a[i:e]
spec nlc(a [0]byte, i int, e int) int = i >= e ? 0 : (a[i] == 10 ? 1 : 0) + nlc(a, i+1, e)

extern utf8.RuneCount(p)
  trusted documented behaviour of unicode/utf8.RuneCount
  ensures result == runes(elems(p), off(p), off(p)+len(p))
  modifies nothing

extern utf8.DecodeRune(p)
  trusted documented behaviour of unicode/utf8.DecodeRune
  returns r, size
  ensures len(p) == 0 ==> r == 65533 && size == 0
  ensures len(p) > 0 ==> size == runew(elems(p), off(p), off(p)+len(p)) && r == u8r(elems(p), off(p), off(p)+len(p))
  modifies nothing

extern bytes.Count(s, sep)
  trusted documented behaviour of bytes.Count, single-byte separator "\n" only
  requires len(sep) == 1 && sep[0] == 10
  ensures result == nlc(elems(s), off(s), off(s)+len(s))
  modifies nothing
