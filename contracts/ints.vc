# internal/ints: sets of integers (C24)
package internal/ints

def inb(w int, k int) bool = band(w, shl(1, k)) != 0
def u64(x int) bool = 0 <= x && x <= 18446744073709551615
def ilim(x int) bool = -1099511627776 <= x && x < 1099511627776

lemma orBit(a uint64, b uint64, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64
  ensures inb(bor(a, b), j) == (inb(a, j) || inb(b, j))
  trigger {band(bor(a, b), shl(1, j))}

lemma andBit(a uint64, b uint64, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64
  ensures inb(band(a, b), j) == (inb(a, j) && inb(b, j))
  trigger {band(band(a, b), shl(1, j))}

lemma notBit(b uint64, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64
  ensures inb(18446744073709551615 - b, j) == !inb(b, j)
  trigger {band(18446744073709551615 - b, shl(1, j))}

lemma oneBit(i int, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64 && 0 <= i && i < 64
  ensures inb(shl(1, i), j) == (i == j)
  trigger {band(shl(1, i), shl(1, j))}

lemma noBit(w uint64, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64 && w == 0
  ensures band(w, shl(1, j)) == 0

lemma orRange(a uint64, b uint64)
  props C24
  opt bv
  ensures 0 <= bor(a, b) && bor(a, b) <= 18446744073709551615
  trigger {bor(a, b)}

lemma andRange(a uint64, b uint64)
  props C24
  opt bv
  ensures 0 <= band(a, b) && band(a, b) <= 18446744073709551615
  trigger {band(a, b)}

lemma xorBit(a uint64, b uint64, j int)
  props C24
  opt bv
  requires 0 <= j && j < 64
  ensures inb(bxor(a, b), j) == (inb(a, j) != inb(b, j))
  trigger {band(bxor(a, b), shl(1, j))}

lemma xorZero(a uint64, b uint64)
  props C24
  opt bv
  ensures 0 <= bxor(a, b) && bxor(a, b) <= 18446744073709551615 && (bxor(a, b) == 0 ==> a == b)

lemma lowZero(w uint64, k int)
  props C24
  opt bv
  requires 0 <= k && k < 64 && band(w, shl(1, k) - 1) == 0 && !inb(w, k)
  ensures k < 63 ==> band(w, shl(1, k+1) - 1) == 0
  ensures k == 63 ==> w == 0

lemma lowNone(w uint64)
  props C24
  opt bv
  ensures band(w, shl(1, 0) - 1) == 0

# a word without bits is 0
lemma zeroBits(w uint64, k int)
  props C24
  induction 64 - k
  requires u64(w) && 0 <= k && k < 64 && band(w, shl(1, k) - 1) == 0
  requires forall j int :: {band(w, shl(1, j))} k <= j && j < 64 ==> band(w, shl(1, j)) == 0
  ensures w == 0
  apply ih(w, k+1)
  apply lowZero(w, k)

lemma sameBits(a uint64, b uint64)
  props C24
  requires u64(a) && u64(b)
  requires forall j int :: {band(a, shl(1, j))} {band(b, shl(1, j))} 0 <= j && j < 64 ==> inb(a, j) == inb(b, j)
  ensures a == b
  apply xorZero(a, b)
  apply lowNone(bxor(a, b))
  apply zeroBits(bxor(a, b), 0)

func (*Set).baseItem(s, item)
  props C24
  requires item >= -9223372036854775807
  modifies nothing
  ensures result == item - item % 64

func bitMask(item)
  props C24
  modifies nothing
  ensures result == shl(1, item % 64) && u64(result)

func (*Set).chunkIndex(s, item)
  props C24
  requires s != nil && ilim(item) && ilim(s.lowItem) && s.lowItem % 64 == 0
  modifies nothing
  ensures result == item / 64 - s.lowItem / 64

def setwf(s *Set) bool = s != nil && s.lowItem % 64 == 0 && s.highItem % 64 == 0 && -1099511627776 <= s.lowItem && s.lowItem <= 0 && 0 <= s.highItem && s.highItem <= 1099511627776 && len(s.chunks) * 64 == s.highItem - s.lowItem && (forall i int :: {elems(s.chunks)[i]} off(s.chunks) <= i && i < off(s.chunks) + len(s.chunks) ==> u64(elems(s.chunks)[i]))
spec imem(s *Set, x int) bool = s.lowItem <= x && x < s.highItem && inb(elems(s.chunks)[off(s.chunks) + x / 64 - s.lowItem / 64], x % 64)

func (*Set).Contains(s, item)
  props C24
  requires setwf(s)
  modifies nothing
  ensures result == imem(s, item)

func (*Set).doSet(s, item, invert)
  props C24
  requires setwf(s) && s.lowItem <= item && item < s.highItem
  modifies arr(s.chunks)
  ensures forall x int :: {imem(s, x)} imem(s, x) == (x == item ? !invert : old(imem(s, x)))

func minMax(items)
  returns lo, hi
  props C24
  requires len(items) > 0
  modifies nothing
  ensures lo <= hi
  ensures forall i int :: {items[i]} 0 <= i && i < len(items) ==> lo <= items[i] && items[i] <= hi
  ensures exists i int :: {items[i]} 0 <= i && i < len(items) && items[i] == lo
  ensures exists i int :: {items[i]} 0 <= i && i < len(items) && items[i] == hi
  loop 1
    invariant 1 <= i && i <= len(items) && min <= max
    invariant forall j int :: {items[j]} 0 <= j && j < i ==> min <= items[j] && items[j] <= max
    invariant exists j int :: {items[j]} 0 <= j && j < i && items[j] == min
    invariant exists j int :: {items[j]} 0 <= j && j < i && items[j] == max

func (*Set).allocate(s, low, high)
  props C24
  requires setwf(s) && ilim(low) && ilim(high) && low <= high + 64 && low - low % 64 <= high - high % 64 + 64
  modifies s.lowItem, s.highItem, s.chunks
  ensures setwf(s)
  ensures s.lowItem == min(old(s.lowItem), low - low % 64) && s.highItem == max(old(s.highItem), high - high % 64 + 64)
  ensures s.chunks == old(s.chunks) || fresh(s.chunks)
  ensures forall x int :: {imem(s, x)} x < old(s.lowItem) ==> !imem(s, x)
  ensures forall x int :: {imem(s, x)} x >= old(s.highItem) ==> !imem(s, x)
  ensures forall x int :: {imem(s, x)} old(s.lowItem) <= x && x < old(s.highItem) ==> imem(s, x) == old(imem(s, x))

def inArr(items []int, n int, x int) bool = exists j int :: {items[j]} 0 <= j && j < n && items[j] == x

func (*Set).Add(s, items)
  props C24
  requires setwf(s) && (forall i int :: {items[i]} 0 <= i && i < len(items) ==> ilim(items[i]))
  modifies s.lowItem, s.highItem, s.chunks, arr(s.chunks)
  ensures result == s && setwf(s) && (s.chunks == old(s.chunks) || fresh(s.chunks))
  ensures forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) || inArr(items, len(items), x))
  loop 1
    invariant setwf(s) && (s.chunks == old(s.chunks) || fresh(s.chunks))
    invariant forall i int :: {items[i]} 0 <= i && i < len(items) ==> s.lowItem <= items[i] && items[i] < s.highItem
    invariant forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) || inArr(items, $i0, x))

func (*Set).Remove(s, items)
  props C24
  requires setwf(s) && (forall i int :: {items[i]} 0 <= i && i < len(items) ==> ilim(items[i]))
  modifies s.lowItem, s.highItem, s.chunks, arr(s.chunks)
  ensures result == s && setwf(s) && (s.chunks == old(s.chunks) || fresh(s.chunks))
  ensures forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) && !inArr(items, len(items), x))
  loop 1
    invariant setwf(s) && (s.chunks == old(s.chunks) || fresh(s.chunks))
    invariant forall i int :: {items[i]} 0 <= i && i < len(items) ==> s.lowItem <= items[i] && items[i] < s.highItem
    invariant forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) && !inArr(items, $i0, x))

func NewSet(items)
  props C24
  requires forall i int :: {items[i]} 0 <= i && i < len(items) ==> ilim(items[i])
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result)
  ensures len(items) == 0 ==> result.lowItem == 0 && result.highItem == 0
  ensures forall x int :: {imem(result, x)} imem(result, x) == inArr(items, len(items), x)

func FromSlice(items)
  props C24
  requires forall i int :: {items[i]} 0 <= i && i < len(items) ==> ilim(items[i])
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result)
  ensures forall x int :: {imem(result, x)} imem(result, x) == inArr(items, len(items), x)

func (*Set).Copy(s)
  props C24
  requires setwf(s)
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result) && result.lowItem == s.lowItem && result.highItem == s.highItem
  ensures forall x int :: {imem(result, x)} {imem(s, x)} imem(result, x) == imem(s, x)

spec word(a [0]uint, i int) int = a[i]
func isEmpty(chunks)
  props C24
  modifies nothing
  ensures result ==> (forall i int :: {elems(chunks)[i]} off(chunks) <= i && i < off(chunks) + len(chunks) ==> elems(chunks)[i] == 0)
  ensures !result ==> (exists i int :: {word(elems(chunks), i)} off(chunks) <= i && i < off(chunks) + len(chunks) && word(elems(chunks), i) != 0)
  loop 1
    invariant forall i int :: {elems(chunks)[i]} off(chunks) <= i && i < off(chunks) + $i0 ==> elems(chunks)[i] == 0
    invariant $i0 < len(chunks) ==> word(elems(chunks), off(chunks) + $i0) == elems(chunks)[off(chunks) + $i0]

# the bit j of a word stands for one item
def itemOf(s *Set, i int, j int) int = s.lowItem + 64*(i - off(s.chunks)) + j
lemma memAt(s *Set, i int, j int)
  props C24
  requires setwf(s) && off(s.chunks) <= i && i < off(s.chunks) + len(s.chunks) && 0 <= j && j < 64
  ensures imem(s, itemOf(s, i, j)) == inb(word(elems(s.chunks), i), j)
  trigger {band(word(elems(s.chunks), i), shl(1, j))}

# a word is 0 iff there are no items in its range
lemma wordEmpty(s *Set, i int)
  props C24
  requires setwf(s) && off(s.chunks) <= i && i < off(s.chunks) + len(s.chunks)
  requires forall x int :: {imem(s, x)} itemOf(s, i, 0) <= x && x < itemOf(s, i, 64) ==> !imem(s, x)
  ensures word(elems(s.chunks), i) == 0
  trigger {word(elems(s.chunks), i)}
  apply zeroBits(word(elems(s.chunks), i), 0)
  apply lowNone(word(elems(s.chunks), i))

func (*Set).IsEmpty(s)
  props C24
  requires setwf(s)
  modifies nothing
  ensures result == (forall x int :: {imem(s, x)} !imem(s, x))

lemma wordDiff(s *Set, t *Set, i int, k int)
  props C24
  requires setwf(s) && off(s.chunks) <= i && i < off(s.chunks) + len(s.chunks)
  requires setwf(t) && off(t.chunks) <= k && k < off(t.chunks) + len(t.chunks)
  requires itemOf(s, i, 0) == itemOf(t, k, 0)
  requires forall x int :: {imem(s, x)} {imem(t, x)} imem(s, x) == imem(t, x)
  ensures word(elems(s.chunks), i) == word(elems(t.chunks), k)
  trigger {word(elems(s.chunks), i), word(elems(t.chunks), k)}
  apply sameBits(word(elems(s.chunks), i), word(elems(t.chunks), k))

func (*Set).IsEqual(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies nothing
  ensures result ==> (forall x int :: {imem(s, x)} {imem(t, x)} imem(s, x) == imem(t, x))
  ensures !result ==> !(forall x int :: {imem(s, x)} {imem(t, x)} imem(s, x) == imem(t, x))
  loop 1
    invariant low == max(s.lowItem, t.lowItem) && high == min(s.highItem, t.highItem)
    invariant firstIndex <= i && i <= lastIndex && offset - (low - t.lowItem) / 64 == i - firstIndex
    invariant firstIndex == (low - s.lowItem) / 64 && lastIndex - firstIndex == (high - low) / 64
    invariant forall x int :: {imem(s, x)} imem(s, x) ==> low <= x && x < high
    invariant forall x int :: {imem(t, x)} imem(t, x) ==> low <= x && x < high
    invariant forall x int :: {imem(s, x)} {imem(t, x)} x < s.lowItem + 64*i ==> imem(s, x) == imem(t, x)
    invariant i < lastIndex ==> word(elems(s.chunks), off(s.chunks) + i) == elems(s.chunks)[off(s.chunks) + i] && word(elems(t.chunks), off(t.chunks) + offset) == elems(t.chunks)[off(t.chunks) + offset]

func (*Set).fill(s, t)
  props C24
  requires s != nil && setwf(t)
  modifies s.lowItem, s.highItem, s.chunks
  ensures s.lowItem == t.lowItem && s.highItem == t.highItem && s.chunks == t.chunks

func Union(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result)
  ensures forall x int :: {imem(result, x)} imem(result, x) == (imem(s, x) || imem(t, x))
  loop 1
    invariant setwf(result) && fresh(result.chunks) && result.lowItem == low && result.highItem == high
    invariant offset == (t.lowItem - low) / 64 + $i0
    invariant forall x int :: {imem(result, x)} imem(result, x) == (imem(s, x) || x < t.lowItem + 64*$i0 && imem(t, x))

func (*Set).Union(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies s.lowItem, s.highItem, s.chunks
  ensures result == s && setwf(s) && fresh(s.chunks)
  ensures forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) || old(imem(t, x)))

func Intersect(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result)
  ensures forall x int :: {imem(result, x)} imem(result, x) == (imem(s, x) && imem(t, x))
  loop 1
    invariant setwf(result) && fresh(result.chunks) && result.lowItem == low && result.highItem == high
    invariant offset == (low - t.lowItem) / 64 + $i0
    invariant forall x int :: {imem(result, x)} imem(result, x) == (low <= x && x < high && imem(s, x) && (x >= low + 64*$i0 || imem(t, x)))

func (*Set).Intersect(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies s.lowItem, s.highItem, s.chunks
  ensures result == s && setwf(s) && fresh(s.chunks)
  ensures forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) && old(imem(t, x)))

func Subtract(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies nothing
  ensures fresh(result) && fresh(result.chunks) && setwf(result)
  ensures forall x int :: {imem(result, x)} imem(result, x) == (imem(s, x) && !imem(t, x))
  loop 1
    invariant setwf(result) && fresh(result.chunks) && result.lowItem == s.lowItem && result.highItem == s.highItem
    invariant firstIndex <= i && i <= lastIndex && offset == (low - t.lowItem) / 64 + i - firstIndex
    invariant forall x int :: {imem(result, x)} imem(result, x) == (imem(s, x) && !(x < s.lowItem + 64*i && imem(t, x)))

func (*Set).Subtract(s, t)
  props C24
  requires setwf(s) && setwf(t)
  modifies s.lowItem, s.highItem, s.chunks
  ensures result == s && setwf(s) && fresh(s.chunks)
  ensures forall x int :: {imem(s, x)} imem(s, x) == (old(imem(s, x)) && !old(imem(t, x)))

# ---- counting and listing
spec pop(w int, k int) int = k >= 64 ? 0 : (inb(w, k) ? 1 : 0) + pop(w, k+1)

lemma popNone(w uint64, k int)
  props C24
  induction 64 - k
  requires 0 <= k && k <= 64 && w == 0
  ensures pop(w, k) == 0
  trigger {pop(w, k)}
  apply ih(w, k+1)
  apply noBit(w, k)

lemma popSame(a uint64, b uint64, k int)
  props C24
  induction 64 - k
  requires 0 <= k && k <= 64
  requires forall j int :: {band(a, shl(1, j))} {band(b, shl(1, j))} k <= j && j < 64 ==> inb(a, j) == inb(b, j)
  ensures pop(a, k) == pop(b, k)
  apply ih(a, b, k+1)

lemma clrLow(w uint64, k int, j int)
  props C24
  opt bv
  requires 0 <= k && k < 64 && band(w, shl(1, k) - 1) == 0 && inb(w, k) && k < j && j < 64
  ensures inb(band(w, w - 1), j) == inb(w, j)
  trigger {band(w, shl(1, k)), band(band(w, w - 1), shl(1, j))}

lemma clrBit(w uint64, k int)
  props C24
  opt bv
  requires 0 <= k && k < 64 && band(w, shl(1, k) - 1) == 0 && inb(w, k)
  ensures !inb(band(w, w - 1), k)

lemma popClr(w uint64, k int)
  props C24
  induction 64 - k
  requires u64(w) && 0 <= k && k < 64 && w != 0 && band(w, shl(1, k) - 1) == 0
  ensures pop(band(w, w - 1), k) == pop(w, k) - 1
  apply ih(w, k+1)
  apply lowZero(w, k)
  apply clrBit(w, k)
  apply andBit(w, w - 1, k)
  apply popSame(band(w, w - 1), w, k+1)

lemma popClear(w uint64, v uint64)
  props C24
  requires u64(w) && w != 0 && v == w - 1
  ensures pop(band(w, v), 0) == pop(w, 0) - 1
  trigger {band(w, v)}
  apply popClr(w, 0)
  apply lowNone(w)

lemma popNN(w uint64, k int)
  props C24
  induction 64 - k
  requires 0 <= k && k <= 64
  ensures 0 <= pop(w, k) && pop(w, k) <= 64 - k
  trigger {pop(w, k)}
  apply ih(w, k+1)

func countBits(chunk)
  props C24
  modifies nothing
  ensures result == pop(chunk, 0)
  let c0 = chunk
  loop 1
    invariant u64(chunk) && result + pop(chunk, 0) == pop(c0, 0) && 0 <= result

# the number of items below x
spec icnt(s *Set, x int) int = x <= s.lowItem ? 0 : icnt(s, x-1) + (imem(s, x-1) ? 1 : 0)

lemma icntNN(s *Set, x int)
  props C24
  induction x - s.lowItem
  requires s != nil
  ensures 0 <= icnt(s, x) && (x >= s.lowItem ==> icnt(s, x) <= x - s.lowItem)
  trigger {icnt(s, x)}
  apply ih(s, x-1)

lemma icntMono(s *Set, x int, y int)
  props C24
  induction y - x
  requires s != nil && x <= y
  ensures icnt(s, x) <= icnt(s, y)
  apply ih(s, x, y-1)

lemma icntStrict(s *Set, x int, y int)
  props C24
  induction y - x
  requires s != nil && s.lowItem <= x && x < y && imem(s, x)
  ensures icnt(s, x) < icnt(s, y)
  trigger {icnt(s, x), icnt(s, y)}
  apply icntMono(s, x+1, y)

lemma icntWord(s *Set, i int, k int)
  props C24
  induction 64 - k
  requires setwf(s) && off(s.chunks) <= i && i < off(s.chunks) + len(s.chunks) && 0 <= k && k <= 64
  ensures icnt(s, itemOf(s, i, 64)) == icnt(s, itemOf(s, i, k)) + pop(word(elems(s.chunks), i), k)
  apply ih(s, i, k+1)
  apply memAt(s, i, k)

spec wcnt(s *Set, i int) int = icnt(s, s.lowItem + 64*i)
lemma icntStep(s *Set, i int)
  props C24
  requires setwf(s) && 0 <= i && i < len(s.chunks)
  ensures wcnt(s, i+1) == wcnt(s, i) + pop(elems(s.chunks)[off(s.chunks) + i], 0)
  trigger {wcnt(s, i)}
  apply icntWord(s, off(s.chunks) + i, 0)

lemma shrBit(w uint64, k int)
  props C24
  opt bv
  requires 0 <= k && k < 64
  ensures (band(shr(w, k), 1) != 0) == inb(w, k)
  ensures shr(shr(w, k), 1) == shr(w, k+1)
  trigger {shr(w, k)}

lemma shr0(w uint64)
  props C24
  opt bv
  ensures shr(w, 0) == w

func (*Set).ToSlice(s)
  props C24
  requires setwf(s)
  modifies nothing
  ensures fresh(result) && len(result) == icnt(s, s.highItem)
  ensures forall x int :: {imem(s, x)} imem(s, x) ==> result[icnt(s, x)] == x
  ensures forall j int :: {result[j]} 0 <= j && j < len(result) ==> imem(s, result[j]) && icnt(s, result[j]) == j
  loop 1
    invariant bitCnt == wcnt(s, $i0)
  loop 2
    invariant fresh(result) && len(result) == icnt(s, s.highItem)
    invariant item == s.lowItem + 64*$i1 && index == icnt(s, item)
    invariant forall x int :: {imem(s, x)} imem(s, x) && x < item ==> result[icnt(s, x)] == x
    invariant forall j int :: {result[j]} 0 <= j && j < index ==> imem(s, result[j]) && icnt(s, result[j]) == j
  loop 3
    invariant fresh(result) && len(result) == icnt(s, s.highItem)
    invariant 0 <= i && i <= 64 && $i1 < len(s.chunks)
    invariant item == s.lowItem + 64*$i1 + 64 - i && index == icnt(s, item)
    invariant chunk == shr(elems(s.chunks)[off(s.chunks) + $i1], 64 - i)
    invariant forall x int :: {imem(s, x)} imem(s, x) && x < item ==> result[icnt(s, x)] == x
    invariant forall j int :: {result[j]} 0 <= j && j < index ==> imem(s, result[j]) && icnt(s, result[j]) == j
