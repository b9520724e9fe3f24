# internal/queue: generic ring-buffer deque.
# Abstract view of *Queue[T]: the sequence at(q,0) .. at(q,qlen(q)-1).
package internal/queue

def p2m1(m int) bool = 0 <= m && m < 4611686018427387904 && band(m, m+1) == 0

def qwf(q *Queue[T]) bool = q != nil && 3 <= q.size && q.size < 4294967296 && p2m1(q.size) && len(q.items) == q.size+1 && 0 <= q.head && q.head <= q.size && 0 <= q.tail && q.tail <= q.size && q.zero == zero(T)

def qlen(q *Queue[T]) int = q.tail >= q.head ? q.tail - q.head : q.tail + q.size + 1 - q.head

spec at(q *Queue[T], i int) T = q.items[q.head+i <= q.size ? q.head+i : q.head+i-q.size-1]

# x & (2^k-1), for x in [-2^k, 2*2^k): the only masks the ring buffer needs
lemma maskRing(x int, m int)
  props C23
  opt bv
  requires p2m1(m)
  requires -m-1 <= x && x <= 2*m+1
  ensures band(x, m) == (x < 0 ? x+m+1 : x <= m ? x : x-m-1)
  trigger {band(x, m)}

# doubling keeps the shape 2^k-1
lemma maskDouble(m int)
  props C23
  opt bv
  requires p2m1(m) && m < 2305843009213693952
  ensures p2m1(m+m+1)
  trigger {band(m, m+1)}

func computeSize(length)
  props C23
  bv
  returns size
  requires 0 <= length && length < 4294967296
  ensures p2m1(size)
  ensures size >= 3
  ensures size >= length
  ensures size < 4294967296

func New(items)
  props C23
  requires len(items) < 4294967296
  ensures fresh(result) && qwf(result) && fresh(result.items)
  ensures qlen(result) == len(items)
  ensures forall i int :: {at(result, i)} 0 <= i && i < len(items) ==> at(result, i) == old(items[i])
  modifies nothing

func (*Queue).IsEmpty(q)
  props C23
  requires qwf(q)
  ensures result == (qlen(q) == 0)
  modifies nothing

func (*Queue).Len(q)
  props C23
  requires qwf(q)
  ensures result == qlen(q)
  modifies nothing

func (*Queue).Items(q)
  props C23
  requires qwf(q)
  ensures fresh(result)
  ensures len(result) == qlen(q)
  ensures forall i int :: 0 <= i && i < qlen(q) ==> result[i] == at(q, i)
  modifies nothing

func (*Queue).Append(q, item)
  props C23
  requires qwf(q)
  modifies q.items, q.size, q.head, q.tail, arr(q.items)
  ensures result == q && qwf(q)
  ensures qlen(q) == old(qlen(q)) + 1
  ensures forall i int :: {at(q, i)} 0 <= i && i < old(qlen(q)) ==> at(q, i) == old(at(q, i))
  ensures at(q, old(qlen(q))) == item
  ensures obj(q.items) == old(obj(q.items)) || fresh(q.items)

func (*Queue).Prepend(q, item)
  props C23
  requires qwf(q)
  modifies q.items, q.size, q.head, q.tail, arr(q.items)
  ensures result == q && qwf(q)
  ensures qlen(q) == old(qlen(q)) + 1
  ensures forall i int :: {old(at(q, i))} 0 <= i && i < old(qlen(q)) ==> at(q, i+1) == old(at(q, i))
  ensures at(q, 0) == item
  ensures obj(q.items) == old(obj(q.items)) || fresh(q.items)

func (*Queue).First(q)
  props C23
  returns item, ok
  requires qwf(q)
  modifies q.items, q.size, q.head, q.tail, arr(q.items)
  ensures qwf(q)
  ensures ok == (old(qlen(q)) > 0)
  ensures !ok ==> item == zero(T) && qlen(q) == 0
  ensures ok ==> item == old(at(q, 0)) && qlen(q) == old(qlen(q)) - 1
  ensures ok ==> (forall i int :: {at(q, i)} 0 <= i && i < qlen(q) ==> at(q, i) == old(at(q, i+1)))
  ensures obj(q.items) == old(obj(q.items)) || fresh(q.items)

func (*Queue).Last(q)
  props C23
  returns item, ok
  requires qwf(q)
  modifies q.items, q.size, q.head, q.tail, arr(q.items)
  ensures qwf(q)
  ensures ok == (old(qlen(q)) > 0)
  ensures !ok ==> item == zero(T) && qlen(q) == 0
  ensures ok ==> item == old(at(q, qlen(q)-1)) && qlen(q) == old(qlen(q)) - 1
  ensures ok ==> (forall i int :: {at(q, i)} 0 <= i && i < qlen(q) ==> at(q, i) == old(at(q, i)))
  ensures obj(q.items) == old(obj(q.items)) || fresh(q.items)

func (*Queue).Peek(q, index)
  props C23
  returns item, ok
  requires qwf(q)
  ensures ok == (-qlen(q) <= index && index < qlen(q))
  ensures !ok ==> item == zero(T)
  ensures ok ==> item == at(q, index < 0 ? index + qlen(q) : index)
  modifies nothing

func (*Queue).Fill(q, items)
  props C23
  requires q != nil && q.zero == zero(T) && len(items) < 4294967296
  modifies q.items, q.size, q.head, q.tail
  ensures qwf(q) && fresh(q.items)
  ensures qlen(q) == len(items)
  ensures forall i int :: {at(q, i)} 0 <= i && i < len(items) ==> at(q, i) == old(items[i])

func (*Queue).Clear(q)
  props C23
  requires q != nil && q.zero == zero(T)
  modifies q.items, q.size, q.head, q.tail
  ensures qwf(q) && qlen(q) == 0 && fresh(q.items)

# called with head == tail after a write: the buffer is full (size+1 elements)
func (*Queue).grow(q)
  opt makelimit=4294967296
  props C23
  requires qwf(q) && q.head == q.tail
  modifies q.items, q.size, q.head, q.tail
  ensures qwf(q) && fresh(q.items)
  ensures qlen(q) == old(q.size) + 1
  ensures forall i int :: {at(q, i)} 0 <= i && i <= old(q.size) ==> at(q, i) == old(at(q, i))
