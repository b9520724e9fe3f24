package source
record queueItem, QueueSnapshot, Pos

# ---- text geometry (absolute array indices) ----

# start of the line that contains position p of a text starting at o
spec lstart(a [0]byte, o int, p int) int = p <= o ? o : a[p-1] == 10 ? p : lstart(a, o, p-1)

# position right after the n-th newline from i on (e when there are fewer)
spec nls(a [0]byte, i int, e int, n int) int = n <= 0 ? i : i >= e ? e : a[i] == 10 ? nls(a, i+1, e, n-1) : nls(a, i+1, e, n)

# position reached from i by passing at most k runes, never passing a newline or e
spec adv(a [0]byte, i int, e int, k int) int = k <= 0 || i >= e || a[i] == 10 ? i : adv(a, i + runew(a, i, e), e, k-1)

# p is reached from i by whole runes
spec rbound(a [0]byte, i int, e int, p int) bool = i == p || i < p && rbound(a, i + runew(a, i, e), e, p)

def bytesok(a [0]byte) bool = forall k int :: {a[k]} 0 <= a[k] && a[k] <= 255

lemma nlcNonneg(a [0]byte, i int, e int)
  props C01
  induction e - i
  ensures 0 <= nlc(a, i, e) && nlc(a, i, e) <= max(e - i, 0)
  trigger {nlc(a, i, e)}
  apply ih(a, i+1, e)

lemma nlcZero(a [0]byte, i int, e int, p int)
  props C01
  induction e - i
  requires nlc(a, i, e) == 0 && i <= p && p < e
  ensures a[p] != 10
  trigger {nlc(a, i, e), a[p]}
  apply ih(a, i+1, e, p)
  apply nlcNonneg(a, i+1, e)

lemma nlcNone(a [0]byte, i int, e int)
  props C01
  induction e - i
  requires forall p int :: {a[p]} i <= p && p < e ==> a[p] != 10
  ensures nlc(a, i, e) == 0
  apply ih(a, i+1, e)

lemma nlcSplit(a [0]byte, i int, m int, e int)
  props C01
  induction m - i
  requires i <= m && m <= e
  ensures nlc(a, i, e) == nlc(a, i, m) + nlc(a, m, e)
  apply ih(a, i+1, m, e)

lemma lstartIs(a [0]byte, o int, ls int, p int)
  props C01
  induction p - ls
  requires o <= ls && ls <= p
  requires ls == o || a[ls-1] == 10
  requires forall k int :: {a[k]} ls <= k && k < p ==> a[k] != 10
  ensures lstart(a, o, p) == ls
  apply ih(a, o, ls, p-1)

lemma nlsSkip(a [0]byte, i int, m int, e int, n int)
  props C02
  induction m - i
  requires i <= m && m <= e && n >= 1
  requires forall k int :: {a[k]} i <= k && k < m ==> a[k] != 10
  ensures nls(a, i, e, n) == nls(a, m, e, n)
  apply ih(a, i+1, m, e, n)

lemma nlsCompose(a [0]byte, i int, e int, n int, m int)
  props C02
  induction e - i
  requires n >= 0 && m >= 0
  ensures nls(a, i, e, n+m) == nls(a, nls(a, i, e, n), e, m)
  apply ih(a, i+1, e, n-1, m)
  apply ih(a, i+1, e, n, m)

lemma lstartNone(a [0]byte, o int, p int)
  props C01 C02
  induction p - o
  requires o <= p
  ensures o <= lstart(a, o, p) && lstart(a, o, p) <= p
  ensures forall k int :: {a[k]} lstart(a, o, p) <= k && k < p ==> a[k] != 10
  apply ih(a, o, p-1)

lemma lstartNth(a [0]byte, o int, p int, e int)
  props C02
  induction p - o
  requires o <= p && p <= e
  ensures nls(a, o, e, nlc(a, o, p)) == lstart(a, o, p)
  apply nlcSplit(a, o, p <= o ? o : p-1, p)
  apply nlsCompose(a, o, e, nlc(a, o, p-1), 1)
  apply lstartNone(a, o, p <= o ? o : p-1)
  apply nlsSkip(a, lstart(a, o, p-1), p-1, e, 1)
  apply ih(a, o, p-1, e)
  apply nlcNonneg(a, o, p-1)

lemma runesNonneg(a [0]byte, i int, e int)
  props C01
  induction e - i
  ensures 0 <= runes(a, i, e) && runes(a, i, e) <= max(e - i, 0)
  trigger {runes(a, i, e)}
  apply ih(a, i + runew(a, i, e), e)

# decoding is stable under truncation at or after the end of the rune
lemma runewStable(a [0]byte, i int, e int, f int)
  props C02
  requires i < f && f <= e && i + runew(a, i, e) <= f
  ensures runew(a, i, f) == runew(a, i, e)

# position -> (line, column) -> position is the identity on rune boundaries
lemma colRoundTrip(a [0]byte, i int, e int, p int)
  props C02
  induction p - i
  requires i <= p && p <= e
  requires rbound(a, i, e, p)
  requires forall k int :: {a[k]} i <= k && k < p ==> a[k] != 10
  ensures adv(a, i, e, runes(a, i, p)) == p
  apply runewStable(a, i, e, p)
  apply ih(a, i + runew(a, i, e), e, p)
  apply runesNonneg(a, i + runew(a, i, e), p)

# ---- Source ----

# the line index: lineStarts lists exactly the positions after newlines
def lines(s *Source) bool = len(s.lineStarts) >= 1 && s.lineStarts[0] == 0 && (forall i int :: {s.lineStarts[i]} 0 <= i && i < len(s.lineStarts) ==> 0 <= s.lineStarts[i] && s.lineStarts[i] <= len(s.content)) && (forall i int, j int :: {s.lineStarts[i], s.lineStarts[j]} 0 <= i && i < j && j < len(s.lineStarts) ==> s.lineStarts[i] < s.lineStarts[j]) && (forall i int :: {s.lineStarts[i]} 1 <= i && i < len(s.lineStarts) ==> s.content[s.lineStarts[i]-1] == 10) && (forall i int, p int :: {s.lineStarts[i], elems(s.content)[p]} 0 <= i && i < len(s.lineStarts) && off(s.content) + s.lineStarts[i] <= p && p < off(s.content) + (i+1 < len(s.lineStarts) ? s.lineStarts[i+1]-1 : len(s.content)) ==> elems(s.content)[p] != 10)

def swf(s *Source) bool = s != nil && lines(s) && -1 <= s.prevLineIndex && s.prevLineIndex < len(s.lineStarts)

spec sok(s *Source) bool = swf(s)
def A(s *Source) [0]byte = elems(s.content)
def B(s *Source) int = off(s.content)
def E(s *Source) int = off(s.content) + len(s.content)
def clamp(s *Source, p int) int = p < 0 ? 0 : p > len(s.content) ? len(s.content) : p

# every line start is found by counting newlines
lemma lineCount(s *Source, k int)
  props C01 C02
  induction k
  requires swf(s) && 0 <= k && k < len(s.lineStarts)
  ensures nlc(A(s), B(s), B(s) + s.lineStarts[k]) == k
  apply nlcSplit(A(s), B(s), B(s) + s.lineStarts[k-1 < 0 ? 0 : k-1], B(s) + s.lineStarts[k])
  apply nlcSplit(A(s), B(s) + s.lineStarts[k-1 < 0 ? 0 : k-1], B(s) + s.lineStarts[k] - 1, B(s) + s.lineStarts[k])
  apply nlcNone(A(s), B(s) + s.lineStarts[k-1 < 0 ? 0 : k-1], B(s) + s.lineStarts[k] - 1)
  apply ih(s, k-1)

lemma lineNth(s *Source, k int, n int)
  props C02
  induction k
  requires swf(s) && 0 <= k && k < len(s.lineStarts) && n >= k
  ensures nls(A(s), B(s), E(s), n) == nls(A(s), B(s) + s.lineStarts[k], E(s), n - k)
  apply nlsSkip(A(s), B(s) + s.lineStarts[k-1 < 0 ? 0 : k-1], B(s) + s.lineStarts[k] - 1, E(s), n - k + 1)
  apply ih(s, k-1, n)

func New(name, content)
  props C01 C02
  ensures fresh(result) && swf(result)
  ensures result.content == content && result.name == name
  modifies nothing
  loop 1
    invariant 0 <= i && i <= len(content) && 1 <= j && j <= lineCnt
    invariant s != nil && fresh(s) && s.content == content && s.name == name && s.prevLineIndex == -1
    invariant fresh(s.lineStarts) && len(s.lineStarts) == lineCnt && off(s.lineStarts) == 0
    invariant j + nlc(elems(content), off(content)+i, off(content)+len(content)) == lineCnt
    invariant s.lineStarts[0] == 0
    invariant forall k int :: {s.lineStarts[k]} 0 <= k && k < j ==> 0 <= s.lineStarts[k] && s.lineStarts[k] <= i
    invariant forall k int, l int :: {s.lineStarts[k], s.lineStarts[l]} 0 <= k && k < l && l < j ==> s.lineStarts[k] < s.lineStarts[l]
    invariant forall k int :: {s.lineStarts[k]} 1 <= k && k < j ==> content[s.lineStarts[k]-1] == 10
    invariant forall k int, p int :: {s.lineStarts[k], elems(content)[p]} 0 <= k && k < j && off(content) + s.lineStarts[k] <= p && p < off(content) + (k+1 < j ? s.lineStarts[k+1]-1 : i) ==> elems(content)[p] != 10
    decreases len(content) - i

func (*Source).Name(s)
  props C01
  requires s != nil
  ensures result == s.name
  modifies nothing

func (*Source).Content(s)
  props C01
  requires s != nil
  ensures result == s.content
  modifies nothing

func (*Source).Len(s)
  props C01
  requires s != nil
  ensures result == len(s.content)
  modifies nothing

func (*Source).findLineIndex(s, pos)
  props C01
  requires swf(s) && 0 <= pos && pos < len(s.content)
  modifies s.prevLineIndex
  ensures 0 <= result && result < len(s.lineStarts)
  ensures s.lineStarts[result] <= pos
  ensures result + 1 < len(s.lineStarts) ==> pos < s.lineStarts[result+1]
  ensures swf(s)
  loop 1
    invariant 0 <= lineIndex && lineIndex <= last + 1 && last == len(s.lineStarts) - 1
    invariant lineIndex >= 1 || s.lineStarts[0] <= pos
    invariant lineIndex >= 1 ==> s.lineStarts[lineIndex-1] <= pos
    decreases last + 1 - lineIndex
  loop 2
    invariant 0 <= leftIndex && leftIndex <= rightIndex && rightIndex < len(s.lineStarts)
    invariant s.lineStarts[leftIndex] <= pos
    invariant rightIndex + 1 < len(s.lineStarts) ==> pos < s.lineStarts[rightIndex+1]
    invariant index == leftIndex || index == rightIndex
    invariant s.prevLineIndex == old(s.prevLineIndex)
    decreases rightIndex - leftIndex

func (*Source).LineCol(s, pos)
  props C01 C02
  returns line, col
  requires swf(s)
  modifies s.prevLineIndex
  let p = clamp(s, pos)
  ensures line == 1 + nlc(A(s), B(s), B(s) + p)
  ensures col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p)
  ensures 1 <= line && line <= len(s.lineStarts) && col >= 1
  ensures swf(s)
  apply lineCount(s, line-1)
  apply nlcSplit(A(s), B(s), B(s) + s.lineStarts[line-1], B(s) + p)
  apply nlcNone(A(s), B(s) + s.lineStarts[line-1], B(s) + p)
  apply lstartIs(A(s), B(s), B(s) + s.lineStarts[line-1], B(s) + p)

func (*Source).Pos(s, line, col)
  props C02
  requires swf(s)
  modifies nothing
  ensures line <= 0 || col <= 0 ==> result == 0
  ensures line >= 1 && col >= 1 ==> line > 1 + nlc(A(s), B(s), E(s)) ==> result == len(s.content)
  ensures line >= 1 && col >= 1 && line <= 1 + nlc(A(s), B(s), E(s)) ==> B(s) + result == adv(A(s), nls(A(s), B(s), E(s), line-1), E(s), col-1)
  ensures 0 <= result && result <= len(s.content)
  let n = len(s.lineStarts)
  apply lineCount(s, n-1)
  apply nlcSplit(A(s), B(s), B(s) + s.lineStarts[n-1], E(s))
  apply nlcNone(A(s), B(s) + s.lineStarts[n-1], E(s))
  apply lineNth(s, line <= 0 || line > n ? 0 : line-1, line <= 0 || line > n ? 0 : line-1)
  loop 1
    invariant 0 <= res && res <= l && l == len(s.content) && 1 <= line && line <= len(s.lineStarts) && col >= 1
    invariant adv(A(s), B(s) + res, E(s), col-1) == adv(A(s), B(s) + s.lineStarts[line-1], E(s), old(col)-1)
    decreases col

# round trip through the two public methods, for a position on a rune boundary of its line
lemma roundTrip(s *Source, p int, line int, col int)
  props C02
  requires swf(s) && 0 <= p && p <= len(s.content)
  requires rbound(A(s), lstart(A(s), B(s), B(s)+p), E(s), B(s)+p)
  requires line == 1 + nlc(A(s), B(s), B(s)+p)
  requires col == 1 + runes(A(s), lstart(A(s), B(s), B(s)+p), B(s)+p)
  ensures adv(A(s), nls(A(s), B(s), E(s), line-1), E(s), col-1) == B(s) + p
  apply lstartNth(A(s), B(s), B(s)+p, E(s))
  apply colRoundTrip(A(s), lstart(A(s), B(s), B(s)+p), E(s), B(s)+p)
  apply lstartNone(A(s), B(s), B(s)+p)

# ---- Pos ----

func NewPos(s, pos)
  props C25
  ensures s == nil ==> result == zero(Pos)
  ensures s != nil ==> result.src == s && result.pos == pos
  modifies nothing

func (Pos).Source(p)
  props C25
  ensures result == p.src
  modifies nothing

func (Pos).SourceName(p)
  props C25
  ensures result == (p.src == nil ? "" : p.src.name)
  modifies nothing

func (Pos).Pos(p)
  props C25
  ensures result == p.pos
  modifies nothing

func (Pos).LineCol(p)
  props C25
  returns line, col
  requires p.src != nil ==> swf(p.src)
  modifies p.src != nil ? p.src.prevLineIndex : nothing
  let q = clamp(p.src, p.pos)
  ensures p.src == nil ==> line == 0 && col == 0
  ensures p.src != nil ==> line == 1 + nlc(A(p.src), B(p.src), B(p.src) + q) && col == 1 + runes(A(p.src), lstart(A(p.src), B(p.src), B(p.src) + q), B(p.src) + q)
  ensures p.src != nil ==> swf(p.src)

# ---- Queue ----
# Abstract view: the current (source, pos) followed by at(q.q, 0) .. at(q.q, qlen(q.q)-1).

# a stored entry: non-empty source, position inside it
def itemok(it queueItem) bool = it.source != nil && len(it.source.content) > 0 && 0 <= it.pos && it.pos <= len(it.source.content)

def sq(q *Queue) bool = q != nil && qwf(q.q) && (q.source == nil ==> q.pos == 0) && (q.source != nil ==> 0 <= q.pos && q.pos <= len(q.source.content)) && (q.source == nil || len(q.source.content) == 0 ==> qlen(q.q) == 0) && (forall i int :: {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> itemok(at(q.q, i)))
# all sources of the queue are well-formed
spec sqel(q *Queue) bool = forall i int :: {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> sok(at(q.q, i).source)
def squ(q *Queue) bool = sq(q) && (q.source != nil ==> swf(q.source)) && sqel(q)

def qempty(q *Queue) bool = q.source == nil || len(q.source.content) == 0
# nothing but the internal buffer of the deque may be reallocated
def snapok(s QueueSnapshot) bool = (s.source == nil ==> s.pos == 0) && (s.source != nil ==> 0 <= s.pos && s.pos <= len(s.source.content)) && (s.source == nil || len(s.source.content) == 0 ==> len(s.items) == 0) && (forall i int :: {s.items[i]} 0 <= i && i < len(s.items) ==> itemok(s.items[i])) && len(s.items) < 4294967296

func NewQueue()
  props C03
  ensures fresh(result) && fresh(result.q) && fresh(result.q.items) && sq(result)
  ensures result.source == nil && qlen(result.q) == 0
  modifies nothing

func (*Queue).Source(q)
  props C03
  requires q != nil
  ensures result == q.source
  modifies nothing

func (*Queue).SourceName(q)
  props C03
  requires q != nil
  ensures result == (q.source == nil ? "" : q.source.name)
  modifies nothing

func (*Queue).Pos(q)
  props C03
  requires q != nil
  ensures result == q.pos
  modifies nothing

func (*Queue).SourcePos(q)
  props C03 C25
  requires sq(q)
  ensures result.src == q.source && result.pos == q.pos
  modifies nothing

func (*Queue).NextSource(q)
  props C03
  requires sq(q)
  modifies q.source, q.pos, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items)
  ensures sq(q)
  ensures result == (old(qlen(q.q)) > 0)
  ensures !result ==> q.source == nil && q.pos == 0
  ensures result ==> q.source == old(at(q.q, 0)).source && q.pos == old(at(q.q, 0)).pos
  ensures result ==> qlen(q.q) == old(qlen(q.q)) - 1
  ensures result ==> (forall i int :: {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i+1)))
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)
  ensures old(sqel(q)) ==> sqel(q) && (q.source != nil ==> sok(q.source))

func (*Queue).Append(q, s)
  props C03
  requires sq(q)
  modifies q.source, q.pos, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items)
  ensures result == q && sq(q)
  let ignored = s == nil || len(s.content) == 0 && !qempty(q)
  ensures ignored ==> q.source == old(q.source) && q.pos == old(q.pos) && qlen(q.q) == old(qlen(q.q))
  ensures !ignored && old(qempty(q)) ==> q.source == s && q.pos == 0 && qlen(q.q) == 0
  ensures !ignored && old(!qempty(q)) ==> q.source == old(q.source) && q.pos == old(q.pos) && qlen(q.q) == old(qlen(q.q)) + 1 && at(q.q, old(qlen(q.q))).source == s && at(q.q, old(qlen(q.q))).pos == 0
  ensures forall i int :: {at(q.q, i)} 0 <= i && i < old(qlen(q.q)) ==> at(q.q, i) == old(at(q.q, i))
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)

func (*Queue).Prepend(q, s)
  props C03
  requires sq(q)
  modifies q.source, q.pos, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items)
  ensures result == q && sq(q)
  let ignored = s == nil || len(s.content) == 0 && !qempty(q)
  ensures ignored ==> q.source == old(q.source) && q.pos == old(q.pos) && qlen(q.q) == old(qlen(q.q)) && (forall i int :: {at(q.q, i)} 0 <= i && i < old(qlen(q.q)) ==> at(q.q, i) == old(at(q.q, i)))
  ensures !ignored ==> q.source == s && q.pos == 0
  ensures !ignored && old(qempty(q)) ==> qlen(q.q) == 0
  ensures !ignored && old(!qempty(q)) ==> qlen(q.q) == old(qlen(q.q)) + 1 && at(q.q, 0).source == old(q.source) && at(q.q, 0).pos == old(q.pos) && (forall i int :: {old(at(q.q, i))} 0 <= i && i < old(qlen(q.q)) ==> at(q.q, i+1) == old(at(q.q, i)))
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)

func (*Queue).IsEmpty(q)
  props C03
  requires q != nil
  ensures result == (q.source == nil)
  modifies nothing

func (*Queue).Eof(q)
  props C03
  requires sq(q)
  ensures result == (q.source == nil || q.pos == len(q.source.content))
  modifies nothing

func (*Queue).ContentPos(q)
  props C03
  returns content, pos
  requires sq(q)
  ensures q.source == nil ==> content == nil && pos == 0
  ensures q.source != nil ==> content == q.source.content && pos == q.pos
  modifies nothing

func (*Queue).Skip(q, size)
  props C03
  requires sq(q)
  modifies q.pos
  ensures sq(q)
  ensures q.pos == (q.source == nil || size <= 0 ? old(q.pos) : min(old(q.pos) + size, len(q.source.content)))

func (*Queue).Rewind(q, size)
  props C03
  requires sq(q)
  modifies q.pos
  ensures sq(q)
  ensures q.pos == (q.source == nil || size <= 0 ? old(q.pos) : max(old(q.pos) - size, 0))

func (*Queue).Seek(q, pos)
  props C03
  requires sq(q)
  modifies q.pos
  ensures sq(q)
  ensures q.pos == (q.source == nil ? 0 : pos < 0 ? 0 : min(pos, len(q.source.content)))

func (*Queue).LineCol(q, pos)
  props C01
  returns line, col
  requires q != nil && (q.source != nil ==> swf(q.source))
  modifies q.source != nil ? q.source.prevLineIndex : nothing
  let p = clamp(q.source, pos)
  ensures q.source == nil ==> line == 0 && col == 0
  ensures q.source != nil ==> line == 1 + nlc(A(q.source), B(q.source), B(q.source) + p) && col == 1 + runes(A(q.source), lstart(A(q.source), B(q.source), B(q.source) + p), B(q.source) + p)

func (*Queue).Snapshot(q)
  props C03
  requires sq(q)
  ensures snapok(result) && fresh(result.items)
  ensures result.source == q.source && result.pos == q.pos && len(result.items) == qlen(q.q)
  ensures forall i int :: {result.items[i]} 0 <= i && i < qlen(q.q) ==> result.items[i] == at(q.q, i)
  modifies nothing

func (*Queue).Restore(q, s)
  props C03
  requires sq(q) && snapok(s)
  modifies q.source, q.pos, q.q.items, q.q.size, q.q.head, q.q.tail
  ensures sq(q) && fresh(q.q.items)
  ensures q.source == s.source && q.pos == s.pos && qlen(q.q) == len(s.items)
  ensures forall i int :: {at(q.q, i)} 0 <= i && i < len(s.items) ==> at(q.q, i) == s.items[i]

# ---- NormalizeNls ----

# byte j of the text starting at o survives (everything but the LF of a CRLF)
def kept(a [0]byte, o int, j int) bool = !(a[j] == 10 && j > o && a[j-1] == 13)

# number of surviving bytes in a[o:j]
spec keptn(a [0]byte, o int, j int) int = j <= o ? 0 : keptn(a, o, j-1) + (kept(a, o, j-1) ? 1 : 0)

lemma keptnBound(a [0]byte, o int, j int)
  props C04
  induction j - o
  requires o <= j
  ensures 0 <= keptn(a, o, j) && keptn(a, o, j) <= j - o
  apply ih(a, o, j-1)

lemma keptnMono(a [0]byte, o int, i int, j int)
  props C04
  induction j - o
  requires o <= i && i <= j
  ensures keptn(a, o, i) <= keptn(a, o, j)
  apply ih(a, o, i, j-1)

func NormalizeNls(content)
  props C04
  requires content != nil
  modifies *content, (*content)[0:len(*content)]
  let a = elems(*content)
  let o = off(*content)
  let n = len(*content)
  ensures obj(*content) == old(obj(*content)) && off(*content) == o
  ensures len(*content) == keptn(a, o, o+n)
  ensures forall j int :: {keptn(a, o, j)} o <= j && j < o+n && kept(a, o, j) ==> elems(*content)[o + keptn(a, o, j)] == (a[j] == 13 ? 10 : a[j])
  loop 1
    invariant 0 <= $i && $i <= n && 0 <= wPos && wPos <= rPos && rPos <= $i && len(*content) == n && obj(*content) == old(obj(*content)) && off(*content) == o
    invariant crFound == ($i > 0 && a[o+$i-1] == 13)
    invariant wPos == keptn(a, o, o+rPos)
    invariant keptn(a, o, o+$i) == wPos + $i - rPos
    invariant rPos == 0 ==> wPos == 0
    decreases n - $i
    invariant forall j int :: {keptn(a, o, j)} o+rPos <= j && j < o+$i ==> kept(a, o, j) && elems(*content)[j] == (a[j] == 13 ? 10 : a[j])
    invariant forall j int :: {keptn(a, o, j)} o+rPos <= j && j <= o+$i ==> keptn(a, o, j) == wPos + j - o - rPos
    invariant forall j int :: {elems(*content)[j]} o+$i <= j && j < o+n ==> elems(*content)[j] == a[j]
    invariant forall j int :: {keptn(a, o, j)} o <= j && j < o+rPos && kept(a, o, j) ==> keptn(a, o, j) < wPos && elems(*content)[o + keptn(a, o, j)] == (a[j] == 13 ? 10 : a[j])
