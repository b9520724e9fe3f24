package lexer
record TokenType

# ---- regexp ----
# The result of FindSubmatchIndex is a function of the expression and the bytes a[o:e];
# indexes are relative to o.
ufun rmPairs(re *regexp.Regexp, a [0]byte, o int, e int) int
ufun rmAt(re *regexp.Regexp, a [0]byte, o int, e int, k int) int

extern (*regexp.Regexp).FindSubmatchIndex(re, b)
  trusted documented behaviour of regexp.FindSubmatchIndex: deterministic, pairs of indexes, -1 -1 for a group that took no part, groups lie inside the match
  requires re != nil
  ensures len(result) == 2 * rmPairs(re, elems(b), off(b), off(b)+len(b)) && len(result) >= 0
  ensures forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] == rmAt(re, elems(b), off(b), off(b)+len(b), k)
  ensures forall k int :: {result[k]} {rmAt(re, elems(b), off(b), off(b)+len(b), k)} 0 <= k && k < len(result) ==> rmAt(re, elems(b), off(b), off(b)+len(b), k) == -1 || 0 <= rmAt(re, elems(b), off(b), off(b)+len(b), k) && rmAt(re, elems(b), off(b), off(b)+len(b), k) <= len(b)
  ensures forall j int :: {rmAt(re, elems(b), off(b), off(b)+len(b), 2*j)} 0 <= j && 2*j < len(result) ==> (rmAt(re, elems(b), off(b), off(b)+len(b), 2*j) == -1) == (rmAt(re, elems(b), off(b), off(b)+len(b), 2*j+1) == -1)
  ensures forall j int :: {rmAt(re, elems(b), off(b), off(b)+len(b), 2*j)} 0 <= j && 2*j < len(result) && rmAt(re, elems(b), off(b), off(b)+len(b), 2*j) >= 0 ==> rmAt(re, elems(b), off(b), off(b)+len(b), 0) <= rmAt(re, elems(b), off(b), off(b)+len(b), 2*j) && rmAt(re, elems(b), off(b), off(b)+len(b), 2*j) <= rmAt(re, elems(b), off(b), off(b)+len(b), 2*j+1) && rmAt(re, elems(b), off(b), off(b)+len(b), 2*j+1) <= rmAt(re, elems(b), off(b), off(b)+len(b), 1)
  ensures len(result) > 0 ==> rmAt(re, elems(b), off(b), off(b)+len(b), 0) >= 0
  modifies nothing

# ---- tokens ----

func (*Token).Type(t)
  props C05
  requires t != nil
  ensures result == t.tokenType
  modifies nothing

func (*Token).TypeName(t)
  props C05
  requires t != nil
  ensures result == t.typeName
  modifies nothing

func (*Token).Content(t)
  props C05
  requires t != nil
  ensures result == t.content
  modifies nothing

func (*Token).Text(t)
  props C05
  requires t != nil
  ensures result == mkstr(elems(t.content), off(t.content), len(t.content))
  modifies nothing

func (*Token).Pos(t)
  props C05 C25
  requires t != nil
  ensures result == t.pos
  modifies nothing

func (*Token).Source(t)
  props C05 C25
  requires t != nil
  ensures result == t.pos.src
  modifies nothing

func (*Token).SourceName(t)
  props C05 C25
  requires t != nil
  ensures result == (t.pos.src == nil ? "" : t.pos.src.name)
  modifies nothing

func (*Token).LineCol(t)
  props C05 C25
  returns line, col
  requires t != nil && (t.pos.src != nil ==> swf(t.pos.src))
  modifies t.pos.src != nil ? t.pos.src.prevLineIndex : nothing
  let s = t.pos.src
  let p = clamp(s, t.pos.pos)
  ensures s == nil ==> line == 0 && col == 0
  ensures s != nil ==> line == 1 + nlc(A(s), B(s), B(s) + p) && col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p)
  ensures s != nil ==> swf(s)

func NewToken(tokenType, typeName, content, sp)
  props C05
  ensures fresh(result) && result.tokenType == tokenType && result.typeName == typeName && result.content == content && result.pos == sp
  modifies nothing

func EofToken(s)
  props C05
  ensures fresh(result) && result.tokenType == -2 && result.typeName == "-eof-" && result.content == nil
  ensures s == nil ==> result.pos == zero(source.Pos)
  ensures s != nil ==> result.pos.src == s && result.pos.pos == len(s.content)
  modifies nothing

func EoiToken()
  props C05
  ensures fresh(result) && result.tokenType == -3 && result.typeName == "-eoi-" && result.content == nil && result.pos == zero(source.Pos)
  modifies nothing

# ---- the lexer ----
# Positions are absolute indices of the text a; the text ends at e, p is the current one.

def grp(l *Lexer, a [0]byte, p int, e int, j int) bool = rmAt(l.re, a, p, e, 2*j) >= 0

# an undescribed group and a group described as an error both yield errors
def gbad(l *Lexer, j int) bool = j > len(l.types) || l.types[j-1].Type < 0

def inset(tts uint64, k int) bool = band(tts, shl(1, k)) != 0
def gok(l *Lexer, tts uint64, j int) bool = gbad(l, j) || inset(tts, l.types[j-1].Type)

# the first capturing group from j on that took part and is acceptable (0: none)
spec gsel(l *Lexer, tts uint64, a [0]byte, p int, e int, j int) int = j >= rmPairs(l.re, a, p, e) ? 0 : grp(l, a, p, e, j) && gok(l, tts, j) ? j : gsel(l, tts, a, p, e, j+1)
# some group from j on took part
spec gany(l *Lexer, a [0]byte, p int, e int, j int) bool = j < rmPairs(l.re, a, p, e) && (grp(l, a, p, e, j) || gany(l, a, p, e, j+1))

# a non-empty match at p
def matched(l *Lexer, a [0]byte, p int, e int) bool = rmPairs(l.re, a, p, e) > 0 && rmAt(l.re, a, p, e, 0) == 0 && rmAt(l.re, a, p, e, 1) > 0
def mlen(l *Lexer, a [0]byte, p int, e int) int = rmAt(l.re, a, p, e, 1)
def insig(l *Lexer, a [0]byte, p int, e int) bool = matched(l, a, p, e) && !gany(l, a, p, e, 1)

# where the insignificant lexemes starting at p end
spec skipTo(l *Lexer, a [0]byte, p int, e int) int = p < e && insig(l, a, p, e) ? skipTo(l, a, p + mlen(l, a, p, e), e) : p

def lwf(l *Lexer) bool = l != nil && l.re != nil && (forall k int :: {l.types[k]} 0 <= k && k < len(l.types) ==> l.types[k].Type == -4 || 0 <= l.types[k].Type && l.types[k].Type < 64 && inset(l.typeMask, l.types[k].Type))

lemma allTypes(m uint64, k int)
  props C05
  opt bv
  requires m == 18446744073709551615 && 0 <= k && k < 64
  ensures band(m, shl(1, k)) != 0
  trigger {band(m, shl(1, k))}

lemma maskMiss(t uint64, m uint64, k int)
  props C05
  opt bv
  requires 0 <= k && k < 64 && band(t, m) == 0 && band(m, shl(1, k)) != 0
  ensures band(t, shl(1, k)) == 0

lemma maskAdd(m uint64, k int)
  props C05
  opt bv
  requires 0 <= k && k < 64
  ensures band(bor(m, shl(1, k)), shl(1, k)) != 0
  trigger {bor(m, shl(1, k))}

lemma maskKeep(m uint64, n uint64, k int)
  props C05
  opt bv
  requires 0 <= k && k < 64 && band(m, shl(1, k)) != 0
  ensures band(bor(m, n), shl(1, k)) != 0
  trigger {bor(m, n), band(m, shl(1, k))}

lemma gselRange(l *Lexer, tts uint64, a [0]byte, p int, e int, j int)
  props C05
  induction rmPairs(l.re, a, p, e) - j
  requires j >= 1
  ensures 0 <= gsel(l, tts, a, p, e, j) && (gsel(l, tts, a, p, e, j) > 0 ==> j <= gsel(l, tts, a, p, e, j) && gsel(l, tts, a, p, e, j) < rmPairs(l.re, a, p, e) && gok(l, tts, gsel(l, tts, a, p, e, j)) && grp(l, a, p, e, gsel(l, tts, a, p, e, j)))
  trigger {gsel(l, tts, a, p, e, j)}
  apply ih(l, tts, a, p, e, j+1)

# with all types accepted a participating group is always selected
lemma gselAny(l *Lexer, m uint64, a [0]byte, p int, e int, j int)
  props C05
  induction rmPairs(l.re, a, p, e) - j
  requires lwf(l) && j >= 1 && m == 18446744073709551615
  ensures gany(l, a, p, e, j) == (gsel(l, m, a, p, e, j) > 0)
  apply ih(l, m, a, p, e, j+1)
  apply gselRange(l, m, a, p, e, j+1)

# a selected group took part
lemma gselAll(l *Lexer, m uint64, a [0]byte, p int, e int, j int)
  props C05
  induction rmPairs(l.re, a, p, e) - j
  requires j >= 1
  ensures gsel(l, m, a, p, e, j) > 0 ==> gany(l, a, p, e, j)
  apply ih(l, m, a, p, e, j+1)
  apply gselRange(l, m, a, p, e, j+1)

func New(re, types)
  props C05
  ensures fresh(result) && result.re == re && len(result.types) == len(types) && fresh(result.types)
  ensures forall k int :: {result.types[k]} 0 <= k && k < len(types) ==> result.types[k].TypeName == types[k].TypeName && result.types[k].Type == (0 <= types[k].Type && types[k].Type < 64 ? types[k].Type : -4)
  ensures re != nil ==> lwf(result)
  modifies nothing
  loop 1
    invariant len(ts) == len(types) && off(ts) == 0 && fresh(ts)
    invariant forall k int :: {ts[k]} 0 <= k && k < $i ==> ts[k].TypeName == types[k].TypeName && ts[k].Type == (0 <= types[k].Type && types[k].Type < 64 ? types[k].Type : -4)
    invariant forall k int :: {ts[k]} 0 <= k && k < $i && ts[k].Type >= 0 ==> inset(tm, ts[k].Type)

func wrongCharError(s, content, line, col)
  props C05 C25
  requires s != nil
  ensures fresh(result) && result.Code == 101 && result.SourceName == s.name && result.Line == line && result.Col == col
  modifies nothing

func wrongTokenError(t)
  props C05 C25
  returns result
  requires t != nil && (t.pos.src != nil ==> swf(t.pos.src))
  modifies t.pos.src != nil ? t.pos.src.prevLineIndex : nothing
  let s = t.pos.src
  let p = clamp(s, t.pos.pos)
  ensures fresh(result) && result.Code == 102
  ensures s == nil ==> result.Line == 0 && result.Col == 0 && result.SourceName == ""
  ensures s != nil ==> result.Line == 1 + nlc(A(s), B(s), B(s) + p) && result.Col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p) && result.SourceName == s.name
  ensures s != nil ==> swf(s)

def errAt(x error, code int, s *source.Source, p int) bool = typeis(x, *llx.Error) && fresh(cast(x, *llx.Error)) && cast(x, *llx.Error).Code == code && cast(x, *llx.Error).SourceName == s.name && cast(x, *llx.Error).Line == 1 + nlc(A(s), B(s), B(s) + p) && cast(x, *llx.Error).Col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p)

def tokOf(t *Token, l *Lexer, s *source.Source, p int, j int) bool = t != nil && fresh(t) && t.tokenType == l.types[j-1].Type && t.typeName == l.types[j-1].TypeName && t.pos.src == s && B(s) + t.pos.pos == p + rmAt(l.re, A(s), p, E(s), 2*j) && obj(t.content) == obj(s.content) && off(t.content) == p + rmAt(l.re, A(s), p, E(s), 2*j) && len(t.content) == rmAt(l.re, A(s), p, E(s), 2*j+1) - rmAt(l.re, A(s), p, E(s), 2*j)

func (*Lexer).matchToken(l, src, content, pos, tts)
  props C05 C25
  returns t, n, err
  requires lwf(l) && swf(src) && content == src.content && 0 <= pos && pos < len(content)
  modifies src.prevLineIndex
  let a = A(src)
  let p = B(src) + pos
  let e = E(src)
  let j = gsel(l, tts, a, p, e, 1)
  ensures swf(src) && lwf(l)
  ensures !matched(l, a, p, e) ==> t == nil && n == 0 && errAt(err, 101, src, pos)
  ensures matched(l, a, p, e) && j > 0 && gbad(l, j) ==> t == nil && n == 0 && errAt(err, 102, src, pos + rmAt(l.re, a, p, e, 2*j))
  ensures matched(l, a, p, e) && j > 0 && !gbad(l, j) ==> err == nil && n == mlen(l, a, p, e) && tokOf(t, l, src, p, j)
  ensures matched(l, a, p, e) && j <= 0 && gany(l, a, p, e, 1) ==> t == nil && n == 0 && err == nil
  ensures matched(l, a, p, e) && j <= 0 && !gany(l, a, p, e, 1) ==> t == nil && n == mlen(l, a, p, e) && err == nil
  ensures matched(l, a, p, e) ==> pos + mlen(l, a, p, e) <= len(src.content)
  ensures 0 <= n && pos + n <= len(src.content) && 0 <= j && j < max(1, rmPairs(l.re, a, p, e))
  loop 1
    invariant 1 <= i/2 && i == 2*(i/2) && i/2 <= rmPairs(l.re, a, p, e) && swf(src)
    invariant gsel(l, tts, a, p, e, 1) == gsel(l, tts, a, p, e, i/2)
    invariant gany(l, a, p, e, 1) == (subMaskMatched || gany(l, a, p, e, i/2))
    decreases 2*rmPairs(l.re, a, p, e) - i

# nothing about the queue changed but, possibly, its position
def qstill(q *source.Queue) bool = q.source == old(q.source) && q.q == old(q.q) && q.q.items == old(q.q.items) && q.q.head == old(q.q.head) && q.q.tail == old(q.q.tail) && q.q.size == old(q.q.size) && elems(q.q.items) == old(elems(q.q.items))

# the queue moved on to the next source
def qnext(q *source.Queue) bool = qlen(q.q) == (old(qlen(q.q)) > 0 ? old(qlen(q.q)) - 1 : 0) && (old(qlen(q.q)) == 0 ==> q.source == nil && q.pos == 0) && (old(qlen(q.q)) > 0 ==> q.source == old(at(q.q, 0)).source && q.pos == old(at(q.q, 0)).pos) && (forall i int :: {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i+1)))

def eoi(t *Token) bool = t != nil && fresh(t) && t.tokenType == -3 && t.typeName == "-eoi-" && t.content == nil && t.pos == zero(source.Pos)
def eof(t *Token, s *source.Source) bool = t != nil && fresh(t) && t.tokenType == -2 && t.typeName == "-eof-" && t.content == nil && t.pos.src == s && t.pos.pos == len(s.content)

func (*Lexer).fetch(l, q, tSet)
  props C05 C06 C25
  returns t, adv, err
  requires lwf(l) && sq(q) && (q.source != nil ==> swf(q.source))
  let src = q.source
  let a = A(src)
  let p = B(src) + q.pos
  let e = E(src)
  let j = gsel(l, tSet, a, p, e, 1)
  let end = src != nil && p >= e
  let live = src != nil && p < e
  modifies q.pos, end ? q.source : nothing, end ? q.q.items : nothing, end ? q.q.size : nothing, end ? q.q.head : nothing, end ? q.q.tail : nothing, end ? arr(q.q.items) : nothing, src != nil ? src.prevLineIndex : nothing
  ensures sq(q) && lwf(l) && (src != nil ==> swf(src))
  ensures src == nil ==> eoi(t) && !adv && err == nil && q.pos == old(q.pos)
  ensures end ==> eof(t, src) && !adv && err == nil && qnext(q)
  ensures old(sqel(q)) ==> sqel(q) && (q.source != nil ==> sok(q.source))
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)
  ensures live && !matched(l, a, p, e) ==> t == nil && !adv && errAt(err, 101, src, old(q.pos)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && j > 0 && gbad(l, j) ==> t == nil && !adv && errAt(err, 102, src, old(q.pos) + rmAt(l.re, a, p, e, 2*j)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && j > 0 && !gbad(l, j) ==> err == nil && adv && q.pos == old(q.pos) + mlen(l, a, p, e) && tokOf(t, l, src, p, j)
  ensures live && matched(l, a, p, e) && j == 0 && gany(l, a, p, e, 1) ==> t == nil && !adv && err == nil && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && j == 0 && !gany(l, a, p, e, 1) ==> t == nil && adv && err == nil && q.pos == old(q.pos) + mlen(l, a, p, e)
  ensures live && matched(l, a, p, e) ==> old(q.pos) + mlen(l, a, p, e) <= len(src.content)

func (*Lexer).Next(l, q)
  props C05 C06 C25
  returns t, err
  requires lwf(l) && sq(q) && (q.source != nil ==> swf(q.source))
  let src = q.source
  let a = A(src)
  let e = E(src)
  let p = src == nil ? 0 : skipTo(l, a, B(src) + q.pos, e)
  let j = gsel(l, 18446744073709551615, a, p, e, 1)
  let end = src != nil && p >= e
  let live = src != nil && p < e
  modifies q.pos, end ? q.source : nothing, end ? q.q.items : nothing, end ? q.q.size : nothing, end ? q.q.head : nothing, end ? q.q.tail : nothing, end ? arr(q.q.items) : nothing, src != nil ? src.prevLineIndex : nothing
  ensures sq(q)
  ensures src == nil ==> eoi(t) && err == nil && q.pos == old(q.pos)
  ensures end ==> eof(t, src) && err == nil && qnext(q)
  ensures live && !matched(l, a, p, e) ==> t == nil && errAt(err, 101, src, p - B(src)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && gbad(l, j) ==> t == nil && errAt(err, 102, src, p - B(src) + rmAt(l.re, a, p, e, 2*j)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && !gbad(l, j) ==> err == nil && B(src) + q.pos == p + mlen(l, a, p, e) && tokOf(t, l, src, p, j)
  ensures live && matched(l, a, p, e) ==> 1 <= j
  ensures (t == nil) == (err != nil)
  ensures src != nil ==> swf(src)
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)
  ensures forall x *source.Source :: {sok(x)} !fresh(x) && old(sok(x)) ==> sok(x)
  ensures old(sqel(q)) ==> sqel(q) && (q.source != nil ==> sok(q.source))
  ensures t == nil ==> qstill(q) && (forall i int :: {at(q.q, i)} {old(at(q.q, i))} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i)))
  loop 1
    apply head: src != nil ==> gselAny(l, 18446744073709551615, a, B(src) + q.pos, e, 1)
    invariant sq(q) && qstill(q) && lwf(l) && (src != nil ==> swf(src)) && pos == old(q.pos)
    invariant old(sqel(q)) ==> sqel(q)
    invariant src == nil ==> q.pos == old(q.pos)
    invariant src != nil ==> skipTo(l, a, B(src) + q.pos, e) == skipTo(l, a, B(src) + old(q.pos), e)
    decreases src == nil ? 0 : len(src.content) - q.pos

func (*Lexer).NextOf(l, q, tts)
  props C05 C06 C25
  returns t, err
  requires lwf(l) && sq(q) && (q.source != nil ==> swf(q.source))
  let none = band(tts, l.typeMask) == 0
  let src = q.source
  let a = A(src)
  let e = E(src)
  let p = src == nil ? 0 : skipTo(l, a, B(src) + q.pos, e)
  let j = gsel(l, tts, a, p, e, 1)
  let end = !none && src != nil && p >= e
  let live = !none && src != nil && p < e
  modifies q.pos, end ? q.source : nothing, end ? q.q.items : nothing, end ? q.q.size : nothing, end ? q.q.head : nothing, end ? q.q.tail : nothing, end ? arr(q.q.items) : nothing, src != nil ? src.prevLineIndex : nothing
  ensures sq(q)
  ensures none ==> t == nil && err == nil && q.pos == old(q.pos)
  ensures !none && src == nil ==> eoi(t) && err == nil && q.pos == old(q.pos)
  ensures end ==> eof(t, src) && err == nil && qnext(q)
  ensures live && !matched(l, a, p, e) ==> t == nil && errAt(err, 101, src, p - B(src)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && j > 0 && gbad(l, j) ==> t == nil && errAt(err, 102, src, p - B(src) + rmAt(l.re, a, p, e, 2*j)) && q.pos == old(q.pos)
  ensures live && matched(l, a, p, e) && j > 0 && !gbad(l, j) ==> err == nil && B(src) + q.pos == p + mlen(l, a, p, e) && tokOf(t, l, src, p, j)
  ensures live && matched(l, a, p, e) && j == 0 ==> t == nil && err == nil && q.pos == old(q.pos)
  ensures live ==> j >= 0
  ensures src != nil ==> swf(src)
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)
  ensures forall x *source.Source :: {sok(x)} !fresh(x) && old(sok(x)) ==> sok(x)
  ensures old(sqel(q)) ==> sqel(q) && (q.source != nil ==> sok(q.source))
  ensures t == nil ==> qstill(q) && (forall i int :: {at(q.q, i)} {old(at(q.q, i))} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i)))
  loop 1
    apply head: src != nil ==> gselAll(l, tts, a, B(src) + q.pos, e, 1)
    invariant sq(q) && qstill(q) && lwf(l) && (src != nil ==> swf(src)) && pos == old(q.pos)
    invariant old(sqel(q)) ==> sqel(q)
    invariant src == nil ==> q.pos == old(q.pos)
    invariant src != nil ==> skipTo(l, a, B(src) + q.pos, e) == skipTo(l, a, B(src) + old(q.pos), e)
    decreases src == nil ? 0 : len(src.content) - q.pos
