# langdef: string literals (C13)
package bytes
# the first c in a[i:n], or n
spec fb(a [0]byte, i int, n int, c int) int = i >= n ? n : a[i] == c ? i : fb(a, i+1, n, c)

extern bytes.IndexByte(b, c)
  trusted documented behaviour of bytes.IndexByte
  ensures (result < 0 ? off(b) + len(b) : off(b) + result) == fb(elems(b), off(b), off(b) + len(b), c)
  ensures -1 <= result && result < len(b) && (result >= 0 ==> b[result] == c)
  ensures forall j int :: {elems(b)[j]} off(b) <= j && j < off(b) + (result < 0 ? len(b) : result) ==> elems(b)[j] != c
  modifies nothing

package langdef
def hexd(c int) int = 48 <= c && c <= 57 ? c - 48 : 97 <= c && c <= 102 ? c - 87 : 65 <= c && c <= 70 ? c - 55 : -1
spec hexok(a [0]byte, i int, j int) bool = j <= i ? true : hexok(a, i, j-1) && hexd(a[j-1]) >= 0
spec hexv(a [0]byte, i int, j int) int = j <= i ? 0 : hexv(a, i, j-1) * 16 + hexd(a[j-1])
spec shexok(s string, j int) bool = j <= 0 ? true : shexok(s, j-1) && hexd(s[j-1]) >= 0
spec shexv(s string, j int) int = j <= 0 ? 0 : shexv(s, j-1) * 16 + hexd(s[j-1])

lemma shexIs(a [0]byte, o int, n int, j int)
  props C13
  induction j
  requires 0 <= n && j <= n && n < 1000 && (forall k int :: {a[k]} o <= k && k < o + n ==> 0 <= a[k] && a[k] <= 255)
  ensures shexok(mkstr(a, o, n), j) == hexok(a, o, o+j)
  ensures shexv(mkstr(a, o, n), j) == hexv(a, o, o+j)
  apply ih(a, o, n, j-1)

lemma hexStep(a [0]byte, i int, j int)
  props C13
  requires hexok(a, i, j) && i < j
  ensures hexok(a, i, j-1) && hexv(a, i, j) == hexv(a, i, j-1) * 16 + hexd(a[j-1]) && 0 <= hexd(a[j-1]) && hexd(a[j-1]) < 16

lemma hexv2(a [0]byte, i int)
  props C13
  requires hexok(a, i, i+2)
  ensures 0 <= hexv(a, i, i+2) && hexv(a, i, i+2) < 256
  apply hexStep(a, i, i+2)
  apply hexStep(a, i, i+1)

lemma hexv4(a [0]byte, i int)
  props C13
  requires hexok(a, i, i+4)
  ensures hexok(a, i, i+2) && 0 <= hexv(a, i, i+4) && hexv(a, i, i+4) < 65536
  apply hexStep(a, i, i+4)
  apply hexStep(a, i, i+3)
  apply hexv2(a, i)

lemma hexv8(a [0]byte, i int)
  props C13
  requires hexok(a, i, i+8)
  ensures 0 <= hexv(a, i, i+8) && hexv(a, i, i+8) < 4294967296
  apply hexStep(a, i, i+8)
  apply hexStep(a, i, i+7)
  apply hexStep(a, i, i+6)
  apply hexStep(a, i, i+5)
  apply hexv4(a, i)

# how many hexadecimal digits follow the letter; what it stands for if there are none
def elen(c int) int = c == 92 || c == 34 || c == 110 || c == 114 || c == 116 ? 0 : c == 120 ? 2 : c == 117 ? 4 : c == 85 ? 8 : -1
def esub(c int) int = c == 110 ? 10 : c == 114 ? 13 : c == 116 ? 9 : c
def goodRune(v int) bool = 0 <= v && v < 55296 || 57344 <= v && v <= 1114111
# UTF-8: the length of the form of a code point and its bytes (only utf8.AppendRune is assumed to produce them)
ufun rlen(v int) int
ufun rbyte(v int, k int) int

# a backslash is never the last character, as in every token that is a string literal
spec paired(a [0]byte, i int, n int) bool = i >= n ? true : a[i] == 92 ? i + 2 < n && paired(a, i+2, n) : paired(a, i+1, n)
# the digits of an escape are there; the number is that of a rune
spec escHex(a [0]byte, i int, n int) bool = elen(a[i+1]) == 0 || elen(a[i+1]) > 0 && i + elen(a[i+1]) + 3 <= n && hexok(a, i+2, i+2+elen(a[i+1]))
spec escv(a [0]byte, i int) int = hexv(a, i+2, i+2+elen(a[i+1]))
spec escOk(a [0]byte, i int, n int) bool = escHex(a, i, n) && (elen(a[i+1]) == 0 || goodRune(escv(a, i)))
def enext(a [0]byte, i int) int = i + 2 + elen(a[i+1])
spec strOk(a [0]byte, i int, n int) bool = i >= n ? true : a[i] != 92 ? strOk(a, i+1, n) : escOk(a, i, n) && strOk(a, enext(a, i), n)
# the code of the error about the first wrong escape
spec strErr(a [0]byte, i int, n int) int = i >= n ? 0 : a[i] != 92 ? strErr(a, i+1, n) : !escHex(a, i, n) ? 17 : !escOk(a, i, n) ? 18 : strErr(a, enext(a, i), n)
spec elenOut(a [0]byte, i int) int = elen(a[i+1]) <= 2 ? 1 : rlen(escv(a, i))
spec ebyte(a [0]byte, i int, k int) int = elen(a[i+1]) == 0 ? esub(a[i+1]) : elen(a[i+1]) == 2 ? escv(a, i) : rbyte(escv(a, i), k)
# the text a literal stands for: its length and its bytes
spec outN(a [0]byte, i int, n int) int = i >= n ? 0 : a[i] != 92 ? 1 + outN(a, i+1, n) : elenOut(a, i) + outN(a, enext(a, i), n)
spec outAt(a [0]byte, i int, n int, k int) int = i >= n ? -1 : a[i] != 92 ? (k == 0 ? a[i] : outAt(a, i+1, n, k-1)) : k < elenOut(a, i) ? ebyte(a, i, k) : outAt(a, enext(a, i), n, k - elenOut(a, i))

lemma fbIs(a [0]byte, i int, n int)
  props C13
  induction n - i
  requires i <= n
  ensures i <= fb(a, i, n, 92) && fb(a, i, n, 92) <= n && (fb(a, i, n, 92) < n ==> a[fb(a, i, n, 92)] == 92)
  apply ih(a, i+1, n)

lemma plain(a [0]byte, i int, n int)
  props C13
  induction n - i
  requires i <= n
  ensures strOk(a, i, n) == strOk(a, fb(a, i, n, 92), n) && strErr(a, i, n) == strErr(a, fb(a, i, n, 92), n)
  ensures outN(a, i, n) == fb(a, i, n, 92) - i + outN(a, fb(a, i, n, 92), n)
  ensures paired(a, i, n) == paired(a, fb(a, i, n, 92), n)
  apply ih(a, i+1, n)

lemma plainAt(a [0]byte, i int, n int, k int)
  props C13
  induction n - i
  requires i <= n && k >= 0
  ensures k < fb(a, i, n, 92) - i ==> outAt(a, i, n, k) == a[i+k]
  ensures k >= fb(a, i, n, 92) - i ==> outAt(a, i, n, k) == outAt(a, fb(a, i, n, 92), n, k - (fb(a, i, n, 92) - i))
  trigger {fb(a, i, n, 92), outAt(a, i, n, k)}
  apply ih(a, i+1, n, k-1)
  apply fbIs(a, i, n)
  apply fbIs(a, i+1, n)

lemma hexPaired(a [0]byte, i int, j int, n int)
  props C13
  induction j - i
  requires i <= j && j <= n && hexok(a, i, j) && paired(a, i, n)
  ensures paired(a, j, n)
  apply ih(a, i, j-1, n)

package strconv
extern strconv.ParseUint(s, base, bitSize)
  trusted documented behaviour of strconv.ParseUint for at most eight hexadecimal digits
  returns r, e
  requires base == 16 && bitSize == 32 && 1 <= len(s) && len(s) <= 8
  ensures (e == nil) == shexok(s, len(s))
  ensures e == nil ==> r == shexv(s, len(s))
  modifies nothing

package utf8
extern utf8.ValidRune(r)
  trusted documented behaviour of unicode/utf8.ValidRune
  ensures result == goodRune(r)
  modifies nothing

extern utf8.AppendRune(p, r)
  trusted documented behaviour of unicode/utf8.AppendRune
  requires goodRune(r) && cap(p) >= len(p)
  modifies arr(p)
  ensures len(result) == len(p) + rlen(r)
  ensures 1 <= rlen(r) && rlen(r) <= 4
  ensures obj(result) == obj(p) && off(result) == off(p) || fresh(result)
  ensures forall k int :: {result[k]} 0 <= k && k < len(p) ==> result[k] == old(p[k])
  ensures forall k int :: {result[k]} len(p) <= k && k < len(result) ==> result[k] == rbyte(r, k - len(p))

package langdef
func processStringToken(token)
  props C13
  opt table=escapeCharMap
  returns r, e
  requires token != nil && (token.pos.src != nil ==> swf(token.pos.src)) && len(token.content) >= 2 && (token.content[0] == 34 ==> paired(elems(token.content), off(token.content), off(token.content) + len(token.content)))
  let a = elems(token.content)
  let o = off(token.content)
  let n = off(token.content) + len(token.content)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures token.content[0] != 34 ==> r == token && e == nil
  ensures token.content[0] == 34 ==> (e == nil) == strOk(a, o, n)
  ensures e != nil ==> r == nil && lerr(e, strErr(a, o, n))
  ensures token.pos.src != nil ==> swf(token.pos.src)
  ensures e == nil ==> r != nil && (r == token || r.tokenType == 1 && r.typeName == "string")
  ensures e == nil && token.content[0] == 34 ==> len(r.content) == outN(a, o, n) && r.pos == token.pos
  ensures e == nil && token.content[0] == 34 ==> forall k int :: {r.content[k]} 0 <= k && k < len(r.content) ==> r.content[k] == outAt(a, o, n, k)
  apply fbIs(a, o, n)
  apply plain(a, o, n)
  loop 1
    apply head: fbIs(a, off(content), n)
    apply head: plain(a, off(content), n)
    apply head: hexPaired(a, fb(a, off(content), n, 92) + 2, enext(a, fb(a, off(content), n, 92)), n)
    apply head: shexIs(a, fb(a, off(content), n, 92) + 2, elen(a[fb(a, off(content), n, 92) + 1]), elen(a[fb(a, off(content), n, 92) + 1]))
    apply head: hexv2(a, fb(a, off(content), n, 92) + 2)
    apply head: hexv4(a, fb(a, off(content), n, 92) + 2)
    apply head: hexv8(a, fb(a, off(content), n, 92) + 2)
    split len(result)
    split len(result) + fb(a, off(content), n, 92) - off(content)
    invariant obj(content) == obj(token.content) && off(content) >= o && off(content) + len(content) == n && token.content[0] == 34
    invariant token.pos.src != nil ==> swf(token.pos.src)
    invariant paired(a, off(content), n)
    invariant strOk(a, o, n) == strOk(a, off(content), n) && strErr(a, o, n) == strErr(a, off(content), n)
    invariant outN(a, o, n) == len(result) + outN(a, off(content), n)
    invariant fresh(result)
    invariant forall k int :: {outAt(a, o, n, k)} k >= len(result) ==> outAt(a, o, n, k) == outAt(a, off(content), n, k - len(result))
    invariant forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] == outAt(a, o, n, k)

# names, flags and groups of tokens (C29)
record literalToken, extraToken
def ttab(c *parseContext) bool = c != nil && c.result != nil && c.tokenIndex != nil && c.literalIndex != nil && c.extraIndex != nil && c.tokenIndex != c.literalIndex && c.tokenIndex != c.extraIndex && c.literalIndex != c.extraIndex
def twf(c *parseContext) bool = ttab(c) && (forall n string :: {has(c.tokenIndex, n)} {c.tokenIndex[n]} has(c.tokenIndex, n) ==> 0 <= c.tokenIndex[n] && c.tokenIndex[n] < len(c.result.Tokens) && c.result.Tokens[c.tokenIndex[n]].Name == n)
def ewf(c *parseContext) bool = ttab(c) && (forall n string :: {has(c.extraIndex, n)} {c.extraIndex[n]} has(c.extraIndex, n) ==> 0 <= c.extraIndex[n] && c.extraIndex[n] < len(c.extraTokens) && c.extraTokens[c.extraIndex[n]].name == n)

func (*parseContext).addToken(c, name, re, flags)
  props C29
  requires twf(c) && ewf(c)
  let was = old(has(c.extraIndex, name))
  let x = old(c.extraTokens[c.extraIndex[name]])
  modifies c.result.Tokens, arr(c.result.Tokens), contents(c.tokenIndex), contents(c.extraIndex)
  ensures twf(c) && ewf(c)
  ensures result == old(len(c.result.Tokens)) && len(c.result.Tokens) == result + 1
  ensures c.result.Tokens[result].Name == name && c.result.Tokens[result].Re == re
  ensures c.result.Tokens[result].Group == (was ? x.group : 0) && c.result.Tokens[result].Flags == bor(flags, was ? x.flags : 0)
  ensures forall k int :: {c.result.Tokens[k]} 0 <= k && k < result ==> c.result.Tokens[k] == old(c.result.Tokens[k])
  ensures has(c.tokenIndex, name) && c.tokenIndex[name] == result && !has(c.extraIndex, name)
  ensures forall n string :: {has(c.tokenIndex, n)} n != name ==> has(c.tokenIndex, n) == old(has(c.tokenIndex, n)) && c.tokenIndex[n] == old(c.tokenIndex[n])
  ensures forall n string :: {has(c.extraIndex, n)} n != name ==> has(c.extraIndex, n) == old(has(c.extraIndex, n)) && c.extraIndex[n] == old(c.extraIndex[n])

func (*parseContext).addExtraToken(c, name)
  props C29
  requires ewf(c)
  let was = old(has(c.extraIndex, name))
  modifies c.extraTokens, arr(c.extraTokens), contents(c.extraIndex)
  ensures ewf(c) && (obj(c.extraTokens) == old(obj(c.extraTokens)) && off(c.extraTokens) == old(off(c.extraTokens)) || fresh(c.extraTokens))
  ensures has(c.extraIndex, name) && result == c.extraIndex[name] && 0 <= result && result < len(c.extraTokens) && c.extraTokens[result].name == name
  ensures was ==> result == old(c.extraIndex[name]) && len(c.extraTokens) == old(len(c.extraTokens))
  ensures !was ==> result == old(len(c.extraTokens)) && len(c.extraTokens) == result + 1 && c.extraTokens[result].group == 0 && c.extraTokens[result].flags == 0
  ensures forall k int :: {c.extraTokens[k]} 0 <= k && k < old(len(c.extraTokens)) ==> c.extraTokens[k] == old(c.extraTokens[k])
  ensures forall n string :: {has(c.extraIndex, n)} n != name ==> has(c.extraIndex, n) == old(has(c.extraIndex, n)) && c.extraIndex[n] == old(c.extraIndex[n])

func (*parseContext).addTokenFlag(c, name, flag)
  props C29
  requires twf(c) && ewf(c) && obj(c.extraTokens) != obj(c.result.Tokens)
  let known = old(has(c.tokenIndex, name))
  let was = old(has(c.extraIndex, name))
  let i = old(c.tokenIndex[name])
  let j = old(c.extraIndex[name])
  modifies known ? arr(c.result.Tokens) : nothing, !known ? c.extraTokens : nothing, !known ? arr(c.extraTokens) : nothing, !known ? contents(c.extraIndex) : nothing
  ensures twf(c) && ewf(c)
  ensures known ==> c.result.Tokens[i].Flags == bor(old(c.result.Tokens[i].Flags), flag)
  ensures known ==> c.result.Tokens[i].Name == name && c.result.Tokens[i].Re == old(c.result.Tokens[i].Re) && c.result.Tokens[i].Group == old(c.result.Tokens[i].Group)
  ensures forall k int :: {c.result.Tokens[k]} 0 <= k && k < len(c.result.Tokens) && !(known && k == i) ==> c.result.Tokens[k] == old(c.result.Tokens[k])
  ensures !known ==> has(c.extraIndex, name) && c.extraTokens[c.extraIndex[name]].flags == bor(was ? old(c.extraTokens[j].flags) : 0, flag)
  ensures !known ==> c.extraTokens[c.extraIndex[name]].group == (was ? old(c.extraTokens[j].group) : 0)
  ensures forall n string :: {has(c.extraIndex, n)} n != name || known ==> has(c.extraIndex, n) == old(has(c.extraIndex, n)) && c.extraIndex[n] == old(c.extraIndex[n])
  ensures forall k int :: {c.extraTokens[k]} 0 <= k && k < old(len(c.extraTokens)) && (known || !was || k != j) ==> c.extraTokens[k] == old(c.extraTokens[k])

func (*parseContext).addLiteralToken(c, name, flags)
  props C29
  requires c != nil && c.literalIndex != nil && (forall n string :: {has(c.literalIndex, n)} {c.literalIndex[n]} has(c.literalIndex, n) ==> 0 <= c.literalIndex[n] && c.literalIndex[n] < len(c.literals) && c.literals[c.literalIndex[n]].name == n)
  let was = old(has(c.literalIndex, name))
  modifies c.literals, arr(c.literals), contents(c.literalIndex)
  ensures forall n string :: {has(c.literalIndex, n)} {c.literalIndex[n]} has(c.literalIndex, n) ==> 0 <= c.literalIndex[n] && c.literalIndex[n] < len(c.literals) && c.literals[c.literalIndex[n]].name == n
  ensures has(c.literalIndex, name) && c.literals[c.literalIndex[name]].flags == (was ? bor(old(c.literals[c.literalIndex[name]].flags), flags) : flags)
  ensures len(c.literals) == old(len(c.literals)) + (was ? 0 : 1)
  ensures forall k int :: {c.literals[k]} 0 <= k && k < old(len(c.literals)) && (!was || k != old(c.literalIndex[name])) ==> c.literals[k] == old(c.literals[k])
  ensures forall n string :: {has(c.literalIndex, n)} n != name ==> has(c.literalIndex, n) == old(has(c.literalIndex, n)) && c.literalIndex[n] == old(c.literalIndex[n])

func (*parseContext).useLiteralToken(c, name, flags)
  props C29
  requires twf(c) && (forall n string :: {has(c.literalIndex, n)} {c.literalIndex[n]} has(c.literalIndex, n) ==> 0 <= c.literalIndex[n] && c.literalIndex[n] < len(c.result.Tokens) && c.result.Tokens[c.literalIndex[n]].Name == n)
  let was = old(has(c.literalIndex, name))
  modifies !was ? c.result.Tokens : nothing, !was ? arr(c.result.Tokens) : nothing, !was ? contents(c.literalIndex) : nothing
  ensures twf(c) && (forall n string :: {has(c.literalIndex, n)} {c.literalIndex[n]} has(c.literalIndex, n) ==> 0 <= c.literalIndex[n] && c.literalIndex[n] < len(c.result.Tokens) && c.result.Tokens[c.literalIndex[n]].Name == n)
  ensures has(c.literalIndex, name) && result == c.literalIndex[name] && c.result.Tokens[result].Name == name
  ensures was ==> result == old(c.literalIndex[name])
  ensures !was ==> result == old(len(c.result.Tokens)) && len(c.result.Tokens) == result + 1 && c.result.Tokens[result].Re == "" && c.result.Tokens[result].Group == 0 && c.result.Tokens[result].Flags == bor(flags, 1)
  ensures forall k int :: {c.result.Tokens[k]} 0 <= k && k < old(len(c.result.Tokens)) ==> c.result.Tokens[k] == old(c.result.Tokens[k])

# states and rules (C12)
record MultiRule
func (*parseResult).AddState(pr)
  props C12
  returns stateIndex, st
  requires pr != nil
  modifies pr.States, arr(pr.States)
  ensures stateIndex == old(len(pr.States)) && len(pr.States) == stateIndex + 1 && pr.States[stateIndex] == st
  ensures fresh(st) && st != nil && st.Types == 0 && fresh(st.Rules) && st.Rules != nil && len(st.Rules) == 0
  ensures forall k int :: {has(st.Rules, k)} !has(st.Rules, k)
  ensures forall k int :: {pr.States[k]} 0 <= k && k < stateIndex ==> pr.States[k] == old(pr.States[k])

# the rules of a state for a key before and after adding some
def oneRule(r grammar.Rule, k int, state int, node int) bool = r.Token == k && r.State == state && r.Node == node
spec cnt(a [0]int, o int, n int, k int) int = n <= 0 ? 0 : cnt(a, o, n-1, k) + (a[o+n-1] == k ? 1 : 0)
def nIn(s []int, n int, k int) int = cnt(elems(s), off(s), n, k)
lemma cnt0(a [0]int, o int, n int, k int)
  props C12
  induction n
  ensures cnt(a, o, n, k) >= 0
  trigger {cnt(a, o, n, k)}
  apply ih(a, o, n-1, k)

lemma cntEqK(a [0]int, o int, b [0]int, p int, n int, k int)
  props C12
  induction n
  requires forall i int :: {a[i]} o <= i && i < o + n ==> a[i] == b[i - o + p]
  ensures cnt(a, o, n, k) == cnt(b, p, n, k)
  trigger {cnt(a, o, n, k), cnt(b, p, n, k)}
  apply ih(a, o, b, p, n-1, k)

lemma cntAt(a [0]int, o int, n int, i int)
  props C12
  induction n
  requires o <= i && i < o + n
  ensures cnt(a, o, n, a[i]) >= 1
  trigger {cnt(a, o, n, a[i])}
  apply ih(a, o, n-1, i)
  apply cnt0(a, o, n-1, a[i])

# no two keys share memory
def rsep(m map[int][]grammar.Rule) bool = forall k int, l int :: {m[k], m[l]} has(m, k) && has(m, l) && k != l ==> obj(m[k]) != obj(m[l])
def rwf(m map[int][]grammar.Rule) bool = m != nil && (forall k int :: {m[k]} {has(m, k)} (has(m, k) ==> allocated(m[k]) && obj(m[k]) > 0 && 0 < len(m[k]) && len(m[k]) <= cap(m[k]) && cap(m[k]) <= maxLen && off(m[k]) >= 0) && (!has(m, k) ==> len(m[k]) == 0 && cap(m[k]) == 0))

func (*stateEntry).AddRule(se, state, nt, tokens)
  props C12
  requires se != nil && rwf(se.Rules) && rsep(se.Rules)
  modifies contents(se.Rules)
  modifies each k int where has(se.Rules, k) : arr(se.Rules[k])
  ensures rwf(se.Rules) && rsep(se.Rules)
  ensures forall k int :: {has(se.Rules, k)} has(se.Rules, k) == (old(has(se.Rules, k)) || nIn(tokens, len(tokens), k) > 0)
  ensures forall k int :: {se.Rules[k]} k >= 0 ==> len(se.Rules[k]) == old(len(se.Rules[k])) + nIn(tokens, len(tokens), k)
  ensures forall k int, i int :: {se.Rules[k][i]} k >= 0 && 0 <= i && i < old(len(se.Rules[k])) ==> se.Rules[k][i] == old(se.Rules[k][i])
  ensures forall k int, i int :: {se.Rules[k][i]} k >= 0 && old(len(se.Rules[k])) <= i && i < len(se.Rules[k]) ==> oneRule(se.Rules[k][i], k, state, nt)
  ensures forall k int :: {se.Rules[k]} k < 0 && nIn(tokens, len(tokens), k) > 0 ==> len(se.Rules[k]) == 1 && oneRule(se.Rules[k][0], k, state, nt)
  ensures forall k int :: {se.Rules[k]} nIn(tokens, len(tokens), k) == 0 ==> se.Rules[k] == old(se.Rules[k])
  loop 1
    invariant rsep(se.Rules)
    invariant rwf(se.Rules)
    invariant forall k int :: {se.Rules[k]} has(se.Rules, k) ==> fresh(se.Rules[k]) || old(has(se.Rules, k)) && obj(se.Rules[k]) == old(obj(se.Rules[k]))
    invariant rule.State == state && rule.Node == nt
    invariant forall k int :: {has(se.Rules, k)} has(se.Rules, k) == (old(has(se.Rules, k)) || nIn(tokens, $i, k) > 0)
    invariant forall k int :: {se.Rules[k]} k >= 0 ==> len(se.Rules[k]) == old(len(se.Rules[k])) + nIn(tokens, $i, k)
    invariant forall k int, i int :: {se.Rules[k][i]} k >= 0 && 0 <= i && i < old(len(se.Rules[k])) ==> se.Rules[k][i] == old(se.Rules[k][i])
    invariant forall k int, i int :: {se.Rules[k][i]} k >= 0 && old(len(se.Rules[k])) <= i && i < len(se.Rules[k]) ==> oneRule(se.Rules[k][i], k, state, nt)
    invariant forall k int :: {se.Rules[k]} k < 0 && nIn(tokens, $i, k) > 0 ==> len(se.Rules[k]) == 1 && oneRule(se.Rules[k][0], k, state, nt)
    invariant forall k int :: {se.Rules[k]} nIn(tokens, $i, k) == 0 ==> se.Rules[k] == old(se.Rules[k])

# the rules of two states share no memory
def xsep(m map[int][]grammar.Rule, n map[int][]grammar.Rule) bool = forall k int, l int :: {m[k], n[l]} has(m, k) && has(n, l) ==> obj(m[k]) != obj(n[l])

func (*stateEntry).CopyRules(se, from)
  props C12
  requires se != nil && from != nil && se.Rules != from.Rules
  requires rwf(se.Rules) && rsep(se.Rules) && rwf(from.Rules) && rsep(from.Rules) && xsep(se.Rules, from.Rules)
  modifies contents(se.Rules)
  modifies each k int where has(se.Rules, k) : arr(se.Rules[k])
  ensures rwf(se.Rules) && rsep(se.Rules) && rwf(from.Rules) && xsep(se.Rules, from.Rules)
  ensures forall k int :: {has(se.Rules, k)} has(se.Rules, k) == (old(has(se.Rules, k)) || has(from.Rules, k))
  ensures forall k int :: {se.Rules[k]} len(se.Rules[k]) == (k < 0 && has(from.Rules, k) ? len(from.Rules[k]) : old(len(se.Rules[k])) + len(from.Rules[k]))
  ensures forall k int, i int :: {se.Rules[k][i]} (k >= 0 || !has(from.Rules, k)) && 0 <= i && i < old(len(se.Rules[k])) ==> se.Rules[k][i] == old(se.Rules[k][i])
  ensures forall k int, i int :: {se.Rules[k][i]} k >= 0 && old(len(se.Rules[k])) <= i && i < len(se.Rules[k]) ==> se.Rules[k][i] == old(from.Rules[k][i - old(len(se.Rules[k]))])
  ensures forall k int, i int :: {se.Rules[k][i]} k < 0 && has(from.Rules, k) && 0 <= i && i < len(se.Rules[k]) ==> se.Rules[k][i] == old(from.Rules[k][i])
  ensures forall k int, i int :: {from.Rules[k][i]} has(from.Rules, k) && 0 <= i && i < len(from.Rules[k]) ==> from.Rules[k][i] == old(from.Rules[k][i])
  loop 1
    invariant rwf(se.Rules)
    invariant rsep(se.Rules)
    invariant xsep(se.Rules, from.Rules)
    invariant forall k int :: {has(se.Rules, k)} has(se.Rules, k) == (old(has(se.Rules, k)) || $visited[k])
    invariant forall k int :: {se.Rules[k]} $visited[k] ==> len(se.Rules[k]) == (k < 0 ? len(from.Rules[k]) : old(len(se.Rules[k])) + len(from.Rules[k]))
    invariant forall k int :: {se.Rules[k]} !$visited[k] ==> se.Rules[k] == old(se.Rules[k])
    invariant forall k int, i int :: {se.Rules[k][i]} (k >= 0 || !$visited[k]) && 0 <= i && i < old(len(se.Rules[k])) ==> se.Rules[k][i] == old(se.Rules[k][i])
    invariant forall k int, i int :: {se.Rules[k][i]} k >= 0 && old(len(se.Rules[k])) <= i && i < len(se.Rules[k]) ==> se.Rules[k][i] == old(from.Rules[k][i - old(len(se.Rules[k]))])
    invariant forall k int, i int :: {se.Rules[k][i]} k < 0 && $visited[k] && 0 <= i && i < len(se.Rules[k]) ==> se.Rules[k][i] == old(from.Rules[k][i])
    invariant forall k int, i int :: {from.Rules[k][i]} has(from.Rules, k) && 0 <= i && i < len(from.Rules[k]) ==> from.Rules[k][i] == old(from.Rules[k][i])

func (*stateEntry).BypassRule(se, nextState)
  props C12
  requires se != nil && rwf(se.Rules) && rsep(se.Rules)
  modifies contents(se.Rules)
  modifies each k int where has(se.Rules, k) : arr(se.Rules[k])
  ensures rwf(se.Rules) && rsep(se.Rules)
  ensures has(se.Rules, -1) && len(se.Rules[-1]) == 1 && oneRule(se.Rules[-1][0], -1, nextState, -1)
  ensures forall k int :: {has(se.Rules, k)} {se.Rules[k]} k != -1 ==> has(se.Rules, k) == old(has(se.Rules, k)) && se.Rules[k] == old(se.Rules[k])

func (*stateEntry).DropLoop(se, stateIndex)
  props C12
  requires se != nil && rwf(se.Rules) && rsep(se.Rules)
  let loop = old(has(se.Rules, -1)) && old(se.Rules[-1][0].State) == stateIndex && old(se.Rules[-1][0].Node) == -1
  modifies contents(se.Rules)
  ensures rwf(se.Rules) && rsep(se.Rules)
  ensures has(se.Rules, -1) == (old(has(se.Rules, -1)) && !loop)
  ensures forall k int :: {has(se.Rules, k)} {se.Rules[k]} k != -1 || !loop ==> has(se.Rules, k) == old(has(se.Rules, k)) && se.Rules[k] == old(se.Rules[k])

func (*stateEntry).writeGrammarState(se, g, si, erlen, emlen)
  props C12
  requires se != nil && g != nil && 0 <= si && si < len(g.States) && 0 <= erlen && 0 <= emlen && erlen <= maxLen && emlen <= maxLen
  modifies g.States[si]
  ensures g.States[si].TokenTypes == se.Types
  ensures g.States[si].HighRule - g.States[si].LowRule == erlen && g.States[si].LowRule == (erlen > 0 ? len(g.Rules) : 0)
  ensures g.States[si].HighMultiRule - g.States[si].LowMultiRule == emlen && g.States[si].LowMultiRule == (emlen > 0 ? len(g.MultiRules) : 0)

package sort
extern sort.Ints(x)
  trusted documented behaviour of sort.Ints
  modifies arr(x)
  ensures forall i int, j int :: {x[i], x[j]} 0 <= i && i < j && j < len(x) ==> x[i] <= x[j]
  ensures forall k int :: {nIn(x, len(x), k)} nIn(x, len(x), k) == old(nIn(x, len(x), k))

package langdef
func (*stateEntry).rmKeys(se)
  props C12
  returns rkeys, mkeys
  requires se != nil && rwf(se.Rules) && len(se.Rules) < 4294967296
  modifies nothing
  ensures fresh(rkeys) && fresh(mkeys)
  ensures forall j int :: {rkeys[j]} 0 <= j && j < len(rkeys) ==> nIn(rkeys, len(rkeys), rkeys[j]) >= 1
  ensures forall j int :: {rkeys[j]} 0 <= j && j < len(rkeys) && nIn(rkeys, len(rkeys), rkeys[j]) >= 1 ==> has(se.Rules, rkeys[j]) && len(se.Rules[rkeys[j]]) == 1
  ensures forall j int :: {mkeys[j]} 0 <= j && j < len(mkeys) ==> nIn(mkeys, len(mkeys), mkeys[j]) >= 1
  ensures forall j int :: {mkeys[j]} 0 <= j && j < len(mkeys) && nIn(mkeys, len(mkeys), mkeys[j]) >= 1 ==> has(se.Rules, mkeys[j]) && len(se.Rules[mkeys[j]]) > 1
  ensures forall k int :: {nIn(rkeys, len(rkeys), k)} nIn(rkeys, len(rkeys), k) == (has(se.Rules, k) && len(se.Rules[k]) == 1 ? 1 : 0)
  ensures forall k int :: {nIn(mkeys, len(mkeys), k)} nIn(mkeys, len(mkeys), k) == (has(se.Rules, k) && len(se.Rules[k]) > 1 ? 1 : 0)
  ensures forall i int, j int :: {rkeys[i], rkeys[j]} 0 <= i && i < j && j < len(rkeys) ==> rkeys[i] <= rkeys[j]
  ensures forall i int, j int :: {mkeys[i], mkeys[j]} 0 <= i && i < j && j < len(mkeys) ==> mkeys[i] <= mkeys[j]
  loop 1
    invariant fresh(rkeys) && fresh(mkeys) && obj(rkeys) != obj(mkeys)
    invariant forall k int :: {nIn(rkeys, len(rkeys), k)} {se.Rules[k]} nIn(rkeys, len(rkeys)-1, k) >= 0 ==> nIn(rkeys, len(rkeys), k) == ($visited[k] && len(se.Rules[k]) == 1 ? 1 : 0)
    invariant forall k int :: {nIn(mkeys, len(mkeys), k)} {se.Rules[k]} nIn(mkeys, len(mkeys)-1, k) >= 0 ==> nIn(mkeys, len(mkeys), k) == ($visited[k] && len(se.Rules[k]) > 1 ? 1 : 0)

# the rules of a state are written to one piece of the table, single ones sorted by token, then those for multi-rules, also sorted
func (*stateEntry).BuildGrammarState(se, g, si)
  props C12
  requires se != nil && g != nil && 0 <= si && si < len(g.States) && rwf(se.Rules) && len(se.Rules) < 4294967296
  requires forall k int :: {se.Rules[k]} has(se.Rules, k) ==> obj(se.Rules[k]) != obj(g.Rules)
  modifies g.States[si], g.Rules, arr(g.Rules), g.MultiRules, arr(g.MultiRules)
  ensures g.States[si].TokenTypes == se.Types
  ensures forall i int :: {g.Rules[i]} 0 <= i && i < old(len(g.Rules)) ==> g.Rules[i] == old(g.Rules[i])
  ensures forall i int :: {g.MultiRules[i]} 0 <= i && i < old(len(g.MultiRules)) ==> g.MultiRules[i] == old(g.MultiRules[i])
  ensures g.States[si].HighRule - g.States[si].LowRule == len(rkeys) && g.States[si].HighMultiRule - g.States[si].LowMultiRule == len(mkeys)
  ensures 0 <= g.States[si].LowRule && g.States[si].HighRule <= len(g.Rules) && 0 <= g.States[si].LowMultiRule && g.States[si].HighMultiRule <= len(g.MultiRules)
  ensures forall j int :: {rkeys[j]} 0 <= j && j < len(rkeys) ==> g.Rules[g.States[si].LowRule + j] == se.Rules[rkeys[j]][0]
  ensures forall j int :: {mkeys[j]} 0 <= j && j < len(mkeys) ==> g.MultiRules[g.States[si].LowMultiRule + j].Token == mkeys[j]
  ensures forall j int :: {mkeys[j]} 0 <= j && j < len(mkeys) ==> g.MultiRules[g.States[si].LowMultiRule + j].HighRule - g.MultiRules[g.States[si].LowMultiRule + j].LowRule == len(se.Rules[mkeys[j]])
  ensures forall j int, i int :: {mkeys[j], se.Rules[mkeys[j]][i]} 0 <= j && j < len(mkeys) && 0 <= i && i < len(se.Rules[mkeys[j]]) ==> g.Rules[g.MultiRules[g.States[si].LowMultiRule + j].LowRule + i] == se.Rules[mkeys[j]][i]
  ensures forall k int :: {nIn(rkeys, len(rkeys), k)} nIn(rkeys, len(rkeys), k) == (has(se.Rules, k) && len(se.Rules[k]) == 1 ? 1 : 0)
  ensures forall k int :: {nIn(mkeys, len(mkeys), k)} nIn(mkeys, len(mkeys), k) == (has(se.Rules, k) && len(se.Rules[k]) > 1 ? 1 : 0)
  loop 1
    invariant obj(g.Rules) == old(obj(g.Rules)) && off(g.Rules) == old(off(g.Rules)) || fresh(g.Rules)
    invariant len(g.Rules) == old(len(g.Rules)) + $i
    invariant forall i int :: {g.Rules[i]} 0 <= i && i < old(len(g.Rules)) ==> g.Rules[i] == old(g.Rules[i])
    invariant forall j int :: {rkeys[j]} 0 <= j && j < $i ==> g.Rules[old(len(g.Rules)) + j] == se.Rules[rkeys[j]][0]
  loop 2
    invariant obj(g.Rules) == old(obj(g.Rules)) && off(g.Rules) == old(off(g.Rules)) || fresh(g.Rules)
    invariant obj(g.MultiRules) == old(obj(g.MultiRules)) && off(g.MultiRules) == old(off(g.MultiRules)) || fresh(g.MultiRules)
    invariant rstart >= 0 && rstart == len(g.Rules) && rstart >= old(len(g.Rules)) + len(rkeys)
    invariant len(g.MultiRules) == old(len(g.MultiRules)) + $i
    invariant forall i int :: {g.Rules[i]} 0 <= i && i < old(len(g.Rules)) ==> g.Rules[i] == old(g.Rules[i])
    invariant forall i int :: {g.MultiRules[i]} 0 <= i && i < old(len(g.MultiRules)) ==> g.MultiRules[i] == old(g.MultiRules[i])
    invariant forall j int :: {rkeys[j]} 0 <= j && j < len(rkeys) ==> g.Rules[old(len(g.Rules)) + j] == se.Rules[rkeys[j]][0]
    invariant forall j int :: {mkeys[j]} 0 <= j && j < $i ==> g.MultiRules[old(len(g.MultiRules)) + j].Token == mkeys[j]
    invariant forall j int :: {mkeys[j]} 0 <= j && j < $i ==> g.MultiRules[old(len(g.MultiRules)) + j].LowRule >= old(len(g.Rules))
    invariant forall j int :: {mkeys[j]} 0 <= j && j < $i ==> g.MultiRules[old(len(g.MultiRules)) + j].LowRule + len(se.Rules[mkeys[j]]) <= rstart
    invariant forall j int :: {mkeys[j]} 0 <= j && j < $i ==> g.MultiRules[old(len(g.MultiRules)) + j].HighRule - g.MultiRules[old(len(g.MultiRules)) + j].LowRule == len(se.Rules[mkeys[j]])
    invariant forall j int, i int :: {mkeys[j], se.Rules[mkeys[j]][i]} 0 <= j && j < $i && 0 <= i && i < len(se.Rules[mkeys[j]]) ==> g.Rules[g.MultiRules[old(len(g.MultiRules)) + j].LowRule + i] == se.Rules[mkeys[j]][i]
