# langdef: wrong definitions (C14)
package .
iface (error).Error(e)
  trusted asking an error for its text changes nothing
  modifies nothing

package strings
extern strings.Join(elems, sep)
  trusted documented behaviour of strings.Join: changes nothing
  modifies nothing

package langdef

# errors (C14): the kind of the error and where it is
def tsrc(t *lexer.Token) bool = t != nil && (t.pos.src != nil ==> swf(t.pos.src))
def errTok(x *llx.Error, code int, t *lexer.Token) bool = fresh(x) && x.Code == code && (t.pos.src == nil ==> x.SourceName == "" && x.Line == 0 && x.Col == 0) && (t.pos.src != nil ==> x.SourceName == t.pos.src.name && x.Line == 1 + nlc(A(t.pos.src), B(t.pos.src), B(t.pos.src) + clamp(t.pos.src, t.pos.pos)) && x.Col == 1 + runes(A(t.pos.src), lstart(A(t.pos.src), B(t.pos.src), B(t.pos.src) + clamp(t.pos.src, t.pos.pos)), B(t.pos.src) + clamp(t.pos.src, t.pos.pos)))

func eofError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 1, token) && tsrc(token)

func unexpectedTokenError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 2, token) && tsrc(token)

func tokenError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 3, token) && tsrc(token)

func wrongTokenError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 4, token) && tsrc(token)

func defTokenError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 5, token) && tsrc(token)

func defNodeError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 6, token) && tsrc(token)

func regexpError(token, e)
  props C14
  requires tsrc(token) && e != nil
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 7, token) && tsrc(token)

func tokenTypeNumberError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 12, token) && tsrc(token)

func templateDefinedError(token, name)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 19, token) && tsrc(token)

func unknownTemplateError(token, name)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 20, token) && tsrc(token)

func unknownDirectiveError(token)
  props C14
  requires tsrc(token)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures errTok(result, 21, token) && tsrc(token)

func unknownNodeError(names)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 8 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func unusedNodeError(names)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 9 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func unresolvedError(names)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 10 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func recursionError(names)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 11 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func unresolvedTokenTypesError(text)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 13 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func undefinedTokenError(name)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 14 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func unknownLiteralError(text)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 15 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func reassignedGroupError(name)
  props C14
  modifies nothing
  ensures fresh(result) && result.Code == 16 && result.SourceName == "" && result.Line == 0 && result.Col == 0

func findUndefinedNodes(nti, e)
  props C14
  requires nti != nil && (forall n string :: {has(nti, n)} {nti[n]} has(nti, n) ==> nti[n] != nil)
  modifies nothing
  ensures e != nil ==> result == e
  ensures e == nil ==> (result != nil) == (exists n string :: {has(nti, n)} has(nti, n) && nti[n].Chunk == nil)
  ensures e == nil && result != nil ==> lerr(result, 8)
  loop 1
    invariant len(uns) >= 0 && fresh(uns)
    invariant len(uns) > 0 ==> (exists n string :: {has(nti, n)} has(nti, n) && nti[n].Chunk == nil)
    invariant len(uns) == 0 ==> (forall n string :: {has(nti, n)} $visited[n] ==> nti[n].Chunk != nil)

# reading tokens (C14)
# the tokens of definitions: trusted facts about the regular expression of llxLexer
def llxFacts(l *lexer.Lexer) bool = lwf(l) && len(l.types) == 8 && l.types[0].TypeName == "string" && (forall k int :: {l.types[k]} 1 <= k && k < 8 ==> l.types[k].TypeName != "string" && l.types[k].TypeName != "-eof-" && l.types[k].TypeName != "-eoi-") && (forall a [0]byte, p int, e int :: {rmAt(l.re, a, p, e, 2)} rmAt(l.re, a, p, e, 2) >= 0 ==> rmAt(l.re, a, p, e, 3) - rmAt(l.re, a, p, e, 2) >= 2 && (a[p + rmAt(l.re, a, p, e, 2)] == 34 ==> paired(a, p + rmAt(l.re, a, p, e, 2), p + rmAt(l.re, a, p, e, 3))))
spec fits(n string, x string, types [0]string, i int, j int) bool = j <= i ? false : fits(n, x, types, i, j-1) || n == types[j-1] || n == "op" && x == types[j-1]
def txt(t *lexer.Token) string = mkstr(elems(t.content), off(t.content), len(t.content))
def fitsT(t *lexer.Token, types []string) bool = fits(t.typeName, txt(t), elems(types), off(types), off(types) + len(types))
def endT(t *lexer.Token) bool = t.tokenType == -2 || t.tokenType == -3
def lctx(c *parseContext) bool = c != nil && llxFacts(llxLexer) && squ(c.q) && (c.savedToken != nil ==> tsrc(c.savedToken))

lemma fitsIs(n string, x string, types [0]string, i int, j int)
  props C14
  induction j - i
  ensures forall k int :: {types[k]} i <= k && k < j && (n == types[k] || n == "op" && x == types[k]) ==> fits(n, x, types, i, j)
  apply ih(n, x, types, i, j-1)

func isEof(t)
  props C14
  requires t != nil
  ensures result == endT(t)
  modifies nothing

func (*parseContext).put(c, t)
  props C14
  requires c != nil && t != nil && c.savedToken == nil
  modifies c.savedToken
  ensures c.savedToken == t

func (*parseContext).fetch(c, types, strict, e)
  props C14
  returns r, err
  requires lctx(c)
  let saved = c.savedToken
  let src = c.q.source
  let p = src == nil ? 0 : skipTo(llxLexer, A(src), B(src) + c.q.pos, E(src))
  let j = gsel(llxLexer, 18446744073709551615, A(src), p, E(src), 1)
  let end = src != nil && p >= E(src)
  modifies c.savedToken, c.q.pos, end ? c.q.source : nothing, end ? c.q.q.items : nothing, end ? c.q.q.size : nothing, end ? c.q.q.head : nothing, end ? c.q.q.tail : nothing, end ? arr(c.q.q.items) : nothing
  modifies each x *source.Source where true : x.prevLineIndex
  ensures llxFacts(llxLexer)
  ensures squ(c.q)
  ensures lctx(c)
  ensures e != nil ==> r == nil && err == e && c.savedToken == saved
  ensures err != nil ==> r == nil
  ensures err == nil && r != nil ==> fitsT(r, types) && c.savedToken == nil || endT(r) && !strict && c.savedToken == r
  ensures err == nil && r != nil && saved != nil ==> r == saved
  ensures err == nil && r == nil ==> !strict && c.savedToken != nil && !endT(c.savedToken) && !fitsT(c.savedToken, types)
  ensures e == nil && saved != nil ==> (err != nil) == (strict && !fitsT(saved, types))
  ensures err == nil && r == nil && saved != nil ==> c.savedToken == saved
  ensures obj(c.q.q.items) == old(obj(c.q.q.items)) || fresh(c.q.q.items)
  ensures e == nil && saved != nil && err != nil ==> typeis(err, *llx.Error) && errTok(cast(err, *llx.Error), endT(saved) ? 1 : 2, saved)
  apply r != nil ==> fitsIs(r.typeName, txt(r), elems(types), off(types), off(types) + len(types))
  loop 1
    invariant !fits(token.typeName, txt(token), elems(types), off(types), off(types) + $i)

def fitsOne(t *lexer.Token, typ string) bool = t.typeName == typ || t.typeName == "op" && txt(t) == typ

func (*parseContext).fetchOne(c, typ, strict, e)
  props C14
  returns r, err
  requires lctx(c)
  let saved = c.savedToken
  let src = c.q.source
  let p = src == nil ? 0 : skipTo(llxLexer, A(src), B(src) + c.q.pos, E(src))
  let end = src != nil && p >= E(src)
  modifies c.savedToken, c.q.pos, end ? c.q.source : nothing, end ? c.q.q.items : nothing, end ? c.q.q.size : nothing, end ? c.q.q.head : nothing, end ? c.q.q.tail : nothing, end ? arr(c.q.q.items) : nothing
  modifies each x *source.Source where true : x.prevLineIndex
  ensures lctx(c)
  ensures e != nil ==> r == nil && err == e && c.savedToken == saved
  ensures err != nil ==> r == nil
  ensures err == nil && r != nil ==> fitsOne(r, typ) && c.savedToken == nil || endT(r) && !strict && c.savedToken == r
  ensures err == nil && r != nil && saved != nil ==> r == saved
  ensures err == nil && r == nil ==> !strict && c.savedToken != nil && !endT(c.savedToken) && !fitsOne(c.savedToken, typ)
  ensures e == nil && saved != nil ==> (err != nil) == (strict && !fitsOne(saved, typ))
  ensures err == nil && r == nil && saved != nil ==> c.savedToken == saved
  ensures obj(c.q.q.items) == old(obj(c.q.q.items)) || fresh(c.q.q.items)
  ensures e == nil && saved != nil && err != nil ==> typeis(err, *llx.Error) && errTok(cast(err, *llx.Error), endT(saved) ? 1 : 2, saved)

func (*parseContext).skip(c, types, e)
  props C14
  requires lctx(c)
  let saved = c.savedToken
  let src = c.q.source
  let p = src == nil ? 0 : skipTo(llxLexer, A(src), B(src) + c.q.pos, E(src))
  let end = src != nil && p >= E(src)
  modifies c.savedToken, c.q.pos, end ? c.q.source : nothing, end ? c.q.q.items : nothing, end ? c.q.q.size : nothing, end ? c.q.q.head : nothing, end ? c.q.q.tail : nothing, end ? arr(c.q.q.items) : nothing
  modifies each x *source.Source where true : x.prevLineIndex
  ensures lctx(c)
  ensures e != nil ==> result == e && c.savedToken == saved
  ensures result == nil ==> c.savedToken == nil
  ensures e == nil && saved != nil ==> (result != nil) == !fitsT(saved, types)
  ensures e == nil && saved != nil && result != nil ==> typeis(result, *llx.Error) && errTok(cast(result, *llx.Error), endT(saved) ? 1 : 2, saved)

func (*parseContext).skipOne(c, typ, e)
  props C14
  requires lctx(c)
  let saved = c.savedToken
  let src = c.q.source
  let p = src == nil ? 0 : skipTo(llxLexer, A(src), B(src) + c.q.pos, E(src))
  let end = src != nil && p >= E(src)
  modifies c.savedToken, c.q.pos, end ? c.q.source : nothing, end ? c.q.q.items : nothing, end ? c.q.q.size : nothing, end ? c.q.q.head : nothing, end ? c.q.q.tail : nothing, end ? arr(c.q.q.items) : nothing
  modifies each x *source.Source where true : x.prevLineIndex
  ensures lctx(c)
  ensures e != nil ==> result == e && c.savedToken == saved
  ensures result == nil ==> c.savedToken == nil
  ensures e == nil && saved != nil ==> (result != nil) == !fitsOne(saved, typ)
  ensures e == nil && saved != nil && result != nil ==> typeis(result, *llx.Error) && errTok(cast(result, *llx.Error), endT(saved) ? 1 : 2, saved)

func (*parseContext).fetchAll(c, types, e)
  props C14
  returns r, err
  requires lctx(c)
  let saved = c.savedToken
  modifies c.savedToken, c.q.pos, c.q.source, c.q.q.items, c.q.q.size, c.q.q.head, c.q.q.tail, arr(c.q.q.items)
  modifies each x *source.Source where true : x.prevLineIndex
  ensures lctx(c)
  ensures e != nil ==> r == nil && err == e && c.savedToken == saved
  ensures err != nil ==> r == nil
  ensures err == nil && c.savedToken != nil ==> endT(c.savedToken) || !fitsT(c.savedToken, types)
  ensures err == nil ==> forall i int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && fitsT(r[i], types)
  ensures err == nil && saved != nil && fitsT(saved, types) && !endT(saved) ==> len(r) > 0 && r[0] == saved
  ensures e == nil && saved != nil && !fitsT(saved, types) ==> err == nil && len(r) == 0 && c.savedToken == saved
  loop 1
    invariant lctx(c) && fresh(result) && (obj(c.q.q.items) == old(obj(c.q.q.items)) || fresh(c.q.q.items))
    invariant forall i int :: {result[i]} 0 <= i && i < len(result) ==> result[i] != nil && fitsT(result[i], types)
    invariant len(result) == 0 ==> c.savedToken == saved
    invariant len(result) > 0 && saved != nil ==> result[0] == saved && fitsT(saved, types)
