package parser

# ---- fetching raw tokens: the first group that has an expected token ----

def plx(p *Parser) bool = pwf(p) && len(p.lexers) > 0 && (forall k int :: {p.lexers[k]} 0 <= k && k < len(p.lexers) ==> lwf(p.lexers[k])) && (forall k int, j int :: {p.lexers[k].types[j]} 0 <= k && k < len(p.lexers) && 0 <= j && j < len(p.lexers[k].types) ==> p.lexers[k].types[j].Type < len(p.grammar.Tokens))


# lexer l has a token of the given types at position pos of source s (or an end-of-file or end-of-input token)
def allT(types int) bool = types == 18446744073709551615
def tokPos(l *lexer.Lexer, s *source.Source, pos int) int = skipTo(l, A(s), B(s) + pos, E(s))
def selAt(l *lexer.Lexer, s *source.Source, pos int, types int) int = gsel(l, types, A(s), tokPos(l, s, pos), E(s), 1)
spec yields(l *lexer.Lexer, s *source.Source, pos int, types int) bool = (allT(types) || band(types, l.typeMask) != 0) && (s == nil || tokPos(l, s, pos) >= E(s) || matched(l, A(s), tokPos(l, s, pos), E(s)) && selAt(l, s, pos, types) > 0 && !gbad(l, selAt(l, s, pos, types)))

spec firstYield(p *Parser, s *source.Source, pos int, types int, i int) int = i >= len(p.lexers) ? -1 : yields(p.lexers[i], s, pos, types) ? i : firstYield(p, s, pos, types, i+1)

func (*ParseContext).fetchToken(pc, types)
  props C10 C11
  returns t, err
  requires pc != nil && plx(pc.parser) && squ(pc.sources)
  let q = pc.sources
  let p = pc.parser
  let s = q.source
  let k = firstYield(p, s, q.pos, types, 0)
  let l = p.lexers[k]
  let tp = tokPos(l, s, old(q.pos))
  let j = selAt(l, s, old(q.pos), types)
  modifies q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures sq(q)
  ensures squ(q)
  ensures s != nil ==> swf(s)
  ensures obj(q.q.items) == old(obj(q.q.items)) || fresh(q.q.items)
  ensures k < len(p.lexers) && (t != nil) == (k >= 0)
  ensures t == nil ==> qstill(q) && q.pos == old(q.pos)
  ensures t != nil ==> err == nil && tokwf(p, t) && t.tokenType >= -3 && t.tokenType != -1 && fresh(t)
  ensures t == nil ==> (err != nil) == allT(types)
  ensures k >= 0 && s == nil ==> eoi(t) && qstill(q) && q.pos == old(q.pos)
  ensures k >= 0 && s != nil && tp >= E(s) ==> eof(t, s) && qnext(q)
  ensures k >= 0 && s != nil && tp < E(s) && allT(types) ==> qstill(q) && B(s) + q.pos == tp + mlen(l, A(s), tp, E(s)) && tokOf(t, l, s, tp, j)
  ensures k >= 0 && s != nil && tp < E(s) && !allT(types) ==> qstill(q) && B(s) + q.pos == tp + mlen(l, A(s), tp, E(s)) && tokOf(t, l, s, tp, j)
  loop 1
    invariant sq(q) && (s != nil ==> swf(s))
    invariant qstill(q) && q.pos == old(q.pos)
    invariant forall i int :: {at(q.q, i)} {old(at(q.q, i))} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i))
    invariant squ(q)
    invariant firstYield(p, s, old(q.pos), types, 0) == firstYield(p, s, old(q.pos), types, $i)
    invariant !allT(types) || $i == 0 || firstError != nil

# ---- token hook layers ----

subobj ParseContext.tc

ghost tklog
ufun tkHook(log int, f TokenHook, t *Token) int
ufun tkEmit(log int) bool
ufun tkErr(log int) error

def layerwf(p *Parser, r tokenHookRec) bool = len(r.hooks) >= 4 && qwf(r.tokens) && (forall i int :: {at(r.tokens, i)} 0 <= i && i < qlen(r.tokens) ==> xtok(p, at(r.tokens, i)))
# a token the parser can work with
def xtok(p *Parser, t *lexer.Token) bool = t != nil && -3 <= t.tokenType && t.tokenType != -1 && t.tokenType < len(p.grammar.Tokens)
spec layers(pc *ParseContext) bool = forall i int :: {pc.tokenHooks[i]} 0 <= i && i < len(pc.tokenHooks) ==> layerwf(pc.parser, pc.tokenHooks[i])

# the queue is what the snapshot holds
def isSnap(q *source.Queue, s source.QueueSnapshot) bool = s.source == q.source && s.pos == q.pos && len(s.items) == qlen(q.q) && (forall i int :: {s.items[i]} {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> s.items[i] == at(q.q, i))

# number of the extra tokens waiting in layers i.. , and the d-th of them
spec waiting(pc *ParseContext, i int) int = i >= len(pc.tokenHooks) ? 0 : qlen(pc.tokenHooks[i].tokens) + waiting(pc, i+1)
spec waitingTok(pc *ParseContext, i int, d int) *Token = i >= len(pc.tokenHooks) ? nil : d < qlen(pc.tokenHooks[i].tokens) ? at(pc.tokenHooks[i].tokens, d) : waitingTok(pc, i+1, d - qlen(pc.tokenHooks[i].tokens))

lemma waitingNN(pc *ParseContext, i int)
  props C11
  induction len(pc.tokenHooks) - i
  requires layers(pc) && 0 <= i
  ensures waiting(pc, i) >= 0
  apply ih(pc, i+1)

func (*TokenContext).PeekToken(tc)
  props C11
  returns t, err
  requires tc != nil && tc.pc != nil && plx(tc.pc.parser) && squ(tc.pc.sources) && layers(tc.pc) && -1 <= tc.layer && tc.layer < 1048576 && 0 <= tc.peekDistance && tc.peekDistance < 1048576 
  requires tc.tokenFetched ==> snapok(tc.snap) && obj(tc.snap.items) != obj(tc.pc.sources.q.items)
  let q = tc.pc.sources
  let s = q.source
  let d = tc.peekDistance
  let w = waiting(tc.pc, tc.layer + 1)
  let reads = tc.tokenFetched || d >= w
  let p = tc.pc.parser
  let k = firstYield(p, s, q.pos, 18446744073709551615, 0)
  let l = p.lexers[k]
  let tp = tokPos(l, s, old(q.pos))
  modifies tc.peekDistance, tc.snap, tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures squ(q)
  ensures s != nil ==> swf(s)
  ensures old(tc.tokenFetched) ==> tc.tokenFetched && tc.snap == old(tc.snap) && tc.peekDistance == d
  ensures old(tc.tokenFetched) ==> forall i int :: {tc.snap.items[i]} 0 <= i && i < len(tc.snap.items) ==> tc.snap.items[i] == old(tc.snap.items[i])
  ensures tc.tokenFetched == reads
  ensures tc.tokenFetched ==> obj(tc.snap.items) != obj(q.q.items)
  # the first token read from the sources: the queue is saved before
  ensures reads && !old(tc.tokenFetched) ==> snapok(tc.snap)
  ensures reads && !old(tc.tokenFetched) ==> tc.snap.source == s && tc.snap.pos == old(q.pos) && len(tc.snap.items) == old(qlen(q.q))
  ensures reads && !old(tc.tokenFetched) ==> forall i int :: {tc.snap.items[i]} 0 <= i && i < len(tc.snap.items) ==> tc.snap.items[i] == old(at(q.q, i))
  # tokens read from the sources come one after another
  ensures reads ==> (t != nil) == (k >= 0) && (err != nil) == (t == nil)
  ensures reads && t == nil ==> qstill(q) && q.pos == old(q.pos)
  ensures reads && k >= 0 && s == nil ==> eoi(t) && qstill(q) && q.pos == old(q.pos)
  ensures reads && k >= 0 && s != nil && tp >= E(s) ==> eof(t, s) && qnext(q)
  ensures reads && k >= 0 && s != nil && tp < E(s) ==> qstill(q) && B(s) + q.pos == tp + mlen(l, A(s), tp, E(s)) && tokOf(t, l, s, tp, selAt(l, s, old(q.pos), 18446744073709551615))
  ensures !reads ==> xtok(p, t)
  ensures !reads ==> t == waitingTok(tc.pc, tc.layer + 1, d) && err == nil && tc.peekDistance == d + 1 && qstill(q) && q.pos == old(q.pos)
  loop 1
    apply head: waitingNN(tc.pc, layer+1)
    invariant layers(tc.pc)
    invariant 0 <= distance && layer >= tc.layer + 1
    invariant layer <= len(tc.pc.tokenHooks) || layer == tc.layer + 1
    invariant distance < waiting(tc.pc, layer) ==> d < w && waitingTok(tc.pc, layer, distance) == waitingTok(tc.pc, tc.layer+1, d)
    invariant d < w ==> distance < waiting(tc.pc, layer)
    decreases len(tc.pc.tokenHooks) - layer

func (*TokenContext).restore(tc)
  props C10 C11
  requires tc != nil && tc.pc != nil && sq(tc.pc.sources) && (tc.tokenFetched ==> snapok(tc.snap))
  let q = tc.pc.sources
  modifies tc.tokenFetched, tc.peekDistance, q.source, q.pos, q.q.items, q.q.size, q.q.head, q.q.tail
  ensures sq(q) && !tc.tokenFetched && tc.peekDistance == 0
  ensures old(tc.tokenFetched) ==> isSnap(q, tc.snap) && fresh(q.q.items)
  ensures !old(tc.tokenFetched) ==> qstill(q) && q.pos == old(q.pos)

# A token hook may read ahead with PeekToken; by its contract that keeps the queue saved in the context's snapshot.
functype TokenHook(f, ctx, token, tc)
  returns emit, extra, e
  trusted token hooks reach the source queue only through PeekToken, change nothing else of the parser's unexported state and do not reuse the slice they return
  modifies tklog, tc.peekDistance, tc.snap, tc.tokenFetched, tc.pc.sources.pos, tc.pc.sources.source, tc.pc.sources.q.items, tc.pc.sources.q.size, tc.pc.sources.q.head, tc.pc.sources.q.tail, arr(tc.pc.sources.q.items)
  ensures tklog == tkHook(old(tklog), f, token)
  ensures emit == tkEmit(tklog) && e == tkErr(tklog)
  ensures len(extra) == 0 && cap(extra) == 0 || fresh(extra)
  ensures forall i int :: {extra[i]} 0 <= i && i < len(extra) ==> extra[i] != nil
  ensures sq(tc.pc.sources)
  ensures tc.tokenFetched ==> snapok(tc.snap) && tc.snap.source == old(tc.pc.sources.source) && tc.snap.pos == old(tc.pc.sources.pos) && len(tc.snap.items) == old(qlen(tc.pc.sources.q)) && (forall i int :: {tc.snap.items[i]} 0 <= i && i < len(tc.snap.items) ==> tc.snap.items[i] == old(at(tc.pc.sources.q, i)))
  ensures !tc.tokenFetched ==> qstill(tc.pc.sources) && tc.pc.sources.pos == old(tc.pc.sources.pos)

# the queue is as it was
def qsame(q *source.Queue) bool = q.source == old(q.source) && q.pos == old(q.pos) && qlen(q.q) == old(qlen(q.q)) && (forall i int :: {at(q.q, i)} 0 <= i && i < qlen(q.q) ==> at(q.q, i) == old(at(q.q, i)))

def maxType(r tokenHookRec) int = len(r.hooks) - 4
def hookAt(r tokenHookRec, i int) TokenHook = r.hooks[i+3]
# the hook of a layer for a token: by its text, by its type, for any token; the last two are for tokens defined in the grammar only
def litHook(pc *ParseContext, r tokenHookRec, t *Token) TokenHook = t.tokenType >= 0 && band(pc.parser.grammar.Tokens[t.tokenType].Flags, 64) == 0 && has(pc.literals, ttext(t)) && pc.literals[ttext(t)] <= maxType(r) ? hookAt(r, pc.literals[ttext(t)]) : nil
def typeHook(r tokenHookRec, t *Token) TokenHook = t.tokenType <= maxType(r) ? hookAt(r, t.tokenType) : nil
def anyHook(r tokenHookRec, t *Token) TokenHook = t.tokenType >= 0 ? hookAt(r, -1) : nil
def tkHookFor(pc *ParseContext, r tokenHookRec, t *Token) TokenHook = litHook(pc, r, t) != nil ? litHook(pc, r, t) : typeHook(r, t) != nil ? typeHook(r, t) : anyHook(r, t)

def pclit(pc *ParseContext) bool = pc.literals != nil && (forall s string :: {has(pc.literals, s)} has(pc.literals, s) ==> 0 <= pc.literals[s])

func (*ParseContext).handleToken(pc, ctx, tok, layer)
  props C10 C11
  returns emit, extra, e
  requires pc != nil && plx(pc.parser) && squ(pc.sources) && layers(pc) && pclit(pc) && 0 <= layer && layer < len(pc.tokenHooks) && ctx != nil
  requires tok != nil ==> xtok(pc.parser, tok)
  requires pc.tc.pc == pc && !pc.tc.tokenFetched && pc.tc.peekDistance == 0
  let r = pc.tokenHooks[layer]
  let f = tkHookFor(pc, r, tok)
  let q = pc.sources
  let runs = tok != nil && f != nil
  modifies tklog, pc.tc.layer, pc.tc.peekDistance, pc.tc.snap, pc.tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items)
  ensures sq(q) && qsame(q)
  ensures !pc.tc.tokenFetched && pc.tc.peekDistance == 0
  ensures tok == nil ==> emit && len(extra) == 0 && e == nil && tklog == old(tklog)
  ensures tok != nil && !runs && e != nil ==> !emit && len(extra) == 0 && tklog == old(tklog)
  ensures !runs && e == nil ==> emit && len(extra) == 0 && tklog == old(tklog)
  ensures runs && e == nil ==> tklog == tkHook(old(tklog), f, tok)
  ensures runs && e == nil && tok.tokenType >= 0 ==> emit == tkEmit(tklog)
  ensures runs && e == nil && tok.tokenType < 0 ==> emit || len(extra) > 0 && extra[len(extra)-1] == tok
  ensures runs && e == nil && tok.tokenType < 0 && tkEmit(tklog) ==> emit
  ensures forall i int :: {extra[i]} 0 <= i && i < len(extra) ==> extra[i] != nil
  loop 1
    invariant tok.tokenType < 0 ==> len(tts) == 1 && tts[0] == tok.tokenType
    invariant forall i int :: {tts[i]} 0 <= i && i < $i ==> r.hooks[tts[i]+3] == nil
    invariant $i == 0 ==> hook == nil
    invariant hook == nil
