package grammar
record Token, Rule, MultiRule, State, Node

# ---- what a grammar has to look like (the promise langdef makes, property C12) ----

# Rules and states are addressed by their absolute index in the backing array.
def RB(g *grammar.Grammar) int = off(g.Rules)
def MB(g *grammar.Grammar) int = off(g.MultiRules)

# rules lo..hi-1 are sorted by token without repetition
def sortedRules(g *grammar.Grammar, lo int, hi int) bool = forall i int, j int :: {elems(g.Rules)[i], elems(g.Rules)[j]} RB(g) + lo <= i && i < j && j < RB(g) + hi ==> elems(g.Rules)[i].Token < elems(g.Rules)[j].Token
def sortedMulti(g *grammar.Grammar, lo int, hi int) bool = forall i int, j int :: {elems(g.MultiRules)[i], elems(g.MultiRules)[j]} MB(g) + lo <= i && i < j && j < MB(g) + hi ==> elems(g.MultiRules)[i].Token < elems(g.MultiRules)[j].Token

def stwf(g *grammar.Grammar, s State) bool = 0 <= s.LowRule && s.LowRule <= s.HighRule && s.HighRule <= len(g.Rules) && 0 <= s.LowMultiRule && s.LowMultiRule <= s.HighMultiRule && s.HighMultiRule <= len(g.MultiRules) && sortedRules(g, s.LowRule, s.HighRule) && sortedMulti(g, s.LowMultiRule, s.HighMultiRule)

def rulewf(g *grammar.Grammar, r Rule) bool = -1 <= r.State && r.State < len(g.States) && -1 <= r.Node && r.Node < len(g.Nodes)

def gwf(g *grammar.Grammar) bool = g != nil && len(g.Nodes) > 0 && (forall i int :: {g.States[i]} 0 <= i && i < len(g.States) ==> stwf(g, g.States[i])) && (forall i int :: {elems(g.Rules)[i]} RB(g) <= i && i < RB(g) + len(g.Rules) ==> rulewf(g, elems(g.Rules)[i])) && (forall i int :: {elems(g.MultiRules)[i]} MB(g) <= i && i < MB(g) + len(g.MultiRules) ==> 0 <= elems(g.MultiRules)[i].LowRule && elems(g.MultiRules)[i].LowRule < elems(g.MultiRules)[i].HighRule && elems(g.MultiRules)[i].HighRule <= len(g.Rules)) && (forall i int :: {g.Nodes[i]} 0 <= i && i < len(g.Nodes) ==> 0 <= g.Nodes[i].FirstState && g.Nodes[i].FirstState < len(g.States))

package parser
record nodeRec, tokenHookRec

ufun upper(s string) string
extern strings.ToUpper(s)
  trusted strings.ToUpper is a function of its argument
  ensures result == upper(s)
  modifies nothing

def pwf(p *Parser) bool = p != nil && gwf(p.grammar) && p.literals != nil && (forall s string :: {has(p.literals, s)} has(p.literals, s) ==> 0 <= p.literals[s] && p.literals[s] < len(p.grammar.Tokens))

# ---- rule selection ----

def tflags(p *Parser, t *lexer.Token) int = t.tokenType >= 0 ? p.grammar.Tokens[t.tokenType].Flags : 64
def ttext(t *lexer.Token) string = mkstr(elems(t.content), off(t.content), len(t.content))
def litKey(p *Parser, t *lexer.Token) string = band(tflags(p, t), 16) != 0 ? upper(ttext(t)) : ttext(t)
def litFound(p *Parser, t *lexer.Token) bool = t != nil && band(tflags(p, t), 64) == 0 && has(p.literals, litKey(p, t))
def litIs(p *Parser, t *lexer.Token) int = p.literals[litKey(p, t)]
def reserved(p *Parser, t *lexer.Token) bool = band(p.grammar.Tokens[litIs(p, t)].Flags, 32) != 0
def tokwf(p *Parser, t *lexer.Token) bool = t == nil || t.tokenType < len(p.grammar.Tokens)
def sideTok(p *Parser, t *lexer.Token) bool = t != nil && t.tokenType >= 0 && band(p.grammar.Tokens[t.tokenType].Flags, 4) != 0

func (*ParseContext).possibleRuleKeys(pc, t)
  props C07
  requires pc != nil && pwf(pc.parser) && tokwf(pc.parser, t)
  let p = pc.parser
  ensures fresh(result)
  ensures t == nil ==> len(result) == 1 && result[0] == -1
  ensures t != nil && litFound(p, t) && reserved(p, t) ==> len(result) == 2 && result[0] == litIs(p, t) && result[1] == -1
  ensures t != nil && litFound(p, t) && !reserved(p, t) ==> len(result) == 3 && result[0] == litIs(p, t) && result[1] == t.tokenType && result[2] == -1
  ensures t != nil && !litFound(p, t) ==> len(result) == 2 && result[0] == t.tokenType && result[1] == -1
  modifies nothing

def noRule(g *grammar.Grammar, s grammar.State, k int) bool = forall i int :: {elems(g.Rules)[i]} RB(g) + s.LowRule <= i && i < RB(g) + s.HighRule ==> elems(g.Rules)[i].Token != k
def noMulti(g *grammar.Grammar, s grammar.State, k int) bool = forall i int :: {elems(g.MultiRules)[i]} MB(g) + s.LowMultiRule <= i && i < MB(g) + s.HighMultiRule ==> elems(g.MultiRules)[i].Token != k
def noKey(g *grammar.Grammar, s grammar.State, k int) bool = noRule(g, s, k) && noMulti(g, s, k)

# r is what state s has for key k: a single rule or the variants of an ambiguous one
def isRule(g *grammar.Grammar, s grammar.State, k int, r []grammar.Rule) bool = len(r) == 1 && obj(r) == obj(g.Rules) && RB(g) + s.LowRule <= off(r) && off(r) < RB(g) + s.HighRule && elems(g.Rules)[off(r)].Token == k
def isMulti(g *grammar.Grammar, s grammar.State, k int, r []grammar.Rule) bool = obj(r) == obj(g.Rules) && (exists j int :: {elems(g.MultiRules)[j]} MB(g) + s.LowMultiRule <= j && j < MB(g) + s.HighMultiRule && elems(g.MultiRules)[j].Token == k && off(r) == RB(g) + elems(g.MultiRules)[j].LowRule && len(r) == elems(g.MultiRules)[j].HighRule - elems(g.MultiRules)[j].LowRule)
def isKey(g *grammar.Grammar, s grammar.State, k int, r []grammar.Rule) bool = isRule(g, s, k, r) || noRule(g, s, k) && isMulti(g, s, k, r)

# the keys in the order of priority: a literal, the token type unless the literal is reserved, any token
def key0(p *Parser, t *lexer.Token) int = t == nil ? -1 : litFound(p, t) ? litIs(p, t) : t.tokenType
def key1(p *Parser, t *lexer.Token) int = t != nil && litFound(p, t) && !reserved(p, t) ? t.tokenType : -1

func (*ParseContext).isSideToken(pc, t)
  props C07
  requires pc != nil && pwf(pc.parser) && tokwf(pc.parser, t)
  ensures result == sideTok(pc.parser, t)
  modifies nothing

func (*ParseContext).findRules(pc, t, s)
  props C07 C09
  requires pc != nil && pwf(pc.parser) && tokwf(pc.parser, t) && stwf(pc.parser.grammar, s)
  let p = pc.parser
  let g = p.grammar
  let k0 = key0(p, t)
  let k1 = key1(p, t)
  let side = sideTok(p, t)
  ensures side ==> len(result) == 1 && result[0].Token == t.tokenType && result[0].State == -128 && result[0].Node == -1
  ensures !side && len(result) == 0 ==> noKey(g, s, k0) && noKey(g, s, k1) && noKey(g, s, -1)
  ensures !side && len(result) > 0 ==> isKey(g, s, k0, result) || noKey(g, s, k0) && isKey(g, s, k1, result) || noKey(g, s, k0) && noKey(g, s, k1) && isKey(g, s, -1, result)
  modifies nothing
  loop 1
    invariant forall i int :: {keys[i]} 0 <= i && i < $i ==> noKey(g, s, keys[i])

# ---- the node stack ----

func newNodeStack()
  props C07
  ensures fresh(result) && len(result.nodes) == 0 && (obj(result.nodes) == 0 || fresh(result.nodes))
  modifies nothing

func (*nodeStack).IsEmpty(s)
  props C07
  requires s != nil
  ensures result == (len(s.nodes) == 0)
  modifies nothing

func (*nodeStack).Len(s)
  props C07
  requires s != nil
  ensures result == len(s.nodes)
  modifies nothing

func (*nodeStack).Push(s, n)
  props C07
  requires s != nil
  modifies s.nodes, cap(s.nodes) > 0 ? arr(s.nodes) : nothing
  ensures old(cap(s.nodes)) == 0 ==> fresh(s.nodes)
  ensures len(s.nodes) == old(len(s.nodes)) + 1 && s.nodes[old(len(s.nodes))] == n
  ensures forall j int :: {elems(s.nodes)[j]} off(s.nodes) <= j && j < off(s.nodes) + old(len(s.nodes)) ==> elems(s.nodes)[j] == old(elems(s.nodes))[j - off(s.nodes) + old(off(s.nodes))]
  ensures obj(s.nodes) == old(obj(s.nodes)) && off(s.nodes) == old(off(s.nodes)) || fresh(s.nodes)

func (*nodeStack).Drop(s)
  props C07
  requires s != nil
  modifies s.nodes
  ensures len(s.nodes) == (old(len(s.nodes)) == 0 ? 0 : old(len(s.nodes)) - 1)
  ensures obj(s.nodes) == old(obj(s.nodes)) && off(s.nodes) == old(off(s.nodes))

func (*nodeStack).Top(s)
  props C07
  requires s != nil
  ensures len(s.nodes) == 0 ==> result == nil
  ensures len(s.nodes) > 0 ==> obj(result) == obj(s.nodes) && idx(result) == off(s.nodes) + len(s.nodes) - 1
  modifies nothing

func (*nodeStack).Copy(s)
  props C07 C09
  requires s != nil
  ensures fresh(result) && fresh(result.nodes) && len(result.nodes) == len(s.nodes)
  ensures forall i int :: {result.nodes[i]} 0 <= i && i < len(s.nodes) ==> result.nodes[i] == s.nodes[i]
  modifies nothing

func (*nodeStack).Indexes(s)
  props C08
  requires s != nil
  ensures fresh(result) && len(result) == len(s.nodes)
  ensures forall i int :: {result[i]} 0 <= i && i < len(s.nodes) ==> result[i] == s.nodes[len(s.nodes)-1-i].index
  modifies nothing
  loop 1
    invariant len(result) == len(s.nodes) && off(result) == 0 && fresh(result)
    invariant forall k int :: {result[k]} len(s.nodes) - $i <= k && k < len(s.nodes) ==> result[k] == s.nodes[len(s.nodes)-1-k].index

# ---- node hooks: the log of everything they are told ----

# evlog stands for the whole history of hook calls. What a call answers depends on the history up to and
# including the call, in whatever way: instOf, endRes and errOf are arbitrary functions.
ghost evlog
ufun evTok(log int, h NodeHookInstance, t *Token) int
ufun evNew(log int, h NodeHookInstance, node string, t *Token) int
ufun evNode(log int, h NodeHookInstance, node string, res any) int
ufun evEnd(log int, h NodeHookInstance) int
ufun evHook(log int, f NodeHook, node string, t *Token) int
ufun errOf(log int) error
ufun endRes(log int) any
ufun instOf(log int) NodeHookInstance

iface (NodeHookInstance).HandleToken(h, token)
  trusted node hooks: calls change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evTok(old(evlog), h, token)
  ensures result == errOf(evlog)

iface (NodeHookInstance).NewNode(h, node, token)
  trusted node hooks: calls change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evNew(old(evlog), h, node, token)
  ensures result == errOf(evlog)

iface (NodeHookInstance).HandleNode(h, node, res)
  trusted node hooks: calls change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evNode(old(evlog), h, node, res)
  ensures result == errOf(evlog)

iface (NodeHookInstance).EndNode(h)
  returns res, e
  trusted node hooks: calls change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evEnd(old(evlog), h)
  ensures e == errOf(evlog) && res == endRes(evlog)

functype NodeHook(f, ctx, node, token, nc)
  returns inst, e
  trusted node hooks: calls change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evHook(old(evlog), f, node, token)
  ensures e == errOf(evlog) && inst == instOf(evlog)

# Folds over the hooks of a node, layers i..n-1 (absolute indices of the hook array); all stop at the first error.
# token t is handed to the hooks of a node
spec2 tokRun(log int, h [0]NodeHookInstance, i int, n int, t *Token) int = i >= n || errOf(log) != nil ? log : tokRun(h[i] == nil ? log : evTok(log, h[i], t), h, i+1, n, t)
# side tokens s[j..m-1] are handed over
spec2 sideRun(log int, h [0]NodeHookInstance, o int, n int, s [0]*Token, j int, m int) int = j >= m || errOf(log) != nil ? log : sideRun(tokRun(log, h, o, n, s[j]), h, o, n, s, j+1, m)
# the hooks are told about a new child node
spec2 newRun(log int, h [0]NodeHookInstance, i int, n int, node string, t *Token) int = i >= n || errOf(log) != nil ? log : newRun(h[i] == nil ? log : evNew(log, h[i], node, t), h, i+1, n, node, t)
# the node is ended
spec2 endRun(log int, h [0]NodeHookInstance, i int, n int) int = i >= n || errOf(log) != nil ? log : endRun(h[i] == nil ? log : evEnd(log, h[i]), h, i+1, n)
# the result of the hook k of the node
spec2 resAt(log int, h [0]NodeHookInstance, i int, n int, k int) any = i >= n || errOf(log) != nil ? nil : i == k ? (h[i] == nil ? nil : endRes(evEnd(log, h[i]))) : resAt(h[i] == nil ? log : evEnd(log, h[i]), h, i+1, n, k)
# the hooks of the enclosing node (layers i..n-1, first layer at o) are told about the ended child, each with the result of its own layer
spec2 nodeRun(log int, h [0]NodeHookInstance, i int, n int, o int, node string, l0 int, ch [0]NodeHookInstance, co int, cn int) int = i >= n || errOf(log) != nil ? log : nodeRun(h[i] == nil ? log : evNode(log, h[i], node, resAt(l0, ch, co, cn, co + i - o)), h, i+1, n, o, node, l0, ch, co, cn)

def H(r nodeRec) [0]NodeHookInstance = elems(r.hooks)
def HO(r nodeRec) int = off(r.hooks)
def HE(r nodeRec) int = off(r.hooks) + len(r.hooks)

# node stacks: st[o..o+n-1] are the records, the last one is the top
# s[i..e-1] are the pending side tokens; left over at the very end they go to the root
def endStart(log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int) int = n == 1 ? sideRun(log, H(st[o]), HO(st[o]), HE(st[o]), s, i, e) : log
spec popOne(g *grammar.Grammar, log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int) int = n == 1 ? endRun(endStart(log, st, o, n, s, i, e), H(st[o]), HO(st[o]), HE(st[o])) : nodeRun(endRun(log, H(st[o+n-1]), HO(st[o+n-1]), HE(st[o+n-1])), H(st[o+n-2]), HO(st[o+n-2]), HE(st[o+n-2]), HO(st[o+n-2]), g.Nodes[st[o+n-1].index].Name, log, H(st[o+n-1]), HO(st[o+n-1]), HE(st[o+n-1]))

def finished(st [0]nodeRec, o int, n int) bool = n > 0 && st[o+n-1].state == -1
# how many nodes stay on the stack after all finished ones are popped
spec popTo(st [0]nodeRec, o int, n int) int = n > 0 && st[o+n-1].state == -1 ? popTo(st, o, n-1) : n
spec2 popLog(g *grammar.Grammar, log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int) int = finished(st, o, n) && errOf(log) == nil ? popLog(g, popOne(g, log, st, o, n, s, i, e), st, o, n-1, s, i, e) : log
# the result of the first layer's hook of the last node popped
spec res0(log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int, r any) any = len(st[o+n-1].hooks) == 0 || H(st[o+n-1])[HO(st[o+n-1])] == nil ? r : resAt(endStart(log, st, o, n, s, i, e), H(st[o+n-1]), HO(st[o+n-1]), HE(st[o+n-1]), HO(st[o+n-1]))
spec2 popRes(g *grammar.Grammar, log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int, r any) any = finished(st, o, n) && errOf(log) == nil ? popRes(g, popOne(g, log, st, o, n, s, i, e), st, o, n-1, s, i, e, res0(log, st, o, n, s, i, e, r)) : r

# the hook a layer has for a node: its own one or the one for any node
def hookFor(pc *ParseContext, l int, nt int) NodeHook = pc.nodeHooks[l][nt+1] == nil ? pc.nodeHooks[l][0] : pc.nodeHooks[l][nt+1]

def recwf(g *grammar.Grammar, r nodeRec) bool = 0 <= r.index && r.index < len(g.Nodes) && -1 <= r.state && r.state < len(g.States)
def stk(g *grammar.Grammar, s *nodeStack) bool = s != nil && (forall j int :: {elems(s.nodes)[j]} off(s.nodes) <= j && j < off(s.nodes) + len(s.nodes) ==> recwf(g, elems(s.nodes)[j]))
# only the top node can have pending side tokens; every node has one hook (or nil) per layer
def stkh(pc *ParseContext, s *nodeStack) bool = stk(pc.parser.grammar, s) && (forall j int :: {elems(s.nodes)[j]} off(s.nodes) <= j && j < off(s.nodes) + len(s.nodes) ==> len(elems(s.nodes)[j].hooks) == len(pc.nodeHooks) && (j < off(s.nodes) + len(s.nodes) - 1 ==> len(elems(s.nodes)[j].sides) == 0))

# only the pending side tokens of the record changed
def onlySides(n *nodeRec) bool = n.hooks == old(n.hooks) && n.types == old(n.types) && n.index == old(n.index) && n.state == old(n.state)

func (*ParseContext).handleNodeSides(pc, node)
  props C08
  requires node != nil ==> errOf(evlog) == nil
  modifies node != nil ? evlog : nothing, node != nil ? node.sides : nothing
  let s = node.sides
  let l0 = evlog
  ensures node == nil ==> result == nil
  ensures node != nil ==> evlog == sideRun(l0, elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), old(elems(s)), off(s), off(s) + len(s)) && result == errOf(evlog)
  ensures node != nil && result == nil ==> len(node.sides) == 0
  ensures node != nil ==> onlySides(node)
  loop 1
    invariant errOf(evlog) == nil && e == nil && onlySides(node)
    invariant sideRun(evlog, elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), elems(s), off(s) + $i, off(s) + len(s)) == sideRun(l0, elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), elems(s), off(s), off(s) + len(s))
  loop 2
    invariant errOf(evlog) == nil && e == nil && onlySides(node)
    invariant sideRun(tokRun(evlog, elems(node.hooks), off(node.hooks) + $i, off(node.hooks) + len(node.hooks), elems(s)[off(s) + $i0]), elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), elems(s), off(s) + $i0 + 1, off(s) + len(s)) == sideRun(l0, elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), elems(s), off(s), off(s) + len(s))

func (*ParseContext).handleNodeToken(pc, tok, node)
  props C08
  requires pc != nil && pwf(pc.parser) && tokwf(pc.parser, tok) && node != nil && errOf(evlog) == nil
  let side = sideTok(pc.parser, tok)
  let s = node.sides
  let l0 = evlog
  modifies tok != nil && !side ? evlog : nothing, tok != nil ? node.sides : nothing, side ? arr(node.sides) : nothing
  ensures tok == nil ==> result == nil
  ensures onlySides(node)
  ensures side ==> result == nil && len(node.sides) == old(len(node.sides)) + 1 && node.sides[old(len(node.sides))] == tok
  ensures side ==> forall i int :: {node.sides[i]} 0 <= i && i < old(len(node.sides)) ==> node.sides[i] == old(node.sides[i])
  ensures tok != nil && !side ==> result == errOf(evlog) && evlog == tokRun(sideRun(l0, H(*node), HO(*node), HE(*node), old(elems(s)), off(s), off(s) + len(s)), H(*node), HO(*node), HE(*node), tok)
  ensures tok != nil && !side && result == nil ==> len(node.sides) == 0
  loop 1
    invariant errOf(evlog) == nil && e == nil && onlySides(node) && len(node.sides) == 0
    invariant tokRun(evlog, elems(node.hooks), off(node.hooks) + $i, off(node.hooks) + len(node.hooks), tok) == tokRun(sideRun(l0, elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), old(elems(s)), off(s), off(s) + len(s)), elems(node.hooks), off(node.hooks), off(node.hooks) + len(node.hooks), tok)

func (*ParseContext).getNodeHook(pc, ctx, layerIndex, ntIndex, tok)
  props C08
  returns res, e
  requires pc != nil && pwf(pc.parser) && 0 <= layerIndex && layerIndex < len(pc.nodeHooks) && 0 <= ntIndex && ntIndex < len(pc.parser.grammar.Nodes) && len(pc.nodeHooks[layerIndex]) == len(pc.parser.grammar.Nodes) + 1 && errOf(evlog) == nil
  let hk = hookFor(pc, layerIndex, ntIndex)
  let l0 = evlog
  modifies hk != nil ? evlog : nothing
  ensures hk == nil ==> res == nil && e == nil
  ensures hk != nil ==> evlog == evHook(l0, hk, pc.parser.grammar.Nodes[ntIndex].Name, tok) && res == instOf(evlog) && e == errOf(evlog)

def nhwf(pc *ParseContext) bool = pc != nil && pwf(pc.parser) && (forall l int :: {pc.nodeHooks[l]} 0 <= l && l < len(pc.nodeHooks) ==> len(pc.nodeHooks[l]) == len(pc.parser.grammar.Nodes) + 1)

# every layer is asked for a hook for the new node
spec2 hookRun(log int, pc *ParseContext, i int, nt int, t *Token) int = i >= len(pc.nodeHooks) || errOf(log) != nil ? log : hookRun(hookFor(pc, i, nt) == nil ? log : evHook(log, hookFor(pc, i, nt), pc.parser.grammar.Nodes[nt].Name, t), pc, i+1, nt, t)
spec2 instAt(log int, pc *ParseContext, i int, nt int, t *Token, k int) NodeHookInstance = i >= len(pc.nodeHooks) || errOf(log) != nil ? nil : i == k ? (hookFor(pc, i, nt) == nil ? nil : instOf(evHook(log, hookFor(pc, i, nt), pc.parser.grammar.Nodes[nt].Name, t))) : instAt(hookFor(pc, i, nt) == nil ? log : evHook(log, hookFor(pc, i, nt), pc.parser.grammar.Nodes[nt].Name, t), pc, i+1, nt, t, k)

# what the node on top is told before a child is pushed
def flushed(log int, r nodeRec, s [0]*Token) int = sideRun(log, H(r), HO(r), HE(r), s, off(r.sides), off(r.sides) + len(r.sides))

# the record at position j of the array of the stack is what it was
def wasRec(s *nodeStack, j int) nodeRec = old(elems(s.nodes))[j - off(s.nodes) + old(off(s.nodes))]
def keptRec(s *nodeStack, j int) bool = elems(s.nodes)[j].hooks == wasRec(s, j).hooks && elems(s.nodes)[j].index == wasRec(s, j).index && elems(s.nodes)[j].state == wasRec(s, j).state && elems(s.nodes)[j].types == wasRec(s, j).types
def keptSides(s *nodeStack, j int) bool = elems(s.nodes)[j].sides == wasRec(s, j).sides

func (*ParseContext).pushNode(pc, ctx, stack, index, tok, useHooks)
  props C08
  requires nhwf(pc) && stk(pc.parser.grammar, stack) && 0 <= index && index < len(pc.parser.grammar.Nodes)
  requires useHooks ==> stkh(pc, stack) && errOf(evlog) == nil
  let g = pc.parser.grammar
  let n = len(stack.nodes)
  let l0 = evlog
  let top = stack.nodes[len(stack.nodes) - 1]
  let sd = elems(top.sides)
  let l1 = n == 0 ? l0 : newRun(flushed(l0, top, sd), H(top), HO(top), HE(top), g.Nodes[index].Name, tok)
  modifies useHooks ? evlog : nothing, stack.nodes, arr(stack.nodes)
  ensures useHooks ==> result == errOf(evlog) && evlog == hookRun(l1, pc, 0, index, tok)
  ensures !useHooks ==> result == nil
  ensures result != nil ==> len(stack.nodes) == n
  ensures result == nil ==> len(stack.nodes) == n + 1 && stk(g, stack)
  ensures result == nil ==> stack.nodes[n].index == index && stack.nodes[n].state == g.Nodes[index].FirstState && stack.nodes[n].types == g.States[g.Nodes[index].FirstState].TokenTypes && len(stack.nodes[n].sides) == 0
  ensures result == nil && useHooks ==> stkh(pc, stack) && (forall k int :: {elems(stack.nodes[n].hooks)[k]} 0 <= k - off(stack.nodes[n].hooks) && k - off(stack.nodes[n].hooks) < len(pc.nodeHooks) ==> elems(stack.nodes[n].hooks)[k] == instAt(l1, pc, 0, index, tok, k - off(stack.nodes[n].hooks)))
  ensures !useHooks ==> len(stack.nodes[n].hooks) == 0
  ensures result == nil ==> forall j int :: {elems(stack.nodes)[j]} off(stack.nodes) <= j && j < off(stack.nodes) + n ==> keptRec(stack, j) && (j < off(stack.nodes) + n - 1 || !useHooks ==> keptSides(stack, j))
  loop 1
    invariant errOf(evlog) == nil && e == nil && node == old(mkptr(obj(stack.nodes), off(stack.nodes) + n - 1)) && onlySides(node) && stack.nodes == old(stack.nodes) && len(node.sides) == 0
    invariant newRun(evlog, elems(node.hooks), off(node.hooks) + $i, off(node.hooks) + len(node.hooks), g.Nodes[index].Name, tok) == l1
  loop 2
    invariant errOf(evlog) == nil && len(newHooks) == len(pc.nodeHooks) && off(newHooks) == 0 && fresh(newHooks) && stack.nodes == old(stack.nodes)
    invariant hookRun(evlog, pc, $i, index, tok) == hookRun(l1, pc, 0, index, tok)
    invariant forall k int :: {elems(newHooks)[k]} 0 <= k && k < $i ==> elems(newHooks)[k] == instAt(l1, pc, 0, index, tok, k)
    invariant forall k int :: {instAt(l1, pc, 0, index, tok, k)} $i <= k && k < len(pc.nodeHooks) ==> instAt(l1, pc, 0, index, tok, k) == instAt(evlog, pc, $i, index, tok, k)

# how a record and its stack positions relate to the fold of a pop: only hooks and index of the popped and of the lower nodes and
# the states of the lower ones matter
def sameRec(a nodeRec, b nodeRec) bool = a.hooks == b.hooks && a.index == b.index && a.state == b.state

lemma popToExt(s1 [0]nodeRec, s2 [0]nodeRec, o int, p int, n int)
  props C08
  induction n
  requires n >= 0 && (forall k int :: {s1[k]} {s2[p+k-o]} o <= k && k < o + n ==> s1[k].state == s2[p+k-o].state)
  ensures popTo(s1, o, n) == popTo(s2, p, n)
  apply ih(s1, s2, o, p, n-1)

lemma popLogExt(g *grammar.Grammar, log int, s1 [0]nodeRec, s2 [0]nodeRec, o int, p int, n int, t [0]*Token, i int, e int)
  props C08
  induction n
  requires n >= 0 && (forall k int :: {s1[k]} {s2[p+k-o]} o <= k && k < o + n ==> sameRec(s1[k], s2[p+k-o]))
  ensures popLog(g, log, s1, o, n, t, i, e) == popLog(g, log, s2, p, n, t, i, e)
  apply ih(g, popOne(g, log, s1, o, n, t, i, e), s1, s2, o, p, n-1, t, i, e)

func (*ParseContext).popNode(pc, stack, useHooks)
  props C08
  requires nhwf(pc) && stk(pc.parser.grammar, stack) && len(stack.nodes) > 0
  requires useHooks ==> stkh(pc, stack) && errOf(evlog) == nil
  let g = pc.parser.grammar
  let n0 = len(stack.nodes)
  let o = off(stack.nodes)
  let st = elems(stack.nodes)
  let l0 = evlog
  let r0 = pc.lastResult
  let sd = stack.nodes[len(stack.nodes) - 1].sides
  let sa = elems(stack.nodes[len(stack.nodes) - 1].sides)
  modifies useHooks ? evlog : nothing, useHooks && pc.watchNodes ? pc.lastResult : nothing, stack.nodes, arr(stack.nodes)
  ensures useHooks ==> result == errOf(evlog) && evlog == popLog(g, l0, st, o, n0, sa, off(sd), off(sd) + len(sd))
  ensures useHooks && result == nil && pc.watchNodes ==> pc.lastResult == popRes(g, l0, st, o, n0, sa, off(sd), off(sd) + len(sd), r0)
  ensures !useHooks ==> result == nil
  ensures result == nil ==> len(stack.nodes) == popTo(st, o, n0)
  ensures len(stack.nodes) <= n0 && obj(stack.nodes) == old(obj(stack.nodes)) && off(stack.nodes) == o && stk(g, stack)
  ensures result == nil && len(stack.nodes) > 0 ==> stack.nodes[len(stack.nodes)-1].state != -1 && stack.nodes[len(stack.nodes)-1].sides == sd
  ensures forall j int :: {elems(stack.nodes)[j]} o <= j && j < o + len(stack.nodes) ==> keptRec(stack, j) && (j < o + len(stack.nodes) - 1 ==> keptSides(stack, j))
  ensures useHooks && result == nil ==> stkh(pc, stack)
  loop 1
    invariant e == nil && (useHooks ==> errOf(evlog) == nil) && sides == sd && 0 < len(stack.nodes) && len(stack.nodes) <= n0 && obj(stack.nodes) == old(obj(stack.nodes)) && off(stack.nodes) == o
    invariant node == mkptr(obj(stack.nodes), o + len(stack.nodes) - 1) && node.state == st[o + len(stack.nodes) - 1].state && node.hooks == st[o + len(stack.nodes) - 1].hooks && node.index == st[o + len(stack.nodes) - 1].index && recwf(g, *node)
    invariant forall j int :: {elems(stack.nodes)[j]} o <= j && j < o + len(stack.nodes) ==> keptRec(stack, j) && (j < o + n0 - 1 ==> keptSides(stack, j)) && (j == o + n0 - 1 ==> len(elems(stack.nodes)[j].sides) == 0)
    invariant popTo(st, o, n0) == popTo(st, o, len(stack.nodes))
    invariant useHooks ==> popLog(g, evlog, st, o, len(stack.nodes), sa, off(sd), off(sd) + len(sd)) == popLog(g, l0, st, o, n0, sa, off(sd), off(sd) + len(sd))
    invariant useHooks && pc.watchNodes ==> popRes(g, evlog, st, o, len(stack.nodes), sa, off(sd), off(sd) + len(sd), pc.lastResult) == popRes(g, l0, st, o, n0, sa, off(sd), off(sd) + len(sd), r0)
    invariant useHooks ==> stkh(pc, stack)
    let L = evlog
    let R = pc.lastResult
    let N = len(stack.nodes)
  loop 2
    invariant errOf(evlog) == nil && e == nil
    invariant sideRun(evlog, H(st[o]), HO(st[o]), HE(st[o]), sa, off(sd) + $i, off(sd) + len(sd)) == sideRun(L, H(st[o]), HO(st[o]), HE(st[o]), sa, off(sd), off(sd) + len(sd))
  loop 3
    invariant errOf(evlog) == nil && e == nil
    invariant sideRun(tokRun(evlog, H(st[o]), HO(st[o]) + $i, HE(st[o]), sa[off(sd) + $i1]), H(st[o]), HO(st[o]), HE(st[o]), sa, off(sd) + $i1 + 1, off(sd) + len(sd)) == sideRun(L, H(st[o]), HO(st[o]), HE(st[o]), sa, off(sd), off(sd) + len(sd))
  loop 4
    pre E0 = evlog
    invariant errOf(evlog) == nil && e == nil && fresh(results) && off(results) == 0 && len(results) == len(node.hooks)
    invariant endRun(evlog, H(*node), HO(*node) + $i, HE(*node)) == endRun(E0, H(*node), HO(*node), HE(*node))
    invariant forall k int :: {elems(results)[k]} 0 <= k && k < $i ==> elems(results)[k] == resAt(E0, H(*node), HO(*node), HE(*node), HO(*node) + k)
    invariant forall k int :: {elems(results)[k]} $i <= k && k < len(results) ==> elems(results)[k] == nil
    invariant forall k int :: {resAt(E0, H(*node), HO(*node), HE(*node), k)} HO(*node) + $i <= k && k < HE(*node) ==> resAt(evlog, H(*node), HO(*node) + $i, HE(*node), k) == resAt(E0, H(*node), HO(*node), HE(*node), k)
    invariant pc.watchNodes ==> pc.lastResult == ($i == 0 || H(*node)[HO(*node)] == nil ? R : resAt(E0, H(*node), HO(*node), HE(*node), HO(*node)))
  loop 5
    pre E1 = evlog
    invariant errOf(evlog) == nil && e == nil && len(results) == len(node.hooks)
    invariant nodeRun(evlog, H(st[o+N-2]), HO(st[o+N-2]) + $i, HE(st[o+N-2]), HO(st[o+N-2]), g.Nodes[st[o+N-1].index].Name, L, H(st[o+N-1]), HO(st[o+N-1]), HE(st[o+N-1])) == nodeRun(E1, H(st[o+N-2]), HO(st[o+N-2]), HE(st[o+N-2]), HO(st[o+N-2]), g.Nodes[st[o+N-1].index].Name, L, H(st[o+N-1]), HO(st[o+N-1]), HE(st[o+N-1]))

def rulok(g *grammar.Grammar, r grammar.Rule) bool = (r.State == -128 || -1 <= r.State && r.State < len(g.States)) && -1 <= r.Node && r.Node < len(g.Nodes)

# the top node is finished
spec endLog(g *grammar.Grammar, log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int) int = popLog(g, popOne(g, log, st, o, n, s, i, e), st, o, n-1, s, i, e)
spec endTo(st [0]nodeRec, o int, n int) int = popTo(st, o, n-1)
def nearly(a [0]nodeRec, b [0]nodeRec, o int, n int) bool = n > 0 && a[o+n-1].state == -1 && a[o+n-1].hooks == b[o+n-1].hooks && a[o+n-1].index == b[o+n-1].index && (forall k int :: {a[k]} {b[k]} o <= k && k < o+n-1 ==> sameRec(a[k], b[k]))

lemma popLogNone(g *grammar.Grammar, log int, st [0]nodeRec, o int, n int, s [0]*Token, i int, e int, t [0]*Token, j int, f int)
  props C08
  induction n
  requires n >= 0 && e <= i && f <= j
  ensures popLog(g, log, st, o, n, s, i, e) == popLog(g, log, st, o, n, t, j, f)
  apply ih(g, popOne(g, log, st, o, n, s, i, e), st, o, n-1, s, i, e, t, j, f)

lemma endLogIs(g *grammar.Grammar, log int, a [0]nodeRec, b [0]nodeRec, o int, n int, s [0]*Token, i int, e int)
  props C08
  requires nearly(a, b, o, n) && errOf(log) == nil
  ensures popLog(g, log, a, o, n, s, i, e) == endLog(g, log, b, o, n, s, i, e)
  trigger {popLog(g, log, a, o, n, s, i, e), endLog(g, log, b, o, n, s, i, e)}
  apply popLogExt(g, popOne(g, log, a, o, n, s, i, e), a, b, o, o, n-1, s, i, e)

lemma endLogNone(g *grammar.Grammar, log int, a [0]nodeRec, b [0]nodeRec, o int, n int, s [0]*Token, i int, e int, t [0]*Token)
  props C08
  requires nearly(a, b, o, n) && e <= i && errOf(log) == nil
  ensures popLog(g, log, a, o, n, s, i, e) == endLog(g, log, b, o, n, t, 0, 0)
  trigger {popLog(g, log, a, o, n, s, i, e), endLog(g, log, b, o, n, t, 0, 0)}
  apply popLogNone(g, log, a, o, n, s, i, e, t, 0, 0)
  apply endLogIs(g, log, a, b, o, n, t, 0, 0)

lemma endToIs(a [0]nodeRec, b [0]nodeRec, o int, n int)
  props C08
  requires nearly(a, b, o, n)
  ensures popTo(a, o, n) == endTo(b, o, n)
  trigger {popTo(a, o, n), endTo(b, o, n)}
  apply popToExt(a, b, o, o, n-1)

# What applying a rule does to the stack and tells the hooks. A rule that names a node pushes that node and consumes nothing;
# the others consume the token unless they match any token. A finished top node is popped, with everything finished below it.
func (*ParseContext).applyRule(pc, ctx, tok, rule, stack, useHooks)
  props C07 C08 C09
  returns consumed, err
  requires nhwf(pc) && stk(pc.parser.grammar, stack) && len(stack.nodes) > 0 && tokwf(pc.parser, tok) && rulok(pc.parser.grammar, rule)
  requires stack.nodes[len(stack.nodes)-1].state != -1
  requires useHooks ==> stkh(pc, stack) && errOf(evlog) == nil
  let g = pc.parser.grammar
  let n0 = len(stack.nodes)
  let o = off(stack.nodes)
  let st = elems(stack.nodes)
  let l0 = evlog
  let top = stack.nodes[len(stack.nodes) - 1]
  let sd = elems(top.sides)
  let same = rule.Node == -1
  let eat = same && rule.Token != -1 || tok == nil
  let tell = same && eat && tok != nil && useHooks
  let side = sideTok(pc.parser, tok)
  let l1 = tell && !side ? tokRun(flushed(l0, top, sd), H(top), HO(top), HE(top), tok) : l0
  let ends = same && rule.State == -1
  let l2 = newRun(flushed(l0, top, sd), H(top), HO(top), HE(top), g.Nodes[rule.Node].Name, tok)
  modifies useHooks ? evlog : nothing, useHooks && pc.watchNodes ? pc.lastResult : nothing, stack.nodes, arr(stack.nodes), useHooks && side ? arr(top.sides) : nothing
  ensures consumed == eat
  ensures useHooks ==> err == errOf(evlog)
  ensures !useHooks ==> err == nil
  # the log
  ensures useHooks && same && !ends ==> evlog == l1
  ensures useHooks && !same ==> evlog == hookRun(l2, pc, 0, rule.Node, tok)
  ensures useHooks && ends && tell && !side ==> evlog == endLog(g, l1, st, o, n0, sd, 0, 0)
  ensures useHooks && ends && !tell ==> evlog == endLog(g, l0, st, o, n0, sd, off(top.sides), off(top.sides) + len(top.sides))
  # the stack
  ensures err == nil ==> stk(g, stack) && (useHooks ==> stkh(pc, stack)) && (len(stack.nodes) > 0 ==> stack.nodes[len(stack.nodes)-1].state != -1)
  ensures err == nil && !same ==> len(stack.nodes) == n0 + 1 && stack.nodes[n0].index == rule.Node && stack.nodes[n0].state == g.Nodes[rule.Node].FirstState && stack.nodes[n0].types == g.States[g.Nodes[rule.Node].FirstState].TokenTypes
  ensures err == nil && same && !ends ==> len(stack.nodes) == n0
  ensures err == nil && ends ==> len(stack.nodes) == endTo(st, o, n0)
  ensures err == nil && !ends && rule.State != -128 ==> stack.nodes[n0-1].state == rule.State && (rule.State != -1 ==> stack.nodes[n0-1].types == g.States[rule.State].TokenTypes)
  ensures err == nil && !ends && rule.State == -128 ==> stack.nodes[n0-1].state == top.state && stack.nodes[n0-1].types == top.types
  ensures err == nil && !ends ==> stack.nodes[n0-1].hooks == top.hooks && stack.nodes[n0-1].index == top.index
  ensures err == nil && !same ==> forall j int :: {elems(stack.nodes)[j]} off(stack.nodes) <= j && j < off(stack.nodes) + len(stack.nodes) && j < off(stack.nodes) + n0 - 1 ==> keptRec(stack, j)
  ensures err == nil && same && !ends ==> forall j int :: {elems(stack.nodes)[j]} off(stack.nodes) <= j && j < off(stack.nodes) + len(stack.nodes) && j < off(stack.nodes) + n0 - 1 ==> keptRec(stack, j)
  ensures err == nil && ends ==> forall j int :: {elems(stack.nodes)[j]} off(stack.nodes) <= j && j < off(stack.nodes) + len(stack.nodes) && j < off(stack.nodes) + n0 - 1 ==> keptRec(stack, j)
  # pending side tokens
  ensures err == nil && useHooks && same && !ends && tell && !side ==> len(stack.nodes[n0-1].sides) == 0
  ensures err == nil && useHooks && tell && side && !ends ==> len(stack.nodes[n0-1].sides) == len(top.sides) + 1 && stack.nodes[n0-1].sides[len(top.sides)] == tok && (forall i int :: {stack.nodes[n0-1].sides[i]} 0 <= i && i < len(top.sides) ==> stack.nodes[n0-1].sides[i] == old(top.sides[i]))
  ensures err == nil && !tell && same && len(stack.nodes) > 0 ==> stack.nodes[len(stack.nodes)-1].sides == top.sides
  ensures err == nil && tell && !side && len(stack.nodes) > 0 ==> len(stack.nodes[len(stack.nodes)-1].sides) == 0

# ---- tracing the variants of an ambiguous rule ----

# a branch starts with a copy of the current node alone and no rules
func (*ParseContext).newParsingBranch(pc)
  props C09
  requires pc != nil && pc.nodeStack != nil && len(pc.nodeStack.nodes) > 0
  let top = pc.nodeStack.nodes[len(pc.nodeStack.nodes)-1]
  ensures fresh(result) && fresh(result.NodeStack) && fresh(result.NodeStack.nodes) && len(result.AppliedRules) == 0
  ensures len(result.NodeStack.nodes) == 1 && result.NodeStack.nodes[0].state == top.state && result.NodeStack.nodes[0].types == top.types && result.NodeStack.nodes[0].index == top.index && len(result.NodeStack.nodes[0].hooks) == 0 && len(result.NodeStack.nodes[0].sides) == 0
  modifies nothing

def brCopy(a *parsingBranch, b *parsingBranch) bool = len(a.NodeStack.nodes) == len(b.NodeStack.nodes) && len(a.AppliedRules) == len(b.AppliedRules) && (forall k int :: {a.NodeStack.nodes[k]} 0 <= k && k < len(b.NodeStack.nodes) ==> a.NodeStack.nodes[k] == b.NodeStack.nodes[k]) && (forall k int :: {a.AppliedRules[k]} 0 <= k && k < len(b.AppliedRules) ==> a.AppliedRules[k] == b.AppliedRules[k])

# the branch itself and separate copies of it
func (*parsingBranch).Split(b, count)
  props C09
  requires b != nil && b.NodeStack != nil && count >= 1
  ensures fresh(result) && len(result) == count && result[0] == b
  ensures forall i int :: {result[i]} 1 <= i && i < count ==> result[i] != nil && fresh(result[i]) && fresh(result[i].NodeStack) && fresh(result[i].NodeStack.nodes) && fresh(result[i].AppliedRules) && brCopy(result[i], b)
  ensures forall i int, j int :: {result[i], result[j]} 1 <= i && i < j && j < count ==> result[i] != result[j]
  ensures forall i int, j int :: {result[i], result[j]} 1 <= i && i < j && j < count ==> result[i].NodeStack != result[j].NodeStack
  ensures forall i int, j int :: {result[i], result[j]} 1 <= i && i < j && j < count ==> obj(result[i].NodeStack.nodes) != obj(result[j].NodeStack.nodes)
  ensures forall i int, j int :: {result[i], result[j]} 1 <= i && i < j && j < count ==> obj(result[i].AppliedRules) != obj(result[j].AppliedRules)
  modifies nothing
  loop 1
    invariant 1 <= i && len(result) == count && fresh(result) && off(result) == 0 && result[0] == b
    invariant forall k int :: {result[k]} 1 <= k && k < i && k < count ==> result[k] != nil && fresh(result[k]) && fresh(result[k].NodeStack) && fresh(result[k].NodeStack.nodes) && fresh(result[k].AppliedRules) && brCopy(result[k], b)
    invariant forall k int, j int :: {result[k], result[j]} 1 <= k && k < j && j < i && j < count ==> result[k] != result[j]
    invariant forall k int, j int :: {result[k], result[j]} 1 <= k && k < j && j < i && j < count ==> result[k].NodeStack != result[j].NodeStack
    invariant forall k int, j int :: {result[k], result[j]} 1 <= k && k < j && j < i && j < count ==> obj(result[k].NodeStack.nodes) != obj(result[j].NodeStack.nodes)
    invariant forall k int, j int :: {result[k], result[j]} 1 <= k && k < j && j < i && j < count ==> obj(result[k].AppliedRules) != obj(result[j].AppliedRules)
    decreases count - i

func (*parsingBranch).AddRule(b, rule)
  props C09
  requires b != nil
  modifies b.AppliedRules, arr(b.AppliedRules)
  ensures len(b.AppliedRules) == old(len(b.AppliedRules)) + 1 && b.AppliedRules[old(len(b.AppliedRules))] == rule
  ensures forall k int :: {elems(b.AppliedRules)[k]} off(b.AppliedRules) <= k && k < off(b.AppliedRules) + old(len(b.AppliedRules)) ==> elems(b.AppliedRules)[k] == old(elems(b.AppliedRules))[k - off(b.AppliedRules) + old(off(b.AppliedRules))]
  ensures obj(b.AppliedRules) == old(obj(b.AppliedRules)) && off(b.AppliedRules) == old(off(b.AppliedRules)) || fresh(b.AppliedRules)
