# setting up parsers: layer templates, layers, hook tables (C26)
package sync
extern (*sync.RWMutex).Lock(m)
  trusted locks change nothing but the lock
  modifies nothing
extern (*sync.RWMutex).Unlock(m)
  trusted locks change nothing but the lock
  modifies nothing
extern (*sync.RWMutex).RLock(m)
  trusted locks change nothing but the lock
  modifies nothing
extern (*sync.RWMutex).RUnlock(m)
  trusted locks change nothing but the lock
  modifies nothing

package parser
# nothing registered is ever replaced
func RegisterHookLayer(name, tpl)
  props C26
  requires knownHookLayers != nil
  let had = old(has(knownHookLayers, name))
  modifies contents(knownHookLayers)
  ensures (result != nil) == had
  ensures had ==> lerr(result, 304)
  ensures forall k string :: {has(knownHookLayers, k)} has(knownHookLayers, k) == (old(has(knownHookLayers, k)) || k == name)
  ensures forall k string :: {knownHookLayers[k]} k != name || had ==> knownHookLayers[k] == old(knownHookLayers[k])
  ensures !had ==> knownHookLayers[name] == tpl

func WithLayerTemplates$1(ps)
  props C26
  requires ps != nil
  modifies ps.layerTemplates
  ensures ps.layerTemplates == templates

def tokNm(p *Parser) bool = p.tokenNames != nil && (forall n string :: {has(p.tokenNames, n)} has(p.tokenNames, n) ==> -3 <= p.tokenNames[n] && p.tokenNames[n] < len(p.grammar.Tokens))
# different names mean different types, and never that of a literal
def tokInj(p *Parser) bool = forall n string, m string :: {p.tokenNames[n], p.tokenNames[m]} has(p.tokenNames, n) && has(p.tokenNames, m) && p.tokenNames[n] == p.tokenNames[m] ==> n == m
def tokLit(p *Parser) bool = forall n string, m string :: {p.tokenNames[n], p.literals[m]} has(p.tokenNames, n) && has(p.literals, m) ==> p.tokenNames[n] != p.literals[m]
def litInj(p *Parser) bool = forall n string, m string :: {p.literals[n], p.literals[m]} has(p.literals, n) && has(p.literals, m) && p.literals[n] == p.literals[m] ==> n == m
def litNm(p *Parser) bool = p.literals != nil && (forall n string :: {has(p.literals, n)} has(p.literals, n) ==> 0 <= p.literals[n] && p.literals[n] < len(p.grammar.Tokens))
def nodNm(p *Parser) bool = p.nodeNames != nil && (forall n string :: {has(p.nodeNames, n)} has(p.nodeNames, n) ==> -1 <= p.nodeNames[n] && p.nodeNames[n] < len(p.grammar.Nodes))
def nodInj(p *Parser) bool = forall n string, m string :: {p.nodeNames[n], p.nodeNames[m]} has(p.nodeNames, n) && has(p.nodeNames, m) && p.nodeNames[n] == p.nodeNames[m] ==> n == m
def names26(p *Parser) bool = p != nil && p.grammar != nil && len(p.grammar.Tokens) < 4294967296 && tokNm(p) && tokInj(p) && tokLit(p) && litInj(p) && litNm(p) && nodNm(p) && nodInj(p)
# the texts known to a context: the literals of the grammar, and more texts with numbers of their own
def pcLits(pc *ParseContext, p *Parser) bool = pc.literals != nil && pc.literals != p.literals && pc.literals != p.tokenNames && pc.literals != p.nodeNames && len(pc.literals) >= len(p.literals) && (forall s string :: {has(pc.literals, s)} {has(p.literals, s)} has(p.literals, s) ==> has(pc.literals, s) && pc.literals[s] == p.literals[s]) && (forall s string :: {has(pc.literals, s)} has(pc.literals, s) && !has(p.literals, s) ==> len(p.grammar.Tokens) <= pc.literals[s] && pc.literals[s] < len(p.grammar.Tokens) + len(pc.literals) - len(p.literals) && pc.literals[s] < 300000000000000) && (forall s string, t string :: {pc.literals[s], pc.literals[t]} has(pc.literals, s) && has(pc.literals, t) && pc.literals[s] == pc.literals[t] ==> s == t)

def okTok(p *Parser, hs Hooks) bool = forall k string :: {has(hs.Tokens, k)} has(hs.Tokens, k) ==> has(p.tokenNames, k)
def okNod(p *Parser, hs Hooks) bool = forall k string :: {has(hs.Nodes, k)} has(hs.Nodes, k) ==> has(p.nodeNames, k)

func newHookLayer(p, pc, hs)
  props C26
  requires pc != nil && names26(p) && pcLits(pc, p) && len(p.grammar.Nodes) < 4294967296
  let n = old(len(pc.tokenHooks))
  let m = old(len(pc.nodeHooks))
  let tk = len(hs.Tokens) + len(hs.Literals) > 0
  modifies contents(pc.literals), pc.tokenHooks, pc.nodeHooks, arr(pc.tokenHooks), arr(pc.nodeHooks)
  ensures pcLits(pc, p)
  ensures result == nil ==> okTok(p, hs) && okNod(p, hs)
  ensures result != nil ==> !okTok(p, hs) || !okNod(p, hs)
  ensures result != nil ==> lerr(result, okTok(p, hs) ? 303 : 302)
  ensures (obj(pc.tokenHooks) == old(obj(pc.tokenHooks)) && off(pc.tokenHooks) == old(off(pc.tokenHooks)) || fresh(pc.tokenHooks)) && (obj(pc.nodeHooks) == old(obj(pc.nodeHooks)) && off(pc.nodeHooks) == old(off(pc.nodeHooks)) || fresh(pc.nodeHooks))
  # one layer of token hooks if there are any: every hook is where its type or text is looked for, nothing else is
  ensures result == nil ==> len(pc.tokenHooks) == n + (tk ? 1 : 0) && len(pc.nodeHooks) == m + (len(hs.Nodes) > 0 ? 1 : 0)
  ensures forall i int :: {pc.tokenHooks[i]} 0 <= i && i < n ==> pc.tokenHooks[i] == old(pc.tokenHooks[i])
  ensures forall i int :: {pc.nodeHooks[i]} 0 <= i && i < m ==> pc.nodeHooks[i] == old(pc.nodeHooks[i])
  ensures result == nil && tk ==> len(pc.tokenHooks[n].hooks) >= 4 && qwf(pc.tokenHooks[n].tokens) && qlen(pc.tokenHooks[n].tokens) == 0
  ensures result == nil && tk ==> fresh(pc.tokenHooks[n].hooks) && fresh(pc.tokenHooks[n].tokens) && off(pc.tokenHooks[n].hooks) == 0
  ensures result == nil && tk ==> forall k string :: {hs.Tokens[k]} {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] + 3 < len(pc.tokenHooks[n].hooks) && pc.tokenHooks[n].hooks[p.tokenNames[k] + 3] == hs.Tokens[k]
  ensures result == nil && tk ==> forall k string :: {hs.Literals[k]} {has(hs.Literals, k)} has(hs.Literals, k) ==> has(pc.literals, k) && pc.literals[k] + 3 < len(pc.tokenHooks[n].hooks) && pc.tokenHooks[n].hooks[pc.literals[k] + 3] == hs.Literals[k]
  ensures result == nil && tk ==> forall i int :: {pc.tokenHooks[n].hooks[i]} 0 <= i && i < len(pc.tokenHooks[n].hooks) && (forall k string :: {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] + 3 != i) && (forall k string :: {has(hs.Literals, k)} has(hs.Literals, k) ==> pc.literals[k] + 3 != i) ==> pc.tokenHooks[n].hooks[i] == nil
  ensures result == nil && len(hs.Nodes) > 0 ==> len(pc.nodeHooks[m]) == len(p.grammar.Nodes) + 1 && fresh(pc.nodeHooks[m]) && off(pc.nodeHooks[m]) == 0
  ensures result == nil && len(hs.Nodes) > 0 ==> forall k string :: {hs.Nodes[k]} {has(hs.Nodes, k)} has(hs.Nodes, k) ==> pc.nodeHooks[m][p.nodeNames[k] + 1] == hs.Nodes[k]
  ensures result == nil && len(hs.Nodes) > 0 ==> forall i int :: {pc.nodeHooks[m][i]} 0 <= i && i < len(pc.nodeHooks[m]) && (forall k string :: {has(hs.Nodes, k)} has(hs.Nodes, k) ==> p.nodeNames[k] + 1 != i) ==> pc.nodeHooks[m][i] == nil
  # numbers of known texts stay, new ones are the texts of the hooks
  ensures forall s string :: {has(pc.literals, s)} has(pc.literals, s) == (old(has(pc.literals, s)) || has(pc.literals, s) && has(hs.Literals, s))
  ensures forall s string :: {pc.literals[s]} old(has(pc.literals, s)) ==> has(pc.literals, s) && pc.literals[s] == old(pc.literals[s])
  loop 1
    invariant maxTokenType >= 0 && maxTokenType < 4294967296
    invariant forall k string :: {$visited[k]} $visited[k] ==> has(p.tokenNames, k) && p.tokenNames[k] <= maxTokenType
  loop 2
    invariant pcLits(pc, p)
    invariant maxTokenType >= 0 && maxTokenType < 300000000000000
    invariant forall k string :: {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] <= maxTokenType
    invariant forall k string :: {$visited[k]} $visited[k] ==> has(pc.literals, k) && pc.literals[k] <= maxTokenType
    invariant forall s string :: {has(pc.literals, s)} has(pc.literals, s) ==> old(has(pc.literals, s)) || has(hs.Literals, s)
    invariant forall s string :: {pc.literals[s]} old(has(pc.literals, s)) ==> has(pc.literals, s) && pc.literals[s] == old(pc.literals[s])
  loop 3
    invariant pcLits(pc, p)
    invariant fresh(tokenLayer.hooks) && len(tokenLayer.hooks) == maxTokenType + 4 && off(tokenLayer.hooks) == 0
    invariant okTok(p, hs)
    invariant forall k string :: {$visited[k]} $visited[k] ==> has(hs.Tokens, k) && tokenLayer.hooks[p.tokenNames[k] + 3] == hs.Tokens[k]
    invariant forall i int :: {tokenLayer.hooks[i]} 0 <= i && i < len(tokenLayer.hooks) && (forall k string :: {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] + 3 != i) ==> tokenLayer.hooks[i] == nil
  loop 4
    invariant pcLits(pc, p)
    invariant fresh(tokenLayer.hooks) && len(tokenLayer.hooks) == maxTokenType + 4 && off(tokenLayer.hooks) == 0
    invariant forall k string :: {hs.Tokens[k]} {has(hs.Tokens, k)} has(hs.Tokens, k) ==> tokenLayer.hooks[p.tokenNames[k] + 3] == hs.Tokens[k]
    invariant forall k string :: {has(hs.Literals, k)} has(hs.Literals, k) ==> has(pc.literals, k) && pc.literals[k] <= maxTokenType
    invariant forall k string :: {$visited[k]} $visited[k] ==> has(hs.Literals, k) && tokenLayer.hooks[pc.literals[k] + 3] == hs.Literals[k]
    invariant forall i int :: {tokenLayer.hooks[i]} 0 <= i && i < len(tokenLayer.hooks) && (forall k string :: {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] + 3 != i) && (forall k string :: {has(hs.Literals, k)} has(hs.Literals, k) ==> pc.literals[k] + 3 != i) ==> tokenLayer.hooks[i] == nil
  loop 5
    invariant pcLits(pc, p)
    invariant fresh(nodeHooks) && len(nodeHooks) == len(p.grammar.Nodes) + 1 && okTok(p, hs) && off(nodeHooks) == 0
    invariant forall k string :: {$visited[k]} $visited[k] ==> has(p.nodeNames, k) && nodeHooks[p.nodeNames[k] + 1] == hs.Nodes[k]
    invariant forall i int :: {nodeHooks[i]} 0 <= i && i < len(nodeHooks) && (forall k string :: {has(hs.Nodes, k)} has(hs.Nodes, k) ==> p.nodeNames[k] + 1 != i) ==> nodeHooks[i] == nil

package maps
extern maps.Copy(dst, src)
  trusted documented behaviour
  requires dst != nil && dst != src
  modifies contents(dst)
  ensures forall k string :: {has(dst, k)} has(dst, k) == (old(has(dst, k)) || has(src, k))
  ensures forall k string :: {dst[k]} dst[k] == (has(src, k) ? src[k] : old(dst[k]))
  ensures old(len(dst)) == 0 ==> len(dst) == len(src)

package parser
ufun evInit(log int, l HookLayer) int
iface (HookLayer).Init(l, ctx, pc)
  trusted layers change nothing of the parser's own unexported state
  modifies evlog
  ensures evlog == evInit(old(evlog), l) && errOf(evlog) == nil

# layers are initialised from the last one, next to the user, to the first one
spec2 initRun(log int, p *Parser, i int) int = i < 0 ? log : initRun(evInit(log, p.layers[i]), p, i-1)
def userTab1(pc *ParseContext, p *Parser, hs Hooks) bool = forall k string :: {hs.Tokens[k]} {has(hs.Tokens, k)} has(hs.Tokens, k) ==> p.tokenNames[k] + 3 < len(pc.tokenHooks[0].hooks) && pc.tokenHooks[0].hooks[p.tokenNames[k] + 3] == hs.Tokens[k]
def userTab2(pc *ParseContext, p *Parser, hs Hooks) bool = forall k string :: {hs.Literals[k]} {has(hs.Literals, k)} has(hs.Literals, k) ==> has(pc.literals, k) && pc.literals[k] + 3 < len(pc.tokenHooks[0].hooks)
def userTab3(pc *ParseContext, p *Parser, hs Hooks) bool = forall k string :: {hs.Literals[k]} {has(hs.Literals, k)} has(hs.Literals, k) ==> pc.tokenHooks[0].hooks[pc.literals[k] + 3] == hs.Literals[k]
def userTk(hs Hooks) bool = len(hs.Tokens) + len(hs.Literals) > 0

func newParseContext(ctx, p, q, hs)
  props C26
  returns r, e
  requires pwf(p) && names26(p) && len(p.grammar.Nodes) < 4294967296 && q != nil && sq(q) && errOf(evlog) == nil && (forall i int :: {p.layers[i]} 0 <= i && i < len(p.layers) ==> p.layers[i] != nil)
  modifies evlog
  ensures !okTok(p, hs) ==> lerr(e, 302) && evlog == old(evlog)
  ensures okTok(p, hs) && !okNod(p, hs) ==> lerr(e, 303) && evlog == old(evlog)
  ensures e == nil ==> fresh(r) && r.parser == p && r.sources == q && !r.passSides && !r.fullSource && r.lastResult == nil && r.watchNodes == (len(hs.Nodes) > 0)
  ensures e == nil ==> pcLits(r, p) && fresh(r.literals) && nhwf(r)
  ensures e == nil ==> fresh(r.tokens) && qwf(r.tokens) && qlen(r.tokens) == 0 && fresh(r.appliedRules) && qwf(r.appliedRules) && qlen(r.appliedRules) == 0
  ensures e == nil ==> fresh(r.nodeStack) && len(r.nodeStack.nodes) == 1 && r.nodeStack.nodes[0].index == 0 && r.nodeStack.nodes[0].state == p.grammar.Nodes[0].FirstState && stkh(r, r.nodeStack)
  # the hooks of the user are the first layer
  ensures e == nil && userTk(hs) ==> len(r.tokenHooks) > 0 && userTab1(r, p, hs)
  ensures e == nil && userTk(hs) ==> userTab2(r, p, hs)
  ensures e == nil && userTk(hs) ==> userTab3(r, p, hs)
  ensures e == nil && len(hs.Nodes) > 0 ==> len(r.nodeHooks) > 0 && (forall k string :: {hs.Nodes[k]} {has(hs.Nodes, k)} has(hs.Nodes, k) && hs.Nodes[k] != nil ==> r.nodeHooks[0][p.nodeNames[k] + 1] == hs.Nodes[k])
  ensures e == nil && len(hs.Nodes) > 0 ==> r.nodeHooks[0][0] != nil
  loop 1
    invariant pcLits(result, p) && fresh(result) && fresh(result.literals) && result.parser == p && nhwf(result) && errOf(evlog) == nil
    invariant fresh(result.tokenHooks) && fresh(result.nodeHooks) && okTok(p, hs) && okNod(p, hs)
    invariant result.sources == q && !result.passSides && !result.fullSource && result.lastResult == nil && result.watchNodes == (len(hs.Nodes) > 0)
    invariant fresh(result.tokens) && qwf(result.tokens) && qlen(result.tokens) == 0 && fresh(result.appliedRules) && qwf(result.appliedRules) && qlen(result.appliedRules) == 0
    invariant fresh(result.nodeStack) && len(result.nodeStack.nodes) == 0 && (obj(result.nodeStack.nodes) == 0 || fresh(result.nodeStack.nodes))
    invariant result.tc.pc == result
    invariant userTk(hs) ==> len(result.tokenHooks) > 0 && fresh(result.tokenHooks[0].hooks) && off(result.tokenHooks[0].hooks) == 0
    invariant userTk(hs) ==> userTab1(result, p, hs)
    invariant userTk(hs) ==> userTab2(result, p, hs)
    invariant userTk(hs) ==> userTab3(result, p, hs)
    invariant len(hs.Nodes) > 0 ==> len(result.nodeHooks) > 0 && off(result.nodeHooks[0]) == 0 && fresh(result.nodeHooks[0])
    invariant len(hs.Nodes) > 0 ==> result.nodeHooks[0][0] != nil
    invariant len(hs.Nodes) > 0 ==> (forall k string :: {hs.Nodes[k]} {has(hs.Nodes, k)} has(hs.Nodes, k) && hs.Nodes[k] != nil ==> result.nodeHooks[0][p.nodeNames[k] + 1] == hs.Nodes[k])
    invariant initRun(old(evlog), p, len(p.layers) - 1) == initRun(evlog, p, i)
    invariant -1 <= i && i < len(p.layers)
