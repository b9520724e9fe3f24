# standard hook layers
package bytes

extern bytes.HasPrefix(s, prefix)
  trusted documented behaviour of bytes.HasPrefix
  ensures result ==> len(prefix) <= len(s) && (forall j int :: {elems(s)[j]} off(s) <= j && j < off(s) + len(prefix) ==> elems(s)[j] == elems(prefix)[j-off(s)+off(prefix)]) && (forall j int :: {elems(prefix)[j]} off(prefix) <= j && j < off(prefix) + len(prefix) ==> elems(s)[j-off(prefix)+off(s)] == elems(prefix)[j])
  ensures !result && len(prefix) <= len(s) ==> exists j int :: {elems(s)[j]} off(s) <= j && j < off(s) + len(prefix) && elems(s)[j] != elems(prefix)[j-off(s)+off(prefix)]
  modifies nothing

extern bytes.LastIndexByte(s, c)
  trusted documented behaviour of bytes.LastIndexByte
  ensures -1 <= result && result < len(s) && (result >= 0 ==> s[result] == c) && (forall j int :: {elems(s)[j]} off(s) + result < j && j < off(s) + len(s) ==> elems(s)[j] != c)
  modifies nothing

package parser/layers/common

def lerr(e error, code int) bool = e != nil && typeis(e, *llx.Error) && cast(e, *llx.Error).Code == code

func MakeUnknownCommandError(layer, command)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 401
  modifies nothing

func MakeMissingCommandError(layer, command)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 402
  modifies nothing

func MakeNumberOfArgumentsError(layer, command, expected, got)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 403
  modifies nothing

func MakeInvalidArgumentError(layer, command, arg, reason)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 404
  modifies nothing

func MakeCommandAlreadyUsedError(layer, command)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 405
  modifies nothing

func MakeUnknownTokenTypeError(layer, command, typeName)
  props C20 C21 C22
  ensures fresh(result) && result.Code == 406
  modifies nothing

func MakeWrongTokenError(layer, token, reason)
  props C20 C21 C22
  requires token != nil && (token.pos.src != nil ==> swf(token.pos.src))
  let s = token.pos.src
  let p = clamp(s, token.pos.pos)
  modifies token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  ensures fresh(result) && result.Code == 407
  ensures s == nil ==> result.Line == 0 && result.Col == 0 && result.SourceName == ""
  ensures s != nil ==> result.Line == 1 + nlc(A(s), B(s), B(s) + p) && result.Col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p) && result.SourceName == s.name
  ensures s != nil ==> swf(s)

package parser
def nodeNameAt(pc *ParseContext, i int) string = pc.parser.grammar.Nodes[pc.nodeStack.nodes[len(pc.nodeStack.nodes)-1-i].index].Name

func (*NodeContext).NodeStack(nc)
  props C21
  requires nc != nil && nc.pc != nil && nc.pc.parser != nil && nc.pc.parser.grammar != nil && nc.pc.nodeStack != nil
  let pc = nc.pc
  requires forall i int :: {nc.pc.nodeStack.nodes[i]} 0 <= i && i < len(nc.pc.nodeStack.nodes) ==> 0 <= nc.pc.nodeStack.nodes[i].index && nc.pc.nodeStack.nodes[i].index < len(nc.pc.parser.grammar.Nodes)
  ensures fresh(result) && len(result) == len(pc.nodeStack.nodes)
  ensures forall i int :: {result[i]} 0 <= i && i < len(result) ==> result[i] == nodeNameAt(pc, i)
  modifies nothing
  loop 1
    invariant fresh(result) && fresh(indexes) && obj(result) != obj(indexes)
    invariant forall i int :: {indexes[i]} 0 <= i && i < len(indexes) ==> indexes[i] == pc.nodeStack.nodes[len(indexes)-1-i].index
    invariant forall k int :: {result[k]} 0 <= k && k < $i ==> result[k] == nodeNameAt(pc, k)

func (*Parser).MakeToken(p, typeName, content)
  props C20 C22
  returns t, err
  requires p != nil && p.tokenNames != nil
  ensures has(p.tokenNames, typeName) ==> err == nil && fresh(t) && t.tokenType == p.tokenNames[typeName] && t.typeName == typeName && t.content == content && t.pos.src == nil && t.pos.pos == 0
  ensures !has(p.tokenNames, typeName) ==> t == nil && err != nil && typeis(err, *llx.Error)
  modifies nothing

func (*Parser).TokenType(p, typeName)
  props C20 C22
  returns tt, ok
  requires p != nil && p.tokenNames != nil
  ensures ok == has(p.tokenNames, typeName) && (ok ==> tt == p.tokenNames[typeName])
  modifies nothing

package parser
def tnames(p *parser.Parser) bool = p != nil && p.grammar != nil && p.tokenNames != nil && (forall n string :: {has(p.tokenNames, n)} has(p.tokenNames, n) ==> -3 <= p.tokenNames[n] && p.tokenNames[n] < len(p.grammar.Tokens)) && has(p.tokenNames, "") && p.tokenNames[""] == -1

package parser/layers/restrict

# the closest ancestor with a rule decides
spec special(m map[string]bool, pc *parser.ParseContext, i int) int = i >= len(pc.nodeStack.nodes) ? i : has(m, nodeNameAt(pc, i)) ? i : special(m, pc, i+1)

func Setup$1(ctx, node, tok, nc)
  props C21
  returns inst, err
  requires nc != nil && nc.pc != nil && nc.pc.parser != nil && nc.pc.parser.grammar != nil && nc.pc.nodeStack != nil
  requires forall i int :: {nc.pc.nodeStack.nodes[i]} 0 <= i && i < len(nc.pc.nodeStack.nodes) ==> 0 <= nc.pc.nodeStack.nodes[i].index && nc.pc.nodeStack.nodes[i].index < len(nc.pc.parser.grammar.Nodes)
  requires tok != nil && (tok.pos.src != nil ==> swf(tok.pos.src)) && specialNodes != nil
  let pc = nc.pc
  let k = special(specialNodes, pc, 0)
  let n = len(pc.nodeStack.nodes)
  let s = tok.pos.src
  let p = clamp(s, tok.pos.pos)
  modifies tok.pos.src != nil ? tok.pos.src.prevLineIndex : nothing
  ensures inst == nil
  ensures (err != nil) == (k < n && !specialNodes[nodeNameAt(pc, k)])
  ensures err != nil ==> lerr(err, 407)
  ensures err != nil && s != nil ==> cast(err, *llx.Error).SourceName == s.name && cast(err, *llx.Error).Line == 1 + nlc(A(s), B(s), B(s) + p) && cast(err, *llx.Error).Col == 1 + runes(A(s), lstart(A(s), B(s), B(s) + p), B(s) + p)
  loop 1
    invariant special(specialNodes, pc, 0) == special(specialNodes, pc, $i)

def rsKnown(c grammar.LayerCommand) bool = c.Command == "node" || c.Command == "allow-in" || c.Command == "forbid-in"
def noRs(cmds []grammar.LayerCommand, n int, name string) bool = forall a int :: {cmds[a].Command} 0 <= a && a < n ==> cmds[a].Command != name
# the first n commands, and the first m arguments of the next one, name node f for command c
def names(cmds []grammar.LayerCommand, n int, c string, f string) bool = exists a int, i int :: {cmds[a].Arguments[i]} 0 <= a && a < n && cmds[a].Command == c && 0 <= i && i < len(cmds[a].Arguments) && cmds[a].Arguments[i] == f
def namesIn(cm grammar.LayerCommand, m int, c string, f string) bool = cm.Command == c && (exists i int :: {cm.Arguments[i]} 0 <= i && i < m && i < len(cm.Arguments) && cm.Arguments[i] == f)

def rsGrp(c grammar.LayerCommand, d grammar.LayerCommand) bool = (c.Command == "node") == (d.Command == "node")
# no name is listed twice by the node commands, nor twice by the others
def rsNoDup(cmds []grammar.LayerCommand) bool = forall a int, i int, b int, j int :: {cmds[a].Arguments[i], cmds[b].Arguments[j]} 0 <= a && a < len(cmds) && 0 <= b && b < len(cmds) && 0 <= i && i < len(cmds[a].Arguments) && 0 <= j && j < len(cmds[b].Arguments) && rsGrp(cmds[a], cmds[b]) && cmds[a].Arguments[i] == cmds[b].Arguments[j] ==> a == b && i == j
def rsAllKnown(cmds []grammar.LayerCommand) bool = forall a int :: {cmds[a].Command} 0 <= a && a < len(cmds) ==> rsKnown(cmds[a])
def rsAllArgs(cmds []grammar.LayerCommand) bool = forall a int :: {cmds[a].Arguments} 0 <= a && a < len(cmds) ==> len(cmds[a].Arguments) > 0

func (template).Setup(t, commands, p)
  props C21
  ensures err != nil ==> !rsAllKnown(commands) || !rsAllArgs(commands) || noRs(commands, len(commands), "node") || noRs(commands, len(commands), "forbid-in") || !rsNoDup(commands)
  ensures err == nil ==> rsNoDup(commands)
  returns hl, err
  ensures err == nil ==> typeis(hl, layer)
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) ==> rsKnown(commands[a])
  ensures err == nil ==> forall a int :: {commands[a].Arguments} 0 <= a && a < len(commands) ==> len(commands[a].Arguments) > 0
  ensures err == nil ==> !noRs(commands, len(commands), "node") && !noRs(commands, len(commands), "forbid-in")
  ensures err == nil ==> forall f string :: {has(specialNodes, f)} has(specialNodes, f) == (names(commands, len(commands), "allow-in", f) || names(commands, len(commands), "forbid-in", f))
  ensures err == nil ==> forall f string :: {has(specialNodes, f)} has(specialNodes, f) ==> specialNodes[f] == names(commands, len(commands), "allow-in", f)
  ensures err == nil ==> forall f string :: {has(cast(hl, layer).Nodes, f)} has(cast(hl, layer).Nodes, f) == names(commands, len(commands), "node", f)
  ensures err == nil ==> cast(hl, layer).Tokens == nil && cast(hl, layer).Literals == nil
  modifies nothing
  loop 1
    invariant fresh(specialNodes) && fresh(result.Nodes) && result.Tokens == nil && result.Literals == nil
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i ==> rsKnown(commands[a])
    invariant forall a int :: {commands[a].Arguments} 0 <= a && a < $i ==> len(commands[a].Arguments) > 0
    invariant forall f string :: {has(specialNodes, f)} has(specialNodes, f) == (names(commands, $i, "allow-in", f) || names(commands, $i, "forbid-in", f))
    invariant forall f string :: {has(specialNodes, f)} has(specialNodes, f) ==> specialNodes[f] == names(commands, $i, "allow-in", f)
    invariant forall f string :: {has(result.Nodes, f)} has(result.Nodes, f) == names(commands, $i, "node", f)
    invariant !restricted == noRs(commands, $i, "forbid-in")
    invariant len(result.Nodes) >= 0
    invariant noRs(commands, $i, "node") == (len(result.Nodes) == 0)
    invariant forall a int, i int, b int, j int :: {commands[a].Arguments[i], commands[b].Arguments[j]} 0 <= a && a < $i && 0 <= b && b < $i && 0 <= i && i < len(commands[a].Arguments) && 0 <= j && j < len(commands[b].Arguments) && rsGrp(commands[a], commands[b]) && commands[a].Arguments[i] == commands[b].Arguments[j] ==> a == b && i == j
  loop 2
    invariant len(result.Nodes) >= 0 && ($i > 0 ==> len(result.Nodes) > 0)
    invariant forall i int, j int :: {commands[$i0].Arguments[i], commands[$i0].Arguments[j]} 0 <= i && i < $i && 0 <= j && j < $i && commands[$i0].Arguments[i] == commands[$i0].Arguments[j] ==> i == j
    invariant forall b int, i int, j int :: {commands[$i0].Arguments[i], commands[b].Arguments[j]} 0 <= b && b < $i0 && 0 <= i && i < $i && 0 <= j && j < len(commands[b].Arguments) && rsGrp(commands[b], commands[$i0]) ==> commands[$i0].Arguments[i] != commands[b].Arguments[j]
    invariant fresh(specialNodes) && fresh(result.Nodes) && result.Tokens == nil && result.Literals == nil
    invariant commands[$i0].Command == "node" && len(commands[$i0].Arguments) > 0
    invariant forall f string :: {has(result.Nodes, f)} has(result.Nodes, f) == (names(commands, $i0, "node", f) || namesIn(commands[$i0], $i, "node", f))
  loop 3
    invariant forall i int, j int :: {commands[$i0].Arguments[i], commands[$i0].Arguments[j]} 0 <= i && i < $i && 0 <= j && j < $i && commands[$i0].Arguments[i] == commands[$i0].Arguments[j] ==> i == j
    invariant forall b int, i int, j int :: {commands[$i0].Arguments[i], commands[b].Arguments[j]} 0 <= b && b < $i0 && 0 <= i && i < $i && 0 <= j && j < len(commands[b].Arguments) && rsGrp(commands[b], commands[$i0]) ==> commands[$i0].Arguments[i] != commands[b].Arguments[j]
    invariant fresh(specialNodes) && fresh(result.Nodes) && result.Tokens == nil && result.Literals == nil
    invariant (commands[$i0].Command == "allow-in" || commands[$i0].Command == "forbid-in") && len(commands[$i0].Arguments) > 0 && allow == (commands[$i0].Command == "allow-in")
    invariant forall f string :: {has(specialNodes, f)} has(specialNodes, f) == (names(commands, $i0, "allow-in", f) || names(commands, $i0, "forbid-in", f) || namesIn(commands[$i0], $i, "allow-in", f) || namesIn(commands[$i0], $i, "forbid-in", f))
    invariant forall f string :: {has(specialNodes, f)} has(specialNodes, f) ==> specialNodes[f] == (names(commands, $i0, "allow-in", f) || namesIn(commands[$i0], $i, "allow-in", f))

package parser/layers/convert

func Setup$1(ctx, token, tc)
  props C20
  returns emit, extra, err
  requires token != nil && replaces != nil
  let hit = has(replaces, ttext(token))
  ensures err == nil && emit == !hit && (!hit ==> len(extra) == 0)
  ensures hit ==> len(extra) == 1 && fresh(extra) && extra[0] != nil && fresh(extra[0])
  ensures hit ==> extra[0].content == replaces[ttext(token)]
  ensures hit ==> extra[0].tokenType == (dynamicType ? token.tokenType : outputType)
  ensures hit ==> extra[0].typeName == (dynamicType ? token.typeName : outputTypeName)
  ensures hit && savePosition ==> extra[0].pos.src == token.pos.src && extra[0].pos.pos == token.pos.pos
  ensures hit && !savePosition ==> extra[0].pos.src == nil && extra[0].pos.pos == 0
  modifies nothing

def cpairs(c grammar.LayerCommand) int = len(c.Arguments)
def cvKnown(c grammar.LayerCommand) bool = c.Command == "convert" || c.Command == "input-type" || c.Command == "output-type" || c.Command == "save-position"
def btext(b []byte) string = mkstr(elems(b), off(b), len(b))
def even(i int) bool = i % 2 == 0
# a pair of one of the first n convert commands
def pairOf(cmds []grammar.LayerCommand, n int, f string) bool = exists a int, i int :: {cmds[a].Arguments[i]} 0 <= a && a < n && cmds[a].Command == "convert" && 0 <= i && i < len(cmds[a].Arguments) && even(i) && cmds[a].Arguments[i] == f

def pairIn(c grammar.LayerCommand, n int, f string) bool = exists i int :: {c.Arguments[i]} 0 <= i && i < n && i < len(c.Arguments) && even(i) && c.Arguments[i] == f
def noCv(cmds []grammar.LayerCommand, n int, name string) bool = forall a int :: {cmds[a].Command} 0 <= a && a < n ==> cmds[a].Command != name

def cvPos(c grammar.LayerCommand, i int) bool = c.Command == "convert" && 0 <= i && i < len(c.Arguments) && even(i)
# no text is converted twice
def cvNoDup(cmds []grammar.LayerCommand, n int) bool = forall a int, i int, b int, j int :: {cmds[a].Arguments[i], cmds[b].Arguments[j]} 0 <= a && a < n && 0 <= b && b < n && cvPos(cmds[a], i) && cvPos(cmds[b], j) && cmds[a].Arguments[i] == cmds[b].Arguments[j] ==> a == b && i == j
def cvArgs(p *parser.Parser, c grammar.LayerCommand) bool = (c.Command == "convert" ==> len(c.Arguments) > 0 && even(len(c.Arguments))) && (c.Command == "save-position" ==> len(c.Arguments) == 0) && (c.Command == "input-type" || c.Command == "output-type" ==> len(c.Arguments) == 1 && has(p.tokenNames, c.Arguments[0]))
def cvAllOk(p *parser.Parser, cmds []grammar.LayerCommand) bool = forall a int :: {cmds[a].Command} {cmds[a].Arguments} 0 <= a && a < len(cmds) ==> cvKnown(cmds[a]) && cvArgs(p, cmds[a])
def cvOnce(cmds []grammar.LayerCommand, name string) bool = forall a int, b int :: {cmds[a].Command, cmds[b].Command} 0 <= a && a < b && b < len(cmds) && cmds[a].Command == name ==> cmds[b].Command != name

func (template).Setup(t, commands, p)
  props C20
  returns hl, err
  requires tnames(p)
  # a definition is rejected only if it breaks a rule
  ensures err != nil ==> !cvAllOk(p, commands) || noCv(commands, len(commands), "convert") || !cvOnce(commands, "input-type") || !cvOnce(commands, "output-type") || !cvNoDup(commands, len(commands))
  ensures err == nil ==> cvNoDup(commands, len(commands))
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) && commands[a].Command == "save-position" ==> len(commands[a].Arguments) == 0
  ensures err == nil ==> typeis(hl, layer)
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) ==> cvKnown(commands[a])
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) && commands[a].Command == "convert" ==> len(commands[a].Arguments) > 0 && even(len(commands[a].Arguments))
  ensures err == nil ==> forall a int, i int :: {commands[a].Arguments[i]} 0 <= a && a < len(commands) && commands[a].Command == "convert" && 0 <= i && i < len(commands[a].Arguments) && even(i) ==> has(replaces, commands[a].Arguments[i]) && btext(replaces[commands[a].Arguments[i]]) == commands[a].Arguments[i+1]
  # nothing else is converted
  ensures err == nil ==> forall f string :: {has(replaces, f)} has(replaces, f) ==> pairOf(commands, len(commands), f)
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) && commands[a].Command == "input-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == inputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, inputTypeName)
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) && commands[a].Command == "output-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == outputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, outputTypeName)
  ensures err == nil && noCv(commands, len(commands), "input-type") ==> inputTypeName == ""
  ensures err == nil && noCv(commands, len(commands), "output-type") ==> outputTypeName == inputTypeName
  ensures err == nil ==> savePosition == !noCv(commands, len(commands), "save-position")
  ensures err == nil ==> dynamicType == (outputTypeName == "") && (!dynamicType ==> has(p.tokenNames, outputTypeName) && outputType == p.tokenNames[outputTypeName])
  ensures err == nil ==> forall n string :: {has(cast(hl, layer).Tokens, n)} has(cast(hl, layer).Tokens, n) == (n == inputTypeName)
  ensures err == nil ==> !noCv(commands, len(commands), "convert")
  modifies nothing
  loop 1
    invariant fresh(replaces)
    invariant cvNoDup(commands, $i)
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i && commands[a].Command == "save-position" ==> len(commands[a].Arguments) == 0
    invariant forall f string :: {has(replaces, f)} has(replaces, f) ==> pairOf(commands, $i, f)
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i && commands[a].Command == "input-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == inputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, inputTypeName)
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i && commands[a].Command == "output-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == outputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, outputTypeName)
    invariant (inputTypeName == "" || has(p.tokenNames, inputTypeName)) && (outputTypeName == "" || has(p.tokenNames, outputTypeName))
    invariant noCv(commands, $i, "input-type") ==> inputTypeName == ""
    invariant noCv(commands, $i, "output-type") ==> outputTypeName == ""
    invariant savePosition == !noCv(commands, $i, "save-position")
    invariant !gotReplaces == noCv(commands, $i, "convert")
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i ==> cvKnown(commands[a])
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i && commands[a].Command == "convert" ==> len(commands[a].Arguments) > 0 && even(len(commands[a].Arguments))
    invariant forall a int, i int :: {commands[a].Arguments[i]} 0 <= a && a < $i && commands[a].Command == "convert" && 0 <= i && i < len(commands[a].Arguments) && even(i) ==> has(replaces, commands[a].Arguments[i]) && btext(replaces[commands[a].Arguments[i]]) == commands[a].Arguments[i+1]
  loop 2
    invariant fresh(replaces)
    invariant forall j int, k int :: {commands[$i0].Arguments[j], commands[$i0].Arguments[k]} 0 <= j && j < i && 0 <= k && k < i && even(j) && even(k) && commands[$i0].Arguments[j] == commands[$i0].Arguments[k] ==> j == k
    invariant forall b int, j int, k int :: {commands[$i0].Arguments[j], commands[b].Arguments[k]} 0 <= b && b < $i0 && 0 <= j && j < i && even(j) && cvPos(commands[b], k) ==> commands[$i0].Arguments[j] != commands[b].Arguments[k]
    invariant forall f string :: {has(replaces, f)} has(replaces, f) ==> pairOf(commands, $i0, f) || pairIn(commands[$i0], i, f)
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i0 && commands[a].Command == "input-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == inputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, inputTypeName)
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i0 && commands[a].Command == "output-type" ==> len(commands[a].Arguments) == 1 && (commands[a].Arguments[0] == outputTypeName || commands[a].Arguments[0] == "") && has(p.tokenNames, outputTypeName)
    invariant (inputTypeName == "" || has(p.tokenNames, inputTypeName)) && (outputTypeName == "" || has(p.tokenNames, outputTypeName))
    invariant noCv(commands, $i0, "input-type") ==> inputTypeName == ""
    invariant noCv(commands, $i0, "output-type") ==> outputTypeName == ""
    invariant savePosition == !noCv(commands, $i0, "save-position")
    invariant gotReplaces && commands[$i0].Command == "convert"
    invariant 0 <= i && even(i) && even(l) && l == len(commands[$i0].Arguments)
    invariant forall a int, i int :: {commands[a].Arguments[i]} 0 <= a && a < $i0 && commands[a].Command == "convert" && 0 <= i && i < len(commands[a].Arguments) && even(i) ==> has(replaces, commands[a].Arguments[i]) && btext(replaces[commands[a].Arguments[i]]) == commands[a].Arguments[i+1]
    invariant forall j int :: {commands[$i0].Arguments[j]} 0 <= j && j < i && even(j) ==> has(replaces, commands[$i0].Arguments[j]) && btext(replaces[commands[$i0].Arguments[j]]) == commands[$i0].Arguments[j+1]

package parser/layers/indent

spec same(a [0]byte, o int, b [0]byte, bo int, n int) bool = (forall j int :: {a[j]} o <= j && j < o + n ==> a[j] == b[j-o+bo]) && (forall j int :: {b[j]} bo <= j && j < bo + n ==> a[j-bo+o] == b[j])
def pfx(a []byte, b []byte) bool = len(a) <= len(b) && same(elems(a), off(a), elems(b), off(b), len(a))
# saved indentations are prefixes of each other, each longer than the one before, the first is empty
def iswf(ls *layerState) bool = (len(ls.indentStack) == 0 ==> len(ls.validIndent) == 0) && (len(ls.indentStack) > 0 ==> len(ls.indentStack[0]) == 0 && len(ls.indentStack[len(ls.indentStack)-1]) < len(ls.validIndent)) && (forall i int, j int :: {elems(ls.indentStack)[i], elems(ls.indentStack)[j]} off(ls.indentStack) <= i && i < j && j < off(ls.indentStack) + len(ls.indentStack) ==> len(elems(ls.indentStack)[i]) < len(elems(ls.indentStack)[j])) && (forall i int :: {elems(ls.indentStack)[i]} off(ls.indentStack) <= i && i < off(ls.indentStack) + len(ls.indentStack) ==> pfx(elems(ls.indentStack)[i], ls.validIndent)) && ls.state >= 0 && ls.state <= 5
def lswf(ls *layerState) bool = ls != nil && iswf(ls) && ls.parser != nil && ls.parser.tokenNames != nil && has(ls.parser.tokenNames, ls.indentType) && has(ls.parser.tokenNames, ls.dedentType) && (forall i int :: {ls.roles[i]} 0 <= i && i < len(ls.roles) ==> ls.roles[i] >= 0 && ls.roles[i] <= 2)

# what the current indentation means: n bytes at o of a, given the valid indentation (bn bytes at bo of b) and m saved ones
spec vd(a [0]byte, o int, n int, b [0]byte, bo int, bn int, stk [0][]byte, so int, m int) int = n > bn ? (same(a, o, b, bo, bn) ? 1 : 3) : !same(a, o, b, bo, n) ? 3 : n == bn ? 0 : (exists i int :: {stk[i]} so <= i && i < so + m && len(stk[i]) == n) ? 2 : 3
def verdict(ls *layerState) int = vd(elems(ls.currentIndent), off(ls.currentIndent), len(ls.currentIndent), elems(ls.validIndent), off(ls.validIndent), len(ls.validIndent), elems(ls.indentStack), off(ls.indentStack), len(ls.indentStack))

def roleOf(ls *layerState, t *lexer.Token) int = t.tokenType == -3 ? 4 : t.tokenType < 0 || len(t.content) == 0 ? 3 : t.tokenType < len(ls.roles) ? ls.roles[t.tokenType] : 0

func (*layerState).role(ls, tok)
  props C22
  requires ls != nil && tok != nil
  ensures result == roleOf(ls, tok)
  modifies nothing

# where the last line of a token starts
def lastLine(c []byte) int = lstart(elems(c), off(c), off(c) + len(c))
def hasNl(c []byte) bool = lastLine(c) > off(c)

func (*layerState).stripNl(ls, content)
  props C22
  returns rest, found
  ensures obj(rest) == obj(content) && off(rest) == lastLine(content) && off(rest) + len(rest) == off(content) + len(content) && len(rest) <= len(content)
  ensures found == hasNl(content)
  modifies nothing
  apply lstartIs(elems(content), off(content), off(rest), off(content) + len(content))

func (*layerState).adjustIndent(ls, content)
  props C22
  requires lswf(ls)
  let old0 = old(ls.currentIndent)
  modifies ls.currentIndent
  ensures len(ls.currentIndent) == len(old0) + len(content)
  ensures forall i int :: {ls.currentIndent[i]} 0 <= i && i < len(old0) ==> ls.currentIndent[i] == old(ls.currentIndent[i])
  ensures forall i int :: {content[i]} 0 <= i && i < len(content) ==> ls.currentIndent[len(old0) + i] == content[i]
  ensures result == verdict(ls)
  ensures len(old0) == 0 ==> ls.currentIndent == content
  loop 1
    invariant forall j int :: {elems(ls.indentStack)[j]} off(ls.indentStack) + i < j && j < off(ls.indentStack) + len(ls.indentStack) ==> len(elems(ls.indentStack)[j]) != currentLen
    invariant -1 <= i && i < len(ls.indentStack)

def inds(t *parser.Token, ls *layerState, name string) bool = t != nil && fresh(t) && t.typeName == name && t.tokenType == ls.parser.tokenNames[name] && len(t.content) == 0 && t.pos.src == nil

# the waiting spaces, then the given tokens
func (*layerState).pad(ls, tokens)
  props C22
  requires ls != nil
  let n = old(len(ls.spaces))
  modifies ls.spaces, arr(ls.spaces)
  ensures len(ls.spaces) == 0 && (cap(ls.spaces) > 0 ==> obj(ls.spaces) == old(obj(ls.spaces)))
  ensures len(result) == n + len(tokens)
  ensures obj(result) == old(obj(ls.spaces)) || fresh(result) || len(result) == 0
  ensures forall j int :: {elems(result)[j]} off(result) <= j && j < off(result) + n ==> elems(result)[j] == old(elems(ls.spaces))[j - off(result) + old(off(ls.spaces))]
  ensures obj(tokens) != old(obj(ls.spaces)) ==> forall j int :: {elems(result)[j]} off(result) + n <= j && j < off(result) + n + len(tokens) ==> elems(result)[j] == tokens[j - off(result) - n]

# one indent token, the waiting spaces and the given tokens
func (*layerState).indent(ls, tokens)
  props C22
  returns res, err
  requires lswf(ls) && verdict(ls) == 1 && obj(tokens) != obj(ls.spaces)
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  modifies ls.spaces, arr(ls.spaces), ls.indentStack, arr(ls.indentStack), ls.validIndent
  ensures lswf(ls) && err == nil && len(ls.spaces) == 0
  ensures len(res) == 1 + n + len(tokens) && inds(res[0], ls, ls.indentType)
  ensures forall i int :: {res[i]} 1 <= i && i < 1 + n ==> res[i] == old(ls.spaces[i-1])
  ensures forall i int :: {tokens[i]} 0 <= i && i < len(tokens) ==> res[1+n+i] == tokens[i]
  ensures len(ls.indentStack) == m + 1 && ls.validIndent == ls.currentIndent && ls.indentStack[m] == old(ls.validIndent)
  ensures forall i int :: {ls.indentStack[i]} 0 <= i && i < m ==> ls.indentStack[i] == old(ls.indentStack[i])

def deds(t *parser.Token, ls *layerState) bool = inds(t, ls, ls.dedentType)

# a dedent token for every indentation that ends, the waiting spaces and the given tokens
func (*layerState).dedent(ls, tokens)
  props C22
  returns res, err
  requires lswf(ls) && verdict(ls) == 2 && obj(tokens) != obj(ls.spaces)
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  let oldStk = old(elems(ls.indentStack))
  let oldOff = old(off(ls.indentStack))
  let oldSp = old(elems(ls.spaces))
  let oldSpOff = old(off(ls.spaces))
  modifies ls.spaces, arr(ls.spaces), ls.indentStack, ls.validIndent
  ensures lswf(ls) && err == nil && len(ls.spaces) == 0
  ensures 0 <= len(ls.indentStack) && len(ls.indentStack) < m && len(oldStk[oldOff + len(ls.indentStack)]) == len(ls.currentIndent)
  ensures len(res) == m - len(ls.indentStack) + n + len(tokens)
  ensures forall i int :: {res[i]} 0 <= i && i < m - len(ls.indentStack) ==> deds(res[i], ls)
  ensures forall i int :: {res[m-len(ls.indentStack)+i]} 0 <= i && i < n ==> res[m-len(ls.indentStack)+i] == old(ls.spaces[i])
  ensures n > 0 ==> res[m-len(ls.indentStack)+n-1] == oldSp[oldSpOff+n-1]
  ensures forall i int :: {tokens[i]} 0 <= i && i < len(tokens) ==> res[m-len(ls.indentStack)+n+i] == tokens[i]
  ensures len(tokens) > 0 ==> res[m-len(ls.indentStack)+n] == tokens[0]
  ensures ls.validIndent == ls.currentIndent
  ensures obj(ls.indentStack) == old(obj(ls.indentStack)) && off(ls.indentStack) == old(off(ls.indentStack))
  loop 1
    invariant -1 <= i && i < m && len(result) == m - 1 - i && ls.indentStack == old(ls.indentStack) && (cap(result) == 0 || fresh(result))
    invariant forall j int :: {elems(ls.indentStack)[j]} off(ls.indentStack) + i < j && j < off(ls.indentStack) + m ==> len(elems(ls.indentStack)[j]) != l
    invariant forall j int :: {elems(ls.spaces)[j]} elems(ls.spaces)[j] == old(elems(ls.spaces)[j])
    invariant forall j int :: {elems(tokens)[j]} elems(tokens)[j] == old(elems(tokens)[j])
    invariant forall j int :: {result[j]} 0 <= j && j < len(result) ==> deds(result[j], ls)

# state fits the indentation seen so far
def stok(ls *layerState) bool = ls.state <= 3 ==> ls.state == verdict(ls)

func (*layerState).handleCommon(ls, tok)
  props C22
  returns emit, res, err
  requires lswf(ls) && stok(ls) && tok != nil && (tok.pos.src != nil ==> swf(tok.pos.src))
  let st = old(ls.state)
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  let oldStk = old(elems(ls.indentStack))
  let oldOff = old(off(ls.indentStack))
  let oldSp = old(elems(ls.spaces))
  let oldSpOff = old(off(ls.spaces))
  modifies ls.spaces, arr(ls.spaces), ls.indentStack, arr(ls.indentStack), ls.validIndent, ls.state, tok.pos.src != nil ? tok.pos.src.prevLineIndex : nothing
  ensures lswf(ls) && stok(ls)
  ensures emit == (st == 5) && (st == 5 ==> len(res) == 0 && err == nil && ls.spaces == old(ls.spaces) && ls.indentStack == old(ls.indentStack) && ls.validIndent == old(ls.validIndent))
  ensures st <= 2 ==> err == nil && ls.state == 5 && len(ls.spaces) == 0
  ensures st == 3 || st == 4 ==> lerr(err, 407)
  ensures st >= 3 ==> ls.state == st
  ensures st == 0 || st == 3 || st == 4 ==> len(res) == n + 1 && ls.indentStack == old(ls.indentStack) && ls.validIndent == old(ls.validIndent) && res[n] == tok
  ensures st == 0 ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures st == 3 || st == 4 ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures st == 1 ==> len(res) == 2 + n && inds(res[0], ls, ls.indentType) && res[1+n] == tok
  ensures st == 1 ==> forall i int :: {res[1+i]} 0 <= i && i < n ==> res[1+i] == old(ls.spaces[i])
  ensures st == 1 ==> len(ls.indentStack) == m + 1 && ls.validIndent == ls.currentIndent && ls.indentStack[m] == old(ls.validIndent)
  ensures st == 1 ==> forall i int :: {ls.indentStack[i]} 0 <= i && i < m ==> ls.indentStack[i] == old(ls.indentStack[i])
  ensures st == 2 ==> 0 <= len(ls.indentStack) && len(ls.indentStack) < m && len(oldStk[oldOff + len(ls.indentStack)]) == len(ls.currentIndent)
  ensures st == 2 ==> len(res) == m - len(ls.indentStack) + n + 1
  ensures st == 2 ==> res[m-len(ls.indentStack)+n] == tok
  ensures st == 2 ==> forall i int :: {res[i]} 0 <= i && i < m - len(ls.indentStack) ==> deds(res[i], ls)
  ensures st == 2 ==> forall i int :: {res[m-len(ls.indentStack)+i]} 0 <= i && i < n ==> res[m-len(ls.indentStack)+i] == old(ls.spaces[i])
  ensures st == 2 ==> ls.validIndent == ls.currentIndent && obj(ls.indentStack) == old(obj(ls.indentStack)) && off(ls.indentStack) == old(off(ls.indentStack))

# the token PeekToken is going to return: can it not be read, and is it a token the layer has no special role for
def reads(tc *parser.TokenContext) bool = tc.tokenFetched || tc.peekDistance >= waiting(tc.pc, tc.layer + 1)
def nextK(tc *parser.TokenContext) int = firstYield(tc.pc.parser, tc.pc.sources.source, tc.pc.sources.pos, 18446744073709551615, 0)
def nextBad(tc *parser.TokenContext) bool = reads(tc) && nextK(tc) < 0
def com(ls *layerState, ty int, ln int) bool = ty >= 0 && ln != 0 && (ty < len(ls.roles) ==> ls.roles[ty] == 0)
def lexCom(ls *layerState, l *lexer.Lexer, s *source.Source, p int, j int) bool = com(ls, l.types[j-1].Type, rmAt(l.re, A(s), p, E(s), 2*j+1) - rmAt(l.re, A(s), p, E(s), 2*j))
def srcCom(ls *layerState, l *lexer.Lexer, s *source.Source, pos int) bool = s != nil && tokPos(l, s, pos) < E(s) && lexCom(ls, l, s, tokPos(l, s, pos), selAt(l, s, pos, 18446744073709551615))
def tokCom(ls *layerState, t *lexer.Token) bool = t != nil && com(ls, t.tokenType, len(t.content))
def nextCom(ls *layerState, tc *parser.TokenContext) bool = reads(tc) ? srcCom(ls, tc.pc.parser.lexers[nextK(tc)], tc.pc.sources.source, tc.pc.sources.pos) : tokCom(ls, waitingTok(tc.pc, tc.layer + 1, tc.peekDistance))

def tcok(tc *parser.TokenContext) bool = tc != nil && tc.pc != nil && plx(tc.pc.parser) && squ(tc.pc.sources) && layers(tc.pc) && -1 <= tc.layer && tc.layer < 1048576 && 0 <= tc.peekDistance && tc.peekDistance < 1048576 && (tc.tokenFetched ==> snapok(tc.snap) && obj(tc.snap.items) != obj(tc.pc.sources.q.items))

# side tokens at the start of a line are allowed only if there is nothing but them there
func (*layerState).handleSide(ls, tok, tc)
  props C22
  returns emit, res, err
  requires lswf(ls) && stok(ls) && tok != nil && (tok.pos.src != nil ==> swf(tok.pos.src)) && tcok(tc)
  let st = old(ls.state)
  let n = old(len(ls.spaces))
  let oldSp = old(elems(ls.spaces))
  let oldSpOff = old(off(ls.spaces))
  let q = tc.pc.sources
  let s = q.source
  let bad = nextBad(tc)
  let nc = nextCom(ls, tc)
  modifies ls.spaces, arr(ls.spaces), ls.state, tok.pos.src != nil ? tok.pos.src.prevLineIndex : nothing
  modifies tc.peekDistance, tc.snap, tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures lswf(ls) && stok(ls)
  ensures st == 5 ==> emit && len(res) == 0 && err == nil && ls.state == 5 && ls.spaces == old(ls.spaces)
  ensures st != 5 ==> !emit && ls.state == 4 && (err != nil) == (bad || nc)
  ensures st != 5 && !bad && nc ==> lerr(err, 407) && len(res) == 0
  ensures st != 5 && (bad || !nc) ==> len(res) == n + 1 && res[n] == tok && len(ls.spaces) == 0
  ensures st != 5 && (bad || !nc) ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]

def newVd(ls *layerState, val []byte, stk [0][]byte, so int, m int) int = vd(elems(ls.currentIndent), off(ls.currentIndent), len(ls.currentIndent), elems(val), off(val), len(val), stk, so, m)
# spaces change the current indentation unless they follow something in the line
func (*layerState).handleSpace(ls, tok, tc)
  props C22
  returns emit, res, err
  requires lswf(ls) && stok(ls) && tok != nil && (tok.pos.src != nil ==> swf(tok.pos.src)) && tcok(tc)
  let st = old(ls.state)
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  let oldStk = old(elems(ls.indentStack))
  let oldOff = old(off(ls.indentStack))
  let oldSp = old(elems(ls.spaces))
  let oldSpOff = old(off(ls.spaces))
  let oldInd = old(ls.currentIndent)
  let oldIndEl = old(elems(ls.currentIndent))
  let oldVal = old(ls.validIndent)
  let q = tc.pc.sources
  let s = q.source
  let bad = nextBad(tc)
  let nc = nextCom(ls, tc)
  let nl = hasNl(tok.content)
  let skip = !nl && st == 5
  let keep = !nl && st >= 4
  let last = lastLine(tok.content)
  let lastLen = off(tok.content) + len(tok.content) - last
  modifies ls.currentIndent, ls.indentStack, arr(ls.indentStack), ls.validIndent
  modifies ls.spaces, arr(ls.spaces), ls.state, tok.pos.src != nil ? tok.pos.src.prevLineIndex : nothing
  modifies tc.peekDistance, tc.snap, tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures lswf(ls) && stok(ls)
  ensures emit == skip
  # after something in the line: nothing changes
  ensures skip ==> len(res) == 0 && err == nil && ls.state == 5 && ls.spaces == old(ls.spaces) && ls.currentIndent == old(ls.currentIndent) && ls.validIndent == old(ls.validIndent) && ls.indentStack == old(ls.indentStack)
  # the indentation of the line: the text after the last newline, or after that of the tokens before
  ensures nl ==> obj(ls.currentIndent) == obj(tok.content) && off(ls.currentIndent) == last && len(ls.currentIndent) == lastLen
  ensures keep ==> ls.currentIndent == old(ls.currentIndent)
  ensures !nl && st < 4 ==> len(ls.currentIndent) == len(oldInd) + len(tok.content)
  ensures !nl && st < 4 ==> forall i int :: {ls.currentIndent[i]} 0 <= i && i < len(oldInd) ==> ls.currentIndent[i] == oldInd[i]
  ensures !nl && st < 4 ==> forall i int :: {tok.content[i]} 0 <= i && i < len(tok.content) ==> ls.currentIndent[len(oldInd) + i] == tok.content[i]
  # the next token decides whether the line is not empty
  ensures bad ==> (skip || err != nil && len(res) == 0)
  ensures !skip && !bad && !nc ==> err == nil && len(res) == 0 && ls.validIndent == old(ls.validIndent) && ls.indentStack == old(ls.indentStack) && ls.state == (!nl && st == 4 ? 4 : verdict(ls))
  # no more tokens in the line: the spaces wait
  ensures !skip && !bad && !nc ==> len(ls.spaces) == n + 1 && ls.spaces[n] == tok
  ensures !skip && !bad && !nc ==> forall j int :: {elems(ls.spaces)[j]} off(ls.spaces) <= j && j < off(ls.spaces) + n ==> elems(ls.spaces)[j] == oldSp[oldSpOff + j - off(ls.spaces)]
  # the line is not empty: the outcome depends on its indentation
  ensures !skip && !bad && nc ==> len(ls.spaces) == 0 && (err == nil ==> ls.state == 5) && (err != nil ==> lerr(err, 407))
  ensures !skip && !bad && nc ==> (err != nil) == (keep || newVd(ls, oldVal, oldStk, oldOff, m) == 3)
  ensures !skip && !bad && nc && keep ==> len(res) == n + 1 && res[n] == tok && ls.indentStack == old(ls.indentStack) && ls.validIndent == oldVal
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 0 ==> len(res) == n + 1 && res[n] == tok && ls.indentStack == old(ls.indentStack) && ls.validIndent == oldVal
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 3 ==> len(res) == n + 1 && res[n] == tok && ls.indentStack == old(ls.indentStack) && ls.validIndent == oldVal
  ensures !skip && !bad && nc && keep && old(cap(ls.spaces)) > n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && keep && old(cap(ls.spaces)) <= n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 0 && old(cap(ls.spaces)) > n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 0 && old(cap(ls.spaces)) <= n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 3 && old(cap(ls.spaces)) > n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 3 && old(cap(ls.spaces)) <= n ==> forall j int :: {elems(res)[j]} off(res) <= j && j < off(res) + n ==> elems(res)[j] == oldSp[oldSpOff + j - off(res)]
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 1 ==> len(res) == 2 + n && inds(res[0], ls, ls.indentType) && res[1+n] == tok
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 1 ==> len(ls.indentStack) == m + 1 && ls.validIndent == ls.currentIndent && ls.indentStack[m] == oldVal
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 2 ==> 0 <= len(ls.indentStack) && len(ls.indentStack) < m && len(oldStk[oldOff + len(ls.indentStack)]) == len(ls.currentIndent) && ls.validIndent == ls.currentIndent
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 2 ==> len(res) == m - len(ls.indentStack) + n + 1
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 2 ==> res[m-len(ls.indentStack)+n] == tok
  ensures !skip && !bad && nc && !keep && newVd(ls, oldVal, oldStk, oldOff, m) == 2 ==> forall i int :: {res[i]} 0 <= i && i < m - len(ls.indentStack) ==> deds(res[i], ls)
func (*layerState).handleEoi(ls, tok)
  props C22
  returns res, err
  requires lswf(ls) && tok != nil
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  modifies ls.spaces, arr(ls.spaces)
  ensures err == nil && len(ls.spaces) == 0 && len(res) == m + n + 1 && (forall i int :: {res[i]} 0 <= i && i < m ==> deds(res[i], ls))
  ensures forall i int :: {res[m+i]} 0 <= i && i < n ==> res[m+i] == old(ls.spaces[i])
  ensures res[m+n] == tok
  loop 1
    invariant len(result) == $i && (cap(result) == 0 || fresh(result))
    invariant forall j int :: {elems(ls.spaces)[j]} elems(ls.spaces)[j] == old(elems(ls.spaces)[j])
    invariant forall j int :: {result[j]} 0 <= j && j < len(result) ==> deds(result[j], ls)

def isRole(ls *layerState, t *lexer.Token, r int) bool = roleOf(ls, t) == r

func (*layerState).handle(ls, tok, tc)
  props C22
  returns emit, res, err
  requires lswf(ls) && stok(ls) && tok != nil && (tok.pos.src != nil ==> swf(tok.pos.src)) && tcok(tc)
  let st = old(ls.state)
  let n = old(len(ls.spaces))
  let m = old(len(ls.indentStack))
  let q = tc.pc.sources
  let s = q.source
  let bad = nextBad(tc)
  let nc = nextCom(ls, tc)
  let r = roleOf(ls, tok)
  let nl = hasNl(tok.content)
  modifies ls.currentIndent, ls.indentStack, arr(ls.indentStack), ls.validIndent
  modifies ls.spaces, arr(ls.spaces), ls.state, tok.pos.src != nil ? tok.pos.src.prevLineIndex : nothing
  modifies tc.peekDistance, tc.snap, tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures lswf(ls) && (r != 4 ==> stok(ls))
  # special tokens and tokens without text are not for this layer
  ensures r == 3 ==> emit && len(res) == 0 && err == nil && ls.state == st && ls.spaces == old(ls.spaces) && ls.indentStack == old(ls.indentStack) && ls.validIndent == old(ls.validIndent) && ls.currentIndent == old(ls.currentIndent)
  # the end of input: a dedent token for every open indentation
  ensures r == 4 ==> !emit && err == nil && len(res) == m + n + 1 && res[m+n] == tok
  ensures r == 4 ==> forall i int :: {res[i]} 0 <= i && i < m ==> deds(res[i], ls)
  # nothing changes inside a line
  ensures st == 5 && (r == 0 || r == 2 || r == 1 && !nl) ==> emit && len(res) == 0 && err == nil && ls.state == 5 && ls.indentStack == old(ls.indentStack) && ls.validIndent == old(ls.validIndent)
  # the first token of a line
  ensures r == 0 && st < 5 ==> !emit && (err != nil) == (st >= 3) && (err == nil ==> ls.state == 5)
  ensures r == 0 && st == 0 ==> len(res) == n + 1 && res[n] == tok
  ensures r == 0 && st == 1 ==> len(res) == n + 2 && res[n+1] == tok && inds(res[0], ls, ls.indentType) && len(ls.indentStack) == m + 1
  ensures r == 0 && st == 2 ==> len(ls.indentStack) < m && len(res) == m - len(ls.indentStack) + n + 1
  ensures r == 2 && st != 5 ==> !emit && ls.state == 4 && (err != nil) == (bad || nc)
  ensures r == 1 && (nl || st != 5) && !bad && nc ==> !emit && (err == nil ==> ls.state == 5)
  ensures r == 1 && (nl || st != 5) && !bad && !nc ==> !emit && len(res) == 0 && len(ls.spaces) == n + 1

package parser
func (*Parser).Tokens(p)
  props C22
  requires p != nil && p.grammar != nil
  ensures result == p.grammar.Tokens
  modifies nothing

package parser/layers/indent
func Init$1(a, token, tc)
  props C22
  returns emit, extra, e
  requires lswf(ls) && stok(ls) && token != nil && (token.pos.src != nil ==> swf(token.pos.src)) && tcok(tc)
  let q = tc.pc.sources
  let s = q.source
  let bad = nextBad(tc)
  let nc = nextCom(ls, tc)
  let r = roleOf(ls, token)
  let st = old(ls.state)
  let m = old(len(ls.indentStack))
  let n = old(len(ls.spaces))
  modifies ls.currentIndent, ls.indentStack, arr(ls.indentStack), ls.validIndent
  modifies ls.spaces, arr(ls.spaces), ls.state, token.pos.src != nil ? token.pos.src.prevLineIndex : nothing
  modifies tc.peekDistance, tc.snap, tc.tokenFetched, q.pos, q.source, q.q.items, q.q.size, q.q.head, q.q.tail, arr(q.q.items), s != nil ? s.prevLineIndex : nothing
  ensures lswf(ls) && (r != 4 ==> stok(ls))
  ensures r == 3 ==> emit && len(extra) == 0 && e == nil
  ensures r == 4 ==> !emit && e == nil && len(extra) == m + n + 1 && extra[m+n] == token
  ensures r == 0 && st < 5 ==> !emit && (e != nil) == (st >= 3)
  ensures r == 0 && st == 1 ==> inds(extra[0], ls, ls.indentType) && len(ls.indentStack) == m + 1

# ---- set up ----
def goodTok(p *parser.Parser, n string) bool = has(p.tokenNames, n) && p.tokenNames[n] >= 0
def knownCmd(c grammar.LayerCommand) bool = c.Command == "space" || c.Command == "on-indent" || c.Command == "on-dedent"
def argsOk(p *parser.Parser, c grammar.LayerCommand) bool = (c.Command == "space" ? len(c.Arguments) > 0 : len(c.Arguments) == 1) && (forall j int :: {c.Arguments[j]} 0 <= j && j < len(c.Arguments) ==> goodTok(p, c.Arguments[j]))
def noCmd(cmds []grammar.LayerCommand, n int, name string) bool = forall a int :: {cmds[a].Command} 0 <= a && a < n ==> cmds[a].Command != name
def side(p *parser.Parser, i int) bool = band(p.grammar.Tokens[i].Flags, 4) != 0
# one of the first n commands, or of the first m arguments of the next one, lists a space token of this type
def lists(p *parser.Parser, c grammar.LayerCommand, j int, tt int) bool = c.Command == "space" && has(p.tokenNames, c.Arguments[j]) && p.tokenNames[c.Arguments[j]] == tt
def listed(p *parser.Parser, cmds []grammar.LayerCommand, n int, tt int) bool = exists i int, j int :: {cmds[i].Arguments[j]} 0 <= i && i < n && 0 <= j && j < len(cmds[i].Arguments) && lists(p, cmds[i], j, tt)
def listedIn(p *parser.Parser, c grammar.LayerCommand, m int, tt int) bool = exists j int :: {c.Arguments[j]} 0 <= j && j < m && lists(p, c, j, tt)

func (template).Setup(t, commands, p)
  props C22
  returns hl, err
  requires tnames(p)
  ensures err == nil ==> typeis(hl, *layer) && fresh(cast(hl, *layer)) && cast(hl, *layer).parser == p
  ensures err == nil ==> has(p.tokenNames, cast(hl, *layer).indentType) && p.tokenNames[cast(hl, *layer).indentType] >= 0
  ensures err == nil ==> has(p.tokenNames, cast(hl, *layer).dedentType) && p.tokenNames[cast(hl, *layer).dedentType] >= 0
  ensures err == nil ==> forall i int :: {cast(hl, *layer).roles[i]} 0 <= i && i < len(cast(hl, *layer).roles) ==> 0 <= cast(hl, *layer).roles[i] && cast(hl, *layer).roles[i] <= 2
  ensures err == nil ==> forall k int :: {cast(hl, *layer).roles[k]} 0 <= k && k < len(cast(hl, *layer).roles) ==> (cast(hl, *layer).roles[k] == 1) == listed(p, commands, len(commands), k)
  ensures err == nil ==> forall k int :: {cast(hl, *layer).roles[k]} 0 <= k && k < len(cast(hl, *layer).roles) ==> (cast(hl, *layer).roles[k] == 2) == (k < len(p.grammar.Tokens) && side(p, k) && !listed(p, commands, len(commands), k))
  ensures err == nil ==> forall k int :: {band(p.grammar.Tokens[k].Flags, 4)} 0 <= k && k < len(p.grammar.Tokens) && side(p, k) ==> k < len(cast(hl, *layer).roles)
  ensures err == nil ==> forall a int, b int :: {commands[a].Arguments[b]} 0 <= a && a < len(commands) && 0 <= b && b < len(commands[a].Arguments) && commands[a].Command == "space" ==> has(p.tokenNames, commands[a].Arguments[b]) && p.tokenNames[commands[a].Arguments[b]] < len(cast(hl, *layer).roles)
  # all commands are known, used once and have valid arguments
  ensures err == nil ==> forall a int :: {commands[a].Command} 0 <= a && a < len(commands) ==> knownCmd(commands[a]) && argsOk(p, commands[a])
  ensures err == nil ==> forall a int, b int :: {commands[a].Command, commands[b].Command} 0 <= a && a < b && b < len(commands) ==> commands[a].Command != commands[b].Command
  ensures err == nil ==> !noCmd(commands, len(commands), "space") && !noCmd(commands, len(commands), "on-indent") && !noCmd(commands, len(commands), "on-dedent")
  ensures err != nil ==> noCmd(commands, len(commands), "space") || noCmd(commands, len(commands), "on-indent") || noCmd(commands, len(commands), "on-dedent") || (exists a int, b int :: {commands[a].Command, commands[b].Command} 0 <= a && a < b && b < len(commands) && commands[a].Command == commands[b].Command) || (exists a int :: {commands[a].Command} 0 <= a && a < len(commands) && !(knownCmd(commands[a]) && argsOk(p, commands[a])))
  modifies nothing
  loop 1
    invariant fresh(roleMap) && 0 <= maxType && maxType <= $i
    invariant forall k int :: {band(p.grammar.Tokens[k].Flags, 4)} 0 <= k && k < $i && side(p, k) ==> k <= maxType
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) ==> 0 <= k && k <= maxType && k < $i && roleMap[k] == 2
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) == (0 <= k && k < $i && side(p, k))
  loop 2
    invariant fresh(roleMap) && 0 <= maxType && maxType <= len(p.grammar.Tokens)
    invariant forall k int :: {band(p.grammar.Tokens[k].Flags, 4)} 0 <= k && k < len(p.grammar.Tokens) && side(p, k) ==> k <= maxType
    invariant forall a int, b int :: {commands[a].Arguments[b]} 0 <= a && a < $i && 0 <= b && b < len(commands[a].Arguments) && commands[a].Command == "space" ==> has(p.tokenNames, commands[a].Arguments[b]) && p.tokenNames[commands[a].Arguments[b]] <= maxType
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) ==> 0 <= k && k <= maxType && (roleMap[k] == 2 || roleMap[k] == 1)
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) == (0 <= k && k < len(p.grammar.Tokens) && side(p, k) || listed(p, commands, $i, k))
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) ==> (roleMap[k] == 1) == listed(p, commands, $i, k)
    invariant l.indentType != "" ==> has(p.tokenNames, l.indentType) && p.tokenNames[l.indentType] >= 0
    invariant l.dedentType != "" ==> has(p.tokenNames, l.dedentType) && p.tokenNames[l.dedentType] >= 0
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i ==> knownCmd(commands[a]) && argsOk(p, commands[a])
    invariant forall a int, b int :: {commands[a].Command, commands[b].Command} 0 <= a && a < b && b < $i ==> commands[a].Command != commands[b].Command
    invariant (l.indentType == "") == noCmd(commands, $i, "on-indent") && (l.dedentType == "") == noCmd(commands, $i, "on-dedent")
    invariant !gotSpaces == noCmd(commands, $i, "space")
    invariant l.parser == p && fresh(l)
  loop 3
    invariant fresh(roleMap) && 0 <= maxType && maxType <= len(p.grammar.Tokens)
    invariant forall k int :: {band(p.grammar.Tokens[k].Flags, 4)} 0 <= k && k < len(p.grammar.Tokens) && side(p, k) ==> k <= maxType
    invariant forall a int, b int :: {commands[a].Arguments[b]} 0 <= a && a < $i1 && 0 <= b && b < len(commands[a].Arguments) && commands[a].Command == "space" ==> has(p.tokenNames, commands[a].Arguments[b]) && p.tokenNames[commands[a].Arguments[b]] <= maxType
    invariant forall b int :: {commands[$i1].Arguments[b]} 0 <= b && b < $i ==> has(p.tokenNames, commands[$i1].Arguments[b]) && p.tokenNames[commands[$i1].Arguments[b]] <= maxType
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) ==> 0 <= k && k <= maxType && (roleMap[k] == 2 || roleMap[k] == 1)
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) == (0 <= k && k < len(p.grammar.Tokens) && side(p, k) || (listed(p, commands, $i1, k) || listedIn(p, commands[$i1], $i, k)))
    invariant forall k int :: {has(roleMap, k)} has(roleMap, k) ==> (roleMap[k] == 1) == (listed(p, commands, $i1, k) || listedIn(p, commands[$i1], $i, k))
    invariant forall a int :: {commands[a].Command} 0 <= a && a < $i1 ==> knownCmd(commands[a]) && argsOk(p, commands[a])
    invariant forall a int, b int :: {commands[a].Command, commands[b].Command} 0 <= a && a < b && b < $i1 ==> commands[a].Command != commands[b].Command
    invariant (l.indentType == "") == noCmd(commands, $i1, "on-indent") && (l.dedentType == "") == noCmd(commands, $i1, "on-dedent")
    invariant noCmd(commands, $i1, "space") && gotSpaces && commands[$i1].Command == "space" && forall b int :: {commands[$i1].Arguments[b]} 0 <= b && b < $i ==> goodTok(p, commands[$i1].Arguments[b])
    invariant l.parser == p && fresh(l)
  loop 4
    invariant len(l.roles) == maxType + 1 && fresh(l.roles) && fresh(l) && l.parser == p
    invariant forall k int :: {$visited[k]} $visited[k] ==> has(roleMap, k)
    invariant forall k int :: {l.roles[k]} 0 <= k && k < len(l.roles) ==> has(roleMap, k) == (k < len(p.grammar.Tokens) && side(p, k) || listed(p, commands, len(commands), k))
    invariant forall k int :: {l.roles[k]} 0 <= k && k < len(l.roles) ==> 0 <= l.roles[k] && l.roles[k] <= 2
    invariant forall k int :: {l.roles[k]} 0 <= k && k < len(l.roles) ==> l.roles[k] == ($visited[k] ? roleMap[k] : 0)
