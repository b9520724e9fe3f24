# tree: linked syntax trees. Elements are the two kinds this package creates (elements of other types are outside these contracts).
package tree

def isN(e Element) bool = typeis(e, *nodeElement)
def nd(e Element) *nodeElement = cast(e, *nodeElement)
def tk(e Element) *tokenElement = cast(e, *tokenElement)
def known(e Element) bool = e == Element(nd(e)) && nd(e) != nil && single(nd(e)) || e == Element(tk(e)) && tk(e) != nil && single(tk(e))
def okE(e Element) bool = e == nil || known(e)
def okP(e Element) bool = e == nil || e == Element(nd(e)) && nd(e) != nil && single(nd(e))

def nxt(e Element) Element = isN(e) ? nd(e).next : tk(e).next
def prv(e Element) Element = isN(e) ? nd(e).prev : tk(e).prev
def par(e Element) NodeElement = isN(e) ? nd(e).parent : tk(e).parent

# all links lead to elements of this package
def links() bool = (forall p *nodeElement :: {p.next} allocated(p) && single(p) ==> okE(p.next)) && (forall p *nodeElement :: {p.prev} allocated(p) && single(p) ==> okE(p.prev)) && (forall p *nodeElement :: {p.parent} allocated(p) && single(p) ==> okP(p.parent)) && (forall p *nodeElement :: {p.firstChild} allocated(p) && single(p) ==> okE(p.firstChild)) && (forall p *nodeElement :: {p.lastChild} allocated(p) && single(p) ==> okE(p.lastChild)) && (forall p *tokenElement :: {p.next} allocated(p) && single(p) ==> okE(p.next)) && (forall p *tokenElement :: {p.prev} allocated(p) && single(p) ==> okE(p.prev)) && (forall p *tokenElement :: {p.parent} allocated(p) && single(p) ==> okP(p.parent))

# the children of n, in order, are exactly a[0..m-1], properly linked in both directions
spec kids(n *nodeElement, a [0]Element, m int) bool = m >= 0 && (m == 0 ? n.firstChild == nil && n.lastChild == nil : n.firstChild == a[0] && n.lastChild == a[m-1]) && (forall k int :: {a[k]} 0 <= k && k < m ==> known(a[k]) && par(a[k]) == NodeElement(n) && prv(a[k]) == (k == 0 ? nil : a[k-1]) && nxt(a[k]) == (k == m-1 ? nil : a[k+1])) && (forall k int, j int :: {a[k], a[j]} 0 <= k && k < j && j < m ==> a[k] != a[j])

# b is a with c inserted at j / with the element at j removed
spec insAt(b [0]Element, a [0]Element, m int, j int, c Element) bool = 0 <= j && j <= m && (forall k int :: {b[k]} 0 <= k && k <= m ==> b[k] == (k < j ? a[k] : k == j ? c : a[k-1])) && (forall k int :: {a[k]} 0 <= k && k < m ==> b[k < j ? k : k+1] == a[k])
spec remAt(b [0]Element, a [0]Element, m int, j int) bool = 0 <= j && j < m && (forall k int :: {b[k]} 0 <= k && k < m-1 ==> b[k] == (k < j ? a[k] : a[k+1])) && (forall k int :: {a[k]} 0 <= k && k < m && k != j ==> b[k < j ? k : k-1] == a[k])

def alone(e Element) bool = par(e) == nil && prv(e) == nil && nxt(e) == nil

# ---- accessors ----
iface (Element).IsNode(e)
  props C16 C17 C18
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  ensures result == isN(e)
  modifies nothing

iface (Element).Parent(e)
  props C16 C17 C18
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  ensures result == par(e)
  modifies nothing

iface (Element).Next(e)
  props C16 C17 C18
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  ensures result == nxt(e)
  modifies nothing

iface (Element).Prev(e)
  props C16 C17 C18
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  ensures result == prv(e)
  modifies nothing

iface (Element).SetParent(e, p)
  props C16
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  modifies nd(e).parent, tk(e).parent
  ensures isN(e) ==> nd(e).parent == p && tk(e).parent == old(tk(e).parent)
  ensures !isN(e) ==> tk(e).parent == p && nd(e).parent == old(nd(e).parent)

iface (Element).SetNext(e, n)
  props C16
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  modifies nd(e).next, tk(e).next
  ensures isN(e) ==> nd(e).next == n && tk(e).next == old(tk(e).next)
  ensures !isN(e) ==> tk(e).next == n && nd(e).next == old(nd(e).next)

iface (Element).SetPrev(e, n)
  props C16
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  modifies nd(e).prev, tk(e).prev
  ensures isN(e) ==> nd(e).prev == n && tk(e).prev == old(tk(e).prev)
  ensures !isN(e) ==> tk(e).prev == n && nd(e).prev == old(nd(e).prev)

iface (NodeElement).FirstChild(n)
  props C16 C17 C18
  impls *nodeElement
  trusted elements of types defined outside the package
  opt noalloc
  requires n != nil && okP(n)
  ensures result == nd(n).firstChild
  modifies nothing

iface (NodeElement).LastChild(n)
  props C16 C17 C18
  impls *nodeElement
  trusted elements of types defined outside the package
  opt noalloc
  requires n != nil && okP(n)
  ensures result == nd(n).lastChild
  modifies nothing

# ---- changing a tree ----
iface (NodeElement).AddChild(n, c, before)
  props C16
  impls *nodeElement
  trusted elements of types defined outside the package
  opt noalloc
  requires n != nil && okP(n) && links()
  requires okE(c) && okE(before) && (c != nil ==> alone(c) && c != before)
  let nn = nd(n)
  let acts = c != nil && (before == nil || par(before) == n)
  let pb = prv(before)
  let lc = nd(n).lastChild
  modifies nd(c).parent, tk(c).parent, nd(c).prev, tk(c).prev, nd(c).next, tk(c).next, nd(n).firstChild, nd(n).lastChild, nd(before).prev, tk(before).prev, nd(prv(before)).next, tk(prv(before)).next, nd(nd(n).lastChild).next, tk(nd(n).lastChild).next
  ensures links()
  ensures !acts ==> nn.firstChild == old(nn.firstChild) && nn.lastChild == old(nn.lastChild)
  ensures acts ==> par(c) == n
  ensures acts && before == nil ==> nn.lastChild == c
  ensures c != nil ==> forall x *nodeElement :: {x.prev} {x.next} {x.parent} acts && old(alone(Element(x))) && Element(x) != c && (before == nil ? Element(x) != lc : Element(x) != before && Element(x) != pb) ==> alone(Element(x))
  ensures c != nil ==> forall x *tokenElement :: {x.prev} {x.next} {x.parent} acts && old(alone(Element(x))) && Element(x) != c && (before == nil ? Element(x) != lc : Element(x) != before && Element(x) != pb) ==> alone(Element(x))
  # the new child gets into its place
  ensures acts && before == nil ==> forall a [0]Element, m int, b [0]Element :: {old(kids(nn, a, m)), insAt(b, a, m, m, c)} old(kids(nn, a, m)) && insAt(b, a, m, m, c) ==> kids(nn, b, m+1)
  ensures acts && before != nil ==> forall a [0]Element, m int, b [0]Element, j int :: {old(kids(nn, a, m)), insAt(b, a, m, j, c)} old(kids(nn, a, m)) && a[j] == before && insAt(b, a, m, j, c) && j < m ==> kids(nn, b, m+1)
  # the children of other nodes stay the same
  ensures before == nil ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int :: {old(kids(p, a, m)), old(kids(nn, q, l))} p != nn && old(kids(nn, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  ensures before != nil ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int, j int :: {old(kids(p, a, m)), old(kids(nn, q, l)), q[j]} p != nn && 0 <= j && j < l && q[j] == before && old(kids(nn, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)

iface (NodeElement).RemoveChild(n, c)
  props C16
  impls *nodeElement
  trusted elements of types defined outside the package
  opt noalloc
  requires n != nil && okP(n) && links() && okE(c)
  let nn = nd(n)
  let acts = c != nil && par(c) == n
  modifies nd(c).parent, tk(c).parent, nd(c).prev, tk(c).prev, nd(c).next, tk(c).next, nd(n).firstChild, nd(n).lastChild, nd(prv(c)).next, tk(prv(c)).next, nd(nxt(c)).prev, tk(nxt(c)).prev
  ensures links()
  ensures acts && old(prv(c) != c && nxt(c) != c) ==> alone(c)
  ensures acts && old(prv(c) != c && prv(c) != nil) ==> nxt(old(prv(c))) == old(nxt(c))
  ensures acts && old(nxt(c) != c && nxt(c) != nil && prv(c) != c) ==> prv(old(nxt(c))) == old(prv(c))
  ensures acts && old(nxt(c)) == nil ==> nn.lastChild == old(prv(c))
  ensures acts ==> forall a [0]Element, m int, b [0]Element, j int :: {old(kids(nn, a, m)), remAt(b, a, m, j)} old(kids(nn, a, m)) && a[j] == c && remAt(b, a, m, j) ==> kids(nn, b, m-1)
  ensures acts ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int, j int :: {old(kids(p, a, m)), old(kids(nn, q, l)), q[j]} p != nn && 0 <= j && j < l && q[j] == c && old(kids(nn, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  ensures forall p *nodeElement :: {p.next} Element(p) != c && (!acts || Element(p) != old(prv(c))) ==> p.next == old(p.next)
  ensures forall p *nodeElement :: {p.prev} Element(p) != c && (!acts || Element(p) != old(nxt(c))) ==> p.prev == old(p.prev)
  ensures forall p *nodeElement :: {p.parent} Element(p) != c ==> p.parent == old(p.parent)
  ensures forall p *tokenElement :: {p.next} Element(p) != c && (!acts || Element(p) != old(prv(c))) ==> p.next == old(p.next)
  ensures forall p *tokenElement :: {p.prev} Element(p) != c && (!acts || Element(p) != old(nxt(c))) ==> p.prev == old(p.prev)
  ensures forall p *tokenElement :: {p.parent} Element(p) != c ==> p.parent == old(p.parent)

# moving elements: p is the parent the element el has before (if any), a its children
func Detach(n)
  props C16
  opt noalloc
  requires okE(n) && links()
  let pn = nd(par(n))
  let acts = n != nil && par(n) != nil
  modifies nd(n).parent, tk(n).parent, nd(n).prev, tk(n).prev, nd(n).next, tk(n).next, nd(par(n)).firstChild, nd(par(n)).lastChild, nd(prv(n)).next, tk(prv(n)).next, nd(nxt(n)).prev, tk(nxt(n)).prev
  ensures links()
  ensures acts && old(prv(n) != n && nxt(n) != n) ==> alone(n)
  ensures acts && old(prv(n) != n && prv(n) != nil) ==> nxt(old(prv(n))) == old(nxt(n))
  ensures acts && old(nxt(n) != n && nxt(n) != nil && prv(n) != n) ==> prv(old(nxt(n))) == old(prv(n))
  ensures acts && old(nxt(n)) == nil ==> pn.lastChild == old(prv(n))
  ensures acts ==> forall a [0]Element, m int, b [0]Element, j int :: {old(kids(pn, a, m)), remAt(b, a, m, j)} old(kids(pn, a, m)) && a[j] == n && remAt(b, a, m, j) ==> kids(pn, b, m-1)
  ensures acts ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int, j int :: {old(kids(p, a, m)), old(kids(pn, q, l)), q[j]} p != pn && 0 <= j && j < l && q[j] == n && old(kids(pn, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  ensures !acts ==> n == nil || par(n) == old(par(n)) && prv(n) == old(prv(n)) && nxt(n) == old(nxt(n))
  ensures forall p *nodeElement :: {p.next} Element(p) != n && (!acts || Element(p) != old(prv(n))) ==> p.next == old(p.next)
  ensures forall p *nodeElement :: {p.prev} Element(p) != n && (!acts || Element(p) != old(nxt(n))) ==> p.prev == old(p.prev)
  ensures forall p *nodeElement :: {p.parent} Element(p) != n ==> p.parent == old(p.parent)
  ensures forall p *tokenElement :: {p.next} Element(p) != n && (!acts || Element(p) != old(prv(n))) ==> p.next == old(p.next)
  ensures forall p *tokenElement :: {p.prev} Element(p) != n && (!acts || Element(p) != old(nxt(n))) ==> p.prev == old(p.prev)
  ensures forall p *tokenElement :: {p.parent} Element(p) != n ==> p.parent == old(p.parent)

# an element that can be moved: a child or a root without siblings
def movable(e Element) bool = par(e) != nil && prv(e) != e && nxt(e) != e || alone(e)

func AppendChild(parent, el)
  props C16
  opt noalloc
  requires okP(parent) && okE(el) && links() && (el != nil ==> movable(el))
  let P = nd(parent)
  let Q = nd(par(el))
  let acts = parent != nil && el != nil
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures links()
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  # a new element gets behind the children
  ensures acts && old(par(el) == nil) ==> forall a [0]Element, m int, b [0]Element :: {old(kids(P, a, m)), insAt(b, a, m, m, el)} old(kids(P, a, m)) && insAt(b, a, m, m, el) ==> kids(P, b, m+1)
  ensures acts && old(par(el) == nil) ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int :: {old(kids(p, a, m)), old(kids(P, q, l))} p != P && old(kids(P, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  # a child of another node moves
  ensures acts && old(par(el) != nil && par(el) != parent) ==> forall a [0]Element, m int, b [0]Element, aq [0]Element, l int, bq [0]Element, j int :: {old(kids(P, a, m)), old(kids(Q, aq, l)), insAt(b, a, m, m, el), remAt(bq, aq, l, j)} old(kids(P, a, m)) && old(kids(Q, aq, l)) && aq[j] == el && insAt(b, a, m, m, el) && remAt(bq, aq, l, j) ==> kids(P, b, m+1) && kids(Q, bq, l-1)
  ensures acts && old(par(el) != nil && par(el) != parent) ==> forall a [0]Element, m int, aq [0]Element, l int, j int, p *nodeElement, c [0]Element, n int :: {old(kids(P, a, m)), old(kids(Q, aq, l)), aq[j], old(kids(p, c, n))} old(kids(P, a, m)) && old(kids(Q, aq, l)) && 0 <= j && j < l && aq[j] == el && p != P && p != Q && old(kids(p, c, n)) ==> kids(p, c, n)
  # a child of the same node moves to the end
  ensures acts && old(par(el) == parent) ==> forall a [0]Element, m int, b [0]Element, c [0]Element, j int :: {old(kids(P, a, m)), remAt(b, a, m, j), insAt(c, b, m-1, m-1, el)} old(kids(P, a, m)) && a[j] == el && remAt(b, a, m, j) && insAt(c, b, m-1, m-1, el) ==> kids(P, c, m)
  ensures acts && old(par(el) == parent) ==> forall a [0]Element, m int, b [0]Element, j int, p *nodeElement, c [0]Element, n int :: {old(kids(P, a, m)), remAt(b, a, m, j), old(kids(p, c, n))} old(kids(P, a, m)) && a[j] == el && remAt(b, a, m, j) && p != P && old(kids(p, c, n)) ==> kids(p, c, n)

func AppendSibling(prev, el)
  props C16
  opt noalloc
  requires okE(prev) && okE(el) && links() && (el != nil ==> movable(el))
  requires prev != nil && el != nil && nxt(prev) == el ==> par(el) != nil && prv(el) == prev
  let P = nd(par(prev))
  let Q = nd(par(el))
  let acts = prev != nil && el != nil && el != prev
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures links()
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  # siblings without parent
  ensures acts && old(par(prev) == nil && alone(el) && nxt(prev) != el && nxt(prev) != prev) ==> nxt(prev) == el && prv(el) == prev && nxt(el) == old(nxt(prev)) && par(el) == nil && prv(prev) == old(prv(prev))
  ensures acts && old(par(prev) == nil && alone(el) && nxt(prev) != nil && nxt(prev) != el) ==> prv(old(nxt(prev))) == el
  # a new element gets next to the target
  ensures acts && old(par(prev) != nil && par(el) == nil) ==> forall a [0]Element, m int, b [0]Element, i int :: {old(kids(P, a, m)), insAt(b, a, m, i+1, el)} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == prev && insAt(b, a, m, i+1, el) ==> kids(P, b, m+1)
  ensures acts && old(par(prev) != nil && par(el) == nil) ==> forall a [0]Element, m int, i int, p *nodeElement, c [0]Element, n int :: {old(kids(P, a, m)), a[i], old(kids(p, c, n))} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == prev && p != P && old(kids(p, c, n)) ==> kids(p, c, n)
  # a child of another node moves
  ensures acts && old(par(prev) != nil && par(el) != nil && par(el) != par(prev)) ==> forall a [0]Element, m int, b [0]Element, i int, aq [0]Element, l int, bq [0]Element, j int :: {old(kids(P, a, m)), old(kids(Q, aq, l)), insAt(b, a, m, i+1, el), remAt(bq, aq, l, j)} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == prev && old(kids(Q, aq, l)) && aq[j] == el && insAt(b, a, m, i+1, el) && remAt(bq, aq, l, j) ==> kids(P, b, m+1) && kids(Q, bq, l-1)
  # a child of the same node moves
  ensures acts && old(par(prev) != nil && par(el) == par(prev)) ==> forall a [0]Element, m int, b [0]Element, c [0]Element, i int, j int :: {old(kids(P, a, m)), remAt(b, a, m, j), insAt(c, b, m-1, i+1, el)} old(kids(P, a, m)) && a[j] == el && remAt(b, a, m, j) && 0 <= i && i < m-1 && b[i] == prev && insAt(c, b, m-1, i+1, el) ==> kids(P, c, m)

func PrependSibling(next, el)
  props C16
  opt noalloc
  requires okE(next) && okE(el) && links() && (el != nil ==> movable(el))
  let P = nd(par(next))
  let Q = nd(par(el))
  let acts = next != nil && el != nil && el != next
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures links()
  ensures !acts ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  # siblings without parent
  ensures acts && old(par(next) == nil && alone(el) && prv(next) != el && prv(next) != next) ==> prv(next) == el && nxt(el) == next && prv(el) == old(prv(next)) && par(el) == nil && nxt(next) == old(nxt(next))
  ensures acts && old(par(next) == nil && alone(el) && prv(next) != nil && prv(next) != el) ==> nxt(old(prv(next))) == el
  # a new element gets next to the target
  ensures acts && old(par(next) != nil && par(el) == nil) ==> forall a [0]Element, m int, b [0]Element, i int :: {old(kids(P, a, m)), insAt(b, a, m, i, el)} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == next && insAt(b, a, m, i, el) ==> kids(P, b, m+1)
  ensures acts && old(par(next) != nil && par(el) == nil) ==> forall a [0]Element, m int, i int, p *nodeElement, c [0]Element, n int :: {old(kids(P, a, m)), a[i], old(kids(p, c, n))} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == next && p != P && old(kids(p, c, n)) ==> kids(p, c, n)
  # a child of another node moves
  ensures acts && old(par(next) != nil && par(el) != nil && par(el) != par(next)) ==> forall a [0]Element, m int, b [0]Element, i int, aq [0]Element, l int, bq [0]Element, j int :: {old(kids(P, a, m)), old(kids(Q, aq, l)), insAt(b, a, m, i, el), remAt(bq, aq, l, j)} old(kids(P, a, m)) && 0 <= i && i < m && a[i] == next && old(kids(Q, aq, l)) && aq[j] == el && insAt(b, a, m, i, el) && remAt(bq, aq, l, j) ==> kids(P, b, m+1) && kids(Q, bq, l-1)
  # a child of the same node moves
  ensures acts && old(par(next) != nil && par(el) == par(next)) ==> forall a [0]Element, m int, b [0]Element, c [0]Element, i int, j int :: {old(kids(P, a, m)), remAt(b, a, m, j), insAt(c, b, m-1, i, el)} old(kids(P, a, m)) && a[j] == el && remAt(b, a, m, j) && 0 <= i && i < m-1 && b[i] == next && insAt(c, b, m-1, i, el) ==> kids(P, c, m)

func NewNodeElement(typeName, tok)
  props C16
  ensures fresh(result) && okP(result) && result != nil && nd(result).typeName == typeName && nd(result).token == tok && nd(result).firstChild == nil && nd(result).lastChild == nil && alone(result)
  ensures old(links()) ==> links()
  modifies nothing

func NewTokenElement(t)
  props C16
  ensures fresh(result) && known(result) && !isN(result) && tk(result).token == t && alone(result)
  ensures old(links()) ==> links()
  modifies nothing

# the neighbours of e agree with e
def linked(e Element) bool = (nxt(e) != nil ==> par(nxt(e)) == par(e) && prv(nxt(e)) == e) && (prv(e) != nil ==> par(prv(e)) == par(e) && nxt(prv(e)) == e) && (par(e) != nil && nxt(e) == nil ==> nd(par(e)).lastChild == e)

# o is replaced with n: the children of the parent of o get n in the place of o
func Replace(o, n)
  props C16
  opt noalloc
  requires okE(o) && okE(n) && links() && (o != nil && par(o) != nil ==> movable(o)) && (n != nil ==> movable(n))
  requires (o != nil ==> linked(o)) && (n != nil ==> linked(n)) && (o != nil && n != nil && nxt(o) == n ==> prv(o) != n)
  let P = nd(par(o))
  let Q = nd(par(n))
  let acts = o != nil && n != nil && o != n && par(o) != nil
  let drops = o != nil && n == nil && par(o) != nil
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures links()
  ensures !acts && !drops ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)
  ensures acts || drops ==> alone(o)
  ensures acts ==> par(n) == old(par(o))
  ensures drops ==> forall a [0]Element, m int, b [0]Element, j int :: {old(kids(P, a, m)), remAt(b, a, m, j)} old(kids(P, a, m)) && a[j] == o && remAt(b, a, m, j) ==> kids(P, b, m-1)
  ensures drops ==> forall a [0]Element, m int, j int, p *nodeElement, c [0]Element, l int :: {old(kids(P, a, m)), a[j], old(kids(p, c, l))} old(kids(P, a, m)) && 0 <= j && j < m && a[j] == o && p != P && old(kids(p, c, l)) ==> kids(p, c, l)
  # a new element
  ensures acts && old(par(n) == nil) ==> forall a [0]Element, m int, r [0]Element, b [0]Element, j int :: {old(kids(P, a, m)), remAt(r, a, m, j), insAt(b, r, m-1, j, n)} old(kids(P, a, m)) && a[j] == o && remAt(r, a, m, j) && insAt(b, r, m-1, j, n) ==> kids(P, b, m)
  ensures acts && old(par(n) == nil) ==> forall a [0]Element, m int, r [0]Element, j int, p *nodeElement, c [0]Element, l int :: {old(kids(P, a, m)), remAt(r, a, m, j), old(kids(p, c, l))} old(kids(P, a, m)) && a[j] == o && remAt(r, a, m, j) && p != P && old(kids(p, c, l)) ==> kids(p, c, l)
  # a child of another node
  ensures acts && old(par(n) != nil && par(n) != par(o)) ==> forall a [0]Element, m int, r [0]Element, b [0]Element, j int, aq [0]Element, l int, bq [0]Element, i int :: {old(kids(P, a, m)), old(kids(Q, aq, l)), remAt(r, a, m, j), insAt(b, r, m-1, j, n), remAt(bq, aq, l, i)} old(kids(P, a, m)) && a[j] == o && remAt(r, a, m, j) && insAt(b, r, m-1, j, n) && old(kids(Q, aq, l)) && aq[i] == n && remAt(bq, aq, l, i) ==> kids(P, b, m) && kids(Q, bq, l-1)
  # a child of the same node
  ensures acts && old(par(n) == par(o)) ==> forall a [0]Element, m int, d [0]Element, i int, r [0]Element, b [0]Element, j int :: {old(kids(P, a, m)), remAt(d, a, m, i), remAt(r, d, m-1, j), insAt(b, r, m-2, j, n)} old(kids(P, a, m)) && a[i] == n && remAt(d, a, m, i) && d[j] == o && remAt(r, d, m-1, j) && insAt(b, r, m-2, j, n) ==> kids(P, b, m-1)

# ---- building trees in parser hooks ----
func NewHookInstance(typeName, tok)
  props C16
  ensures fresh(result) && okP(result.node) && result.node != nil && fresh(nd(result.node)) && nd(result.node).typeName == typeName && nd(result.node).token == tok && nd(result.node).firstChild == nil && nd(result.node).lastChild == nil && alone(Element(result.node))
  ensures old(links()) ==> links()
  modifies nothing

func (*HookInstance).NewNode(hi, node, token)
  props C16
  ensures result == nil
  modifies nothing

func (*HookInstance).HandleNode(hi, name, result)
  props C16
  returns err
  requires hi != nil && hi.node != nil && okP(hi.node) && links() && okE(Element(result)) && (Element(result) != nil ==> alone(Element(result)) && Element(result) != Element(hi.node))
  let e = Element(result)
  let P = nd(hi.node)
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures e != nil ==> links()
  ensures (err == nil) == (e != nil)
  ensures e != nil ==> forall a [0]Element, m int, b [0]Element :: {old(kids(P, a, m)), insAt(b, a, m, m, e)} old(kids(P, a, m)) && insAt(b, a, m, m, e) ==> kids(P, b, m+1)
  ensures e != nil ==> forall p *nodeElement, a [0]Element, m int, q [0]Element, l int :: {old(kids(p, a, m)), old(kids(P, q, l))} p != P && old(kids(P, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)
  ensures e == nil ==> forall p *nodeElement, a [0]Element, m int :: {old(kids(p, a, m))} old(kids(p, a, m)) ==> kids(p, a, m)

func (*HookInstance).HandleToken(hi, token)
  props C16
  requires hi != nil && hi.node != nil && okP(hi.node) && links()
  let P = nd(hi.node)
  modifies each x *nodeElement where true : x.next, x.prev, x.parent, x.firstChild, x.lastChild
  modifies each y *tokenElement where true : y.next, y.prev, y.parent
  ensures links()
  ensures result == nil
  ensures fresh(tk(P.lastChild)) && known(P.lastChild) && !isN(P.lastChild) && tk(P.lastChild).token == token
  ensures forall a [0]Element, m int, b [0]Element :: {old(kids(P, a, m)), insAt(b, a, m, m, P.lastChild)} old(kids(P, a, m)) && insAt(b, a, m, m, P.lastChild) ==> kids(P, b, m+1)
  ensures forall p *nodeElement, a [0]Element, m int, q [0]Element, l int :: {old(kids(p, a, m)), old(kids(P, q, l))} p != P && old(kids(P, q, l)) && old(kids(p, a, m)) ==> kids(p, a, m)

func (*HookInstance).EndNode(hi)
  props C16
  returns res, err
  requires hi != nil && hi.node != nil
  ensures res == any(hi.node) && err == nil
  modifies nothing

func NodeHook(ctx, node, tok, nc)
  props C16
  returns inst, err
  ensures err == nil && typeis(inst, *HookInstance) && fresh(cast(inst, *HookInstance)) && okP(cast(inst, *HookInstance).node) && nd(cast(inst, *HookInstance).node).typeName == node && nd(cast(inst, *HookInstance).node).token == tok
  ensures old(links()) ==> links()
  modifies nothing

# ---- moving through a tree ----
# first and last token elements of e / of e and its next (previous) siblings
spec firstIn(e Element) Element = e == nil ? nil : !isN(e) ? e : firstIn(nd(e).firstChild) != nil ? firstIn(nd(e).firstChild) : firstIn(nxt(e))
def firstTok(e Element) Element = e == nil ? nil : !isN(e) ? e : firstIn(nd(e).firstChild)
spec lastIn(e Element) Element = e == nil ? nil : !isN(e) ? e : lastIn(nd(e).lastChild) != nil ? lastIn(nd(e).lastChild) : lastIn(prv(e))
def lastTok(e Element) Element = e == nil ? nil : !isN(e) ? e : lastIn(nd(e).lastChild)
# first token element after e, last one before e
spec tokAfter(e Element) Element = e == nil ? nil : nxt(e) == nil ? tokAfter(par(e)) : firstTok(nxt(e)) != nil ? firstTok(nxt(e)) : tokAfter(nxt(e))
spec tokBefore(e Element) Element = e == nil ? nil : prv(e) == nil ? tokBefore(par(e)) : lastTok(prv(e)) != nil ? lastTok(prv(e)) : tokBefore(prv(e))

func FirstTokenElement(n)
  props C17
  opt noalloc
  requires okE(n) && links()
  ensures result == firstTok(n) && okE(result)
  modifies nothing
  loop 1
    invariant okE(n) && firstIn(n) == old(firstTok(n))

func LastTokenElement(n)
  props C17
  opt noalloc
  requires okE(n) && links()
  ensures result == lastTok(n) && okE(result)
  modifies nothing
  loop 1
    invariant okE(n) && lastIn(n) == old(lastTok(n))

func NextTokenElement(n)
  props C17
  opt noalloc
  requires okE(n) && links()
  ensures result == tokAfter(n) && okE(result)
  modifies nothing
  loop 1
    invariant n != nil && okE(n) && tokAfter(n) == old(tokAfter(n))

func PrevTokenElement(n)
  props C17
  opt noalloc
  requires okE(n) && links()
  ensures result == tokBefore(n) && okE(result)
  modifies nothing
  loop 1
    invariant n != nil && okE(n) && tokBefore(n) == old(tokBefore(n))

def was(e Element) bool = e == nil || known(e) && (isN(e) ? !fresh(nd(e)) : !fresh(tk(e)))
# c is followed (through the next link / the previous link / the parent link) by exactly the elements of r
def chainNext(r []Element, c Element, n int) bool = (n == 0 ? true : r[0] == c) && (forall k int :: {r[k]} 0 <= k && k < n ==> r[k] != nil && was(r[k])) && (forall k int :: {r[k]} 0 < k && k < n ==> r[k] == nxt(r[k-1]))
def chainPrev(r []Element, c Element, n int) bool = (n == 0 ? true : r[0] == c) && (forall k int :: {r[k]} 0 <= k && k < n ==> r[k] != nil && was(r[k])) && (forall k int :: {r[k]} 0 < k && k < n ==> r[k] == prv(r[k-1]))
def chainPar(r []Element, c Element, n int) bool = (n == 0 ? true : r[0] == c) && (forall k int :: {r[k]} 0 <= k && k < n ==> r[k] != nil && was(r[k])) && (forall k int :: {r[k]} 0 < k && k < n ==> r[k] == Element(par(r[k-1])))

func Children(n)
  props C17
  requires okE(n) && links()
  let fc = n != nil && isN(n) ? nd(n).firstChild : nil
  ensures chainNext(result, fc, len(result)) && (len(result) == 0 ? fc == nil : nxt(result[len(result)-1]) == nil)
  modifies nothing
  loop 1
    invariant was(c) && chainNext(res, nd(n).firstChild, len(res)) && (cap(res) == 0 || fresh(res)) && (len(res) == 0 ? c == nd(n).firstChild : c == nxt(res[len(res)-1]))

func PrevSiblings(el)
  props C17
  requires okE(el) && links()
  let c = el != nil ? prv(el) : nil
  ensures chainPrev(result, c, len(result)) && (len(result) == 0 ? c == nil : prv(result[len(result)-1]) == nil)
  modifies nothing
  loop 1
    invariant el != nil && was(el) && chainPrev(res, old(prv(el)), len(res)) && (cap(res) == 0 || fresh(res)) && (len(res) == 0 ? el == old(el) : el == res[len(res)-1])

func NextSiblings(el)
  props C17
  requires okE(el) && links()
  let c = el != nil ? nxt(el) : nil
  ensures chainNext(result, c, len(result)) && (len(result) == 0 ? c == nil : nxt(result[len(result)-1]) == nil)
  modifies nothing
  loop 1
    invariant el != nil && was(el) && chainNext(res, old(nxt(el)), len(res)) && (cap(res) == 0 || fresh(res)) && (len(res) == 0 ? el == old(el) : el == res[len(res)-1])

func Ancestors(el)
  props C17
  requires okE(el) && links()
  let c = el != nil ? Element(par(el)) : nil
  ensures chainPar(result, c, len(result)) && (len(result) == 0 ? c == nil : par(result[len(result)-1]) == nil)
  modifies nothing
  loop 1
    invariant el != nil && was(el) && chainPar(res, old(Element(par(el))), len(res)) && (cap(res) == 0 || fresh(res)) && (len(res) == 0 ? el == old(el) : el == res[len(res)-1])

# ---- walking ----
def rtl(w *Walker) bool = band(w.mode, 1) != 0
def stops(f int) bool = band(f, 1) != 0
def skipsC(f int) bool = band(f, 2) != 0
def skipsS(f int) bool = band(f, 4) != 0
def sib(e Element, r bool) Element = r ? prv(e) : nxt(e)
def kid(e Element, r bool) Element = !isN(e) ? nil : r ? nd(e).lastChild : nd(e).firstChild

# neighbours and first and last children agree about the parent
def tied() bool = (forall p *nodeElement :: {p.next} allocated(p) && single(p) && p.next != nil ==> par(p.next) == p.parent) && (forall p *nodeElement :: {p.prev} allocated(p) && single(p) && p.prev != nil ==> par(p.prev) == p.parent) && (forall p *tokenElement :: {p.next} allocated(p) && single(p) && p.next != nil ==> par(p.next) == p.parent) && (forall p *tokenElement :: {p.prev} allocated(p) && single(p) && p.prev != nil ==> par(p.prev) == p.parent) && (forall p *nodeElement :: {p.firstChild} allocated(p) && single(p) && p.firstChild != nil ==> par(p.firstChild) == NodeElement(p)) && (forall p *nodeElement :: {p.lastChild} allocated(p) && single(p) && p.lastChild != nil ==> par(p.lastChild) == NodeElement(p))

# the ancestor of e k levels up
spec anc(e Element, k int) Element = k <= 0 || e == nil ? e : anc(Element(par(e)), k-1)

# the element that follows the subtree of cur (at level l) left with flags f; the flags each of its ancestors was left with are a[0..l-1]
spec follow(cur Element, root Element, a [0]int, o int, l int, f int, r bool) Element = cur == nil || cur == root ? nil : !skipsS(f) && sib(cur, r) != nil ? sib(cur, r) : l < 2 ? nil : follow(Element(par(cur)), root, a, o, l-1, a[o+l-1], r)
spec followLvl(cur Element, root Element, a [0]int, o int, l int, f int, r bool) int = cur == nil || cur == root ? 0 : !skipsS(f) && sib(cur, r) != nil ? l : l < 2 ? 0 : followLvl(Element(par(cur)), root, a, o, l-1, a[o+l-1], r)

# a walker that is not finished stands at level len(flagStack) below its root
def wok(w *Walker) bool = okE(w.root) && okE(w.current) && (w.root == nil ==> len(w.flagStack) == 0) && (w.root != nil && w.current == nil ==> len(w.flagStack) == 0) && (w.root != nil && w.current != nil ==> anc(w.current, len(w.flagStack)) == w.root)

func NewWalker(root, m)
  props C18
  requires okE(root)
  ensures old(links() && tied()) ==> links() && tied()
  ensures cap(result.flagStack) == 0 && fresh(result) && result.root == root && result.current == nil && len(result.flagStack) == 0 && result.mode == m && wok(result)
  modifies nothing

func (*Walker).pushFlags(w, f)
  props C18
  ensures old(links() && tied()) ==> links() && tied()
  requires w != nil
  modifies w.flagStack, cap(w.flagStack) > 0 ? arr(w.flagStack) : nothing
  ensures old(cap(w.flagStack)) == 0 ==> fresh(w.flagStack)
  ensures obj(w.flagStack) == old(obj(w.flagStack)) && off(w.flagStack) == old(off(w.flagStack)) || fresh(w.flagStack)
  ensures len(w.flagStack) == old(len(w.flagStack)) + 1 && skipsS(w.flagStack[old(len(w.flagStack))]) == skipsS(f)
  ensures forall j int :: {elems(w.flagStack)[j]} off(w.flagStack) <= j && j < off(w.flagStack) + old(len(w.flagStack)) ==> elems(w.flagStack)[j] == old(elems(w.flagStack))[j - off(w.flagStack) + old(off(w.flagStack))]

func (*Walker).popFlags(w)
  props C18
  opt noalloc
  requires w != nil && len(w.flagStack) > 0
  modifies w.flagStack
  ensures len(w.flagStack) == old(len(w.flagStack)) - 1 && result == old(w.flagStack[len(w.flagStack)-1])
  ensures obj(w.flagStack) == old(obj(w.flagStack)) && off(w.flagStack) == old(off(w.flagStack))

func (*Walker).Step(w, f)
  props C18
  returns stat
  requires w != nil && links() && tied() && wok(w)
  let cur = w.current
  let going = !stops(f) && w.root != nil
  let desc = going && w.current != nil && !skipsC(f) && kid(w.current, rtl(w)) != nil
  let climbs = going && w.current != nil && (skipsC(f) || kid(w.current, rtl(w)) == nil)
  let fe = follow(w.current, w.root, elems(w.flagStack), off(w.flagStack), len(w.flagStack), f, rtl(w))
  let fl = followLvl(w.current, w.root, elems(w.flagStack), off(w.flagStack), len(w.flagStack), f, rtl(w))
  modifies w.root, w.current, w.flagStack, cap(w.flagStack) > 0 ? arr(w.flagStack) : nothing
  ensures wok(w) && okE(stat.Element)
  ensures links() && tied()
  ensures cap(w.flagStack) == 0 || obj(w.flagStack) == old(obj(w.flagStack)) && old(cap(w.flagStack)) > 0 || fresh(w.flagStack)
  # finished for good
  ensures (w.root == nil) == (stat.Element == nil)
  ensures stat.Element != nil ==> w.root == old(w.root) && w.current == stat.Element && stat.Level == len(w.flagStack)
  # the element is at its level below the root
  ensures stat.Element != nil ==> anc(stat.Element, stat.Level) == w.root
  ensures !going ==> stat.Element == nil
  ensures going && old(w.current) == nil ==> stat.Element == old(w.root) && stat.Level == 0
  ensures desc ==> stat.Element == old(kid(w.current, rtl(w))) && stat.Level == old(len(w.flagStack)) + 1
  ensures desc ==> skipsS(w.flagStack[old(len(w.flagStack))]) == skipsS(f)
  ensures desc ==> forall j int :: {elems(w.flagStack)[j]} off(w.flagStack) <= j && j < off(w.flagStack) + old(len(w.flagStack)) ==> elems(w.flagStack)[j] == old(elems(w.flagStack))[j - off(w.flagStack) + old(off(w.flagStack))]
  ensures climbs ==> stat.Element == fe
  ensures climbs && fe != nil ==> stat.Level == fl
  ensures climbs && fe != nil ==> obj(w.flagStack) == old(obj(w.flagStack)) && off(w.flagStack) == old(off(w.flagStack))
  loop 1
    invariant w.root == old(w.root) && w.mode == old(w.mode) && w.current != nil && wok(w)
    invariant obj(w.flagStack) == old(obj(w.flagStack)) && off(w.flagStack) == old(off(w.flagStack)) && len(w.flagStack) <= old(len(w.flagStack))
    invariant follow(w.current, w.root, elems(w.flagStack), off(w.flagStack), len(w.flagStack), f, rtl(w)) == fe
    invariant fe != nil ==> followLvl(w.current, w.root, elems(w.flagStack), off(w.flagStack), len(w.flagStack), f, rtl(w)) == fl

func (*Walker).Next(w)
  props C18
  returns stat
  requires w != nil && links() && tied() && wok(w)
  modifies w.root, w.current, w.flagStack, cap(w.flagStack) > 0 ? arr(w.flagStack) : nothing
  ensures wok(w) && okE(stat.Element)
  ensures (w.root == nil) == (stat.Element == nil)

functype Visitor(f, s)
  trusted a visitor changes neither the tree nor the walker
  ensures old(links() && tied()) ==> links() && tied()
  modifies nothing

func (*Walker).Walk(w, visitor)
  props C18
  requires w != nil && links() && tied() && wok(w) && visitor != nil
  modifies w.root, w.current, w.flagStack, cap(w.flagStack) > 0 ? arr(w.flagStack) : nothing
  loop 1
    invariant links() && tied() && wok(w) && okE(stat.Element) && (cap(w.flagStack) == 0 || obj(w.flagStack) == old(obj(w.flagStack)) && old(cap(w.flagStack)) > 0 || fresh(w.flagStack))

func Walk(root, mode, visitor)
  props C18
  requires okE(root) && links() && tied() && visitor != nil
  modifies nothing
