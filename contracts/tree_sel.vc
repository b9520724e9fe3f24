# selectors: filters and extractors are functions of the element
package tree

ufun acc(f Filter, n Element) bool
ufun exn0(f Extractor, n Element) int
spec exn(f Extractor, n Element) int = exn0(f, n) < 0 ? 0 : exn0(f, n)
ufun ext(f Extractor, n Element, k int) Element

functype Filter(f, n)
  trusted a filter depends on nothing but the element and changes nothing
  opt noalloc
  modifies nothing
  ensures result == acc(f, n)

functype Extractor(f, n)
  trusted an extractor depends on nothing but the element and changes nothing
  modifies nothing
  ensures len(result) == exn(f, n)
  ensures forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] == ext(f, n, k)

func IsNot$1(n)
  props C19
  requires f != nil
  ensures result == !acc(f, n)
  modifies nothing

func IsAny$1(n)
  props C19
  requires forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> fs[i] != nil
  ensures result ==> exists i int :: 0 <= i && i < len(fs) && acc(fs[i], n)
  ensures !result ==> forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> !acc(fs[i], n)
  modifies nothing
  loop 1
    invariant forall i int :: {fs[i]} 0 <= i && i < $i ==> !acc(fs[i], n)

func IsAll$1(n)
  props C19
  requires forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> fs[i] != nil
  ensures !result ==> exists i int :: 0 <= i && i < len(fs) && !acc(fs[i], n)
  ensures result ==> forall i int :: {fs[i]} 0 <= i && i < len(fs) ==> acc(fs[i], n)
  modifies nothing
  loop 1
    invariant forall i int :: {fs[i]} 0 <= i && i < $i ==> acc(fs[i], n)

iface (Element).TypeName(e)
  props C19
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  requires known(e) && (!isN(e) ==> tk(e).token != nil)
  ensures result == (isN(e) ? nd(e).typeName : tk(e).token.typeName)
  modifies nothing

iface (Element).Token(e)
  props C19
  impls *nodeElement *tokenElement
  trusted elements of types defined outside the package
  opt noalloc
  requires known(e)
  ensures result == (isN(e) ? nd(e).token : tk(e).token)
  modifies nothing

def tname(e Element) string = isN(e) ? nd(e).typeName : tk(e).token.typeName

func IsA$1(n)
  props C19
  requires known(n) && (!isN(n) ==> tk(n).token != nil)
  ensures result ==> exists i int :: 0 <= i && i < len(names) && names[i] == tname(n)
  ensures !result ==> forall i int :: {names[i]} 0 <= i && i < len(names) ==> names[i] != tname(n)
  modifies nothing
  loop 1
    invariant forall i int :: {names[i]} 0 <= i && i < $i ==> names[i] != tname(n)

func Any$1(n)
  props C19
  requires forall i int :: {nes[i]} 0 <= i && i < len(nes) ==> nes[i] != nil
  ensures len(result) == 0 ==> forall i int :: {nes[i]} 0 <= i && i < len(nes) ==> exn(nes[i], n) == 0
  ensures len(result) > 0 ==> exists i int :: 0 <= i && i < len(nes) && len(result) == exn(nes[i], n) && (forall k int :: {result[k]} 0 <= k && k < len(result) ==> result[k] == ext(nes[i], n, k)) && (forall j int :: {nes[j]} 0 <= j && j < i ==> exn(nes[j], n) == 0)
  modifies nothing
  loop 1
    invariant len(res) == 0 && forall i int :: {nes[i]} 0 <= i && i < $i ==> exn(nes[i], n) == 0

# number of elements the first i extractors give
spec allLen(a [0]Extractor, o int, i int, n Element) int = i <= 0 ? 0 : allLen(a, o, i-1, n) + exn(a[o+i-1], n)

func All$1(n)
  props C19
  requires forall i int :: {nes[i]} 0 <= i && i < len(nes) ==> nes[i] != nil
  ensures len(result) == allLen(elems(nes), off(nes), len(nes), n)
  ensures forall i int, k int :: {allLen(elems(nes), off(nes), i, n), ext(nes[i], n, k)} 0 <= i && i < len(nes) && 0 <= k && k < exn(nes[i], n) ==> result[allLen(elems(nes), off(nes), i, n) + k] == ext(nes[i], n, k)
  modifies nothing
  loop 1
    invariant len(res) == allLen(elems(nes), off(nes), $i, n) && (cap(res) == 0 || fresh(res))
    invariant forall i int :: {allLen(elems(nes), off(nes), i, n)} 0 <= i && i < $i ==> allLen(elems(nes), off(nes), i, n) + exn(nes[i], n) <= len(res) && allLen(elems(nes), off(nes), i, n) >= 0
    invariant forall i int, k int :: {allLen(elems(nes), off(nes), i, n), ext(nes[i], n, k)} 0 <= i && i < $i && 0 <= k && k < exn(nes[i], n) ==> res[allLen(elems(nes), off(nes), i, n) + k] == ext(nes[i], n, k)

def inx(i int, f Extractor, n Element) bool = 0 <= i && i < exn(f, n)
spec nthLen(a [0]int, o int, i int, f Extractor, n Element) int = i <= 0 ? 0 : nthLen(a, o, i-1, f, n) + (inx(a[o+i-1], f, n) ? 1 : 0)

func Nth$1(el)
  props C19
  requires ex != nil
  ensures len(result) == nthLen(elems(indexes), off(indexes), len(indexes), ex, el)
  ensures forall i int :: {nthLen(elems(indexes), off(indexes), i, ex, el)} 0 <= i && i < len(indexes) && inx(indexes[i], ex, el) ==> result[nthLen(elems(indexes), off(indexes), i, ex, el)] == ext(ex, el, indexes[i])
  modifies nothing
  loop 1
    invariant len(res) == nthLen(elems(indexes), off(indexes), $i, ex, el) && (cap(res) == 0 || fresh(res) && obj(res) != obj(els))
    invariant forall k int :: {els[k]} 0 <= k && k < len(els) ==> els[k] == ext(ex, el, k)
    invariant forall i int :: {nthLen(elems(indexes), off(indexes), i, ex, el)} 0 <= i && i <= $i ==> 0 <= nthLen(elems(indexes), off(indexes), i, ex, el) && nthLen(elems(indexes), off(indexes), i, ex, el) <= len(res)
    invariant forall i int :: {nthLen(elems(indexes), off(indexes), i, ex, el)} 0 <= i && i < $i && inx(indexes[i], ex, el) ==> 0 <= nthLen(elems(indexes), off(indexes), i, ex, el) && nthLen(elems(indexes), off(indexes), i, ex, el) < len(res) && res[nthLen(elems(indexes), off(indexes), i, ex, el)] == ext(ex, el, indexes[i])

func Filter$1(n)
  props C19
  requires nf != nil
  ensures len(result) == (acc(nf, n) ? 1 : 0) && (len(result) == 1 ==> result[0] == n)
  modifies nothing

func search$1(n)
  props C19
  requires okE(n) && links() && tied() && nf != nil
  ensures forall k int :: {result[k]} 0 <= k && k < len(result) ==> known(result[k]) && acc(nf, result[k])
  modifies nothing
  loop 1
    invariant links() && tied() && wok(w) && fresh(w) && (cap(w.flagStack) == 0 || fresh(w.flagStack)) && (cap(res) == 0 || fresh(res))
    invariant forall k int :: {res[k]} 0 <= k && k < len(res) ==> known(res[k]) && acc(nf, res[k])
