# C28: pieces of a nested perimeter result in order. first(at28(p, i)) is the position of the first piece of inset i of part p.
function at28(Int, Int) Int
axiom different: forall a, b, c, d :: {at28(a, b), at28(c, d)} at28(a, b) == at28(c, d) ==> a == c && b == d

# always 0; names the j for which a statement is used
function touch28(Int) Int
axiom touch: forall j :: {touch28(j)} touch28(j) == 0

# positions follow one another without gap
define positions(f, or, parts) =
  f(at28(0, 0)) == 0
  && (forall p in 0..parts, i in 0..len(or[p]) :: {at28(p, i)} f(at28(p, i + 1)) == f(at28(p, i)) + len(or[p][i]))
  && (forall p in 0..parts :: {at28(p, len(or[p]))} f(at28(p + 1, 0)) == f(at28(p, len(or[p]))))

func (clip.OffsetResult).ToOneDimension(or) (result)
  property C28
  track area
  reveal at28
  reveal touch28
  requires alloc: forall p in 0..len(or), i in 0..len(or[p]) :: allocated(or[p][i])
  modifies nothing
  ghost f (Int)Int
  witness f = f ?? const(0)
  ensures fresh: (cap(result) > 0 ==> fresh(result)) && allocated(result)
  ensures area: area(result) == sum p in 0..len(or) :: sum i in 0..len(or[p]) :: area(or[p][i])
  ensures positions: positions(f, or, len(or))
  ensures length: len(result) == f(at28(len(or), 0))
  ensures parts: forall p in 0..len(or), i in 0..len(or[p]), j in 0..len(or[p][i]) :: {at28(p, i), touch28(j)} touch28(j) == 0 && 0 <= f(at28(p, i)) + j < len(result) && same(result[f(at28(p, i)) + j], or[p][i][j])
  loop 0
    ghost f (Int)Int = const(0)
    step f = store(g, at28(iter, 0), len(result))
    invariant area: area(result) == old(sum p in 0..iter :: sum i in 0..len(or[p]) :: area(or[p][i]))
    invariant fresh: cap(result) > 0 ==> fresh(result)
    invariant here: len(result) == f(at28(iter, 0))
    invariant positions: positions(f, or, iter)
    invariant parts: forall p in 0..iter, i in 0..len(or[p]), j in 0..len(or[p][i]) :: {at28(p, i), touch28(j)} touch28(j) == 0 && 0 <= f(at28(p, i)) + j < len(result) && same(result[f(at28(p, i)) + j], or[p][i][j])
  loop 1
    ghost g (Int)Int = f
    step g = store(g, at28(iter0, iter1), len(result))
    invariant area: area(result) == old(sum p in 0..iter0 :: sum i in 0..len(or[p]) :: area(or[p][i])) + old(sum i in 0..iter1 :: area(or[iter0][i]))
    invariant fresh: cap(result) > 0 ==> fresh(result)
    invariant here: len(result) == g(at28(iter0, iter1))
    invariant positions: positions(g, or, iter0)
    invariant inner: forall i in 0..iter1 :: {at28(iter0, i)} g(at28(iter0, i + 1)) == g(at28(iter0, i)) + len(or[iter0][i])
    invariant parts: forall p in 0..iter0, i in 0..len(or[p]), j in 0..len(or[p][i]) :: {at28(p, i), touch28(j)} touch28(j) == 0 && 0 <= g(at28(p, i)) + j < len(result) && same(result[g(at28(p, i)) + j], or[p][i][j])
    invariant innerParts: forall i in 0..iter1, j in 0..len(or[iter0][i]) :: {at28(iter0, i), touch28(j)} touch28(j) == 0 && 0 <= g(at28(iter0, i)) + j < len(result) && same(result[g(at28(iter0, i)) + j], or[iter0][i][j])

# what the visitor does with a part and its three indices, and whether it then asks to stop
function visited(Seq, Int, Int, Int, Int, Int, Int) Seq
function stop(Seq) Bool

dyn func(data.LayerPart, int, int, int) bool: cb(part, p, i, j) (r)
  trusted description of an arbitrary visitor which leaves the nested result alone
  modifies trace
  ensures event: trace == visited(old(trace), cb, part, p, i, j)
  ensures stop: r == stop(trace)

# position of the first piece of inset i of part p: any function which satisfies the recurrence
function pos28(Int, Int) Int
define pos(p, i, j) = pos28(p, i) + j
# t(k): what happened before visit number k
define visit(t, cb, or, p, i, j) = touch28(j) == 0 && 0 <= pos(p, i, j) && t(pos(p, i, j) + 1) == visited(t(pos(p, i, j)), cb, or[p][i][j], p, i, j) && !stop(t(pos(p, i, j) + 1))

# (p, i, j): the part whose visitor asked to stop, p == len(or) if none did
func (clip.OffsetResult).ForEach(or, cb) ()
  property C28
  inline
  reveal touch28
  reveal pos28
  requires cb != nil
  requires start: pos28(0, 0) == 0
  requires insets: forall p in 0..len(or), i in 0..len(or[p]) :: {pos28(p, i)} pos28(p, i + 1) == pos28(p, i) + len(or[p][i])
  requires parts: forall p in 0..len(or) :: {pos28(p, len(or[p]))} pos28(p + 1, 0) == pos28(p, len(or[p]))
  modifies trace
  ghost t (Int)Seq
  ghost p Int
  ghost i Int
  ghost j Int
  witness t = w ?? v ?? t ?? const("")
  witness p = p ?? 0
  witness i = i ?? 0
  witness j = j ?? 0
  ensures start: t(0) == old(trace)
  ensures before: 0 <= p <= len(or) && forall a in 0..p, b in 0..len(or[a]), c in 0..len(or[a][b]) :: {pos28(a, b), touch28(c)} visit(t, cb, or, a, b, c)
  ensures all: p == len(or) ==> trace == t(pos28(p, 0))
  ensures insets: p < len(or) ==> 0 <= i < len(or[p]) && forall b in 0..i, c in 0..len(or[p][b]) :: {pos28(p, b), touch28(c)} visit(t, cb, or, p, b, c)
  ensures pieces: p < len(or) ==> 0 <= j < len(or[p][i]) && forall c in 0..j :: {touch28(c)} visit(t, cb, or, p, i, c)
  ensures stopped: p < len(or) ==> trace == visited(t(pos(p, i, j)), cb, or[p][i][j], p, i, j) && stop(trace)
  loop 0
    ghost t (Int)Seq = store(const(""), 0, trace)
    ghost p Int = 0
    step t = store(v, pos28(iter, 0), trace)
    step p = iter
    invariant p: p == iter
    invariant start: t(0) == old(trace)
    invariant here: trace == t(pos28(iter, 0)) && 0 <= pos28(iter, 0)
    invariant before: forall a in 0..iter, b in 0..len(or[a]), c in 0..len(or[a][b]) :: {pos28(a, b), touch28(c)} visit(t, cb, or, a, b, c) && pos(a, b, c) < pos28(iter, 0)
  loop 1
    ghost v (Int)Seq = t
    ghost i Int = 0
    step v = store(w, pos28(iter0, iter1), trace)
    step i = iter1
    invariant i: i == iter1
    invariant start: v(0) == old(trace)
    invariant here: trace == v(pos28(iter0, iter1)) && 0 <= pos28(iter0, iter1)
    invariant before: forall a in 0..iter0, b in 0..len(or[a]), c in 0..len(or[a][b]) :: {pos28(a, b), touch28(c)} visit(v, cb, or, a, b, c) && pos(a, b, c) < pos28(iter0, iter1)
    invariant insets: forall b in 0..iter1, c in 0..len(or[iter0][b]) :: {pos28(iter0, b), touch28(c)} visit(v, cb, or, iter0, b, c) && pos(iter0, b, c) < pos28(iter0, iter1)
  loop 2
    ghost w (Int)Seq = v
    ghost j Int = 0
    step w = store(w, pos(iter0, iter1, iter2), trace)
    step j = iter2
    invariant j: j == iter2
    invariant start: w(0) == old(trace)
    invariant here: trace == w(pos(iter0, iter1, iter2)) && 0 <= pos(iter0, iter1, iter2)
    invariant before: forall a in 0..iter0, b in 0..len(or[a]), c in 0..len(or[a][b]) :: {pos28(a, b), touch28(c)} visit(w, cb, or, a, b, c) && pos(a, b, c) < pos(iter0, iter1, iter2)
    invariant insets: forall b in 0..iter1, c in 0..len(or[iter0][b]) :: {pos28(iter0, b), touch28(c)} visit(w, cb, or, iter0, b, c) && pos(iter0, b, c) < pos(iter0, iter1, iter2)
    invariant pieces: forall c in 0..iter2 :: {touch28(c)} visit(w, cb, or, iter0, iter1, c) && pos(iter0, iter1, c) < pos(iter0, iter1, iter2)
