# C11: what is handed to the polygon library and what is made of its answers.
#
# An area is described by sums of numbers which stand for its outlines and holes, so that the order in which they are
# handed over does not matter: weight(part) is an unknown number for each part, one(points) one for each closed line.
function pt11(Int, Int) Seq
function path11(Seq) Seq
function one(Seq) Int
function weight(Int) Int
function partW(Seq, Seq) Int

measure area(x data.LayerPart) = weight(ref(x))
define ptsOf(p) = seq k in 0..len(p) :: pt11(int(p[k].X()), int(p[k].Y()))
define cpoints(p) = seq k in 0..len(p) :: pt11(int(p[k].X), int(p[k].Y))
measure lines(p data.Path) = path11(ptsOf(p))
define clines(ps) = seq k in 0..len(ps) :: path11(cpoints(ps[k]))
define whole(p) = p != nil || len(p) == 0
define solid(p) = forall k in 0..len(p) :: p[k] != nil

iface data.LayerPart

func data.NewBasicLayerPart(outline, holes) (r)
  property C11
  modifies nothing
  givenpost weight: weight(ref(r)) == partW(path11(ptsOf(outline)), lines(holes))
  ensures part: r != nil && same(r.Outline(), outline) && same(r.Holes(), holes)

measure ones(p data.Path) = one(path11(ptsOf(p)))
measure cones(p clipper.Path) = one(path11(cpoints(p)))
# --- conversions

func clip.clipperPoint(p) (r)
  property C11
  requires p != nil
  modifies nothing
  ensures point: r != nil && fresh(r) && int(r.X) == int(p.X()) && int(r.Y) == int(p.Y())

func clip.microPoint(p) (r)
  property C11
  requires p != nil
  modifies nothing
  ensures point: r != nil && fresh(r) && int(r.X()) == int(p.X) && int(r.Y()) == int(p.Y)

func clip.clipperPath(p) (r)
  property C11
  requires solid: solid(p)
  modifies nothing
  ensures fresh: fresh(r)
  ensures points: len(r) == len(p) && forall k in 0..len(p) :: r[k] != nil && allocated(r[k]) && int(r[k].X) == int(p[k].X()) && int(r[k].Y) == int(p[k].Y())
  ensures same: cpoints(r) == old(ptsOf(p))
  loop 0
    invariant length: len(result) == len(p)
    invariant points: forall k in 0..iter :: result[k] != nil && fresh(result[k]) && int(result[k].X) == int(p[k].X()) && int(result[k].Y) == int(p[k].Y())

func clip.clipperPaths(p) (r)
  property C11
  requires solid: forall i in 0..len(p) :: solid(p[i])
  modifies nothing
  ensures fresh: fresh(r)
  ensures same: len(r) == len(p) && forall i in 0..len(p) :: {r[i]} cpoints(r[i]) == old(ptsOf(p[i]))
  ensures solid: forall i in 0..len(p), k in 0..len(r[i]) :: r[i][k] != nil
  ensures all: clines(r) == old(lines(p))
  loop 0
    invariant length: len(result) == len(p)
    invariant alloc: forall i in 0..iter :: allocated(result[i])
    invariant same: forall i in 0..iter :: {result[i]} cpoints(result[i]) == old(ptsOf(p[i]))
    invariant solid: forall i in 0..iter, k in 0..len(result[i]) :: result[i][k] != nil && allocated(result[i][k])

func clip.microPath(p, simplify) (r)
  property C11
  requires solid: solid(p)
  requires plain: !simplify
  modifies nothing
  ensures fresh: fresh(r)
  ensures points: len(r) == len(p) && forall k in 0..len(p) :: r[k] != nil && allocated(r[k])
  ensures same: ptsOf(r) == old(cpoints(p))
  loop 0
    invariant length: len(result) == len(p)
    invariant points: forall k in 0..iter :: result[k] != nil && fresh(result[k]) && int(result[k].X()) == int(p[k].X) && int(result[k].Y()) == int(p[k].Y)

# --- the polygon library
# what was given to it: the sum over all lines, separately for the two operands
field subj Int
field clp Int
field kind Int
# what it answers
function answers(Int, Int, Int, Int, Int, Int) Bool
function answer(Int, Int, Int, Int, Int, Int) Int
function nothing(Int, Int, Int, Int, Int, Int) Bool
# the number for all which is below a node of the resulting tree
function nodeArea(Int) Int
measure subs(n *clipper.PolyNode) = nodeArea(ref(n))

func clipper.NewClipper(o) (c)
  trusted polygon library: a new instance has no input
  modifies nothing
  ensures new: c != nil && fresh(c) && subj(c) == 0 && clp(c) == 0 && kind(c) == int(o)

func (*clipper.ClipperBase).AddPath(c, p, typ, closed) (ok)
  trusted polygon library: adds a line to an operand
  requires solid: solid(p)
  modifies subj(c), clp(c)
  ensures subject: subj(c) == old(subj(c)) + (if int(typ) == 0 then (if closed then one(path11(cpoints(p))) else open11(path11(cpoints(p)))) else 0)
  ensures clip: clp(c) == old(clp(c)) + (if int(typ) == 1 then (if closed then one(path11(cpoints(p))) else open11(path11(cpoints(p)))) else 0)

func (*clipper.ClipperBase).AddPaths(c, ps, typ, closed) (ok)
  trusted polygon library: adds some lines to an operand
  requires solid: forall i in 0..len(ps), k in 0..len(ps[i]) :: ps[i][k] != nil
  requires closed: closed
  modifies subj(c), clp(c)
  ensures subject: subj(c) == old(subj(c)) + (if int(typ) == 0 then cones(ps) else 0)
  ensures clip: clp(c) == old(clp(c)) + (if int(typ) == 1 then cones(ps) else 0)

function open11(Seq) Int

func (*clipper.Clipper).Execute2(c, op, subjFill, clipFill) (tree, ok)
  trusted polygon library: the result is a function of the input
  modifies nothing
  ensures ok: ok == answers(int(op), int(subjFill), int(clipFill), kind(c), subj(c), clp(c))
  ensures tree: ok ==> tree != nil && fresh(tree)
  ensures area: ok ==> subs(tree.PolyNode.m_Childs) == answer(int(op), int(subjFill), int(clipFill), kind(c), subj(c), clp(c)) && (len(tree.PolyNode.m_Childs) == 0) == nothing(int(op), int(subjFill), int(clipFill), kind(c), subj(c), clp(c))
  ensures top: ok ==> (seq k in 0..len(tree.PolyNode.m_Childs) :: path11(cpoints(tree.PolyNode.m_Childs[k].m_polygon))) == outlines(int(op), int(subjFill), int(clipFill), kind(c), subj(c), clp(c))

  ensures total: ok ==> len(tree.m_AllPolys) == total(int(op), int(subjFill), int(clipFill), kind(c), subj(c), clp(c))

# how many lines there are
function total(Int, Int, Int, Int, Int, Int) Int

func (*clipper.PolyTree).Total(t) (n)
  trusted polygon library: number of lines
  requires t != nil
  modifies nothing
  ensures total: n == len(t.m_AllPolys)

# the outlines which are not inside of another one
function outlines(Int, Int, Int, Int, Int, Int) Seq

func (*clipper.PolyNode).Childs(n) (r)
  trusted polygon library: nodes have no missing children
  modifies nothing
  ensures childs: same(r, n.m_Childs)
  ensures solid: forall k in 0..len(r) :: r[k] != nil

func (*clipper.PolyNode).Contour(n) (r)
  trusted polygon library: contours have no missing points
  modifies nothing
  ensures contour: same(r, n.m_polygon)
  ensures solid: forall k in 0..len(r) :: r[k] != nil

define node(n) = ptr(n, "clipper.PolyNode")
# outline n with the holes directly below it, and all below these
define nodeHoles(n) = seq k in 0..len(node(n).m_Childs) :: path11(cpoints(node(n).m_Childs[k].m_polygon))
define nodeSubs(n) = sum k in 0..len(node(n).m_Childs) :: subs(node(n).m_Childs[k].m_Childs)

func clip.polyTreeToLayerParts(root) (r)
  property C11
  track area subs lines
  requires root != nil
  given alloc: (forall n :: {node(n).m_Childs} allocated(node(n).m_Childs)) && forall a, k :: {node(a).m_Childs[k]} allocated(node(a).m_Childs[k])
  given nodes: forall n :: {nodeArea(n)} nodeArea(n) == partW(path11(cpoints(node(n).m_polygon)), nodeHoles(n)) + nodeSubs(n)
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures alloc: allocated(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  ensures parts: area(r) == old(subs(root.PolyNode.m_Childs))
  ensures none: (len(r) == 0) == (len(old(root.PolyNode.m_Childs)) == 0) && (len(r) == 0 ==> r == nil)
  loop 0
    invariant fresh: cap(polysForNextRound) > 0 ==> fresh(polysForNextRound)
    invariant rest: subs(polysForNextRound) == old(sum k in 0..iter :: nodeArea(ref(root.PolyNode.m_Childs[k])))
    invariant length: len(polysForNextRound) == iter && (iter == 0 ==> polysForNextRound == nil)
    invariant solid: forall k in 0..len(polysForNextRound) :: polysForNextRound[k] != nil
  loop 1
    invariant fresh: (cap(layerParts) > 0 ==> fresh(layerParts)) && (cap(polysForNextRound) > 0 ==> fresh(polysForNextRound))
    invariant solid: (forall k in 0..len(layerParts) :: layerParts[k] != nil) && forall k in 0..len(polysForNextRound) :: polysForNextRound[k] != nil
    invariant whole: (len(layerParts) == 0 ==> layerParts == nil) && (len(polysForNextRound) == 0 ==> polysForNextRound == nil)
    invariant some: (len(old(root.PolyNode.m_Childs)) == 0) == (len(layerParts) == 0 && len(polysForNextRound) == 0)
    invariant parts: area(layerParts) + subs(polysForNextRound) == old(subs(root.PolyNode.m_Childs))
  loop 2
    invariant fresh: (cap(layerParts) > 0 ==> fresh(layerParts)) && (cap(polysForNextRound) > 0 ==> fresh(polysForNextRound) && leaf(polysForNextRound, 0) != leaf(thisRound, 0))
    invariant solid: (forall k in 0..len(layerParts) :: layerParts[k] != nil) && (forall k in 0..len(polysForNextRound) :: polysForNextRound[k] != nil) && forall k in 0..len(thisRound) :: thisRound[k] != nil
    invariant whole: (len(layerParts) == 0 ==> layerParts == nil) && (len(polysForNextRound) == 0 ==> polysForNextRound == nil)
    invariant some: len(layerParts) >= iter
    invariant parts: area(layerParts) + subs(polysForNextRound) + subs(thisRound) == old(subs(root.PolyNode.m_Childs)) + (sum k in 0..iter :: nodeArea(ref(thisRound[k])))
  loop 3
    invariant fresh: (cap(polysForNextRound) > 0 ==> fresh(polysForNextRound) && leaf(polysForNextRound, 0) != leaf(thisRound, 0)) && (cap(holes) > 0 ==> fresh(holes))
    invariant solid: (forall k in 0..len(polysForNextRound) :: polysForNextRound[k] != nil) && forall k in 0..len(thisRound) :: thisRound[k] != nil
    invariant whole: len(polysForNextRound) == 0 ==> polysForNextRound == nil
    invariant parts: area(layerParts) + subs(polysForNextRound) + subs(thisRound) == old(subs(root.PolyNode.m_Childs)) + (sum k in 0..iter2 :: nodeArea(ref(thisRound[k]))) + old(sum k in 0..iter :: subs(p.m_Childs[k].m_Childs))
    invariant length: len(holes) == iter
    invariant alloc: (forall k in 0..len(holes) :: allocated(holes[k])) && forall k in 0..len(holes), j in 0..len(holes[k]) :: holes[k][j] != nil && allocated(holes[k][j])
    invariant holes: forall k in 0..iter :: {holes[k]} ptsOf(holes[k]) == old(cpoints(p.m_Childs[k].m_polygon))
  loop 4
    invariant fresh: cap(polysForNextRound) > 0 ==> fresh(polysForNextRound) && leaf(polysForNextRound, 0) != leaf(thisRound, 0)
    invariant solid: (forall k in 0..len(polysForNextRound) :: polysForNextRound[k] != nil) && forall k in 0..len(thisRound) :: thisRound[k] != nil
    invariant whole: len(polysForNextRound) == 0 ==> polysForNextRound == nil
    invariant child: child == old(p.m_Childs[iter3])
    invariant below: forall k in 0..len(child.m_Childs) :: {child.m_Childs[k]} child.m_Childs[k] == old(p.m_Childs[iter3].m_Childs[k])
    invariant parts: area(layerParts) + subs(polysForNextRound) + subs(thisRound) == old(subs(root.PolyNode.m_Childs)) + (sum k in 0..iter2 :: nodeArea(ref(thisRound[k]))) + old(sum k in 0..iter3 :: subs(p.m_Childs[k].m_Childs)) + old(sum k in 0..iter :: nodeArea(ref(p.m_Childs[iter3].m_Childs[k])))

# --- combining areas
define okOp(op, ea, a, eb, b) = ea && eb || answers(op, 1, 1, 0, a, b)
define opArea(op, ea, a, eb, b) = if ea && eb then 0 else answer(op, 1, 1, 0, a, b)
define opNone(op, ea, a, eb, b) = ea && eb || nothing(op, 1, 1, 0, a, b)

func (clip.clipperClipper).runClipper(c, clipType, parts, toClip) (r, ok)
  property C11
  track area
  given parts: (forall k in 0..len(parts) :: parts[k] != nil && solid(parts[k].Outline()) && forall i in 0..len(parts[k].Holes()) :: solid(parts[k].Holes()[i])) && forall k in 0..len(toClip) :: toClip[k] != nil && solid(toClip[k].Outline()) && forall i in 0..len(toClip[k].Holes()) :: solid(toClip[k].Holes()[i])
  given alloc: (forall k in 0..len(parts) :: allocated(parts[k].Outline()) && allocated(parts[k].Holes())) && forall k in 0..len(toClip) :: allocated(toClip[k].Outline()) && allocated(toClip[k].Holes())
  given weights: (forall k in 0..len(parts) :: {ref(parts[k])} weight(ref(parts[k])) == one(path11(ptsOf(parts[k].Outline()))) + ones(parts[k].Holes())) && forall k in 0..len(toClip) :: {ref(toClip[k])} weight(ref(toClip[k])) == one(path11(ptsOf(toClip[k].Outline()))) + ones(toClip[k].Holes())
  modifies nothing
  ensures alloc: allocated(r)
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  ensures ok: ok == okOp(int(clipType), len(parts) == 0, area(parts), len(toClip) == 0, area(toClip))
  ensures area: ok ==> area(r) == opArea(int(clipType), len(parts) == 0, area(parts), len(toClip) == 0, area(toClip))
  ensures none: ok ==> (len(r) == 0) == opNone(int(clipType), len(parts) == 0, area(parts), len(toClip) == 0, area(toClip))
  ensures nil: (!ok || len(r) == 0) ==> r == nil
  loop 0
    invariant subject: subj(cl) == old(sum k in 0..iter :: weight(ref(parts[k])))
    invariant clip: clp(cl) == 0 && kind(cl) == 0
  loop 1
    invariant subject: subj(cl) == old(area(parts)) && kind(cl) == 0
    invariant clip: clp(cl) == old(sum k in 0..iter :: weight(ref(toClip[k])))

func (clip.clipperClipper).Difference(c, parts, toRemove) (r, ok)
  property C11
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  ensures ok: ok == okOp(2, len(parts) == 0, area(parts), len(toRemove) == 0, area(toRemove))
  ensures area: ok ==> area(r) == opArea(2, len(parts) == 0, area(parts), len(toRemove) == 0, area(toRemove))
  ensures none: ok ==> (len(r) == 0) == opNone(2, len(parts) == 0, area(parts), len(toRemove) == 0, area(toRemove))
  ensures nil: (!ok || len(r) == 0) ==> r == nil

func (clip.clipperClipper).Intersection(c, parts, toIntersect) (r, ok)
  property C11
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  ensures ok: ok == okOp(0, len(parts) == 0, area(parts), len(toIntersect) == 0, area(toIntersect))
  ensures area: ok ==> area(r) == opArea(0, len(parts) == 0, area(parts), len(toIntersect) == 0, area(toIntersect))
  ensures none: ok ==> (len(r) == 0) == opNone(0, len(parts) == 0, area(parts), len(toIntersect) == 0, area(toIntersect))
  ensures nil: (!ok || len(r) == 0) ==> r == nil

func (clip.clipperClipper).Union(c, parts, toMerge) (r, ok)
  property C11
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  ensures ok: ok == okOp(1, len(parts) == 0, area(parts), len(toMerge) == 0, area(toMerge))
  ensures area: ok ==> area(r) == opArea(1, len(parts) == 0, area(parts), len(toMerge) == 0, area(toMerge))
  ensures none: ok ==> (len(r) == 0) == opNone(1, len(parts) == 0, area(parts), len(toMerge) == 0, area(toMerge))
  ensures nil: (!ok || len(r) == 0) ==> r == nil

# --- offsets
field osubj Int
function offArea(Int, F64) Int
function offNone(Int, F64) Bool
function otherOff(Seq, Int, Int) Int
# the distance of inset k
function offsetOf(Int, Int, Int) F64
  axiom forall a, b, k :: {offsetOf(a, b, k)} offsetOf(a, b, k) == conv(a - k * b, "float64")

func clipper.NewClipperOffset() (c)
  trusted polygon library: a new instance has no input
  modifies nothing
  ensures new: c != nil && fresh(c) && osubj(c) == 0

func (*clipper.ClipperOffset).Clear(c)
  trusted polygon library: removes the input
  modifies osubj(c)
  ensures none: osubj(c) == 0

func (*clipper.ClipperOffset).AddPaths(c, ps, joint, end)
  trusted polygon library: adds some lines
  requires solid: forall i in 0..len(ps), k in 0..len(ps[i]) :: ps[i][k] != nil
  modifies osubj(c)
  ensures lines: osubj(c) == old(osubj(c)) + (if int(joint) == 0 && int(end) == 0 then cones(ps) else otherOff(clines(ps), int(joint), int(end)))

func (*clipper.ClipperOffset).Execute2(c, delta) (tree)
  trusted polygon library: the result is a function of the input
  modifies nothing
  ensures tree: tree != nil && fresh(tree)
  ensures area: subs(tree.PolyNode.m_Childs) == offArea(osubj(c), delta) && (len(tree.PolyNode.m_Childs) == 0) == offNone(osubj(c), delta)

func (clip.clipperClipper).Inset(c, part, offset, insetCount, initialOffset) (r)
  property C11
  reveal offsetOf
  requires part: part != nil
  given parts: solid(part.Outline()) && forall i in 0..len(part.Holes()) :: solid(part.Holes()[i])
  given alloc: allocated(part.Outline()) && allocated(part.Holes())
  given weights: weight(ref(part)) == one(path11(ptsOf(part.Outline()))) + ones(part.Holes())
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures count: len(r) == (if insetCount > 0 then insetCount else 0)
  ensures solid: forall i in 0..len(r), k in 0..len(r[i]) :: r[i][k] != nil
  ensures area: forall i in 0..len(r) :: {r[i]} area(r[i]) == offArea(weight(ref(part)), offsetOf(int(initialOffset), int(offset), i)) && (len(r[i]) == 0) == offNone(weight(ref(part)), offsetOf(int(initialOffset), int(offset), i))
  ensures alloc: forall i in 0..len(r) :: {r[i]} (cap(r[i]) > 0 ==> fresh(r[i])) && allocated(r[i])
  loop 0
    invariant count: len(insets) == iter && insetNr == iter && (iter == 0 || iter <= insetCount)
    invariant fresh: cap(insets) > 0 ==> fresh(insets)
    invariant offset: currentOffset == conv(int(initialOffset) - iter*int(offset), "float64")
    invariant solid: forall i in 0..iter, k in 0..len(insets[i]) :: insets[i][k] != nil
    invariant alloc: forall i in 0..iter :: {insets[i]} (cap(insets[i]) > 0 ==> fresh(insets[i])) && allocated(insets[i])
    invariant area: forall i in 0..iter :: {insets[i]} area(insets[i]) == offArea(weight(ref(part)), conv(int(initialOffset) - i*int(offset), "float64")) && (len(insets[i]) == 0) == offNone(weight(ref(part)), conv(int(initialOffset) - i*int(offset), "float64"))

func (clip.clipperClipper).InsetLayer(c, layer, offset, insetCount, initialOffset) (r)
  property C11
  requires parts: forall p in 0..len(layer) :: layer[p] != nil
  modifies nothing
  ensures fresh: cap(r) > 0 ==> fresh(r)
  ensures count: len(r) == len(layer) && forall p in 0..len(r) :: len(r[p]) == (if insetCount > 0 then insetCount else 0)
  ensures solid: forall p in 0..len(r), i in 0..len(r[p]), k in 0..len(r[p][i]) :: r[p][i][k] != nil
  ensures area: forall p in 0..len(r), i in 0..len(r[p]) :: {r[p][i]} area(r[p][i]) == offArea(weight(ref(layer[p])), offsetOf(int(initialOffset), int(offset), i)) && (len(r[p][i]) == 0) == offNone(weight(ref(layer[p])), offsetOf(int(initialOffset), int(offset), i))
  ensures alloc: forall p in 0..len(r) :: {r[p]} allocated(r[p]) && (cap(r[p]) > 0 ==> fresh(r[p])) && forall i in 0..len(r[p]) :: {r[p][i]} allocated(r[p][i])
  loop 0
    invariant fresh: cap(result) > 0 ==> fresh(result)
    invariant count: len(result) == iter && forall p in 0..iter :: len(result[p]) == (if insetCount > 0 then insetCount else 0)
    invariant solid: forall p in 0..iter, i in 0..len(result[p]), k in 0..len(result[p][i]) :: result[p][i][k] != nil
    invariant alloc: forall p in 0..iter :: {result[p]} allocated(result[p]) && (cap(result[p]) > 0 ==> fresh(result[p])) && forall i in 0..len(result[p]) :: {result[p][i]} allocated(result[p][i])
    invariant area: forall p in 0..iter, i in 0..len(result[p]) :: {result[p][i]} area(result[p][i]) == offArea(weight(ref(layer[p])), offsetOf(int(initialOffset), int(offset), i)) && (len(result[p][i]) == 0) == offNone(weight(ref(layer[p])), offsetOf(int(initialOffset), int(offset), i))

# --- other uses
function simplified(Seq, Int, Int) Seq
iface data.Layer
define cleaned(l) = sum k in 0..len(l.Polygons()) :: one(path11(simplified(ptsOf(l.Polygons()[k]), -1, -1)))

func (clip.clipperClipper).GenerateLayerParts(c, l) (r, ok)
  property C11
  track cones
  requires layer: l != nil
  requires near: forall k in 0..len(l.Polygons()) :: nearPath(l.Polygons()[k]) && len(l.Polygons()[k]) <= 40000
  given alloc: allocated(l.Polygons()) && forall k in 0..len(l.Polygons()) :: allocated(l.Polygons()[k])
  modifies nothing
  ensures ok: ok == (len(l.Polygons()) == 0 || answers(1, 0, 0, 0, old(cleaned(l)), 0))
  ensures parts: ok ==> r != nil && area(r.LayerParts()) == (if len(l.Polygons()) == 0 then 0 else answer(1, 0, 0, 0, old(cleaned(l)), 0)) && (len(r.LayerParts()) == 0) == (len(l.Polygons()) == 0 || nothing(1, 0, 0, 0, old(cleaned(l)), 0))
  loop 0
    invariant fresh: cap(polyList) > 0 ==> fresh(polyList)
    invariant length: len(polyList) == iter
    invariant solid: forall k in 0..len(polyList), i in 0..len(polyList[k]) :: polyList[k][i] != nil
    invariant alloc: forall k in 0..len(polyList) :: allocated(polyList[k]) && forall i in 0..len(polyList[k]) :: allocated(polyList[k][i])
    invariant lines: cones(polyList) == old(sum k in 0..iter :: one(path11(simplified(ptsOf(l.Polygons()[k]), -1, -1))))

func (clip.clipperClipper).TopLevelPolygons(c, parts) (r, ok)
  property C11
  track lines
  requires parts: forall k in 0..len(parts) :: parts[k] != nil
  given solid: forall k in 0..len(parts) :: solid(parts[k].Outline())
  given alloc: forall k in 0..len(parts) :: allocated(parts[k].Outline())
  modifies nothing
  ensures ok: ok == answers(1, 0, 0, 0, old(sum k in 0..len(parts) :: one(path11(ptsOf(parts[k].Outline())))), 0)
  ensures outlines: ok ==> lines(r) == outlines(1, 0, 0, 0, old(sum k in 0..len(parts) :: one(path11(ptsOf(parts[k].Outline())))), 0)
  loop 0
    invariant subject: subj(cl) == old(sum k in 0..iter :: one(path11(ptsOf(parts[k].Outline())))) && clp(cl) == 0 && kind(cl) == 0
  loop 1
    invariant fresh: cap(topLevel) > 0 ==> fresh(topLevel)
    invariant alloc: forall k in 0..len(topLevel) :: allocated(topLevel[k]) && forall i in 0..len(topLevel[k]) :: allocated(topLevel[k][i])
    invariant lines: lines(topLevel) == (seq k in 0..iter :: path11(cpoints(tree.PolyNode.m_Childs[k].m_polygon)))


# --- whether a straight line crosses a perimeter
function lineW(Int, Int, Int, Int) Int
define nowhere(ax, ay, bx, by) = int(ax) == int(bx) && int(ay) == int(by)
define crossable(w, ax, ay, bx, by) = nowhere(ax, ay, bx, by) || answers(2, 0, 0, 1, lineW(int(ax), int(ay), int(bx), int(by)), w)
define crosses(w, ax, ay, bx, by) = !nowhere(ax, ay, bx, by) && crossable(w, ax, ay, bx, by) && total(2, 0, 0, 1, lineW(int(ax), int(ay), int(bx), int(by)), w) > 0

func (clip.clipperClipper).IsCrossingPerimeter(c, parts, line) (result, ok)
  property C11 C18
  requires way: len(line) == 2 && line[0] != nil && line[1] != nil
  given line: open11(path11(ptsOf(line))) == lineW(int(line[0].X()), int(line[0].Y()), int(line[1].X()), int(line[1].Y()))
  given parts: forall k in 0..len(parts) :: parts[k] != nil && solid(parts[k].Outline()) && forall i in 0..len(parts[k].Holes()) :: solid(parts[k].Holes()[i])
  given alloc: forall k in 0..len(parts) :: allocated(parts[k].Outline()) && allocated(parts[k].Holes())
  given weights: forall k in 0..len(parts) :: {ref(parts[k])} weight(ref(parts[k])) == one(path11(ptsOf(parts[k].Outline()))) + ones(parts[k].Holes())
  modifies nothing
  ensures result: result == crosses(area(parts), line[0].X(), line[0].Y(), line[1].X(), line[1].Y())
  ensures ok: ok == crossable(area(parts), line[0].X(), line[0].Y(), line[1].X(), line[1].Y())
  loop 0
    invariant subject: subj(cl) == 0 && kind(cl) == 1
    invariant clip: clp(cl) == old(sum k in 0..iter :: weight(ref(parts[k])))

# --- the hull around all points
function dot(Int, Int) Int
function hullOf(Int) Seq
measure dots(p data.MicroPoint) = dot(int(p.X()), int(p.Y()))

func go_convex_hull_2d.New(p) (r)
  trusted hull library: takes all points, sorts them, and answers with some of them
  requires path: is(p, "data.Path") && solid(as(p, "data.Path"))
  modifies elems(as(p, "data.Path"))
  ensures path: is(r, "data.Path")
  ensures alloc: allocated(as(r, "data.Path")) && forall k in 0..len(as(r, "data.Path")) :: allocated(as(r, "data.Path")[k])
  ensures solid: solid(as(r, "data.Path"))
  ensures hull: ptsOf(as(r, "data.Path")) == hullOf(old(dots(as(p, "data.Path"))))

func (clip.clipperClipper).Hull(c, parts) (r, ok)
  property C11
  track dots
  requires parts: forall k in 0..len(parts) :: parts[k] != nil
  given solid: forall k in 0..len(parts) :: solid(parts[k].Outline())
  given alloc: forall k in 0..len(parts) :: allocated(parts[k].Outline()) && forall i in 0..len(parts[k].Outline()) :: allocated(parts[k].Outline()[i])
  modifies nothing
  ensures ok: ok && allocated(r)
  ensures solid: forall k in 0..len(r) :: r[k] != nil && allocated(r[k])
  ensures hull: ptsOf(r) == hullOf(old(sum k in 0..len(parts) :: dots(parts[k].Outline())))
  loop 0
    invariant fresh: cap(allPoints) > 0 ==> fresh(allPoints)
    invariant solid: forall k in 0..len(allPoints) :: allPoints[k] != nil && allocated(allPoints[k])
    invariant dots: dots(allPoints) == old(sum k in 0..iter :: dots(parts[k].Outline()))
