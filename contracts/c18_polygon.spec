# C18: printing a path. The moves made are described by their events (see C17).
define mm(v) = data.Micrometer(v).ToMillimeter()
define lengthMM(dx, dy) = conv(math.Sqrt(conv(mm(dx) * mm(dx) + mm(dy) * mm(dy), "float64")), "data.Millimeter")

func (*data.microPoint).SizeMM(p) (r)
  property C18
  requires p != nil
  modifies nothing
  ensures length: same(r, lengthMM(p.x, p.y))

iface data.PartitionedLayer

define retracting(g, layer) = layer != nil && g.retractionSpeed != 0 && !feq(g.retractionAmount, 0)
define crossing(g, layer, p) = crosses(area(layer.LayerParts()), g.currentPosition.X(), g.currentPosition.Y(), p.X(), p.Y())
define calculable(g, layer, p) = crossable(area(layer.LayerParts()), g.currentPosition.X(), g.currentPosition.Y(), p.X(), p.Y())

# the way to the first point p
define hopping(g) = data.Millimeter(0) < g.zHopOnRetract
define retracted(g, t, crossed) = if crossed then move(t, g.currentPosition.X(), g.currentPosition.Y(), g.currentPosition.Z(), -g.retractionAmount, g.retractionSpeed) else t
define lifted(g, t, z) = move(t, g.currentPosition.X(), g.currentPosition.Y(), z, data.Millimeter(0), g.moveSpeed)
define hopZ(g, z) = z + g.zHopOnRetract.ToMicrometer()
define travelled(g, t, p, z) = move(t, p.X(), p.Y(), z, data.Millimeter(0), g.moveSpeed)
define travelPlain(g, t, p, z) = travelled(g, t, p, z)
define travelFlat(g, t, p, z) = move(travelled(g, retracted(g, t, true), p, z), p.X(), p.Y(), z, g.retractionAmount, g.retractionSpeed)
define travelHop(g, t, p, z) = move(travelled(g, travelled(g, lifted(g, retracted(g, t, true), hopZ(g, z)), p, hopZ(g, z)), p, z), p.X(), p.Y(), z, g.retractionAmount, g.retractionSpeed)
define isCrossed(g, layer, p) = retracting(g, layer) && crossing(g, layer, p)
define travel(g, t, layer, p, z) = if isCrossed(g, layer, p) then (if hopping(g) then travelHop(g, t, p, z) else travelFlat(g, t, p, z)) else travelPlain(g, t, p, z)
# extruding along a segment
define amount(g, p, q) = lengthMM(q.X() - p.X(), q.Y() - p.Y()) * g.extrusionPerMM
define extruded(g, t, p, q, z) = move(t, q.X(), q.Y(), z, amount(g, p, q), speedOf(g, amount(g, p, q)))
# the smoothed path inside of the body
define kept(k) = callghost("data.DouglasPeucker", 0, f)(k)
define keptLen() = len(callret("data.DouglasPeucker", 0, 0))

# the path printed: its points, height, whether it is open, the speed, and the layer whose perimeters are looked at
function evPath(Seq, Int, Int, Int, Int, Bool, Int, Int) Seq

# n points of the path are left after smoothing, they are polygon[f(0)], polygon[f(1)], ...
func (*gcode.Builder).AddPolygon(g, currentLayer, polygon, z, open) (err)
  property C18
  requires builder(g) && nearPath(polygon)
  event evPath(trace, leaf(polygon, 0), leaf(polygon, 1), len(polygon), z, open, g.extrudeSpeed, ref(currentLayer))
  modifies moves, *g.buf, g.notFirstMoveX, g.notFirstMoveY, g.notFirstMoveZ, g.currentSpeed, g.extrusionAmount, g.currentPosition
  ghost m (Int)Seq
  ghost f (Int)Int
  ghost n Int
  witness m = m ?? const("")
  witness f = callghost("data.DouglasPeucker", 0, f) ?? const(0)
  witness n = len(callret("data.DouglasPeucker", 0, 0)) ?? 0
  ensures builder: builder(g)
  ensures length: (len(polygon) == 0) == (n == 0)
  ensures indices: forall k in 0..n :: {f(k)} 0 <= f(k) < len(polygon)
  ensures first: len(polygon) > 0 ==> f(0) == 0 && f(n - 1) == len(polygon) - 1
  ensures increasing: forall k in 0..n, l in 0..n :: {f(k), f(l)} k < l ==> f(k) < f(l)
  ensures tolerance: forall k in 0..n, l in 0..n, j in 0..len(polygon) :: {f(k), f(l), px(old(polygon[j]))} k < l && l <= k + 1 && f(k) < j && j < f(l) ==> d2(old(polygon[f(k)]), old(polygon[f(l)]), old(polygon[j])) < 70
  ensures empty: len(polygon) == 0 ==> err == nil && moves == old(moves) && g.String() == old(g.String())
  ensures failing: err != nil ==> moves == old(moves) && g.String() == old(g.String())
  ensures possible: len(polygon) > 0 ==> (err == nil) == old(!retracting(g, currentLayer) || calculable(g, currentLayer, polygon[0]))
  ensures travel: len(polygon) > 0 && err == nil ==> m(1) == old(travel(g, moves, currentLayer, polygon[0], z))
  ensures follow: len(polygon) > 0 && err == nil ==> forall k in 1..n :: {m(k)} m(k + 1) == old(extruded(g, m(k), polygon[f(k - 1)], polygon[f(k)], z))
  ensures open: len(polygon) > 0 && err == nil && open ==> moves == m(n)
  ensures closed: len(polygon) > 0 && err == nil && !open ==> moves == old(extruded(g, m(n), polygon[f(n - 1)], polygon[0], z))
  loop 0
    ghost m (Int)Seq = store(const(""), 0, moves)
    step m = store(m, iter, moves)
    invariant builder: builder(g)
    invariant now: moves == m(iter)
    invariant start: iter == 0 ==> moves == old(moves) && g.String() == old(g.String()) && same(g.currentPosition, old(g.currentPosition))
    invariant possible: iter > 0 ==> old(!retracting(g, currentLayer) || calculable(g, currentLayer, polygon[0]))
    invariant travel: iter > 0 ==> m(1) == old(travel(g, moves, currentLayer, polygon[0], z))
    invariant last: iter > 1 ==> m(iter) == old(extruded(g, m(iter - 1), polygon[kept(iter - 2)], polygon[kept(iter - 1)], z))
    invariant follow: forall k in 1..iter :: {m(k)} m(k + 1) == old(extruded(g, m(k), polygon[kept(k - 1)], polygon[kept(k)], z))
