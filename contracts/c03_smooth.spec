# C03: smoothing. dist2 is the squared distance of a point from the line through a and b (from a if a and b are the
# same point), rounded up to a whole number; described by the cross product, not by the formula of the code.
define dx(a, b) = px(b) - px(a)
define dy(a, b) = py(b) - py(a)
define cross(a, b, p) = dx(a, b) * dy(a, p) - dy(a, b) * dx(a, p)
define len2(a, b) = dx(a, b) * dx(a, b) + dy(a, b) * dy(a, b)
define near(p) = p != nil && small(px(p)) && small(py(p))

func data.DotProduct(a, b) (r)
  property C03
  inline
  requires a != nil && b != nil
  requires near: small(px(a)) && small(py(a)) && small(px(b)) && small(py(b))
  overflow
  modifies nothing
  ensures value: r == px(a) * px(b) + py(a) * py(b)

# squares and products behind a name, so that a caller can reason with equal arguments instead of expanded products
function sq(Int) Int
axiom square: forall u :: {sq(u)} sq(u) == u * u
function prod(Int, Int) Int
axiom product: forall u, v :: {prod(u, v)} prod(u, v) == u * v

func data.squareDiv(a, b) (r)
  reveal sq
  reveal prod
  logged
  property C03 C04
  requires positive: b > 0 && a > -9223372036854775808
  overflow
  modifies nothing
  ensures small: (r == 9223372036854775807 && sq(a) >= prod(9223372036854775807, b)) || (0 <= r && prod(r, b) <= sq(a) && sq(a) < prod(r, b) + b)

function dist2(Int, Int, Int, Int, Int, Int) Int
define l2(ax, ay, bx, by) = (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
define cr(ax, ay, bx, by, cx, cy) = (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
axiom point: forall ax, ay, bx, by, cx, cy :: l2(ax, ay, bx, by) == 0 ==> dist2(ax, ay, bx, by, cx, cy) == l2(ax, ay, cx, cy)
axiom line: forall ax, ay, bx, by, cx, cy :: l2(ax, ay, bx, by) > 0 ==>
  cr(ax, ay, bx, by, cx, cy) * cr(ax, ay, bx, by, cx, cy) <= dist2(ax, ay, bx, by, cx, cy) * l2(ax, ay, bx, by)
  && dist2(ax, ay, bx, by, cx, cy) * l2(ax, ay, bx, by) < cr(ax, ay, bx, by, cx, cy) * cr(ax, ay, bx, by, cx, cy) + l2(ax, ay, bx, by)
define d2(a, b, p) = dist2(px(a), py(a), px(b), py(b), px(p), py(p))

theorem mono(u, c, l) = u <= c && l > 0 ==> u * l <= c * l
theorem monoprod(u, c, l) = u <= c && l > 0 ==> prod(u, l) <= prod(c, l)
theorem square(u) = u * u >= 0
theorem sign(u, l) = l > 0 && u * l >= 0 ==> u >= 0
theorem apart(u, v, l) = l > 0 && u * l < v * l + l && v * l < u * l + l ==> u == v

func data.PerpendicularDistance2(a, b, point) (r)
  property C03 C04
  requires near: near(a) && near(b) && near(point)
  overflow
  modifies nothing
  reveal dist2
  reveal sq
  reveal prod
  use square(cross(a, b, point))
  use mono(len2(a, point), 1600000000000000, len2(a, b))
  lemma fits: ncalls("data.squareDiv") == 1 ==> callret("data.squareDiv", 0, 0) != 9223372036854775807
  lemma sandwich: ncalls("data.squareDiv") == 1 ==> cross(a, b, point) * cross(a, b, point) <= (len2(a, point) - callret("data.squareDiv", 0, 0)) * len2(a, b)
    && (len2(a, point) - callret("data.squareDiv", 0, 0)) * len2(a, b) < cross(a, b, point) * cross(a, b, point) + len2(a, b)
  use ncalls("data.squareDiv") == 1 ==> sign(len2(a, point) - callret("data.squareDiv", 0, 0), len2(a, b))
  use ncalls("data.squareDiv") == 1 ==> apart(len2(a, point) - callret("data.squareDiv", 0, 0), d2(a, b, point), len2(a, b))
  ensures range: 0 <= r <= 1600000000000000
  ensures distance: r == d2(a, b, point)

define nearPath(p) = forall k in 0..len(p) :: near(p[k])

func data.seekMostDistantPoint(p1, p2, points) (idx, maxDist)
  logged
  property C03
  requires near: near(p1) && near(p2) && nearPath(points)
  overflow
  modifies nothing
  ensures all: forall k in 0..len(points) :: d2(p1, p2, points[k]) <= maxDist
  ensures range: 0 <= maxDist <= 1600000000000000
  ensures found: maxDist > 0 ==> 0 <= idx < len(points) && d2(p1, p2, points[idx]) == maxDist
  ensures none: maxDist == 0 ==> idx == 0
  loop 0
    invariant range: 0 <= i <= len(points) && 0 <= maxDist <= 1600000000000000
    invariant all: forall k in 0..i :: d2(p1, p2, points[k]) <= maxDist
    invariant found: maxDist > 0 ==> 0 <= idx < i && d2(p1, p2, points[idx]) == maxDist
    invariant none: maxDist == 0 ==> idx == 0
    decreases len(points) - i

# the kept points r are the points p[f(0)], p[f(1)], ...
define indices(r, p, f) = forall k in 0..len(r) :: {f(k)} 0 <= f(k) < len(p)
define selected(r, p, f) = forall k in 0..len(r) :: {f(k)} r[k] != nil && allocated(r[k]) && px(r[k]) == px(old(p[f(k)])) && py(r[k]) == py(old(p[f(k)]))
define increasing(r, f) = forall k in 0..len(r), l in 0..len(r) :: {f(k), f(l)} k < l ==> f(k) < f(l)

func data.douglasPeucker(points, ep, depth) (r)
  property C03
  requires near: nearPath(points)
  requires positive: ep > 0
  requires depth: 0 <= depth <= 200
  overflow
  modifies nothing
  ghost f (Int)Int
  witness f = if ncalls("data.seekMostDistantPoint") == 0 then (lambda k :: k)
    else if ncalls("data.douglasPeucker") == 0 then (lambda k :: if k == 0 then 0 else len(points) - 1)
    else (lambda k :: if k < len(callret("data.douglasPeucker", 0)) - 1 then callghost("data.douglasPeucker", 0, f)(k) else callghost("data.douglasPeucker", 1, f)(k - len(callret("data.douglasPeucker", 0)) + 1) + callret("data.seekMostDistantPoint", 0, 0))
  ensures memory: same(r, points) || fresh(r)
  ensures short: len(points) <= 2 ==> len(r) == len(points)
  ensures long: len(points) >= 2 ==> 2 <= len(r) <= len(points)
  ensures indices: indices(r, points, f)
  ensures points: forall k in 0..len(r) :: r[k] != nil && allocated(r[k])
  ensures selected: selected(r, points, f)
  ensures increasing: increasing(r, f)
  ensures first: len(points) > 0 ==> f(0) == 0
  ensures last: len(points) > 0 ==> f(len(r) - 1) == len(points) - 1
  ensures tolerance: forall k in 0..len(r), l in 0..len(r), j in 0..len(points) :: {f(k), f(l), px(old(points[j]))} k < l && l <= k + 1 && f(k) < j && j < f(l) ==> d2(r[k], r[l], old(points[j])) < ep

func data.DouglasPeucker(points, epsilon) (r)
  property C03
  requires near: nearPath(points)
  requires positive: epsilon > 0 || epsilon == -1
  modifies nothing
  ghost f (Int)Int
  witness f = callghost("data.douglasPeucker", 0, f)
  ensures memory: same(r, points) || fresh(r)
  ensures indices: indices(r, points, f)
  ensures points: forall k in 0..len(r) :: r[k] != nil && allocated(r[k])
  ensures selected: selected(r, points, f)
  ensures increasing: increasing(r, f)
  ensures length: (len(points) >= 2 ==> len(r) >= 2) && (len(points) == 1 ==> len(r) == 1) && (len(points) == 0 ==> len(r) == 0)
  ensures first: len(points) > 0 ==> f(0) == 0
  ensures last: len(points) > 0 ==> f(len(r) - 1) == len(points) - 1
  ensures tolerance: forall k in 0..len(r), l in 0..len(r), j in 0..len(points) :: {f(k), f(l), px(old(points[j]))} k < l && l <= k + 1 && f(k) < j && j < f(l) ==> d2(r[k], r[l], old(points[j])) < (if epsilon == -1 then 70 else epsilon)
