# C04: polygon simplification. The vertices kept are p[f(0)], p[f(1)], ...; cnt(m) is how many vertices before m are
# kept, so that vertex m is kept exactly if f(cnt(m)) == m (then kp(m)); w(m) is the sum of the shoelace terms c of the
# edges up to vertex m (w(0) is the closing edge); (bx, by) is the vertex kept last before m, (nx, ny) the one after m
# and sum the shoelace sum of the edges between the former and m.
define shoe(a, b) = px(a) * py(b) - py(a) * px(b)
define shoe2(ax, ay, bx, by) = ax * by - ay * bx
define keeps(r, f, cnt, m) = cnt(m) < len(r) && f(cnt(m)) == m
# the vertex kept last before m (the last one of the polygon if there is none)
define before(p, r, cnt, m) = if cnt(m) > 0 then r[cnt(m) - 1] else p[len(p) - 1]
# the vertex after m; after the last one the first kept one if there are two already
define after(p, r, m) = if m + 1 < len(p) then p[m + 1] else if len(r) > 1 then r[0] else p[0]
# the squared height of the triangle with twice this area over the new edge is at most e (rounded down)
define flat(area, base, e) = sq(area) < prod(e, base) + base
# b: kept last, p: the vertex, n: the next one; the area is that of the polygon from b over the dropped ones to p, n, b
define droppable(bx, by, x, y, nx, ny, area, small, err) =
  l2(bx, by, nx, ny) == 0
  || (flat(area, l2(bx, by, nx, ny), 25) && dist2(x, y, bx, by, nx, ny) <= 25)
  || (l2(bx, by, x, y) < small && l2(x, y, nx, ny) < small && flat(area, l2(bx, by, nx, ny), err))
define def(v, d) = if v == -1 then d else v

func (data.Path).Simplify(p, smallestLineSegmentSquared, allowedErrorDistanceSquared) (r)
  property C04
  requires near: nearPath(p)
  requires length: len(p) <= 40000
  requires limits: -1 <= smallestLineSegmentSquared <= 1000000000000000 && -1 <= allowedErrorDistanceSquared <= 1000000000000000
  reveal prod
  overflow
  modifies nothing
  assert productsxy: forall m in 0..len(p), l in 0..len(p) :: {px(p[m]) * py(p[l])} -100000000000000 <= px(p[m]) * py(p[l]) <= 100000000000000
  assert productsxx: forall m in 0..len(p), l in 0..len(p) :: {px(p[m]) * px(p[l])} -100000000000000 <= px(p[m]) * px(p[l]) <= 100000000000000 && dx(p[m], p[l]) * dx(p[m], p[l]) >= 0
  assert productsyy: forall m in 0..len(p), l in 0..len(p) :: {py(p[m]) * py(p[l])} -100000000000000 <= py(p[m]) * py(p[l]) <= 100000000000000 && dy(p[m], p[l]) * dy(p[m], p[l]) >= 0
  ensures solid: forall k in 0..len(r) :: r[k] != nil
  givenpost simplified: ptsOf(r) == simplified(old(ptsOf(p)), int(smallestLineSegmentSquared), int(allowedErrorDistanceSquared))
  ghost f (Int)Int
  ghost cnt (Int)Int
  ghost kp (Int)Bool
  ghost c (Int)Int
  ghost w (Int)Int
  ghost bx (Int)Int
  ghost by (Int)Int
  ghost nx (Int)Int
  ghost ny (Int)Int
  ghost area (Int)Int
  witness f = f ?? const(0)
  witness cnt = cnt ?? const(0)
  witness kp = kp ?? const(false)
  witness c = c ?? const(0)
  witness w = w ?? const(0)
  witness bx = bx ?? const(0)
  witness by = by ?? const(0)
  witness nx = nx ?? const(0)
  witness ny = ny ?? const(0)
  witness area = area ?? const(0)
  ensures tiny: len(p) <= 2 ==> len(r) == 0
  ensures triangle: len(p) == 3 ==> same(r, p)
  ensures indices: len(p) > 3 ==> indices(r, p, f)
  ensures selected: len(p) > 3 ==> (forall k in 0..len(r) :: {f(k)} r[k] == old(p[f(k)]))
  ensures increasing: len(p) > 3 ==> increasing(r, f)
  ensures count: len(p) > 3 ==> (forall m in 0..len(p) :: {cnt(m)} 0 <= cnt(m) <= len(r) && (cnt(m) > 0 ==> f(cnt(m) - 1) < m) && (cnt(m) < len(r) ==> f(cnt(m)) >= m))
  ensures kept: len(p) > 3 ==> (forall m in 0..len(p) :: {kp(m)} kp(m) == keeps(r, f, cnt, m))
  ensures edges: len(p) > 3 ==> w(0) == shoe(p[len(p) - 1], p[0]) && (forall m in 0..len(p) - 1 :: {c(m)} c(m) == shoe(p[m], p[m + 1]) && w(m + 1) == w(m) + c(m))
  ensures before: len(p) > 3 ==> (forall m in 0..len(p) :: {bx(m)} bx(m) == px(before(p, r, cnt, m)) && by(m) == py(before(p, r, cnt, m)))
  ensures after: len(p) > 3 ==> (forall m in 0..len(p) :: {kp(m)} kp(m) || (nx(m) == px(after(p, r, m)) && ny(m) == py(after(p, r, m))))
  ensures area: len(p) > 3 ==> (forall m in 0..len(p) :: {area(m)} area(m) == w(m) - (if cnt(m) > 0 then w(f(cnt(m) - 1)) else 0) + shoe2(px(p[m]), py(p[m]), nx(m), ny(m)) + shoe2(nx(m), ny(m), bx(m), by(m)))
  ensures dropped: len(p) > 3 ==> (forall m in 0..len(p) :: {kp(m)} kp(m) || droppable(bx(m), by(m), px(p[m]), py(p[m]), nx(m), ny(m), area(m), def(smallestLineSegmentSquared, 100), def(allowedErrorDistanceSquared, 25)))
  loop 0
    ghost f (Int)Int = const(0)
    ghost cnt (Int)Int = const(0)
    ghost kp (Int)Bool = const(false)
    ghost c (Int)Int = const(0)
    ghost w (Int)Int = store(const(0), 0, shoe(p[len(p) - 1], p[0]))
    ghost bx (Int)Int = const(0)
    ghost by (Int)Int = const(0)
    ghost nx (Int)Int = const(0)
    ghost ny (Int)Int = const(0)
    ghost area (Int)Int = const(0)
    ghost q Int = -1
    step f = store(f, prev(len(newPath)), if len(newPath) > prev(len(newPath)) then prev(i) else f(prev(len(newPath))))
    step cnt = store(cnt, prev(i), prev(len(newPath)))
    step kp = store(kp, prev(i), len(newPath) > prev(len(newPath)))
    step c = store(c, i - 1, if i < len(p) then shoe(p[i - 1], p[i]) else 0)
    step w = store(w, i, if i < len(p) then w(i - 1) + shoe(p[i - 1], p[i]) else 0)
    step bx = store(bx, prev(i), prev(px(previous)))
    step by = store(by, prev(i), prev(py(previous)))
    step nx = store(nx, prev(i), prev(px(after(p, newPath, i))))
    step ny = store(ny, prev(i), prev(py(after(p, newPath, i))))
    step area = store(area, prev(i), prev(areaRemoved + shoe(p[i], after(p, newPath, i)) + shoe(after(p, newPath, i), previous)))
    step q = if len(newPath) > prev(len(newPath)) then prev(i) else q
    invariant range: 0 <= i <= len(p) && len(newPath) <= i && fresh(newPath)
    invariant q: -1 <= q < i && (if len(newPath) > 0 then q == f(len(newPath) - 1) && f(0) >= 0 else q == -1)
    invariant previous: previous == (if q >= 0 then p[q] else p[len(p) - 1])
    invariant indices: forall k in 0..len(newPath) :: {f(k)} 0 <= f(k) < i
    invariant selected: forall k in 0..len(newPath) :: {f(k)} newPath[k] == p[f(k)]
    invariant increasing: increasing(newPath, f)
    invariant count: forall m in 0..i :: {cnt(m)} 0 <= cnt(m) <= len(newPath) && (cnt(m) > 0 ==> f(cnt(m) - 1) < m) && (cnt(m) < len(newPath) ==> f(cnt(m)) >= m)
    invariant kept: forall m in 0..i :: {kp(m)} kp(m) == keeps(newPath, f, cnt, m)
    invariant start: w(0) == shoe(p[len(p) - 1], p[0])
    invariant edges: forall m in 0..len(p) - 1 :: {c(m)} m < i ==> c(m) == shoe(p[m], p[m + 1]) && w(m + 1) == w(m) + c(m)
    invariant removed: i < len(p) ==> areaRemoved == w(i) - (if q >= 0 then w(q) else 0)
    invariant bound: -(i + 1) * 200000000000000 <= areaRemoved <= (i + 1) * 200000000000000
    invariant before: forall m in 0..i :: {bx(m)} bx(m) == px(before(p, newPath, cnt, m)) && by(m) == py(before(p, newPath, cnt, m))
    invariant after: forall m in 0..i :: {kp(m)} kp(m) || (nx(m) == px(after(p, newPath, m)) && ny(m) == py(after(p, newPath, m)))
    invariant area: forall m in 0..i :: {area(m)} area(m) == w(m) - (if cnt(m) > 0 then w(f(cnt(m) - 1)) else 0) + shoe2(px(p[m]), py(p[m]), nx(m), ny(m)) + shoe2(nx(m), ny(m), bx(m), by(m))
    invariant dropped: forall m in 0..i :: {kp(m)} kp(m) || droppable(bx(m), by(m), px(p[m]), py(p[m]), nx(m), ny(m), area(m), def(smallestLineSegmentSquared, 100), def(allowedErrorDistanceSquared, 25))
    use ncalls("data.squareDiv") == 1 ==> monoprod(callret("data.squareDiv", 0, 0), 25, callarg("data.squareDiv", 0, 1))
    use ncalls("data.squareDiv") == 1 ==> monoprod(callret("data.squareDiv", 0, 0), def(allowedErrorDistanceSquared, 25), callarg("data.squareDiv", 0, 1))
    assert here: len(newPath) > prev(len(newPath)) || prev(droppable(px(previous), py(previous), px(p[i]), py(p[i]), px(after(p, newPath, i)), py(after(p, newPath, i)), areaRemoved + shoe(p[i], after(p, newPath, i)) + shoe(after(p, newPath, i), previous), def(smallestLineSegmentSquared, 100), def(allowedErrorDistanceSquared, 25)))
    decreases len(p) - i
