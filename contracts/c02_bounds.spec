# C02: bounding boxes.
define px(p) = as(p, "*data.microPoint").x
define py(p) = as(p, "*data.microPoint").y

func (data.Path).Bounds(p) (lo, hi)
  property C02
  requires elems: forall k in 0..len(p) :: p[k] != nil
  modifies nothing
  ensures nonnil: lo != nil && hi != nil && fresh(lo) && fresh(hi)
  ensures empty: len(p) == 0 ==> px(lo) == 0 && py(lo) == 0 && px(hi) == 0 && py(hi) == 0
  ensures contains: forall k in 0..len(p) :: px(lo) <= px(p[k]) <= px(hi) && py(lo) <= py(p[k]) <= py(hi)
  ensures touched: len(p) > 0 ==> (exists k in 0..len(p) :: px(p[k]) == px(lo)) && (exists k in 0..len(p) :: px(p[k]) == px(hi)) && (exists k in 0..len(p) :: py(p[k]) == py(lo)) && (exists k in 0..len(p) :: py(p[k]) == py(hi))
  loop 0
    invariant lower: forall k in 0..iter :: minX <= px(p[k]) && minY <= py(p[k])
    invariant upper: forall k in 0..iter :: px(p[k]) <= maxX && py(p[k]) <= maxY
    invariant touched: iter > 0 ==> (exists k in 0..iter :: px(p[k]) == minX) && (exists k in 0..iter :: px(p[k]) == maxX) && (exists k in 0..iter :: py(p[k]) == minY) && (exists k in 0..iter :: py(p[k]) == maxY)
    invariant start: iter == 0 ==> minX == 9223372036854775807 && minY == 9223372036854775807 && maxX == -9223372036854775808 && maxY == -9223372036854775808

define bounded(p, i, k, minX, minY, maxX, maxY) = minX <= px(p[i][k]) <= maxX && minY <= py(p[i][k]) <= maxY

func (data.Paths).Bounds(p) (lo, hi)
  property C02
  requires elems: forall i in 0..len(p), k in 0..len(p[i]) :: p[i][k] != nil
  modifies nothing
  ensures nonnil: lo != nil && hi != nil && fresh(lo) && fresh(hi)
  ensures empty: (forall i in 0..len(p) :: len(p[i]) == 0) ==> px(lo) == 0 && py(lo) == 0 && px(hi) == 0 && py(hi) == 0
  ensures contains: forall i in 0..len(p), k in 0..len(p[i]) :: bounded(p, i, k, px(lo), py(lo), px(hi), py(hi))
  ensures touched: (forall i in 0..len(p) :: len(p[i]) == 0) || ((exists i in 0..len(p), k in 0..len(p[i]) :: px(p[i][k]) == px(lo)) && (exists i in 0..len(p), k in 0..len(p[i]) :: px(p[i][k]) == px(hi)) && (exists i in 0..len(p), k in 0..len(p[i]) :: py(p[i][k]) == py(lo)) && (exists i in 0..len(p), k in 0..len(p[i]) :: py(p[i][k]) == py(hi)))
  loop 0
    invariant contains: forall i in 0..iter0, k in 0..len(p[i]) :: bounded(p, i, k, minX, minY, maxX, maxY)
    invariant touched: any ==> (exists i in 0..iter0, k in 0..len(p[i]) :: px(p[i][k]) == minX) && (exists i in 0..iter0, k in 0..len(p[i]) :: px(p[i][k]) == maxX) && (exists i in 0..iter0, k in 0..len(p[i]) :: py(p[i][k]) == minY) && (exists i in 0..iter0, k in 0..len(p[i]) :: py(p[i][k]) == maxY)
    invariant start: any || minX == 9223372036854775807 && minY == 9223372036854775807 && maxX == -9223372036854775808 && maxY == -9223372036854775808
    invariant any: any || (forall i in 0..iter0 :: len(p[i]) == 0)
  loop 1
    invariant contains: forall i in 0..iter0, k in 0..len(p[i]) :: bounded(p, i, k, minX, minY, maxX, maxY)
    invariant contains2: forall k in 0..iter1 :: bounded(p, iter0, k, minX, minY, maxX, maxY)
    invariant touched: any ==> ((exists i in 0..iter0, k in 0..len(p[i]) :: px(p[i][k]) == minX) || (exists k in 0..iter1 :: px(p[iter0][k]) == minX)) && ((exists i in 0..iter0, k in 0..len(p[i]) :: px(p[i][k]) == maxX) || (exists k in 0..iter1 :: px(p[iter0][k]) == maxX)) && ((exists i in 0..iter0, k in 0..len(p[i]) :: py(p[i][k]) == minY) || (exists k in 0..iter1 :: py(p[iter0][k]) == minY)) && ((exists i in 0..iter0, k in 0..len(p[i]) :: py(p[i][k]) == maxY) || (exists k in 0..iter1 :: py(p[iter0][k]) == maxY))
    invariant start: any || minX == 9223372036854775807 && minY == 9223372036854775807 && maxX == -9223372036854775808 && maxY == -9223372036854775808
    invariant any: any || iter1 == 0 && (forall i in 0..iter0 :: len(p[i]) == 0)

# A layer part is a value whose outline, holes and attributes are fixed by the value
# (data.NewBasicLayerPart; the other implementations wrap one).
iface data.LayerPart

func (data.partitionedLayer).Bounds(p) (lo, hi)
  property C02
  requires parts: forall i in 0..len(p.parts) :: p.parts[i] != nil
  requires elems: forall i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: p.parts[i].Outline()[k] != nil
  requires alloc: forall i in 0..len(p.parts) :: allocated(p.parts[i].Outline())
  modifies nothing
  ensures nonnil: lo != nil && hi != nil && fresh(lo) && fresh(hi)
  ensures empty: (forall i in 0..len(p.parts) :: len(p.parts[i].Outline()) == 0) ==> px(lo) == 0 && py(lo) == 0 && px(hi) == 0 && py(hi) == 0
  ensures contains: forall i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: px(lo) <= px(p.parts[i].Outline()[k]) <= px(hi) && py(lo) <= py(p.parts[i].Outline()[k]) <= py(hi)
  ensures touched: (forall i in 0..len(p.parts) :: len(p.parts[i].Outline()) == 0) || ((exists i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: px(p.parts[i].Outline()[k]) == px(lo)) && (exists i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: px(p.parts[i].Outline()[k]) == px(hi)) && (exists i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: py(p.parts[i].Outline()[k]) == py(lo)) && (exists i in 0..len(p.parts), k in 0..len(p.parts[i].Outline()) :: py(p.parts[i].Outline()[k]) == py(hi)))
  loop 0
    invariant len: len(paths) == iter
    invariant same: forall i in 0..iter :: same(paths[i], p.parts[i].Outline())
