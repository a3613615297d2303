# C08: extents of models and faces.
define vx(p) = as(p, "*data.microVec3").x
define vy(p) = as(p, "*data.microVec3").y
define vz(p) = as(p, "*data.microVec3").z
define isPos(p) = p != nil && allocated(p)

# A face is a value whose points are fixed while the extents are computed.
iface data.Face

define corner(m, k, j) = m.faces[k].Points()[j]
define ocorner(m, k, j) = m.faces[k].model.points[m.faces[k].indices[j]].pos
define points(m, k) = allocated(m.faces[k].model) && 0 <= m.faces[k].indices[0] < len(m.faces[k].model.points) && 0 <= m.faces[k].indices[1] < len(m.faces[k].model.points) && 0 <= m.faces[k].indices[2] < len(m.faces[k].model.points)
func (reader.Model).Min(m) (r)
  property C08
  cutall
  requires faces: len(m.faces) > 0
  requires known: forall k in 0..len(m.faces) :: m.faces[k] != nil
  requires corners: forall k in 0..len(m.faces) :: isPos(corner(m, k, 0)) && isPos(corner(m, k, 1)) && isPos(corner(m, k, 2))
  modifies nothing
  ensures fresh: r != nil && fresh(r)
  ensures bound: forall k in 0..len(m.faces) :: vx(r) <= vx(corner(m, k, 0)) && vx(r) <= vx(corner(m, k, 1)) && vx(r) <= vx(corner(m, k, 2)) && vy(r) <= vy(corner(m, k, 0)) && vy(r) <= vy(corner(m, k, 1)) && vy(r) <= vy(corner(m, k, 2)) && vz(r) <= vz(corner(m, k, 0)) && vz(r) <= vz(corner(m, k, 1)) && vz(r) <= vz(corner(m, k, 2))
  ensures touchedx: exists k in 0..len(m.faces) :: vx(r) == vx(corner(m, k, 0)) || vx(r) == vx(corner(m, k, 1)) || vx(r) == vx(corner(m, k, 2))
  ensures touchedy: exists k in 0..len(m.faces) :: vy(r) == vy(corner(m, k, 0)) || vy(r) == vy(corner(m, k, 1)) || vy(r) == vy(corner(m, k, 2))
  ensures touchedz: exists k in 0..len(m.faces) :: vz(r) == vz(corner(m, k, 0)) || vz(r) == vz(corner(m, k, 1)) || vz(r) == vz(corner(m, k, 2))
  loop 0
    invariant fresh: ret != nil && fresh(ret)
    invariant bound: forall k in 0..iter :: vx(ret) <= vx(corner(m, k, 0)) && vx(ret) <= vx(corner(m, k, 1)) && vx(ret) <= vx(corner(m, k, 2)) && vy(ret) <= vy(corner(m, k, 0)) && vy(ret) <= vy(corner(m, k, 1)) && vy(ret) <= vy(corner(m, k, 2)) && vz(ret) <= vz(corner(m, k, 0)) && vz(ret) <= vz(corner(m, k, 1)) && vz(ret) <= vz(corner(m, k, 2))
    invariant touchedx: vx(ret) == vx(corner(m, 0, 0)) || (exists k in 0..iter :: vx(ret) == vx(corner(m, k, 0)) || vx(ret) == vx(corner(m, k, 1)) || vx(ret) == vx(corner(m, k, 2)))
    invariant touchedy: vy(ret) == vy(corner(m, 0, 0)) || (exists k in 0..iter :: vy(ret) == vy(corner(m, k, 0)) || vy(ret) == vy(corner(m, k, 1)) || vy(ret) == vy(corner(m, k, 2)))
    invariant touchedz: vz(ret) == vz(corner(m, 0, 0)) || (exists k in 0..iter :: vz(ret) == vz(corner(m, k, 0)) || vz(ret) == vz(corner(m, k, 1)) || vz(ret) == vz(corner(m, k, 2)))
  loop 1
    invariant fresh: ret != nil && fresh(ret)
    invariant range: 0 <= iter1 <= 3
    invariant bound: forall k in 0..iter0 :: vx(ret) <= vx(corner(m, k, 0)) && vx(ret) <= vx(corner(m, k, 1)) && vx(ret) <= vx(corner(m, k, 2)) && vy(ret) <= vy(corner(m, k, 0)) && vy(ret) <= vy(corner(m, k, 1)) && vy(ret) <= vy(corner(m, k, 2)) && vz(ret) <= vz(corner(m, k, 0)) && vz(ret) <= vz(corner(m, k, 1)) && vz(ret) <= vz(corner(m, k, 2))
    invariant here0: iter1 > 0 ==> vx(ret) <= vx(corner(m, iter0, 0)) && vy(ret) <= vy(corner(m, iter0, 0)) && vz(ret) <= vz(corner(m, iter0, 0))
    invariant here1: iter1 > 1 ==> vx(ret) <= vx(corner(m, iter0, 1)) && vy(ret) <= vy(corner(m, iter0, 1)) && vz(ret) <= vz(corner(m, iter0, 1))
    invariant here2: iter1 > 2 ==> vx(ret) <= vx(corner(m, iter0, 2)) && vy(ret) <= vy(corner(m, iter0, 2)) && vz(ret) <= vz(corner(m, iter0, 2))
    invariant touchedx: vx(ret) == vx(corner(m, 0, 0)) || (exists k in 0..iter0 :: vx(ret) == vx(corner(m, k, 0)) || vx(ret) == vx(corner(m, k, 1)) || vx(ret) == vx(corner(m, k, 2))) || iter1 > 0 && vx(ret) == vx(corner(m, iter0, 0)) || iter1 > 1 && vx(ret) == vx(corner(m, iter0, 1)) || iter1 > 2 && vx(ret) == vx(corner(m, iter0, 2))
    invariant touchedy: vy(ret) == vy(corner(m, 0, 0)) || (exists k in 0..iter0 :: vy(ret) == vy(corner(m, k, 0)) || vy(ret) == vy(corner(m, k, 1)) || vy(ret) == vy(corner(m, k, 2))) || iter1 > 0 && vy(ret) == vy(corner(m, iter0, 0)) || iter1 > 1 && vy(ret) == vy(corner(m, iter0, 1)) || iter1 > 2 && vy(ret) == vy(corner(m, iter0, 2))
    invariant touchedz: vz(ret) == vz(corner(m, 0, 0)) || (exists k in 0..iter0 :: vz(ret) == vz(corner(m, k, 0)) || vz(ret) == vz(corner(m, k, 1)) || vz(ret) == vz(corner(m, k, 2))) || iter1 > 0 && vz(ret) == vz(corner(m, iter0, 0)) || iter1 > 1 && vz(ret) == vz(corner(m, iter0, 1)) || iter1 > 2 && vz(ret) == vz(corner(m, iter0, 2))

func (reader.Model).Max(m) (r)
  property C08
  cutall
  requires faces: len(m.faces) > 0
  requires known: forall k in 0..len(m.faces) :: m.faces[k] != nil
  requires corners: forall k in 0..len(m.faces) :: isPos(corner(m, k, 0)) && isPos(corner(m, k, 1)) && isPos(corner(m, k, 2))
  modifies nothing
  ensures fresh: r != nil && fresh(r)
  ensures bound: forall k in 0..len(m.faces) :: vx(r) >= vx(corner(m, k, 0)) && vx(r) >= vx(corner(m, k, 1)) && vx(r) >= vx(corner(m, k, 2)) && vy(r) >= vy(corner(m, k, 0)) && vy(r) >= vy(corner(m, k, 1)) && vy(r) >= vy(corner(m, k, 2)) && vz(r) >= vz(corner(m, k, 0)) && vz(r) >= vz(corner(m, k, 1)) && vz(r) >= vz(corner(m, k, 2))
  ensures touchedx: exists k in 0..len(m.faces) :: vx(r) == vx(corner(m, k, 0)) || vx(r) == vx(corner(m, k, 1)) || vx(r) == vx(corner(m, k, 2))
  ensures touchedy: exists k in 0..len(m.faces) :: vy(r) == vy(corner(m, k, 0)) || vy(r) == vy(corner(m, k, 1)) || vy(r) == vy(corner(m, k, 2))
  ensures touchedz: exists k in 0..len(m.faces) :: vz(r) == vz(corner(m, k, 0)) || vz(r) == vz(corner(m, k, 1)) || vz(r) == vz(corner(m, k, 2))
  loop 0
    invariant fresh: ret != nil && fresh(ret)
    invariant bound: forall k in 0..iter :: vx(ret) >= vx(corner(m, k, 0)) && vx(ret) >= vx(corner(m, k, 1)) && vx(ret) >= vx(corner(m, k, 2)) && vy(ret) >= vy(corner(m, k, 0)) && vy(ret) >= vy(corner(m, k, 1)) && vy(ret) >= vy(corner(m, k, 2)) && vz(ret) >= vz(corner(m, k, 0)) && vz(ret) >= vz(corner(m, k, 1)) && vz(ret) >= vz(corner(m, k, 2))
    invariant touchedx: vx(ret) == vx(corner(m, 0, 0)) || (exists k in 0..iter :: vx(ret) == vx(corner(m, k, 0)) || vx(ret) == vx(corner(m, k, 1)) || vx(ret) == vx(corner(m, k, 2)))
    invariant touchedy: vy(ret) == vy(corner(m, 0, 0)) || (exists k in 0..iter :: vy(ret) == vy(corner(m, k, 0)) || vy(ret) == vy(corner(m, k, 1)) || vy(ret) == vy(corner(m, k, 2)))
    invariant touchedz: vz(ret) == vz(corner(m, 0, 0)) || (exists k in 0..iter :: vz(ret) == vz(corner(m, k, 0)) || vz(ret) == vz(corner(m, k, 1)) || vz(ret) == vz(corner(m, k, 2)))
  loop 1
    invariant fresh: ret != nil && fresh(ret)
    invariant range: 0 <= iter1 <= 3
    invariant bound: forall k in 0..iter0 :: vx(ret) >= vx(corner(m, k, 0)) && vx(ret) >= vx(corner(m, k, 1)) && vx(ret) >= vx(corner(m, k, 2)) && vy(ret) >= vy(corner(m, k, 0)) && vy(ret) >= vy(corner(m, k, 1)) && vy(ret) >= vy(corner(m, k, 2)) && vz(ret) >= vz(corner(m, k, 0)) && vz(ret) >= vz(corner(m, k, 1)) && vz(ret) >= vz(corner(m, k, 2))
    invariant here0: iter1 > 0 ==> vx(ret) >= vx(corner(m, iter0, 0)) && vy(ret) >= vy(corner(m, iter0, 0)) && vz(ret) >= vz(corner(m, iter0, 0))
    invariant here1: iter1 > 1 ==> vx(ret) >= vx(corner(m, iter0, 1)) && vy(ret) >= vy(corner(m, iter0, 1)) && vz(ret) >= vz(corner(m, iter0, 1))
    invariant here2: iter1 > 2 ==> vx(ret) >= vx(corner(m, iter0, 2)) && vy(ret) >= vy(corner(m, iter0, 2)) && vz(ret) >= vz(corner(m, iter0, 2))
    invariant touchedx: vx(ret) == vx(corner(m, 0, 0)) || (exists k in 0..iter0 :: vx(ret) == vx(corner(m, k, 0)) || vx(ret) == vx(corner(m, k, 1)) || vx(ret) == vx(corner(m, k, 2))) || iter1 > 0 && vx(ret) == vx(corner(m, iter0, 0)) || iter1 > 1 && vx(ret) == vx(corner(m, iter0, 1)) || iter1 > 2 && vx(ret) == vx(corner(m, iter0, 2))
    invariant touchedy: vy(ret) == vy(corner(m, 0, 0)) || (exists k in 0..iter0 :: vy(ret) == vy(corner(m, k, 0)) || vy(ret) == vy(corner(m, k, 1)) || vy(ret) == vy(corner(m, k, 2))) || iter1 > 0 && vy(ret) == vy(corner(m, iter0, 0)) || iter1 > 1 && vy(ret) == vy(corner(m, iter0, 1)) || iter1 > 2 && vy(ret) == vy(corner(m, iter0, 2))
    invariant touchedz: vz(ret) == vz(corner(m, 0, 0)) || (exists k in 0..iter0 :: vz(ret) == vz(corner(m, k, 0)) || vz(ret) == vz(corner(m, k, 1)) || vz(ret) == vz(corner(m, k, 2))) || iter1 > 0 && vz(ret) == vz(corner(m, iter0, 0)) || iter1 > 1 && vz(ret) == vz(corner(m, iter0, 1)) || iter1 > 2 && vz(ret) == vz(corner(m, iter0, 2))

func (optimizer.optimizedModel).Min(m) (r)
  property C08
  cutall
  requires faces: len(m.faces) > 0
  requires indices: forall k in 0..len(m.faces) :: m.faces[k].model != nil && points(m, k)
  requires corners: forall k in 0..len(m.faces) :: isPos(ocorner(m, k, 0)) && isPos(ocorner(m, k, 1)) && isPos(ocorner(m, k, 2))
  modifies nothing
  ensures fresh: r != nil && fresh(r)
  ensures bound: forall k in 0..len(m.faces) :: vx(r) <= vx(ocorner(m, k, 0)) && vx(r) <= vx(ocorner(m, k, 1)) && vx(r) <= vx(ocorner(m, k, 2)) && vy(r) <= vy(ocorner(m, k, 0)) && vy(r) <= vy(ocorner(m, k, 1)) && vy(r) <= vy(ocorner(m, k, 2)) && vz(r) <= vz(ocorner(m, k, 0)) && vz(r) <= vz(ocorner(m, k, 1)) && vz(r) <= vz(ocorner(m, k, 2))
  ensures touchedx: exists k in 0..len(m.faces) :: vx(r) == vx(ocorner(m, k, 0)) || vx(r) == vx(ocorner(m, k, 1)) || vx(r) == vx(ocorner(m, k, 2))
  ensures touchedy: exists k in 0..len(m.faces) :: vy(r) == vy(ocorner(m, k, 0)) || vy(r) == vy(ocorner(m, k, 1)) || vy(r) == vy(ocorner(m, k, 2))
  ensures touchedz: exists k in 0..len(m.faces) :: vz(r) == vz(ocorner(m, k, 0)) || vz(r) == vz(ocorner(m, k, 1)) || vz(r) == vz(ocorner(m, k, 2))
  loop 0
    invariant fresh: ret != nil && fresh(ret)
    invariant bound: forall k in 0..iter :: vx(ret) <= vx(ocorner(m, k, 0)) && vx(ret) <= vx(ocorner(m, k, 1)) && vx(ret) <= vx(ocorner(m, k, 2)) && vy(ret) <= vy(ocorner(m, k, 0)) && vy(ret) <= vy(ocorner(m, k, 1)) && vy(ret) <= vy(ocorner(m, k, 2)) && vz(ret) <= vz(ocorner(m, k, 0)) && vz(ret) <= vz(ocorner(m, k, 1)) && vz(ret) <= vz(ocorner(m, k, 2))
    invariant touchedx: vx(ret) == vx(ocorner(m, 0, 0)) || (exists k in 0..iter :: vx(ret) == vx(ocorner(m, k, 0)) || vx(ret) == vx(ocorner(m, k, 1)) || vx(ret) == vx(ocorner(m, k, 2)))
    invariant touchedy: vy(ret) == vy(ocorner(m, 0, 0)) || (exists k in 0..iter :: vy(ret) == vy(ocorner(m, k, 0)) || vy(ret) == vy(ocorner(m, k, 1)) || vy(ret) == vy(ocorner(m, k, 2)))
    invariant touchedz: vz(ret) == vz(ocorner(m, 0, 0)) || (exists k in 0..iter :: vz(ret) == vz(ocorner(m, k, 0)) || vz(ret) == vz(ocorner(m, k, 1)) || vz(ret) == vz(ocorner(m, k, 2)))
  loop 1
    invariant fresh: ret != nil && fresh(ret)
    invariant range: 0 <= iter1 <= 3
    invariant bound: forall k in 0..iter0 :: vx(ret) <= vx(ocorner(m, k, 0)) && vx(ret) <= vx(ocorner(m, k, 1)) && vx(ret) <= vx(ocorner(m, k, 2)) && vy(ret) <= vy(ocorner(m, k, 0)) && vy(ret) <= vy(ocorner(m, k, 1)) && vy(ret) <= vy(ocorner(m, k, 2)) && vz(ret) <= vz(ocorner(m, k, 0)) && vz(ret) <= vz(ocorner(m, k, 1)) && vz(ret) <= vz(ocorner(m, k, 2))
    invariant here0: iter1 > 0 ==> vx(ret) <= vx(ocorner(m, iter0, 0)) && vy(ret) <= vy(ocorner(m, iter0, 0)) && vz(ret) <= vz(ocorner(m, iter0, 0))
    invariant here1: iter1 > 1 ==> vx(ret) <= vx(ocorner(m, iter0, 1)) && vy(ret) <= vy(ocorner(m, iter0, 1)) && vz(ret) <= vz(ocorner(m, iter0, 1))
    invariant here2: iter1 > 2 ==> vx(ret) <= vx(ocorner(m, iter0, 2)) && vy(ret) <= vy(ocorner(m, iter0, 2)) && vz(ret) <= vz(ocorner(m, iter0, 2))
    invariant touchedx: vx(ret) == vx(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vx(ret) == vx(ocorner(m, k, 0)) || vx(ret) == vx(ocorner(m, k, 1)) || vx(ret) == vx(ocorner(m, k, 2))) || iter1 > 0 && vx(ret) == vx(ocorner(m, iter0, 0)) || iter1 > 1 && vx(ret) == vx(ocorner(m, iter0, 1)) || iter1 > 2 && vx(ret) == vx(ocorner(m, iter0, 2))
    invariant touchedy: vy(ret) == vy(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vy(ret) == vy(ocorner(m, k, 0)) || vy(ret) == vy(ocorner(m, k, 1)) || vy(ret) == vy(ocorner(m, k, 2))) || iter1 > 0 && vy(ret) == vy(ocorner(m, iter0, 0)) || iter1 > 1 && vy(ret) == vy(ocorner(m, iter0, 1)) || iter1 > 2 && vy(ret) == vy(ocorner(m, iter0, 2))
    invariant touchedz: vz(ret) == vz(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vz(ret) == vz(ocorner(m, k, 0)) || vz(ret) == vz(ocorner(m, k, 1)) || vz(ret) == vz(ocorner(m, k, 2))) || iter1 > 0 && vz(ret) == vz(ocorner(m, iter0, 0)) || iter1 > 1 && vz(ret) == vz(ocorner(m, iter0, 1)) || iter1 > 2 && vz(ret) == vz(ocorner(m, iter0, 2))

func (optimizer.optimizedModel).Max(m) (r)
  property C08
  cutall
  requires faces: len(m.faces) > 0
  requires indices: forall k in 0..len(m.faces) :: m.faces[k].model != nil && points(m, k)
  requires corners: forall k in 0..len(m.faces) :: isPos(ocorner(m, k, 0)) && isPos(ocorner(m, k, 1)) && isPos(ocorner(m, k, 2))
  modifies nothing
  ensures fresh: r != nil && fresh(r)
  ensures bound: forall k in 0..len(m.faces) :: vx(r) >= vx(ocorner(m, k, 0)) && vx(r) >= vx(ocorner(m, k, 1)) && vx(r) >= vx(ocorner(m, k, 2)) && vy(r) >= vy(ocorner(m, k, 0)) && vy(r) >= vy(ocorner(m, k, 1)) && vy(r) >= vy(ocorner(m, k, 2)) && vz(r) >= vz(ocorner(m, k, 0)) && vz(r) >= vz(ocorner(m, k, 1)) && vz(r) >= vz(ocorner(m, k, 2))
  ensures touchedx: exists k in 0..len(m.faces) :: vx(r) == vx(ocorner(m, k, 0)) || vx(r) == vx(ocorner(m, k, 1)) || vx(r) == vx(ocorner(m, k, 2))
  ensures touchedy: exists k in 0..len(m.faces) :: vy(r) == vy(ocorner(m, k, 0)) || vy(r) == vy(ocorner(m, k, 1)) || vy(r) == vy(ocorner(m, k, 2))
  ensures touchedz: exists k in 0..len(m.faces) :: vz(r) == vz(ocorner(m, k, 0)) || vz(r) == vz(ocorner(m, k, 1)) || vz(r) == vz(ocorner(m, k, 2))
  loop 0
    invariant fresh: ret != nil && fresh(ret)
    invariant bound: forall k in 0..iter :: vx(ret) >= vx(ocorner(m, k, 0)) && vx(ret) >= vx(ocorner(m, k, 1)) && vx(ret) >= vx(ocorner(m, k, 2)) && vy(ret) >= vy(ocorner(m, k, 0)) && vy(ret) >= vy(ocorner(m, k, 1)) && vy(ret) >= vy(ocorner(m, k, 2)) && vz(ret) >= vz(ocorner(m, k, 0)) && vz(ret) >= vz(ocorner(m, k, 1)) && vz(ret) >= vz(ocorner(m, k, 2))
    invariant touchedx: vx(ret) == vx(ocorner(m, 0, 0)) || (exists k in 0..iter :: vx(ret) == vx(ocorner(m, k, 0)) || vx(ret) == vx(ocorner(m, k, 1)) || vx(ret) == vx(ocorner(m, k, 2)))
    invariant touchedy: vy(ret) == vy(ocorner(m, 0, 0)) || (exists k in 0..iter :: vy(ret) == vy(ocorner(m, k, 0)) || vy(ret) == vy(ocorner(m, k, 1)) || vy(ret) == vy(ocorner(m, k, 2)))
    invariant touchedz: vz(ret) == vz(ocorner(m, 0, 0)) || (exists k in 0..iter :: vz(ret) == vz(ocorner(m, k, 0)) || vz(ret) == vz(ocorner(m, k, 1)) || vz(ret) == vz(ocorner(m, k, 2)))
  loop 1
    invariant fresh: ret != nil && fresh(ret)
    invariant range: 0 <= iter1 <= 3
    invariant bound: forall k in 0..iter0 :: vx(ret) >= vx(ocorner(m, k, 0)) && vx(ret) >= vx(ocorner(m, k, 1)) && vx(ret) >= vx(ocorner(m, k, 2)) && vy(ret) >= vy(ocorner(m, k, 0)) && vy(ret) >= vy(ocorner(m, k, 1)) && vy(ret) >= vy(ocorner(m, k, 2)) && vz(ret) >= vz(ocorner(m, k, 0)) && vz(ret) >= vz(ocorner(m, k, 1)) && vz(ret) >= vz(ocorner(m, k, 2))
    invariant here0: iter1 > 0 ==> vx(ret) >= vx(ocorner(m, iter0, 0)) && vy(ret) >= vy(ocorner(m, iter0, 0)) && vz(ret) >= vz(ocorner(m, iter0, 0))
    invariant here1: iter1 > 1 ==> vx(ret) >= vx(ocorner(m, iter0, 1)) && vy(ret) >= vy(ocorner(m, iter0, 1)) && vz(ret) >= vz(ocorner(m, iter0, 1))
    invariant here2: iter1 > 2 ==> vx(ret) >= vx(ocorner(m, iter0, 2)) && vy(ret) >= vy(ocorner(m, iter0, 2)) && vz(ret) >= vz(ocorner(m, iter0, 2))
    invariant touchedx: vx(ret) == vx(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vx(ret) == vx(ocorner(m, k, 0)) || vx(ret) == vx(ocorner(m, k, 1)) || vx(ret) == vx(ocorner(m, k, 2))) || iter1 > 0 && vx(ret) == vx(ocorner(m, iter0, 0)) || iter1 > 1 && vx(ret) == vx(ocorner(m, iter0, 1)) || iter1 > 2 && vx(ret) == vx(ocorner(m, iter0, 2))
    invariant touchedy: vy(ret) == vy(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vy(ret) == vy(ocorner(m, k, 0)) || vy(ret) == vy(ocorner(m, k, 1)) || vy(ret) == vy(ocorner(m, k, 2))) || iter1 > 0 && vy(ret) == vy(ocorner(m, iter0, 0)) || iter1 > 1 && vy(ret) == vy(ocorner(m, iter0, 1)) || iter1 > 2 && vy(ret) == vy(ocorner(m, iter0, 2))
    invariant touchedz: vz(ret) == vz(ocorner(m, 0, 0)) || (exists k in 0..iter0 :: vz(ret) == vz(ocorner(m, k, 0)) || vz(ret) == vz(ocorner(m, k, 1)) || vz(ret) == vz(ocorner(m, k, 2))) || iter1 > 0 && vz(ret) == vz(ocorner(m, iter0, 0)) || iter1 > 1 && vz(ret) == vz(ocorner(m, iter0, 1)) || iter1 > 2 && vz(ret) == vz(ocorner(m, iter0, 2))

func (optimizer.optimizedFace).MinZ(o) (r)
  property C08
  requires model: o.model != nil && 0 <= o.indices[0] < len(o.model.points) && o.model.points[o.indices[0]].pos != nil && 0 <= o.indices[1] < len(o.model.points) && o.model.points[o.indices[1]].pos != nil && 0 <= o.indices[2] < len(o.model.points) && o.model.points[o.indices[2]].pos != nil
  modifies nothing
  ensures bound: r <= vz(o.model.points[o.indices[0]].pos) && r <= vz(o.model.points[o.indices[1]].pos) && r <= vz(o.model.points[o.indices[2]].pos)
  ensures touched: r == vz(o.model.points[o.indices[0]].pos) || r == vz(o.model.points[o.indices[1]].pos) || r == vz(o.model.points[o.indices[2]].pos)

func (optimizer.optimizedFace).MaxZ(o) (r)
  property C08
  requires model: o.model != nil && 0 <= o.indices[0] < len(o.model.points) && o.model.points[o.indices[0]].pos != nil && 0 <= o.indices[1] < len(o.model.points) && o.model.points[o.indices[1]].pos != nil && 0 <= o.indices[2] < len(o.model.points) && o.model.points[o.indices[2]].pos != nil
  modifies nothing
  ensures bound: r >= vz(o.model.points[o.indices[0]].pos) && r >= vz(o.model.points[o.indices[1]].pos) && r >= vz(o.model.points[o.indices[2]].pos)
  ensures touched: r == vz(o.model.points[o.indices[0]].pos) || r == vz(o.model.points[o.indices[1]].pos) || r == vz(o.model.points[o.indices[2]].pos)

func (reader.face).Points(f) (r)
  property C05 C08
  modifies nothing
  ensures points: r[0] == f.vectors[0] && r[1] == f.vectors[1] && r[2] == f.vectors[2]

func (reader.Model).FaceCount(m) (r)
  property C05 C08
  pure
  ensures def: r == len(m.faces)

func (reader.Model).Face(m, index) (r)
  property C05 C08
  requires range: 0 <= index < len(m.faces)
  modifies nothing
  ensures face: same(r, m.faces[index])

func (optimizer.optimizedFace).Points(o) (r)
  property C08
  requires model: o.model != nil && 0 <= o.indices[0] < len(o.model.points) && 0 <= o.indices[1] < len(o.model.points) && 0 <= o.indices[2] < len(o.model.points)
  modifies nothing
  ensures points: r[0] == o.model.points[o.indices[0]].pos && r[1] == o.model.points[o.indices[1]].pos && r[2] == o.model.points[o.indices[2]].pos

func (optimizer.optimizedModel).FaceCount(m) (r)
  property C08
  modifies nothing
  ensures count: r == len(m.faces)
