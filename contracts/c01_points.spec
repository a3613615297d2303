# C01: point and vector arithmetic.
# Coordinates are at most 10 m = 10^7 micrometer away from the origin.
define small(v) = -10000000 <= v && v <= 10000000
define fits(v) = -9223372036854775808 <= v && v <= 9223372036854775807
# v / k truncated towards zero, described without using the division of the code
define truncdiv(q, v, k) = abs(q * k) <= abs(v) && abs(v) < abs(q * k) + abs(k) && (v * k >= 0 ==> q >= 0) && (v * k <= 0 ==> q <= 0)
define pt(p, a, b) = p != nil && p.X() == a && p.Y() == b
define vec(p, a, b, c) = p != nil && p.X() == a && p.Y() == b && p.Z() == c

func data.Max(a, b) (r)
  property C01
  pure
  ensures def: r == (if a > b then a else b)

func data.Min(a, b) (r)
  property C01
  pure
  ensures def: r == (if a < b then a else b)

func data.NewMicroPoint(x, y) (r)
  property C01
  inline
  modifies nothing
  ensures fresh: fresh(r) && is(r, "*data.microPoint")
  ensures x: as(r, "*data.microPoint").x == x
  ensures y: as(r, "*data.microPoint").y == y

func (*data.microPoint).X(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures value: r == p.x

func (*data.microPoint).Y(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures value: r == p.y

func (*data.microPoint).SetX(p, v) ()
  property C01
  inline
  requires p != nil
  modifies p.x
  ensures value: p.x == v

func (*data.microPoint).SetY(p, v) ()
  property C01
  inline
  requires p != nil
  modifies p.y
  ensures value: p.y == v

func (*data.microPoint).Copy(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures fresh: fresh(r)
  ensures value: as(r, "*data.microPoint").x == p.x && as(r, "*data.microPoint").y == p.y

func (*data.microPoint).Add(p, q) (r)
  property C01
  inline
  overflow
  requires p != nil && q != nil && fits(p.x + as(q, "*data.microPoint").x) && fits(p.y + as(q, "*data.microPoint").y)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microPoint").x == p.x + as(q, "*data.microPoint").x
  ensures y: as(r, "*data.microPoint").y == p.y + as(q, "*data.microPoint").y

func (*data.microPoint).Sub(p, q) (r)
  property C01
  inline
  overflow
  requires p != nil && q != nil && fits(p.x - as(q, "*data.microPoint").x) && fits(p.y - as(q, "*data.microPoint").y)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microPoint").x == p.x - as(q, "*data.microPoint").x
  ensures y: as(r, "*data.microPoint").y == p.y - as(q, "*data.microPoint").y

func (*data.microPoint).Mul(p, k) (r)
  property C01
  inline
  overflow
  requires p != nil && fits(p.x * k) && fits(p.y * k)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microPoint").x == p.x * k
  ensures y: as(r, "*data.microPoint").y == p.y * k

func (*data.microPoint).Div(p, k) (r)
  property C01
  inline
  requires p != nil && k != 0 && fits(p.x) && fits(p.y)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: truncdiv(as(r, "*data.microPoint").x, p.x, k)
  ensures y: truncdiv(as(r, "*data.microPoint").y, p.y, k)

func (*data.microPoint).Size2(p) (r)
  property C01
  inline
  overflow
  requires p != nil && small(p.x) && small(p.y)
  modifies nothing
  ensures value: r == p.x * p.x + p.y * p.y

func (*data.microPoint).ShorterThanOrEqual(p, l) (r)
  property C01
  inline
  overflow
  requires p != nil && small(p.x) && small(p.y) && small(l)
  modifies nothing
  ensures value: r == (l >= 0 && p.x * p.x + p.y * p.y <= l * l)

func data.DotProduct(a, b) (r)
  property C01
  inline
  overflow
  requires a != nil && b != nil
  requires small(a.X()) && small(a.Y()) && small(b.X()) && small(b.Y())
  modifies nothing
  ensures value: r == as(a, "*data.microPoint").x * as(b, "*data.microPoint").x + as(a, "*data.microPoint").y * as(b, "*data.microPoint").y

func data.NewMicroVec3(x, y, z) (r)
  property C01
  inline
  modifies nothing
  ensures fresh: fresh(r) && is(r, "*data.microVec3")
  ensures value: as(r, "*data.microVec3").x == x && as(r, "*data.microVec3").y == y && as(r, "*data.microVec3").z == z

func (*data.microVec3).X(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures value: r == p.x

func (*data.microVec3).Y(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures value: r == p.y

func (*data.microVec3).Z(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures value: r == p.z

func (*data.microVec3).SetX(p, v) ()
  property C01
  inline
  requires p != nil
  modifies p.x
  ensures value: p.x == v

func (*data.microVec3).SetY(p, v) ()
  property C01
  inline
  requires p != nil
  modifies p.y
  ensures value: p.y == v

func (*data.microVec3).SetZ(p, v) ()
  property C01
  inline
  requires p != nil
  modifies p.z
  ensures value: p.z == v

func (*data.microVec3).PointXY(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures fresh: fresh(r)
  ensures value: as(r, "*data.microPoint").x == p.x && as(r, "*data.microPoint").y == p.y

func (*data.microVec3).Copy(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures fresh: fresh(r)
  ensures value: as(r, "*data.microVec3").x == p.x && as(r, "*data.microVec3").y == p.y && as(r, "*data.microVec3").z == p.z

func (*data.microVec3).Add(p, q) (r)
  property C01
  inline
  overflow
  requires p != nil && q != nil && fits(p.x + as(q, "*data.microVec3").x) && fits(p.y + as(q, "*data.microVec3").y) && fits(p.z + as(q, "*data.microVec3").z)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microVec3").x == p.x + as(q, "*data.microVec3").x
  ensures y: as(r, "*data.microVec3").y == p.y + as(q, "*data.microVec3").y
  ensures z: as(r, "*data.microVec3").z == p.z + as(q, "*data.microVec3").z

func (*data.microVec3).Sub(p, q) (r)
  property C01
  inline
  overflow
  requires p != nil && q != nil && fits(p.x - as(q, "*data.microVec3").x) && fits(p.y - as(q, "*data.microVec3").y) && fits(p.z - as(q, "*data.microVec3").z)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microVec3").x == p.x - as(q, "*data.microVec3").x
  ensures y: as(r, "*data.microVec3").y == p.y - as(q, "*data.microVec3").y
  ensures z: as(r, "*data.microVec3").z == p.z - as(q, "*data.microVec3").z

func (*data.microVec3).Mul(p, k) (r)
  property C01
  inline
  overflow
  requires p != nil && fits(p.x * k) && fits(p.y * k) && fits(p.z * k)
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: as(r, "*data.microVec3").x == p.x * k
  ensures y: as(r, "*data.microVec3").y == p.y * k
  ensures z: as(r, "*data.microVec3").z == p.z * k

func (*data.microVec3).Div(p, k) (r)
  property C01
  inline
  requires p != nil && k != 0
  modifies nothing
  ensures fresh: fresh(r)
  ensures x: truncdiv(as(r, "*data.microVec3").x, p.x, k)
  ensures y: truncdiv(as(r, "*data.microVec3").y, p.y, k)
  ensures z: truncdiv(as(r, "*data.microVec3").z, p.z, k)

func (*data.microVec3).Max(p) (r)
  property C01
  inline
  requires p != nil
  modifies nothing
  ensures upper: r >= p.x && r >= p.y && r >= p.z
  ensures attained: r == p.x || r == p.y || r == p.z

func (*data.microVec3).Size2(p) (r)
  property C01
  inline
  overflow
  requires p != nil && small(p.x) && small(p.y) && small(p.z)
  modifies nothing
  ensures value: r == p.x * p.x + p.y * p.y + p.z * p.z

func (*data.microVec3).ShorterThanOrEqual(p, l) (r)
  property C01
  inline
  overflow
  requires p != nil && small(p.x) && small(p.y) && small(p.z) && 0 <= l && small(l)
  modifies nothing
  ensures value: r == (p.x * p.x + p.y * p.y + p.z * p.z <= l * l)
