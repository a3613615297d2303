# C06, C07: the optimized mesh.
function close3(Int, Int, Int, Int, Int, Int, Int) Bool
axiom close3: forall a, b, c, e, f, g, d :: {close3(a, b, c, e, f, g, d)} close3(a, b, c, e, f, g, d) == ((e - a) * (e - a) + (f - b) * (f - b) + (g - c) * (g - c) <= d * d)

func (optimizer.optimizedModel).getFaceIdxWithPoints(o, idx0, idx1, notFaceIdx) (r)
  property C06
  requires range: 0 <= idx0 < len(o.points) && 0 <= idx1 < len(o.points)
  requires faces: forall a in 0..len(o.points[idx0].faceIndices) :: o.points[idx0].faceIndices[a] >= 0
  modifies nothing
  ensures other: r == -1 || (r != notFaceIdx && r >= 0 && (exists a in 0..len(o.points[idx0].faceIndices) :: o.points[idx0].faceIndices[a] == r) && (exists b in 0..len(o.points[idx1].faceIndices) :: o.points[idx1].faceIndices[b] == r))
  ensures none: r == -1 ==> (forall a in 0..len(o.points[idx0].faceIndices), b in 0..len(o.points[idx1].faceIndices) :: o.points[idx0].faceIndices[a] == notFaceIdx || o.points[idx0].faceIndices[a] != o.points[idx1].faceIndices[b])
  loop 0
    invariant none: forall a in 0..iter0, b in 0..len(o.points[idx1].faceIndices) :: o.points[idx0].faceIndices[a] == notFaceIdx || o.points[idx0].faceIndices[a] != o.points[idx1].faceIndices[b]
  loop 1
    invariant none: forall b in 0..iter1 :: faceIndex0 == notFaceIdx || faceIndex0 != o.points[idx1].faceIndices[b]
