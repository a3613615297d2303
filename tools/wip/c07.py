src=open('/tmp/c06.spec').read()
import re
J=range(3)
c=lambda j,i: "c%d(%s)"%(j,i)
out=[]
w=out.append
w('''
# corner j of face i of the input model
define vtx(m, i, j) = m.Face(i).Points()[j]
define okCorner(p) = p != nil && allocated(p) && small(vx(p)) && small(vy(p)) && small(vz(p))
define closeTo(p, q, d) = close3(vx(p), vy(p), vz(p), vx(q), vy(q), vz(q), d)
define lists(om, p, k) = exists t in 0..len(om.points[p].faceIndices) :: om.points[p].faceIndices[t] == k
define isFace(om, k, p) = om.faces[k].indices[0] == p || om.faces[k].indices[1] == p || om.faces[k].indices[2] == p

iface data.Model

func (optimizer.optimizer).Optimize(o, m) (r, err)
  property C06 C07
  requires options: o.options != nil && o.options.Slicing.MeldDistance > 0 && o.options.Slicing.MeldDistance <= 10000000 && o.options.Printer.Center != nil
  requires logger: o.options.GoSlice.Logger != nil
  requires count: m != nil && m.FaceCount() >= 0
  requires faces: forall i in 0..m.FaceCount() :: m.Face(i) != nil && okCorner(vtx(m, i, 0)) && okCorner(vtx(m, i, 1)) && okCorner(vtx(m, i, 2))
  requires size: m.Min() != nil && m.Max() != nil
  modifies nothing
  reveal close3
  ensures noError: err == nil && is(r, "*optimizer.optimizedModel") && r != nil
''')
ghosts=["c0","c1","c2","src","kept","dup","pf","pj","pos0","pos1","pos2"]
for g in ghosts: w("  ghost %s (Int)Int\n  witness %s = %s ?? const(0)\n"%(g,g,g))
R='as(r, "*optimizer.optimizedModel")'
def post(om,nf):
    o=[]
    return o
# ---- ensures
OMr='as(r, "*optimizer.optimizedModel")'
N='m.FaceCount()'
def face_inv(om,n,lo,pts):
    # n: number of input faces handled
    o=[]
    o.append(("corners","forall i in 0..%s :: {c0(i)} "%n+" && ".join("0 <= c%d(i) < len(%s.points)"%(j,om) for j in J)))
    o.append(("src","forall k in 0..len(%s.faces) :: {src(k)} 0 <= src(k) < %s && kept(src(k)) == k"%(om,n)))
    o.append(("order","forall k, l in 0..len(%s.faces) :: {src(k), src(l)} 0 <= k && k < l ==> src(k) < src(l)"%om))
    for j in J: o.append(("indices%d"%j,"forall k in 0..len(%s.faces) :: {%s.faces[k].indices[%d]} %s.faces[k].indices[%d] == c%d(src(k))"%(om,om,j,om,j,j)))
    o.append(("distinct","forall k in 0..len(%s.faces) :: {src(k)} c0(src(k)) != c1(src(k)) && c0(src(k)) != c2(src(k)) && c1(src(k)) != c2(src(k))"%om))
    return o
open('/tmp/sp/c06_mesh.spec','w').write(src+"".join(out))
