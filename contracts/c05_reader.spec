# C05: reading a model file. The STL library is described by what it reads: ntri(file) triangles, coord(file, k, v, c)
# the coordinate c of vertex v of triangle k, and readable(file) if it exists, can be read and is found well formed.
function ntri(Seq) Int
function coord(Seq, Int, Int, Int) F32
function readable(Seq) Bool

define micro(mm) = conv(math.RoundToEven(conv(mm * 1000, "float64")), "int64")
define isVec(p, x, y, z) = is(p, "*data.microVec3") && p != nil && p.X() == micro(x) && p.Y() == micro(y) && p.Z() == micro(z)

func (data.Millimeter).ToMicrometer(m) (r)
  property C05
  pure
  ensures def: r == micro(m)

func reader.stlTriangleToFace(t) (r)
  property C05
  modifies nothing
  ensures first: isVec(r.vectors[0], t.Vertices[0][0], t.Vertices[0][1], t.Vertices[0][2])
  ensures second: isVec(r.vectors[1], t.Vertices[1][0], t.Vertices[1][1], t.Vertices[1][2])
  ensures third: isVec(r.vectors[2], t.Vertices[2][0], t.Vertices[2][1], t.Vertices[2][2])

# what AppendTriangle makes of triangle k of the file
define imageVec(p, file, k, v) = isVec(p, coord(file, k, v, 0), coord(file, k, v, 1), coord(file, k, v, 2))
define image(f, file, k) = is(f, "reader.face") && imageVec(as(f, "reader.face").vectors[0], file, k, 0) && imageVec(as(f, "reader.face").vectors[1], file, k, 1) && imageVec(as(f, "reader.face").vectors[2], file, k, 2)

func (*reader.Model).SetName(m, name) ()
  property C05
  requires m != nil
  modifies nothing

func (*reader.Model).SetBinaryHeader(m, header) ()
  property C05
  requires m != nil
  modifies nothing

func (*reader.Model).SetASCII(m, isASCII) ()
  property C05
  requires m != nil
  modifies nothing

# preallocation would be allowed
func (*reader.Model).SetTriangleCount(m, n) ()
  property C05
  requires m != nil && len(m.faces) == 0
  modifies m.faces
  ensures empty: len(m.faces) == 0

func (*reader.Model).AppendTriangle(m, t) ()
  property C05
  requires m != nil
  modifies m.faces, elems(m.faces)
  ensures one: len(m.faces) == old(len(m.faces)) + 1
  ensures before: forall k in 0..old(len(m.faces)) :: same(m.faces[k], old(m.faces[k]))
  ensures type: is(m.faces[old(len(m.faces))], "reader.face")
  ensures first: isVec(as(m.faces[old(len(m.faces))], "reader.face").vectors[0], t.Vertices[0][0], t.Vertices[0][1], t.Vertices[0][2])
  ensures second: isVec(as(m.faces[old(len(m.faces))], "reader.face").vectors[1], t.Vertices[1][0], t.Vertices[1][1], t.Vertices[1][2])
  ensures third: isVec(as(m.faces[old(len(m.faces))], "reader.face").vectors[2], t.Vertices[2][0], t.Vertices[2][1], t.Vertices[2][2])

# calls AppendTriangle of the given writer once for each triangle, in file order; stops with an error at a fault
func stl.CopyFile(filename, sw) (err)
  trusted reads the file; calls AppendTriangle once per triangle in file order and SetTriangleCount at most once before
  requires writer: is(sw, "*reader.Model") && as(sw, "*reader.Model") != nil && len(as(sw, "*reader.Model").faces) == 0
  modifies as(sw, "*reader.Model").faces
  ensures fault: (err == nil) == readable(filename)
  ensures count: err == nil ==> len(as(sw, "*reader.Model").faces) == ntri(filename)
  ensures faces: err == nil ==> (forall k in 0..ntri(filename) :: image(as(sw, "*reader.Model").faces[k], filename, k))

func os.Stat(name) (info, err)
  trusted no error for a readable file
  ensures exists: readable(name) ==> err == nil
  modifies nothing

func (reader.reader).Read(r, filename) (m, err)
  property C05
  modifies nothing
  ensures fault: !readable(filename) ==> err != nil
  ensures empty: ntri(filename) == 0 ==> err != nil
  ensures good: readable(filename) && ntri(filename) > 0 ==> err == nil
  ensures type: err == nil ==> is(m, "*reader.Model") && as(m, "*reader.Model") != nil
  ensures count: err == nil ==> m.FaceCount() == ntri(filename)
  ensures faces: err == nil ==> (forall k in 0..ntri(filename) :: image(as(m, "*reader.Model").faces[k], filename, k))
