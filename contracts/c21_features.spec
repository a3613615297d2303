# C21: what is printed for a layer, in order. The events evPath(...) of AddPolygon tell path, height, open, speed and layer.
define printed(t, path, z, open, speed, layer) = evPath(t, leaf(path, 0), leaf(path, 1), len(path), int(z), open, int(speed), layer)
define speed(v) = conv(v, "int")

# --- perimeters: wantX21 is the trace wanted before the given part, inset (in printing order), piece and hole
function wantPart21(Int) Seq
function wantInset21(Int, Int) Seq
function wantPiece21(Int, Int, Int) Seq
function wantHole21(Int, Int, Int, Int) Seq

define per(layer) = as(layer.Attributes()["perimeters"], "clip.OffsetResult")
define hasPer(layer) = has(layer.Attributes(), "perimeters") && is(layer.Attributes()["perimeters"], "clip.OffsetResult")
# the inset printed as number i of n: 1, 2, ..., n-1, 0
define insetAt(i, n) = if i >= n - 1 then 0 else i + 1
define insetSpeed(i, n, options) = if i >= n - 1 then speed(options.Print.OuterPerimeterSpeed) else speed(options.Print.LayerSpeed)
define inset(layer, p, i) = per(layer)[p][insetAt(i, len(per(layer)[p]))]

func (renderer.Perimeter).Render(p, b, layerNr, maxLayer, layer, z, options) (err)
  property C21
  requires builder(b) && layer != nil && options != nil
  requires near: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]), j in 0..len(per(layer)[p][i]) :: per(layer)[p][i][j] != nil && nearPath(per(layer)[p][i][j].Outline()) && (forall h in 0..len(per(layer)[p][i][j].Holes()) :: nearPath(per(layer)[p][i][j].Holes()[h]))
  requires start: wantPart21(0) == trace
  requires parts: hasPer(layer) ==> forall p in 0..len(per(layer)) :: {wantPart21(p)} wantInset21(p, 0) == wantPart21(p)
  requires nextPart: hasPer(layer) ==> forall p in 0..len(per(layer)) :: {wantInset21(p, len(per(layer)[p]))} wantPart21(p + 1) == wantInset21(p, len(per(layer)[p]))
  requires insets: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]) :: {wantInset21(p, i)} wantPiece21(p, i, 0) == wantInset21(p, i)
  requires nextInset: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]) :: {wantPiece21(p, i, len(inset(layer, p, i)))} wantInset21(p, i + 1) == wantPiece21(p, i, len(inset(layer, p, i)))
  requires pieces: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]), j in 0..len(inset(layer, p, i)) :: {wantPiece21(p, i, j)} wantHole21(p, i, j, 0) == wantPiece21(p, i, j)
  requires holes: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]), j in 0..len(inset(layer, p, i)), h in 0..len(inset(layer, p, i)[j].Holes()) :: {wantHole21(p, i, j, h)} wantHole21(p, i, j, h + 1) == printed(wantHole21(p, i, j, h), inset(layer, p, i)[j].Holes()[h], z, false, insetSpeed(i, len(per(layer)[p]), options), ref(layer))
  requires outline: hasPer(layer) ==> forall p in 0..len(per(layer)), i in 0..len(per(layer)[p]), j in 0..len(inset(layer, p, i)) :: {wantHole21(p, i, j, len(inset(layer, p, i)[j].Holes()))} wantPiece21(p, i, j + 1) == printed(wantHole21(p, i, j, len(inset(layer, p, i)[j].Holes())), inset(layer, p, i)[j].Outline(), z, false, insetSpeed(i, len(per(layer)[p]), options), ref(layer))
  modifies trace, moves, *b.buf, b.notFirstMoveX, b.notFirstMoveY, b.notFirstMoveZ, b.currentSpeed, b.extrusionAmount, b.currentPosition, b.extrudeSpeed
  ensures builder: builder(b)
  ensures wrong: has(layer.Attributes(), "perimeters") && !hasPer(layer) ==> err != nil && trace == old(trace) && b.extrudeSpeed == old(b.extrudeSpeed)
  ensures none: !has(layer.Attributes(), "perimeters") ==> err == nil && trace == old(trace) && b.extrudeSpeed == old(b.extrudeSpeed)
  ensures printed: hasPer(layer) && err == nil ==> trace == wantPart21(len(per(layer)))
  ensures speed: hasPer(layer) && err == nil && len(per(layer)) > 0 ==> b.extrudeSpeed == speed(options.Print.LayerSpeed)
  loop 0
    invariant builder: builder(b)
    invariant now: trace == wantPart21(iter)
  loop 1
    invariant builder: builder(b)
    invariant now: trace == wantInset21(iter0, iter1)
  loop 2
    invariant builder: builder(b)
    invariant now: trace == wantPiece21(iter0, iter1, iter2)
  loop 3
    invariant builder: builder(b)
    invariant speed: b.extrudeSpeed == insetSpeed(iter1, len(per(layer)[iter0]), options)
    invariant now: trace == wantHole21(iter0, iter1, iter2, iter3)

# --- brim: the pieces in order of part, line and piece
function brimPart21(Int) Seq
function brimLine21(Int, Int) Seq
function brimPiece21(Int, Int, Int) Seq
define brim(layer) = as(layer.Attributes()["brim"], "clip.OffsetResult")
define hasBrim(layer) = has(layer.Attributes(), "brim") && is(layer.Attributes()["brim"], "clip.OffsetResult")

func (renderer.Brim).Render(r, b, layerNr, maxLayer, layer, z, options) (err)
  property C21
  requires builder(b) && layer != nil && options != nil
  requires near: hasBrim(layer) ==> forall p in 0..len(brim(layer)), i in 0..len(brim(layer)[p]), j in 0..len(brim(layer)[p][i]) :: brim(layer)[p][i][j] != nil && nearPath(brim(layer)[p][i][j].Outline())
  requires start: brimPart21(0) == trace
  requires parts: hasBrim(layer) ==> forall p in 0..len(brim(layer)) :: {brimPart21(p)} brimLine21(p, 0) == brimPart21(p)
  requires nextPart: hasBrim(layer) ==> forall p in 0..len(brim(layer)) :: {brimLine21(p, len(brim(layer)[p]))} brimPart21(p + 1) == brimLine21(p, len(brim(layer)[p]))
  requires lines: hasBrim(layer) ==> forall p in 0..len(brim(layer)), i in 0..len(brim(layer)[p]) :: {brimLine21(p, i)} brimPiece21(p, i, 0) == brimLine21(p, i)
  requires nextLine: hasBrim(layer) ==> forall p in 0..len(brim(layer)), i in 0..len(brim(layer)[p]) :: {brimPiece21(p, i, len(brim(layer)[p][i]))} brimLine21(p, i + 1) == brimPiece21(p, i, len(brim(layer)[p][i]))
  requires pieces: hasBrim(layer) ==> forall p in 0..len(brim(layer)), i in 0..len(brim(layer)[p]), j in 0..len(brim(layer)[p][i]) :: {brimPiece21(p, i, j)} brimPiece21(p, i, j + 1) == printed(brimPiece21(p, i, j), brim(layer)[p][i][j].Outline(), z, false, b.extrudeSpeed, 0)
  modifies trace, moves, *b.buf, b.notFirstMoveX, b.notFirstMoveY, b.notFirstMoveZ, b.currentSpeed, b.extrusionAmount, b.currentPosition
  ensures builder: builder(b)
  ensures wrong: has(layer.Attributes(), "brim") && !hasBrim(layer) ==> err != nil && trace == old(trace)
  ensures none: !has(layer.Attributes(), "brim") ==> err == nil && trace == old(trace)
  ensures printed: hasBrim(layer) && err == nil ==> trace == brimPart21(len(brim(layer)))
  loop 0
    invariant builder: builder(b)
    invariant ok: err == nil
    invariant now: trace == brimPart21(iter)
  loop 1
    invariant builder: builder(b)
    invariant ok: err == nil
    invariant now: trace == brimLine21(iter0, iter1)
  loop 2
    invariant builder: builder(b)
    invariant ok: err == nil
    invariant now: trace == brimPiece21(iter0, iter1, iter2)

# --- fill lines of parts. A pattern answers with paths it makes: fillLen(what was done before, pattern, layer, part) paths, ...
function fillLen(Int, Int, Int) Int
function fillOk(Int, Int, Int) Bool
function fillErr(Int, Int, Int) Int
function fillArr(Int, Int, Int, Int) Int
function fillOff(Int, Int, Int, Int) Int
function fillPathLen(Int, Int, Int, Int) Int

func (clip.Pattern).Fill(p, layerNr, part) (paths, err)
  trusted a pattern is asked for the lines of a part and changes nothing else (see C16)
  modifies nothing
  ensures ok: (err == nil) == fillOk(ref(p), layerNr, ref(part))
  ensures paths: err == nil ==> len(paths) == fillLen(ref(p), layerNr, ref(part)) && forall k in 0..len(paths) :: leaf(paths[k], 0) == fillArr(ref(p), layerNr, ref(part), k) && leaf(paths[k], 1) == fillOff(ref(p), layerNr, ref(part), k) && len(paths[k]) == fillPathLen(ref(p), layerNr, ref(part), k)
  ensures near: forall k in 0..len(paths) :: nearPath(paths[k])

function wantFill21(Int) Seq
function wantLine21(Int, Int) Seq
define fills(layer, name) = as(layer.Attributes()[name], "[]data.LayerPart")
define hasFills(layer, name) = has(layer.Attributes(), name) && is(layer.Attributes()[name], "[]data.LayerPart")
define fill(i, layer, p) = fills(layer, i.AttrName)[p]

func (*renderer.Infill).Render(i, b, layerNr, maxLayer, layer, z, options) (err)
  property C21
  requires i != nil && builder(b) && layer != nil && options != nil
  requires start: wantFill21(0) == trace
  requires parts: hasFills(layer, i.AttrName) ==> forall p in 0..len(fills(layer, i.AttrName)) :: {wantFill21(p)} wantLine21(p, 0) == wantFill21(p)
  requires nextPart: hasFills(layer, i.AttrName) ==> forall p in 0..len(fills(layer, i.AttrName)) :: {wantLine21(p, fillLen(ref(i.pattern), layerNr, ref(fill(i, layer, p))))} wantFill21(p + 1) == wantLine21(p, fillLen(ref(i.pattern), layerNr, ref(fill(i, layer, p))))
  requires lines: hasFills(layer, i.AttrName) ==> forall p in 0..len(fills(layer, i.AttrName)), k in 0..fillLen(ref(i.pattern), layerNr, ref(fill(i, layer, p))) :: {wantLine21(p, k)} wantLine21(p, k + 1) == evPath(wantLine21(p, k), fillArr(ref(i.pattern), layerNr, ref(fill(i, layer, p)), k), fillOff(ref(i.pattern), layerNr, ref(fill(i, layer, p)), k), fillPathLen(ref(i.pattern), layerNr, ref(fill(i, layer, p)), k), int(z), true, b.extrudeSpeed, ref(layer))
  modifies trace, moves, *b.buf, b.notFirstMoveX, b.notFirstMoveY, b.notFirstMoveZ, b.currentSpeed, b.extrusionAmount, b.currentPosition
  ensures builder: builder(b)
  ensures pattern: i.pattern == nil ==> err == nil && trace == old(trace)
  ensures wrong: i.pattern != nil && has(layer.Attributes(), i.AttrName) && !hasFills(layer, i.AttrName) ==> err != nil && trace == old(trace)
  ensures none: !has(layer.Attributes(), i.AttrName) ==> err == nil && trace == old(trace)
  ensures printed: i.pattern != nil && hasFills(layer, i.AttrName) && err == nil ==> trace == wantFill21(len(fills(layer, i.AttrName)))
  ensures failing: i.pattern != nil && hasFills(layer, i.AttrName) && (exists p in 0..len(fills(layer, i.AttrName)) :: !fillOk(ref(i.pattern), layerNr, ref(fill(i, layer, p)))) ==> err != nil
  loop 0
    invariant builder: builder(b)
    invariant now: trace == wantFill21(iter)
    invariant filled: forall p in 0..iter :: fillOk(ref(i.pattern), layerNr, ref(fill(i, layer, p)))
  loop 1
    invariant builder: builder(b)
    invariant now: trace == wantFill21(iter0)
  loop 2
    invariant builder: builder(b)
    invariant now: trace == wantLine21(iter0, iter2)
