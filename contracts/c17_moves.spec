# C17: moves. The state of the machine is what the words printed so far make of it: the builder's currentPosition (a word
# of an axis may only be left out if it was printed before with the same value), currentSpeed and extrusionAmount.
function evMove(Seq, Int, Int, Int, F32, Int) Seq

define fresh3(g) = !g.notFirstMoveX && !g.notFirstMoveY && !g.notFirstMoveZ
define omitted(g, p, extrusion) = !fresh3(g) && g.currentPosition.X() == p.X() && g.currentPosition.Y() == p.Y() && g.currentPosition.Z() == p.Z() && feq(extrusion, 0)
define wordX(g, p) = if g.notFirstMoveX && p.X() == g.currentPosition.X() then "" else fmt(" X%0.2f", p.X().ToMillimeter())
define wordY(g, p) = if g.notFirstMoveY && p.Y() == g.currentPosition.Y() then "" else fmt(" Y%0.2f", p.Y().ToMillimeter())
define wordZ(g, p) = if g.notFirstMoveZ && p.Z() == g.currentPosition.Z() then "" else fmt(" Z%0.2f", p.Z().ToMillimeter())
define wordF(g, speed) = if g.currentSpeed == speed then "" else " F" + fmt("%d", speed * 60)
define wordE(g, extrusion) = if feq(extrusion, 0) then "" else fmt(" E%0.4f", g.extrusionAmount + extrusion)
define moveLine(g, p, extrusion, speed) = (if feq(extrusion, 0) then "G0" else "G1") + wordX(g, p) + wordY(g, p) + wordZ(g, p) + wordF(g, speed) + wordE(g, extrusion) + "\n"

func (*gcode.Builder).AddMoveSpeed(g, p, extrusion, speed) ()
  property C17
  requires g != nil && g.buf != nil && p != nil && g.currentPosition != nil
  event moves evMove(moves, p.X(), p.Y(), p.Z(), extrusion, speed)
  modifies *g.buf, g.notFirstMoveX, g.notFirstMoveY, g.notFirstMoveZ, g.currentSpeed, g.extrusionAmount, g.currentPosition
  ensures omitted: old(omitted(g, p, extrusion)) ==> g.String() == old(g.String()) && g.currentSpeed == old(g.currentSpeed) && same(g.extrusionAmount, old(g.extrusionAmount))
  ensures line: old(!omitted(g, p, extrusion)) ==> g.String() == old(g.String()) + old(moveLine(g, p, extrusion, speed))
  ensures speed: old(!omitted(g, p, extrusion)) ==> g.currentSpeed == speed
  ensures extrusion: old(!omitted(g, p, extrusion)) ==> same(g.extrusionAmount, old(g.extrusionAmount + extrusion))
  ensures first: old(!omitted(g, p, extrusion)) ==> g.notFirstMoveX && g.notFirstMoveY && g.notFirstMoveZ
  ensures position: g.currentPosition != nil && g.currentPosition.X() == old(p.X()) && g.currentPosition.Y() == old(p.Y()) && g.currentPosition.Z() == old(p.Z())
  ensures flags: old(omitted(g, p, extrusion)) ==> g.notFirstMoveX == old(g.notFirstMoveX) && g.notFirstMoveY == old(g.notFirstMoveY) && g.notFirstMoveZ == old(g.notFirstMoveZ)

define builder(g) = g != nil && g.buf != nil && g.currentPosition != nil
# speed of a move: the move speed for moves without extrusion, otherwise the override or the extrude speed
define extrudingSpeed(g) = if g.extrudeSpeedOverride <= 0 then g.extrudeSpeed else g.extrudeSpeedOverride
define speedOf(g, e) = if feq(e, 0) then g.moveSpeed else extrudingSpeed(g)
define move(t, x, y, z, e, s) = evMove(t, int(x), int(y), int(z), e, int(s))
define at0(g, x, y, z) = g.currentPosition != nil && g.currentPosition.X() == x && g.currentPosition.Y() == y && g.currentPosition.Z() == z

func (*gcode.Builder).AddMove(g, p, extrusion) ()
  property C17
  requires builder(g) && p != nil
  modifies moves, *g.buf, g.notFirstMoveX, g.notFirstMoveY, g.notFirstMoveZ, g.currentSpeed, g.extrusionAmount, g.currentPosition
  ensures move: moves == old(evMove(moves, p.X(), p.Y(), p.Z(), extrusion, speedOf(g, extrusion)))
  ensures position: at0(g, old(p.X()), old(p.Y()), old(p.Z()))

# a new builder has printed nothing
func gcode.NewGCodeBuilder(options) (g)
  property C17 C19
  requires options != nil
  modifies nothing
  ensures new: builder(g) && fresh(g) && fresh(g.buf) && g.String() == ""
  ensures state: !g.notFirstMoveX && !g.notFirstMoveY && !g.notFirstMoveZ && g.currentSpeed == 0 && same(g.extrusionAmount, data.Millimeter(0)) && g.extrudeSpeedOverride == 0
  ensures options: g.filamentDiameter == options.Filament.FilamentDiameter && g.extrusionMultiplier == options.Filament.ExtrusionMultiplier

# the settings do not touch what was printed
func (*gcode.Builder).SetMoveSpeed(g, moveSpeed) ()
  property C17
  requires g != nil
  modifies g.moveSpeed
  ensures set: g.moveSpeed == conv(moveSpeed, "int")

func (*gcode.Builder).SetExtrudeSpeed(g, extrudeSpeed) ()
  property C17
  requires g != nil
  modifies g.extrudeSpeed
  ensures set: g.extrudeSpeed == conv(extrudeSpeed, "int")

func (*gcode.Builder).SetExtrudeSpeedOverride(g, extrudeSpeed) ()
  property C17
  requires g != nil
  modifies g.extrudeSpeedOverride
  ensures set: g.extrudeSpeedOverride == conv(extrudeSpeed, "int")

func (*gcode.Builder).DisableExtrudeSpeedOverride(g) ()
  property C17
  requires g != nil
  modifies g.extrudeSpeedOverride
  ensures set: g.extrudeSpeedOverride <= 0

func (*gcode.Builder).SetRetractionSpeed(g, retractionSpeed) ()
  property C17
  requires g != nil
  modifies g.retractionSpeed
  ensures set: g.retractionSpeed == conv(retractionSpeed, "int")

func (*gcode.Builder).SetRetractionAmount(g, retractionAmount) ()
  property C17
  requires g != nil
  modifies g.retractionAmount
  ensures set: same(g.retractionAmount, retractionAmount)

func (*gcode.Builder).SetRetractionZHop(g, zHopOnRetract) ()
  property C17
  requires g != nil
  modifies g.zHopOnRetract
  ensures set: same(g.zHopOnRetract, zHopOnRetract)

func (*gcode.Builder).String(g) (s)
  property C17
  inline
  requires g != nil && g.buf != nil
  modifies nothing
  ensures text: s == g.buf.String()
