# C20: configured lines, temperatures and fan. The text of a builder is g.String().
define word20(line) = piece(strings.TrimSpace(line), " ", 0)
define lacks(lines, codes) = forall k in 0..len(lines), j in 0..len(codes) :: !strings.Contains(word20(lines[k]), codes[j])

func (data.GCodeHunk).DoesInstructionContainCodes(gch, targetCodes) (r)
  property C20
  modifies nothing
  ensures contained: r == !lacks(gch.GCodeLines, targetCodes)
  loop 0
    invariant none: !contained
    invariant lines: forall k in 0..iter, j in 0..len(targetCodes) :: !strings.Contains(word20(gch.GCodeLines[k]), targetCodes[j])
  loop 1
    invariant none: !contained
    invariant words: forall j in 0..iter1 :: !strings.Contains(word20(gch.GCodeLines[iter0]), targetCodes[j])

# replacing something which is not there does nothing
function replaced20(Seq, Seq, Seq) Seq
axiom all: forall s Seq, t Seq, v Seq :: {replaced20(s, t, v)} replaced20(s, t, v) == strings.Replace(s, t, v, -1)
axiom missing: forall s Seq, t Seq, v Seq :: {replaced20(s, t, v)} !strings.Contains(s, t) ==> replaced20(s, t, v) == s

func (*gcode.Builder).AddCommand(g, command, args) ()
  property C20
  inline
  requires g != nil && g.buf != nil
  modifies *g.buf
  ensures command: g.String() == old(g.String()) + fmt.Sprintf(command + "\n", args)

func (*gcode.Builder).AddComment(g, comment, args) ()
  property C20
  inline
  requires g != nil && g.buf != nil
  modifies *g.buf
  ensures comment: g.String() == old(g.String()) + fmt.Sprintf(";" + comment + "\n", args)

define filledLine(line, o) = replaced20(replaced20(line, "{print_bed_temperature}", fmt("%d", o.Filament.InitialBedTemperature)), "{print_temperature}", fmt("%d", o.Filament.InitialHotEndTemperature))
define isHotend(lines) = forall k in 0..len(lines) :: !strings.Contains(word20(lines[k]), "M104") && !strings.Contains(word20(lines[k]), "M109")
define isBed(lines) = forall k in 0..len(lines) :: !strings.Contains(word20(lines[k]), "M140") && !strings.Contains(word20(lines[k]), "M190")
define start(o) = o.Printer.StartGCode.GCodeLines
define end(o) = o.Printer.EndGCode.GCodeLines
define bedMissing(o, lines) = o.Printer.ForceSafeStartStopGCode && o.Printer.HasHeatedBed && isBed(lines)
define hotendMissing(o, lines) = o.Printer.ForceSafeStartStopGCode && isHotend(lines)
define heatBed(o) = ";SET BED TEMP\nM190 S" + fmt("%d", o.Filament.InitialBedTemperature) + " ; heat and wait for bed\n"
define heatHotend(o) = ";SET HOTEND TEMP\nM109 S" + fmt("%d", o.Filament.InitialHotEndTemperature) + " ; wait for hot end temperature\n"
define head(b) = b.String() + ";Generated with GoSlice\n;______________________\n"
define heated(t, b, o) =
  (old(!bedMissing(o, start(o)) && !hotendMissing(o, start(o))) ==> t == old(head(b) + ";START GCODE\n"))
  && (old(bedMissing(o, start(o)) && !hotendMissing(o, start(o))) ==> t == old(head(b) + heatBed(o) + ";START GCODE\n"))
  && (old(!bedMissing(o, start(o)) && hotendMissing(o, start(o))) ==> t == old(head(b) + heatHotend(o) + ";START GCODE\n"))
  && (old(bedMissing(o, start(o)) && hotendMissing(o, start(o))) ==> t == old(head(b) + heatBed(o) + heatHotend(o) + ";START GCODE\n"))
define fanLine(o, layerNr) = if has(o.Filament.FanSpeed.LayerToSpeedLUT, layerNr) then (if o.Filament.FanSpeed.LayerToSpeedLUT[layerNr] == 0 then "M107 ; disable fan\n" else "M106 S" + fmt("%d", o.Filament.FanSpeed.LayerToSpeedLUT[layerNr]) + "; change fan speed\n") else ""
define tempLines(o, layerNr) = if layerNr == o.Filament.InitialTemperatureLayerCount then ";SET_TEMP\nM140 S" + fmt("%d", o.Filament.BedTemperature) + "\nM104 S" + fmt("%d", o.Filament.HotEndTemperature) + "\n" else ""
define rest(o, layerNr) = ";LAYER:" + fmt("%d", layerNr) + "\n" + fanLine(o, layerNr) + tempLines(o, layerNr)

# s(k) is the text before start line k
func (renderer.PreLayer).Render(p, b, layerNr, maxLayer, layer, z, options) (err)
  property C19 C20 C21
  reveal replaced20
  requires b != nil && b.buf != nil && options != nil && layerNr >= 0
  modifies *b.buf, b.extrusionPerMM, b.extrudeSpeed, b.moveSpeed, b.retractionSpeed, b.retractionAmount, b.zHopOnRetract, b.extrudeSpeedOverride
  ghost s (Int)Seq
  witness s = s ?? const("")
  ensures ok: err == nil
  ensures head: layerNr == 0 ==> heated(s(0), b, options)
  ensures lines: layerNr == 0 ==> forall k in 0..len(start(options)) :: {s(k)} s(k + 1) == s(k) + old(filledLine(start(options)[k], options)) + "\n"
  ensures first: layerNr == 0 ==> b.String() == s(len(start(options))) + "G92 E0 ; reset extrusion distance\n" + old(rest(options, layerNr))
  ensures others: layerNr != 0 ==> b.String() == old(b.String()) + old(rest(options, layerNr))
  ensures speed: b.extrudeSpeed == conv(options.Print.LayerSpeed, "int") && (layerNr == 0 ==> b.extrudeSpeedOverride == conv(options.Print.IntialLayerSpeed, "int")) && (layerNr != 0 ==> b.extrudeSpeedOverride <= 0)
  ensures settings: layerNr == 0 ==> b.moveSpeed == conv(options.Print.MoveSpeed, "int") && b.retractionSpeed == conv(options.Filament.RetractionSpeed, "int") && same(b.retractionAmount, options.Filament.RetractionLength) && same(b.zHopOnRetract, options.Filament.RetractionZHop)
  ensures keep: layerNr != 0 ==> b.moveSpeed == old(b.moveSpeed) && b.retractionSpeed == old(b.retractionSpeed) && same(b.retractionAmount, old(b.retractionAmount)) && same(b.zHopOnRetract, old(b.zHopOnRetract))
  ensures flow0: layerNr == 0 ==> about(b.extrusionPerMM, perMM(b, options.Print.InitialLayerThickness, options.Printer.ExtrusionWidth))
  ensures flow1: layerNr == 1 ==> about(b.extrusionPerMM, perMM(b, options.Print.LayerThickness, options.Printer.ExtrusionWidth))
  ensures flow: layerNr > 1 ==> same(b.extrusionPerMM, old(b.extrusionPerMM))
  loop 0
    ghost s (Int)Seq = store(const(""), 0, b.String())
    step s = store(s, iter, b.String())
    invariant now: b.String() == s(iter)
    invariant head: heated(s(0), b, options)
    invariant lines: forall k in 0..iter :: {s(k)} s(k + 1) == s(k) + old(filledLine(start(options)[k], options)) + "\n"

define cooled(t, b, o) =
  (old(!bedMissing(o, end(o)) && !hotendMissing(o, end(o))) ==> t == old(b.String()) + ";END_GCODE\n")
  && (old(bedMissing(o, end(o)) && !hotendMissing(o, end(o))) ==> t == old(b.String()) + ";END_GCODE\nM140 S0 ; Set bed to 0C (off)\n")
  && (old(!bedMissing(o, end(o)) && hotendMissing(o, end(o))) ==> t == old(b.String()) + ";END_GCODE\nM104 S0 ; Set Hot-end to 0C (off)\n")
  && (old(bedMissing(o, end(o)) && hotendMissing(o, end(o))) ==> t == old(b.String()) + ";END_GCODE\nM104 S0 ; Set Hot-end to 0C (off)\nM140 S0 ; Set bed to 0C (off)\n")

func (renderer.PostLayer).Render(p, b, layerNr, maxLayer, layer, z, options) (err)
  property C19 C20
  reveal replaced20
  requires b != nil && b.buf != nil && options != nil
  modifies *b.buf, b.extrusionPerMM
  ghost s (Int)Seq
  witness s = s ?? const("")
  ensures ok: err == nil
  ensures nothing: layerNr != maxLayer ==> b.String() == old(b.String()) && same(b.extrusionPerMM, old(b.extrusionPerMM))
  ensures head: layerNr == maxLayer ==> cooled(s(0), b, options)
  ensures lines: layerNr == maxLayer ==> forall k in 0..len(end(options)) :: {s(k)} s(k + 1) == s(k) + old(end(options)[k]) + "\n"
  ensures end: layerNr == maxLayer ==> b.String() == s(len(end(options)))
  loop 0
    ghost s (Int)Seq = store(const(""), 0, b.String())
    step s = store(s, iter, b.String())
    invariant now: b.String() == s(iter)
    invariant head: cooled(s(0), b, options)
    invariant lines: forall k in 0..iter :: {s(k)} s(k + 1) == s(k) + old(end(options)[k]) + "\n"
