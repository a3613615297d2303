# C25: command line flags and documented defaults. given(flag) and value(flag, type) describe the command line,
# flagged(flag, default) is the value of the flag if it is given and the default otherwise.
func log.New(out, prefix, flag) (l)
  trusted a new logger
  modifies nothing
  ensures new: l != nil

func data.DefaultOptions() (o)
  property C25
  modifies nothing
  ensures meld-distance: o.Slicing.MeldDistance == data.Micrometer(30)
  ensures join-polygon-snap-distance: o.Slicing.JoinPolygonSnapDistance == data.Micrometer(160)
  ensures finish-polygon-snap-distance: o.Slicing.FinishPolygonSnapDistance == data.Micrometer(1000)
  ensures initial-layer-speed: o.Print.IntialLayerSpeed == data.Millimeter(30)
  ensures layer-speed: o.Print.LayerSpeed == data.Millimeter(60)
  ensures outer-perimeter-speed: o.Print.OuterPerimeterSpeed == data.Millimeter(40)
  ensures move-speed: o.Print.MoveSpeed == data.Millimeter(150)
  ensures initial-layer-thickness: o.Print.InitialLayerThickness == data.Micrometer(200)
  ensures layer-thickness: o.Print.LayerThickness == data.Micrometer(200)
  ensures inset-count: o.Print.InsetCount == 2
  ensures infill-overlap-percent: o.Print.InfillOverlapPercent == 50
  ensures additional-internal-infill-overlap-percent: o.Print.AdditionalInternalInfillOverlapPercent == 400
  ensures infill-percent: o.Print.InfillPercent == 20
  ensures infill-rotation-degree: o.Print.InfillRotationDegree == 45
  ensures infill-zig-zag: o.Print.InfillZigZag == false
  ensures number-bottom-layers: o.Print.NumberBottomLayers == 3
  ensures number-top-layers: o.Print.NumberTopLayers == 4
  ensures support-enabled: o.Print.Support.Enabled == false
  ensures support-threshold-angle: o.Print.Support.ThresholdAngle == 60
  ensures support-top-gap-layers: o.Print.Support.TopGapLayers == 3
  ensures support-interface-layers: o.Print.Support.InterfaceLayers == 2
  ensures support-pattern-spacing: o.Print.Support.PatternSpacing == data.Millimeter(2.5)
  ensures support-gap: o.Print.Support.Gap == data.Millimeter(0.6)
  ensures skirt-count: o.Print.BrimSkirt.SkirtCount == 2
  ensures skirt-distance: o.Print.BrimSkirt.SkirtDistance == data.Millimeter(5)
  ensures brim-count: o.Print.BrimSkirt.BrimCount == 0
  ensures filament-diameter: o.Filament.FilamentDiameter == data.Micrometer(1750)
  ensures initial-bed-temperature: o.Filament.InitialBedTemperature == 60
  ensures initial-hot-end-temperature: o.Filament.InitialHotEndTemperature == 205
  ensures bed-temperature: o.Filament.BedTemperature == 55
  ensures hot-end-temperature: o.Filament.HotEndTemperature == 200
  ensures initial-temperature-layer-count: o.Filament.InitialTemperatureLayerCount == 3
  ensures retraction-speed: o.Filament.RetractionSpeed == data.Millimeter(30)
  ensures retraction-length: o.Filament.RetractionLength == data.Millimeter(2)
  ensures retraction-z-hop: o.Filament.RetractionZHop == data.Millimeter(0)
  ensures extrusion-multiplier: o.Filament.ExtrusionMultiplier == 100
  ensures extrusion-width: o.Printer.ExtrusionWidth == data.Micrometer(400)
  ensures force-safe-gcode: o.Printer.ForceSafeStartStopGCode == true
  ensures has-heated-bed: o.Printer.HasHeatedBed == true
  ensures version: o.GoSlice.PrintVersion == false
  ensures output: o.GoSlice.OutputFilePath == ""
  ensures fan-speed: o.Filament.FanSpeed.LayerToSpeedLUT != nil && fresh(o.Filament.FanSpeed.LayerToSpeedLUT) && (forall k :: has(o.Filament.FanSpeed.LayerToSpeedLUT, k) == (k == 2)) && o.Filament.FanSpeed.LayerToSpeedLUT[2] == 255
  ensures center: is(o.Printer.Center, "*data.microVec3") && o.Printer.Center != nil && o.Printer.Center.X() == 100000 && o.Printer.Center.Y() == 100000 && o.Printer.Center.Z() == 0
  ensures start-gcode: len(o.Printer.StartGCode.GCodeLines) == 6 && o.Printer.StartGCode.GCodeLines[0] == ";SET BED TEMP" && o.Printer.StartGCode.GCodeLines[1] == "M190 S{print_bed_temperature} ; heat and wait for bed" && o.Printer.StartGCode.GCodeLines[2] == ";SET HOTEND TEMP" && o.Printer.StartGCode.GCodeLines[3] == "M109 S{print_temperature} ; wait for hot end temperature" && o.Printer.StartGCode.GCodeLines[4] == "M107 ; disable fan" && o.Printer.StartGCode.GCodeLines[5] == "G1 Z5 F5000 ; lift nozzle"
  ensures end-gcode: len(o.Printer.EndGCode.GCodeLines) == 3 && o.Printer.EndGCode.GCodeLines[0] == "M107 ; disable fan" && o.Printer.EndGCode.GCodeLines[1] == "G28 X0  ; home X axis to get head out of the way" && o.Printer.EndGCode.GCodeLines[2] == "M84 ;steppers off"
  ensures input: o.GoSlice.InputFilePath == ""
  ensures logger: o.GoSlice.Logger != nil

func data.ParseFlags() (o)
  property C25
  modifies nothing
  ensures meld-distance: o.Slicing.MeldDistance == flagged("meld-distance", data.Micrometer(30))
  ensures join-polygon-snap-distance: o.Slicing.JoinPolygonSnapDistance == flagged("join-polygon-snap-distance", data.Micrometer(160))
  ensures finish-polygon-snap-distance: o.Slicing.FinishPolygonSnapDistance == flagged("finish-polygon-snap-distance", data.Micrometer(1000))
  ensures initial-layer-speed: o.Print.IntialLayerSpeed == flagged("initial-layer-speed", data.Millimeter(30))
  ensures layer-speed: o.Print.LayerSpeed == flagged("layer-speed", data.Millimeter(60))
  ensures outer-perimeter-speed: o.Print.OuterPerimeterSpeed == flagged("outer-perimeter-speed", data.Millimeter(40))
  ensures move-speed: o.Print.MoveSpeed == flagged("move-speed", data.Millimeter(150))
  ensures initial-layer-thickness: o.Print.InitialLayerThickness == flagged("initial-layer-thickness", data.Micrometer(200))
  ensures layer-thickness: o.Print.LayerThickness == flagged("layer-thickness", data.Micrometer(200))
  ensures inset-count: o.Print.InsetCount == flagged("inset-count", 2)
  ensures infill-overlap-percent: o.Print.InfillOverlapPercent == flagged("infill-overlap-percent", 50)
  ensures additional-internal-infill-overlap-percent: o.Print.AdditionalInternalInfillOverlapPercent == flagged("additional-internal-infill-overlap-percent", 400)
  ensures infill-percent: o.Print.InfillPercent == flagged("infill-percent", 20)
  ensures infill-rotation-degree: o.Print.InfillRotationDegree == flagged("infill-rotation-degree", 45)
  ensures infill-zig-zag: o.Print.InfillZigZag == flagged("infill-zig-zag", false)
  ensures number-bottom-layers: o.Print.NumberBottomLayers == flagged("number-bottom-layers", 3)
  ensures number-top-layers: o.Print.NumberTopLayers == flagged("number-top-layers", 4)
  ensures support-enabled: o.Print.Support.Enabled == flagged("support-enabled", false)
  ensures support-threshold-angle: o.Print.Support.ThresholdAngle == flagged("support-threshold-angle", 60)
  ensures support-top-gap-layers: o.Print.Support.TopGapLayers == flagged("support-top-gap-layers", 3)
  ensures support-interface-layers: o.Print.Support.InterfaceLayers == flagged("support-interface-layers", 2)
  ensures support-pattern-spacing: o.Print.Support.PatternSpacing == flagged("support-pattern-spacing", data.Millimeter(2.5))
  ensures support-gap: o.Print.Support.Gap == flagged("support-gap", data.Millimeter(0.6))
  ensures skirt-count: o.Print.BrimSkirt.SkirtCount == flagged("skirt-count", 2)
  ensures skirt-distance: o.Print.BrimSkirt.SkirtDistance == flagged("skirt-distance", data.Millimeter(5))
  ensures brim-count: o.Print.BrimSkirt.BrimCount == flagged("brim-count", 0)
  ensures filament-diameter: o.Filament.FilamentDiameter == flagged("filament-diameter", data.Micrometer(1750))
  ensures initial-bed-temperature: o.Filament.InitialBedTemperature == flagged("initial-bed-temperature", 60)
  ensures initial-hot-end-temperature: o.Filament.InitialHotEndTemperature == flagged("initial-hot-end-temperature", 205)
  ensures bed-temperature: o.Filament.BedTemperature == flagged("bed-temperature", 55)
  ensures hot-end-temperature: o.Filament.HotEndTemperature == flagged("hot-end-temperature", 200)
  ensures initial-temperature-layer-count: o.Filament.InitialTemperatureLayerCount == flagged("initial-temperature-layer-count", 3)
  ensures retraction-speed: o.Filament.RetractionSpeed == flagged("retraction-speed", data.Millimeter(30))
  ensures retraction-length: o.Filament.RetractionLength == flagged("retraction-length", data.Millimeter(2))
  ensures retraction-z-hop: o.Filament.RetractionZHop == flagged("retraction-z-hop", data.Millimeter(0))
  ensures extrusion-multiplier: o.Filament.ExtrusionMultiplier == flagged("extrusion-multiplier", 100)
  ensures extrusion-width: o.Printer.ExtrusionWidth == flagged("extrusion-width", data.Micrometer(400))
  ensures force-safe-gcode: o.Printer.ForceSafeStartStopGCode == flagged("force-safe-gcode", true)
  ensures has-heated-bed: o.Printer.HasHeatedBed == flagged("has-heated-bed", true)
  ensures version: o.GoSlice.PrintVersion == flagged("version", false)
  ensures output: o.GoSlice.OutputFilePath == flagged("output", "")
  ensures fan-speed: given("fan-speed") ==> same(o.Filament.FanSpeed, value("fan-speed", "data.FanSpeedOptions"))
  ensures fan-speed-default: !given("fan-speed") ==> o.Filament.FanSpeed.LayerToSpeedLUT != nil && (forall k :: has(o.Filament.FanSpeed.LayerToSpeedLUT, k) == (k == 2)) && o.Filament.FanSpeed.LayerToSpeedLUT[2] == 255
  ensures center: is(o.Printer.Center, "*data.microVec3") && o.Printer.Center != nil
  ensures center-given: given("center") ==> o.Printer.Center.X() == value("center", "data.microVec3").x && o.Printer.Center.Y() == value("center", "data.microVec3").y && o.Printer.Center.Z() == value("center", "data.microVec3").z
  ensures center-default: !given("center") ==> o.Printer.Center.X() == 100000 && o.Printer.Center.Y() == 100000 && o.Printer.Center.Z() == 0
  ensures start-gcode: given("start-gcode") ==> same(o.Printer.StartGCode, value("start-gcode", "data.GCodeHunk"))
  ensures start-gcode-default: !given("start-gcode") ==> len(o.Printer.StartGCode.GCodeLines) == 6 && o.Printer.StartGCode.GCodeLines[0] == ";SET BED TEMP" && o.Printer.StartGCode.GCodeLines[1] == "M190 S{print_bed_temperature} ; heat and wait for bed" && o.Printer.StartGCode.GCodeLines[2] == ";SET HOTEND TEMP" && o.Printer.StartGCode.GCodeLines[3] == "M109 S{print_temperature} ; wait for hot end temperature" && o.Printer.StartGCode.GCodeLines[4] == "M107 ; disable fan" && o.Printer.StartGCode.GCodeLines[5] == "G1 Z5 F5000 ; lift nozzle"
  ensures end-gcode: given("end-gcode") ==> same(o.Printer.EndGCode, value("end-gcode", "data.GCodeHunk"))
  ensures end-gcode-default: !given("end-gcode") ==> len(o.Printer.EndGCode.GCodeLines) == 3 && o.Printer.EndGCode.GCodeLines[0] == "M107 ; disable fan" && o.Printer.EndGCode.GCodeLines[1] == "G28 X0  ; home X axis to get head out of the way" && o.Printer.EndGCode.GCodeLines[2] == "M84 ;steppers off"
  ensures input: o.GoSlice.InputFilePath == (if narg() > 0 then arg(0) else "")
  ensures logger: o.GoSlice.Logger != nil
