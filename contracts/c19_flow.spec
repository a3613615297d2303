# C19: filament per millimeter of line. about(a, b) means equal up to floating point rounding.
define area19(d) = data.Millimeter(3.14159265358979) * d.ToMillimeter() * d.ToMillimeter() / data.Millimeter(4)
define perMM(g, thickness, width) = thickness.ToMillimeter() * width.ToMillimeter() / area19(g.filamentDiameter) * data.Millimeter(g.extrusionMultiplier) / data.Millimeter(100)

func (*gcode.Builder).SetExtrusion(g, layerThickness, lineWidth) ()
  property C19
  requires g != nil
  modifies g.extrusionPerMM
  ensures volume: about(g.extrusionPerMM, perMM(g, layerThickness, lineWidth))
