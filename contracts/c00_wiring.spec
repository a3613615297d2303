# The built-in steps are put together in the right order, and all of them work with the given options.
define pd(s) = as(s.Modifiers[0], "*modifier.perimeterModifier")
define genOf(s) = as(s.Generator, "*gcode.generator")
define infillOf(s, k) = as(genOf(s).renderers[k], "*renderer.Infill")

func goslice.NewGoSlice(options) (s)
  property C20 C21
  modifies nothing
  ensures new: s != nil && fresh(s)
  ensures options: pd(s).options != nil && same(*pd(s).options, options) && same(s.Options, options.GoSlice)
  ensures reader: is(s.Reader, "*reader.reader") && is(s.Optimizer, "*optimizer.optimizer") && is(s.Slicer, "*slicer.slicer")
  ensures shared: ref(as(s.Optimizer, "*optimizer.optimizer").options) == ref(pd(s).options) && ref(as(s.Slicer, "*slicer.slicer").options) == ref(pd(s).options)
  ensures modifiers: len(s.Modifiers) == 6 && is(s.Modifiers[0], "*modifier.perimeterModifier") && is(s.Modifiers[1], "*modifier.infillModifier") && is(s.Modifiers[2], "*modifier.internalInfillModifier") && is(s.Modifiers[3], "*modifier.brimModifier") && is(s.Modifiers[4], "*modifier.supportDetectorModifier") && is(s.Modifiers[5], "*modifier.supportGeneratorModifier")
  ensures generator: is(s.Generator, "*gcode.generator") && len(genOf(s).renderers) == 10 && ref(genOf(s).options) == ref(pd(s).options)
  ensures first: is(genOf(s).renderers[0], "renderer.PreLayer") && is(genOf(s).renderers[9], "renderer.PostLayer")
  ensures features: is(genOf(s).renderers[1], "renderer.Skirt") && is(genOf(s).renderers[2], "renderer.Brim") && is(genOf(s).renderers[3], "renderer.Perimeter")
  ensures infill: forall k in 4..9 :: is(genOf(s).renderers[k], "*renderer.Infill")
  ensures attributes: infillOf(s, 4).AttrName == "support" && infillOf(s, 5).AttrName == "supportInterface" && infillOf(s, 6).AttrName == "bottom" && infillOf(s, 7).AttrName == "top" && infillOf(s, 8).AttrName == "infill"
