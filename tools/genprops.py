#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

p("C01", "Point and vector arithmetic is exact and never alters its operands",
  "Adding, subtracting, scaling, dividing (truncating towards zero) and copying 2D points and 3D vectors, taking their squared length or dot product, and comparing a length with a limit give exactly the componentwise integer result. A result is always a new object, and neither operand is changed by the operation. Setters change only the named coordinate of the one object they are called on.",
  ["inputs"], "all coordinates up to 10 m and all factors for which the 64-bit result fits, including negative values, zero, and operands that are the same object",
  "The data tests compare a handful of literal vectors; aliasing between operand and result and sign/zero corner cases range over all inputs.",
  ["data/micrometer.go", "data/2d.go"],
  [("microPoint/microVec3 methods", "data/micrometer.go"), ("DotProduct", "data/2d.go")], ["data.MicroPoint", "data.MicroVec3"])

p("C02", "Bounding boxes of paths, path groups and layers are tight",
  "The bounding box computed for a path, a group of paths or a layer contains every point of it, and each of its four sides is touched by one of the points. If there is no point at all, both corners are (0,0). Computing it changes nothing.",
  ["inputs"], "all paths and path groups of any length, including empty ones and empty members",
  "Tests use four squares; the claim is about every number, order and sign of points.",
  ["data/layer.go"], [("Path.Bounds, Paths.Bounds, partitionedLayer.Bounds", "data/layer.go")], ["Bounds()"])

p("C03", "Smoothing a tool path keeps its ends and stays within its tolerance",
  "Smoothing a path before printing keeps its first and last point and returns a subsequence of its points in their original order. The squared distance of every dropped point from the line through the two kept points around it is below the tolerance (70 square micrometers by default). The path passed in is not modified.",
  ["inputs"], "all paths of any length with coordinates up to 10 m and every positive tolerance",
  "No test calls the smoothing with a path longer than four points; overflow and aliasing only show for particular sizes and shapes.",
  ["data/2d.go"], [("DouglasPeucker / douglasPeucker / seekMostDistantPoint / PerpendicularDistance2", "data/2d.go")], ["data.DouglasPeucker", "data.PerpendicularDistance2"])

p("C04", "Polygon simplification never drops a significant vertex",
  "Simplifying a polygon returns a subsequence of its vertices and leaves the polygon unmodified; polygons of at most two points become empty and triangles are returned as they are. A vertex is dropped only if it is (almost) collinear with the previously kept vertex and the next one, if the path goes forth and back over it, or if both segments next to it are shorter than the given segment length and the area cut off stays within the allowed error.",
  ["inputs"], "all polygons of up to 40 000 vertices with coordinates up to 10 m and all non-negative limits",
  "TestPathSimplify is an empty TODO.", ["data/layer.go"],
  [("Path.Simplify", "data/layer.go")], ["data.Path.Simplify"])

p("C05", "A model file is read completely or reported as unreadable",
  "Reading a model file that does not exist, cannot be read, is truncated, is found malformed by the STL parser or has no triangle gives an error and never a model. Otherwise the model has exactly the triangles of the file in file order, each vertex in its place and each coordinate being the file's millimeter value converted to micrometers.",
  ["inputs", "fault_sequences"], "all files, including missing, empty and cut-off ones",
  "The only test that reads a file reads one good file; no test exists for errors or for the triangle mapping.",
  ["reader/reader.go", "data/data.go"], [("reader.Read, Model.AppendTriangle, stlTriangleToFace", "reader/reader.go")], ["handler.ModelReader"])

p("C06", "The optimized mesh has no degenerate or duplicate faces and true adjacency",
  "Every face of the optimized model has three different corner points, and no two faces use the same three corner points. For each edge of a face the recorded touching face is another face of the model which has both corner points of that edge; no touching face is recorded exactly if there is none.",
  ["inputs"], "all models with any number of faces and any (positive) meld distance",
  "No test covers the optimizer; adjacency depends on the whole history of faces inserted before.",
  ["optimizer/optimizer.go", "optimizer/model.go", "optimizer/face.go"], [("optimizer.Optimize, getFaceIdxWithPoints", "optimizer/optimizer.go")], ["data.OptimizedModel"])

p("C07", "The model is moved as a whole to the configured place",
  "After optimization every corner of every remaining face is a point of the input model within the meld distance of the corresponding input corner, moved by one common offset: the middle of the model's footprint goes to the configured center and its lowest point to the center's height. Remaining faces keep the order and orientation of the input, faces are only dropped when two of their corners were melded or they repeat an earlier face, and the reported size is the extent of the input model.",
  ["inputs", "configurations"], "all models and all configured center points",
  "No test covers the optimizer.", ["optimizer/optimizer.go"], [("optimizer.Optimize", "optimizer/optimizer.go")], ["data.OptimizedModel"])

p("C08", "Model extents are exact and computing them changes nothing",
  "The minimum and maximum corner reported for a read or optimized model are the exact componentwise minimum and maximum over all vertices of all its faces, and the lowest and highest height reported for a face are those of its three vertices. Asking for them does not change the model.",
  ["inputs"], "all models with at least one face, with any number of faces", "No test exercises them.",
  ["reader/reader.go", "optimizer/model.go", "optimizer/face.go"], [("Model.Min/Max", "reader/reader.go"), ("optimizedModel.Min/Max", "optimizer/model.go")], ["data.Model"])

p("C09", "Each layer is cut from exactly the faces that cross its height",
  "Layer number n is the cut of the model at the height of the initial layer thickness plus n times the layer thickness, and there is one layer for each such height up to the top of the model. A face contributes a cut line to a layer exactly if it reaches from below that height to that height or above it; the line connects the points where the face's edges cross the height (rounded to whole micrometers, less than one micrometer off per coordinate) and is directed so that the solid stays on the same side. Layers in which nothing is cut are empty.",
  ["inputs", "configurations"], "all models and all positive layer thicknesses", "No test covers the slicer; each face/plane position case is an input class.",
  ["slicer/slicer.go", "slicer/segment.go"], [("slicer.Slice, SliceFace", "slicer/slicer.go")], ["handler.ModelSlicer"])

p("C10", "Contours are assembled from the cut lines without reuse, and are closed",
  "When the cut lines of a layer are joined to contours, each cut line is used at most once and every contour point is an end point of a cut line of this layer. Only contours are kept whose two ends are within the configured closing distance and whose length exceeds it. Every cut line is assigned to a contour, and assembling always terminates.",
  ["inputs"], "all sets of cut lines and adjacency data", "No test covers it; contours depend on the order and connectivity of all segments.",
  ["slicer/layer.go"], [("layer.makePolygons", "slicer/layer.go")], ["handler.ModelSlicer"])

p("C11", "Area operations apply the right operation and lose no outline or hole",
  "Difference, intersection and union of areas pass every outline and hole of the first operand as subject and of the second as clip, with unchanged coordinates, to the polygon library with the matching operation. Every outline and every hole of the library's result, including islands inside holes at any depth, becomes an outline or hole of exactly one part of the result, with unchanged coordinates. A failure of the library is reported, and the operands are not changed.",
  ["inputs"], "all lists of parts with any number of points and holes and all result trees of any depth", "Package clip has no tests.",
  ["clip/clip.go"], [("runClipper, polyTreeToLayerParts, clipperPath(s), microPath(s)", "clip/clip.go")], ["clip.Clipper"])

p("C12", "Perimeters: number, spacing and order are as configured",
  "Each part of each layer gets the configured number of perimeters, the first one half an extrusion width inside the outline and each further one a full extrusion width further in, grouped by part in the order of the parts. The area for infill is derived from the innermost perimeter only, using the configured overlap.",
  ["inputs", "configurations"], "all layers, parts, perimeter counts and extrusion widths", "Package modifier has no tests.",
  ["modifier/perimeter.go", "clip/clip.go"], [("perimeterModifier.Modify, Inset, InsetLayer", "modifier/perimeter.go")], ["attributes perimeters, overlapPerimeters"])

p("C13", "Solid skin covers exactly what nearby layers leave exposed",
  "A spot inside the innermost perimeters of a layer is taken into the bottom (top) skin exactly if one of the configured number of layers below (above) does not cover it or does not exist; the skin is then grown by the configured overlap and cut to the infill area of its part. Top skin excludes bottom skin, and the internal infill area is the infill area minus both skins, and is empty for 0 percent infill.",
  ["inputs", "configurations"], "all layer stacks, layer positions and skin layer counts", "Package modifier has no tests.",
  ["modifier/infill.go", "modifier/internal_infill.go"], [("infillModifier.Modify, internalInfillModifier.Modify, partDifference", "modifier/infill.go")], ["attributes bottom, top, infill"])

p("C14", "Brim surrounds the outermost contours of the first layer only",
  "Only the first layer gets a brim, and only if the brim line count is not 0. Its lines are the configured number of lines around the outermost contours of the first layer's perimeters, the first one a full extrusion width outside and each further one a full extrusion width further out; the recorded brim area reaches half a line width beyond the outermost line.",
  ["inputs", "configurations"], "all layer stacks and brim settings", "Package modifier has no tests.",
  ["modifier/brim.go"], [("brimModifier.Modify", "modifier/brim.go")], ["attributes brim, outerBrim"])

p("C15", "Support grows down from overhangs and keeps clear of model and brim",
  "With support disabled no layer gets any support. With support enabled, the area supported on each layer is what is needed there or is supported on the layer above, minus the model of that layer grown by the support gap; interface and normal support split that area without overlap, and the brim area is taken out of both.",
  ["inputs", "configurations"], "all layer stacks and support settings", "Package modifier has no tests.",
  ["modifier/support.go"], [("supportDetectorModifier.Modify, supportGeneratorModifier.Modify", "modifier/support.go")], ["attributes support, supportInterface, fullSupport"])

p("C16", "Fill lines are evenly spaced, complete and leave the part unmodified",
  "A fill pattern lays parallel lines at the configured distance over the whole rotated model box, from its low to its high side, rotates by the configured angle (plus 90 degrees on every even layer for rectilinear patterns) and back, and does not change the part being filled. Ordering the lines for printing keeps every line exactly once (possibly reversed); only zig-zag patterns add connections, and only between consecutive lines.",
  ["inputs", "configurations"], "all parts, pattern settings, layer numbers and numbers of lines", "Package clip has no tests.",
  ["clip/linear.go"], [("linear.Fill, getInfill, sortInfill", "clip/linear.go")], ["clip.Pattern"])

p("C17", "G-code moves always reproduce the requested position, extrusion and speed",
  "Interpreting the emitted move commands in order (absolute positions and extrusion, omitted words keep their last value) gives, after every move, exactly the requested position, the sum of all requested extrusions and the requested speed. A move is omitted only if it changes neither position nor extrusion, and moves with extrusion are G1 and others G0.",
  ["histories", "inputs"], "all sequences of moves, extrusions (including retractions) and speeds", "Builder tests cover a few dozen fixed moves.",
  ["gcode/builder.go"], [("Builder.AddMoveSpeed, AddMove", "gcode/builder.go")], ["gcode.Builder.String"])

p("C18", "Printing a polygon follows it, and every retraction is undone",
  "Printing a path moves to its first point without extruding, then extrudes to each further point of the smoothed path in order and back to the first point only for closed paths, with extrusion proportional to the length of each segment, all at the layer's height. If the way to the first point crosses a perimeter and retraction is configured, exactly the retracted amount is pushed back before printing and the nozzle is lifted by the configured hop only in between. Empty paths print nothing.",
  ["inputs", "histories"], "all paths, builder states and retraction settings", "Builder tests print two open squares without retraction.",
  ["gcode/builder.go"], [("Builder.AddPolygon", "gcode/builder.go")], ["gcode.Builder.String"])

p("C19", "The extruded volume matches the printed line's volume",
  "The filament length extruded per millimeter of line is layer thickness times line width divided by the cross section of the filament, times the extrusion multiplier in percent, up to floating point rounding.",
  ["inputs", "configurations"], "all layer thicknesses, line widths, filament diameters and multipliers", "Builder tests check three value combinations.",
  ["gcode/builder.go"], [("Builder.SetExtrusion", "gcode/builder.go")], ["gcode.Builder.String"])

p("C20", "Start, end, temperature and fan commands appear where configured",
  "The configured start lines come first, once, on the first layer, and the end lines once, after everything else of the last layer, both verbatim except for the documented temperature placeholders; heating and switching off is added exactly where safe mode is on and the configured lines lack it (bed only with a heated bed). The fan speed configured for a layer is set on that layer only, and the normal temperatures are set on the layer configured for it.",
  ["inputs", "configurations"], "all start/end lines (including ones with percent signs), layer counts and settings", "The tests of start and end lines cannot run here, and check seven fixed settings.",
  ["gcode/renderer/layer.go", "data/option.go"], [("PreLayer.Render, PostLayer.Render, GCodeHunk.DoesInstructionContainCodes", "gcode/renderer/layer.go")], ["gcode output"])

p("C21", "Every feature of a layer is printed once, in order and at its speed",
  "For each layer, all perimeters of a part are printed with the outermost one last, holes before their outline; the outer ones at the outer perimeter speed and everything else at the layer speed. Each brim line and each line of each fill pattern is printed once, in order, at the height of its layer; perimeters, brim and skirt loops are closed and fill lines are open.",
  ["inputs", "configurations"], "all attribute contents and numbers of parts, perimeters and holes", "Package renderer has no tests.",
  ["gcode/renderer/perimeter.go", "gcode/renderer/infill.go", "gcode/renderer/brim.go"], [("Perimeter.Render, Infill.Render, Brim.Render", "gcode/renderer/perimeter.go")], ["gcode output"])

p("C22", "All layers are rendered once, bottom up, at their height",
  "Generating G-code initializes each renderer once, then calls every renderer in the order given for every layer from the first to the last, with the layer's own number, data and height (initial layer thickness plus number times layer thickness). The first error stops generation and no G-code is returned; otherwise the result is all that the renderers produced, starting from an empty program.",
  ["inputs", "configurations"], "all numbers of layers and renderers and every error position", "One test with one renderer, three layers and no error.",
  ["gcode/generator.go"], [("generator.Generate, Init, NewGenerator", "gcode/generator.go")], ["handler.GCodeGenerator"])

p("C23", "The pipeline runs every stage in order and stops at the first error",
  "Processing reads the input file, optimizes, slices, applies every modifier in order and generates G-code, each on the result of the stage before, and then writes exactly the generated G-code to the configured output path, or to the input path plus .gcode if none is configured. The first stage that fails ends processing with its error, no later stage runs and nothing is written. The file writer replaces the target's content with exactly the text given and reports every failure to do so.",
  ["configurations", "fault_sequences"], "all combinations of stages, numbers of modifiers and failing stages", "The tests of the whole pipeline cannot run here and have no failing stage.",
  ["goslice.go", "writer/writer.go"], [("GoSlice.Process, writer.Write", "goslice.go")], ["goslice.Process"])

p("C24", "Option values are accepted completely or rejected without effect",
  "Setting a fan speed table or a point from text either stores exactly the values written and succeeds, or fails and leaves the old value in place. Accepted fan speeds are 0 to 255 and layers at least 0. Setting start or end lines keeps every non-blank line in order and nothing else.",
  ["inputs"], "all strings", "Tests try about ten strings.",
  ["data/option.go"], [("FanSpeedOptions.Set, microVec3.Set, Micrometer.Set, GCodeHunk.Set", "data/option.go")], ["pflag.Value"])

p("C25", "Every command line flag sets exactly its own option",
  "Each documented flag is bound to the option it is named after and to no other, no option is bound twice, and without flags all options have their documented defaults. The first positional argument is the input path, and the center given on the command line is the center used.",
  ["configurations"], "all flags and combinations of flags", "No test parses the command line.",
  ["data/option.go"], [("ParseFlags, DefaultOptions", "data/option.go")], ["data.ParseFlags"])

p("C26", "Layer attributes are kept, typed and never invented",
  "Reading an attribute of a layer returns exactly the stored value, nothing if it was never stored, and an error if it has another type. Extending a layer keeps all attributes it already has and its geometry.",
  ["inputs", "histories"], "all layers, attribute maps and attribute names", "Package modifier has no tests.",
  ["modifier/modifier.go", "modifier/perimeter.go", "modifier/brim.go", "modifier/support.go"], [("PartsAttribute, Perimeters, OverlapPerimeters, Brim, BrimOuterDimension, FullSupport, newExtendedLayer", "modifier/modifier.go")], ["modifier accessors"])

p("C27", "The skirt surrounds everything on the first layer at its distance",
  "The skirt is printed on the first layer only and only if its line count is not 0 and there is something to surround. Its hull is taken around all perimeters and all support of that layer; the innermost line keeps the configured distance plus the brim width plus one extrusion width, each further line lies one extrusion width further out, and each line is printed once as a closed loop.",
  ["inputs", "configurations"], "all first layers and skirt/brim settings", "Package renderer has no tests.",
  ["gcode/renderer/skirt.go", "clip/clip.go"], [("Skirt.Render, Hull", "gcode/renderer/skirt.go")], ["gcode output"])

p("C28", "Nested perimeter results are enumerated completely and in order",
  "Flattening a nested perimeter result lists every part exactly once in order of part, inset and piece. Visiting it calls the visitor once per part in that order with the right three indices, and stops right after the visitor asks to stop.",
  ["inputs"], "all nestings of any size, including empty members", "Package clip has no tests.",
  ["clip/clip.go"], [("OffsetResult.ToOneDimension, ForEach", "clip/clip.go")], ["clip.OffsetResult"])

p("C29", "Printed material stays within the model's cross section",
  "All perimeters, skins and infill printed on a layer lie inside the cross section of the model at that layer up to half an extrusion width and the smoothing tolerance.",
  ["inputs"], "all models and settings", "Would need every geometry.", ["clip/clip.go", "modifier/perimeter.go"], [("whole pipeline", "goslice.go")], ["G-code"])

p("C30", "Slicing the same model with the same options gives the same G-code",
  "Two runs over the same file with the same options produce byte-identical G-code.",
  ["histories"], "all models, options and runs", "Tests compare no two runs.", ["goslice.go"], [("whole pipeline", "goslice.go")], ["G-code"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
