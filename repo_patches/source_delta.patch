From b2f8392269c0605bc58e354234b29e0271b05a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 01/14] fix: use the real distances when smoothing a path

The squared distance was compared with the square of the largest squared distance, and calculating it
overflowed for lines longer than a few centimeters, so significant points were dropped.
---
 data/2d.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..94f1d5f 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -2,7 +2,10 @@
 
 package data
 
-import "math"
+import (
+	"math"
+	"math/bits"
+)
 
 // DotProduct calculates the dot product of two points
 func DotProduct(a, b MicroPoint) Micrometer {
@@ -24,10 +27,29 @@ func PerpendicularDistance2(a, b, point MicroPoint) Micrometer {
 	}
 
 	dotProduct := DotProduct(vecAB, vecAP)
-	axSize2 := dotProduct * dotProduct / vecAB.Size2()
+	axSize2 := squareDiv(dotProduct, vecAB.Size2())
 	return Max(0, vecAP.Size2()-axSize2)
 }
 
+// squareDiv calculates a*a / b for a positive b.
+// The square is calculated with 128 bit, as it exceeds the range of Micrometer already for paths of a few centimeters.
+func squareDiv(a, b Micrometer) Micrometer {
+	if a < 0 {
+		a = -a
+	}
+
+	hi, lo := bits.Mul64(uint64(a), uint64(a))
+	if hi >= uint64(b) {
+		return MaxMicrometer
+	}
+
+	quotient, _ := bits.Div64(hi, lo, uint64(b))
+	if quotient > uint64(MaxMicrometer) {
+		return MaxMicrometer
+	}
+	return Micrometer(quotient)
+}
+
 // douglasPeucker accepts a list of points and epsilon as threshold, simplifies a path by dropping
 // points that do not pass threshold values.
 func douglasPeucker(points Path, ep Micrometer, depth int) Path {
@@ -56,7 +78,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if d > maxDist {
 			maxDist = d
 			idx = i
 		}
-- 
2.43.0


From 253e75baffdd2566a7b05a38de24176c72bcd8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 02/14] fix: do not overwrite the input when smoothing a path

---
 data/2d.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 94f1d5f..c00f606 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -65,7 +65,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		// limit the capacity, as left may share its memory with points
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From c7b936debc0cbcdf2082f7cff6ab377ffa10d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 03/14] fix: do not overflow when simplifying large polygons

---
 data/layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/layer.go b/data/layer.go
index 9d6f8e4..858b503 100644
--- a/data/layer.go
+++ b/data/layer.go
@@ -118,7 +118,7 @@ func (p Path) Simplify(smallestLineSegmentSquared, allowedErrorDistanceSquared M
 		// h = L / b           [divide by b]
 		// h^2 = (L / b)^2     [square it]
 		// h^2 = L^2 / b^2     [factor the divisor]
-		height2 := areaRemovedSoFar * areaRemovedSoFar / baseLength2
+		height2 := squareDiv(areaRemovedSoFar, baseLength2)
 		if (height2 <= 25 && //Almost exactly collinear (barring rounding errors).
 			PerpendicularDistance2(current, previous, next) <= 25) ||
 			(length2 < smallestLineSegmentSquared &&
-- 
2.43.0


From 76265c5fb6049fafecb9e09f9720c92125567480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:01 +0000
Subject: [PATCH 04/14] fix: return the error if the model file could not be
 read completely

---
 reader/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..f8c959e 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return nil, err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From c209a55a13978388765a9cb213a42bb5f2e686d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 05/14] fix: return an error for models without any face
 instead of panicking later

---
 reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reader/reader.go b/reader/reader.go
index f8c959e..e4176e2 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -119,6 +119,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if err := stl.CopyFile(filename, model); err != nil {
 		return nil, err
 	}
+	if len(model.faces) == 0 {
+		return nil, errors.New("the model contains no faces")
+	}
 	return model, nil
 }
 
-- 
2.43.0


From a12906edc753aebb84fdaf01ee67a315502d4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:42 +0000
Subject: [PATCH 06/14] fix: report errors when closing the written file

---
 writer/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 25c5d3d..8c88e4d 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -18,8 +18,11 @@ func (w writer) Write(gcode string, filename string) error {
 		return err
 	}
 
-	defer buf.Close()
-
 	_, err = buf.WriteString(gcode)
+
+	// Some file systems report failed writes only when the file is closed.
+	if closeErr := buf.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From 96b777471a4e99d6a0323eb8cf11a0567974e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:35 +0000
Subject: [PATCH 07/14] fix: do not fail on a move without any length on a
 layer without parts

---
 clip/clip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..713b779 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -325,6 +325,12 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 }
 
 func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Path) (result, ok bool) {
+	// A line without any length does not cross anything.
+	// (The clipper lib would fail with it if there are no parts.)
+	if len(line) == 2 && line[0].X() == line[1].X() && line[0].Y() == line[1].Y() {
+		return false, true
+	}
+
 	// TODO: Is there a more performant way to detect this?
 	cl := clipper.NewClipper(clipper.IoReverseSolution) // inverse solution so that it is basically LINE - PARTS
 
-- 
2.43.0


From 8788ece783796485f0741791613f45c6afb1184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:00 +0000
Subject: [PATCH 08/14] fix: do not interpret percent signs in the start and
 end gcode

---
 gcode/renderer/layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..d68cd6c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -48,7 +48,7 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 			if strings.Contains(instruction, HotendTempTemplate) {
 				instruction = strings.Replace(instruction, HotendTempTemplate, fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)
 			}
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 		b.AddCommand("G92 E0 ; reset extrusion distance")
@@ -118,7 +118,7 @@ func (PostLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.
 			}
 		}
 		for _, instruction := range options.Printer.EndGCode.GCodeLines {
-			b.AddCommand(instruction)
+			b.AddCommand("%s", instruction)
 		}
 
 	}
-- 
2.43.0


From b4e22919bd3b1c708a8f9c22ac72425a2e3e0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:27 +0000
Subject: [PATCH 09/14] fix: print everything but the outer perimeters at the
 layer speed

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..3f4164d 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -55,5 +55,8 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		}
 	}
 
+	// only the outer perimeters are printed slower
+	b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	return nil
 }
-- 
2.43.0


From dc54c971dd1acc75d1ba2913a50239069bd290f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:14 +0000
Subject: [PATCH 10/14] fix: do not fail on area operations without any part

---
 clip/clip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 713b779..15e4439 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -301,7 +301,8 @@ func (c clipperClipper) Union(parts []data.LayerPart, toMerge []data.LayerPart)
 }
 
 func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.LayerPart, toClip []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
-	if parts == nil && toClip == nil {
+	// The clipper lib would fail if there is nothing to do.
+	if len(parts) == 0 && len(toClip) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 517160dc665227b162994718a1ee1985044f4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:49 +0000
Subject: [PATCH 11/14] fix: do not cut out areas where parts of one operand
 overlap

---
 clip/clip.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 15e4439..b9ff035 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -317,7 +317,9 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
 	}
 
-	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
+	// The parts of one operand may overlap each other (e.g. after exsetting them),
+	// so everything which is inside of any of them has to count.
+	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)
 
 	if !ok {
 		return nil, ok
-- 
2.43.0


From 0227b138e3e2e4189b13f3d17693fd269edd55e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:49 +0000
Subject: [PATCH 12/14] fix: do not panic if no perimeters are configured

---
 modifier/infill.go    | 5 +++++
 modifier/perimeter.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..3101639 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -60,6 +60,11 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 		// Calculate the bottom/top parts for each inner perimeter part.
 		// It also takes into account the configured number of top/bottom layers.
 		for partNr, part := range perimeters {
+			// Without any inset there is no inner perimeter.
+			if len(part) == 0 {
+				continue
+			}
+
 			// for the last (most inner) inset of each part
 			for _, insetPart := range part[len(part)-1] {
 				var bottomInfillParts, topInfillParts []data.LayerPart
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..843a00c 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -76,6 +76,11 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 				overlapPerimeter = append(overlapPerimeter, nil)
 			}
 
+			// Without any inset there is no inner perimeter.
+			if len(part) == 0 {
+				continue
+			}
+
 			// Use only the most inner perimeter.
 			for _, insetPart := range part[len(part)-1] {
 
-- 
2.43.0


From 7fff5596bb0003078ed41525652185b0013da7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:49 +0000
Subject: [PATCH 13/14] fix: fill the layers above a layer without any part

---
 modifier/infill.go          | 11 +++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index 3101639..ed97c6c 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,21 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// Nothing to fill on this layer.
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..ca849fc 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// Nothing to fill on this layer.
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From b6019cfa626ac3dedae5000e5194094b134d930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:49 +0000
Subject: [PATCH 14/14] fix: surround all pieces of the first layer by the brim

---
 modifier/brim.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..1b4825f 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -71,7 +71,7 @@ func BrimOuterDimension(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 }
 
 func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
-	if m.options.Print.BrimSkirt.BrimCount == 0 {
+	if m.options.Print.BrimSkirt.BrimCount == 0 || len(layers) == 0 {
 		return nil
 	}
 
@@ -91,10 +91,8 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 
 	for _, part := range perimeters {
 		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+			// A part which is narrow at some places may be split into several perimeters by the inset.
+			allOuterPerimeters = append(allOuterPerimeters, wall...)
 		}
 	}
 
-- 
2.43.0

