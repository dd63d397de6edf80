From 211b33ee5becedc899c7b5c472cbceb972a77e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 01/54] fix: closest connection between two segments must
 consider the second end of the first segment

LinearAlg2D::getClosestConnection projected a1 instead of a2 onto segment b, so when
the closest pair involves a2 the function returned a2 with the projection of a1.
---
 src/utils/linearAlg2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index ef1a8be..f122764 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -135,7 +135,7 @@ std::pair<Point2LL, Point2LL> LinearAlg2D::getClosestConnection(Point2LL a1, Poi
     coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
     Point2LL a1_on_b = getClosestOnLineSegment(a1, b1, b2);
     coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
-    Point2LL a2_on_b = getClosestOnLineSegment(a1, b1, b2);
+    Point2LL a2_on_b = getClosestOnLineSegment(a2, b1, b2);
     coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
     if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
     {
-- 
2.43.0


From bf4922a90b84276dfeb139a014ffe900337abac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 02/54] fix: smoothing a shape drops a polygon that
 degenerates, instead of one of its points

---
 src/geometry/Shape.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/geometry/Shape.cpp b/src/geometry/Shape.cpp
index cd67a67..aee8141 100644
--- a/src/geometry/Shape.cpp
+++ b/src/geometry/Shape.cpp
@@ -641,10 +641,9 @@ Shape Shape::smooth(int remove_length) const
             continue;
         }
         poly.smooth(remove_length, ret.newLine());
-        Polygon& back = ret.back();
-        if (back.size() < 3)
+        if (ret.back().size() < 3)
         {
-            back.resize(back.size() - 1);
+            ret.resize(ret.size() - 1);
         }
     }
     return ret;
-- 
2.43.0


From 7319bb7ad3b2f4413919fff21bb2218eeea7ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 03/54] fix: a point on the border of a hole gets the requested
 border result, as on the outline

---
 src/geometry/SingleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SingleShape.cpp b/src/geometry/SingleShape.cpp
index 19b0702..a36ac37 100644
--- a/src/geometry/SingleShape.cpp
+++ b/src/geometry/SingleShape.cpp
@@ -22,7 +22,7 @@ bool SingleShape::inside(const Point2LL& p, bool border_result) const
 
     for (unsigned int n = 1; n < size(); n++)
     {
-        if ((*this)[n].inside(p, border_result))
+        if ((*this)[n].inside(p, ! border_result)) // being on the border of a hole gives border_result as well
         {
             return false;
         }
-- 
2.43.0


From 2fc0c5d2e70f6f4964832740df69ae5999217897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 04/54] fix: ensureManifold also separates points where three
 polygons touch or two such points are close

---
 src/geometry/Shape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/Shape.cpp b/src/geometry/Shape.cpp
index aee8141..7595046 100644
--- a/src/geometry/Shape.cpp
+++ b/src/geometry/Shape.cpp
@@ -930,7 +930,8 @@ void Shape::ensureManifold()
     }
     if (! removal_dots.empty())
     {
-        *this = difference(removal_dots);
+        // The dots may overlap, or coincide where more than two polygons touch.
+        *this = difference(removal_dots.unionPolygons(Shape(), ClipperLib::pftNonZero));
     }
 }
 
-- 
2.43.0


From 794fbdcd6d44884f0e789ef1dc97cbb3f258c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 05/54] fix: AABB::distanceSquared measured its corners'
 distance to lines towards the point

LinearAlg2D::getDist2FromLineSegment(a, b, c) takes the point in the middle.
---
 src/utils/AABB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/AABB.cpp b/src/utils/AABB.cpp
index 649fbfd..9881a2a 100644
--- a/src/utils/AABB.cpp
+++ b/src/utils/AABB.cpp
@@ -67,10 +67,10 @@ coord_t AABB::distanceSquared(const Point2LL& p) const
     const Point2LL a = Point2LL(max_.X, min_.Y);
     const Point2LL b = Point2LL(min_.X, max_.Y);
     return (contains(p) ? -1 : 1)
-         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, a, p),
-                      LinearAlg2D::getDist2FromLineSegment(a, max_, p),
-                      LinearAlg2D::getDist2FromLineSegment(max_, b, p),
-                      LinearAlg2D::getDist2FromLineSegment(b, min_, p) });
+         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, p, a),
+                      LinearAlg2D::getDist2FromLineSegment(a, p, max_),
+                      LinearAlg2D::getDist2FromLineSegment(max_, p, b),
+                      LinearAlg2D::getDist2FromLineSegment(b, p, min_) });
 }
 
 coord_t AABB::distanceSquared(const AABB& other) const
-- 
2.43.0


From 47d43d850fbb1f87c095062aadbbd44fe2eae019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 06/54] fix: infill walls are as many lines thick as asked for,
 not as many microns

---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 2cdc020..76de28b 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -656,7 +656,7 @@ void SkinInfillAreaComputation::generateGradualInfill(SliceMeshStorage& mesh)
             const Shape& infill_area = Infill::generateWallToolPaths(
                 part.infill_wall_toolpaths,
                 part.getOwnInfillArea(),
-                infill_wall_count,
+                static_cast<coord_t>(infill_wall_count) * infill_wall_width,
                 infill_wall_width,
                 mesh.settings,
                 layer_idx,
-- 
2.43.0


From 58ac5da4d4e49d343963c4b2c174867b541e02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 07/54] fix: combing with an avoid distance of 0 divided by
 zero

---
 src/pathPlanning/Comb.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pathPlanning/Comb.cpp b/src/pathPlanning/Comb.cpp
index 02380f4..b9c3aa2 100644
--- a/src/pathPlanning/Comb.cpp
+++ b/src/pathPlanning/Comb.cpp
@@ -19,11 +19,20 @@
 namespace cura
 {
 
+/*!
+ * The combing distances may be 0 (or next to nothing), but the cells of a lookup grid can't be.
+ */
+static coord_t gridCellSize(const coord_t distance)
+{
+    constexpr coord_t minimum_cell_size = 100;
+    return std::max(distance, minimum_cell_size);
+}
+
 LocToLineGrid& Comb::getOutsideLocToLine(const ExtruderTrain& train)
 {
     if (outside_loc_to_line_[train.extruder_nr_] == nullptr)
     {
-        outside_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(getBoundaryOutside(train), offset_from_inside_to_outside_ * 3 / 2);
+        outside_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(getBoundaryOutside(train), gridCellSize(offset_from_inside_to_outside_ * 3 / 2));
     }
     return *outside_loc_to_line_[train.extruder_nr_];
 }
@@ -52,7 +61,7 @@ LocToLineGrid& Comb::getModelBoundaryLocToLine(const ExtruderTrain& train)
 {
     if (model_boundary_loc_to_line_[train.extruder_nr_] == nullptr)
     {
-        model_boundary_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(getModelBoundary(train), offset_from_inside_to_outside_ * 3 / 2);
+        model_boundary_loc_to_line_[train.extruder_nr_] = PolygonUtils::createLocToLineGrid(getModelBoundary(train), gridCellSize(offset_from_inside_to_outside_ * 3 / 2));
     }
     return *model_boundary_loc_to_line_[train.extruder_nr_];
 }
@@ -79,8 +88,8 @@ Comb::Comb(
     , boundary_inside_optimal_(comb_boundary_inside_optimal) // copy the boundary, because the partsView_inside will reorder the polygons
     , parts_view_inside_minimum_(boundary_inside_minimum_.splitIntoPartsView()) // WARNING !! changes the order of boundary_inside !!
     , parts_view_inside_optimal_(boundary_inside_optimal_.splitIntoPartsView()) // WARNING !! changes the order of boundary_inside !!
-    , inside_loc_to_line_minimum_(PolygonUtils::createLocToLineGrid(boundary_inside_minimum_, comb_boundary_offset))
-    , inside_loc_to_line_optimal_(PolygonUtils::createLocToLineGrid(boundary_inside_optimal_, comb_boundary_offset))
+    , inside_loc_to_line_minimum_(PolygonUtils::createLocToLineGrid(boundary_inside_minimum_, gridCellSize(comb_boundary_offset)))
+    , inside_loc_to_line_optimal_(PolygonUtils::createLocToLineGrid(boundary_inside_optimal_, gridCellSize(comb_boundary_offset)))
     , move_inside_distance_(move_inside_distance)
 {
 }
-- 
2.43.0


From 5fb11dea8c3e217c2bcc78d4d6835ab4c64a6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 08/54] fix: no second retraction after priming ahead of an
 outer wall

---
 src/LayerPlan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index a717a5f..390867c 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3741,6 +3741,10 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
                 {
                     // We need to unretract before the last travel move of the path if the next path is an outer wall.
                     gcode.writeUnretractionAndPrime();
+
+                    // The filament is fully primed now, so the last move should neither retract nor prime anything.
+                    travel_retraction_state = TravelRetractionState::None;
+                    priming_amounts.reset();
                 }
                 if (! path.points.empty())
                 {
-- 
2.43.0


From 1c9e46b42c8a67eb7bb15b01bdf012c087f2456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 09/54] fix: cubic subdivision infill is not expanded by the
 overlap twice

---
 src/infill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infill.cpp b/src/infill.cpp
index 8608112..3ccf562 100644
--- a/src/infill.cpp
+++ b/src/infill.cpp
@@ -582,7 +582,7 @@ void Infill::generateCubicSubDivInfill(const Shape& outline, OpenLinesSet& resul
     OpenLinesSet uncropped;
     mesh.base_subdiv_cube->generateSubdivisionLines(z_, uncropped);
     constexpr bool restitch = false; // cubic subdivision lines are always single line segments - not polylines consisting of multiple segments.
-    result = outline.offset(infill_overlap_).intersection(uncropped, restitch);
+    result = outline.intersection(uncropped, restitch); // The outline already includes the overlap.
 }
 
 void Infill::generateCrossInfill(const Shape& outline, const SierpinskiFillProvider& cross_fill_provider, Shape& result_polygons, OpenLinesSet& result_lines)
-- 
2.43.0


From 483adca1b401efc1b494486f2e63e2639234a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 10/54] fix: a z-hop no longer retracts to what an earlier
 travel had left to prime

---
 src/gcode_export/gcodeExport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index d82113d..f2c547c 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1242,6 +1242,9 @@ void GCodeExport::writeUnretractionAndPrime()
     {
         extruder_attr_[current_extruder_].retraction_e_amount_current_ = 0.0;
     }
+
+    // Everything is primed now, so no later z-hop should prime anything that was left over from the last travel
+    z_hop_prime_leftover_.reset();
 }
 
 bool GCodeExport::writeRetraction(const RetractionConfig& config, bool force, bool extruder_switch, const std::optional<double> retract_distance)
-- 
2.43.0


From 2812276d65a82d54100951b1113f7086e35c4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 11/54] fix: the first layer that is not empty is printed at
 the height of the initial layer

---
 src/FffPolygonGenerator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FffPolygonGenerator.cpp b/src/FffPolygonGenerator.cpp
index 78c73a1..ffbd177 100644
--- a/src/FffPolygonGenerator.cpp
+++ b/src/FffPolygonGenerator.cpp
@@ -814,15 +814,17 @@ void FffPolygonGenerator::removeEmptyFirstLayers(SliceDataStorage& storage, size
         {
             auto& mesh = *mesh_ptr;
             std::vector<SliceLayer>& layers = mesh.layers;
+            coord_t removed_height = hightest_empty_layer;
             if (layers.size() > n_empty_first_layers)
             {
-                // transfer initial layer thickness to new initial layer
+                // transfer initial layer thickness to new initial layer, and print it at the height of the initial layer
                 layers[n_empty_first_layers].thickness = layers[0].thickness;
+                removed_height = layers[n_empty_first_layers].printZ - layers[0].printZ;
             }
             layers.erase(layers.begin(), layers.begin() + n_empty_first_layers);
             for (SliceLayer& layer : layers)
             {
-                layer.printZ -= hightest_empty_layer;
+                layer.printZ -= removed_height;
             }
             mesh.layer_nr_max_filled_layer -= n_empty_first_layers;
         }
-- 
2.43.0


From c194f5cd60289eabc670acf449fdfc1f9909b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 12/54] fix: skin that is roofing as well as flooring is filled

---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 76de28b..2182be1 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -480,7 +480,7 @@ void SkinInfillAreaComputation::generateSkinRoofingFlooringFill(SliceLayerPart&
             skin_part.flooring_fill = above_inside.difference(filled_area_below);
         }
 
-        skin_part.skin_fill = skin_part.outline.difference(skin_part.roofing_fill).intersection(filled_area_below);
+        skin_part.skin_fill = skin_part.outline.difference(skin_part.roofing_fill).difference(skin_part.flooring_fill);
 
         // In order to avoid thin areas, we allow merging skin into roofing/flooring, the first operation having a higher precedence.
         // Given the precedence, the ordering of the following operations matter, and also whether thin areas of the source are allowed to merge into the destination.
-- 
2.43.0


From c9187407d57fe140ce83331421ebafc045908b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 13/54] fix: read no vertex beyond a spiralized wall whose seam
 was chosen on another wall

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 390867c..61fdf7b 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -2942,7 +2942,7 @@ void LayerPlan::spiralizeWallSlice(
     constexpr Ratio width_factor = 1.0_r;
 
     // once we are into the spiral we always start at the end point of the last layer (if any)
-    const Point2LL origin = (last_seam_vertex_idx >= 0 && ! is_bottom_layer) ? last_wall[last_seam_vertex_idx] : wall[seam_vertex_idx];
+    const Point2LL origin = (last_seam_vertex_idx >= 0 && ! is_bottom_layer) ? last_wall[last_seam_vertex_idx] : wall[seam_vertex_idx % wall.size()];
     // NOTE: this used to use addTravel_simple() but if support is being generated then combed travel is required to avoid
     // the nozzle crossing the model on its return from printing the support.
     addTravel(origin);
-- 
2.43.0


From 0cac9c36b77bf364ff5329c176cc88b130973322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 14/54] fix: keep the support that stands on the model above a
 support roof

---
 src/support.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/support.cpp b/src/support.cpp
index 282d789..dce1e40 100644
--- a/src/support.cpp
+++ b/src/support.cpp
@@ -1957,9 +1957,11 @@ void AreaSupport::generateSupportRoof(SliceDataStorage& storage, const SliceMesh
 
         int lower = static_cast<int>(layer_idx);
         int upper = std::min(static_cast<int>(layer_idx + roof_layer_count + z_distance_top + 5), static_cast<int>(global_support_areas_per_layer.size()) - 1);
-        for (Shape& global_support : global_support_areas_per_layer | ranges::views::slice(lower, upper))
+        Shape below_model = support_layer.support_roof; // Once there is model in between, support stands on that rather than on the roof.
+        for (int layer_nr = lower; layer_nr < upper; ++layer_nr)
         {
-            global_support = global_support.difference(support_layer.support_roof);
+            below_model = below_model.difference(mesh.layers[layer_nr].getOutlines());
+            global_support_areas_per_layer[layer_nr] = global_support_areas_per_layer[layer_nr].difference(below_model);
         }
     }
 }
-- 
2.43.0


From 5167861811e499acbaba057ad5a7d6f2483ce638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 15/54] fix: remove a print temperature command only once when
 precooling for an extruder switch

---
 src/LayerPlanBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LayerPlanBuffer.cpp b/src/LayerPlanBuffer.cpp
index 5bf6bb5..2ea13ce 100644
--- a/src/LayerPlanBuffer.cpp
+++ b/src/LayerPlanBuffer.cpp
@@ -527,6 +527,7 @@ void LayerPlanBuffer::insertFinalPrintTempCommand(std::vector<ExtruderPlan*>& ex
             if (precool_extruder_plan->extrusion_temperature_command_)
             { // the precool command ends up before the command to go to the print temperature of the next extruder plan, so remove that print temp command
                 precool_extruder_plan->inserts_.erase(*precool_extruder_plan->extrusion_temperature_command_);
+                precool_extruder_plan->extrusion_temperature_command_.reset(); // The commands of the last layer are inserted again when flushing, don't remove it twice
             }
             double time_here = precool_extruder_plan->estimates_.getTotalTime();
             if (cool_down_time < time_here)
-- 
2.43.0


From b7e84ec29e1cbbff6a14c63c2a298fadf7b5e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 16/54] fix: after an extruder switch use the retraction
 settings of the new extruder

---
 src/LayerPlan.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 61fdf7b..4efe30e 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3439,6 +3439,10 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
             int prev_extruder = extruder_nr;
             extruder_nr = extruder_plan.extruder_nr_;
 
+            // The configuration found above is that of the extruder (and mesh) which was printing until now
+            retraction_config = get_retraction_config(current_mesh).value_or(&storage_.retraction_wipe_config_per_extruder[extruder_nr]);
+            z_hop_height = retraction_config->retraction_config.zHop;
+
             gcode.ResetLastEValueAfterWipe(prev_extruder);
             gcode.writePrepareFansForNozzleSwitch();
 
-- 
2.43.0


From fcc527c2461b8ecf9346c26b0ffa744179f9e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 17/54] fix: leave connected infill lines in place where their
 crossing cannot be resolved

---
 src/infill.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infill.cpp b/src/infill.cpp
index 3ccf562..604dead 100644
--- a/src/infill.cpp
+++ b/src/infill.cpp
@@ -918,6 +918,8 @@ void Infill::resolveIntersection(const coord_t at_distance, const Point2LL& inte
         // Put everything that has now potentially become messed up, back.
         bend_a.reset();
         bend_b.reset();
+        end_a = connect_start;
+        end_b = connect_end;
     }
 }
 
-- 
2.43.0


From 2e1704300bb5ad7ce16702d5cd305b5b55ea17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 18/54] fix: compare the bottom surfaces of a part with the
 layer below it

---
 src/skin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.cpp b/src/skin.cpp
index 2182be1..e9b7e9b 100644
--- a/src/skin.cpp
+++ b/src/skin.cpp
@@ -507,7 +507,7 @@ void SkinInfillAreaComputation::generateTopAndBottomMostSurfaces(SliceLayerPart&
 
     if (layer_nr_ > 0)
     {
-        const Shape outline_below = getOutlineOnLayer(part, layer_nr_ + 1);
+        const Shape outline_below = getOutlineOnLayer(part, layer_nr_ - 1);
         part.bottom_most_surface = part.outline.difference(outline_below);
     }
     else
-- 
2.43.0


From 21ec6ed882c7b0c1df4d20deae5cfcc2c8b213ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 19/54] fix: prime the extra amount also after a retraction
 during a travel

---
 src/gcode_export/gcodeExport.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index f2c547c..f6c58ec 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1292,6 +1292,12 @@ bool GCodeExport::writeRetraction(const RetractionConfig& config, bool force, bo
     RetractionAmounts retraction_amounts = computeRetractionAmounts(extr_attr, retract_distance.value_or(config.distance));
     if (! retraction_amounts.has_retraction())
     {
+        if (retract_distance.has_value() && retraction_amounts.old_e == 0.0)
+        {
+            // All of the retraction is going to be processed during the travel, but it will have to be primed as any other
+            extr_attr.last_retraction_prime_speed_ = config.primeSpeed;
+            extr_attr.prime_volume_ += config.prime_volume;
+        }
         return true;
     }
 
-- 
2.43.0


From b760a96dbef7ed6a4644244f633f4738f56d2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:14 +0000
Subject: [PATCH 20/54] fix: do not move a point to a border further away than
 the allowed distance

---
 src/utils/polygonUtils.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/polygonUtils.cpp b/src/utils/polygonUtils.cpp
index e2bcc8b..61f99fd 100644
--- a/src/utils/polygonUtils.cpp
+++ b/src/utils/polygonUtils.cpp
@@ -547,7 +547,14 @@ ClosestPointPolygon PolygonUtils::ensureInsideOrOutside(
     const LocToLineGrid* loc_to_line_grid,
     const std::function<int(Point2LL)>& penalty_function)
 {
+    const Point2LL original_from = from;
     const ClosestPointPolygon closest_polygon_point = moveInside2(polygons, from, preferred_dist_inside, max_dist2, loc_to_line_polygons, loc_to_line_grid, penalty_function);
+    if (closest_polygon_point.isValid() && vSize2(closest_polygon_point.location_ - original_from) > max_dist2 && polygons.inside(original_from) != (preferred_dist_inside > 0))
+    {
+        // At a vertex we may be considered to be on the right side while we are not, in which case the boundary is too far away to move to
+        from = original_from;
+        return ClosestPointPolygon();
+    }
     return ensureInsideOrOutside(polygons, from, closest_polygon_point, preferred_dist_inside, loc_to_line_polygons, loc_to_line_grid, penalty_function);
 }
 
-- 
2.43.0


From 71abee9a3f1b31f8063a594cb7ccefdba962c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 21/54] fix: set the jerk of lines when only the travel jerk is
 disabled

Lines were printed with the jerk of the feature that came after them.
---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 4efe30e..9e898bb 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3598,7 +3598,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
             }
             if (jerk_enabled)
             {
-                if (jerk_travel_enabled)
+                if (jerk_travel_enabled || ! path.config.isTravelPath())
                 {
                     gcode.writeJerk(path.config.getJerk());
                 }
-- 
2.43.0


From cdc98bbb4f89bd8002af6757b9f9fc76b1c1ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 22/54] fix: print flooring walls as such on layers without
 bridges

---
 src/LayerPlan.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 9e898bb..bb133c9 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -1221,6 +1221,11 @@ void LayerPlan::addWallLine(
     }
     else if (bridge_wall_mask_.empty())
     {
+        if (use_skin_config(flooring_mask_, flooring_config))
+        {
+            addSkinExtrusion(p0, p1, flooring_mask_, flooring_config, default_config, flow, width_factor, spiralize, travel_to_z);
+            return;
+        }
         // no bridges required
         addExtrusionMoveWithGradualOverhang(
             p1,
-- 
2.43.0


From f403e27bdc65e5752ed89969ccc5d632c993bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 23/54] fix: slow down flooring, roofing walls and skin support
 on the first layers too

---
 src/settings/PathConfigStorage.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/settings/PathConfigStorage.cpp b/src/settings/PathConfigStorage.cpp
index e7f5a80..be71c76 100644
--- a/src/settings/PathConfigStorage.cpp
+++ b/src/settings/PathConfigStorage.cpp
@@ -169,7 +169,13 @@ void MeshPathConfigs::smoothAllSpeeds(const SpeedDerivatives& first_layer_config
 {
     inset0_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     insetX_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    inset0_roofing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    insetX_roofing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    inset0_flooring_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    insetX_flooring_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     skin_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    flooring_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
+    skin_support_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     ironing_config.speed_derivatives.smoothSpeed(first_layer_config, layer_nr, max_speed_layer);
     for (size_t idx = 0; idx < MAX_INFILL_COMBINE; idx++)
     {
-- 
2.43.0


From b387245ba1e43f784a040cd2b45e7188765693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 24/54] fix: do not slow down below the minimum speed for the
 minimum layer time

Paths which are slower than the minimum speed as it is were taken to print
at the minimum speed, and others were slowed down to their speed.
---
 src/LayerPlan.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index bb133c9..47c366a 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3203,6 +3203,7 @@ TimeMaterialEstimates ExtruderPlan::computeNaiveTimeEstimates(Point2LL starting_
         {
             return path.isTravelPath() ? value : std::min(value, path.config.getSpeed().value * path.speed_factor);
         });
+    slowest_path_speed_ = std::max(slowest_path_speed_, min_path_speed); // Paths which are slower than the minimum speed as it is aren't slowed down at all, nor are others to their speed.
 
     bool was_retracted = false; // wrong assumption; won't matter that much. (TODO)
     for (GCodePath& path : paths_)
@@ -3251,8 +3252,9 @@ TimeMaterialEstimates ExtruderPlan::computeNaiveTimeEstimates(Point2LL starting_
             {
                 if (length > 0)
                 {
-                    path.estimates.extrude_time_at_minimum_speed += length / min_path_speed;
-                    path.estimates.extrude_time_at_slowest_path_speed += length / slowest_path_speed_;
+                    const double path_speed = path.config.getSpeed().value * path.speed_factor;
+                    path.estimates.extrude_time_at_minimum_speed += length / std::min(min_path_speed, path_speed);
+                    path.estimates.extrude_time_at_slowest_path_speed += length / std::min(slowest_path_speed_, path_speed);
                 }
                 material_estimate += length * INT2MM(layer_thickness_) * INT2MM(path.config.getLineWidth());
             }
-- 
2.43.0


From 8f09d6422a8c351b24ff4944f1eb1df48248655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 25/54] fix: meet the minimum layer time if paths have
 different speeds

The time is not linear in the factor which interpolates between the speed
of each path and the slowest one, so that layers were printed too fast.
---
 src/LayerPlan.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 47c366a..4c1c997 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3151,12 +3151,31 @@ bool ExtruderPlan::forceMinimalLayerTime(double minTime, double time_other_extr_
         else
         {
             // Slowing down to the slowest_speed is sufficient to respect the minimum layer time.
-            // Linear interpolate between extrudeTime and total_extrude_time_at_slowest_speed
-            const double factor = (1 / total_extrude_time_at_slowest_speed - 1 / minExtrudeTime) / (1 / total_extrude_time_at_slowest_speed - 1 / extrudeTime);
-            slow_down_func = [&slowest_path_speed = slowest_path_speed_, factor](const GCodePath& path)
+            // Linear interpolate between the speed of each path and the slowest speed
+            const auto interpolated_speed = [this](const GCodePath& path, const double factor)
             {
-                const double actual_target_speed = slowest_path_speed * (1.0 - factor) + (path.config.getSpeed() * path.speed_factor) * factor;
-                return std::min(actual_target_speed / (path.config.getSpeed() * path.speed_factor), 1.0);
+                const double path_speed = path.config.getSpeed() * path.speed_factor;
+                return std::min(slowest_path_speed_ * (1.0 - factor) + path_speed * factor, path_speed);
+            };
+            // The paths may have different speeds, so that the time is not linear in the factor; find the one with which the minimum time is met.
+            double factor = 0.0;
+            double fastest_factor = 1.0;
+            for (int iteration = 0; iteration < 32; ++iteration)
+            {
+                const double middle_factor = (factor + fastest_factor) / 2.0;
+                double time = 0.0;
+                for (const GCodePath& path : paths_)
+                {
+                    if (! path.isTravelPath())
+                    {
+                        time += path.estimates.extrude_time * path.config.getSpeed() * path.speed_factor / interpolated_speed(path, middle_factor);
+                    }
+                }
+                (time >= minExtrudeTime ? factor : fastest_factor) = middle_factor;
+            }
+            slow_down_func = [interpolated_speed, factor](const GCodePath& path)
+            {
+                return interpolated_speed(path, factor) / (path.config.getSpeed() * path.speed_factor);
             };
 
             // Update stored naive time estimates
-- 
2.43.0


From 1348358be33842d8c429a4bd5adbdbbfa69ab68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 26/54] fix: take the flow of support bottoms and raft layers
 from their own extruder

---
 src/settings/PathConfigStorage.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/settings/PathConfigStorage.cpp b/src/settings/PathConfigStorage.cpp
index be71c76..33c7794 100644
--- a/src/settings/PathConfigStorage.cpp
+++ b/src/settings/PathConfigStorage.cpp
@@ -53,14 +53,14 @@ PathConfigStorage::PathConfigStorage(const SliceDataStorage& storage, const Laye
     , raft_interface_config(GCodePathConfig{ .type = PrintFeatureType::Support,
                                              .line_width = raft_interface_train.settings_.get<coord_t>("raft_interface_line_width"),
                                              .layer_thickness = raft_interface_train.settings_.get<coord_t>("raft_interface_thickness"),
-                                             .flow = raft_base_train.settings_.get<Ratio>("raft_interface_flow"),
+                                             .flow = raft_interface_train.settings_.get<Ratio>("raft_interface_flow"),
                                              .speed_derivatives = SpeedDerivatives{ .speed = raft_interface_train.settings_.get<Velocity>("raft_interface_speed"),
                                                                                     .acceleration = raft_interface_train.settings_.get<Acceleration>("raft_interface_acceleration"),
                                                                                     .jerk = raft_interface_train.settings_.get<Velocity>("raft_interface_jerk") } })
     , raft_surface_config(GCodePathConfig{ .type = PrintFeatureType::SupportInterface,
                                            .line_width = raft_surface_train.settings_.get<coord_t>("raft_surface_line_width"),
                                            .layer_thickness = raft_surface_train.settings_.get<coord_t>("raft_surface_thickness"),
-                                           .flow = raft_base_train.settings_.get<Ratio>("raft_surface_flow"),
+                                           .flow = raft_surface_train.settings_.get<Ratio>("raft_surface_flow"),
                                            .speed_derivatives = SpeedDerivatives{ .speed = raft_surface_train.settings_.get<Velocity>("raft_surface_speed"),
                                                                                   .acceleration = raft_surface_train.settings_.get<Acceleration>("raft_surface_acceleration"),
                                                                                   .jerk = raft_surface_train.settings_.get<Velocity>("raft_surface_jerk") } })
@@ -77,8 +77,8 @@ PathConfigStorage::PathConfigStorage(const SliceDataStorage& storage, const Laye
           .type = PrintFeatureType::SupportInterface,
           .line_width = static_cast<coord_t>(support_bottom_train.settings_.get<coord_t>("support_bottom_line_width") * line_width_factor_per_extruder[support_bottom_extruder_nr]),
           .layer_thickness = layer_thickness,
-          .flow = support_roof_train.settings_.get<Ratio>("support_bottom_material_flow")
-                * ((layer_nr == 0) ? support_roof_train.settings_.get<Ratio>("material_flow_layer_0") : Ratio(1.0)),
+          .flow = support_bottom_train.settings_.get<Ratio>("support_bottom_material_flow")
+                * ((layer_nr == 0) ? support_bottom_train.settings_.get<Ratio>("material_flow_layer_0") : Ratio(1.0)),
           .speed_derivatives = SpeedDerivatives{ .speed = support_bottom_train.settings_.get<Velocity>("speed_support_bottom"),
                                                  .acceleration = support_bottom_train.settings_.get<Acceleration>("acceleration_support_bottom"),
                                                  .jerk = support_bottom_train.settings_.get<Velocity>("jerk_support_bottom") } })
-- 
2.43.0


From 69b1b4c34c945c6b29318f97658e0867e62190ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 27/54] fix: place the models of every mesh group given on the
 command line

---
 src/communication/CommandLine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 3e5e69f..30c861b 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -480,7 +480,10 @@ void CommandLine::sliceNext()
     try
     {
 #endif // DEBUG
-        slice->scene.mesh_groups[mesh_group_index].finalize();
+        for (MeshGroup& mesh_group : slice->scene.mesh_groups)
+        {
+            mesh_group.finalize();
+        }
         spdlog::info("Loaded from disk in {:3}s\n", FffProcessor::getInstance()->time_keeper.restart());
 
         // Start slicing.
-- 
2.43.0


From 371bd3fc3bdc5b80d2653719cb8a93aad9cef5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 28/54] fix: give settings of a model in a resolved file to
 that model only

---
 src/communication/CommandLine.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 30c861b..c4e8dc6 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -426,23 +426,29 @@ void CommandLine::sliceNext()
                     for (const auto& [key, values] : model_settings)
                     {
                         const auto& model_name = key;
+                        MeshGroup& mesh_group = slice->scene.mesh_groups[mesh_group_index];
+
+                        // What the model doesn't specify, is taken from the mesh group.
+                        Settings model_stack;
+                        model_stack.setParent(&mesh_group.settings);
                         for (const auto& [setting_key, setting_value] : values)
                         {
-                            slice->scene.mesh_groups[mesh_group_index].settings.add(setting_key, setting_value);
+                            model_stack.add(setting_key, setting_value);
                         }
 
-                        const auto transformation = slice->scene.mesh_groups[mesh_group_index].settings.get<Matrix4x3D>("mesh_rotation_matrix");
-                        const auto extruder_nr = slice->scene.mesh_groups[mesh_group_index].settings.get<size_t>("extruder_nr");
+                        const auto transformation = model_stack.get<Matrix4x3D>("mesh_rotation_matrix");
+                        const auto extruder_nr = model_stack.get<size_t>("extruder_nr");
 
-                        if (! loadMeshIntoMeshGroup(
-                                &slice->scene.mesh_groups[mesh_group_index],
-                                settings_folder / model_name,
-                                transformation,
-                                slice->scene.extruders[extruder_nr].settings_))
+                        if (! loadMeshIntoMeshGroup(&mesh_group, settings_folder / model_name, transformation, slice->scene.extruders[extruder_nr].settings_))
                         {
                             spdlog::error("Failed to load model: {} (error number {})", model_name, errno);
                             exit(1);
                         }
+
+                        for (const auto& [setting_key, setting_value] : values)
+                        {
+                            mesh_group.meshes.back().settings_.add(setting_key, setting_value);
+                        }
                     }
                     for (const auto& [key, value] : limit_to_extruder)
                     {
-- 
2.43.0


From 180a6e7d4d9a47adde9e2842f3098918af056670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 29/54] fix: number the extruders before one given on the
 command line

---
 src/communication/CommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index c4e8dc6..3bfa6eb 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -253,7 +253,7 @@ void CommandLine::sliceNext()
                     size_t extruder_nr = stoul(argument.substr(2));
                     while (slice->scene.extruders.size() <= extruder_nr) // Make sure we have enough extruders up to the extruder_nr that the user wanted.
                     {
-                        slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
+                        slice->scene.extruders.emplace_back(slice->scene.extruders.size(), &slice->scene.settings);
                     }
                     last_settings = &slice->scene.extruders[extruder_nr].settings_;
                     last_settings->add("extruder_nr", argument.substr(2));
-- 
2.43.0


From 91ee2f9219330233730a871b66f9fbfafe1559cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 30/54] fix: number the extruders before one given in a
 resolved file

---
 src/communication/CommandLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 3bfa6eb..108e5d0 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -415,7 +415,7 @@ void CommandLine::sliceNext()
                         const auto extruder_nr = std::stoi(key.substr(extruder_identifier.size()));
                         while (slice->scene.extruders.size() <= static_cast<size_t>(extruder_nr))
                         {
-                            slice->scene.extruders.emplace_back(extruder_nr, &slice->scene.settings);
+                            slice->scene.extruders.emplace_back(slice->scene.extruders.size(), &slice->scene.settings);
                         }
                         for (const auto& [setting_key, setting_value] : values)
                         {
-- 
2.43.0


From c2576d0059f77a6660ae2c9705a63951bf6e25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 31/54] fix: let models given on the command line inherit from
 their extruder and mesh group

---
 src/MeshGroup.cpp                 | 3 ++-
 src/communication/CommandLine.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 00590a7..a893f33 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -509,7 +509,8 @@ bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const fs::path& filename, const
 {
     TimeKeeper load_timer;
 
-    Mesh mesh(object_parent_settings);
+    Mesh mesh;
+    mesh.settings_.setParent(&object_parent_settings);
     bool load_success = false;
     bool has_uv = false;
 
diff --git a/src/communication/CommandLine.cpp b/src/communication/CommandLine.cpp
index 108e5d0..88879e5 100644
--- a/src/communication/CommandLine.cpp
+++ b/src/communication/CommandLine.cpp
@@ -121,7 +121,7 @@ void CommandLine::sliceNext()
     size_t mesh_group_index = 0;
     Settings* last_settings = &slice->scene.settings;
 
-    slice->scene.extruders.reserve(arguments_.size() >> 1); // Allocate enough memory to prevent moves.
+    slice->scene.extruders.reserve(std::max(arguments_.size(), static_cast<size_t>(MAX_EXTRUDERS))); // Allocate enough memory to prevent moves.
     slice->scene.extruders.emplace_back(0, &slice->scene.settings); // Always have one extruder.
     ExtruderTrain* last_extruder = slice->scene.extruders.data();
 
-- 
2.43.0


From 88be28ab84495af7882300919cfcf4933cbef398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 32/54] fix: limit settings to an extruder only once

---
 include/settings/Settings.h | 7 +++++++
 src/settings/Settings.cpp   | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/settings/Settings.h b/include/settings/Settings.h
index fef23be..eaf34b0 100644
--- a/include/settings/Settings.h
+++ b/include/settings/Settings.h
@@ -129,6 +129,13 @@ private:
      * \return The setting's value.
      */
     std::string getWithoutLimiting(const std::string& key) const;
+
+    /*!
+     * \brief Indicate whether ``getWithoutLimiting`` would find a value for the
+     * specified setting.
+     * \param key The setting to check.
+     */
+    bool hasWithoutLimiting(const std::string& key) const;
 };
 
 } // namespace cura
diff --git a/src/settings/Settings.cpp b/src/settings/Settings.cpp
index 0ddf81b..97c5f9e 100644
--- a/src/settings/Settings.cpp
+++ b/src/settings/Settings.cpp
@@ -880,7 +880,7 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     const std::unordered_map<std::string, ExtruderTrain*>& limit_to_extruder = Application::getInstance().current_slice_->scene.limit_to_extruder;
     if (limit_to_extruder.find(key) != limit_to_extruder.end())
     {
-        return limit_to_extruder.at(key)->settings_.has(key, parent_lookup);
+        return limit_to_extruder.at(key)->settings_.hasWithoutLimiting(key);
     }
 
     if (parent)
@@ -891,6 +891,11 @@ bool Settings::has(const std::string& key, const bool parent_lookup) const
     return false;
 }
 
+bool Settings::hasWithoutLimiting(const std::string& key) const
+{
+    return settings.contains(key) || (parent && parent->hasWithoutLimiting(key));
+}
+
 void Settings::setParent(const Settings* new_parent)
 {
     parent = new_parent;
@@ -904,7 +909,7 @@ std::string Settings::getWithoutLimiting(const std::string& key) const
     }
     else if (parent)
     {
-        return parent->get<std::string>(key);
+        return parent->getWithoutLimiting(key);
     }
     else
     {
-- 
2.43.0


From 915648853c1ea164b16b46343ffb2b52ffced259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 33/54] fix: write zero millimetres without reading before the
 buffer

---
 include/utils/string.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/utils/string.h b/include/utils/string.h
index c26b55c..4466a38 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -66,6 +66,11 @@ static inline int stringcasecompare(const char* a, const char* b)
  */
 static inline void writeInt2mm(const int32_t coord, std::ostream& ss)
 {
+    if (coord == 0)
+    { // there is no digit to stop at when looking for trailing zeros
+        ss << '0';
+        return;
+    }
     constexpr size_t buffer_size = 24;
     char buffer[buffer_size];
     int char_count
-- 
2.43.0


From 969c9a487594197e3304bf78afbf255ba8c00b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 34/54] fix: keep estimating with the jerk in force in all mesh
 groups

---
 src/gcode_export/gcodeExport.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index f6c58ec..a6c070b 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -1946,15 +1946,16 @@ void GCodeExport::writeJerk(const Velocity& jerk)
             break;
         }
         current_jerk_ = jerk;
+    }
 
-        if (getFlavor() == EGCodeFlavor::CHEETAH)
-        {
-            estimate_calculator_.setMaxXyJerk(jerk / 200);
-        }
-        else
-        {
-            estimate_calculator_.setMaxXyJerk(jerk);
-        }
+    // Also if it has not changed: the defaults have been set again for each mesh group
+    if (getFlavor() == EGCodeFlavor::CHEETAH)
+    {
+        estimate_calculator_.setMaxXyJerk(jerk / 200);
+    }
+    else
+    {
+        estimate_calculator_.setMaxXyJerk(jerk);
     }
 }
 
-- 
2.43.0


From b23e59524be3d30f0a2b38a60dbe818b4311b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 35/54] fix: do not count setting the extrusion value as a move
 in time estimates

---
 src/gcode_export/gcodeExport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gcode_export/gcodeExport.cpp b/src/gcode_export/gcodeExport.cpp
index a6c070b..3664da9 100644
--- a/src/gcode_export/gcodeExport.cpp
+++ b/src/gcode_export/gcodeExport.cpp
@@ -689,6 +689,9 @@ void GCodeExport::resetExtrusionValue()
         extruded_volume_at_retraction -= current_extruded_volume;
     }
     current_e_value_ = 0.0;
+    // Nothing is moved by this, so it should not take any time either
+    estimate_calculator_.setPosition(
+        TimeEstimateCalculator::Position(INT2MM(current_position_.x_), INT2MM(current_position_.y_), INT2MM(current_position_.z_), eToMm(current_e_value_)));
     extruder_attr_[current_extruder_].retraction_e_amount_at_e_start_ = extruder_attr_[current_extruder_].retraction_e_amount_current_;
 }
 
-- 
2.43.0


From be6b9a7f464cd57b9be873ea80425576a1a26a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:14 +0000
Subject: [PATCH 36/54] fix: use the cooling rate to compute when to start
 cooling down

---
 src/Preheat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Preheat.cpp b/src/Preheat.cpp
index d9f24b2..229b0c9 100644
--- a/src/Preheat.cpp
+++ b/src/Preheat.cpp
@@ -170,9 +170,9 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
         result.highest_temperature = std::max(temp_start, temp_end);
         return result;
     }
-    double time_ratio_cooldown_heatup = time_to_cooldown_1_degree / time_to_heatup_1_degree;
+    double time_ratio_heatup_cooldown = time_to_heatup_1_degree / time_to_cooldown_1_degree;
     double cool_down_time = getTimeToGoFromTempToTemp(extruder, temp_mid, outer_temp, during_printing);
-    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_cooldown_heatup);
+    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_heatup_cooldown);
     if (time_needed_to_reach_temp1 < limited_time_window)
     {
         result.cooling_time += cool_down_time;
@@ -180,7 +180,7 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
     }
     else
     {
-        result.cooling_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
+        result.cooling_time += limited_time_window * time_to_cooldown_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
         result.highest_temperature = std::min(temp_mid, temp_end + result.cooling_time / time_to_cooldown_1_degree);
     }
 
-- 
2.43.0


From f2b3bccb673512799e7fd6847c689696789d7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 37/54] fix: widen what is thinner than an outer wall, not than
 an inner wall

---
 src/BeadingStrategy/WideningBeadingStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BeadingStrategy/WideningBeadingStrategy.cpp b/src/BeadingStrategy/WideningBeadingStrategy.cpp
index fbabea5..b348ede 100644
--- a/src/BeadingStrategy/WideningBeadingStrategy.cpp
+++ b/src/BeadingStrategy/WideningBeadingStrategy.cpp
@@ -21,7 +21,7 @@ std::string WideningBeadingStrategy::toString() const
 
 WideningBeadingStrategy::Beading WideningBeadingStrategy::compute(coord_t thickness, coord_t bead_count) const
 {
-    if (thickness < optimal_width_)
+    if (thickness < parent_->getOptimalThickness(1)) // Thinner than a single (outer) wall, whose width may differ from that of the inner walls.
     {
         Beading ret;
         ret.total_thickness = thickness;
-- 
2.43.0


From 455d6f3f77ad6d61591879c37cbcb4054d835b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 38/54] fix: keep the middle wall in the middle when the inner
 walls are inset

---
 src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp b/src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp
index 5f09f87..f318af1 100644
--- a/src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp
+++ b/src/BeadingStrategy/InnerWallInsetBeadingStrategy.cpp
@@ -5,8 +5,6 @@
 
 #include <algorithm>
 
-#include <range/v3/view/drop.hpp>
-
 namespace cura
 {
 InnerWallInsetBeadingStrategy::InnerWallInsetBeadingStrategy(coord_t inner_wall_offset, BeadingStrategyPtr parent)
@@ -62,9 +60,12 @@ BeadingStrategy::Beading InnerWallInsetBeadingStrategy::compute(coord_t thicknes
         return ret;
     }
 
-    for (auto& location : ret.toolpath_locations | ranges::views::drop(1))
+    // Move the inner walls on both sides, but never beyond the middle line. A wall which is on the middle line has to stay there.
+    for (coord_t wall_index = 1; wall_index < bead_count / 2; wall_index++)
     {
-        location += inner_wall_offset_;
+        coord_t& location = ret.toolpath_locations[wall_index];
+        location = std::min(location + inner_wall_offset_, thickness / 2);
+        ret.toolpath_locations[ret.toolpath_locations.size() - 1 - wall_index] = thickness - location;
     }
 
     return ret;
-- 
2.43.0


From aca7b7011564d3b973d2d39383753072af80ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 39/54] fix: pass all of the walls' parameters in the bottom
 layers of a spiral

---
 src/WallsComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WallsComputation.cpp b/src/WallsComputation.cpp
index 40f65fd..cc10cb9 100644
--- a/src/WallsComputation.cpp
+++ b/src/WallsComputation.cpp
@@ -75,7 +75,7 @@ void WallsComputation::generateWalls(SliceLayerPart* part, SectionType section_t
         generateSpiralInsets(part, line_width_0, wall_0_inset, recompute_outline_based_on_outer_wall);
         if (layer_nr_ <= static_cast<LayerIndex>(settings_.get<size_t>("initial_bottom_layers")))
         {
-            WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, settings_, layer_nr_, section_type);
+            WallToolPaths wall_tool_paths(part->outline, line_width_0, line_width_x, wall_count, wall_0_inset, wall_x_inset, settings_, layer_nr_, section_type);
             part->wall_toolpaths = wall_tool_paths.getToolPaths();
             part->inner_area = wall_tool_paths.getInnerContour();
         }
-- 
2.43.0


From 2db6b9f81b2e3a0228cffa733fcc18f041b36a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:23 +0000
Subject: [PATCH 40/54] fix: no blobs of a thicker place's bead where it does
 not fit

---
 src/arachne/SkeletalTrapezoidation.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arachne/SkeletalTrapezoidation.cpp b/src/arachne/SkeletalTrapezoidation.cpp
index e734daf..666f7dc 100644
--- a/src/arachne/SkeletalTrapezoidation.cpp
+++ b/src/arachne/SkeletalTrapezoidation.cpp
@@ -2253,7 +2253,11 @@ void SkeletalTrapezoidation::generateLocalMaximaSingleBeads()
             const coord_t width = beading.bead_widths[inset_index];
             if (! node.isCentral())
             {
-                addCircleToToolpath(node.p_, width, inset_index);
+                // The beading may have been taken over from a thicker place nearby, then this bead doesn't fit in here.
+                if (beading.toolpath_locations[inset_index] <= node.data_.distance_to_boundary_ + width / 4)
+                {
+                    addCircleToToolpath(node.p_, width, inset_index);
+                }
             }
             else
             {
-- 
2.43.0


From 0c7987f25391753bfc5202ad83a66d28678f4aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 41/54] fix: compare seam candidates with the best score, not
 with whatever is moved into its place

---
 src/utils/scoring/BestElementFinder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/scoring/BestElementFinder.cpp b/src/utils/scoring/BestElementFinder.cpp
index c0f79cd..9e4faed 100644
--- a/src/utils/scoring/BestElementFinder.cpp
+++ b/src/utils/scoring/BestElementFinder.cpp
@@ -68,13 +68,14 @@ std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t cand
         }
 
         // Skip candidates that have a score too far from the actual best one
+        const double best_score = best_candidate_iterator->score; // Copied, because candidates are being moved around below
         const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
         end = std::remove_if(
             begin,
             end,
-            [&best_candidate_iterator, &delta_threshold](const Candidate& candidate)
+            [&best_score, &delta_threshold](const Candidate& candidate)
             {
-                return best_candidate_iterator->score - candidate.score > delta_threshold;
+                return best_score - candidate.score > delta_threshold;
             });
 
         if (std::distance(begin, end) == 1)
-- 
2.43.0


From a8eba0e609e3d997c19be47676047e99e4b8ce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 42/54] fix: keep the position to score distances to, which
 callers let go out of scope

---
 include/utils/scoring/DistanceScoringCriterion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/scoring/DistanceScoringCriterion.h b/include/utils/scoring/DistanceScoringCriterion.h
index 71911c6..3df9963 100644
--- a/include/utils/scoring/DistanceScoringCriterion.h
+++ b/include/utils/scoring/DistanceScoringCriterion.h
@@ -25,7 +25,7 @@ public:
     };
 
 private:
-    const Point2LL& target_pos_;
+    const Point2LL target_pos_;
     const DistanceType distance_type_;
 
     /*!
-- 
2.43.0


From 883c53be48dd82a8af3bcdb37c91432e205ec6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:11 +0000
Subject: [PATCH 43/54] fix: walls printed in the other direction start at the
 seam, too

---
 src/InsetOrderOptimizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InsetOrderOptimizer.cpp b/src/InsetOrderOptimizer.cpp
index 90af452..b5e5e65 100644
--- a/src/InsetOrderOptimizer.cpp
+++ b/src/InsetOrderOptimizer.cpp
@@ -192,7 +192,8 @@ bool InsetOrderOptimizer::addToLayer(const RetractBeforeOuterWall retract_before
         const bool revert_inset = alternate_walls && (path.vertices_->inset_idx_ % 2 != 0);
         const bool revert_layer = alternate_walls && (layer_nr_ % 2 != 0);
         const bool backwards = path.backwards_ != (revert_inset != revert_layer);
-        const size_t start_index = (backwards != path.backwards_) ? path.vertices_->size() - (path.start_vertex_ + 1) : path.start_vertex_;
+        // An open line that gets reversed starts from its other end. A closed one keeps starting at its seam.
+        const size_t start_index = (backwards != path.backwards_ && ! path.is_closed_) ? path.vertices_->size() - (path.start_vertex_ + 1) : path.start_vertex_;
         const bool linked_path = ! path.is_closed_;
 
         gcode_layer_.setIsInside(true); // Going to print walls, which are always inside.
-- 
2.43.0


From 56cbd34ce6a5133d0db1c535a7944ced28613859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:23 +0000
Subject: [PATCH 44/54] fix: print layers that have nothing but open polylines
 in the surface modes

---
 src/FffGcodeWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cbb065a..d5b6d52 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -97,7 +97,9 @@ void FffGcodeWriter::writeGCode(SliceDataStorage& storage, TimeKeeper& time_keep
         size_t mesh_layer_num = mesh.layers.size();
 
         // calculation of _actual_ number of layers in loop.
-        while (mesh_layer_num > 0 && mesh.layers[mesh_layer_num - 1].getOutlines().empty())
+        const bool print_open_polylines = mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") != ESurfaceMode::NORMAL;
+        while (mesh_layer_num > 0 && mesh.layers[mesh_layer_num - 1].getOutlines().empty()
+               && (! print_open_polylines || mesh.layers[mesh_layer_num - 1].open_polylines.empty()))
         {
             mesh_layer_num--;
         }
@@ -1795,7 +1797,7 @@ void FffGcodeWriter::addMeshLayerToGCode(
 
     SliceLayer& layer = mesh.layers[gcode_layer.getLayerNr()];
 
-    if (layer.parts.empty())
+    if (layer.parts.empty() && (mesh.settings.get<ESurfaceMode>("magic_mesh_surface_mode") == ESurfaceMode::NORMAL || layer.open_polylines.empty()))
     {
         return;
     }
-- 
2.43.0


From d232c6e4a68ff9d75d56e4e8a434b505f8191d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:23 +0000
Subject: [PATCH 45/54] fix: a draft shield of limited height was printed one
 layer too far

---
 src/FffGcodeWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index d5b6d52..cd71046 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -1531,8 +1531,8 @@ void FffGcodeWriter::processDraftShield(const SliceDataStorage& storage, LayerPl
         const coord_t draft_shield_height = mesh_group_settings.get<coord_t>("draft_shield_height");
         const coord_t layer_height_0 = mesh_group_settings.get<coord_t>("layer_height_0");
         const coord_t layer_height = mesh_group_settings.get<coord_t>("layer_height");
-        const LayerIndex max_screen_layer = (draft_shield_height - layer_height_0) / layer_height + 1;
-        if (layer_nr > max_screen_layer)
+        const LayerIndex screen_layer_count = (draft_shield_height - layer_height_0) / layer_height + 1; // see FffPolygonGenerator::getDraftShieldLayerCount
+        if (layer_nr >= screen_layer_count)
         {
             return;
         }
-- 
2.43.0


From e598dc2538eea2bd9aa88fae03b4d7c0f3e604e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 46/54] fix: ramp up the flow on the first layer of a spiral,
 which was looked for one layer too low

---
 src/FffGcodeWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FffGcodeWriter.cpp b/src/FffGcodeWriter.cpp
index cd71046..910dd53 100644
--- a/src/FffGcodeWriter.cpp
+++ b/src/FffGcodeWriter.cpp
@@ -2559,7 +2559,7 @@ void FffGcodeWriter::processSpiralizedWall(
             last_seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr - 1];
         }
     }
-    const bool is_bottom_layer = (layer_nr == mesh.settings.get<LayerIndex>("initial_bottom_layers"));
+    const bool is_bottom_layer = (layer_nr == LayerIndex(mesh.settings.get<size_t>("initial_bottom_layers")));
     const bool is_top_layer = ((size_t)layer_nr == (storage.spiralize_wall_outlines.size() - 1) || storage.spiralize_wall_outlines[layer_nr + 1] == nullptr);
     const int seam_vertex_idx = storage.spiralize_seam_vertex_indices[layer_nr]; // use pre-computed seam vertex index for current layer
     // output a wall slice that is interpolated between the last and current walls
-- 
2.43.0


From 5cf9b7607c93eae473c5060f431b684af42ee6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 47/54] fix: fuzzy skin interpolated line widths the wrong way
 round

---
 src/FffPolygonGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FffPolygonGenerator.cpp b/src/FffPolygonGenerator.cpp
index ffbd177..1f5f457 100644
--- a/src/FffPolygonGenerator.cpp
+++ b/src/FffPolygonGenerator.cpp
@@ -1165,7 +1165,7 @@ void FffPolygonGenerator::processFuzzyWalls(SliceMeshStorage& mesh)
                         if (p0pa_dist >= p0p1_size)
                         {
                             const Point2LL p = p1.p_ - (p0p1 / 2);
-                            const double width = (p1.w_ * vSize(p1.p_ - p) + p0->w_ * vSize(p0->p_ - p)) / p0p1_size;
+                            const double width = (p1.w_ * vSize(p0->p_ - p) + p0->w_ * vSize(p1.p_ - p)) / p0p1_size;
                             result.emplace_back(p, width, p1.perimeter_index_);
                         }
                         for (; p0pa_dist < p0p1_size; p0pa_dist += min_dist_between_points + rand() % range_random_point_dist)
@@ -1174,7 +1174,7 @@ void FffPolygonGenerator::processFuzzyWalls(SliceMeshStorage& mesh)
                             const Point2LL perp_to_p0p1 = turn90CCW(p0p1);
                             const Point2LL fuzz = normal(perp_to_p0p1, r);
                             const Point2LL pa = p0->p_ + normal(p0p1, p0pa_dist);
-                            const double width = (p1.w_ * vSize(p1.p_ - pa) + p0->w_ * vSize(p0->p_ - pa)) / p0p1_size;
+                            const double width = (p1.w_ * vSize(p0->p_ - pa) + p0->w_ * vSize(p1.p_ - pa)) / p0p1_size;
                             result.emplace_back(pa + fuzz, width, p1.perimeter_index_);
                         }
                         // p0pa_dist > p0p1_size now because we broke out of the for-loop
-- 
2.43.0


From cbc156860b1d221678d9a3e1688e3b7581a666b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 48/54] fix: coasting did not take the width factor of a path
 into account

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 4c1c997..69ac392 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -1630,7 +1630,7 @@ std::vector<LayerPlan::PathCoasting>
                 }
 
                 PathCoasting& path_coasting = path_coastings[path_idx];
-                const double path_extrusion_per_length = path.config.extrusion_mm3_per_mm * path.flow;
+                const double path_extrusion_per_length = path.getExtrusionMM3perMM();
 
                 for (const auto& [point_idx, point] : path.points | ranges::views::enumerate | ranges::views::reverse)
                 {
-- 
2.43.0


From 64eda4be3daa60485ccb698768ad976d11018682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 49/54] fix: the last layer of a spiral rose only part of the
 way, its length included what tapers it off

---
 src/LayerPlan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LayerPlan.cpp b/src/LayerPlan.cpp
index 69ac392..e754285 100644
--- a/src/LayerPlan.cpp
+++ b/src/LayerPlan.cpp
@@ -3819,7 +3819,7 @@ void LayerPlan::writeGCode(GCodeExport& gcode)
                 // If we need to spiralize then raise the head slowly by 1 layer as this path progresses.
                 double totalLength = 0.0;
                 Point2LL p0 = gcode.getPositionXY();
-                for (unsigned int _path_idx = path_idx; _path_idx < paths.size() && ! paths[_path_idx].isTravelPath(); _path_idx++)
+                for (unsigned int _path_idx = path_idx; _path_idx < paths.size() && paths[_path_idx].spiralize; _path_idx++)
                 {
                     GCodePath& _path = paths[_path_idx];
                     for (unsigned int point_idx = 0; point_idx < _path.points.size(); point_idx++)
-- 
2.43.0


From 832292a637f12e5b1784ed73245b274809a8a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 50/54] fix: read OBJ files with CRLF line ends, colours, two
 texture coordinates, negative indices and numbers out of range

---
 src/MeshGroup.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index a893f33..59cd56a 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -315,11 +315,24 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
     std::vector<Point3LL> vertices;
     std::vector<Point2F> uv_coordinates;
     std::string line;
-    std::regex main_regex(R"((v|vt|f)\s+(.*))");
+    std::regex main_regex(R"(\s*(v|vt|f)\s+(.*?)\s*)");
     const std::string floating_number_pattern = R"(([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?))";
-    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern);
-    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")");
-    std::regex face_indices_regex(R"((\d+)(?:\/(\d*))?(?:\/(?:\d*))?)");
+    std::regex vertex_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+.*)?)"); // may be followed by a weight or a color
+    std::regex uv_regex(floating_number_pattern + R"(\s+)" + floating_number_pattern + R"((?:\s+)" + floating_number_pattern + ")?");
+    std::regex face_indices_regex(R"((-?\d+)(?:\/(-?\d*))?(?:\/(?:-?\d*))?)");
+
+    // Unlike std::stof, this doesn't throw when the value is out of range
+    auto to_float = [](const std::string& text) -> float
+    {
+        return std::strtof(text.c_str(), nullptr);
+    };
+
+    // Indices start at 1, negative ones are relative to the end of the elements read so far
+    auto to_index = [](const std::string& text, const size_t count) -> size_t
+    {
+        const long long index = std::strtoll(text.c_str(), nullptr, 10);
+        return index < 0 ? static_cast<size_t>(static_cast<long long>(count) + index) : static_cast<size_t>(index - 1);
+    };
 
     auto get_uv_coordinates = [&uv_coordinates](std::optional<size_t> uv_index) -> std::optional<Point2F>
     {
@@ -345,15 +358,15 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
 
         if (line_identifier == "v" && std::regex_match(payload, matches, vertex_regex))
         {
-            const float x = std::stof(matches[1].str());
-            const float y = std::stof(matches[2].str());
-            const float z = std::stof(matches[3].str());
+            const float x = to_float(matches[1].str());
+            const float y = to_float(matches[2].str());
+            const float z = to_float(matches[3].str());
             vertices.push_back(matrix.apply(Point3D(x, y, z)));
         }
         else if (line_identifier == "vt" && std::regex_match(payload, matches, uv_regex))
         {
-            const float u = std::stof(matches[1].str());
-            const float v = std::stof(matches[2].str());
+            const float u = to_float(matches[1].str());
+            const float v = to_float(matches[2].str());
             uv_coordinates.push_back(Point2F(u, v));
         }
         else if (line_identifier == "f")
@@ -374,10 +387,10 @@ bool loadMeshOBJ(Mesh* mesh, const fs::path& filename, const Matrix4x3D& matrix)
                 if (vertex_match.size() >= 2)
                 {
                     Vertex vertex;
-                    vertex.index = std::stoul(vertex_match[1].str()) - 1;
+                    vertex.index = to_index(vertex_match[1].str(), vertices.size());
                     if (vertex_match[2].matched && vertex_match[2].length() > 0)
                     {
-                        vertex.uv_index = std::stoul(vertex_match[2].str()) - 1;
+                        vertex.uv_index = to_index(vertex_match[2].str(), uv_coordinates.size());
                     }
                     vertex_indices.push_back(vertex);
                 }
-- 
2.43.0


From 669a234ab4dd4a7f5b95a874e4198c6b9df9ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 51/54] fix: look for the UV file beside the model instead of
 in the current folder

---
 src/MeshGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MeshGroup.cpp b/src/MeshGroup.cpp
index 59cd56a..e239b55 100644
--- a/src/MeshGroup.cpp
+++ b/src/MeshGroup.cpp
@@ -535,7 +535,7 @@ bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const fs::path& filename, const
     if (extension == "stl")
     {
         // Check for corresponding UV and PNG files
-        const fs::path uv_filename = fs::path(base_filename + ".uv");
+        const fs::path uv_filename = fs::path(filename).replace_extension("uv");
 
         std::vector<Point2F> uv_coordinates;
         has_uv = loadUVCoordinatesFromFile(uv_filename, uv_coordinates);
-- 
2.43.0


From 6e62a93978662e8589f285351e139f586e1ee81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 52/54] fix: barycentric coordinates overflowed for triangles
 of more than 50 mm

---
 src/utils/MeshUtils.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utils/MeshUtils.cpp b/src/utils/MeshUtils.cpp
index 969358b..98c0bd3 100644
--- a/src/utils/MeshUtils.cpp
+++ b/src/utils/MeshUtils.cpp
@@ -30,15 +30,15 @@ std::optional<Point3D> getBarycentricCoordinates(const Point3LL& point, const Tr
     const Point3LL v1(triangle[2] - triangle[0]);
     const Point3LL v2(point - triangle[0]);
 
-    // Compute dot products
-    const coord_t d00 = v0.dot(v0);
-    const coord_t d01 = v0.dot(v1);
-    const coord_t d11 = v1.dot(v1);
-    const coord_t d20 = v2.dot(v0);
-    const coord_t d21 = v2.dot(v1);
+    // Compute dot products, as their products may overflow integers
+    const double d00 = v0.dot(v0);
+    const double d01 = v0.dot(v1);
+    const double d11 = v1.dot(v1);
+    const double d20 = v2.dot(v0);
+    const double d21 = v2.dot(v1);
 
     // Calculate denominator for barycentric coordinates
-    const coord_t denom = d00 * d11 - d01 * d01;
+    const double denom = d00 * d11 - d01 * d01;
 
     // Check if triangle is degenerate
     if (denom == 0)
@@ -47,8 +47,8 @@ std::optional<Point3D> getBarycentricCoordinates(const Point3LL& point, const Tr
     }
 
     // Calculate barycentric coordinates
-    const double v = static_cast<double>(d11 * d20 - d01 * d21) / denom;
-    const double w = static_cast<double>(d00 * d21 - d01 * d20) / denom;
+    const double v = (d11 * d20 - d01 * d21) / denom;
+    const double w = (d00 * d21 - d01 * d20) / denom;
     const double u = 1.0 - v - w;
 
     // Return as a Point3D where x/y/z represent the barycentric coordinates u/v/w
-- 
2.43.0


From 18d5c7d5f74f86c7366599dd920fccb0af89634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 53/54] fix: turn the right way around an edge of more than two
 faces when choosing the neighbour

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 012f25d..0e19304 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -236,7 +236,7 @@ int Mesh::getFaceIdxWithPoints(int idx0, int idx1, int notFaceIdx, int notFaceVe
         }
 
         Point3D v1(vertices_[faces_[candidateFace].vertex_index_[candidateVertex]].p_ - vertices_[idx0].p_);
-        Point3D n1 = v0.cross(v1);
+        Point3D n1 = v1.cross(v0);
 
         double dot = n0 * n1;
         double det = n * n0.cross(n1);
-- 
2.43.0


From 64c1e626b8fc3792976844977373f0ed892421bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 54/54] fix: slots of layers below zero lay before the ring
 buffer when it has few slots

---
 include/utils/ThreadPool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/utils/ThreadPool.h b/include/utils/ThreadPool.h
index ed8db06..b30f67e 100644
--- a/include/utils/ThreadPool.h
+++ b/include/utils/ThreadPool.h
@@ -323,11 +323,18 @@ protected:
         }
     }
 
+    //! Gives the slot in the ring buffer of an item. Indices may be negative, also by more than the size of the ring
+    item_t& slotOf(const ptrdiff_t idx) const
+    {
+        const ptrdiff_t slot_idx = idx % max_pending_;
+        return queue_[slot_idx < 0 ? slot_idx + max_pending_ : slot_idx];
+    }
+
     //! Produces an item and store in in the ring buffer. Assumes that there is items to produce and free space in the ring
     ptrdiff_t produce(lock_t& lock)
     {
         ptrdiff_t produced_idx = write_idx_++;
-        item_t* slot = &queue_[(produced_idx + max_pending_) % max_pending_];
+        item_t* slot = &slotOf(produced_idx);
         assert(produced_idx < last_idx_);
 
         // Unlocks global mutex while producing an item
@@ -346,7 +353,7 @@ protected:
     void consume_many(lock_t& lock)
     {
         assert(read_idx_ < write_idx_);
-        for (item_t* slot = &queue_[(read_idx_ + max_pending_) % max_pending_]; *slot; slot = &queue_[(read_idx_ + max_pending_) % max_pending_])
+        for (item_t* slot = &slotOf(read_idx_); *slot; slot = &slotOf(read_idx_))
         {
             // Unlocks global mutex while consuming an item
             lock.unlock();
-- 
2.43.0

