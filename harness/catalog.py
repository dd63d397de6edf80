"""The properties: source of properties.jsonl and MANIFEST.json (see gen.py)."""
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, quant, why, files, mech, observe, note, over=("inputs",), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note, over=list(over), **kw))


prop("G01", "Planar and integer arithmetic agrees with exact arithmetic",
     "For any points, segments and integers in the range of a printer's build volume, the engine's basic geometric answers (rounded divisions, unit conversions, distances, closest points, side of a line, projections, intersections, corner angles, rotations) equal the exact mathematical answer to within the documented micron rounding.",
     "All coordinates up to about half a metre in microns, including degenerate, collinear and coincident configurations, and all 62-bit dividends and divisors.",
     "The existing tests check a few hand-picked tuples of coordinates; every later stage relies on the answers for arbitrary coordinates, where rounding, sign and tie cases differ.",
     ["src/utils/linearAlg2D.cpp", "include/utils/linearAlg2D.h", "include/utils/math.h", "include/utils/Coord_t.h", "include/geometry/Point2LL.h", "src/geometry/PointMatrix.cpp"],
     [("LinearAlg2D", "src/utils/linearAlg2D.cpp"), ("rounded integer divisions", "include/utils/math.h")],
     ["return values of the geometric primitives"],
     "Random and near-degenerate tuples against 128-bit integer and long-double references.")

prop("G02", "Boolean and offset operations on areas compute the set they name",
     "For any polygon sets, union, intersection, difference, exclusive-or, even-odd normalisation and offsetting contain exactly the points the operation names, up to the micron rounding of vertices and, for offsets, the limits of the join type; offsets of open, closed and mixed lines cover exactly the points within that distance of the lines.",
     "All finite polygon sets with micron coordinates, including self-intersecting, overlapping, touching and empty ones, and all offset distances.",
     "Every stage of slicing is built from these operations; the tests apply them to a handful of shapes, while rounding and orientation faults only show on particular configurations.",
     ["src/geometry/Shape.cpp", "src/geometry/Polygon.cpp", "src/geometry/LinesSet.cpp", "src/geometry/MixedLinesSet.cpp", "src/geometry/Polyline.cpp"],
     [("Shape booleans and offset", "src/geometry/Shape.cpp"), ("LinesSet::offset", "src/geometry/LinesSet.cpp")],
     ["membership of probe points in the resulting areas"],
     "Membership of generated probe points decided by an exact winding-number oracle, with the rounding margin excluded.")

prop("G03", "Membership, areas and splitting into parts are exact and lose nothing",
     "For any area, point membership and border handling agree with the even-odd rule; splitting into parts yields connected outlines with their own holes that together are the original area; removing small areas removes exactly those below the threshold; area, centre and equality of polygons agree with their definitions.",
     "All areas with holes, islands in holes and touching borders, and all probe points on and off the border.",
     "The tests use squares and a few clipped shapes; wrong nesting, orientation or border handling appears only for particular nesting and probe positions.",
     ["src/geometry/Shape.cpp", "src/geometry/Polygon.cpp", "src/geometry/SingleShape.cpp", "src/geometry/PartsView.cpp"],
     [("Shape::inside, splitIntoParts, splitIntoPartsView, removeSmallAreas", "src/geometry/Shape.cpp"), ("SingleShape::inside", "src/geometry/SingleShape.cpp")],
     ["membership answers", "the parts a shape is split into"],
     "Exact winding numbers and an independent nesting computation as oracle.")

prop("G04", "Simplification and smoothing keep paths within their tolerances",
     "For any open or closed path and any resolution and deviation, simplification keeps end points, keeps every original vertex within the deviation of the result and the result within the deviation of the original, never inverts or makes up a polygon, and does not depend on the position in the plane; smoothing, corner rounding, removal of collinear and degenerate vertices and fluid-motion smoothing move the border only as far as their parameters allow.",
     "All paths, rings and lines of varying width (arcs, noise, staircases, folds, spikes, short closed rings) and all parameter values.",
     "The tests check a few hundred-vertex circles and zigzags; accumulated deviations, dropped end points and moved long edges need particular successions of short and long segments.",
     ["src/utils/Simplify.cpp", "include/utils/Simplify.h", "src/geometry/Shape.cpp", "src/geometry/Polygon.cpp", "include/utils/actions/smooth.h"],
     [("Simplify", "src/utils/Simplify.cpp"), ("Shape::smooth and smoothOutward", "src/geometry/Shape.cpp"), ("actions::smooth", "include/utils/actions/smooth.h")],
     ["the simplified or smoothed path"],
     "Distances, vertex subsequence and membership invariants; a step-by-step reference model for the fluid motion.")

prop("G05", "Clipping and stitching lines neither lose nor invent any",
     "Cutting open, closed or mixed lines with an area keeps exactly the stretches inside (or outside) it, each once; stitching segments or pieces back together yields lines and polygons covering the same segments, joins exactly the ends that lie within the given distance, keeps the direction of lines that may not be reversed, and leaves no two joinable ends unjoined.",
     "All sets of lines, areas and stitch distances; all orders and orientations in which the pieces of a line may come.",
     "Infill, walls, the gantry's skirt and slicing rely on it for arbitrary layers; the tests only sample a few squares and lines, never partial overlaps or competing joins.",
     ["src/geometry/Shape.cpp", "src/geometry/LinesSet.cpp", "src/geometry/MixedLinesSet.cpp", "include/utils/PolylineStitcher.h", "src/utils/PolylineStitcher.cpp", "src/utils/MixedPolylineStitcher.cpp", "include/utils/ExtrusionLineStitcher.h", "include/utils/OpenPolylineStitcher.h"],
     [("PolylineStitcher::stitch", "include/utils/PolylineStitcher.h"), ("Shape::intersection of lines", "src/geometry/Shape.cpp"), ("LinesSet::getSegments", "src/geometry/LinesSet.cpp")],
     ["the clipped or stitched lines"],
     "Coverage and length of the result against exact segment arithmetic; joins against the distances of all ends.")

prop("G06", "Nearest-border, moving, hitting and walking queries agree with a full search",
     "The nearest place or vertex on a set of polygons is the nearest one (with and without a lookup grid, and with penalties the best-scoring one); moving a point inside or outside puts it at the asked distance along the inward normal of the nearest border, leaves it if it is there already, and refuses beyond the allowed distance; a segment is reported to hit a border exactly if it does, at the crossing nearest to its end; walking along a border or to a distance, nearest connections, parallel intersections, adjacency and overlap of polygons agree with their definitions.",
     "All polygon sets with holes and islands, all points on, near and far from the border, all distances, grid cell sizes and penalty functions.",
     "Travel moves, supports, lightning infill and seams depend on these for arbitrary points; the tests check a dozen points around one square.",
     ["src/utils/polygonUtils.cpp", "include/utils/polygonUtils.h", "src/utils/SquareGrid.cpp", "include/utils/SparseLineGrid.h"],
     [("PolygonUtils", "src/utils/polygonUtils.cpp")],
     ["returned places, indices and moved points"],
     "Brute-force search over all edges and a reference for the inward direction.")

prop("G07", "Spatial grids, boxes and voxels find everything in reach and nothing far off",
     "Looking up a point or line grid returns every element within the asked radius, none that is more than the cell size further away, each at most once where promised, and its nearest-element queries give the nearest; walking a line through a grid visits exactly the cells it passes; bounding boxes contain exactly the smallest box and answer containment, overlap and distance accordingly; voxel grids keep the last or smallest value written, and the voxels traversed by lines, areas and triangles are those the geometry passes.",
     "All element positions including negative coordinates and exact cell borders, all radii, cell sizes, boxes, triangles and histories of occupations.",
     "The tests place a dozen points at fixed positions; errors appear only at particular cell borders, quadrants or orders.",
     ["include/utils/SparseGrid.h", "include/utils/SparsePointGrid.h", "include/utils/SparseLineGrid.h", "src/utils/SquareGrid.cpp", "src/utils/AABB.cpp", "src/utils/AABB3D.cpp", "src/utils/VoxelUtils.cpp", "src/utils/VoxelGrid.cpp", "src/utils/SpatialLookup.cpp"],
     [("SparseGrid and SquareGrid", "src/utils/SquareGrid.cpp"), ("AABB and AABB3D", "src/utils/AABB.cpp"), ("VoxelUtils and VoxelGrid", "src/utils/VoxelGrid.cpp")],
     ["elements, cells and voxels visited", "boxes and distances"],
     "Brute-force search over all elements and exact clipping of lines and triangles to cells.")

prop("G08", "The g-code stream is a legal and self-consistent program for the printer",
     "Whatever the model and settings: the engine finishes, and its g-code counts layers one by one as announced, prints each layer at its height and inside the model's outline, never prints while the filament is retracted nor retracts twice or by another amount than set, never extrudes in travels or pulls filament while printing, feeds for every line the volume of a line of plausible width (exactly the set width for skirt and fill), keeps to the set speeds, and reports in its header the filament, bounding box, time and layers that the moves really have.",
     "All closed models and combinations of print settings (flavour, absolute and relative extrusion, retraction, hops, combing, walls, infill patterns, line widths and layer heights).",
     "No test runs the engine as a whole; state that is carried from one move or layer to the next (position, filament, retraction, hop) goes wrong only after particular histories.",
     ["src/gcode_export/gcodeExport.cpp", "src/LayerPlan.cpp", "src/FffGcodeWriter.cpp", "src/infill.cpp", "src/skin.cpp", "src/pathPlanning/Comb.cpp", "src/FffPolygonGenerator.cpp", "src/timeEstimate.cpp"],
     [("GCodeExport", "src/gcode_export/gcodeExport.cpp"), ("LayerPlan::writeGCode", "src/LayerPlan.cpp")],
     ["the g-code of whole slices"],
     "Random models and settings sliced by the whole engine; the g-code is replayed on a model printer that tracks position, filament and layer.",
     over=("inputs", "histories"))

prop("G09", "What is printed is the model: outline, walls, filling and closed surfaces",
     "For a closed model, every layer's lines lie inside the model's cross-section at the slicing height (moved by the set horizontal expansion): where the model is thick enough, exactly the set number of walls follow the outline, the outermost half a line inside it; with dense infill or skin every point inside is covered and the volume fed equals the volume of the cross-section times the layer height; and everything that is visible from above or below within the set number of top and bottom layers (including roofing and flooring) is closed, while skin is not printed where the model covers it.",
     "All closed models of prisms, holes, tapers, tiers, steps and overhangs, line widths, layer heights, wall and skin counts, wall orders, seams, skin patterns and horizontal expansions.",
     "No test compares printed lines with the model; a wrong offset, a dropped area or a missing layer of skin appears only with particular shapes and settings.",
     ["src/FffPolygonGenerator.cpp", "src/slicer.cpp", "src/WallsComputation.cpp", "src/WallToolPaths.cpp", "src/skin.cpp", "src/infill.cpp", "src/FffGcodeWriter.cpp", "src/InsetOrderOptimizer.cpp", "src/layerPart.cpp"],
     [("SkinInfillAreaComputation", "src/skin.cpp"), ("WallToolPaths", "src/WallToolPaths.cpp"), ("Infill::generate", "src/infill.cpp")],
     ["positions, types and volumes of the printed lines, layer by layer"],
     "Cross-sections of the generated model computed exactly from its triangles are compared with the replayed g-code by probe points, wall positions and volumes.")

prop("G10", "The same job gives the same print, however it is run, encoded or placed",
     "Slicing the same job with one thread or several prints, layer by layer and feature by feature, the same lines and volumes; so does encoding it with relative instead of absolute extrusion, for another firmware or (scaled) for another filament diameter; and a model that is rotated and positioned by settings is printed where and as one rotated and positioned in its file. (Ties, and with them the order of printing, may be broken differently.)",
     "All models, groups of models and settings including supports, adhesion, ironing, spiral and adaptive layers; all thread counts, encodings and placements.",
     "Races, missed items and state shared by layers or encodings never show in tests of single functions, which use one thread and one encoding.",
     ["include/utils/ThreadPool.h", "src/utils/ThreadPool.cpp", "src/gcode_export/gcodeExport.cpp", "src/FffGcodeWriter.cpp", "src/MeshGroup.cpp", "src/utils/Matrix4x3D.cpp", "src/communication/CommandLine.cpp"],
     [("run_multiple_producers_ordered_consumer, parallel_for", "include/utils/ThreadPool.h"), ("GCodeExport::writeExtrusion", "src/gcode_export/gcodeExport.cpp"), ("MeshGroup::finalize", "src/MeshGroup.cpp")],
     ["lengths and volumes printed per layer and feature", "positions of walls"],
     "Metamorphic: the whole engine is run on both forms of the job and the replayed prints are compared.",
     over=("inputs", "schedules"))

prop("G11", "Support is under every overhang, stands on something and stays clear",
     "With supports enabled, every place of the model that overhangs by more than the set angle (and is not within the support distances of other model) has support under it: from the set distance below it down to the build plate, or to the model it may rest on, with the set roof at its top; no place of a model that does not overhang has any. All support keeps the set distances from the model, beside, above and below, stands on what was printed below it, and with supports from the build plate only never stands on the model.",
     "All tables, bridges, stacked plates and widening shapes, with and without a base, all support angles, distances, placements, priorities, patterns, roofs, and normal and tree supports.",
     "No test looks at generated supports; support that floats, touches or is missing depends on how layers, distances and placements combine.",
     ["src/support.cpp", "src/TreeSupport.cpp", "src/FffGcodeWriter.cpp", "src/infill.cpp"],
     [("AreaSupport::generateSupportAreasForMesh", "src/support.cpp"), ("AreaSupport::computeBasicAndFullOverhang", "src/support.cpp"), ("TreeSupport", "src/TreeSupport.cpp")],
     ["the support lines of every layer, beside the exact cross-sections of the model"],
     "Cross-sections of the generated model decide where support is needed and forbidden; the replayed g-code is probed at these places.")

prop("G12", "Skirt, brim and raft go around and under what is printed, as many as are set",
     "A skirt goes around all that is printed in its layers, at the set distance from its convex hull, with as many loops as set or as the minimal length asks for, and no more. A brim covers the plate around the model (or inside its holes, as set) from the set gap to the set width, outside in, in the first layer only, and nowhere else. A raft lies under all of the first layer with its margins, in the set number of base, interface and surface layers of the set thicknesses, and the model on top of it is the one printed without a raft, raised by the raft and the air gap.",
     "All groups of convex and concave parts with holes and tapers; line counts, gaps, widths, locations, minimal lengths; raft layers, thicknesses, spacings, margins, offsets and air gaps.",
     "No test covers rafts, or skirts and brims around more than a few fixed shapes.",
     ["src/SkirtBrim.cpp", "src/raft.cpp", "src/FffGcodeWriter.cpp", "src/FffPolygonGenerator.cpp"],
     [("SkirtBrim::generate", "src/SkirtBrim.cpp"), ("Raft::generate", "src/raft.cpp"), ("FffGcodeWriter::processRaft", "src/FffGcodeWriter.cpp")],
     ["positions, lengths, widths, heights and order of the printed lines"],
     "Exact distances, closed-form lengths around convex hulls, probed coverage; for the model above a raft, comparison with the print without one.")

prop("G13", "Each extruder prints what it is set to print, and changing extruders is safe",
     "With several extruders each feature of each model is printed by the extruder set for it, as much of it as one extruder would print, and each extruder takes one turn per layer. A change of extruders retracts by the switch amount of the old one, writes its end code, the tool command and the start code of the new one, waits for the temperature of the new one, and has exactly its extra prime amount in place when it starts to print; nothing is printed at a temperature that is not set for the extruder. A prime tower stands where and as wide as set, reaches every layer up to the last change, is printed by every new extruder before anything else, at least to its minimal volume, and rests on the layer below within the bridging distance.",
     "All groups of parts, assignments of features to 2 or 3 extruders with different temperatures, filaments, nozzle offsets, switch retractions and prime amounts; with and without prime tower of either mode.",
     "The tests print nothing with more than one extruder.",
     ["src/LayerPlan.cpp", "src/LayerPlanBuffer.cpp", "src/FffGcodeWriter.cpp", "src/gcode_export/gcodeExport.cpp", "src/PrimeTower/PrimeTower.cpp"],
     [("LayerPlan::writeGCode", "src/LayerPlan.cpp"), ("LayerPlanBuffer::insertTempCommands", "src/LayerPlanBuffer.cpp"), ("FffGcodeWriter::setExtruder_addPrime", "src/FffGcodeWriter.cpp"), ("GCodeExport::switchExtruder", "src/gcode_export/gcodeExport.cpp"), ("PrimeTower::addToGcode", "src/PrimeTower/PrimeTower.cpp")],
     ["g-code"],
     "A model of tools, filament positions and temperatures runs over the g-code; volumes per layer and feature are compared with the same job printed by one extruder.")

prop("G14", "Infill has the set pattern and density; lightning infill supports what is above",
     "Inside its walls, the infill of a model is the set pattern: straight patterns are families of parallel lines at the set angles, distances and offsets, each line of them present wherever the area is wide enough and nothing but them and the connections along the edge; every pattern stays inside its area and fills it with the set density. Connecting lines changes nothing deep inside; a multiplier multiplies the volume; infill walls go around the infill; gradual infill halves it per step below the top, combined infill prints it in every nth layer with the volume of n. Lightning infill is under all of the skin above within its supporting radius, ends below the top skin, and each branch stands on the layer below or a wall.",
     "All prisms and tapered solids, straight and curved patterns, angles per layer, line distances, offsets, line widths, wall counts, connections, multipliers, gradual steps, combined layers and lightning angles.",
     "The existing tests check a few squares with a loose density bound, not where lines are.",
     ["src/infill.cpp", "src/infill/*.cpp", "src/FffGcodeWriter.cpp", "src/skin.cpp"],
     [("Infill::generate, connectLines", "src/infill.cpp"), ("SkinInfillAreaComputation::generateGradualInfill, combineInfillLayers", "src/skin.cpp"), ("LightningGenerator", "src/infill/LightningGenerator.cpp")],
     ["positions, widths and volumes of the printed infill lines, layer by layer"],
     "Printed lines are compared with the exact line families, and their volume deep inside with the one the density asks for; connected, multiplied and combined infill with the plain one.")

prop("G15", "Retractions span travels as set; combing stays inside; lifts are undone",
     "Filament is pulled back by the set amount before a travel that leaves the model (or any long enough one without combing), never for one shorter than the minimum, and pushed back by the same amount plus the extra prime before the next line. Combed travels stay inside the part (off its skin or its walls if so set) or retract, and do not make detours where a straight way is inside. Lifts go straight up by the set height at the set speed, only with a retraction, and are undone before printing. No stretch of filament is pulled back more often than the limit allows; travels keep the set distance from other parts where there is room; retracting and priming on the way moves the same filament in the same travels.",
     "All sets of parts, patterns, combing modes, distance thresholds, surfaces to stay off, hop settings, retraction windows and counts, avoid distances, retraction/priming ratios.",
     "The existing tests check single combing and retraction decisions in fixed scenes, not the resulting travels of whole layers.",
     ["src/LayerPlan.cpp", "src/gcode_export/gcodeExport.cpp", "src/pathPlanning/*.cpp", "src/utils/polygonUtils.cpp", "src/skin.cpp"],
     [("LayerPlan::addTravel, writeGCode", "src/LayerPlan.cpp"), ("Comb::calc", "src/pathPlanning/Comb.cpp"), ("GCodeExport::writeRetraction, writeUnretractionAndPrime, writeTravel", "src/gcode_export/gcodeExport.cpp"), ("LinePolygonsCrossings::comb", "src/pathPlanning/LinePolygonsCrossings.cpp")],
     ["the feed, height and path of every travel in the g-code"],
     "The travels of sliced sets of prisms are split into legs and compared with the exact sections of the model: which leave it, which need a retraction, how much is pulled back, how high they are lifted and how close they come to other parts.")

prop("G16", "Each feature has its set speed, flow and acceleration; layer times and fans",
     "Every line is printed at the speed, acceleration, jerk and flow set for what it is a part of (outer and inner walls, also of roofing and flooring, skin, infill, support, its roofs and bottoms, skirt, raft layers), those of the extruder that prints it or owns the model, blended from the first-layer ones over the set number of layers; travels too. With flow equalisation wider walls are printed slower in proportion. A layer takes at least the minimum layer time by being slowed down, but not below the minimum speed, nor more than needed (the rest is waited for if so set); and while it is printed the fan has the speed set for the layer and its time.",
     "All prisms, overhanging bodies and spools with walls, skins, roofing, flooring, infill, supports, skirts and rafts; random distinct speeds, accelerations, jerks and flows for each feature and extruder; firmware flavors; minimum times and speeds, fan speeds and full layers.",
     "No test relates the feed, flow or fan commands in the g-code to the settings of the feature being printed.",
     ["src/settings/PathConfigStorage.cpp", "src/settings/MeshPathConfigs.cpp", "src/LayerPlan.cpp", "src/SpeedDerivatives.cpp", "src/gcode_export/gcodeExport.cpp", "src/FffGcodeWriter.cpp"],
     [("PathConfigStorage, MeshPathConfigs", "src/settings/PathConfigStorage.cpp"), ("LayerPlan::writeGCode, addWallLine", "src/LayerPlan.cpp"), ("ExtruderPlan::forceMinimalLayerTime, processFanSpeedForMinimalLayerTime", "src/LayerPlan.cpp"), ("FffGcodeWriter::setConfigFanSpeedLayerTime", "src/FffGcodeWriter.cpp")],
     ["feed, acceleration, jerk, fan and delay commands and volumes in the g-code"],
     "Each feature gets its own random distinct recipe; every line of the g-code must match the recipe of its feature, extruder and layer, and the replayed time of every layer the minimum.")

prop("G17", "Settings are read as written and apply at the level they are set for",
     "Every value is read as it is written: numbers in their unit, switches, names of alternatives, lists, matrices, polygons, temperature graphs, layer numbers counted from one. A setting of a model comes from the model itself, else from the extruder it is limited to, else from its own extruder, its mesh group, or what is set for all, in this order, whether it was given as an option, in a definition file (with what it inherits, overrides and nests) or in a resolved file, and nothing else sees it. Each mesh group is printed where and as it is set: its models turned, centred, placed and scaled for shrinkage. Start and end codes are resolved to the values of the right extruder and only the branches that apply. Numbers in g-code are the values they stand for, to the last digit.",
     "All values in all spellings; all command lines of settings, extruders, groups, models, definition files and resolved files; all templates of text, expressions and conditions; all numbers a printer can get.",
     "The tests read a few values of each type and resolve a fixed list of templates; no test loads a command line with several levels.",
     ["src/settings/Settings.cpp", "src/settings/FlowTempGraph.cpp", "src/communication/CommandLine.cpp", "src/MeshGroup.cpp", "src/Slice.cpp", "src/gcode_export/GcodeTemplateResolver.cpp", "include/utils/string.h"],
     [("Settings::get, has, getWithoutLimiting", "src/settings/Settings.cpp"), ("CommandLine::sliceNext, loadJSON", "src/communication/CommandLine.cpp"), ("MeshGroup::finalize, loadMeshIntoMeshGroup", "src/MeshGroup.cpp"), ("GcodeTemplateResolver::resolveGCodeTemplate", "src/gcode_export/GcodeTemplateResolver.cpp"), ("writeInt2mm, writeDoubleToStream", "include/utils/string.h")],
     ["values of settings at each level", "resolved start and end codes", "numbers in g-code"],
     "Values are written in random spellings and compared with what they mean; random command lines and files run against a model of the levels, whose effective values are compared for all groups, extruders and models; templates against an interpreter of their own.")

prop("G18", "Estimated times, heating times and material are those of the print",
     "The time announced for a print, each layer and each feature is that which a machine takes that moves as the g-code says: at the speeds asked as far as its axes allow, speeding up and slowing down evenly with the acceleration in force, changing its speed at once by no more than the jerk in force, plus the pauses and the durations set for changing extruders. It is the same when asked twice, starts anew after a reset, and does not depend on how much filament was fed before. A nozzle that is let cool down (or heated up) in between is at the needed temperature in time, no later and no earlier than it has to.",
     "All sequences of moves along all axes with all speeds, accelerations, jerks, machine limits, pauses, layers and resets; all temperatures, rates and windows of time; whole prints with several extruders, groups, g-code flavors and random limits.",
     "The tests plan a few straight moves and compare with times worked out by hand; no test relates the announced time to the g-code, and none runs the heating and cooling times.",
     ["src/timeEstimate.cpp", "src/Preheat.cpp", "src/gcode_export/gcodeExport.cpp"],
     [("TimeEstimateCalculator::plan, calculate", "src/timeEstimate.cpp"), ("Preheat::getWarmUpPointAfterCoolDown, getCoolDownPointAfterWarmUp", "src/Preheat.cpp"), ("GCodeExport::updateTotalPrintTime, resetExtrusionValue, startExtruder", "src/gcode_export/gcodeExport.cpp")],
     ["estimated time per feature", "elapsed and total times in the g-code", "heating and cooling times"],
     "Random moves, changes of limits, layers and pauses run against a planner written from the laws of motion, feature by feature; random prints are replayed through it from their g-code; temperature curves are followed and must end where and when they have to.")

prop("G19", "Walls of varying width divide and fill what they are given, once",
     "Whatever the thickness, the number of walls in it never falls as it grows, changes exactly at the set thresholds and stays within the limit; their widths and what is left over add up to the thickness, the same from both sides, outer walls have their set width wherever there are more than two, the difference is shared by the set number of middle walls, thin places get one wall of at least the set width; insets move walls inwards, but none past the middle, and lose none. The walls of an area lie inside it, as many as set (with the extra ones of alternating layers and spiral bottoms, and the factor of the first layer), where there is room for all of them at their nominal places, feed as much as the walled area holds, and the contour inside them starts where they end. The spiral runs half a line inside the outline. Only parts too small for a wall get lost.",
     "All thicknesses, line widths, thresholds, limits, insets and distributions; all areas with holes, necks and tips, layer numbers, wall counts and modes.",
     "The tests generate walls for two shapes and check one of them; thicknesses around thresholds, unequal inner and outer widths, insets and odd numbers are never tried.",
     ["src/BeadingStrategy/", "src/WallToolPaths.cpp", "src/arachne/SkeletalTrapezoidation.cpp", "src/WallsComputation.cpp"],
     [("BeadingStrategyFactory::makeStrategy and the strategies", "src/BeadingStrategy/BeadingStrategyFactory.cpp"), ("WallToolPaths::generate, separateOutInnerContour", "src/WallToolPaths.cpp"), ("WallsComputation::generateWalls, generateSpiralInsets", "src/WallsComputation.cpp")],
     ["numbers, widths and places of the beads of a thickness", "walls, inner contour and spiral of each part"],
     "Random thicknesses, most of them around thresholds, are divided by a model written from the meaning of the settings; walls of random areas are measured by their depth, probes and volume against the exact area.")

prop("G20", "Every path is printed once, in the set order, from the set seam",
     "Whatever there is to print is put in an order that has every path exactly once, whole, open ones from one of their ends, closed ones back to their start; the next is one of the nearest, no required order is broken, lines that are to go on monotonically never go back over a neighbour, and loops may be kept together. Outer walls come before or after the inner ones they surround, from one wall to the next, grouped, alternating their direction, before or after the infill and part by part, as set for the layer. A wall starts at the set place (on a corner or between), at the corner nearest to where the nozzle is, or at the sharpest corner of the preferred kind (the one furthest back and right among equals), outside of places to avoid, whichever way it is stored or printed.",
     "All sets of lines and rings, requirements, starting points, angles and gaps of lines; all rings and seam settings, areas to avoid or not to start in; all walls inside each other with holes; whole prints of several parts with all seam, direction, grouping and infill settings.",
     "The tests order a few lines and triangles, and check monotonic order on a grid; requirements, grouping, most seam settings and the order in the g-code are never tried.",
     ["include/PathOrderOptimizer.h", "include/PathOrderMonotonic.h", "src/InsetOrderOptimizer.cpp", "src/utils/scoring/", "src/path_ordering.cpp", "src/FffGcodeWriter.cpp", "src/utils/MinimumSpanningTree.cpp"],
     [("PathOrderOptimizer::optimize, findStartLocation", "include/PathOrderOptimizer.h"), ("PathOrderMonotonic::optimize", "include/PathOrderMonotonic.h"), ("InsetOrderOptimizer::addToLayer, getRegionOrder", "src/InsetOrderOptimizer.cpp"), ("BestElementFinder::findBestElement and the criteria", "src/utils/scoring/BestElementFinder.cpp"), ("MinimumSpanningTree::adjacentNodes", "src/utils/MinimumSpanningTree.cpp")],
     ["order, direction and start of paths, in memory and in the g-code"],
     "Random paths are ordered and the order is checked for completeness, greed and requirements; seams are scored anew from the outline; the walls of sliced parts are told apart in the g-code and their order, direction and start compared with the settings.")
prop("G21", "Models, cutters, fillers, moulds and offsets end up where they should",
     "A place in several models is printed once: in the one with the lower order (or, alternating, in turns by layer) when carving is on, with half the set overlap added on both sides where models touch; a cutting mesh is taken out of the others, and with an extruder of its own printed there; an infill mesh is printed inside the infill of what it lies in, which has none there, and nowhere else; a support blocker is not printed. The outer walls stand at the outline moved by the horizontal expansion (of the first layer, of holes, up to the set diameter), of the section of the model that the slicing tolerance asks for, on layers of the set height. Overlapping solids of one model are joined (or cancel, if set), holes filled if set. A mould is printed around a model with the set width, angle and roof, and not in it; overhangs are filled up below at the set angle, small pits with them.",
     "All sets of up to four models of all roles, orders and heights that overlap in any way; all outlines, offsets, line widths, tolerances, layer heights, angles, mould sizes and pits.",
     "The tests never slice a model: none of this is covered by any.",
     ["src/multiVolumes.cpp", "src/FffPolygonGenerator.cpp", "src/slicer.cpp", "src/Mold.cpp", "src/ConicalOverhang.cpp", "src/layerPart.cpp", "src/WallsComputation.cpp"],
     [("carveMultipleVolumes, carveCuttingMeshes, generateMultipleVolumesOverlap", "src/multiVolumes.cpp"), ("FffPolygonGenerator::processInfillMesh, sliceModel", "src/FffPolygonGenerator.cpp"), ("Mold::process", "src/Mold.cpp"), ("ConicalOverhang::apply", "src/ConicalOverhang.cpp"), ("Slicer, SlicerLayer::makePolygons", "src/slicer.cpp"), ("createLayerWithParts", "src/layerPart.cpp")],
     ["outer walls and infill in the g-code against the sections of the models given"],
     "Random prisms and cones with random roles are sliced by the whole engine; at random places, away from borders, an independent model of set operations on the sections says which model must be printed there and whether it has infill, and the rings in the g-code say which is; offsets are measured at long edges.")

prop("G22", "Special ways to print: spirals, surfaces, fuzzy skin, adaptive layers, shields",
     "A spiral is one line without interruption that rises steadily by a layer per round along the walls, from the last bottom layer to the top; its first round begins with a quarter of the flow and grows to all of it, and after its last round the flow tapers off at the same height. In the surface mode the surface is printed and nothing else, in the mode for both also what is solid, and normally only what is solid. Fuzzy skin moves the points of outer walls by no more than its thickness, puts them at the set distance, leaves other walls, holes (if set) and what is on a brim alone, and keeps the widths of lines. Adaptive layers have allowed heights, differ by no more than the set step, are as thick as the slopes at that height allow and no thicker. Coasting leaves out the set volume at the end of walls of at least the set minimum, along the way and at the set speed, and nothing else. A draft shield goes around all models at the set distance, with the set width, up to the set height. Printed one at a time, models are printed in the given order, each from the bottom to the top, and the nozzle does not run into what is finished.",
     "All outlines, slopes, numbers of layers, layer heights, line widths, thicknesses, distances, volumes, speeds, steps and thresholds for these modes.",
     "The tests check none of these modes on a print; each depends on all lines of a layer and on where layers begin and end.",
     ["src/FffGcodeWriter.cpp", "src/FffPolygonGenerator.cpp", "src/LayerPlan.cpp", "src/settings/AdaptiveLayerHeights.cpp", "src/layerPart.cpp", "src/slicer.cpp"],
     [("processSpiralizedWall, processDraftShield, addMeshOpenPolyLinesToGCode, finalize", "src/FffGcodeWriter.cpp"), ("processFuzzyWalls, processDraftShield", "src/FffPolygonGenerator.cpp"), ("spiralizeWallSlice, calculatePathsCoasting, writePathWithCoasting", "src/LayerPlan.cpp"), ("AdaptiveLayerHeights", "src/settings/AdaptiveLayerHeights.cpp"), ("createLayerWithParts", "src/layerPart.cpp")],
     ["lines, heights, amounts and speeds in the g-code against the models and settings given"],
     "Random models are sliced by the whole engine in each mode; the g-code is compared with what the mode promises, computed from the model's sections and settings (an independent model of the height choice for adaptive layers), or with the same job without the mode (coasting, widths of fuzzy lines).")


prop("G23", "Models and textures are read from files as written, in one piece, in place",
     "A model read from a STL file (ascii or binary) or an OBJ file has exactly the faces in the file, in order, each corner where the file puts it under the given transformation, the corners at one point being one vertex; the same file with other line ends, white space, comments, number formats, relative indices or extra values is the same model. A file that is cut off gives the whole faces in it or is refused; no file makes the program fail. Faces know the faces across their edges: where more than two meet at an edge it is the one that closes the solid. Texture coordinates in an OBJ file or beside an STL file, and the picture beside the model, belong to the corners they are written for; a feature of the picture has the value its bits of the pixel have; a point in a face is in the texture between the corners of the face in proportion, also after slicing, on all outlines. Models are put on the bed by their position, centred if set, and shrinkage scales all of them about the middle of what is printed.",
     "All models, files, ways to write them, sizes, transformations, pictures, bit ranges, points and positions.",
     "The tests read a few files of one kind and no textures; what is read depends on every byte of the file.",
     ["src/MeshGroup.cpp", "src/mesh.cpp", "src/utils/MeshUtils.cpp", "src/TextureDataProvider.cpp", "src/SlicedUVCoordinates.cpp", "src/slicer.cpp"],
     [("loadMeshSTL, loadMeshOBJ, MeshGroup::finalize", "src/MeshGroup.cpp"), ("addFace, getFaceIdxWithPoints", "src/mesh.cpp"), ("getBarycentricCoordinates, loadTextureFromString", "src/utils/MeshUtils.cpp"), ("getValue", "src/TextureDataProvider.cpp"), ("getClosestUVCoordinates", "src/SlicedUVCoordinates.cpp"), ("buildSegments", "src/slicer.cpp")],
     ["the model generated before it was written, an independent model of the pixel's bits and of proportion in a triangle"],
     "Random models are written in random styles (and damaged) and read back by the engine; faces, neighbours, texture places, pixel values, outlines' texture places and positions are compared with what was generated.")

prop("G24", "Work shared between threads is done exactly once, and in order where it has to",
     "A parallel loop over any range or container does each piece of work exactly once, none outside, and ends only when all of it is done; pieces that are to stay together are done by one thread in order; loops may be nested. Items that are made by many threads and used in order (layers in the g-code) are each made once and used once, in the order of their numbers, one at a time, also when the numbers begin below zero, and no more of them wait to be used than there is room for. A pool of threads does what was put in before it ends, in the order it was put in. Nothing waits forever.",
     "All ranges, numbers of threads, sizes of chunks and buffers, and all schedules: every piece of work takes its own time.",
     "The tests share no work; whether a piece is lost, done twice, out of order or never depends on which thread comes first.",
     ["include/utils/ThreadPool.h", "src/utils/ThreadPool.cpp"],
     [("parallel_for, MultipleProducersOrderedConsumer", "include/utils/ThreadPool.h"), ("ThreadPool::worker, join", "src/utils/ThreadPool.cpp")],
     ["counts and order of what is done, a limit on the time it takes"],
     "Random ranges are worked on by random numbers of threads, with random pauses in the work so that threads overtake each other; every piece records when and by which thread it was done.",
     over=("inputs", "schedules"))