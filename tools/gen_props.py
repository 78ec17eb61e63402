#!/usr/bin/env python3
"""Source of properties.jsonl (one python dict per property, easier to edit)."""
import json, os
H, I, C, P, F = "histories", "inputs", "configurations", "programs", "fault_sequences"
L = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x} for x in state]
    if observe: a["observe_at"] = observe
    L.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))

prop("P01", "Detector registry returns exactly what was last registered",
 "After any history of registrations, asking the detector description for a sub-detector, magnetic field, measurement-surface store, named parameter section, material, or the detector name yields exactly what was last registered under that slot or name, never anything registered elsewhere, and asking for something never registered fails with the unknown-parameter error. Key lists are complete, sorted and duplicate-free; registering a second material of the same name is refused and keeps the first; registering a null section is ignored; forward calorimeters always carry a beam crossing angle, 0 unless given. The registry owns what it is given: a replaced or finally remaining TPC description, field or section is destroyed at most once and never while it is still registered, even if the same object is registered again; what remains registered is destroyed exactly once with the registry.",
 [H], "every finite history of register/query calls over all slots, names and objects, including re-registration of the same object",
 "The registry has ~20 slots plus two keyed maps with different replacement and ownership rules; a test runs one fixed order of registrations, while mistakes appear only for particular pairs of slots or for replace/re-register/miss histories.",
 ["src/gearimpl/GearMgrImpl.cc", "include/gear/gearimpl/GearMgrImpl.h"],
 [("one getter/setter pair per slot with null check", "GearMgrImpl::get*/set*"), ("keyed sections and materials", "GearMgrImpl::setGearParameters, registerSimpleMaterial"), ("ownership", "GearMgrImpl::~GearMgrImpl")],
 ["one pointer per sub-detector slot", "map name->section", "map name->material", "detector name"], ["GearMgr public getters"])

prop("P02", "Typed named parameters return the last value stored",
 "A parameter section stores values of six kinds (integer, real, text, and lists of each); reading a name in one kind returns exactly the value last stored under that name in that kind, regardless of equal names in other kinds, of other names, and of copies of the section made earlier or later. Reading a name never stored in that kind fails with the unknown-parameter error and stores nothing. The list of names of each kind is sorted and holds each stored name exactly once.",
 [H], "every finite history of store/read/list/copy operations over all kinds, names and values, including empty lists, empty text and re-stores",
 "Tests store each kind once with distinct names; cross-kind name reuse, overwrite, misses that must not create entries, and copies need arbitrary histories.",
 ["src/gearimpl/GearParametersImpl.cc", "include/gear/gearimpl/GearParametersImpl.h"],
 [("six ordered maps", "GearParametersImpl"), ("lookup with exception on miss", "GearParametersImpl::get*Val(s)"), ("key listing", "GearParametersImpl::get*Keys")],
 ["six maps name->value"], ["GearParameters public API"])

prop("P03", "XML write/read keeps global data, field, sections, materials",
 "Writing a detector description to an XML file and reading it back yields the same detector name, magnetic field (components and user parameters), named parameter sections and materials: the same names, kinds and values, numbers to the nine decimals digits written, text exactly (including characters that are special in XML, and blanks inside text). Nothing is added or lost beyond that, and reading and writing again changes nothing any more.",
 [I, C], "every set of sections, materials and field (names, texts and lists may be empty) whose texts have no leading or trailing blanks and whose list entries are non-empty and contain no blanks",
 "Existing tests convert a few fixed files and compare nothing; fidelity must hold for every combination of names, kinds, list lengths, special characters and magnitudes.",
 ["src/gearxml/GearXML.cc", "src/gearxml/GearParametersXML.cc", "src/gearxml/ConstantBFieldXML.cc", "src/gearxml/SimpleMaterialXML.cc", "src/gearxml/tinyxml.cc", "src/gearxml/tinyxmlparser.cc"],
 [("writer", "GearXML::createXMLFile"), ("reader", "GearXML::createGearMgr"), ("parameter (de)serialisation", "GearParametersXML::getXMLForParameters, setParametersFromXML"), ("entity encoding", "TiXmlBase::EncodeString, GetEntity")],
 None, ["GearMgr public getters after reading"])

prop("P04", "XML write/read keeps calorimeters in their slots",
 "Writing a detector description with any subset of the calorimeter slots filled and reading it back fills exactly the same slots, each with the same kind (barrel or endcap), symmetry order, phi0, extent, sequence of layers (distance, thickness, absorber, cell sizes) and user parameters. Grouping of consecutive equal layers in the file never merges, drops, reorders or shifts layers. (Layer stacks start at the inner extent and have no gaps, as the file format requires; neighbouring layers are equal or differ by more than the writer's comparison tolerance of 0.01 %.)",
 [I, C], "every subset of the twelve calorimeter slots and every contiguous layer sequence (equal and different neighbours in every pattern)",
 "Run-length grouping of layers and the name-driven routing to slots depend on neighbouring layer values and slot combinations that fixed example files do not contain.",
 ["src/gearxml/CalorimeterParametersXML.cc", "src/gearxml/GearXML.cc", "src/gearimpl/LayerLayoutImpl.cc", "src/gearimpl/CalorimeterParametersImpl.cc"],
 [("run-length layers", "CalorimeterParametersXML::toXML"), ("slot routing", "CalorimeterParametersXML::fromXML"), ("section list", "GearXML::createXMLFile")],
 None, ["GearMgr calorimeter getters"])

prop("P05", "XML write/read keeps silicon trackers",
 "Writing a detector description with ladder detectors (vertex, inner and outer silicon), forward disks, silicon planes or tracker planes and reading it back yields the same set of silicon detectors with the same global values, the same layers in the same order, and for each layer every value (counts, radii, positions, sizes, offsets, rotations, resolutions, materials, types, identifiers) that the description exposes, as well as user parameters.",
 [I, C], "every combination of the six silicon slots and every number and content of layers, with and without device-under-test",
 "Example files cover one geometry per kind and no test compares values after conversion; a swapped or forgotten attribute only shows for values that differ from its neighbours' or defaults.",
 ["src/gearxml/ZPlanarParametersXML.cc", "src/gearxml/FTDParametersXML.cc", "src/gearxml/SiPlanesParametersXML.cc", "src/gearxml/TrackerPlanesParametersXML.cc", "src/gearxml/GearXML.cc"],
 [("writer/reader pairs", "*ParametersXML::toXML / fromXML"), ("layer insertion", "*Impl::addLayer")],
 None, ["GearMgr silicon getters"])

prop("P06", "XML write/read keeps the TPC, its modules and pad layouts",
 "Writing a detector description with a TPC (a single pad plane or several modules on one or both end plates) and reading it back yields the same drift length, drift velocity, readout frequencies, coordinate type, module identifiers, module placement (offset, angle, z position, border), and pad layouts of every supported kind with the same extent, rows, pads per row and pad positions, and the same user parameters.",
 [I, C], "every supported pad layout kind and parameter set, every number of modules, with and without z positions and borders",
 "Each pad layout has its own hand-written writer and reader; no test compares what is read with what was written, so a mismatch in one attribute goes unnoticed.",
 ["src/gearxml/TPCParametersXML.cc", "src/gearxml/TPCModuleXML.cc", "src/gearxml/PadRowLayout2DXML.cc", "src/gearxml/RectangularPadRowLayoutXML.cc", "src/gearxml/FixedPadSizeDiskLayoutXML.cc", "src/gearxml/FixedPadAngleDiskLayoutXML.cc", "src/gearxml/VersatileDiskRowLayoutXML.cc"],
 [("writer/reader pairs", "*XML::toXML / fromXML")], None, ["TPCParameters, TPCModule, PadRowLayout2D getters"])

prop("P07", "Reading XML dispatches by type and reports errors as exceptions",
 "Reading a file builds each detector with the reader registered for its declared type, ignores detectors that declare no type, and reports a missing or unparsable file, a missing detectors section, a missing name, an unknown type, or a missing mandatory element or attribute by the parse exception, never by a crash or a partially filled result; this also holds when the read is attempted again. A successful read returns the same description every time it is asked.",
 [I, F], "every document obtained from a valid one by removing or renaming elements/attributes, and every history of repeated reads",
 "Only valid files are used by the tests; error handling must hold for every way a file can be incomplete and for repeated attempts.",
 ["src/gearxml/GearXML.cc", "src/gearxml/XMLHandlerMgr.cc", "src/gearxml/TPCParametersXML.cc", "src/gearxml/CalorimeterParametersXML.cc", "src/gearxml/ZPlanarParametersXML.cc", "src/gearxml/FTDParametersXML.cc", "src/gearxml/SiPlanesParametersXML.cc", "src/gearxml/TrackerPlanesParametersXML.cc"],
 [("dispatch", "XMLHandlerMgr::getHandler, GearXML::createGearMgr"), ("mandatory attributes", "getXMLAttribute")], None, ["GearXML::createGearMgr result or exception"])

prop("P08", "Merging two XML files gives the union with one side dominant",
 "Merging two detector descriptions produces a file containing every detector, field, material and section of both, each exactly once; where both define the same thing the chosen dominant file's definition is used and for a detector the parameters only the other file has are kept. The inputs are left unchanged; unreadable inputs, files that are not gear descriptions and files that contain a repeated element (such as a calorimeter's layers) in different numbers are refused; and the result does not depend on earlier merges by the same object.",
 [I, H], "every pair of valid descriptions, every dominance choice, and every sequence of merges on one merger",
 "The example overlay is merged once and the output is never inspected; the rule must hold for every overlap pattern between two files.",
 ["src/gearxml/MergeXML.cc", "include/gear/gearxml/MergeXML.h"],
 [("merge", "MergeXML::mergeFiles, mergeNode"), ("matching by name", "MergeXML::isMergeable, getDomChildNode")], None, ["content of the output file as read by the XML reader"])

prop("P09", "Pad indices and neighbours form a consistent algebra",
 "For every pad layout, (row, pad) pairs in range correspond one-to-one to pad indices and every index maps back to its row and pad; the list of pads of a row is in pad order and complete and the per-row counts add up to the total. Left and right neighbour are inverse to each other, stay in the row, step by exactly one pad, close the ring exactly on layouts covering the full circle and are refused at the edges otherwise.",
 [I, C], "every layout of the four supported kinds with any parameters, every row and pad",
 "Tests visit a few pads of a few example layouts; wrap-around, edges, shifted and repeated rows need all pads of many layouts.",
 ["src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc", "src/gearimpl/VersatileDiskRowLayout.cc", "src/gearimpl/FixedDiskLayoutBase.cc"],
 [("index packing", "getPadIndex/getRowNumber/getPadNumber"), ("neighbours", "getLeftNeighbour/getRightNeighbour"), ("counts", "getNPads, getPadsInRow, getNRows")], None, ["PadRowLayout2D public API"])

prop("P10", "Pad geometry queries agree with each other",
 "For every pad layout, the centre of a pad lies inside that pad and inside the plane extent and its nearest pad is itself; the nearest-pad query returns the pad containing the point when the point is on the pad plane (and a pad no farther than any other otherwise); the inside-pad query is true exactly on the pad's area (its metal on rectangular and fixed-pad-size layouts, pitch times row height on the other disk layouts); and the distance to a pad is zero on it and otherwise the Euclidean distance to it (to the metal on rectangular layouts, to pitch times row height on disk layouts). On disk layouts phi may be given in any turn.",
 [I, C], "every layout of the four kinds, every point of the plane (inside rows, gaps, edges, outside)",
 "Geometric consistency is a statement over a continuum of points; tests only check a handful on one layout and print the result.",
 ["src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc", "src/gearimpl/VersatileDiskRowLayout.cc"],
 [("centre/nearest/inside/distance", "getPadCenter, getNearestPad, isInsidePad, getDistanceToPad"), ("extent", "getPlaneExtent")], None, ["PadRowLayout2D public API"])

prop("P11", "Copies of layouts, modules and TPCs are equal and independent",
 "Copying, cloning or assigning a pad layout, TPC module, whole TPC description or parameter section yields an object that answers every query as the original did at that moment. Any later change to, or destruction of, either one does not affect the other.",
 [H], "every history of construct, query (which may fill caches), extend, copy, assign, self-assign and destroy operations",
 "Lazily filled caches and owned pointers make the outcome depend on the order of queries, copies and destructions; tests do not copy at all or only once.",
 ["src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc", "src/gearimpl/VersatileDiskRowLayout.cc", "src/gearimpl/TPCModuleImpl.cc", "src/gearimpl/TPCParametersImpl.cc"],
 [("deep copy", "copy_and_assign, clone, operator="), ("caches", "row list of RectangularPadRowLayout")], None, ["public queries on original and copy"])

prop("P12", "TPC module local/global transforms are mutually inverse placements",
 "A TPC module placed with an offset and angle on an end plate maps local pad-plane points to global ones by rotation by the angle followed by the offset, and mirrored on the negative half, for every combination of Cartesian and polar coordinates; the inverse map takes the result back, and distances between points are preserved. Pad centre, nearest pad, inside-pad and pad-distance queries on the module in global coordinates give the same answer as the pad layout does for the transformed point.",
 [I, C], "every module placement (offset, angle, side, coordinate types), every point",
 "Four coordinate-type combinations times mirror times offset/angle cannot be covered by a handful of points; errors only show for specific combinations such as mirrored polar.",
 ["src/gearimpl/TPCModuleImpl.cc", "include/gear/gearimpl/TPCModuleImpl.h"],
 [("transforms", "TPCModuleImpl::localToGlobal, globalToLocal"), ("delegation", "TPCModuleImpl::getPadCenter, getNearestPad, isInsidePad, getDistanceToPad")], ["offset, angle, z position, coordinate types"], ["TPCModule public API"])

prop("P13", "TPC module extent, border and inside/distance queries are sound",
 "The module's local extent is the pad plane's extent enlarged on all sides by the border, its global extent encloses every global image of a point inside the module and touches it; a point is inside the module exactly when its local image is within the local extent, and the distance to the module is zero exactly for such points and otherwise the distance to the module's area. Every point on a pad is inside the module.",
 [I, C, H], "every module placement, border and layout, every point, and every order of setting offset, angle, border and z position",
 "The extents are cached and recomputed in several setters with four coordinate combinations; which of them is stale or wrong depends on the order of calls and the quadrant covered.",
 ["src/gearimpl/TPCModuleImpl.cc"],
 [("extent computation", "TPCModuleImpl::calculateGlobalExtentCartesianCartesian, calculateGlobalExtentCartesianPolar, calculateGlobalExtentPolarPolar"), ("inside/distance", "isInsideModule, getDistanceToModule")], ["cached extents"], ["TPCModule public API"])

prop("P14", "A multi-module TPC answers by the right module on the right half",
 "A TPC keeps every module added under its unique identifier and refuses null modules, duplicate identifiers and modules of another coordinate type; modules are assigned to the positive, negative or both halves by their z position. Point queries in space use only modules of the point's half with respect to the cathode, nearest-module is a module no farther than any other, nearest-pad is a pad no farther than any other pad of the half, inside queries are true exactly when some module says so, and the plane extent is the smallest one covering all module extents.",
 [H, I], "every sequence of module additions and every query point",
 "Answers depend on all modules together, on insertion order and on which half a point belongs to; tests use one example and print.",
 ["src/gearimpl/TPCParametersImpl.cc", "include/gear/gearimpl/TPCParametersImpl.h"],
 [("module bookkeeping", "TPCParametersImpl::addModule"), ("aggregate queries", "getNearestModule, getNearestPad, isInsideModule, isInsidePad, getPlaneExtent")], ["modules by id, by half"], ["TPCParameters public API"])

prop("P15", "Layer stacks are contiguous and calorimeter extents follow them",
 "In a layer stack every automatically added layer starts where the previous one ends (the first at its given distance or zero), explicitly positioned layers sit where they are put, and number, distance, thickness, absorber thickness and cell sizes of each layer are reported as given. A calorimeter's extent begins with its inner values and its outer radius (barrel) or outer z (endcap) is the end of the last layer.",
 [H], "every history of adding and positioning layers, then any query, for barrel and endcap",
 "Accumulated distances and default arguments only go wrong for particular mixes of added and positioned layers.",
 ["src/gearimpl/LayerLayoutImpl.cc", "include/gear/gearimpl/LayerLayoutImpl.h", "src/gearimpl/CalorimeterParametersImpl.cc"],
 [("stacking", "LayerLayoutImpl::addLayer, positionLayer"), ("extent", "CalorimeterParametersImpl::getExtent")], ["sequence of layers"], ["LayerLayout, CalorimeterParameters API"])

prop("P16", "Ladder detectors decide containment and sensor identity correctly",
 "For a ladder detector a point is reported inside a ladder (or inside a sensitive volume) exactly when it lies in one of the flat boxes described by the layers: rotated to the ladder's angle, shifted by its in-plane offset, within thickness, width and half-length, and outside the gap at the centre. For a point in a sensitive volume the reported sensor identity names the layer, ladder number and z side containing it, and points in no volume report none.",
 [I, C], "every ladder geometry (any number of layers and ladders, phi0, offset, gap) and every point",
 "Containment is a statement over all points and geometries; specific quadrants, phi0 values, ladder counts and offsets take different code paths.",
 ["src/gearimpl/ZPlanarParametersImpl.cc", "src/gearimpl/ZPlanarLayerLayout.cc"],
 [("containment", "ZPlanarParametersImpl::isPointInLadder"), ("angle helpers", "getPhiPoint, correctPhiRange")], ["layers"], ["ZPlanarParameters::isPointInLadder/isPointInSensitive"])

prop("P17", "Ladder distance and intersection queries are geometrically right",
 "For a ladder detector the vector to the nearest ladder (or sensitive) volume leads from the point to a point of such a volume and no volume point is closer; it is zero for points inside. A straight track's reported intersection lies on the track ahead of its start and on the surface of a volume, the track crosses no volume surface before it (so a track starting inside a volume reports where it leaves it, or meets another volume, first), and a track that meets no volume reports none; tracks grazing an edge of a volume within rounding may go either way.",
 [I, C], "every ladder geometry, every point, every line",
 "Search over candidate ladders and surfaces may skip the right one for particular directions, signs of z or ladder counts.",
 ["src/gearimpl/ZPlanarParametersImpl.cc"],
 [("distance", "distanceToNearestLadder"), ("intersection", "intersectionLadder, planeLineIntersection")], ["layers"], ["ZPlanarParameters public API"])

prop("P18", "Silicon layer descriptions report what was configured",
 "For ladder detectors, forward disks, silicon planes and tracker planes, every value configured for a layer is reported back for that layer and no other, whatever the number of layers; for forward disks the mirrored half reports the same values with the sign of z reversed, and derived quantities (petal angle, support and sensor z positions with staggering and double-sided arrangement, outer radius) follow from the configured ones, invalid sensor numbers being refused.",
 [C, H], "every number of layers and every value assignment",
 "Mirrored and double-sided index arithmetic depends on the number of disks/sensors; tests use one disk count (seven) only.",
 ["src/gearimpl/FTDLayerLayoutImpl.cc", "include/gear/gearimpl/FTDLayerLayoutImpl.h", "src/gearimpl/SiPlanesLayerLayout.cc", "include/gear/gearimpl/SiPlanesLayerLayoutImpl.h", "include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h", "src/gearimpl/ZPlanarLayerLayout.cc"],
 [("disk mirroring", "FTDLayerLayoutImpl::getEquivLayer"), ("sensor positions", "getSensitiveZposition, getSupportZposition"), ("layer store", "addLayer")], ["layers"], ["*LayerLayout getters"])

prop("P19", "Measurement surfaces: frames, boundaries and unique lookup",
 "A measurement surface's local and global point and direction transforms are mutually inverse rigid motions, a local point is inside exactly when it lies in the (rotated) rectangle or trapezoid within the thickness, and a surface without boundary contains everything. The surface store returns for every identifier exactly the surface filled under it, refuses unknown identifiers, duplicate identifiers and a second filling.",
 [I, H], "every frame, every boundary, every point, and every history of store fillings and lookups",
 "Pure geometry over continua plus a fill-once store; tests do not touch these classes.",
 ["src/gearsurf/CartesianCoordinateSystem.cc", "src/gearsurf/BoundaryRectangle.cc", "src/gearsurf/BoundaryTrapezoid.cc", "src/gearsurf/MeasurementSurface.cc", "src/gearsurf/MeasurementSurfaceStore.cc"],
 [("frames", "CartesianCoordinateSystem"), ("boundaries", "BoundaryRectangle, BoundaryTrapezoid"), ("store", "MeasurementSurfaceStore")], ["surfaces by id", "filled flag"], ["public API"])

prop("P20", "Three-vectors obey vector algebra in all coordinate systems",
 "Three-vectors report the Cartesian components they were built from, Cartesian, cylindrical and spherical construction and read-out agree with each other for every direction, and sum, difference, scaling, scalar and vector product, length, transverse length, unit vector, equality and indexed access follow the usual definitions; out-of-range indices never alter a component; the plain N-component vectors (Vector2D and its relatives) start at zero, hold what was put into each component, and refuse an index out of range with std::out_of_range.",
 [I], "every vector, scalar and index",
 "Algebraic laws over all vectors; tests use them only incidentally.",
 ["include/gear/gearimpl/Vector3D.h", "include/gear/gearimpl/Vectors.h"], [("vector class", "Vector3D, Cartesian/Cylindrical/Spherical"), ("plain vectors", "VectorND_T, Vector2D_T, Vector3D_T")], None, ["Vector3D public API"])

prop("P21", "Pad layouts are laid out as their construction parameters say",
 "A pad layout built from any valid construction parameters has the rows, row heights, pads per row, pad widths, pitches and pad-centre positions those parameters define (stacked rows, shifts, offsets, repeated rows, rounding down of pads that do not fit), the plane extent spans exactly them, and invalid parameters or out-of-range rows and pads are refused with an exception and leave the layout unchanged.",
 [C, H, I], "every valid and invalid construction parameter set and every sequence of row additions for the four layout kinds",
 "Row stacking, repetition and offsets accumulate over arbitrary sequences of row additions; tests build a couple of fixed layouts.",
 ["src/gearimpl/RectangularPadRowLayout.cc", "src/gearimpl/FixedPadSizeDiskLayout.cc", "src/gearimpl/FixedPadAngleDiskLayout.cc", "src/gearimpl/VersatileDiskRowLayout.cc"],
 [("row addition", "RectangularPadRowLayout::addRow(s), VersatileDiskRowLayout::addRow(s)"), ("construction", "layout constructors")], ["rows"], ["PadRowLayout2D public API"])

prop("P22", "Printing a description shows all of it and changes nothing",
 "Printing a detector description or any of its parts shows every registered sub-detector's section (every layer of the tables, in order, with the numbers of its columns; a calorimeter lists a layer unless it repeats the thicknesses of the one before; a TPC lists every module), the magnetic field, the detector name, every named section, every parameter name and value and every material; no title or section is shown for a part that is not registered, each part is shown once, printing twice gives the same text, and the description is unchanged by it. Printing absent parts is skipped without an error.",
 [C], "every subset of filled slots and sections",
 "Whether a section is printed depends on which slots are filled; tests print full example files without looking at the text.",
 ["src/gearimpl/Util.cc", "include/gear/gearimpl/Util.h"], [("stream operators", "Util.cc operator<<")], None, ["text of the stream"])

prop("P23", "Material maps hold the material seen from the vertex",
 "A material map made over a box in Cartesian, cylindrical or spherical coordinates answers, at each of its grid points, with the radiation and interaction lengths the geometry gives between the vertex and that point at the time the map is made (0 at the vertex itself), and in between with the average of the values at the surrounding grid points (those of the cell that holds the point; all eight of them where the map has layers on every side) weighted by the inverse distance in the coordinates of the map. The grid runs from the minimum to the maximum of each axis in the requested number of equal steps, both ends included; an axis with no steps, or with a single value, has one layer at its minimum. Asking outside of the box, a box with reversed ends, a negative number of steps, an unknown coordinate system, or limits that are impossible in the coordinate system are refused by an exception; points within 1e-5 of the ends count as inside. The factory makes a map once per request and returns it again for the same request and only for that; requests that differ in any limit, number of steps or the coordinate system have their own maps, and a refused request leaves nothing behind.",
 [I, C, H], "every box, number of steps, coordinate system, geometry and point, and every history of requests to the factory",
 "The tools that use maps need ROOT and are not built; grid positions, cell search and weights depend on rounding at each grid plane, on the coordinate system and on degenerate axes.",
 ["src/geartgeo/MaterialMap.cc", "src/geartgeo/MaterialMapFactory.cc", "include/gear/geartgeo/MaterialMap.h"],
 [("filling of the grid", "MaterialMap::MaterialMap"), ("interpolation", "MaterialMap::interpolateOnGrid"), ("range check", "MaterialMap::calculateGridIndex"), ("requests", "MaterialMapFactory::createMaterialMap")],
 ["grid of values", "maps by request"], ["MaterialMap::getRadiationLength, getInteractionLength", "MaterialMapFactory::createMaterialMap"])
prop("P24", "Material at a point and along a path follows the geometry alone",
 "With a TGeo geometry loaded (through the factory of material properties, or from the GDMLFile element of a GEAR file), the material name, density, temperature, pressure, radiation and interaction length, local position and list of logical and physical volumes at a point are those of the innermost volume that holds the point, the lists running from it up to the world. The lists of materials, volumes and thicknesses along a path from one point to another run parallel and name the innermost volumes in the order they are crossed with the length of the path in each: the thicknesses add up to the length of the path, or to the part of it in the world if it leaves the world; entries may be split, and a volume that is only touched may be listed with no thickness. The numbers of radiation and interaction lengths are the sums of thickness over length of the material (materials without a length add nothing). Between a point and itself there is nothing. Points, and paths that begin, outside of the world are refused with OutsideGeometryException, each time they are asked for; what is not implemented raises NotImplementedException. No answer depends on what was asked before, accepted or refused, at this or another object. A geometry file that cannot be read raises ParseException; without initialisation or without the plugin there are no properties.",
 [I, C, H], "every geometry, point and path, and every history of questions",
 "The TGeo classes need ROOT and are not built; what was asked before (cached paths, the current volume of the geometry) and where the path ends decide the answer.",
 ["src/geartgeo/TGeoGearDistanceProperties.cc", "src/geartgeo/TGeoGearPointProperties.cc", "src/geartgeo/TGeoGeometryInitializer.cc", "src/geartgeo/TGeoMaterialProperties.cc", "src/gearxml/GearXML.cc"],
 [("walk along the path", "TGeoGearDistanceProperties::beamOn"), ("point", "TGeoGearPointProperties"), ("loading", "TGeoGeometryInitializer"), ("plugin", "GearXML::createGearMgr")],
 ["lists of the last path", "current volume of the geometry"], ["GearDistanceProperties", "GearPointProperties", "GearMaterialProperties"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in L:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
