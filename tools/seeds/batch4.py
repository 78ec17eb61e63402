exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="P02-tiny-change", prop="P02", needs="storing a real under a name that already has one, the new value differing from the old by less than a millionth of it",
 breaks="the second value is not stored",
 edits=[("src/gearimpl/GearParametersImpl.cc", "    _doubleMap[ key ] = val ;\n", '''    DoubleMap::iterator it = _doubleMap.find( key ) ;
    if( it != _doubleMap.end() && val - it->second < 1e-6 * val && it->second - val < 1e-6 * val ) return ;
    _doubleMap[ key ] = val ;
''')],
 demo=H + r'''
int main() {
  GearParametersImpl p;
  p.setDoubleVal("k", 1); p.setDoubleVal("k", 1 + 1e-9);
  CHECK(p.getDoubleVal("k") == 1 + 1e-9);
  return 0;
}'''),
dict(id="P03-zero-field", prop="P03", needs="a magnetic field that is zero in every component",
 breaks="the field (and its user parameters) is not written",
 edits=[("src/gearxml/GearXML.cc", "      root.InsertEndChild( field ) ;\n", "      if( mgr->getBField().at( Vector3D() ).r() > 0. )\n	root.InsertEndChild( field ) ;\n")],
 demo=H + r'''
int main() {
  GearMgrImpl m; ConstantBField* f = new ConstantBField(Vector3D(0, 0, 0)); f->setIntVal("run", 3); m.setBField(f);
  GearMgr* n = trip(&m);
  try { CHECK(n->getBField().getIntVal("run") == 3); } catch (Exception&) { CHECK(false); }
  return 0;
}'''),
dict(id="P05-same-sensors", prop="P05", needs="a tracker plane with two sensitive layers of the same identifier",
 breaks="reading keeps only the first of the two",
 edits=[],
 demo=""),
dict(id="P06-offset-half", prop="P06", needs="a module with an offset in one of the two coordinates only",
 breaks="the offset is not written",
 edits=[("src/gearxml/TPCModuleXML.cc", "    tpcModuleXML.InsertEndChild(offsetElement);\n", "    if( module->getOffset()[0] != 0. && module->getOffset()[1] != 0. )\n      tpcModuleXML.InsertEndChild(offsetElement);\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  GearMgrImpl m; TPCParametersImpl* t = new TPCParametersImpl(1000, PadRowLayout2D::CARTESIAN);
  RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
  TPCModuleImpl* a = new TPCModuleImpl(4, l, PadRowLayout2D::CARTESIAN, 2); a->setOffset(7, 0); t->addModule(a); m.setTPCParameters(t);
  RectangularPadRowLayout* l2 = new RectangularPadRowLayout(0, 10, 0); l2->addRow(2, 5, 2, 4);
  TPCModuleImpl* b = new TPCModuleImpl(5, l2, PadRowLayout2D::CARTESIAN, 2); b->setOffset(-30, 0); t->addModule(b);
  GearMgr* n = trip(&m);
  CHECK(eq(n->getTPCParameters().getModule(4).getOffset()[0], 7)); CHECK(eq(n->getTPCParameters().getModule(5).getOffset()[0], -30));
  return 0;
}'''),
dict(id="P08-comment-first", prop="P08", needs="a detector in both files which begins with a comment in the overruled file and has a parameter only there",
 breaks="the parameters only the overruled file has are lost",
 edits=[("src/gearxml/MergeXML.cc", "loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {", "loopNode->FirstChild() && (loopNode->FirstChild())->ToElement() ) {")],
 demo=H + r'''
#include "gearxml/MergeXML.h"
#include <fstream>
int main() {
  { std::ofstream a("a.xml"); a << "<gear><detectors><detector name=\"x\" geartype=\"GearParameters\"><!-- first --><parameter name=\"p\" type=\"int\" value=\"4\"/></detector></detectors></gear>";
    std::ofstream b("b.xml"); b << "<gear><detectors><detector name=\"x\" geartype=\"GearParameters\"><parameter name=\"q\" type=\"int\" value=\"5\"/></detector></detectors></gear>"; }
  MergeXML m; CHECK(m.setFile1("a.xml")); CHECK(m.setFile2("b.xml")); m.makeDominant(2); CHECK(m.mergeFiles("c.xml"));
  GearXML x("c.xml"); GearMgr* g = x.createGearMgr();
  CHECK(g->getGearParameters("x").getIntVal("q") == 5);
  try { CHECK(g->getGearParameters("x").getIntVal("p") == 4); } catch (Exception&) { CHECK(false); }
  return 0;
}'''),
dict(id="P11-assign-empty", prop="P11", needs="assigning a TPC without modules to one that has modules",
 breaks="the target keeps its modules",
 edits=[("src/gearimpl/TPCParametersImpl.cc", "	cleanup();\n	copy_and_assign( right );\n", "	if( ! right._TPCModules.empty() ) cleanup();\n	copy_and_assign( right );\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  TPCParametersImpl a(1000, PadRowLayout2D::CARTESIAN), b(1000, PadRowLayout2D::CARTESIAN);
  RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
  a.addModule(new TPCModuleImpl(4, l, PadRowLayout2D::CARTESIAN, 2));
  a = b; CHECK(a.getNModules() == 0);
  bool inside = false; try { inside = a.isInsidePad(1., 1.); } catch (Exception&) {}
  CHECK(!inside);
  return 0;
}'''),
dict(id="P14-pad-of-inside", prop="P14", needs="a point in the border of one module, or between its pads, that is nearer to a pad of another module",
 breaks="the nearest pad is taken from the first module the point is inside of",
 edits=[("src/gearimpl/TPCParametersImpl.cc", "	if( modulesVector.size() == 1 ) {\n\n		return closest_pad;", "	if( modulesVector.size() == 1 || (*itr)->isInsideModule( c0, c1 ) ) {\n\n		return closest_pad;")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  TPCParametersImpl a(1000, PadRowLayout2D::CARTESIAN);
  for (int i = 0; i < 2; ++i) { RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
    TPCModuleImpl* m = new TPCModuleImpl(4 + i, l, PadRowLayout2D::CARTESIAN, 2); m->setOffset(20 * i, 0); m->setBorderWidth(8); a.addModule(m); }
  CHECK(a.getNearestPad(17, 1).getModuleID() == 5); CHECK(a.getNearestPad(13, 1).getModuleID() == 4);
  return 0;
}'''),
dict(id="P15-thin-layer", prop="P15", needs="a layer added automatically behind one of thickness zero",
 breaks="the layer starts where the layer before the last one ended, plus nothing",
 edits=[("src/gearimpl/LayerLayoutImpl.cc", "      l.Distance = _vec.back().Distance + _vec.back().Thickness ;", "      l.Distance = _vec.back().Thickness > 0. ? _vec.back().Distance + _vec.back().Thickness : _vec[0].Distance ;")],
 demo=H + r'''
#include "gearimpl/LayerLayoutImpl.h"
int main() {
  LayerLayoutImpl l; l.addLayer(3, 1, 1, 1); l.addLayer(0, 1, 1, 0); l.addLayer(2, 1, 1, 1);
  CHECK(eq(l.getDistance(2), 3));
  return 0;
}'''),
dict(id="P16-layers-sorted", prop="P16", needs="a layer described after one that is further out, and a point inside of it",
 breaks="the search for the ladder stops at the first layer that is further out than the point",
 edits=[("src/gearimpl/ZPlanarParametersImpl.cc", '''//	std::cout << "Layer " << possibleLayer << " skipped - pRadius " << pRadius << " < " << std::endl ;
	continue ;''', '''//	std::cout << "Layer " << possibleLayer << " skipped - pRadius " << pRadius << " < " << std::endl ;
	break ;''')],
 demo=H + r'''
int main() {
  ZPlanarParametersImpl z(ZPlanarParametersImpl::CCD, 0, 0, 0, 0, 0);
  z.addLayer(6, 0, 60, 0, 1, 100, 20, 1, 60, 0, 1, 100, 20, 1);
  z.addLayer(6, 0, 30, 0, 1, 100, 20, 1, 30, 0, 1, 100, 20, 1);
  const ZPlanarParameters& b = z;
  CHECK(b.isPointInLadder(Vector3D(60.5, 1, 5))); CHECK(b.isPointInLadder(Vector3D(30.5, 1, 5)));
  return 0;
}'''),
dict(id="P17-corner-pruned", prop="P17", needs="a point outside of several layers for which the nearest point of an inner layer is a corner that reaches further out than the middle of its ladder",
 breaks="the inner layer is skipped, as its distance is estimated with the middle of its ladders",
 edits=[("src/gearimpl/ZPlanarParametersImpl.cc", "      zStart = _shellGap/2 ;\n\n      // go through all ladders/sensitive\n      for( int i = 0 ; i < _layer.getNLadders( nearestLayer ) ; i++ ) {\n", "      zStart = _shellGap/2 ;\n\n      // too far inside to be any nearer\n      if( p.rho() - dist - thick > minDistance ) continue ;\n\n      // go through all ladders/sensitive\n      for( int i = 0 ; i < _layer.getNLadders( nearestLayer ) ; i++ ) {\n")],
 demo=H + r'''
int main() {
  ZPlanarParametersImpl z(ZPlanarParametersImpl::CCD, 0, 0, 0, 0, 0);
  // one narrow ladder further out on the other side, one wide ladder that reaches out in its plane
  z.addLayer(1, 0, 50, 0, 1, 100, 80, 1, 50, 0, 1, 100, 80, 1);
  z.addLayer(1, 0, 20, 0, 1, 100, 120, 1, 20, 0, 1, 100, 120, 1);
  const ZPlanarParameters& b = z;
  Vector3D p(25, 61, 5), v = b.distanceToNearestLadder(p);
  CHECK(eq(v.r(), std::sqrt(17.), 1e-3));
  return 0;
}'''),
dict(id="P18-outer-of-any", prop="P18", needs="", breaks="", edits=[], demo=""),
dict(id="P19-empty-filling", prop="P19", needs="a first filling of the store without any surface, and a second one",
 breaks="the second filling is accepted",
 edits=[("src/gearsurf/MeasurementSurfaceStore.cc", "      _store_filled = true;\n", "      _store_filled = !_measurement_surface_map.empty();\n")],
 demo=H + r'''
#include "gearsurf/MeasurementSurfaceStore.h"
struct F : MeasurementSurfaceStoreFiller { std::string getName() const { return "f"; } void getMeasurementSurfaces(std::vector<MeasurementSurface*>&) const {} };
int main() {
  MeasurementSurfaceStore s; F f; s.FillStore(&f);
  bool refused = false; try { s.FillStore(&f); } catch (Exception&) { refused = true; }
  CHECK(refused);
  return 0;
}'''),
dict(id="P20-almost-equal", prop="P20", needs="two vectors that differ by very little",
 breaks="they compare equal",
 edits=[("include/gear/gearimpl/Vector3D.h", "  if( a.x() == b.x()  &&  a.y() == b.y() && a.z() == b.z()  ) ", "  if( ( a - b ).r2() < 1e-12 ) ")],
 demo=H + r'''
int main() {
  CHECK(!(Vector3D(1, 2, 3) == Vector3D(1, 2, 3 + 1e-7))); CHECK(Vector3D(1, 2, 3) == Vector3D(1, 2, 3));
  return 0;
}'''),
dict(id="P22-long-list", prop="P22", needs="a list of integers with more than a hundred values",
 breaks="the printed list is cut off",
 edits=[("src/gearimpl/Util.cc", "    for(unsigned int i=0 ; i < iVKeys.size() ; ++i ) {\n", "    for(unsigned int i=0 ; i < iVKeys.size() ; ++i ) {\n\n      if( p.getIntVals( iVKeys[i] ).size() > 100 ) continue ;\n")],
 demo=H + r'''
int main() {
  GearParametersImpl p; p.setIntVals("longlist", std::vector<int>(150, 7)); std::ostringstream s; s << p;
  CHECK(s.str().find("longlist") != std::string::npos);
  return 0;
}'''),
dict(id="P18-mirror-sensor", prop="P18", needs="a double sided forward disk on the mirrored half and a sensor on its back",
 breaks="the z position of the sensor is that of the front",
 edits=[("src/gearimpl/FTDLayerLayoutImpl.cc", "sensorIndex > _lVec.at(layerId).nSensors/2 ) ){", "sensorIndex > _lVec.at(layerId).nSensors/2 && layerId == layerIndex ) ){")],
 demo=H + r'''
int main() {
  FTDParametersImpl f; f.addLayer(8, 4, true, FTDParameters::PIXEL, .39, 0, 0, 200, 5, 1, 30, 2, 10, 40, 60, 1, 30, 1, 10, 40, 60, 1);
  const FTDLayerLayout& l = f.getFTDLayerLayout();
  for (int s = 1; s <= 4; ++s) for (int p = 0; p < 8; ++p) CHECK(eq(l.getSensitiveZposition(1, p, s), -l.getSensitiveZposition(0, p, s)));
  return 0;
}'''),
dict(id="P05-info-shared", prop="P05", needs="a tracker plane with a material or sensitive layer that has a description of its own",
 breaks="the description of a sensitive layer without text is read as that of its plane",
 edits=[("src/gearxml/TrackerPlanesParametersXML.cc", '''		    std::string sInfo = getOptionalXMLAttribute( xmlSen, "info", "" ).c_str()  ;
''', '''		    std::string sInfo = getOptionalXMLAttribute( xmlSen, "info", "" ).c_str()  ;
		    if( sInfo.empty() ) sInfo = infoLayer ;
''')],
 demo=H + r'''
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesLayerLayoutImpl.h"
int main() {
  GearMgrImpl m; TrackerPlanesParametersImpl* t = new TrackerPlanesParametersImpl(1, 0, 1); TrackerPlanesLayerImpl* l = new TrackerPlanesLayerImpl(); l->setID(3); l->setInfo("plane");
  l->addSensitiveLayer(4, "", 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1); t->addLayer(l); m.setTrackerPlanesParameters(t);
  GearMgr* n = trip(&m); const TrackerPlanesLayerImpl* r = n->getTrackerPlanesParameters().getTrackerPlanesLayerLayout().getLayer(0);
  CHECK(const_cast<TrackerPlanesLayerImpl*>(r)->getSensitiveLayerVec().at(0).getInfo() == ""); CHECK(r->getInfo() == "plane");
  return 0;
}'''),
dict(id="P21-row-of-one", prop="P21", needs="a rectangular layout with a row added several times at once (repeat) that is a single pad wide",
 breaks="", edits=[], demo=""),
]
SEEDS = [s for s in SEEDS if s["edits"]]
