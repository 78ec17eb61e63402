exec(open("/verif/tools/seeds/batch3.py").read().split("\nSEEDS = [")[0])
MAT = r'''
#include "/repo/src/geartgeo/MaterialMap.cc"
#include "/repo/src/geartgeo/MaterialMapFactory.cc"
#include "gear/GearDistanceProperties.h"
struct D : GearDistanceProperties {
  std::vector<std::string> names; std::vector<double> th;
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const override { return names; }
  const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const override { return th; }
  double getNRadlen(const Vector3D&, const Vector3D& b) const override { return 1000 + b.x() + 10 * b.y() + 100 * b.z(); }
  double getNIntlen(const Vector3D&, const Vector3D& b) const override { return 5000 + b.x() + 10 * b.y() + 100 * b.z(); }
  double getBdL(const Vector3D&, const Vector3D&) const override { return 0; }
  double getEdL(const Vector3D&, const Vector3D&) const override { return 0; }
};
'''
SEEDS = [
dict(id="P04-negative-z", prop="P04", needs="an endcap that begins at a negative z",
 breaks="its first layer is read as beginning at zero",
 edits=[("src/gearxml/CalorimeterParametersXML.cc", "	if( layerId == 0 )\n", "	if( layerId == 0 && firstLayerDistance > 0. )\n")],
 demo=H + r'''
int main() {
  GearMgrImpl m; CalorimeterParametersImpl* c = new CalorimeterParametersImpl(10, 100, -500, 8, 0.1);
  c->layerLayout().positionLayer(-500, 5, 1, 1, 2); c->layerLayout().addLayer(5, 1, 1, 2); m.setEcalEndcapParameters(c);
  GearMgr* n = trip(&m);
  CHECK(eq(n->getEcalEndcapParameters().getLayerLayout().getDistance(1), -495));
  return 0;
}'''),
dict(id="P04-hundred", prop="P04", needs="a hundred or more equal layers in a row",
 breaks="only the first digits of the repetition count are read",
 edits=[("src/gearxml/CalorimeterParametersXML.cc", 'atoi(  getXMLAttribute( layer , "repeat" ) .c_str() ) ;', 'atoi(  getXMLAttribute( layer , "repeat" ).substr( 0, 2 ).c_str() ) ;')],
 demo=H + r'''
int main() {
  GearMgrImpl m; CalorimeterParametersImpl* c = new CalorimeterParametersImpl(10, 100, 500, 8, 0.1);
  c->layerLayout().positionLayer(500, 5, 1, 1, 2); for (int i = 0; i < 119; ++i) c->layerLayout().addLayer(5, 1, 1, 2); m.setEcalEndcapParameters(c);
  GearMgr* n = trip(&m);
  CHECK(n->getEcalEndcapParameters().getLayerLayout().getNLayers() == 120);
  return 0;
}'''),
dict(id="P07-type-case", prop="P07", needs="a detector whose declared type differs from a known one in the case of its letters",
 breaks="the unknown type is accepted",
 edits=[("src/gearxml/XMLHandlerMgr.cc", "    return _map[ type ] ;\n", '''    for( XMLHandlerMap::iterator it = _map.begin() ; it != _map.end() ; ++it ) {
      if( it->first.size() != type.size() ) continue ;
      unsigned i = 0 ;
      while( i < type.size() && tolower( it->first[i] ) == tolower( type[i] ) ) ++i ;
      if( i == type.size() ) return it->second ;
    }
    return 0 ;
''')],
 demo=H + r'''
#include <fstream>
int main() {
  { std::ofstream a("a.xml"); a << "<gear><detectors><detector name=\"x\" geartype=\"gearparameters\"><parameter name=\"p\" type=\"int\" value=\"4\"/></detector></detectors></gear>"; }
  GearXML x("a.xml"); bool refused = false; try { x.createGearMgr(); } catch (ParseException&) { refused = true; }
  CHECK(refused);
  return 0;
}'''),
dict(id="P07-border-value", prop="P07", needs="a TPC module with a border element that lacks its value",
 breaks="the missing mandatory attribute is taken as zero",
 edits=[("src/gearxml/TPCModuleXML.cc", 'atof( getXMLAttribute( borderWidthElement , "value"  ).c_str() )', 'atof( getOptionalXMLAttribute( borderWidthElement , "value" , "0" ).c_str() )')],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
#include <fstream>
int main() {
  GearMgrImpl m; TPCParametersImpl* t = new TPCParametersImpl(1000, PadRowLayout2D::CARTESIAN);
  for (int i = 0; i < 2; ++i) { RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
    TPCModuleImpl* a = new TPCModuleImpl(4 + i, l, PadRowLayout2D::CARTESIAN, 2); a->setOffset(7 + 20 * i, 0); t->addModule(a); }
  m.setTPCParameters(t);
  GearXML::createXMLFile(&m, "a.xml");
  std::ifstream in("a.xml"); std::stringstream s; s << in.rdbuf(); std::string d = s.str();
  std::string::size_type p = d.find("<enlargeActiveAreaBy "); CHECK(p != std::string::npos);
  p = d.find("value", p); d.replace(p, 5, "valve");
  { std::ofstream o("b.xml"); o << d; }
  GearXML x("b.xml"); bool refused = false; try { x.createGearMgr(); } catch (ParseException&) { refused = true; }
  CHECK(refused);
  return 0;
}'''),
dict(id="P06-z-zero", prop="P06", needs="a module whose z position is set to exactly zero",
 breaks="the position is not written, so that the module has none (and belongs to both halves) when read",
 edits=[("src/gearxml/TPCModuleXML.cc", "      tpcModuleXML.InsertEndChild(zPositionElement);\n", "      if( module->getZPosition() != 0. ) tpcModuleXML.InsertEndChild(zPositionElement);\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  GearMgrImpl m; TPCParametersImpl* t = new TPCParametersImpl(1000, PadRowLayout2D::CARTESIAN);
  for (int i = 0; i < 2; ++i) { RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
    TPCModuleImpl* a = new TPCModuleImpl(4 + i, l, PadRowLayout2D::CARTESIAN, 2); a->setOffset(7 + 20 * i, 0); a->setZPosition(0); t->addModule(a); }
  m.setTPCParameters(t);
  GearMgr* n = trip(&m);
  bool has = true; try { CHECK(n->getTPCParameters().getModule(5).getZPosition() == 0); } catch (Exception&) { has = false; }
  CHECK(has);
  return 0;
}'''),
dict(id="P03-name-in-two-kinds", prop="P03", needs="one name used for an integer and for a list of integers of the same section",
 breaks="the list is not written",
 edits=[("src/gearxml/GearParametersXML.cc", "    for(unsigned int i=0 ; i < intVecKeys.size() ; ++i ){\n", "    for(unsigned int i=0 ; i < intVecKeys.size() ; ++i ){\n\n      if( std::find( intKeys.begin(), intKeys.end(), intVecKeys[i] ) != intKeys.end() ) continue ;\n")],
 demo=H + r'''
int main() {
  GearMgrImpl m; GearParametersImpl* p = new GearParametersImpl; p->setIntVal("k", 1); p->setIntVals("k", {2, 3}); m.setGearParameters("s", p);
  GearMgr* n = trip(&m);
  bool has = true; try { CHECK(n->getGearParameters("s").getIntVals("k").size() == 2); } catch (Exception&) { has = false; }
  CHECK(has);
  return 0;
}'''),
dict(id="P11-repeat-count", prop="P11", needs="copying a rectangular layout whose rows have been repeated, and repeating the rows of the copy again",
 breaks="the copy repeats its rows a second time, the original does not",
 edits=[("src/gearimpl/RectangularPadRowLayout.cc", "      _repeatRows = right._repeatRows;\n", "      _repeatRows = 0;\n")],
 demo=H + r'''
int main() {
  RectangularPadRowLayout l(0, 10, 0); l.addRow(2, 5, 2, 4); l.repeatRows(2);
  RectangularPadRowLayout c(l); c.repeatRows(3); l.repeatRows(3);
  CHECK(c.getNRows() == l.getNRows());
  return 0;
}'''),
dict(id="P12-mirror-distance", prop="P12", needs="the distance to a pad asked on a module of the negative half, in a polar TPC",
 breaks="the point is mirrored at the wrong axis",
 edits=[("src/gearimpl/TPCModuleImpl.cc", "	      // this is the angle corresponding a mirroring at the y axis\n	      c1 = M_PI - c1; \n", "	      // this is the angle corresponding a mirroring at the y axis\n	      c1 = ( c1 < 2*M_PI ) ? M_PI - c1 : -c1; \n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  FixedPadAngleDiskLayout* l = new FixedPadAngleDiskLayout(100, 200, 10, 0.2, 1.2, 10);
  TPCModuleImpl a(4, l, PadRowLayout2D::POLAR, 2); a.setZPosition(-100); a.setAngle(0.3);
  Vector2D p = a.getPadCenter(a.getPadIndex(3, 4));
  Vector2D q = a.globalToLocal(p[0], p[1] + 2 * M_PI), r = a.globalToLocal(p[0], p[1]);
  CHECK(eq(std::cos(q[1]), std::cos(r[1])) && eq(std::sin(q[1]), std::sin(r[1])));
  return 0;
}'''),
dict(id="P13-edge-foot", prop="P13", needs="a sector placed with an offset such that the origin lies beside it and the foot on its edge is between the radii",
 breaks="the smallest radius is taken from the corners only",
 edits=[("src/gearimpl/TPCModuleImpl.cc", "		if ( globalOriginInLocal[0] > localExtent[0] )\n", "		if ( globalOriginInLocal[0] > localExtent[1] )\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  FixedPadAngleDiskLayout* l = new FixedPadAngleDiskLayout(100, 300, 10, 0, 1, 10);
  TPCModuleImpl a(4, l, PadRowLayout2D::POLAR, 2); a.setOffset(206, 2.9);   // the origin is below the edge phi = 0
  Vector2D o = a.globalToLocal(0, 0);
  double foot = std::fabs(o[0] * std::sin(o[1]));
  CHECK(o[0] * std::cos(o[1]) > 100 && o[0] * std::cos(o[1]) < 300);
  CHECK(eq(a.getModuleExtent()[0], foot, 1e-6));
  return 0;
}'''),
dict(id="P14-extent-both-sides", prop="P14", needs="a module that is larger than all before it on both sides of one axis",
 breaks="the plane extent is enlarged on one side only",
 edits=[("src/gearimpl/TPCParametersImpl.cc", "	  if(TPCModule->getModuleExtent().at(3) > _planeExtent.at(3)) {", "	  else if(TPCModule->getModuleExtent().at(3) > _planeExtent.at(3)) {")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  TPCParametersImpl a(1000, PadRowLayout2D::CARTESIAN);
  for (int i = 0; i < 2; ++i) { RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0); l->addRow(2, 5, 2, 4);
    TPCModuleImpl* m = new TPCModuleImpl(4 + i, l, PadRowLayout2D::CARTESIAN, 2); m->setOffset(20 * i, 0); m->setBorderWidth(8 * i); a.addModule(m); }
  CHECK(eq(a.getPlaneExtent()[2], -8)); CHECK(eq(a.getPlaneExtent()[3], 16));
  return 0;
}'''),
dict(id="P15-stack-end", prop="P15", needs="a layer added automatically behind a layer positioned in front of an earlier one",
 breaks="the layer starts at the far end of the stack, not where the previous one ends",
 edits=[("src/gearimpl/LayerLayoutImpl.cc", "      l.Distance = _vec.back().Distance + _vec.back().Thickness ;", "      l.Distance = 0.0 ;\n      for( unsigned i = 0 ; i < _vec.size() ; ++i )\n	if( i == 0 || _vec[i].Distance + _vec[i].Thickness > l.Distance ) l.Distance = _vec[i].Distance + _vec[i].Thickness ;")],
 demo=H + r'''
#include "gearimpl/LayerLayoutImpl.h"
int main() {
  LayerLayoutImpl l; l.positionLayer(50, 3, 1, 1, 1); l.positionLayer(10, 2, 1, 1, 1); l.addLayer(2, 1, 1, 1);
  CHECK(eq(l.getDistance(2), 12));
  return 0;
}'''),
dict(id="P19-id-sign", prop="P19", needs="two surfaces whose identifiers differ in the sign bit only",
 breaks="they are taken for the same surface",
 edits=[("src/gearsurf/MeasurementSurfaceStore.cc", "    int ID = ms->getID();\n", "    int ID = ms->getID() & 0x7fffffff;\n"), ("src/gearsurf/MeasurementSurfaceStore.cc", "_measurement_surface_map.find(ID) ;        \n", "_measurement_surface_map.find(ID & 0x7fffffff) ;        \n")],
 demo=H + r'''
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
struct F : MeasurementSurfaceStoreFiller { std::string getName() const { return "f"; } void getMeasurementSurfaces(std::vector<MeasurementSurface*>& v) const {
  for (int id : {5, int(0x80000005)}) v.push_back(new MeasurementSurface(id, new CartesianCoordinateSystem(CLHEP::Hep3Vector(id & 7, 0, 0), CLHEP::HepRotation()))); } };
int main() {
  MeasurementSurfaceStore s; F f; try { s.FillStore(&f); } catch (Exception&) { CHECK(false); }
  CHECK(const_cast<MeasurementSurface*>(s.GetMeasurementSurface(5))->getID() == 5); CHECK(const_cast<MeasurementSurface*>(s.GetMeasurementSurface(int(0x80000005)))->getID() == int(0x80000005));
  return 0;
}'''),
dict(id="P20-tiny-unit", prop="P20", needs="the unit vector of a very short vector",
 breaks="the zero vector is returned",
 edits=[("include/gear/gearimpl/Vector3D.h", "    return Vector3D( _x / n , _y / n , _z / n ) ;\n", "    if( n < 1e-6 ) return Vector3D() ;\n    return Vector3D( _x / n , _y / n , _z / n ) ;\n")],
 demo=H + r'''
int main() { Vector3D v(3e-8, 0, 4e-8); CHECK(eq(v.unit().r(), 1)); return 0; }'''),
dict(id="P21-nearly-fits", prop="P21", needs="a row of a fixed-pad-size layout in which one pad more would miss by less than a ten-thousandth of a pad",
 breaks="the pad that does not fit is counted",
 edits=[("src/gearimpl/FixedPadSizeDiskLayout.cc", "std::floor( u / (_padWidth + padGap )  )", "std::floor( u / (_padWidth + padGap ) + 1e-4 )")],
 demo=H + r'''
int main() {
  // one row at radius 100, a sector of 1 rad: 100 mm, pads of 100.005 / 10
  FixedPadSizeDiskLayout l(95, 105, 10, 10.00005, 1, 0, 1.0);
  CHECK(l.getNPads() == 9);
  return 0;
}'''),
dict(id="P23-float-key", prop="P23", needs="two requests whose limits differ by less than single precision",
 breaks="the second request gets the map of the first one",
 edits=[("src/geartgeo/MaterialMapFactory.cc", "    gridV.assign(gridA,gridA+10);\n", "    gridV.assign(gridA,gridA+10);\n    for(unsigned i=0;i<gridV.size();++i) gridV[i]=float(gridV[i]);\n")],
 demo=H + MAT + r'''
int main() {
  GearMgrImpl m; m.setDistanceProperties(new D);
  MaterialMapFactory f(&m);
  CHECK(f.createMaterialMap(0, 1, 1, 0, 1, 1, 0, 1, 1, MaterialMap::CARTESIAN) != f.createMaterialMap(0, 1 + 1e-9, 1, 0, 1, 1, 0, 1, 1, MaterialMap::CARTESIAN));
  return 0;
}'''),
dict(id="P09-late-rows", prop="P09", needs="a rectangular layout with more than 32767 rows",
 breaks="the rows beyond cannot be found from the pad index",
 edits=[("src/gearimpl/RectangularPadRowLayout.cc", "    int rn = ( 0xffff0000 & padIndex ) >> 16 ; \n", "    int rn = padIndex >> 16 ; \n")],
 demo=H + r'''
int main() {
  RectangularPadRowLayout l(0, 10); l.addRow(33000, 2, 1, 1);
  int i = l.getPadIndex(32900, 1); try { CHECK(l.getRowNumber(i) == 32900); CHECK(l.getPadNumber(i) == 1); } catch (std::exception&) { CHECK(false); }
  return 0;
}'''),
dict(id="P10-far-turns", prop="P10", needs="a point given two turns or more ahead, on a fixed pad angle layout",
 breaks="the nearest pad is looked for at an angle outside of the circle",
 edits=[("src/gearimpl/FixedPadAngleDiskLayout.cc", '''in polar coordinates!" );

    double phiMean = (_phiMax+_phiMin)/2.;

    // wrap phi to a symmetric range of 2*pi around the mean angle of the module
    while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
    while( phi > phiMean+M_PI )''', '''in polar coordinates!" );

    double phiMean = (_phiMax+_phiMin)/2.;

    // wrap phi to a symmetric range of 2*pi around the mean angle of the module
    while( phi < phiMean-M_PI ) {  phi += 2. * M_PI  ; }
    if( phi > phiMean+M_PI )''')],
 demo=H + r'''
#include "gearimpl/FixedPadAngleDiskLayout.h"
int main() {
  FixedPadAngleDiskLayout l(100, 200, 10, 0, 1, 10);
  CHECK(l.getNearestPad(155, .75 + 4 * M_PI) == l.getPadIndex(5, 7));
  return 0;
}'''),
dict(id="P16-side-zero", prop="P16", needs="a detector without a gap and a point in a ladder at z exactly zero",
 breaks="the sensor of such a point is reported on the negative side",
 edits=[("src/gearimpl/ZPlanarParametersImpl.cc", "( p.z() >= 0.  ?  +1  :  -1  )", "( p.z() > 0.  ?  +1  :  -1  )")],
 demo=H + r'''
int main() {
  ZPlanarParametersImpl z(ZPlanarParameters::CCD, 0, 0, 0, 0, 0);
  z.addLayer(4, 0, 10, 0, 1, 20, 50, 0.1, 11, 0, 1, 20, 50, 0.1);
  const ZPlanarParameters& b = z; SensorID s; const Vector3D n(11.5, 0, 0);
  CHECK(b.isPointInSensitive(n, &s)); CHECK(s.side == 1);
  return 0;
}'''),
dict(id="P22-empty-text", prop="P22", needs="a text parameter that is empty",
 breaks="it is left out when its parameters are printed",
 edits=[("src/gearimpl/Util.cc", '''      s << std::endl  << "    [string]    "''', '''      if( p.getStringVal( sKeys[i] ).size() ) s << std::endl  << "    [string]    "''')],
 demo=H + r'''
int main() {
  GearParametersImpl p; p.setStringVal("comment", ""); p.setStringVal("other", "x"); std::ostringstream s; s << p;
  CHECK(s.str().find("other") != std::string::npos); CHECK(s.str().find("comment") != std::string::npos);
  return 0;
}'''),
dict(id="P24-density-by-name", prop="P24", needs="two materials that have the same name but different densities",
 breaks="the density of the first one asked for is kept for the other",
 edits=[("src/geartgeo/TGeoGearPointProperties.cc", "      density=node->GetMedium()->GetMaterial()->GetDensity();\n", "      {\n        static std::string name ; static double known = 0 ;\n        if( known == 0 || name != node->GetMedium()->GetMaterial()->GetName() ){\n          name = node->GetMedium()->GetMaterial()->GetName() ; known = node->GetMedium()->GetMaterial()->GetDensity() ;\n        }\n        density = known ;\n      }\n")],
 files=TG, demo=TGH + r'''
int main() {
  TGeoMaterial m = mat("gas", 1, 1), n = mat("gas", 1, 1), w = mat("air", 1, 1); m.de = 3; n.de = 5; w.de = 1;
  GearPointProperties* d = geo({box(-1, -10, 10, 0, "w", "w"), box(0, 2, 4, 1, "a", "a"), box(0, 6, 8, 2, "b", "b")}, {w, m, n})->getGearPointProperties();
  CHECK(d->getDensity(Vector3D(3, 1, 1)) == 3); CHECK(d->getDensity(Vector3D(7, 1, 1)) == 5); CHECK(d->getDensity(Vector3D(1, 1, 1)) == 1);
  return 0;
}'''),
dict(id="P08-empty-attribute", prop="P08", needs="an attribute that is empty in the dominant file", breaks="the value of the other file is taken",
 edits=[("src/gearxml/MergeXML.cc", "	if( domAttribute == NULL && !", "	if( ( domAttribute == NULL || ! *domAttribute ) && !")],
 demo=H + r'''
#include "gearxml/MergeXML.h"
#include <fstream>
int main() {
  { std::ofstream a("a.xml"); a << "<gear><global detectorName=\"A\"/><detectors><detector name=\"x\" geartype=\"GearParameters\" note=\"n\"><parameter name=\"p\" type=\"int\" value=\"4\"/></detector></detectors></gear>";
    std::ofstream b("b.xml"); b << "<gear><global detectorName=\"B\"/><detectors><detector name=\"x\" geartype=\"GearParameters\" note=\"\"><parameter name=\"p\" type=\"int\" value=\"5\"/></detector></detectors></gear>"; }
  MergeXML m; CHECK(m.setFile1("a.xml")); CHECK(m.setFile2("b.xml")); m.makeDominant(2); CHECK(m.mergeFiles("c.xml"));
  std::ifstream in("c.xml"); std::stringstream s; s << in.rdbuf();
  CHECK(s.str().find("note=\"\"") != std::string::npos);
  return 0;
}'''),
]
