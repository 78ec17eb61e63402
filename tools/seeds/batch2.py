exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = [")[0])
SURF = H + r'''
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/MeasurementSurfaceStore.h"
'''
SEEDS = [
dict(id="P07-type-kept", prop="P07", needs="a detector without a declared type behind one that has a type",
 breaks="a detector that declares no type is read with the type of the detector before it instead of being ignored",
 edits=[("src/gearxml/GearXML.cc", '''    TiXmlNode* det = 0 ;
    while( ( det = detectors->IterateChildren( "detector", det ) )  != 0  ){
''', '''    TiXmlNode* det = 0 ;
    std::string type ;
    while( ( det = detectors->IterateChildren( "detector", det ) )  != 0  ){
'''), ("src/gearxml/GearXML.cc", '''      std::string type("UNKOWN") ;

''', ''), ("src/gearxml/GearXML.cc", '''	type  =  getXMLAttribute( det, "geartype" )  ;
''', '''	if( type.empty() || det->ToElement()->Attribute( "geartype" ) )
	  type  =  getXMLAttribute( det, "geartype" )  ;
''')],
 demo=H + r'''
#include <fstream>
int main() {
  { std::ofstream f("a.xml"); f << "<gear><detectors><detector name=\"A\" geartype=\"GearParameters\"><parameter name=\"x\" type=\"int\" value=\"1\"/></detector>"
      "<detector name=\"B\"><parameter name=\"x\" type=\"int\" value=\"2\"/></detector></detectors></gear>"; }
  GearXML x("a.xml"); GearMgr* m = x.createGearMgr();
  CHECK(m->getGearParameterKeys().size() == 1); CHECK(m->getGearParameterKeys()[0] == "A");
  { std::ofstream f("b.xml"); f << "<gear><detectors><detector name=\"B\"><parameter name=\"x\" type=\"int\" value=\"2\"/></detector>"
      "<detector name=\"A\" geartype=\"GearParameters\"><parameter name=\"x\" type=\"int\" value=\"1\"/></detector></detectors></gear>"; }
  GearXML y("b.xml"); CHECK(y.createGearMgr()->getGearParameterKeys().size() == 1);
  return 0;
}'''),
dict(id="P09-ring-of-plane", prop="P09", needs="a versatile disk layout with a row that closes the circle and a row that does not",
 breaks="the last pad of an open row gets the first pad of the row as its left neighbour when another row closes the circle",
 edits=[("src/gearimpl/VersatileDiskRowLayout.cc", '''	if (fabs(_rows[rn].getPhiMax() - _rows[rn].getPhiMin() - 2*M_PI) < 1e-6 )
	    pn = 0 ;
''', '''	if (fabs(_extent[3] - _extent[2] - 2*M_PI) < 1e-6 )
	    pn = 0 ;
''')],
 demo=H + r'''
#include "gearimpl/VersatileDiskRowLayout.h"
int main() {
  VersatileDiskRowLayout l(100.);
  l.addRow(8, 105. * 2 * M_PI / 8, 10.); l.addRow(4, 20., 10.);
  CHECK(l.getLeftNeighbour(l.getPadIndex(0, 7)) == l.getPadIndex(0, 0)); CHECK(l.getRightNeighbour(l.getPadIndex(0, 0)) == l.getPadIndex(0, 7));
  CHECK(l.getLeftNeighbour(l.getPadIndex(1, 2)) == l.getPadIndex(1, 3));
  try { l.getLeftNeighbour(l.getPadIndex(1, 3)); CHECK(false); } catch (Exception&) {}
  return 0;
}'''),
dict(id="P10-outer-corner", prop="P10", needs="a fixed-pad-size disk layout over part of the circle with rows of different numbers of pads and a point behind the end of the range, beyond the outer radius",
 breaks="the nearest pad of a point behind the outer corner is not the last pad of the last row but one before it",
 edits=[("src/gearimpl/FixedPadSizeDiskLayout.cc", '''	  //std::cout << "r > _rMax * cos(phi - _phiMax) && phi > _phiMax" << std::endl;
	  
	  rowNum = _nRow - 1;
	  padNum = _rows[ rowNum ].NPad  - 1 ;
''', '''	  //std::cout << "r > _rMax * cos(phi - _phiMax) && phi > _phiMax" << std::endl;
	  
	  padNum = _rows[ rowNum ].NPad  - 1 ;
	  rowNum = _nRow - 1;
''')],
 demo=H + r'''
int main() {
  FixedPadSizeDiskLayout l(100., 160., 20., 10., 3, 0., 1.5);
  int n = l.getPadsInRow(2).size(); CHECK(n > (int) l.getPadsInRow(0).size());
  CHECK(l.getNearestPad(180., 1.52) == l.getPadIndex(2, n - 1)); CHECK(l.getNearestPad(180., 1.49) == l.getPadIndex(2, n - 1));
  CHECK(l.getNearestPad(180., -.02) == l.getPadIndex(2, 0));
  return 0;
}'''),
dict(id="P10-box-corner", prop="P10", needs="a point right of and below a pad of a rectangular layout",
 breaks="the distance to a pad is wrong in one of the four corner regions around it when the pad is higher than wide",
 edits=[("src/gearimpl/RectangularPadRowLayout.cc", '''	d = sqrt( (xmax-x) * (xmax-x) + (ymin-y) * (ymin-y) ) ;
''', '''	d = ( ymax - ymin > xmax - xmin ) ? ( x - xmax ) + ( ymin - y ) : sqrt( (xmax-x) * (xmax-x) + (ymin-y) * (ymin-y) ) ;
''')],
 demo=H + r'''
int main() {
  RectangularPadRowLayout l(0., 20.); l.addRow(2, 10, 2., 6.); l.addRow(1, 4, 5., 3.);
  CHECK(eq(l.getDistanceToPad(13., 2., l.getPadIndex(1, 4)), 5.)); CHECK(eq(l.getDistanceToPad(13., 16., l.getPadIndex(1, 4)), 5.));
  CHECK(eq(l.getDistanceToPad(5., 16., l.getPadIndex(1, 4)), 5.)); CHECK(eq(l.getDistanceToPad(5., 2., l.getPadIndex(1, 4)), 5.));
  CHECK(eq(l.getDistanceToPad(8., 8., l.getPadIndex(2, 0)), 5.));
  return 0;
}'''),
dict(id="P11-cathode-of-copy", prop="P11", needs="copying a TPC with modules on one half only and asking the copy in space",
 breaks="the copy of a TPC takes its cathode from the drift length it had before the copy",
 edits=[("src/gearimpl/TPCParametersImpl.cc", '''	_maxDriftLength = right._maxDriftLength;
	_coordinateType = right._coordinateType;
''', '''	_cathodePosition = 0.;
	setCathodePosition();
	_maxDriftLength = right._maxDriftLength;
	_coordinateType = right._coordinateType;
'''), ("src/gearimpl/TPCParametersImpl.cc", "	_cathodePosition = right._cathodePosition;\n", "")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  TPCParametersImpl a(500., PadRowLayout2D::CARTESIAN), b(20., PadRowLayout2D::CARTESIAN);
  auto* l = new RectangularPadRowLayout(0., 20.); l->addRow(2, 10, 2., 6.);
  auto* m = new TPCModuleImpl(3, l, PadRowLayout2D::CARTESIAN); m->setZPosition(1000.); a.addModule(m);
  TPCParametersImpl c(10., PadRowLayout2D::CARTESIAN); c = a;
  CHECK(a.isInsideModule(5., 5., 700.)); CHECK(c.isInsideModule(5., 5., 700.)); CHECK(!a.isInsideModule(5., 5., 400.)); CHECK(!c.isInsideModule(5., 5., 400.));
  return 0;
}'''),
dict(id="P12-mirror-at-zero", prop="P12", needs="a module at z position exactly 0",
 breaks="the way back from global to local is not mirrored for a module at z = 0 although the way there is",
 edits=[("src/gearimpl/TPCModuleImpl.cc", "	if ( _zPosition <= 0 ) // 0 is also part of the negative half TPC\n", "	if ( _zPosition < 0 )\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  auto* l = new RectangularPadRowLayout(0., 20.); l->addRow(2, 10, 2., 6.);
  TPCModuleImpl m(3, l, PadRowLayout2D::CARTESIAN); m.setOffset(5., 7.); m.setAngle(.3); m.setZPosition(0.);
  Vector2D g = m.localToGlobal(3., 4.), b = m.globalToLocal(g[0], g[1]);
  CHECK(eq(b[0], 3.)); CHECK(eq(b[1], 4.));
  m.setZPosition(-1.); g = m.localToGlobal(3., 4.); b = m.globalToLocal(g[0], g[1]); CHECK(eq(b[0], 3.));
  return 0;
}'''),
dict(id="P13-rotated-corner", prop="P13", needs="a rectangular module that is turned so that its far corner is the extreme one",
 breaks="the extent of a turned rectangular module leaves out its far corner",
 edits=[("src/gearimpl/TPCModuleImpl.cc", '''	edges[2] = localToGlobal(localExtent[1],localExtent[3] ); // xMax, yMax

	
''', '''	edges[2] = ( _angle < M_PI/2 ? edges[1] : localToGlobal(localExtent[1],localExtent[3] ) ); // xMax, yMax

	
''')],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  for (double a : {0., .2, 1., 2., 4., 6.}) {
    auto* l = new RectangularPadRowLayout(0., 20.); l->addRow(2, 10, 2., 6.);
    TPCModuleImpl m(3, l, PadRowLayout2D::CARTESIAN); m.setOffset(5., 7.); m.setAngle(a); m.setZPosition(5.);
    Vector2D g = m.localToGlobal(20., 12.); auto e = m.getModuleExtent();
    CHECK(e[0] <= g[0] + 1e-9 && g[0] <= e[1] + 1e-9 && e[2] <= g[1] + 1e-9 && g[1] <= e[3] + 1e-9);
  }
  return 0;
}'''),
dict(id="P13-polar-distance", prop="P13", needs="a polar module and a point behind the end of its angular range whose foot on that edge lies beyond the outer radius",
 breaks="the distance to a polar module is wrong for points behind its outer corner on one side",
 edits=[("src/gearimpl/TPCModuleImpl.cc", "			distance_phiMax = hypot( r_intersect_phiMax - _localModuleExtent[1], m_phiMax );\n",
   "			distance_phiMax = hypot( r_intersect_phiMin - _localModuleExtent[1], m_phiMax );\n")],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  auto* l = new FixedPadAngleDiskLayout(100., 160., 3, 0., 1., 5);
  TPCModuleImpl m(3, l, PadRowLayout2D::POLAR); m.setZPosition(5.);
  CHECK(eq(m.getDistanceToModule(200., 1.2), std::hypot(200 * std::cos(.2) - 160, 200 * std::sin(.2))));
  CHECK(eq(m.getDistanceToModule(200., 2 * M_PI - .2), std::hypot(200 * std::cos(.2) - 160, 200 * std::sin(.2))));
  CHECK(eq(m.getDistanceToModule(150., 1.2), 150 * std::sin(.2)));
  return 0;
}'''),
dict(id="P14-nearest-of-three", prop="P14", needs="at least three modules, the second one nearer than the first and the third between them",
 breaks="the nearest pad is compared with that of the first module only, so that the last module nearer than the first wins",
 edits=[("src/gearimpl/TPCParametersImpl.cc", '''			closest_pad = temp_pad;
			shortest_distance = distance;
''', '''			closest_pad = temp_pad;
			if( distance <= 0. ) break;
''')],
 demo=H + r'''
#include "gearimpl/TPCModuleImpl.h"
int main() {
  TPCParametersImpl t(500., PadRowLayout2D::CARTESIAN);
  double x[3] = {-300., 0., -100.};
  for (int i = 0; i < 3; ++i) { auto* l = new RectangularPadRowLayout(0., 20.); l->addRow(2, 10, 2., 6.); auto* m = new TPCModuleImpl(i, l, PadRowLayout2D::CARTESIAN); m->setOffset(x[i], 0.); m->setZPosition(1000.); t.addModule(m); }
  CHECK(t.getNearestPad(5., 5.).getModuleID() == 1); CHECK(t.getNearestPad(25., 5.).getModuleID() == 1); CHECK(t.getNearestPad(25., 5., 900.).getModuleID() == 1);
  CHECK(t.getNearestPad(-80., 5.).getModuleID() == 2);
  return 0;
}'''),
dict(id="P16-end-behind-gap", prop="P16", needs="a detector with a gap and a point in the last half gap of a sensitive volume",
 breaks="points at the far end of a sensitive volume are not found when there is a gap at the centre",
 edits=[("src/gearimpl/ZPlanarParametersImpl.cc", "	  ||( ( sensitive ) && ( fabs( p[2] ) > (_layer.getSensitiveLength( possibleLayer ) + _shellGap/2 + _EPSILON ) ) ) ) {",
  "	  ||( ( sensitive ) && ( fabs( p[2] ) > (_layer.getSensitiveLength( possibleLayer ) + _EPSILON ) ) ) ) {")],
 demo=H + r'''
int main() {
  ZPlanarParametersImpl z(ZPlanarParameters::CCD, 10., 80., 150., 8., .1);
  z.addLayer(6, 0., 20., 0., .5, 100., 10., .1, 20.5, 0., .3, 100., 10., .1);
  const ZPlanarParameters& r = z;
  CHECK(r.isPointInSensitive(Vector3D(20.6, 0., 50.))); CHECK(r.isPointInSensitive(Vector3D(20.6, 0., 103.))); CHECK(!r.isPointInSensitive(Vector3D(20.6, 0., 105.)));
  CHECK(!r.isPointInSensitive(Vector3D(20.6, 0., 2.))); CHECK(r.isPointInLadder(Vector3D(20.3, 0., -103.)));
  return 0;
}'''),
dict(id="P17-side-face", prop="P17", needs="a sensitive volume whose offset differs from that of its ladder, and a point nearest to its right side face",
 breaks="the vector to the nearest sensitive volume leads to where its side face would be with the offset of the ladder",
 edits=[("src/gearimpl/ZPlanarParametersImpl.cc", '''	  if( (sensitive) and ( j == 2 ) ) {
	    d = _layer.getSensitiveWidth( nearestLayer ) / 2 - _layer.getSensitiveOffset( nearestLayer ) ;
''', '''	  if( (sensitive) and ( j == 2 ) ) {
	    d = _layer.getSensitiveWidth( nearestLayer ) / 2 - _layer.getLadderOffset( nearestLayer ) ;
''')],
 demo=H + r'''
int main() {
  ZPlanarParametersImpl z(ZPlanarParameters::CCD, 10., 80., 150., 0., .1);
  z.addLayer(1, 0., 20., -2., 2., 100., 14., .1, 20.5, 0., 1., 100., 10., .1);
  Vector3D v = z.distanceToNearestSensitive(Vector3D(21., 8., 50.)), w = z.distanceToNearestSensitive(Vector3D(21., -8., 50.));
  CHECK(eq(v.r(), 3.)); CHECK(eq(w.r(), 3.));
  Vector3D u = z.distanceToNearestSensitive(Vector3D(21., 5.5, 50.)); CHECK(eq(u.r(), .5)); CHECK(eq(u.y(), -.5));
  u = z.distanceToNearestSensitive(Vector3D(21., 6.9, 50.)); CHECK(eq(u.r(), 1.9)); CHECK(eq(u.y(), -1.9));
  u = z.distanceToNearestSensitive(Vector3D(21., -6.9, 50.)); CHECK(eq(u.r(), 1.9)); CHECK(eq(u.y(), 1.9));
  return 0;
}'''),
dict(id="P19-trapezoid-turn", prop="P19", needs="a turned trapezoid and a point near its upper or lower end",
 breaks="the height of a turned trapezoid is checked before the point is turned into its frame",
 edits=[("src/gearsurf/BoundaryTrapezoid.cc", '''    if( fabs( local.z() ) > _deltaW ) return false;
''', '''    if( fabs( local.z() ) > _deltaW ) return false;
    if( fabs( local.y() ) > _height/2. ) return false;
'''), ("src/gearsurf/BoundaryTrapezoid.cc", '''    local = R * local; //to rectangle system
    
    if( fabs( local.y() ) > _height/2. ) return false;
''', '''    local = R * local; //to rectangle system
''')],
 demo=SURF + r'''
int main() {
  BoundaryTrapezoid t(20., 10., 30., .5, M_PI / 2);
  CHECK(t.isInBoundary(CLHEP::Hep3Vector(10., 0., 0.))); CHECK(t.isInBoundary(CLHEP::Hep3Vector(14., 0., 0.))); CHECK(!t.isInBoundary(CLHEP::Hep3Vector(17., 0., 0.))); CHECK(!t.isInBoundary(CLHEP::Hep3Vector(0., 12., 0.)));
  BoundaryTrapezoid s(20., 10., 30., .5, 0.);
  CHECK(s.isInBoundary(CLHEP::Hep3Vector(0., 14., 0.))); CHECK(!s.isInBoundary(CLHEP::Hep3Vector(0., 17., 0.)));
  return 0;
}'''),
dict(id="P20-index-alters", prop="P20", needs="writing through an index out of range of a three-vector",
 breaks="writing to an index beyond the third component changes the third one",
 edits=[("include/gear/gearimpl/Vector3D.h", '''    case 2: return _z ; break ;
    }
    static double dummy(0.0) ;
    return dummy ;
''', '''    }
    return i < 0 ? _x : _z ;
''')],
 demo=H + r'''
int main() {
  Vector3D v(1., 2., 3.); v[2] = 5.; CHECK(v.z() == 5.); v[0] = 7.; CHECK(v.x() == 7.); v[1] = 8.; CHECK(v.y() == 8.);
  v[3] = 9.; v[-1] = 9.; CHECK(v.x() == 7. && v.y() == 8. && v.z() == 5.);
  return 0;
}'''),
dict(id="P21-repeat-offsets", prop="P21", needs="repeating the rows of a rectangular layout one of which has different offsets on its two sides",
 breaks="in repeated rows the offsets of the two sides are exchanged",
 edits=[("src/gearimpl/RectangularPadRowLayout.cc", "		r.Height , r.LeftOffset, r.RightOffset ) ;", "		r.Height , r.RightOffset, r.LeftOffset ) ;")],
 demo=H + r'''
int main() {
  RectangularPadRowLayout l(0., 20.); l.addRow(1, 5, 2., 6., 0., 2., 1.); l.addRow(1, 6, 2., 6.); l.repeatRows(3);
  CHECK(l.getNRows() == 6);
  for (int r = 0; r < 6; ++r) CHECK(eq(l.getPadCenter(l.getPadIndex(r, 0))[0], l.getPadCenter(l.getPadIndex(r % 2, 0))[0]));
  CHECK(eq(l.getPadCenter(l.getPadIndex(4, 0))[0], 2. + 17. / 10));
  return 0;
}'''),
dict(id="P21-pads-per-row", prop="P21", needs="a fixed-pad-size disk layout over part of the circle in which the pads fit exactly or nearly into a row",
 breaks="the gap between the pads is not counted for the first row",
 edits=[("src/gearimpl/FixedPadSizeDiskLayout.cc", "      row.NPad = static_cast<int>( std::floor( u / (_padWidth + padGap )  ) );", "      row.NPad = static_cast<int>( std::floor( u / ( i ? _padWidth + padGap : _padWidth )  ) );")],
 demo=H + r'''
int main() {
  FixedPadSizeDiskLayout l(100., 160., 20., 10., 3, 1., 1.5);
  for (int r = 0; r < 3; ++r) CHECK((int) l.getPadsInRow(r).size() == (int) std::floor((110. + 20 * r) * 1.5 / 11.));
  return 0;
}'''),
dict(id="P23-axis-shortcut", prop="P23", needs="a Cartesian map with grid points at x = 0 away from the vertex",
 breaks="grid points with the first coordinate 0 are taken for the vertex",
 edits=[("src/geartgeo/MaterialMap.cc", "		if(final==initial)//no need to go to geometry ", "		if(final==initial || (x==0 && coord==MaterialMap::CARTESIAN))//no need to go to geometry ")],
 demo=H + r'''
#include "gear/GearDistanceProperties.h"
#include "/repo/src/geartgeo/MaterialMap.cc"
struct Dist : GearDistanceProperties {
  std::vector<std::string> n; std::vector<double> t;
  virtual const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return n; }
  virtual const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return t; }
  virtual double getNRadlen(const Vector3D&, const Vector3D& b) const { return b.r(); }
  virtual double getNIntlen(const Vector3D&, const Vector3D& b) const { return 2 * b.r(); }
  virtual double getBdL(const Vector3D&, const Vector3D&) const { return 0; }
  virtual double getEdL(const Vector3D&, const Vector3D&) const { return 0; }
};
int main() {
  GearMgrImpl g; g.setDistanceProperties(new Dist);
  MaterialMap m(&g, -4., 4., 2, -4., 4., 2, -4., 4., 2, MaterialMap::CARTESIAN);
  CHECK(eq(m.getRadiationLength(0., 0., 0.), 0.)); CHECK(eq(m.getRadiationLength(4., 0., 0.), 4.)); CHECK(eq(m.getRadiationLength(0., 4., 0.), 4.)); CHECK(eq(m.getInteractionLength(0., 0., -4.), 8.));
  return 0;
}'''),
]
