H = r'''
#include "gear/GEAR.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/FTDLayerLayoutImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/Util.h"
#include "gearxml/GearXML.h"
#include <iostream>
#include <sstream>
#include <cmath>
#include <cstdio>
using namespace gear;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "wrong: %s\n", #c); return 1; } } while (0)
static bool eq(double a, double b, double t = 1e-6) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
// one trip through a file in the working directory
static GearMgr* trip(GearMgr* m) { GearXML::createXMLFile(m, "trip.xml"); GearXML x("trip.xml"); return x.createGearMgr(); }
'''
SEEDS = [
dict(id="P01-material-replaced", prop="P01", needs="registering a second material under a name that is already taken, and asking for it afterwards",
 breaks="the refused registration of a duplicate material replaces the first one all the same",
 edits=[("src/gearimpl/GearMgrImpl.cc", '''    MatMap::iterator it = _matMap.find( material->getName() ) ;
    
    if( it!= _matMap.end() ){
''', '''    const bool known = ! _matMap.insert( std::make_pair( material->getName(), material ) ).second ;
    
    if( known ){

      _matMap[ material->getName() ] = material ;
'''), ],
 demo=H + r'''
int main() {
  GearMgrImpl m;
  m.registerSimpleMaterial(new SimpleMaterialImpl("Si", 28, 14, 2, 90, 450));
  try { m.registerSimpleMaterial(new SimpleMaterialImpl("Si", 1, 1, 1, 1, 1)); CHECK(false); } catch (Exception&) {}
  CHECK(m.getSimpleMaterial("Si").getA() == 28);
  CHECK(m.getMaterialNames().size() == 1);
  return 0;
}'''),
dict(id="P02-intvec-append", prop="P02", needs="setting an int vector a second time under the same key, the second one shorter",
 breaks="the second vector overwrites only the front of the first one",
 edits=[("src/gearimpl/GearParametersImpl.cc", "    _intVecMap[ key ] = vals ;\n", '''    std::vector<int>& old = _intVecMap[ key ] ;
    if( old.size() < vals.size() ) old.resize( vals.size() ) ;
    for( unsigned i = 0 ; i < vals.size() ; ++i ) old[i] = vals[i] ;
''')],
 demo=H + r'''
int main() {
  GearParametersImpl p;
  p.setIntVals("k", {1, 2, 3}); p.setIntVals("k", {7});
  CHECK(p.getIntVals("k") == std::vector<int>({7}));
  p.setIntVals("k", {4, 5}); CHECK(p.getIntVals("k") == std::vector<int>({4, 5}));
  p.setIntVals("e", {}); CHECK(p.getIntVals("e").empty());
  return 0;
}'''),
dict(id="P03-doublevec-precision", prop="P03", needs="a double vector with at least two values of which a later one has more than six significant digits",
 breaks="only the first value of a double vector is written with full precision",
 edits=[("src/gearxml/GearParametersXML.cc", '''      str << std::scientific << std::setprecision(9) ;
      for(unsigned int j=0 ; j < vec.size() ; ++j ){
	if( j!=0 ) 
	  str << " " ; ''', '''      str << std::scientific << std::setprecision(9) ;
      for(unsigned int j=0 ; j < vec.size() ; ++j ){
	if( j!=0 ) 
	  str << std::setprecision( vec[j] == vec[j-1] ? 9 : 5 ) << " " ; ''')],
 demo=H + r'''
int main() {
  GearMgrImpl m; auto* p = new GearParametersImpl;
  p->setDoubleVals("v", {0.5, 1.23456789, 2.25}); p->setDoubleVal("d", 1.23456789);
  m.setGearParameters("sec", p);
  GearMgr* r = trip(&m);
  CHECK(eq(r->getGearParameters("sec").getDoubleVals("v")[1], 1.23456789, 1e-8));
  CHECK(eq(r->getGearParameters("sec").getDoubleVals("v")[2], 2.25, 1e-8));
  CHECK(eq(r->getGearParameters("sec").getDoubleVal("d"), 1.23456789, 1e-8));
  return 0;
}'''),
dict(id="P04-cell1-late", prop="P04", needs="a calorimeter with four or more layers whose second cell size changes late while both cell sizes were equal before",
 breaks="a late change of the second cell size alone does not start a new group of layers in the file",
 edits=[("src/gearxml/CalorimeterParametersXML.cc", '''	( ! isEqual( curCell1,     layerLayout.getCellSize1(i) )         ) ;
''', '''	( i > 2 && ! isEqual( curCell0, curCell1 ) && ! isEqual( curCell1, layerLayout.getCellSize1(i) ) ) ||
	( i < 3 && ! isEqual( curCell1, layerLayout.getCellSize1(i) ) ) ;
''')],
 demo=H + r'''
int main() {
  GearMgrImpl m; auto* c = new CalorimeterParametersImpl(100., 200., 8, 0.);
  for (int i = 0; i < 5; ++i) c->layerLayout().positionLayer(100. + 2 * i, 2., 10., i < 4 ? 10. : 12., 1.);
  m.setEcalBarrelParameters(c);
  GearMgr* r = trip(&m); const LayerLayout& l = r->getEcalBarrelParameters().getLayerLayout();
  CHECK(l.getNLayers() == 5);
  for (int i = 0; i < 5; ++i) { CHECK(eq(l.getCellSize1(i), i < 4 ? 10. : 12.)); CHECK(eq(l.getCellSize0(i), 10.)); }
  return 0;
}'''),
dict(id="P05-dut-rotation", prop="P05", needs="a telescope with a device under test whose rotation matrix is not symmetric",
 breaks="two entries of the rotation of the device under test are exchanged on writing when they have opposite signs",
 edits=[("src/gearxml/SiPlanesParametersXML.cc", '''      dutsens.SetDoubleAttribute( "rotation2" , siplanesLayers.getDUTSensitiveRotation2() ) ;
''', '''      dutsens.SetDoubleAttribute( "rotation2" , siplanesLayers.getDUTSensitiveRotation1() < 0. ? -siplanesLayers.getDUTSensitiveRotation3() : siplanesLayers.getDUTSensitiveRotation2() ) ;
''')],
 demo=H + r'''
int main() {
  GearMgrImpl m; auto* p = new SiPlanesParametersImpl(1, SiPlanesParameters::TelescopeWithDUT, 1);
  p->addLayer(0, 1,2,3, 4,5,6, 7, 0, 1,2,3, 4,5,6, 10,11, 12,13, 14, 1,0,0,1, 93);
  p->addDUT(5, 1,2,3, 4,5,6, 7, 6, 1,2,3, 4,5,6, 10,11, 12,13, 14, -.6, .8, .5, .25, 93);
  m.setSiPlanesParameters(p);
  GearMgr* r = trip(&m); const SiPlanesLayerLayout& a = p->getSiPlanesLayerLayout(); const SiPlanesLayerLayout& b = r->getSiPlanesParameters().getSiPlanesLayerLayout();
  CHECK(eq(a.getDUTSensitiveRotation1(), b.getDUTSensitiveRotation1()));
  CHECK(eq(a.getDUTSensitiveRotation2(), b.getDUTSensitiveRotation2()));
  CHECK(eq(a.getDUTSensitiveRotation3(), b.getDUTSensitiveRotation3()));
  CHECK(eq(a.getDUTSensitiveRotation4(), b.getDUTSensitiveRotation4()));
  return 0;
}'''),
dict(id="P06-diskgap", prop="P06", needs="a disk layout with a single row and a gap between the pads, written and read again",
 breaks="the gap between the pads of a layout with a single row is lost on reading",
 edits=[("src/gearxml/FixedPadSizeDiskLayoutXML.cc", '''    try {
      phiMax = ''', '''    try {
      if( layout->ToElement() && maxRow == 1 ) padGap = 0. ;
      phiMax = ''')],
 demo=H + r'''
int main() {
  GearMgrImpl m; auto* t = new TPCParametersImpl(1000., PadRowLayout2D::POLAR);
  t->setPadLayout(new FixedPadSizeDiskLayout(100., 106.2, 6., 3., 1, 1.)); t->setDriftVelocity(1.); t->setReadoutFrequency(1.);
  m.setTPCParameters(t);
  GearMgr* r = trip(&m);
  CHECK(r->getTPCParameters().getPadLayout().getNPads() == t->getPadLayout().getNPads());
  return 0;
}'''),
dict(id="P15-positioned-zero", prop="P15", needs="a layer appended after one placed at a negative distance or distance zero with nonzero thickness",
 breaks="a layer appended after one that starts at zero does not start where that one ends",
 edits=[("src/gearimpl/LayerLayoutImpl.cc", '''    if( _vec.size() == 0 ) {
''', '''    if( _vec.size() == 0 || ( _vec.size() > 1 && _vec.back().Distance == 0. ) ) {
''')],
 demo=H + r'''
int main() {
  LayerLayoutImpl l; l.positionLayer(-5., 5., 1., 1.); l.addLayer(2., 1., 1.); l.addLayer(3., 1., 1.);
  CHECK(l.getDistance(0) == -5.); CHECK(l.getDistance(1) == 0.); CHECK(l.getDistance(2) == 2.);
  return 0;
}'''),
dict(id="P18-odd-sensors", prop="P18", needs="a double-sided disk with an odd number of sensors, looking at the middle sensor",
 breaks="with an odd number of sensors the middle one is put on the wrong side",
 edits=[("src/gearimpl/FTDLayerLayoutImpl.cc", "( sensorIndex > _lVec.at(layerId).nSensors/2 )", "( 2*sensorIndex > _lVec.at(layerId).nSensors + 1 )")],
 demo=H + r'''
int main() {
  FTDLayerLayoutImpl l;
  l.addLayer(16, 3, true, 0, .3, 0., 0., 200., 2., 1, 40., 1., 20., 50., 60., 93., 40., .3, 20., 50., 60., 93.);
  double s = l.getSupportZposition(0, 0);
  CHECK(l.getSensitiveZposition(0, 0, 1) < s); CHECK(l.getSensitiveZposition(0, 0, 2) > s); CHECK(l.getSensitiveZposition(0, 0, 3) > s);
  return 0;
}'''),
dict(id="P22-absorber-row", prop="P22", needs="a calorimeter in which the thickness stays and only the absorber goes down from one layer to the next",
 breaks="the table of layers leaves out a layer whose absorber differs from the one before",
 edits=[("src/gearimpl/Util.cc", "thisAbsorber != lastAbsorber )", "thisAbsorber > lastAbsorber )")],
 demo=H + r"""
int main() {
  GearMgrImpl m; auto* c = new CalorimeterParametersImpl(100., 200., 8, 0.);
  double a[4] = {1., 1., .5, .5};
  for (int i = 0; i < 4; ++i) c->layerLayout().positionLayer(100. + 2 * i, 2., 10., 10., a[i]);
  m.setHcalBarrelParameters(c);
  std::ostringstream s; s << m;
  CHECK(s.str().find("id: 0 ") != std::string::npos); CHECK(s.str().find("id: 2 ") != std::string::npos); CHECK(s.str().find("id: 3 ") != std::string::npos);
  return 0;
}"""),
]
