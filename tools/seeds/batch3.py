exec(open("/verif/tools/seeds/batch1.py").read().split("SEEDS = [")[0])
TG = ["drivers/tgeo/" + f for f in ("TGDMLParse.h", "TGeoManager.h", "TGeoMaterial.h", "TGeoMedium.h", "TGeoNode.h", "TGeoVolume.h", "TVirtualGeoTrack.h", "tgeo_standin.h")]
TGH = H + r'''
#include "tgeo_standin.h"
#include "gear/GearMaterialProperties.h"
#include "gear/GearDistanceProperties.h"
#include "gear/GearPointProperties.h"
#include "/repo/src/geartgeo/TGeoGearDistanceProperties.cc"
#include "/repo/src/geartgeo/TGeoGearPointProperties.cc"
#include "/repo/src/geartgeo/TGeoGeometryInitializer.cc"
#include "/repo/src/geartgeo/TGeoMaterialProperties.cc"
TGeoManager* gGeoManager = 0;
static TGeoMaterial mat(const char* n, double rad, double in) { TGeoMaterial m; m.n = n; m.ra = rad; m.in = in; return m; }
static StandinNode box(int par, double a, double b, int m, const char* n, const char* v) { StandinNode s; s.par = par; for (int i = 0; i < 3; ++i) { s.lo[i] = -10; s.hi[i] = 10; } s.lo[0] = a; s.hi[0] = b; s.mat = m; s.sticky = false; s.node = n; s.vol = v; return s; }
static GearMaterialProperties* geo(std::vector<StandinNode> n, std::vector<TGeoMaterial> m) { StandinGeo g; g.n = n; g.m = m; standinFiles()["g"] = g;
  GearMaterialProperties* p = GearMaterialPropertiesFactory::instance()->create(); p->config()["GDMLFileName"] = "g"; p->initialize(); return p; }
'''
SEEDS = [
dict(id="P24-way-back", prop="P24", files=TG, needs="a path followed right after the same path in the opposite direction",
 breaks="the lists of materials, volumes and thicknesses of the way back come in the order of the way there",
 edits=[("src/geartgeo/TGeoGearDistanceProperties.cc", "    if(p0==_p0 && p1==_p1)\n", "    if((p0==_p0 && p1==_p1) || (p0==_p1 && p1==_p0))\n")],
 demo=TGH + r'''
int main() {
  GearDistanceProperties* d = geo({box(-1, -10, 10, 0, "w", "w"), box(0, 2, 6, 1, "a", "a")}, {mat("air", 100, 50), mat("lead", 2, 4)})->getGearDistanceProperties();
  Vector3D a(1, 1, 1), b(5, 1, 1);
  CHECK(eq(d->getNRadlen(a, b), 1. / 100 + 3. / 2)); CHECK(d->getMaterialNames(a, b)[0] == "air");
  CHECK(eq(d->getNRadlen(b, a), 1. / 100 + 3. / 2)); CHECK(d->getMaterialNames(b, a)[0] == "lead"); CHECK(eq(d->getMaterialThicknesses(b, a)[0], 3.));
  return 0;
}'''),
dict(id="P24-no-interaction", prop="P24", files=TG, needs="a material that has a radiation length but no interaction length (or the other way round)",
 breaks="the number of interaction lengths is infinite or misses a material, as the radiation length decides which materials count",
 edits=[("src/geartgeo/TGeoGearDistanceProperties.cc", "	if(_intLen[i]!=0)\n", "	if(_radLen[i]!=0)\n")],
 demo=TGH + r'''
int main() {
  GearDistanceProperties* d = geo({box(-1, -10, 10, 0, "w", "w"), box(0, 2, 6, 1, "a", "a")}, {mat("air", 100, 50), mat("odd", 0, 4)})->getGearDistanceProperties();
  CHECK(eq(d->getNRadlen(Vector3D(1, 1, 1), Vector3D(5, 1, 1)), .01)); CHECK(eq(d->getNIntlen(Vector3D(1, 1, 1), Vector3D(5, 1, 1)), .02 + .75));
  return 0;
}'''),
dict(id="P24-same-names", prop="P24", files=TG, needs="two touching volumes of the same placement name with different materials",
 breaks="the list of materials merges two neighbouring volumes of the same placement name into one",
 edits=[("src/geartgeo/TGeoGearDistanceProperties.cc", '''	std::string svoln(node1->GetName());
	std::string svolm(node1->GetMedium()->GetMaterial()->GetName());
	_volNames.push_back(svoln);
	_matNames.push_back(svolm);
	_intLen.push_back(node1->GetMedium()->GetMaterial()->GetIntLen());
	_radLen.push_back(node1->GetMedium()->GetMaterial()->GetRadLen());
	
''', '''	std::string svoln(node1->GetName());
	std::string svolm(node1->GetMedium()->GetMaterial()->GetName());
	if( !_volNames.empty() && _volNames.back() == svoln ) {
	  double last=_distance.back();
	  _distance.pop_back();
	  _distance.back()+=last;
	  node1=node2;
	  if(!node2) break;
	  continue;
	}
	_volNames.push_back(svoln);
	_matNames.push_back(svolm);
	_intLen.push_back(node1->GetMedium()->GetMaterial()->GetIntLen());
	_radLen.push_back(node1->GetMedium()->GetMaterial()->GetRadLen());
	
''')],
 demo=TGH + r'''
int main() {
  GearDistanceProperties* d = geo({box(-1, -10, 10, 0, "w", "w"), box(0, 0, 3, 1, "a_0", "a"), box(0, 3, 6, 2, "a_0", "b")}, {mat("air", 100, 50), mat("lead", 2, 4), mat("iron", 5, 8)})->getGearDistanceProperties();
  Vector3D a(1, 1, 1), b(8, 1, 1);
  CHECK(d->getMaterialNames(a, b).size() == 3); CHECK(d->getMaterialNames(a, b)[1] == "iron"); CHECK(eq(d->getNRadlen(a, b), 1 + 3. / 5 + .02));
  return 0;
}'''),
dict(id="P01-lhcal-angle", prop="P01", needs="an LCal with a beam crossing angle registered before an LHCal that has none",
 breaks="an LHCal without a crossing angle gets that of the LCal instead of 0",
 edits=[("src/gearimpl/GearMgrImpl.cc", None, None)],
 demo=H + r'''
int main() {
  GearMgrImpl m; auto* l = new CalorimeterParametersImpl(1., 2., 1, 0.); l->setDoubleVal("beam_crossing_angle", 14.); m.setLcalParameters(l);
  auto* h = new CalorimeterParametersImpl(1., 2., 1, 0.); m.setLHcalParameters(h);
  CHECK(m.getLHcalParameters().getDoubleVal("beam_crossing_angle") == 0.); CHECK(m.getLcalParameters().getDoubleVal("beam_crossing_angle") == 14.);
  return 0;
}'''),
dict(id="P02-empty-list", prop="P02", needs="an empty list stored under a name that already holds a list",
 breaks="storing an empty list leaves the list stored before",
 edits=[("src/gearimpl/GearParametersImpl.cc", '''    _doubleVecMap[ key ] = vals ;
''', '''    std::vector<double>& stored = _doubleVecMap[ key ] ;
    if( stored.size() >= vals.size() )
      std::copy( vals.begin(), vals.end(), stored.begin() ) ;
    else
      stored = vals ;
    if( !vals.empty() ) stored.resize( vals.size() ) ;
'''), ("src/gearimpl/GearParametersImpl.cc", '#include "gearimpl/GearParametersImpl.h"\n', '#include "gearimpl/GearParametersImpl.h"\n#include <algorithm>\n')],
 demo=H + r'''
int main() {
  GearParametersImpl p; p.setDoubleVals("a", {1., 2., 3.}); p.setDoubleVals("a", {4.}); CHECK(p.getDoubleVals("a").size() == 1); CHECK(p.getDoubleVals("a")[0] == 4.);
  p.setDoubleVals("a", std::vector<double>()); CHECK(p.getDoubleVals("a").empty()); CHECK(p.getDoubleVecKeys().size() == 1);
  return 0;
}'''),
dict(id="P05-petal-sides", prop="P05", needs="a forward tracker whose first disk is double sided and a later one is not",
 breaks="a disk read behind a double sided one is double sided too",
 edits=[("src/gearxml/FTDParametersXML.cc", '''		const TiXmlNode* xmlLayer = 0 ;
		
''', '''		const TiXmlNode* xmlLayer = 0 ;
		bool isDoubleSided = false ;
		
'''), ("src/gearxml/FTDParametersXML.cc", '''                        bool isDoubleSided = atoi( getXMLAttribute( xmlLayer , "isDoubleSided" ).c_str() );
''', '''                        isDoubleSided |= ( atoi( getXMLAttribute( xmlLayer , "isDoubleSided" ).c_str() ) != 0 && nSensors > 1 ) ;
''')],
 demo=H + r'''
#include "gearimpl/FTDParametersImpl.h"
int main() {
  GearMgrImpl m; auto* f = new FTDParametersImpl();
  for (int i = 0; i < 4; ++i) f->addLayer(8, 4, i == 1, FTDParameters::STRIP, .1, 0., 0., 100. * (i + 1), 1., 1., 20., .3, 10., 20., 40., 90., 20., .2, 9., 19., 39., 90.);
  m.setFTDParameters(f); GearXML::createXMLFile(&m, "a.xml");
  GearXML x("a.xml"); const FTDLayerLayout& l = x.createGearMgr()->getFTDParameters().getFTDLayerLayout();
  for (int i = 0; i < 4; ++i) CHECK(l.isDoubleSided(i) == (i == 1));
  return 0;
}'''),
dict(id="P10-inner-corner", prop="P10", needs="a point before the lower side of a pad and nearer to the axis than the pad",
 breaks="the distance of such a point is that to the far side of the pad",
 edits=[("src/gearimpl/FixedDiskLayoutBase.cc", "	    return (distance_phiMin < distance_phiMax ? distance_phiMin : distance_phiMax);", "	    return (phi < phi_min && r > r_min ? distance_phiMin : distance_phiMax);")],
 demo=H + r'''
#include "gearimpl/FixedPadAngleDiskLayout.h"
int main() {
  FixedPadAngleDiskLayout l(100., 200., 5, 0., 1.5, 5);
  int p = l.getPadIndex(1, 2); Vector2D c = l.getPadCenter(p); double a = l.getPadPitch(p);
  for (int k = -1; k <= 1; ++k) { double phi = c[1] + k * a, r = c[0]; double w = std::abs(k) * a - a / 2; double e = k == 0 ? 0 : r * std::sin(w);
    CHECK(eq(l.getDistanceToPad(r, phi, p), e)); CHECK(eq(l.getDistanceToPad(r, phi + 2 * M_PI, p), e)); }
  double r = c[0] - 30., phi = c[1] - a; double in = c[0] - 10., x = r * std::cos(a / 2), y = r * std::sin(a / 2);
  CHECK(eq(l.getDistanceToPad(r, phi, p), std::hypot(in - x, y)));
  return 0;
}'''),
]
import re as _re
_t = open("/repo/src/gearimpl/GearMgrImpl.cc").read()
_i = _t.index("void GearMgrImpl::setLHcalParameters"); _j = _t.index("void GearMgrImpl::setBeamCalParameters"); _o = _t[_i:_j]
_m = _re.search(r"gp->setDoubleVal\( *\"beam_crossing_angle\" *, *([\d.]+) *\)", _o); assert _m, _o
_n = _o.replace(_m.group(0), 'gp->setDoubleVal( "beam_crossing_angle" , ( _lcalParameters ? _lcalParameters->getDoubleVal( "beam_crossing_angle" ) : 0.0 ) )')
for s in SEEDS:
    if s["id"] == "P01-lhcal-angle": s["edits"] = [("src/gearimpl/GearMgrImpl.cc", _o, _n)]
