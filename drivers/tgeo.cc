// material at a point and along a path (P24) over a stand-in for ROOT's TGeo
// sources: src/geartgeo/TGeoGearDistanceProperties.cc src/geartgeo/TGeoGearPointProperties.cc src/geartgeo/TGeoGeometryInitializer.cc src/geartgeo/TGeoMaterialProperties.cc
// include: drivers/tgeo
#include "common.h"
#include "json.h"
#include "tgeo_standin.h"
#include "gear/GearMaterialProperties.h"
#include "gear/GearDistanceProperties.h"
#include "gear/GearPointProperties.h"
#include "gear/GearMgr.h"
#include "gearxml/GearXML.h"
#include "gear/geartgeo/TGeoGearDistanceProperties.h"
#include <fstream>
using namespace vd; using namespace gear;
TGeoManager* gGeoManager=0;
static bool plugin=true;
// GEAR loads the plugin by name; here it is linked in
extern "C" void* dlopen(const char* f,int) noexcept { return f&&std::string(f).find("geartgeo")!=std::string::npos&&plugin ? (void*)&plugin : (void*)0; }
static std::unique_ptr<GearMaterialProperties> mp; static std::unique_ptr<GearMgr> mgr; static std::unique_ptr<GearXML> xml;
static std::map<int,GearPointProperties*> P; static std::map<int,GearDistanceProperties*> D;
static void clear(){ if(!mgr) { for(auto& e: P) delete e.second; for(auto& e: D) delete e.second; } P.clear(); D.clear(); mgr.reset(); xml.reset(); mp.reset(); }
static Vector3D vec(const V& a,double s){ return Vector3D(a[0].num*s,a[1].num*s,a[2].num*s); }
static double sc;
static J h(const Cmd& c){
  if(c.op=="reset"){ clear(); return J::i(0); }
  V v=parseJson(c.s(0)); const std::string& op=c.op;
  if(op=="load"){ clear(); standinFiles().clear(); const V& g=v["g"]; sc=g["s"].num; StandinGeo sg;
    for(size_t i=0;i<g["m"].n();++i){ const V& m=g["m"][i]; TGeoMaterial t; t.n="M"+std::to_string(i+1); t.de=m[0].num; t.te=m[1].num; t.pr=m[2].num; t.ra=m[3].num*sc; t.in=m[4].num*sc; sg.m.push_back(t); }
    for(size_t i=0;i<g["n"].n();++i){ const V& n=g["n"][i]; StandinNode s; s.par=n["par"].i()-1; s.mat=n["mat"].i()-1; s.sticky=n["st"].i()==1; s.node=n["node"].str; s.vol=n["vol"].str;
      for(int k=0;k<3;++k){ s.lo[k]=n["lo"][k].num*sc; s.hi[k]=n["hi"][k].num*sc; if(s.hi[k]==s.lo[k]) s.hi[k]+=2e-6; } /* a layer thinner than the least step of GEAR */ sg.n.push_back(s); }
    if(v["file"].i()) standinFiles()["geo.gdml"]=sg;
    int how=v["how"].i(); plugin=how!=2;
    if(how==0||how==3){ mp.reset(GearMaterialPropertiesFactory::instance()->create()); mp->config()["GDMLFileName"]="geo.gdml"; if(how==0) mp->initialize(); P[1]=mp->getGearPointProperties(); D[1]=mp->getGearDistanceProperties();
      if(how==0){ P[2]=mp->getGearPointProperties(); D[2]=mp->getGearDistanceProperties(); } }
    else { { std::ofstream o("tgeo.xml"); o<<"<gear><global detectorName=\"x\"/><GDMLFile name=\"geo.gdml\"/><detectors/></gear>\n"; }
      xml.reset(new GearXML("tgeo.xml")); mgr.reset(xml->createGearMgr()); P[1]=0; D[1]=0;
      try { P[1]=const_cast<GearPointProperties*>(&mgr->getPointProperties()); } catch(UnknownParameterException&){}
      try { D[1]=const_cast<GearDistanceProperties*>(&mgr->getDistanceProperties()); } catch(UnknownParameterException&){} P[2]=P[1]; D[2]=D[1]; }
    return J::arr({J::i(P[1]!=0),J::i(D[1]!=0)}); }
  int hd=v["h"].i();
  if(op=="path"){ GearDistanceProperties& d=*D.at(hd); Vector3D a=vec(v["p"],sc),b=vec(v["b"],sc); std::vector<std::pair<std::string,J>> o;
    for(auto& q: v["q"].arr){ const std::string& n=q.str;
      if(n=="mats") o.push_back({n,J::strs(d.getMaterialNames(a,b))}); else if(n=="vols")o.push_back({n,J::strs(dynamic_cast<TGeoGearDistanceProperties&>(d).getVolumeNames(a,b))});
      else if(n=="thick") o.push_back({n,J::fxs(d.getMaterialThicknesses(a,b),1e4)}); else if(n=="rad") o.push_back({n,J::f(d.getNRadlen(a,b),1e6)}); else if(n=="int") o.push_back({n,J::f(d.getNIntlen(a,b),1e6)});
      else if(n=="BdL") d.getBdL(a,b); else if(n=="EdL") d.getEdL(a,b); else throw 2; }
    return J::obj(o); }
  if(op=="point"){ GearPointProperties& p=*P.at(hd); Vector3D a=vec(v["p"],sc); const std::string& q=v["q"].str;
    if(q=="name") return J::s(p.getMaterialName(a)); if(q=="density") return J::f(p.getDensity(a),1000); if(q=="temp") return J::f(p.getTemperature(a),1000); if(q=="press") return J::f(p.getPressure(a),1000);
    if(q=="rad") return J::f(p.getRadlen(a),1000); if(q=="int") return J::f(p.getIntlen(a),1000); if(q=="local"){ Vector3D l=p.getLocalPosition(a); return J::fxs(std::vector<double>{l[0],l[1],l[2]},1000); }
    if(q=="logical") return J::strs(p.getListOfLogicalVolumes(a)); if(q=="physical") return J::strs(p.getListOfPhysicalVolumes(a));
    if(q=="cell"){ p.getCellID(a); return J::i(0); } if(q=="B"){ p.getB(a); return J::i(0); } if(q=="E"){ p.getE(a); return J::i(0); } if(q=="region") return J::s(p.getRegion(a)); if(q=="tracker") return J::b(p.isTracker(a)); if(q=="calo") return J::b(p.isCalorimeter(a)); }
  throw 2; }
int main(){ return run(h); }
