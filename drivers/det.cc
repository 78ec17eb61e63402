// detector descriptions: build, write, read, observe, print, merge (P03-P08, P15, P18, P22)
#include "pads.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/Util.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"
#include "gear/CalorimeterParameters.h"
#include "gearxml/XMLHandlerMgr.h"
#include "gearxml/GearParametersXML.h"
#include "gearxml/TPCParametersXML.h"
#include "gearxml/CalorimeterParametersXML.h"
#include "gearxml/ZPlanarParametersXML.h"
#include "gearxml/FTDParametersXML.h"
#include "gearxml/TrackerPlanesParametersXML.h"
#include "gearxml/SiPlanesParametersXML.h"
#include "gearxml/tinyxml.h"
#include <fstream>
#include <algorithm>
using namespace gear; using namespace vd;
typedef const GearParameters CGP;
static std::map<int,GearMgr*> mg;
static std::map<int,GearXML*> rd;     // readers kept for repeated reads
static std::map<int,MergeXML*> mx;

// ---- user parameters
template<class T> static void setPars(T* g,const V& ps){
  for(auto& p: ps.arr){ const std::string&k=p[0].str,&n=p[1].str; const V& t=p[2];
    if(k=="int") g->setIntVal(n,atoi(t[0].str.c_str()));
    else if(k=="double") g->setDoubleVal(n,atof(t[0].str.c_str()));
    else if(k=="string") g->setStringVal(n,t[0].str);
    else if(k=="ints"){ IntVec v; for(auto&x:t.arr) v.push_back(atoi(x.str.c_str())); g->setIntVals(n,v); }
    else if(k=="doubles"){ DoubleVec v; for(auto&x:t.arr) v.push_back(atof(x.str.c_str())); g->setDoubleVals(n,v); }
    else { StringVec v; for(auto&x:t.arr) v.push_back(x.str); g->setStringVals(n,v); } } }
static J parsView(const GearParameters& g){
  std::vector<J> o; auto add=[&](const char*k,const std::string&n,const std::vector<std::string>&t){ o.push_back(J::arr({J::s(k),J::s(n),J::strs(t)})); };
  for(auto&n:g.getIntKeys()) add("int",n,{std::to_string(g.getIntVal(n))});
  for(auto&n:g.getDoubleKeys()) add("double",n,{d9(g.getDoubleVal(n))});
  for(auto&n:g.getStringKeys()) add("string",n,{g.getStringVal(n)});
  for(auto&n:g.getIntVecKeys()){ std::vector<std::string> t; for(int x:g.getIntVals(n)) t.push_back(std::to_string(x)); add("ints",n,t); }
  for(auto&n:g.getDoubleVecKeys()){ std::vector<std::string> t; for(double x:g.getDoubleVals(n)) t.push_back(d9(x)); add("doubles",n,t); }
  for(auto&n:g.getStringVecKeys()) add("strings",n,g.getStringVals(n));
  return J::arr(o); }
static J fl(std::initializer_list<double> l){ std::vector<J> x; for(double d:l) x.push_back(J::f(d,1e5)); return J::arr(x); }
static std::vector<J> mix(std::initializer_list<int> a,std::initializer_list<double> b){ std::vector<J> x; for(int i:a)x.push_back(J::i(i)); for(double d:b)x.push_back(J::f(d,1e5)); return x; }

// ---- calorimeters
static CalorimeterParametersImpl* mkCal(const V& v){
  const V& e=v["ext"]; CalorimeterParametersImpl* c = v["t"].i()==0 ? new CalorimeterParametersImpl(e[0].f(),e[1].f(),v["sym"].i(),v["phi0"].f())
                                                              : new CalorimeterParametersImpl(e[0].f(),e[1].f(),e[2].f(),v["sym"].i(),v["phi0"].f());
  for(auto&l:v["layers"].arr){ if(l[4].i()==-2000000000) c->layerLayout().addLayer(l[0].f(),l[1].f(),l[2].f(),l[3].f()); else c->layerLayout().positionLayer(l[4].f(),l[0].f(),l[1].f(),l[2].f(),l[3].f()); }
  setPars(c,v["pars"]); return c; }
static J calView(const CalorimeterParameters& c){
  std::vector<J> ls; const LayerLayout& l=c.getLayerLayout();
  for(int i=0;i<l.getNLayers();++i) ls.push_back(fl({l.getDistance(i),l.getThickness(i),l.getCellSize0(i),l.getCellSize1(i),l.getAbsorberThickness(i)}));
  return J::obj({{"k",J::s("Cal")},{"t",J::i(c.getLayoutType()==CalorimeterParameters::BARREL?0:c.getLayoutType()==CalorimeterParameters::ENDCAP?1:9)},{"sym",J::i(c.getSymmetryOrder())},{"phi0",J::f(c.getPhi0(),1e5)},
    {"ext",J::fxs(c.getExtent(),1e5)},{"layers",J::arr(ls)},{"pars",parsView(c)}}); }
// ---- ladder detectors
static ZPlanarParametersImpl* mkZpl(const V& v){
  const V& s=v["shell"]; auto* z=new ZPlanarParametersImpl(v["typ"].i(),s[0].f(),s[1].f(),s[2].f(),s[3].f(),s[4].f());
  for(auto&l:v["layers"].arr) z->addLayer(l[0].i(),l[1].f(),l[2].f(),l[3].f(),l[4].f(),l[5].f(),l[6].f(),l[7].f(),l[8].f(),l[9].f(),l[10].f(),l[11].f(),l[12].f(),l[13].f());
  setPars(z,v["pars"]); return z; }
static J zplView(const ZPlanarParameters& z){
  const ZPlanarLayerLayout& l=z.getZPlanarLayerLayout(); std::vector<J> ls;
  for(int i=0;i<l.getNLayers();++i) ls.push_back(J::arr(mix({l.getNLadders(i)},{l.getPhi0(i),l.getLadderDistance(i),l.getLadderOffset(i),l.getLadderThickness(i),l.getLadderLength(i),l.getLadderWidth(i),l.getLadderRadLength(i),
     l.getSensitiveDistance(i),l.getSensitiveOffset(i),l.getSensitiveThickness(i),l.getSensitiveLength(i),l.getSensitiveWidth(i),l.getSensitiveRadLength(i)})));
  return J::obj({{"k",J::s("Zpl")},{"typ",J::i(z.getType())},{"shell",fl({z.getShellInnerRadius(),z.getShellOuterRadius(),z.getShellHalfLength(),z.getShellGap(),z.getShellRadLength()})},
    {"layers",J::arr(ls)},{"pars",parsView(z)}}); }
// ---- forward disks
static FTDParametersImpl* mkFtd(const V& v){
  auto* z=new FTDParametersImpl();
  for(auto&l:v["layers"].arr) z->addLayer(l[0].i(),l[1].i(),l[2].i()!=0,l[3].i(),l[4].f(),l[5].f(),l[6].f(),l[7].f(),l[8].f(),(double)l[9].i(),
     l[10].f(),l[11].f(),l[12].f(),l[13].f(),l[14].f(),l[15].f(),l[16].f(),l[17].f(),l[18].f(),l[19].f(),l[20].f(),l[21].f());
  setPars(z,v["pars"]); return z; }
static J ftdView(const FTDParameters& f){
  const FTDLayerLayout& l=f.getFTDLayerLayout(); std::vector<J> ls; int n=l.getNLayers();
  for(int i=0;i<2*n;++i){
    auto x=mix({l.getNPetals(i),l.getNSensors(i),l.isDoubleSided(i)?1:0,l.getSensorType(i)},{l.getPhiHalfDistance(i),l.getPhi0(i),l.getAlpha(i),l.getZposition(i),l.getZoffset(i)});
    x.push_back(J::f(l.getZoffsetSign0(i),1));
    for(double d:{l.getSupportRinner(i),l.getSupportThickness(i),l.getSupportLengthMin(i),l.getSupportLengthMax(i),l.getSupportWidth(i),l.getSupportRadLength(i),
       l.getSensitiveRinner(i),l.getSensitiveThickness(i),l.getSensitiveLengthMin(i),l.getSensitiveLengthMax(i),l.getSensitiveWidth(i),l.getSensitiveRadLength(i)}) x.push_back(J::f(d,1e5));
    ls.push_back(J::arr(x)); }
  return J::obj({{"k",J::s("Ftd")},{"n",J::i(n)},{"layers",J::arr(ls)},{"pars",parsView(f)}}); }
// derived quantities of one disk (P18): support z / petal phi per petal, sensor z, radii
static J ftdPetal(const FTDLayerLayout& l,const std::string& q,int i,int p,int s){
  if(q=="supz") return J::f(l.getSupportZposition(i,p),1e5);
  if(q=="senz") return J::f(l.getSensitiveZposition(i,p,s),1e5);
  if(q=="phi") return J::f(l.getPhiPetalCd(i,p),1e5);
  if(q=="maxr") return J::f(l.getMaxRadius(i,false),1e5);
  if(q=="maxrs") return J::f(l.getMaxRadius(i,true),1e5);
  if(q=="npet") return J::i(l.getNPetals(i));
  throw std::logic_error("q"); }
// ---- silicon planes
static SiPlanesParametersImpl* mkSip(const V& v){
  auto* z=new SiPlanesParametersImpl(v["id"].i(),v["typ"].i(),v["num"].i());
  for(auto&l:v["layers"].arr){ const V&a=l[0],&b=l[1]; // ladder: ID + 10 values, sensor: ID, 9 values, npx, npy, 10 values
    z->addLayer(a[0].i(),a[1].f(),a[2].f(),a[3].f(),a[4].f(),a[5].f(),a[6].f(),a[7].f(),a[8].f(),a[9].f(),a[10].f(),
      b[0].i(),b[1].f(),b[2].f(),b[3].f(),b[4].f(),b[5].f(),b[6].f(),b[7].f(),b[8].f(),b[9].f(),b[10].i(),b[11].i(),b[12].f(),b[13].f(),b[14].f(),b[15].f(),b[16].f(),b[17].f(),b[18].f(),b[19].f(),b[20].f(),b[21].f()); }
  for(auto&d:v["dut"].arr){ const V&a=d[0],&b=d[1];
    z->addDUT(a[0].i(),a[1].f(),a[2].f(),a[3].f(),a[4].f(),a[5].f(),a[6].f(),a[7].f(),
      b[0].i(),b[1].f(),b[2].f(),b[3].f(),b[4].f(),b[5].f(),b[6].f(),b[7].i(),b[8].i(),b[9].f(),b[10].f(),b[11].f(),b[12].f(),b[13].f(),b[14].f(),b[15].f(),b[16].f()); }
  setPars(z,v["pars"]); return z; }
static J sipView(const SiPlanesParameters& p){
  const SiPlanesLayerLayout& l=p.getSiPlanesLayerLayout(); std::vector<J> ls, du;
  for(int i=0;i<l.getNLayers();++i){
    auto a=mix({l.getID(i)},{l.getLayerPositionX(i),l.getLayerPositionY(i),l.getLayerPositionZ(i),l.getLayerRotationXY(i),l.getLayerRotationZX(i),l.getLayerRotationZY(i),l.getLayerSizeX(i),l.getLayerSizeY(i),l.getLayerThickness(i),l.getLayerRadLength(i)});
    auto b=mix({l.getSensitiveID(i)},{l.getSensitivePositionX(i),l.getSensitivePositionY(i),l.getSensitivePositionZ(i),l.getSensitiveRotationXY(i),l.getSensitiveRotationZX(i),l.getSensitiveRotationZY(i),l.getSensitiveSizeX(i),l.getSensitiveSizeY(i),l.getSensitiveThickness(i)});
    b.push_back(J::i(l.getSensitiveNpixelX(i))); b.push_back(J::i(l.getSensitiveNpixelY(i)));
    for(double d:{l.getSensitivePitchX(i),l.getSensitivePitchY(i),l.getSensitiveResolution(i),l.getSensitiveResolutionX(i),l.getSensitiveResolutionY(i),l.getSensitiveRotation1(i),l.getSensitiveRotation2(i),l.getSensitiveRotation3(i),l.getSensitiveRotation4(i),l.getSensitiveRadLength(i)}) b.push_back(J::f(d,1e5));
    ls.push_back(J::arr({J::arr(a),J::arr(b)})); }
  if(p.getSiPlanesType()==SiPlanesParameters::TelescopeWithDUT){
    auto a=mix({l.getDUTID()},{l.getDUTPositionX(),l.getDUTPositionY(),l.getDUTPositionZ(),l.getDUTSizeX(),l.getDUTSizeY(),l.getDUTThickness(),l.getDUTRadLength()});
    auto b=mix({l.getDUTSensitiveID()},{l.getDUTSensitivePositionX(),l.getDUTSensitivePositionY(),l.getDUTSensitivePositionZ(),l.getDUTSensitiveSizeX(),l.getDUTSensitiveSizeY(),l.getDUTSensitiveThickness()});
    b.push_back(J::i(l.getDUTSensitiveNpixelX())); b.push_back(J::i(l.getDUTSensitiveNpixelY()));
    for(double d:{l.getDUTSensitivePitchX(),l.getDUTSensitivePitchY(),l.getDUTSensitiveResolution(),l.getDUTSensitiveRotation1(),l.getDUTSensitiveRotation2(),l.getDUTSensitiveRotation3(),l.getDUTSensitiveRotation4(),l.getDUTSensitiveRadLength()}) b.push_back(J::f(d,1e5));
    du.push_back(J::arr({J::arr(a),J::arr(b)})); }
  return J::obj({{"k",J::s("Sip")},{"id",J::i(p.getSiPlanesID())},{"typ",J::i(p.getSiPlanesType())},{"num",J::i(p.getSiPlanesNumber())},{"layers",J::arr(ls)},{"dut",J::arr(du)},{"pars",parsView(p)}}); }
// ---- tracker planes
static TrackerPlanesParametersImpl* mkTrp(const V& v){
  auto* z=new TrackerPlanesParametersImpl(v["id"].i(),v["typ"].i(),v["num"].i());
  for(auto&l:v["layers"].arr){ TrackerPlanesLayerImpl* y=new TrackerPlanesLayerImpl(); y->setID(l["id"].i()); y->setInfo(l["info"].str);
    for(auto&a:l["mat"].arr){ const V&w=a["v"]; y->addMaterialLayer(a["id"].i(),a["info"].str,w[0].f(),w[1].f(),w[2].f(),w[3].f(),w[4].f(),w[5].f(),w[6].f(),w[7].f(),w[8].f(),w[9].f()); }
    for(auto&a:l["sen"].arr){ const V&w=a["v"]; y->addSensitiveLayer(a["id"].i(),a["info"].str,w[0].f(),w[1].f(),w[2].f(),w[3].f(),w[4].f(),w[5].f(),w[6].f(),w[7].f(),w[8].f(),w[9].f(),w[10].i(),w[11].i(),w[12].f(),w[13].f(),w[14].f(),w[15].f()); }
    z->addLayer(y); }
  setPars(z,v["pars"]); return z; }
static J trpLayer(const TrackerPlanesLayerImpl* cy){
    auto* y=const_cast<TrackerPlanesLayerImpl*>(cy); std::vector<J> ms,ss;
    for(auto&m:y->getMaterialLayerVec()) ms.push_back(J::obj({{"id",J::i(m.getID())},{"info",J::s(m.getInfo())},{"v",fl({m.getPositionX(),m.getPositionY(),m.getPositionZ(),m.getRotationXY(),m.getRotationZX(),m.getRotationZY(),m.getSizeX(),m.getSizeY(),m.getThickness(),m.getRadLength()})}}));
    for(auto&m:y->getSensitiveLayerVec()){ auto w=mix({}, {m.getPositionX(),m.getPositionY(),m.getPositionZ(),m.getRotationXY(),m.getRotationZX(),m.getRotationZY(),m.getSizeX(),m.getSizeY(),m.getThickness(),m.getRadLength()});
      w.push_back(J::i(m.getNpixelX())); w.push_back(J::i(m.getNpixelY())); for(double d:{m.getPitchX(),m.getPitchY(),m.getResolutionX(),m.getResolutionY()}) w.push_back(J::f(d,1e5));
      ss.push_back(J::obj({{"id",J::i(m.getID())},{"info",J::s(m.getInfo())},{"v",J::arr(w)}})); }
    return J::obj({{"id",J::i(y->getID())},{"info",J::s(y->getInfo())},{"mat",J::arr(ms)},{"sen",J::arr(ss)}}); }
static J trpView(const TrackerPlanesParameters& p){
  const TrackerPlanesLayerLayout& l=p.getTrackerPlanesLayerLayout(); std::vector<J> ls;
  for(int i=0;i<l.getNLayers();++i) ls.push_back(trpLayer(l.getLayer(i)));
  return J::obj({{"k",J::s("Trp")},{"id",J::i(p.getLayoutID())},{"typ",J::i(p.getLayoutType())},{"num",J::i(p.getLayoutNumberOfLayers())},{"layers",J::arr(ls)},{"pars",parsView(p)}}); }
// ---- TPC
static TPCParametersImpl* mkTpc(const V& v){
  TPCParametersImpl* t=new TPCParametersImpl(v["drift"].f(),v["coord"].i());
  t->setDriftVelocity(v["vel"].f());
  for(auto&m:v["mods"].arr){
    if(v["single"].i()){ t->setPadLayout(buildPads(m["layout"])); t->setReadoutFrequency(m["ro"].f()); continue; }
    TPCModuleImpl* x=new TPCModuleImpl(m["id"].i(),buildPads(m["layout"]),v["coord"].i(),m["ro"].f());
    if(m["off"][0].i()||m["off"][1].i()) x->setOffset(m["off"][0].f(),m["off"][1].f());
    for(auto&z:m["z"].arr) x->setZPosition(z.f());
    if(m["ang"].i()) x->setAngle(m["ang"].f());
    if(m["bor"].i()) x->setBorderWidth(m["bor"].f());
    setPars(x,m["pars"]); t->addModule(x); }
  setPars(t,v["pars"]); return t; }
static J tpcView(const TPCParameters& t){
  std::vector<J> ms;
  for(TPCModule* m: t.getModules()){ std::vector<J> z; try{ z.push_back(J::f(m->getZPosition(),1e5)); }catch(TPCModule::NoZPositionException&){}
    ms.push_back(J::obj({{"id",J::i(m->getModuleID())},{"ro",J::f(m->getReadoutFrequency(),1e5)},{"off",fl({m->getOffset()[0],m->getOffset()[1]})},{"z",J::arr(z)},{"ang",J::f(m->getAngle(),1e5)},{"bor",J::f(m->getBorderWidth(),1e5)},
      {"pars",parsView(*m)},{"pads",padView(m->getLocalPadLayout())},{"mext",J::fxs(m->getModuleExtent(),1e5)},{"lext",J::fxs(m->getLocalModuleExtent(),1e5)}})); }
  std::vector<J> pe; if(!ms.empty()) for(double d: t.getPlaneExtent()) pe.push_back(J::f(d,1e5));
  return J::obj({{"k",J::s("Tpc")},{"drift",J::f(t.getMaxDriftLength(),1e5)},{"vel",J::f(t.getDriftVelocity(),1e5)},{"coord",J::i(t.getCoordinateType())},{"mods",J::arr(ms)},{"pext",J::arr(pe)},{"pars",parsView(t)}}); }

// ---- slots
#define CALS X(EcalBarrel) X(EcalEndcap) X(EcalPlug) X(YokeBarrel) X(YokeEndcap) X(YokePlug) X(HcalBarrel) X(HcalEndcap) X(HcalRing) X(Lcal) X(LHcal) X(BeamCal)
#define ZPLS X(VXD) X(SIT) X(SET)
static void putSlot(GearMgr& g,const std::string& s,const V& v){
#define X(n) if(s==#n){ g.set##n##Parameters(mkCal(v)); return; }
  CALS
#undef X
#define X(n) if(s==#n){ g.set##n##Parameters(mkZpl(v)); return; }
  ZPLS
#undef X
  if(s=="FTD"){ g.setFTDParameters(mkFtd(v)); return; }
  if(s=="SiPlanes"){ g.setSiPlanesParameters(mkSip(v)); return; }
  if(s=="TrackerPlanes"){ g.setTrackerPlanesParameters(mkTrp(v)); return; }
  if(s=="TPC"){ g.setTPCParameters(mkTpc(v)); return; }
  throw std::logic_error("slot"); }
static J getSlot(const GearMgr& g,const std::string& s){
#define X(n) if(s==#n) return calView(g.get##n##Parameters());
  CALS
#undef X
#define X(n) if(s==#n) return zplView(g.get##n##Parameters());
  ZPLS
#undef X
  if(s=="FTD") return ftdView(g.getFTDParameters());
  if(s=="SiPlanes") return sipView(g.getSiPlanesParameters());
  if(s=="TrackerPlanes") return trpView(g.getTrackerPlanesParameters());
  if(s=="TPC") return tpcView(g.getTPCParameters());
  throw std::logic_error("slot"); }
// in-place modification of a silicon layer value through the public setters (P18)
static void modify(GearMgr& g,const std::string& s,int i,int part,int q,int val){
  double d=val/1e5;
  if(s=="SiPlanes"){ auto& l=const_cast<SiPlanesLayerLayout&>(g.getSiPlanesParameters().getSiPlanesLayerLayout());
    if(part==0) switch(q){ case 0:l.setID(i,val);break; case 1:l.setLayerPositionX(i,d);break; case 2:l.setLayerPositionY(i,d);break; case 3:l.setLayerPositionZ(i,d);break; case 4:l.setLayerRotationXY(i,d);break; case 5:l.setLayerRotationZX(i,d);break; case 6:l.setLayerRotationZY(i,d);break; case 7:l.setLayerSizeX(i,d);break; case 8:l.setLayerSizeY(i,d);break; case 9:l.setLayerThickness(i,d);break; case 10:l.setLayerRadLength(i,d);break; }
    else switch(q){ case 0:l.setSensitiveID(i,val);break; case 1:l.setSensitivePositionX(i,d);break; case 2:l.setSensitivePositionY(i,d);break; case 3:l.setSensitivePositionZ(i,d);break; case 4:l.setSensitiveRotationXY(i,d);break; case 5:l.setSensitiveRotationZX(i,d);break; case 6:l.setSensitiveRotationZY(i,d);break; case 7:l.setSensitiveSizeX(i,d);break; case 8:l.setSensitiveSizeY(i,d);break; case 9:l.setSensitiveThickness(i,d);break;
      case 10:l.setSensitiveNpixelX(i,val);break; case 11:l.setSensitiveNpixelY(i,val);break; case 12:l.setSensitivePitchX(i,d);break; case 13:l.setSensitivePitchY(i,d);break; case 14:l.setSensitiveResolution(i,d);break; case 15:l.setSensitiveResolutionX(i,d);break; case 16:l.setSensitiveResolutionY(i,d);break; case 17:l.setSensitiveRotation1(i,d);break; case 18:l.setSensitiveRotation2(i,d);break; case 19:l.setSensitiveRotation3(i,d);break; case 20:l.setSensitiveRotation4(i,d);break; case 21:l.setSensitiveRadLength(i,d);break; }
    return; }
  throw std::logic_error("mod"); }
static void grow(GearMgr& g,const std::string& s,const V& l){
#define X(n) if(s==#n){ auto& c=dynamic_cast<CalorimeterParametersImpl&>(const_cast<CalorimeterParameters&>(g.get##n##Parameters())); \
    if(l[4].i()==-2000000000) c.layerLayout().addLayer(l[0].f(),l[1].f(),l[2].f(),l[3].f()); else c.layerLayout().positionLayer(l[4].f(),l[0].f(),l[1].f(),l[2].f(),l[3].f()); return; }
  CALS
#undef X
  throw std::logic_error("grow"); }
// user-supplied element readers (P07)
struct OwnReader : public XMLHandler { std::string k; OwnReader(const std::string& n):k(n){}
  TiXmlElement toXML(const GearParameters&) const { return TiXmlElement("detector"); }
  GearParameters* fromXML(const TiXmlElement* e,GearMgr* g) const { auto* p=new GearParametersImpl(); GearParametersXML::setParametersFromXML(e,p); p->setIntVal("reader",atoi(k.c_str())); if(g) g->setGearParameters(e->Attribute("name"),p); return p; } };
static XMLHandler* builtinReader(const std::string& t){
  if(t=="GearParameters") return new GearParametersXML; if(t=="TPCParameters") return new TPCParametersXML; if(t=="CalorimeterParameters") return new CalorimeterParametersXML;
  if(t=="ZPlanarParameters") return new ZPlanarParametersXML; if(t=="FTDParameters") return new FTDParametersXML; if(t=="TrackerPlanesParameters") return new TrackerPlanesParametersXML; if(t=="SiPlanesParameters") return new SiPlanesParametersXML; return 0; }
static std::set<std::string> replaced;
static std::string fn(const std::string& f){ return "f"+f+".xml"; }
static std::string slurp(const std::string& f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static void drop(int m){ auto it=mg.find(m); if(it!=mg.end()){ delete it->second; mg.erase(it);} auto r=rd.find(m); if(r!=rd.end()){ delete r->second; rd.erase(r);} }
template<class T> static std::string text(const T& x){ std::stringstream s; s<<x; return s.str(); }
template<class T> static std::string text2(const T& x){ std::stringstream s; s<<x<<x; return s.str(); }
static std::string printTwice(GearMgr& g,const std::string& s){
#define X(n) if(s==#n) return text2(g.get##n##Parameters());
  CALS ZPLS
#undef X
  if(s=="FTD") return text2(g.getFTDParameters()); if(s=="SiPlanes") return text2(g.getSiPlanesParameters()); if(s=="TrackerPlanes") return text2(g.getTrackerPlanesParameters()); if(s=="TPC") return text2(g.getTPCParameters());
  if(s=="BField") return text2(g.getBField()); if(s=="all") return text2(g);
  throw std::logic_error("slot"); }
static std::string printPart(GearMgr& g,const std::string& s){
#define X(n) if(s==#n) return text(g.get##n##Parameters());
  CALS ZPLS
#undef X
  if(s=="FTD") return text(g.getFTDParameters()); if(s=="SiPlanes") return text(g.getSiPlanesParameters()); if(s=="TrackerPlanes") return text(g.getTrackerPlanesParameters()); if(s=="TPC") return text(g.getTPCParameters());
  if(s=="BField") return text(g.getBField()); if(s=="all") return text(g);
  throw std::logic_error("slot"); }

static J h(const Cmd& c){
  const std::string& o=c.op;
  if(o=="reset"){ while(!mg.empty()) drop(mg.begin()->first); while(!rd.empty()) drop(rd.begin()->first); for(auto&x:mx) delete x.second; mx.clear(); for(int i=0;i<10;++i) unlink(fn(std::to_string(i)).c_str());
    for(auto&t:replaced) if(XMLHandler* b=builtinReader(t)) XMLHandlerMgr::instance()->setHandler(t,b); replaced.clear(); return J(); }
  if(o=="handler"){ XMLHandler* b=c.s(1)==c.s(0)?builtinReader(c.s(0)):0; if(!b) b=new OwnReader(c.s(1)); XMLHandlerMgr::instance()->setHandler(c.s(0),b); replaced.insert(c.s(0)); return J(); }
  if(o=="handled") return J::b(XMLHandlerMgr::instance()->getHandler(c.s(0))!=0);
  if(o=="file"){ std::ofstream f(fn(c.s(0))); f<<c.s(1); return J(); }
  if(o=="rmfile"){ unlink(fn(c.s(0)).c_str()); return J(); }
  if(o=="same") return J::b(slurp(fn(c.s(0)))==slurp(fn(c.s(1))) && slurp(fn(c.s(0))).size()>10);
  if(o=="newmerge"){ int k=c.i(0); delete mx[k]; mx[k]=new MergeXML(); return J(); }
  if(o=="setfile"){ bool r = c.i(1)==1 ? mx.at(c.i(0))->setFile1(fn(c.s(2))) : mx.at(c.i(0))->setFile2(fn(c.s(2))); return J::b(r); }
  if(o=="dominant"){ mx.at(c.i(0))->makeDominant(c.i(1)); return J(); }
  if(o=="merge") return J::b(mx.at(c.i(0))->mergeFiles(fn(c.s(1))));
  int m=c.i(0);
  if(o=="new"){ drop(m); mg[m]=new GearMgrImpl(); return J(); }
  if(o=="open"){ drop(m); rd[m]=new GearXML(fn(c.s(1))); return J(); }      // reader only
  if(o=="parse"){ GearMgr* g=rd.at(m)->createGearMgr(); bool first=!mg.count(m); bool sm=first||mg[m]==g; mg[m]=g; return J::b(sm); }
  if(o=="read"){ GearXML x(fn(c.s(1))); GearMgr* g=x.createGearMgr(); drop(m); mg[m]=g; return J(); }
  GearMgr& g=*mg.at(m);
  if(o=="name"){ g.setDetectorName(c.s(1)); return J(); }
  if(o=="field"){ V v=parseJson(c.s(1)); ConstantBField* b=new ConstantBField(Vector3D(v["b"][0].f(),v["b"][1].f(),v["b"][2].f())); setPars(b,v["pars"]); g.setBField(b); return J(); }
  if(o=="sec"){ auto* p=new GearParametersImpl(); setPars(p,parseJson(c.s(2))); g.setGearParameters(c.s(1),p); return J(); }
  if(o=="mat"){ V v=parseJson(c.s(2)); g.registerSimpleMaterial(new SimpleMaterialImpl(c.s(1),atof(v[0].str.c_str()),atof(v[1].str.c_str()),atof(v[2].str.c_str()),atof(v[3].str.c_str()),atof(v[4].str.c_str()))); return J(); }
  if(o=="put"){ putSlot(g,c.s(1),parseJson(c.s(2))); return J(); }
  if(o=="mod"){ modify(g,c.s(1),c.i(2),c.i(3),c.i(4),c.i(5)); return J(); }
  if(o=="grow"){ grow(g,c.s(1),parseJson(c.s(2))); return J(); }
  if(o=="write"){ GearXML::createXMLFile(&g,fn(c.s(1))); return J(); }
  if(o=="obs") return getSlot(g,c.s(1));
  if(o=="obsname") return J::s(g.getDetectorName());
  if(o=="obsfield"){ Vector3D b=g.getBField().at(Vector3D(1,2,3)); return J::obj({{"b",fl({b.x(),b.y(),b.z()})},{"pars",parsView(g.getBField())}}); }
  if(o=="obssec") return parsView(g.getGearParameters(c.s(1)));
  if(o=="obsmat"){ const SimpleMaterial& s=g.getSimpleMaterial(c.s(1)); return J::strs({s.getName(),d9(s.getA()),d9(s.getZ()),d9(s.getDensity()),d9(s.getRadLength()),d9(s.getIntLength())}); }
  if(o=="seckeys") return J::strs(g.getGearParameterKeys());
  if(o=="matkeys") return J::strs(g.getMaterialNames());
  if(o=="ftd") return ftdPetal(g.getFTDParameters().getFTDLayerLayout(),c.s(1),c.i(2),c.i(3),c.i(4));
  if(o=="trpid"){ const TrackerPlanesLayerImpl* y=g.getTrackerPlanesParameters().getTrackerPlanesLayerLayout().getLayerByID(c.i(1)); return y?J::arr({trpLayer(y)}):J::arr({}); }
  if(o=="print"){ std::string t=printPart(g,c.s(1)); return J::obj({{"text",J::s(t)},{"again",J::b(printTwice(g,c.s(1))==t+t)}}); }
  throw std::logic_error("op "+o); }
int main(){ return run(h); }
