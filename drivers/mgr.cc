// registry driver (P01)
#include "common.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
#include <algorithm>
using namespace gear; using namespace vd;

static std::vector<int> died; static std::set<int> goneObj;
struct Tag { int id; Tag(int i):id(i){} ~Tag(){ died.push_back(id); goneObj.insert(id); } };
struct TSec: GearParametersImpl { Tag t; TSec(int i):t(i){} };
struct TTpc: TPCParametersImpl { Tag t; TTpc(int i):t(i){} };
struct TCal: CalorimeterParametersImpl { Tag t; TCal(int i):CalorimeterParametersImpl(1.,2.,8,0.),t(i){} };
struct TZpl: ZPlanarParametersImpl { Tag t; TZpl(int i):ZPlanarParametersImpl(ZPlanarParameters::CCD,0,0,0,0,0),t(i){} };
struct TFtd: FTDParametersImpl { Tag t; TFtd(int i):t(i){} };
struct TSip: SiPlanesParametersImpl { Tag t; TSip(int i):SiPlanesParametersImpl(1,1,1),t(i){} };
struct TTrp: TrackerPlanesParametersImpl { Tag t; TTrp(int i):TrackerPlanesParametersImpl(1,1,1),t(i){} };
struct TBf: ConstantBField { Tag t; TBf(int i):ConstantBField(Vector3D(0,0,1)),t(i){} };
struct TMat: SimpleMaterialImpl { Tag t; TMat(int i,const std::string&n):SimpleMaterialImpl(n,1,1,1,1,1),t(i){} };
struct TPt: GearPointProperties { Tag t; std::string s; TPt(int i):t(i){}
  long64 getCellID(const Vector3D&)const{return 0;} const std::string& getMaterialName(const Vector3D&)const{return s;}
  double getDensity(const Vector3D&)const{return 0;} double getTemperature(const Vector3D&)const{return 0;} double getPressure(const Vector3D&)const{return 0;}
  double getRadlen(const Vector3D&)const{return 0;} double getIntlen(const Vector3D&)const{return 0;}
  Vector3D getLocalPosition(const Vector3D&)const{return Vector3D();} Vector3D getB(const Vector3D&)const{return Vector3D();} Vector3D getE(const Vector3D&)const{return Vector3D();}
  std::vector<std::string> getListOfLogicalVolumes(const Vector3D&)const{return {};} std::vector<std::string> getListOfPhysicalVolumes(const Vector3D&)const{return {};}
  std::string getRegion(const Vector3D&)const{return "";} bool isTracker(const Vector3D&)const{return false;} bool isCalorimeter(const Vector3D&)const{return false;} };
struct TDi: GearDistanceProperties { Tag t; std::vector<std::string> n; std::vector<double> d; TDi(int i):t(i){}
  const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&)const{return n;} const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&)const{return d;}
  double getNRadlen(const Vector3D&,const Vector3D&)const{return 0;} double getNIntlen(const Vector3D&,const Vector3D&)const{return 0;}
  double getBdL(const Vector3D&,const Vector3D&)const{return 0;} double getEdL(const Vector3D&,const Vector3D&)const{return 0;} };

struct Obj { std::string k; void* p; GearParametersImpl* gp; };
static std::map<int,Obj> objs;
static GearMgrImpl* mg[3];
static const void* store0[3];
static std::string extraFields;

template<class T> static int idOf(const std::string& k,const T* p){ // identity by address, as handed out
  for(auto&o: objs) if(o.second.k==k && !goneObj.count(o.first) && (const T*)(T*)o.second.p==p) return o.first; return -1; }
#define P(T,k) (c.i(2)==0?(T*)0:(T*)objs.at(c.i(2)).p)

static J keys(const std::vector<std::string>& v){ extraFields=std::string(",\"sorted\":")+(std::is_sorted(v.begin(),v.end())?"true":"false"); return J::strs(v); }

static J h(const Cmd& c){
  extraFields="";
  if(c.op=="reset"){ for(int m=1;m<=2;++m){ delete mg[m]; mg[m]=new GearMgrImpl(); store0[m]=&mg[m]->getMeasurementSurfaceStore(); } objs.clear(); died.clear(); goneObj.clear(); return J(); }
  died.clear();
  if(c.op=="new"){ int o=c.i(0); const std::string&k=c.s(1); Obj x; x.k=k; x.gp=0;
    if(k=="Cal"){ TCal*p=new TCal(o); x.p=(CalorimeterParameters*)p; x.gp=p; }
    else if(k=="Zpl"){ x.p=(ZPlanarParameters*)new TZpl(o);} else if(k=="TPC"){ x.p=(TPCParameters*)new TTpc(o);} 
    else if(k=="FTD"){ x.p=(FTDParameters*)new TFtd(o);} else if(k=="TrackerPlanes"){ x.p=(TrackerPlanesParameters*)new TTrp(o);} 
    else if(k=="SiPlanes"){ x.p=(SiPlanesParameters*)new TSip(o);} else if(k=="Point"){ x.p=(GearPointProperties*)new TPt(o);} 
    else if(k=="Distance"){ x.p=(GearDistanceProperties*)new TDi(o);} else if(k=="BField"){ x.p=(BField*)new TBf(o);} 
    else if(k=="Sec"){ x.p=(GearParameters*)new TSec(o);} else if(k=="Mat"){ x.p=(SimpleMaterial*)new TMat(o,c.s(2)); }
    else throw std::logic_error("kind");
    if(x.gp && c.i(3)>=0) x.gp->setDoubleVal("beam_crossing_angle",c.i(3));
    objs[o]=x; return J(); }
  if(c.op=="bxa"){ Obj&x=objs.at(c.i(0)); return J::f(((CalorimeterParameters*)x.p)->getDoubleVal("beam_crossing_angle"),1); }
  int m=c.i(0); GearMgr* g=mg[m];
  if(c.op=="setSlot"){ const std::string&s=c.s(1);
#define SC(N) if(s==#N){ g->set##N##Parameters(P(CalorimeterParameters,"Cal")); return J(); }
    SC(EcalBarrel) SC(EcalEndcap) SC(EcalPlug) SC(YokeBarrel) SC(YokeEndcap) SC(YokePlug) SC(HcalBarrel) SC(HcalEndcap) SC(HcalRing) SC(Lcal) SC(LHcal) SC(BeamCal)
    if(s=="VXD"){ g->setVXDParameters(P(ZPlanarParameters,"Zpl")); return J(); }
    if(s=="SIT"){ g->setSITParameters(P(ZPlanarParameters,"Zpl")); return J(); }
    if(s=="SET"){ g->setSETParameters(P(ZPlanarParameters,"Zpl")); return J(); }
    if(s=="TPC"){ g->setTPCParameters(P(TPCParameters,"TPC")); return J(); }
    if(s=="FTD"){ g->setFTDParameters(P(FTDParameters,"FTD")); return J(); }
    if(s=="TrackerPlanes"){ g->setTrackerPlanesParameters(P(TrackerPlanesParameters,s)); return J(); }
    if(s=="SiPlanes"){ g->setSiPlanesParameters(P(SiPlanesParameters,s)); return J(); }
    if(s=="Point"){ g->setPointProperties(P(GearPointProperties,s)); return J(); }
    if(s=="Distance"){ g->setDistanceProperties(P(GearDistanceProperties,s)); return J(); }
    if(s=="BField"){ mg[m]->setBField(P(BField,s)); return J(); }
    throw std::logic_error("slot"); }
  if(c.op=="getSlot"){ const std::string&s=c.s(1); const GearMgr*g=mg[m];
#define GC(N) if(s==#N) return J::i(idOf<CalorimeterParameters>("Cal",&g->get##N##Parameters()));
    GC(EcalBarrel) GC(EcalEndcap) GC(EcalPlug) GC(YokeBarrel) GC(YokeEndcap) GC(YokePlug) GC(HcalBarrel) GC(HcalEndcap) GC(HcalRing) GC(Lcal) GC(LHcal) GC(BeamCal)
    if(s=="VXD") return J::i(idOf<ZPlanarParameters>("Zpl",&g->getVXDParameters()));
    if(s=="SIT") return J::i(idOf<ZPlanarParameters>("Zpl",&g->getSITParameters()));
    if(s=="SET") return J::i(idOf<ZPlanarParameters>("Zpl",&g->getSETParameters()));
    if(s=="TPC") return J::i(idOf<TPCParameters>("TPC",&g->getTPCParameters()));
    if(s=="FTD") return J::i(idOf<FTDParameters>("FTD",&g->getFTDParameters()));
    if(s=="TrackerPlanes") return J::i(idOf<TrackerPlanesParameters>(s,&g->getTrackerPlanesParameters()));
    if(s=="SiPlanes") return J::i(idOf<SiPlanesParameters>(s,&g->getSiPlanesParameters()));
    if(s=="Point") return J::i(idOf<GearPointProperties>(s,&g->getPointProperties()));
    if(s=="Distance") return J::i(idOf<GearDistanceProperties>(s,&g->getDistanceProperties()));
    if(s=="BField") return J::i(idOf<BField>(s,&g->getBField()));
    throw std::logic_error("slot"); }
  if(c.op=="setSec"){ g->setGearParameters(c.s(1),P(GearParameters,"Sec")); return J(); }
  if(c.op=="getSec") return J::i(idOf<GearParameters>("Sec",&((const GearMgr*)g)->getGearParameters(c.s(1))));
  if(c.op=="secKeys") return keys(g->getGearParameterKeys());
  if(c.op=="regMat"){ g->registerSimpleMaterial((const SimpleMaterial*)objs.at(c.i(1)).p); return J(); }
  if(c.op=="getMat") return J::i(idOf<SimpleMaterial>("Mat",&g->getSimpleMaterial(c.s(1))));
  if(c.op=="matNames") return keys(g->getMaterialNames());
  if(c.op=="setName"){ g->setDetectorName(c.s(1)); return J(); }
  if(c.op=="getName") return J::s(((const GearMgr*)g)->getDetectorName());
  if(c.op=="store"){ const void*p=&g->getMeasurementSurfaceStore(); for(int k=1;k<=2;++k) if(mg[k]&&store0[k]==p) return J::i(k); return J::i(0); }
  if(c.op=="destroy"){ delete mg[m]; mg[m]=0; return J(); }
  throw std::logic_error("op");
}
int main(){ extraFn=[](){ return extraFields+",\"d\":"+J::ints(died).t; }; return run(h); }
