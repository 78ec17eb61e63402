// TPC modules and TPCs (P12, P13, P14, P11): placement, queries in global coordinates, aggregation, copies
#include "common.h"
#include "json.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/GlobalPadIndex.h"
using namespace vd; using namespace gear;
typedef RectangularPadRowLayout Rect; typedef FixedPadSizeDiskLayout Fps; typedef FixedPadAngleDiskLayout Fpa; typedef VersatileDiskRowLayout Vers;
static double L=1e4; static const double A=1e6;
static std::map<int,TPCModuleImpl*> mo; static std::map<int,TPCParametersImpl*> tp;
static double len(const V& v){ return v.num/L; }
static double ang(const V& v){ double x=v.num; double s=x<0?-1:1; x=fabs(x);
  if(x==6283185) return s*2*M_PI; if(x==3141593) return s*M_PI; if(x==1570796) return s*M_PI/2; return s*x/A; }
static bool pol(int t){ return t==PadRowLayout2D::POLAR; }
static PadRowLayout2D* layout(const V& v){ const std::string& k=v["k"].str; const V& a=v["a"];
  if(k=="fps") return new Fps(len(a[0]),len(a[1]),len(a[2]),len(a[3]),a[4].i(),len(a[5]),ang(a[6]));
  if(k=="fpa") return new Fpa(len(a[0]),len(a[1]),a[2].i(),ang(a[3]),ang(a[4]),a[5].i());
  if(k=="rect"){ auto* r=new Rect(len(a[0]),len(a[1]),len(a[2])); for(auto& g: v["gs"].arr) r->addRow(g[0].i(),g[1].i(),len(g[2]),len(g[3]),len(g[4]),len(g[5]),len(g[6])); return r; }
  auto* w=new Vers(len(a[0])); for(auto& g: v["gs"].arr){ double pitch=len(g[2]);
    if(g[2].num==-1) pitch=2*M_PI*(w->getPlaneExtent()[1]+len(g[3])/2)/g[1].i()*(1-1e-12);
    w->addRow(g[1].i(),pitch,len(g[3]),len(g[4]),len(g[5]),len(g[6]),g[0].i()); }
  return w; }
static TPCModuleImpl& own(const V& v){ auto it=mo.find(v.i()); if(it==mo.end()) throw 1; return *it->second; }
static TPCParametersImpl& tpc(const V& v){ auto it=tp.find(v.i()); if(it==tp.end()) throw 1; return *it->second; }
static const TPCModuleImpl& mod(const V& v){ if(v.has("m")) return own(v["m"]); return dynamic_cast<const TPCModuleImpl&>(tpc(v["t"]).getModule(v["ID"].i())); }
static J pt(const Vector2D& p,bool polar){ return J::arr({J::f(p[0],L),J::f(p[1],polar?A:L)}); }
static J ext(const std::vector<double>& e,bool polar){ std::vector<J> o; for(size_t k=0;k<e.size();++k) o.push_back(J::f(e[k],k<2||!polar?L:A)); return J::arr(o); }
static J pad(const PadRowLayout2D& l,int idx){ int r=l.getRowNumber(idx), p=l.getPadNumber(idx); int same=0; try{ same = l.getPadIndex(r,p)==idx; }catch(...){}
  return J::ints(std::vector<int>{r,p,same}); }
static double gap(const Vector2D& a,const Vector2D& b,bool polar){
  if(polar) return hypot(a[0]*cos(a[1])-b[0]*cos(b[1]),a[0]*sin(a[1])-b[0]*sin(b[1])); return hypot(a[0]-b[0],a[1]-b[1]); }
template<class T> static void put(std::map<int,T*>& f,int id,T* p){ auto it=f.find(id); if(it!=f.end()) delete it->second; f[id]=p; }
static J side(const PadRowLayout2D& l,int i,bool left){ try{ return pad(l,left?l.getLeftNeighbour(i):l.getRightNeighbour(i)); }catch(gear::Exception&){ return J::ints(std::vector<int>{-1,-1,-1}); } }
static J zOf(const TPCModule& m){ try{ double z=m.getZPosition(); return J::arr({J::i(1),J::f(z,L)}); }catch(TPCModule::NoZPositionException&){ return J::ints(std::vector<int>{0,0}); } }
static J h(const Cmd& c){
  const std::string& op=c.op;
  if(op=="reset"){ L=1e4; for(auto& p: mo) delete p.second; mo.clear(); for(auto& p: tp) delete p.second; tp.clear(); return J::i(0); }
  V v=parseJson(c.s(0)); if(v.has("sc")) L=1e4/v["sc"].num;
  // ---- modules
  if(op=="mkmod"){ put(mo,v["m"].i(),new TPCModuleImpl(v["ID"].i(),layout(v),v["tc"].i(),v["f"].num)); return J::i(0); }
  if(op=="setoff"){ TPCModuleImpl& m=own(v["m"]); m.setOffset(len(v["x"]),pol(m.getTPCCoordinateType())?ang(v["y"]):len(v["y"])); return J::i(0); }
  if(op=="setang"){ own(v["m"]).setAngle(ang(v["x"])); return J::i(0); }
  if(op=="setz"){ own(v["m"]).setZPosition(len(v["x"])); return J::i(0); }
  if(op=="setborder"){ own(v["m"]).setBorderWidth(len(v["x"])); return J::i(0); }
  if(op=="setfreq"){ own(v["m"]).setReadoutFrequency(v["x"].num); return J::i(0); }
  if(op=="mparam"){ own(v["m"]).setDoubleVal(v["n"].str,v["x"].num); return J::i(0); }
  if(op=="mcopy"){ put(mo,v["m"].i(),new TPCModuleImpl(own(v["from"]))); return J::i(0); }
  if(op=="mclone"){ put(mo,v["m"].i(),dynamic_cast<TPCModuleImpl*>(own(v["from"]).clone())); return J::i(0); }
  if(op=="massign"){ TPCModuleImpl& d=own(v["m"]); const TPCModuleImpl& s=own(v["from"]); d=s; return J::i(0); }
  if(op=="mdel"){ delete &own(v["m"]); mo.erase(v["m"].i()); return J::i(0); }
  // ---- TPCs
  if(op=="tnew"){ put(tp,v["t"].i(),v["plain"].i()?new TPCParametersImpl():new TPCParametersImpl(len(v["drift"]),v["tc"].i())); return J::i(0); }
  if(op=="tcopy"){ put(tp,v["t"].i(),new TPCParametersImpl(tpc(v["from"]))); return J::i(0); }
  if(op=="tassign"){ TPCParametersImpl& d=tpc(v["t"]); const TPCParametersImpl& s=tpc(v["from"]); d=s; return J::i(0); }
  if(op=="tdel"){ delete &tpc(v["t"]); tp.erase(v["t"].i()); return J::i(0); }
  if(op=="tadd"){ TPCModuleImpl& m=own(v["m"]); tpc(v["t"]).addModule(&m); mo.erase(v["m"].i()); return J::i(0); }
  if(op=="taddnull"){ tpc(v["t"]).addModule(0); return J::i(0); }
  if(op=="tpads"){ PadRowLayout2D* l=layout(v); try{ tpc(v["t"]).setPadLayout(l); }catch(...){ delete l; throw; } return J::i(0); }
  if(op=="tpadsmod"){ TPCModuleImpl& m=own(v["m"]); tpc(v["t"]).setPadLayout(&m); mo.erase(v["m"].i()); return J::i(0); }
  if(op=="tdrift"){ tpc(v["t"]).setMaxDriftLength(len(v["x"])); return J::i(0); }
  if(op=="tvel"){ tpc(v["t"]).setDriftVelocity(v["x"].num); return J::i(0); }
  if(op=="tfreq"){ tpc(v["t"]).setReadoutFrequency(v["x"].num); return J::i(0); }
  if(op=="tparam"){ tpc(v["t"]).setDoubleVal(v["n"].str,v["x"].num); return J::i(0); }
  if(op=="tgetparam") return J::f(tpc(v["t"]).getDoubleVal(v["n"].str),1);
  if(op=="tget"){ const TPCParameters& t=tpc(v["t"]); std::vector<int> ids; for(auto* m: t.getModules()) ids.push_back(m->getModuleID());
    return J::arr({J::f(t.getMaxDriftLength(),L),J::i(t.getCoordinateType()),J::i(t.getNModules()),J::ints(ids),J::f(t.getDriftVelocity(),1)}); }
  if(op=="tgetfreq") return J::f(tpc(v["t"]).getReadoutFrequency(),1);
  if(op=="tgetpads"){ const TPCParameters& t=tpc(v["t"]); const PadRowLayout2D& l=t.getPadLayout(); return J::ints(std::vector<int>{l.getNRows(),l.getNPads(),&l==static_cast<const PadRowLayout2D*>(t.getModules()[0])}); }
  if(op=="text"){ const TPCParameters& t=tpc(v["t"]); std::vector<J> x; bool p=pol(t.getCoordinateType()); for(auto* m: t.getModules()) x.push_back(ext(m->getModuleExtent(),p));
    return J::arr({ext(t.getPlaneExtent(),p),J::arr(x)}); }
  if(op=="tnearmod"||op=="tnearpad"||op=="tinmod"||op=="tinpad"){ const TPCParametersImpl& t=tpc(v["t"]); bool p=pol(t.getCoordinateType());
    double x=len(v["px"]), y=p?ang(v["py"]):len(v["py"]), z=len(v["z"]); bool d3=v["d3"].i()!=0;
    J ans; std::string ex="ok";
    try{
      if(op=="tnearmod"){ const TPCModule& m=d3?t.getNearestModule(x,y,z):t.getNearestModule(x,y); ans=J::i(m.getModuleID()); }
      else if(op=="tinmod") ans=J::b(d3?t.isInsideModule(x,y,z):t.isInsideModule(x,y));
      else if(op=="tinpad") ans=J::b(d3?t.isInsidePad(x,y,z):t.isInsidePad(x,y));
      else { GlobalPadIndex g=d3?t.getNearestPad(x,y,z):t.getNearestPad(x,y); const TPCModule& m=t.getModule(g.getModuleID()); ans=J::arr({J::i(g.getModuleID()),pad(m,g.getPadIndex())}); }
    }catch(...){ ex=excKind(); }
    std::vector<J> loc; for(auto* q: t.getModules()){ const TPCModuleImpl* m=dynamic_cast<const TPCModuleImpl*>(q); loc.push_back(pt(m->globalToLocal(x,y),pol(m->getLocalPadLayout().getCoordinateType()))); }
    return J::obj({{"x",J::s(ex)},{"a",ans},{"l",J::arr(loc)}}); }
  // ---- questions to a module, free or in a TPC
  const TPCModuleImpl& m=mod(v); const PadRowLayout2D& l=m.getLocalPadLayout(); bool gp=pol(m.getTPCCoordinateType()), lp=pol(l.getCoordinateType());
  if(op=="mget"){ const TPCModule& b=m; return J::arr({J::i(b.getModuleID()),J::i(b.getTPCCoordinateType()),pt(b.getOffset(),gp),J::f(b.getAngle(),A),zOf(b),J::f(b.getBorderWidth(),L),J::f(b.getReadoutFrequency(),1)}); }
  if(op=="mgetparam") return J::f(m.getDoubleVal(v["n"].str),1);
  if(op=="mtypes"){ int over=0; try{ m.isOverlapping(const_cast<TPCModuleImpl*>(&m)); }catch(gear::NotImplementedException&){ over=1; }
    return J::ints(std::vector<int>{m.getPadLayoutImplType()==PadRowLayout2D::TPCMODULE,m.getCoordinateType(),m.getPadLayoutType(),m.getPadShape(),l.getCoordinateType(),over}); }
  if(op=="mext") return J::arr({ext(l.getPlaneExtent(),lp),ext(m.getLocalModuleExtent(),lp),ext(m.getPlaneExtent(),gp),ext(m.getModuleExtent(),gp)});
  double x=0,y=0;
  if(op=="l2g"){ x=len(v["px"]); y=lp?ang(v["py"]):len(v["py"]); Vector2D g=m.localToGlobal(x,y), b=m.globalToLocal(g[0],g[1]); return J::arr({pt(g,gp),J::f(gap(b,Vector2D(x,y),lp),1e6)}); }
  if(v.has("px")){ x=len(v["px"]); y=gp?ang(v["py"]):len(v["py"]); }
  if(op=="g2l"){ Vector2D q=m.globalToLocal(x,y), b=m.localToGlobal(q[0],q[1]); return J::arr({pt(q,lp),J::f(gap(b,Vector2D(x,y),gp),1e6)}); }
  J q; if(v.has("px")) q=pt(m.globalToLocal(x,y),lp);
  if(op=="minside") return J::arr({q,J::b(m.isInsideModule(x,y))});
  if(op=="mdist") return J::arr({q,J::f(m.getDistanceToModule(x,y),L)});
  if(op=="mnear") return J::arr({q,pad(m,m.getNearestPad(x,y))});
  if(op=="minany") return J::arr({q,J::b(m.isInsidePad(x,y))});
  int i=m.getPadIndex(v["row"].i(),v["pad"].i());
  if(op=="minpad") return J::arr({q,J::b(m.isInsidePad(x,y,i))});
  if(op=="mpdist") return J::arr({q,J::f(m.getDistanceToPad(x,y,i),L)});
  if(op=="mcentre"){ Vector2D p=m.getPadCenter(i); int n=m.getNearestPad(p[0],p[1]);
    return J::arr({pt(p,gp),J::ints(std::vector<long>{m.isInsidePad(p[0],p[1],i),m.isInsidePad(p[0],p[1]),m.getRowNumber(n),m.getPadNumber(n),fx(m.getDistanceToPad(p[0],p[1],i),L),m.isInsideModule(p[0],p[1]),fx(m.getDistanceToModule(p[0],p[1]),L)})}); }
  if(op=="mdeleg"){ int r=v["row"].i(); auto wid=[&](double w){ return J::f(w,lp?A:L); };
    return J::arr({J::i(m.getNRows()),J::i(m.getNPads()),J::f(m.getRowHeight(r),L),wid(m.getPadWidth(i)),J::f(m.getPadHeight(i),L),wid(m.getPadPitch(i)),J::i((long)m.getPadsInRow(r).size()),pad(m,i),side(m,i,true),side(m,i,false)}); }
  throw 2; }
int main(){ return run(h); }
