// measurement surfaces and their store (P19)
#include "common.h"
#include "json.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
#include "CLHEP/Vector/Rotation.h"
using namespace vd; using namespace gear; using CLHEP::Hep3Vector; using CLHEP::HepRotation;
static double L=1e4;
static std::map<int,MeasurementSurface*> sf; static std::map<int,MeasurementSurfaceStore*> st;
static double ang(const V& v){ double x=v.num; double s=x<0?-1:1; x=fabs(x);
  if(x==6283185) return s*2*M_PI; if(x==3141593) return s*M_PI; if(x==1570796) return s*M_PI/2; return s*x/1e6; }
static Hep3Vector vec(const V& v){ return Hep3Vector(v[0].num/L,v[1].num/L,v[2].num/L); }
static J out(const Hep3Vector& p){ return J::arr({J::f(p.x(),L),J::f(p.y(),L),J::f(p.z(),L)}); }
static J dir(const Hep3Vector& p){ return J::arr({J::f(p.x(),1e6),J::f(p.y(),1e6),J::f(p.z(),1e6)}); }
struct Fill: MeasurementSurfaceStoreFiller { std::string n; std::vector<MeasurementSurface*> l; bool fail=false;
  void getMeasurementSurfaces(std::vector<MeasurementSurface*>& v) const { for(auto* s: l) v.push_back(s); if(fail) throw gear::Exception("filler"); }
  std::string getName() const { return n; } };
static J h(const Cmd& c){
  if(c.op=="reset"){ L=1e4; sf.clear(); st.clear(); return J::i(0); }  // who owns the surfaces is left open
  V v=parseJson(c.s(0)); if(v.has("sc")) L=1e4/v["sc"].num; const std::string& op=c.op;
  if(op=="surf"){ HepRotation R; for(auto& r: v["R"].arr){ double a=ang(r[1]); int x=r[0].i(); if(x==1) R.rotateX(a); else if(x==2) R.rotateY(a); else R.rotateZ(a); }
    ICoordinateSystem* cs=new CartesianCoordinateSystem(vec(v["T"]),R); const V& b=v["b"]; const std::string& k=v["k"].str;
    MeasurementSurface* m;
    if(k=="none") m=new MeasurementSurface(v["ID"].i(),cs);
    else if(k=="rect") m=new MeasurementSurface(v["ID"].i(),cs, b[3].num==0 ? new BoundaryRectangle(b[0].num/L,b[1].num/L,b[2].num/L) : new BoundaryRectangle(b[0].num/L,b[1].num/L,b[2].num/L,ang(b[3])));
    else m=new MeasurementSurface(v["ID"].i(),cs,new BoundaryTrapezoid(b[0].num/L,b[1].num/L,b[2].num/L,b[3].num/L,ang(b[4])));
    sf[v["s"].i()]=m; return J::i(m->getID()); }
  if(v.has("s")){ MeasurementSurface& m=*sf.at(v["s"].i()); CartesianCoordinateSystem* cs=dynamic_cast<CartesianCoordinateSystem*>(m.getCoordinateSystem());
    if(op=="id") return J::i(m.getID());
    if(op=="local") return out(cs->getLocalPoint(vec(v["p"])));
    if(op=="global") return out(cs->getGlobalPoint(vec(v["p"])));
    if(op=="trip"){ Hep3Vector p=vec(v["p"]); return J::arr({out(cs->getLocalPoint(cs->getGlobalPoint(p))),out(cs->getGlobalPoint(cs->getLocalPoint(p)))}); }
    if(op=="frame"){ const HepRotation& R=*cs->getR(); return J::arr({out(*cs->getOrigin()),dir(cs->getLocalXAxis()),dir(cs->getLocalYAxis()),dir(cs->getLocalZAxis()),
      J::arr({J::f(R.xx(),1e6),J::f(R.yx(),1e6),J::f(R.zx(),1e6)}),J::arr({J::f(R.xy(),1e6),J::f(R.yy(),1e6),J::f(R.zy(),1e6)}),J::arr({J::f(R.xz(),1e6),J::f(R.yz(),1e6),J::f(R.zz(),1e6)})}); }
    if(op=="inl") return J::b(m.isLocalInBoundary(vec(v["p"])));
    if(op=="ing") return J::b(m.isGlobalInBoundary(vec(v["p"])));
    if(op=="both"){ Hep3Vector p=vec(v["p"]); return J::ints(std::vector<int>{m.isLocalInBoundary(p),m.isGlobalInBoundary(cs->getGlobalPoint(p))}); }
    throw 1; }
  int t=v["t"].i();
  if(op=="store"){ st[t]=new MeasurementSurfaceStore(); return J::i(0); }
  if(op=="dup"){ st[t]=new MeasurementSurfaceStore(*st.at(v["from"].i())); return J::i(0); }
  MeasurementSurfaceStore& s=*st.at(t);
  if(op=="fill"){ Fill f; f.n=v["name"].str; f.fail=v["fail"].num!=0; for(auto& x: v["l"].arr) f.l.push_back(sf.at(x.i())); s.FillStore(&f); return J::i(0); }
  if(op=="look"){ const MeasurementSurface* m=s.GetMeasurementSurface(v["ID"].i()); for(auto& x: sf) if(x.second==m) return J::i(x.first); return J::i(-1); }
  if(op=="filled") return J::b(s.isFilled());
  if(op=="name") return J::s(s.getFillerName());
  throw 2; }
int main(){ return run(h); }
