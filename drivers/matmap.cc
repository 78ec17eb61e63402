// material maps (P23) over a stand-in for the geometry
// sources: src/geartgeo/MaterialMap.cc src/geartgeo/MaterialMapFactory.cc
#include "common.h"
#include "json.h"
#include "gearimpl/GearMgrImpl.h"
#include "gear/GearDistanceProperties.h"
#include "gear/geartgeo/MaterialMap.h"
#include "gear/geartgeo/MaterialMapFactory.h"
using namespace vd; using namespace gear;
static const double S=1e6;
// material along a straight line from the vertex: smooth, different in every octant
struct World : GearDistanceProperties {
  double c[2][7]={}; std::vector<std::string> n; std::vector<double> t;
  double val(int k,const Vector3D& a,const Vector3D& b) const {
    if(fabs(a[0])+fabs(a[1])+fabs(a[2])>1e-9) return -1000;
    double m=fabs(b[0])+fabs(b[1])+fabs(b[2]); if(m<1e-6) return 0;
    double v=c[k][0]/S; for(int i=0;i<3;++i) v+=c[k][1+i]/S*b[i]+c[k][4+i]/S*fabs(b[i]); return v; }
  const std::vector<std::string>& getMaterialNames(const Vector3D&,const Vector3D&) const { return n; }
  const std::vector<double>& getMaterialThicknesses(const Vector3D&,const Vector3D&) const { return t; }
  double getNRadlen(const Vector3D& a,const Vector3D& b) const { return val(0,a,b); }
  double getNIntlen(const Vector3D& a,const Vector3D& b) const { return val(1,a,b); }
  double getBdL(const Vector3D&,const Vector3D&) const { return 0; }
  double getEdL(const Vector3D&,const Vector3D&) const { return 0; }
};
static std::unique_ptr<GearMgrImpl> mgr; static World* w; static std::map<int,std::unique_ptr<MaterialMapFactory>> fac;
static std::map<int,MaterialMap*> ms; static std::vector<MaterialMap*> seen;
static J h(const Cmd& c){
  if(c.op=="reset"){ ms.clear(); for(MaterialMap* m: seen) delete m; seen.clear(); fac.clear(); mgr.reset(new GearMgrImpl); w=0; return J::i(0); }
  V v=parseJson(c.s(0)); const std::string& op=c.op; int m=v["m"].i();
  if(op=="world"){ if(!w){ w=new World; mgr->setDistanceProperties(w); } for(int k=0;k<2;++k) for(int i=0;i<7;++i) w->c[k][i]=v["c"][k][i].num; return J::i(0); }
  if(op=="make"){ const V& g=v["g"]; auto d=[&](int i){ double x=g[i].num/S; if(v.has("e")&&v["e"][0].i()==i+1) x+=v["e"][1].num*1e-10; return x; }; auto n=[&](int i){ return (int)g[i].num; }; int f=v["f"].i(); MaterialMap* p;
    if(!f) p=new MaterialMap(mgr.get(),d(0),d(1),n(2),d(3),d(4),n(5),d(6),d(7),n(8),v["coord"].i());
    else { if(!fac[f]) fac[f].reset(new MaterialMapFactory(mgr.get())); p=fac[f]->createMaterialMap(d(0),d(1),n(2),d(3),d(4),n(5),d(6),d(7),n(8),v["coord"].i()); }
    if(!p) return J::i(-1);
    size_t k=0; while(k<seen.size()&&seen[k]!=p) ++k; if(k==seen.size()) seen.push_back(p);
    ms[m]=p; return J::i((long)k); }
  if(op=="ask"){ MaterialMap& p=*ms.at(m); const V& q=v["p"]; double x=q[0].num/S,y=q[1].num/S,z=q[2].num/S;
    return J::arr({J::f(p.getRadiationLength(x,y,z),S),J::f(p.getInteractionLength(x,y,z),S)}); }
  throw 2; }
int main(){ return run(h); }
