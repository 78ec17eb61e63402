// ladder detectors (P16, P17): containment, sensor identity, nearest volume, first intersection
#include "common.h"
#include "json.h"
#include "gearimpl/ZPlanarParametersImpl.h"
using namespace vd; using namespace gear;
static double L=1e4; static const double A=1e6;
static std::map<int,std::unique_ptr<ZPlanarParametersImpl>> ds;
static double ang(const V& v){ double x=v.num; double s=x<0?-1:1; x=fabs(x);
  if(x==6283185) return s*2*M_PI; if(x==3141593) return s*M_PI; if(x==1570796) return s*M_PI/2; if(x==4712389) return s*1.5*M_PI; return s*x/A; }
static Vector3D vec(const V& v){ return Vector3D(v[0].num/L,v[1].num/L,v[2].num/L); }
static J out(const Vector3D& p){ return J::arr({J::f(p[0],L),J::f(p[1],L),J::f(p[2],L)}); }
static J h(const Cmd& c){
  if(c.op=="reset"){ L=1e4; ds.clear(); return J::i(0); }
  V v=parseJson(c.s(0)); if(v.has("sc")) L=1e4/v["sc"].num; const std::string& op=c.op; int d=v["d"].i();
  if(op=="new"){ ds[d].reset(new ZPlanarParametersImpl(ZPlanarParametersImpl::CCD,10,100,v["half"].num/L,v["gap"].num/L,1)); return J::i(0); }
  if(op=="copy"){ auto* n=new ZPlanarParametersImpl(*ds.at(v["from"].i())); ds[d].reset(n); return J::i(0); }
  ZPlanarParametersImpl& z=*ds.at(d); const ZPlanarParameters& q=z;
  if(op=="layer"){ const V& l=v["L"]; const V& s=v["S"];
    z.addLayer(v["n"].i(),ang(v["phi0"]),l[0].num/L,l[1].num/L,l[2].num/L,l[3].num/L,l[4].num/L,1,s[0].num/L,s[1].num/L,s[2].num/L,s[3].num/L,s[4].num/L,1); return J::i(0); }
  if(op=="get"){ const ZPlanarLayerLayout& y=q.getZPlanarLayerLayout(); std::vector<J> o; for(int i=0;i<y.getNLayers();++i)
      o.push_back(J::arr({J::i(y.getNLadders(i)),J::f(y.getPhi0(i),A),
        J::arr({J::f(y.getLadderDistance(i),L),J::f(y.getLadderOffset(i),L),J::f(y.getLadderThickness(i),L),J::f(y.getLadderLength(i),L),J::f(y.getLadderWidth(i),L)}),
        J::arr({J::f(y.getSensitiveDistance(i),L),J::f(y.getSensitiveOffset(i),L),J::f(y.getSensitiveThickness(i),L),J::f(y.getSensitiveLength(i),L),J::f(y.getSensitiveWidth(i),L)})}));
    return J::arr(o); }
  Vector3D p=vec(v["p"]); bool s=v["s"].num!=0;
  if(op=="in"){ if(!s) return J::b(q.isPointInLadder(p)); return J::b(q.isPointInSensitive(p)); }
  if(op=="id"){ SensorID id; id.layer=id.side=id.module=id.sensor=-77; bool r=q.isPointInSensitive(p,&id); return J::arr({J::i(r),J::i(id.layer),J::i(id.side),J::i(id.module),J::i(id.sensor)}); }
  if(op=="dist") return out(s?q.distanceToNearestSensitive(p):q.distanceToNearestLadder(p));
  if(op=="track"){ Vector3D w=vec(v["v"]); double k=v["k"].num/1000.; w=Vector3D(k*w[0],k*w[1],k*w[2]);
    return out(s?q.intersectionSensitive(p,w):q.intersectionLadder(p,w)); }
  throw 2; }
int main(){ return run(h); }
