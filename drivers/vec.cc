// three-vectors (P20)
#include "common.h"
#include "json.h"
#include "gearimpl/Vector3D.h"
#include "gearimpl/Vectors.h"
#include "CLHEP/Vector/ThreeVector.h"
using namespace vd; using gear::Vector3D;
static std::map<int,Vector3D> reg; static double U=1;   // U: power of two, one unit of the model
struct Other { double a,b,c; Other(double x,double y,double z):a(x),b(y),c(z){} double x()const{return a;} double y()const{return b;} double z()const{return c;} };
static J n(double v){ return J::f(v/U,1); }
static J n2(double v){ return J::f(v/U/U,1); }
static Vector3D& at(const V& v){ return reg.at(v.i()); }
// an exact whole number of units, or a sentinel
static J ex(double v){ double w=v/U; if(w!=std::floor(w)||std::fabs(w)>1e9) return J::i(2000000002L); return J::i((long)w); }
static J ex2(double v){ double w=v/U/U; if(w!=std::floor(w)||std::fabs(w)>1.9e9) return J::i(2000000002L); return J::i((long)w); }
static J show(const Vector3D& c){ Vector3D m(c); return J::arr({ex(c.x()),ex(c.y()),ex(c.z()),ex(m.x()),ex(m.y()),ex(m.z()),ex(c[0]),ex(c[1]),ex(c[2]),ex(m[0]),ex(m[1]),ex(m[2])}); }
static double ang(const V& v){ double x=v.num; double s=x<0?-1:1; x=fabs(x);
  if(x==6283185) return s*2*M_PI; if(x==3141593) return s*M_PI; if(x==1570796) return s*M_PI/2; return s*x/1e6; }
static J geo(const Vector3D& p,double sc){ return J::arr({J::f(p.x(),sc),J::f(p.y(),sc),J::f(p.z(),sc),J::f(p.rho(),sc),J::f(p.trans(),sc),J::f(p.r(),sc),J::f(p.phi(),1e6),J::f(p.theta(),1e6)}); }
// plain vectors of two, three and five components
struct ND { virtual ~ND(){} virtual int n()=0; virtual double get(unsigned)=0; virtual double cget(unsigned)=0; virtual void set(unsigned,double)=0; virtual ND* copy()=0; virtual const std::string& kind()=0; };
template <class T,int N> struct NDof: ND { T v; std::string k; NDof(const std::string& s):k(s){} int n(){ return N; } double get(unsigned i){ return v[i]; } double cget(unsigned i){ const T& c=v; return c[i]; } void set(unsigned i,double x){ v[i]=x; }
  ND* copy(){ NDof* q=new NDof(k); q->v=v; return q; } const std::string& kind(){ return k; } };
static std::map<int,std::unique_ptr<ND>> nd;
static J nshow(ND& d){ std::vector<J> o; for(int i=0;i<d.n();++i) o.push_back(d.get(i)==d.cget(i)?ex(d.get(i)):J::i(2000000002L)); return J::arr(o); }
static J h(const Cmd& c){
  if(c.op=="reset"){ reg.clear(); nd.clear(); U=1; return J::i(0); }
  V v=parseJson(c.s(0)); const std::string& op=c.op;
  if(op=="unit"){ U=std::ldexp(1.0,v["e"].i()); return J::i(0); }
  if(op=="nmk"){ const V& a=v["a"]; const std::string& k=v["k"].str; ND* d;
    if(k=="v2"){ auto* q=new NDof<gear::Vector2D,2>(k); if(a.n()) q->v=gear::Vector2D(a[0].num*U,a[1].num*U); d=q; }
    else if(k=="v3"){ auto* q=new NDof<gear::Vector3D_T<float>,3>(k); if(a.n()) q->v=gear::Vector3D_T<float>(a[0].num*U,a[1].num*U,a[2].num*U); d=q; }
    else { auto* q=new NDof<gear::VectorND_T<5>,5>(k); for(size_t i=0;i<a.n();++i) q->v[i]=a[i].num*U; d=q; }
    nd[v["id"].i()].reset(d); return nshow(*d); }
  if(op=="ncopy"){ ND* d=nd.at(v["p"].i())->copy(); nd[v["id"].i()].reset(d); return nshow(*d); }
  if(op=="nset"){ ND& d=*nd.at(v["id"].i()); d.set((unsigned)v["i"].i(),v["v"].num*U); return nshow(d); }
  if(op=="nget"){ ND& d=*nd.at(v["id"].i()); unsigned i=(unsigned)v["i"].i(); bool bad=false; double x=0; try { x=d.get(i); } catch(std::out_of_range&){ bad=true; } double y=0; try { y=d.cget(i); if(bad) throw 3; } catch(std::out_of_range&){ if(!bad) throw 3; throw; } return J::arr({ex(x),ex(y)}); }
  if(op=="mk"){ const V& a=v["a"]; double x=a[0].num*U,y=a[1].num*U,z=a[2].num*U; const std::string& w=v["how"].str; int id=v["id"].i();
    if(w=="xyz") reg[id]=Vector3D(x,y,z);
    else if(w=="cart") reg[id]=Vector3D(x,y,z,Vector3D::cartesian);
    else if(w=="double"){ double d[3]={x,y,z}; const auto* q=d; reg[id]=Vector3D(q); }
    else if(w=="float"){ float d[3]={(float)x,(float)y,(float)z}; const auto* q=d; reg[id]=Vector3D(q); }
    else if(w=="other") reg[id]=Vector3D(Other(x,y,z));
    else if(w=="hep") reg[id]=Vector3D(CLHEP::Hep3Vector(x,y,z));
    else if(w=="zero") reg[id]=Vector3D();
    else throw 1;
    return show(reg[id]); }
  if(op=="add"||op=="sub"||op=="cross"||op=="scale"||op=="copy"){
    Vector3D r;
    if(op=="scale") r=v["s"].num*at(v["p"]);
    else if(op=="copy") r=at(v["p"]);
    else { Vector3D p=at(v["p"]); const Vector3D& q=at(v["q"]); r = op=="add"?p+q : op=="sub"?p-q : Vector3D(); if(op=="cross"){ Vector3D k=p.cross(q); r=Vector3D(k.x()/U,k.y()/U,k.z()/U); } }
    reg[v["id"].i()]=r; return show(r); }
  if(op=="set"){ Vector3D& t=at(v["id"]); t[v["i"].i()]=v["v"].num*U; return show(t); }
  if(op=="get") return show(at(v["id"]));
  if(op=="peek"){ Vector3D& t=at(v["id"]); const Vector3D& k=t; volatile double s=0; for(int i: {-1000000,-1,3,4,99}) s = s + k[i] + t[i]; (void)s; return show(t); }
  if(op=="eq") return J::b(at(v["p"])==at(v["q"]));
  if(op=="dot"){ Vector3D p=at(v["p"]); return ex2(p.dot(at(v["q"]))); }
  if(op=="mag"){ Vector3D p=at(v["id"]); Vector3D u = p.r()>0 ? p.unit() : Vector3D();
    return J::arr({ex2(p.r2()),ex2(p.trans2()),J::f(p.r()/U,1e3),J::f(p.rho()/U,1e3),J::f(p.trans()/U,1e3),J::f(p.phi(),1e6),J::f(p.theta(),1e6),J::f(u.x(),1e6),J::f(u.y(),1e6),J::f(u.z(),1e6)}); }
  if(op=="conv"){ Vector3D p=at(v["id"]); Other o=p.to<Other>(); CLHEP::Hep3Vector k=p.to<CLHEP::Hep3Vector>(); Other i=p; Vector3D b(i);
    return J::arr({ex(o.a),ex(o.b),ex(o.c),ex(k.x()),ex(k.y()),ex(k.z()),ex(i.a),ex(i.b),ex(i.c),ex(b.x()),ex(b.y()),ex(b.z())}); }
  if(op=="print"){ std::stringstream s; s.precision(10); s<<at(v["id"]); std::string t=s.str(); std::vector<J> o; std::string cur;
    for(size_t k=0;k<=t.size();++k){ char ch=k<t.size()?t[k]:' '; if(isdigit(ch)||ch=='.'||ch=='-'||ch=='+'||((ch=='e')&&!cur.empty())) cur+=ch; else { if(cur.find_first_of("0123456789")!=std::string::npos) o.push_back(J::f(strtod(cur.c_str(),0),1e3)); cur.clear(); } }
    return J::arr(o); }
  if(op=="cyl"){ Vector3D p(v["a"][0].num/1e4,ang(v["a"][1]),v["a"][2].num/1e4,Vector3D::cylindrical); return geo(p,1e4); }
  if(op=="sph"){ Vector3D p(v["a"][0].num/1e4,ang(v["a"][1]),ang(v["a"][2]),Vector3D::spherical); return geo(p,1e4); }
  if(op=="turn"){ // Cartesian -> cylindrical -> spherical -> Cartesian
    Vector3D p(v["a"][0].num/1e4,v["a"][1].num/1e4,v["a"][2].num/1e4); Vector3D q(p.rho(),p.phi(),p.z(),Vector3D::cylindrical); Vector3D s(q.r(),q.phi(),q.theta(),Vector3D::spherical);
    return J::arr({geo(p,1e4),geo(q,1e4),geo(s,1e4)}); }
  throw 2; }
int main(){ return run(h); }
