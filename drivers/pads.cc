// pad layouts: build, copy, destroy and query (P09, P10, P11, P21)
#include "common.h"
#include "json.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
using namespace vd; using namespace gear;
typedef RectangularPadRowLayout Rect; typedef FixedPadSizeDiskLayout Fps; typedef FixedPadAngleDiskLayout Fpa; typedef VersatileDiskRowLayout Vers;
static double L=1e4; static const double A=1e6;
static std::map<int,PadRowLayout2D*> ob;
static double len(const V& v){ return v.num/L; }
static double ang(const V& v){ double x=v.num; double s=x<0?-1:1; x=fabs(x);
  if(x==6283185) return s*2*M_PI; if(x==3141593) return s*M_PI; if(x==1570796) return s*M_PI/2; return s*x/A; }
static PadRowLayout2D& at(const V& v){ auto it=ob.find(v.i()); if(it==ob.end()) throw 1; return *it->second; }
static J pad(const PadRowLayout2D& l,int idx){ int r=l.getRowNumber(idx), p=l.getPadNumber(idx); int same=0; try{ same = l.getPadIndex(r,p)==idx; }catch(...){} 
  return J::ints(std::vector<int>{r,p,same}); }
static PadRowLayout2D* copyOf(const PadRowLayout2D& s){
  if(auto* r=dynamic_cast<const Rect*>(&s)) return new Rect(*r); if(auto* r=dynamic_cast<const Fps*>(&s)) return new Fps(*r);
  if(auto* r=dynamic_cast<const Fpa*>(&s)) return new Fpa(*r); return new Vers(dynamic_cast<const Vers&>(s)); }
static void assignTo(PadRowLayout2D& d,const PadRowLayout2D& s){
  if(auto* r=dynamic_cast<Rect*>(&d)) *r=dynamic_cast<const Rect&>(s); else if(auto* r=dynamic_cast<Fps*>(&d)) *r=dynamic_cast<const Fps&>(s);
  else if(auto* r=dynamic_cast<Fpa*>(&d)) *r=dynamic_cast<const Fpa&>(s); else dynamic_cast<Vers&>(d)=dynamic_cast<const Vers&>(s); }
static void put(int id,PadRowLayout2D* p){ auto it=ob.find(id); if(it!=ob.end()) delete it->second; ob[id]=p; }
static J h(const Cmd& c){
  if(c.op=="reset"){ L=1e4; for(auto& p: ob) delete p.second; ob.clear(); return J::i(0); }
  V v=parseJson(c.s(0)); if(v.has("sc")) L=1e4/v["sc"].num;
  const std::string& op=c.op;
  if(op=="new"){ const std::string& k=v["k"].str; const V& a=v["a"]; PadRowLayout2D* p;
    if(k=="rect") p=new Rect(len(a[0]),len(a[1]),len(a[2]));
    else if(k=="vers") p=new Vers(len(a[0]));
    else if(k=="fps") p=new Fps(len(a[0]),len(a[1]),len(a[2]),len(a[3]),a[4].i(),len(a[5]),ang(a[6]));
    else p=new Fpa(len(a[0]),len(a[1]),a[2].i(),ang(a[3]),ang(a[4]),a[5].i());
    put(v["id"].i(),p); return J::i(0); }
  if(op=="copy"||op=="clone"){ PadRowLayout2D& s=at(v["from"]); put(v["id"].i(), op=="copy"?copyOf(s):s.clone()); return J::i(0); }
  PadRowLayout2D& l=at(v["id"]);
  if(op=="addrow"){ const V& g=v["g"];
    if(auto* r=dynamic_cast<Rect*>(&l)) r->addRow(g[0].i(),g[1].i(),len(g[2]),len(g[3]),len(g[4]),len(g[5]),len(g[6]));
    else { Vers& w=dynamic_cast<Vers&>(l); double pitch=len(g[2]);
      if(g[2].num==-1) pitch=2*M_PI*(l.getPlaneExtent()[1]+len(g[3])/2)/g[1].i()*(1-1e-12);
      w.addRow(g[1].i(),pitch,len(g[3]),len(g[4]),len(g[5]),len(g[6]),g[0].i()); }
    return J::i(0); }
  if(op=="repeat"){ dynamic_cast<Rect&>(l).repeatRows(v["n"].i()); return J::i(0); }
  if(op=="assign"){ assignTo(l,at(v["from"])); return J::i(0); }
  if(op=="del"){ delete &l; ob.erase(v["id"].i()); return J::i(0); }
  bool polar=l.getCoordinateType()==PadRowLayout2D::POLAR;
  auto wid=[&](double x){ return J::f(x,polar?A:L); };
  if(op=="types") return J::ints(std::vector<int>{l.getPadLayoutImplType(),l.getCoordinateType(),l.getPadLayoutType(),l.getPadShape()});
  if(op=="nrows") return J::i(l.getNRows());
  if(op=="npads") return J::i(l.getNPads());
  if(op=="ext"){ const std::vector<double>& e=l.getPlaneExtent(); std::vector<J> o; for(size_t k=0;k<e.size();++k) o.push_back(k<2||!polar?J::f(e[k],L):J::f(e[k],A)); return J::arr(o); }
  if(op=="rowh") return J::f(l.getRowHeight(v["row"].i()),L);
  if(op=="padsin"){ int r=v["row"].i(); const std::vector<int>& p=l.getPadsInRow(r); int ok=0; for(size_t k=0;k<p.size();++k) ok += p[k]==l.getPadIndex(r,(int)k); return J::ints(std::vector<int>{(int)p.size(),ok}); }
  if(op=="index"){ int i=l.getPadIndex(v["row"].i(),v["pad"].i()); return J::ints(std::vector<int>{l.getRowNumber(i),l.getPadNumber(i)}); }
  if(op=="detail"){ int r=v["row"].i(); std::vector<J> o;
    if(auto* q=dynamic_cast<Rect*>(&l)){ o.push_back(J::i(q->getRepeatRowCount())); o.push_back(J::ints(q->equalRowNumbers())); const Rect::Row& w=q->rows().at(r);
      o.push_back(J::i(w.NPad)); for(double x: {w.PadWidth,w.PadHeight,w.Height,w.Center,w.WidthPerPad,w.LeftOffset,w.RightOffset}) o.push_back(J::f(x,L)); }
    else if(auto* q=dynamic_cast<Fps*>(&l)){ o={J::f(q->getPadGap(),L),J::f(q->getFixedPadWidth(),L)}; }
    else if(auto* q=dynamic_cast<Fpa*>(&l)){ o={J::i(q->getNPadsInRow()),J::f(q->getFixedPadAngle(),A),J::f(q->getPadGap(),L)}; }
    else { const Vers::Row& w=dynamic_cast<Vers&>(l).rows().at(r); double rc=w.getRCentre();
      o={J::i(w.getRowNumber()),J::i(w.getNPads()),J::f(rc,L),J::f(w.getPadPitch(),A),J::f(w.getPadWidth(),A),J::f(w.getRowHeight(),L),J::f(w.getPadHeight(),L),J::f(w.getOffset(),A),
         J::f(w.getPhiMin(),A),J::f(w.getPhiMax(),A),J::f(w.getRMin(),L),J::f(w.getRMax(),L),J::f(w.getPadPitch_mm()/rc,A),J::f(w.getPadWidth_mm()/rc,A),J::f(w.getOffset_mm()/rc,A)}; }
    return J::arr(o); }
  double x=0,y=0; if(v.has("px")){ x=len(v["px"]); y=polar?ang(v["py"]):len(v["py"]); }
  if(op=="nearest") return pad(l,l.getNearestPad(x,y));
  if(op=="insideany") return J::b(l.isInsidePad(x,y));
  int i=l.getPadIndex(v["row"].i(),v["pad"].i());
  if(op=="geo"){ Vector2D p=l.getPadCenter(i); return J::arr({J::f(p[0],L),wid(p[1]),wid(l.getPadWidth(i)),J::f(l.getPadHeight(i),L),wid(l.getPadPitch(i))}); }
  if(op=="left") return pad(l,l.getLeftNeighbour(i));
  if(op=="right") return pad(l,l.getRightNeighbour(i));
  if(op=="inside") return J::b(l.isInsidePad(x,y,i));
  if(op=="dist") return J::f(l.getDistanceToPad(x,y,i),L);
  if(op=="centre"){ Vector2D p=l.getPadCenter(i); int n=l.getNearestPad(p[0],p[1]);
    return J::ints(std::vector<long>{l.isInsidePad(p[0],p[1],i),l.isInsidePad(p[0],p[1]),l.getRowNumber(n),l.getPadNumber(n),fx(l.getDistanceToPad(p[0],p[1],i),L)}); }
  throw 2; }
int main(){ return run(h); }
