// typed parameter sections (P02)
#include "common.h"
#include "gearimpl/GearParametersImpl.h"
#include <algorithm>
using namespace gear; using namespace vd;
static std::map<int,std::unique_ptr<GearParametersImpl>> os;
static std::string extra;
static J one(const std::string&s){ return J::strs({s}); }
static J h(const Cmd& c){
  extra="";
  if(c.op=="reset"){ os.clear(); return J(); }
  int o=c.i(0);
  if(c.op=="new"){ os[o].reset(new GearParametersImpl()); return J(); }
  if(c.op=="copy"){ GearParametersImpl* p=new GearParametersImpl(*os.at(c.i(1))); os[o].reset(p); return J(); }
  if(c.op=="assign"){ *os.at(o)=*os.at(c.i(1)); return J(); }
  if(c.op=="drop"){ os.erase(o); return J(); }
  GearParametersImpl& g=*os.at(o); const GearParameters& q=g; const std::string&k=c.s(1);
  if(c.op=="keys"){ const std::vector<std::string>* v=0;
    if(k=="int")v=&q.getIntKeys(); else if(k=="double")v=&q.getDoubleKeys(); else if(k=="string")v=&q.getStringKeys();
    else if(k=="ints")v=&q.getIntVecKeys(); else if(k=="doubles")v=&q.getDoubleVecKeys(); else v=&q.getStringVecKeys();
    extra=std::string(",\"sorted\":")+(std::is_sorted(v->begin(),v->end())?"true":"false"); return J::strs(*v); }
  const std::string&n=c.s(2);
  if(c.op=="get"){
    std::vector<std::string> r;
    if(k=="int") return one(std::to_string(q.getIntVal(n)));
    if(k=="double") return one(d17(q.getDoubleVal(n)));
    if(k=="string") return one(q.getStringVal(n));
    if(k=="ints"){ for(int x: q.getIntVals(n)) r.push_back(std::to_string(x)); return J::strs(r); }
    if(k=="doubles"){ for(double x: q.getDoubleVals(n)) r.push_back(d17(x)); return J::strs(r); }
    if(k=="strings") return J::strs(q.getStringVals(n)); }
  if(c.op=="set"){
    if(k=="int") g.setIntVal(n,c.i(3));
    else if(k=="double") g.setDoubleVal(n,c.d(3));
    else if(k=="string") g.setStringVal(n,c.s(3));
    else if(k=="ints"){ IntVec v; for(size_t i=3;i<c.n();++i)v.push_back(c.i(i)); g.setIntVals(n,v); }
    else if(k=="doubles"){ DoubleVec v; for(size_t i=3;i<c.n();++i)v.push_back(c.d(i)); g.setDoubleVals(n,v); }
    else { StringVec v; for(size_t i=3;i<c.n();++i)v.push_back(c.s(i)); g.setStringVals(n,v); }
    return J(); }
  throw std::logic_error("op");
}
int main(){ extraFn=[](){return extra;}; return run(h); }
