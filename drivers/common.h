// Shared by all drivers: a driver is an interpreter of one-line commands (tab separated, %XX-escaped tokens).
// It executes each command on the real GEAR code and answers with one JSON object per command:
//   {"x":"ok","v":...}  or  {"x":"<exception kind>"}
// Numbers travel as fixed-point integers so that the TLA+ specification (the only oracle) can use them.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <functional>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include "gear/GEAR.h"

namespace vd {
typedef std::vector<std::string> Toks;

inline std::string unesc(const std::string& s){
  std::string o; for(size_t i=0;i<s.size();++i){ if(s[i]=='%'&&i+2<s.size()){ o+=(char)strtol(s.substr(i+1,2).c_str(),0,16); i+=2;} else o+=s[i]; } return o; }

struct Cmd {
  std::string op; Toks a;
  size_t n() const { return a.size(); }
  const std::string& s(size_t i) const { return a.at(i); }
  int i(size_t k) const { return (int)strtol(a.at(k).c_str(),0,10); }
  double d(size_t k) const { return strtod(a.at(k).c_str(),0); }
};

inline std::string jstr(const std::string& s){
  std::string o="\""; char b[8];
  for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>=127){ snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; }
  return o+"\""; }

// fixed point: v*scale rounded; out-of-range/NaN values become sentinels
inline long fx(double v,double scale){
  if(v!=v) return 2000000001L;
  double w=v*scale; if(w>1.9e9) return 2000000000L; if(w<-1.9e9) return -2000000000L;
  return (long)std::floor(w+0.5); }

struct J { // json value builder
  std::string t;
  J():t("0"){} 
  explicit J(const std::string& raw):t(raw){}
  static J s(const std::string& v){ return J(jstr(v)); }
  static J i(long v){ return J(std::to_string(v)); }
  static J f(double v,double sc){ return J(std::to_string(fx(v,sc))); }
  static J b(bool v){ return J(v?std::string("true"):std::string("false")); }
  static J arr(const std::vector<J>& v){ std::string o="["; for(size_t k=0;k<v.size();++k){ if(k)o+=","; o+=v[k].t; } return J(o+"]"); }
  static J strs(const std::vector<std::string>& v){ std::vector<J> x; for(auto&e:v)x.push_back(s(e)); return arr(x); }
  template<class V> static J ints(const V& v){ std::vector<J> x; for(auto e:v)x.push_back(i((long)e)); return arr(x); }
  template<class V> static J fxs(const V& v,double sc){ std::vector<J> x; for(auto e:v)x.push_back(f(e,sc)); return arr(x); }
  static J obj(const std::vector<std::pair<std::string,J>>& v){ std::string o="{"; for(size_t k=0;k<v.size();++k){ if(k)o+=","; o+=jstr(v[k].first)+":"+v[k].second.t; } return J(o+"}"); }
};

inline std::string d17(double v){ char b[64]; snprintf(b,64,"%.17g",v); return b; }
inline std::string d9(double v){ char b[64]; snprintf(b,64,"%.9e",v); return b; }

inline std::string excKind(){
  try { throw; }
  catch(gear::UnknownParameterException&){ return "Unknown"; }
  catch(gear::ParseException&){ return "Parse"; }
  catch(gear::NotImplementedException&){ return "NotImpl"; }
  catch(gear::OutsideGeometryException&){ return "Outside"; }
  catch(gear::Exception& e){ return "Exception"; }
  catch(std::out_of_range&){ return "std"; }
  catch(std::exception&){ return "std"; }
  catch(...){ return "other"; }
}

// optional extra fields of every answer, e.g. ,"d":[1,2]
static std::function<std::string()> extraFn;
// main loop. handler returns the value; exceptions become kinds. "reset" is handled by the driver too.
inline int run(const std::function<J(const Cmd&)>& h){
  int fd=dup(1); FILE* out=fdopen(fd,"w");
  int nul=open("/dev/null",O_WRONLY); dup2(nul,1);
  char* line=0; size_t cap=0; ssize_t n;
  while((n=getline(&line,&cap,stdin))>0){
    if(line[n-1]=='\n') line[--n]=0;
    Cmd c; std::string cur, l(line); bool first=true;
    size_t p=0; while(true){ size_t q=l.find('\t',p); std::string t=unesc(l.substr(p,q==std::string::npos?q:q-p)); if(first){c.op=t;first=false;} else c.a.push_back(t); if(q==std::string::npos)break; p=q+1; }
    alarm(20);
    std::string r;
    try { J v=h(c); r="{\"x\":\"ok\",\"v\":"+v.t+"}"; }
    catch(...){ r="{\"x\":"+jstr(excKind())+"}"; }
    if(extraFn){ r.pop_back(); r+=extraFn()+"}"; }
    fputs(r.c_str(),out); fputc('\n',out); fflush(out);
  }
  return 0; }
}
#endif
