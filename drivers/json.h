// minimal JSON reader for structured command arguments
#ifndef VERIF_JSON_H
#define VERIF_JSON_H
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <cstdlib>
namespace vd {
struct V {
  enum T{NUM,STR,ARR,OBJ,BOOL} t=NUM; double num=0; std::string str; std::vector<V> arr; std::map<std::string,V> obj;
  const V& operator[](const std::string& k) const { auto it=obj.find(k); if(it==obj.end()) throw std::logic_error("field "+k); return it->second; }
  const V& operator[](const char* k) const { return (*this)[std::string(k)]; }
  const V& operator[](size_t k) const { return arr.at(k); }
  const V& operator[](int k) const { return arr.at(k); }
  bool has(const std::string& k) const { return obj.count(k); }
  size_t n() const { return arr.size(); }
  int i() const { return (int)num; }
  double f() const { return num/1e5; }               // fixed point 1e-5
  double f(double sc) const { return num/sc; }
  double a() const {                                  // angle 1e-5 rad, multiples of pi/2 exact
    int k=(int)num; int s=k<0?-1:1; k=abs(k);
    if(k==628319) return s*2*M_PI; if(k==314159) return s*M_PI; if(k==157080) return s*M_PI/2; if(k==471239) return s*1.5*M_PI; if(k==78540) return s*M_PI/4;
    return num/1e5; }
};
struct JP {
  const std::string& s; size_t p=0; JP(const std::string& x):s(x){}
  void ws(){ while(p<s.size()&&(s[p]==' '||s[p]=='\n')) ++p; }
  V val(){ ws(); V v; char c=s.at(p);
    if(c=='{'){ v.t=V::OBJ; ++p; ws(); if(s[p]=='}'){++p;return v;} while(1){ V k=val(); ws(); ++p; v.obj[k.str]=val(); ws(); if(s[p++]=='}') break; } return v; }
    if(c=='['){ v.t=V::ARR; ++p; ws(); if(s[p]==']'){++p;return v;} while(1){ v.arr.push_back(val()); ws(); if(s[p++]==']') break; } return v; }
    if(c=='"'){ v.t=V::STR; ++p; while(s.at(p)!='"'){ if(s[p]=='\\'){ ++p; char e=s[p]; if(e=='u'){ v.str+=(char)strtol(s.substr(p+1,4).c_str(),0,16); p+=4; } else v.str+= e=='n'?'\n':e=='t'?'\t':e=='r'?'\r':e; } else v.str+=s[p]; ++p; } ++p; return v; }
    if(c=='t'){ p+=4; v.t=V::BOOL; v.num=1; return v; } if(c=='f'){ p+=5; v.t=V::BOOL; return v; }
    char* e; v.num=strtod(s.c_str()+p,&e); p=e-s.c_str(); return v; }
};
inline V parseJson(const std::string& s){ JP j(s); return j.val(); }
}
#endif
