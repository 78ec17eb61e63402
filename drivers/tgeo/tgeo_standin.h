// Stand-in for the parts of ROOT's TGeo that GEAR uses: nested boxes, exact enough in double precision.
// Semantics follow ROOT: one current point/direction/node per manager, a new manager replaces the previous one,
// FindNextBoundaryAndStep leaves the point on the boundary and returns the node behind it (0 and IsOutside when
// the world is left), a step with no boundary in range stays in the node; a node marked "sticky" makes ROOT's
// known bug happen: on entering it all further steps are 1e-10 until SetCurrentPoint is called.
#ifndef VERIF_TGEO_STANDIN_H
#define VERIF_TGEO_STANDIN_H
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <memory>
typedef double Double_t; typedef int Int_t; typedef bool Bool_t; typedef const char Option_t;
#define kTRUE true
#define kFALSE false
class TGeoManager; class TGeoNode; class TGeoVolume;
extern TGeoManager* gGeoManager;
struct TNamedStandin { std::string n; const char* GetName() const { return n.c_str(); } const char* GetTitle() const { return ""; } };
class TGeoMaterial : public TNamedStandin { public: double de=0,te=0,pr=0,ra=0,in=0;
  double GetDensity() const { return de; } double GetTemperature() const { return te; } double GetPressure() const { return pr; }
  double GetRadLen() const { return ra; } double GetIntLen() const { return in; } };
class TGeoMedium : public TNamedStandin { public: TGeoMaterial* m=0; TGeoMaterial* GetMaterial() const { return m; } };
class TGeoVolume : public TNamedStandin { public: TGeoMedium* med=0; TGeoManager* mg=0;
  TGeoMedium* GetMedium() const { return med; } TGeoMaterial* GetMaterial() const { return med->GetMaterial(); } TGeoManager* GetGeoManager() const { return mg; } };
class TGeoNode : public TNamedStandin { public: TGeoVolume* vol=0; TGeoNode* par=0; double lo[3],hi[3]; bool sticky=false; int depth=0;
  TGeoVolume* GetVolume() const { return vol; } TGeoMedium* GetMedium() const { return vol->GetMedium(); } TGeoVolume* GetMotherVolume() const { return par?par->vol:0; }
  bool has(const double* p) const { for(int i=0;i<3;++i) if(p[i]<lo[i]||p[i]>hi[i]) return false; return true; } };
class TVirtualGeoTrack { public: int np=0; void AddPoint(double,double,double,double){ ++np; } int GetNpoints() const { return np; } };

struct StandinNode { int par; double lo[3],hi[3]; int mat; bool sticky; std::string node,vol; };
struct StandinGeo { std::vector<StandinNode> n; std::vector<TGeoMaterial> m; };
inline std::map<std::string,StandinGeo>& standinFiles(){ static std::map<std::string,StandinGeo> f; return f; }

class TGeoManager : public TNamedStandin {
public:
  std::vector<std::unique_ptr<TGeoMaterial>> mats; std::vector<std::unique_ptr<TGeoMedium>> meds; std::vector<std::unique_ptr<TGeoVolume>> vols; std::vector<std::unique_ptr<TGeoNode>> nodes;
  std::vector<std::unique_ptr<TVirtualGeoTrack>> tracks;
  TGeoVolume* top=0; TGeoNode* cur=0; bool out=false, entered=false, onb=false; double p[3]={0,0,0},l[3]={0,0,0},d[3]={0,0,1},st=0;
  TGeoManager(const char* ="",const char* ="") { delete gGeoManager; gGeoManager=this; }
  ~TGeoManager(){ if(gGeoManager==this) gGeoManager=0; }
  void SetTopVolume(TGeoVolume* v){ top=v; } void CloseGeometry(Option_t* =""){ cur=nodes[0].get(); }
  TGeoVolume* GetTopVolume() const { return top; } TGeoNode* GetTopNode() const { return nodes[0].get(); }
  TGeoNode* GetCurrentNode() const { return cur; } TGeoVolume* GetCurrentVolume() const { return cur->vol; }
  bool IsOutside() const { return out; } bool IsOnBoundary() const { return onb; } double GetStep() const { return st; }
  const double* GetCurrentPoint() const { return p; } const double* GetLastPoint() const { return l; } const double* GetCurrentDirection() const { return d; }
  void SetCurrentPoint(const double* q){ SetCurrentPoint(q[0],q[1],q[2]); }
  void SetCurrentPoint(double x,double y,double z){ p[0]=x; p[1]=y; p[2]=z; entered=false; onb=false; }
  void SetCurrentDirection(const double* q){ SetCurrentDirection(q[0],q[1],q[2]); }
  void SetCurrentDirection(double x,double y,double z){ d[0]=x; d[1]=y; d[2]=z; }
  TGeoNode* FindNode(double x,double y,double z){ SetCurrentPoint(x,y,z); return FindNode(); }
  TGeoNode* FindNode(bool=true){ entered=false; return locate(p); }
  TGeoNode* InitTrack(const double* a,const double* b){ SetCurrentPoint(a); SetCurrentDirection(b); return FindNode(); }
  TGeoNode* InitTrack(double x,double y,double z,double a,double b,double c){ SetCurrentPoint(x,y,z); SetCurrentDirection(a,b,c); return FindNode(); }
  void CdUp(){ if(cur->par) cur=cur->par; } void CdTop(){ cur=nodes[0].get(); } int GetLevel() const { return cur->depth; }
  TGeoNode* GetMother(int up=1) const { TGeoNode* n=cur; while(n&&up--) n=n->par; return n; }
  void MasterToLocal(const double* g,double* o) const { for(int i=0;i<3;++i) o[i]=g[i]-(cur->lo[i]+cur->hi[i])/2; }
  void LocalToMaster(const double* o,double* g) const { for(int i=0;i<3;++i) g[i]=o[i]+(cur->lo[i]+cur->hi[i])/2; }
  int AddTrack(int,int,void* =0){ tracks.emplace_back(new TVirtualGeoTrack); return (int)tracks.size()-1; }
  TVirtualGeoTrack* GetLastTrack(){ return tracks.empty()?0:tracks.back().get(); }
  void ClearTracks(){ tracks.clear(); } void CleanGarbage(){}
  TGeoNode* FindNextBoundaryAndStep(double max=1e30,bool=false){
    for(int i=0;i<3;++i) l[i]=p[i];
    if(out){ st=0; return 0; }
    if(entered&&cur->sticky){ st=1e-10; move(st); onb=true; return cur; }
    double s=next(max); bool b=s<max; st=s; move(s); entered=b; onb=b;
    if(!b) return cur;
    double q[3]; for(int i=0;i<3;++i) q[i]=p[i]+d[i]*1e-8*(1+s*1e-3);
    return locate(q); }
  TGeoNode* FindNextBoundary(double max=1e30,const char* ="",bool=false){ st=next(max); return cur; }
  TGeoNode* Step(bool=true,bool=true){ move(st); return FindNode(); }
  const char* GetPath() const { static std::string s; s.clear(); for(TGeoNode* n=cur;n;n=n->par) s="/"+n->n+s; return s.c_str(); }
private:
  void move(double s){ for(int i=0;i<3;++i) p[i]+=s*d[i]; }
  TGeoNode* locate(const double* q){ TGeoNode* b=0; for(auto& n: nodes) if((!b||n->depth>b->depth)&&n->has(q)) b=n.get();
    out=!b; cur=b?b:nodes[0].get(); return b; }
  double next(double max) const { // distance to the nearest face of the current node or of a daughter that is really crossed
    double best=max;
    for(auto& n: nodes) if(n.get()==cur||n->par==cur){
      double a=-1e30,b=1e30; bool hit=true;
      for(int i=0;i<3;++i) if(std::fabs(d[i])<1e-12){ if(p[i]<=n->lo[i]||p[i]>=n->hi[i]) hit=false; }
        else { double u=(n->lo[i]-p[i])/d[i],v=(n->hi[i]-p[i])/d[i]; if(u>v) std::swap(u,v); if(u>a) a=u; if(v<b) b=v; }
      if(n.get()==cur){ if(b<best) best=b<0?0:b; }
      else if(hit&&b-a>1e-6&&b>1e-6){ double x=a>0?a:0; if(x<best) best=x; } }
    return best; }
};
class TGDMLParse { public:
  TGeoVolume* GDMLReadFile(const char* f){
    auto it=standinFiles().find(f); if(it==standinFiles().end()) return 0;
    if(!gGeoManager) new TGeoManager("GDMLImport","");
    TGeoManager* g=gGeoManager; std::map<std::string,TGeoVolume*> vs;
    for(auto& m: it->second.m){ g->mats.emplace_back(new TGeoMaterial(m)); g->meds.emplace_back(new TGeoMedium); g->meds.back()->m=g->mats.back().get(); }
    for(auto& s: it->second.n){
      if(!vs[s.vol]){ g->vols.emplace_back(new TGeoVolume); TGeoVolume* v=g->vols.back().get(); v->n=s.vol; v->mg=g; v->med=g->meds.at(s.mat).get(); vs[s.vol]=v; }
      g->nodes.emplace_back(new TGeoNode); TGeoNode* n=g->nodes.back().get(); n->n=s.node; n->vol=vs[s.vol]; n->sticky=s.sticky;
      if(s.par>=0){ n->par=g->nodes.at(s.par).get(); n->depth=n->par->depth+1; }
      for(int i=0;i<3;++i){ n->lo[i]=s.lo[i]; n->hi[i]=s.hi[i]; } }
    return g->nodes[0]->vol; }
};
#endif
