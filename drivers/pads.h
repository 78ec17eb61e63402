// building pad layouts from records, shared by the detector, pad, module and TPC drivers
#ifndef VERIF_PADS_H
#define VERIF_PADS_H
#include "common.h"
#include "json.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
namespace vd {
using gear::PadRowLayout2D;
inline PadRowLayout2D* buildPads(const V& v){
  const std::string& k=v["k"].str; const V& a=v["a"]; const V& rows=v["rows"];
  if(k=="rect"){ auto* l=new gear::RectangularPadRowLayout(a[0].f(),a[1].f(),a[2].f());
    for(auto& r: rows.arr) l->addRow(r[0].i(),r[1].i(),r[2].f(),r[3].f(),r[4].f(),r[5].f(),r[6].f());
    if(v["n"][0].i()>0) l->repeatRows(v["n"][0].i());
    return l; }
  if(k=="fps") return new gear::FixedPadSizeDiskLayout(a[0].f(),a[1].f(),a[2].f(),a[3].f(),v["n"][0].i(),a[4].f(),a[5].a());
  if(k=="fpa") return new gear::FixedPadAngleDiskLayout(a[0].f(),a[1].f(),v["n"][0].i(),a[2].a(),a[3].a(),v["n"][1].i());
  if(k=="vers"){ auto* l=new gear::VersatileDiskRowLayout(a[0].f());
    for(auto& r: rows.arr) l->addRow(r[0].i(),r[1].f(),r[2].f(),r[3].f(),r[4].f(),r[5].f(),r[6].i());
    return l; }
  throw std::logic_error("layout "+k);
}
// complete fixed-point description of a pad plane through its public queries
inline J padView(const PadRowLayout2D& l){
  std::vector<J> rows; int n=l.getNRows();
  for(int r=0;r<n;++r){ const std::vector<int>& p=l.getPadsInRow(r); std::vector<J> x; x.push_back(J::i((long)p.size())); x.push_back(J::f(l.getRowHeight(r),1e5));
    if(!p.empty()){ int a=p.front(), b=p.back(); auto ca=l.getPadCenter(a), cb=l.getPadCenter(b);
      for(double d: {l.getPadWidth(a),l.getPadHeight(a),l.getPadPitch(a),ca[0],ca[1],cb[0],cb[1]}) x.push_back(J::f(d,1e5));
      long ring=-1; try{ ring = l.getRightNeighbour(a)==b || l.getLeftNeighbour(a)==b ? 1 : 0; }catch(...){} x.push_back(J::i(ring*100)); }
    rows.push_back(J::arr(x)); }
  return J::obj({{"type",J::i(l.getPadLayoutImplType())},{"coord",J::i(l.getCoordinateType())},{"shape",J::i(l.getPadShape())},
    {"ext",J::fxs(l.getPlaneExtent(),1e5)},{"npads",J::i(l.getNPads())},{"nrows",J::i(n)},{"rows",J::arr(rows)}});
}
}
#endif
