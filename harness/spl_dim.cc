// -DVDIM=k: construction of splines with k parametric directions
#include "spl_handle.h"

namespace {
template<int D> struct M : Maker {
  std::string how, kind;
  std::array<Degree, D> deg;
  KnotVectors<D> kv;
  std::array<std::vector<double>, D> knots;
  std::vector<baf::ControlPoint> cps;
  std::vector<double> w;
  std::shared_ptr<spl::BSplineGenerator<D>> bg;
  std::shared_ptr<spl::NURBSGenerator<D>> ng;
  M(const std::string &how, v::Line &l) : how(how) {
    kind = l.w();
    for (int i = 0; i < D; ++i) deg[i] = Degree{l.n()};
    for (int i = 0; i < D; ++i) {
      std::vector<ParamCoord> k;
      knots[i] = l.ds();
      for (double x : knots[i]) k.push_back(ParamCoord{x});
      kv[i] = std::make_shared<baf::KnotVector>(k);
    }
    int cnt = l.n();
    for (int k = 0; k < cnt; ++k) cps.push_back(baf::ControlPoint(l.ds()));
    if (kind == "n") w = l.ds();
  }
  std::shared_ptr<Handle> make() override {
    if (how == "direct") {
      if (kind == "b") return std::make_shared<H<D, spl::BSpline<D>>>(std::make_shared<spl::BSpline<D>>(kv, deg, cps));
      return std::make_shared<H<D, spl::NURBS<D>>>(std::make_shared<spl::NURBS<D>>(kv, deg, cps, w));
    }
    if (kind == "b") {
      if (!bg) bg = std::make_shared<spl::BSplineGenerator<D>>(kv, deg, cps);
      return std::make_shared<H<D, spl::BSpline<D>>>(std::make_shared<spl::BSpline<D>>(*bg));
    }
    if (!ng) ng = std::make_shared<spl::NURBSGenerator<D>>(kv, deg, cps, w);
    return std::make_shared<H<D, spl::NURBS<D>>>(std::make_shared<spl::NURBS<D>>(*ng));
  }
  std::string args() const override {
    v::Obj o;
    std::vector<long> dg;
    std::string k = "[";
    for (int i = 0; i < D; ++i) {
      dg.push_back(deg[i].get());
      k += (i ? "," : "") + v::nums(knots[i]);
    }
    std::string c = v::list(cps, [](const baf::ControlPoint &p) {
      std::vector<double> x;
      for (int j = 0; j < p.GetDimension(); ++j) x.push_back(p.GetValue(j));
      return v::nums(x);
    });
    return o.S("kind", kind).IL("deg", dg).raw("knots", k + "]").raw("cps", c).L("w", w).done();
  }
  void touch(int direction, double knot) override {
    kv[direction]->InsertKnot(ParamCoord{knot});
    if (how == "direct") {     // what the next constructor call will be given
      knots[direction].clear();
      for (const auto &x : *kv[direction]) knots[direction].push_back(x.get());
    }
  }
};
}  // namespace

template<> std::shared_ptr<Maker> NewMaker<VDIM>(const std::string &how, v::Line &l) {
  return std::make_shared<M<VDIM>>(how, l);
}
