// Surfaces made of curves, squares, random splines, projections and elements.
#include "spl_handle.h"

#include "element_generator.h"
#include "projection.h"
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.h"
#include "surface_generator.h"

using N1 = H<1, spl::NURBS<1>>;
using N2 = H<2, spl::NURBS<2>>;
using B1 = H<1, spl::BSpline<1>>;
using B2 = H<2, spl::BSpline<2>>;

static std::shared_ptr<spl::NURBS<1>> curve(Handles &hs, const std::string &h) {
  return std::dynamic_pointer_cast<N1>(hs.at(h))->s;
}
template<int D> std::shared_ptr<spl::Spline<D>> base(Handles &hs, const std::string &h) {
  if (auto p = std::dynamic_pointer_cast<H<D, spl::BSpline<D>>>(hs.at(h))) return p->s;
  if (auto p = std::dynamic_pointer_cast<H<D, spl::NURBS<D>>>(hs.at(h))) return p->s;
  return nullptr;
}
template<int D> bool elements(Handles &hs, const std::string &h, v::Obj &o) {
  auto s = base<D>(hs, h);
  if (!s) return false;
  util::ElementGenerator<D> g(s);
  std::string r = "[";
  for (int d = 0; d < D; ++d) {
    r += (d ? "," : "") + v::list(g.GetElementList(d), [](const util::Element &e) {
      return v::nums({e.GetLowerBound().get(), e.GetUpperBound().get()});
    });
  }
  o.raw("ret", r + "]");
  return true;
}
template<int D> std::shared_ptr<Handle> random(const std::string &kind, double a, double b, int deg, int pdim) {
  std::array<ParamCoord, 2> lim = {ParamCoord{a}, ParamCoord{b}};
  if (kind == "b") {
    spl::RandomBSplineGenerator<D> g(lim, deg, pdim);
    return std::make_shared<H<D, spl::BSpline<D>>>(std::make_shared<spl::BSpline<D>>(g));
  }
  spl::RandomNURBSGenerator<D> g(lim, deg, pdim);
  return std::make_shared<H<D, spl::NURBS<D>>>(std::make_shared<spl::NURBS<D>>(g));
}

bool GenOp(const std::string &op, v::Line &l, v::Obj &o, Handles &hs) {
  if (op == "translate") {            // translate G T C
    std::string g = l.w(), t = l.w(), c = l.w();
    o.S("g", g).S("t", t).S("c", c);
    hs[g] = std::make_shared<N2>(std::make_shared<spl::NURBS<2>>(spl::SurfaceGenerator(curve(hs, t), curve(hs, c))));
  } else if (op == "sweep") {         // sweep G T C n sx sy sz ...
    std::string g = l.w(), t = l.w(), c = l.w();
    int n = l.n();
    std::vector<std::array<double, 3>> sc;
    std::string js = "[";
    for (int i = 0; i < n; ++i) {
      double a = l.d(), b = l.d(), z = l.d();
      sc.push_back({a, b, z});
      js += (i ? "," : "") + v::nums({a, b, z});
    }
    o.S("g", g).S("t", t).S("c", c).I("n", n).raw("scal", js + "]");
    hs[g] = std::make_shared<N2>(std::make_shared<spl::NURBS<2>>(spl::SurfaceGenerator(curve(hs, t), curve(hs, c), n, sc)));
  } else if (op == "square") {        // square G degree knots | square G
    std::string g = l.w();
    bool given = l.more();
    int p = given ? l.n() : 2, k = given ? l.n() : 6;
    o.S("g", g).I("p", p).I("k", k);
    spl::SquareGenerator sq = given ? spl::SquareGenerator(Degree{p}, static_cast<u_int64_t>(k)) : spl::SquareGenerator();
    std::shared_ptr<spl::BSpline<2>> s = sq.CreateSquare();
    hs[g] = std::make_shared<B2>(s);
  } else if (op == "random") {        // random G kind dim a b maxdeg pdim
    std::string g = l.w(), kind = l.w();
    int dim = l.n();
    double a = l.d(), b = l.d();
    int deg = l.n(), pdim = l.n();
    o.S("g", g).S("kind", kind).I("dim", dim).N("a", a).N("b", b).I("maxdeg", deg).I("pdim", pdim);
    hs[g] = dim == 1 ? random<1>(kind, a, b, deg, pdim) : dim == 2 ? random<2>(kind, a, b, deg, pdim) :
            dim == 3 ? random<3>(kind, a, b, deg, pdim) : random<4>(kind, a, b, deg, pdim);
  } else if (op == "elements") {
    std::string h = l.w();
    o.S("h", h);
    elements<1>(hs, h, o) || elements<2>(hs, h, o) || elements<3>(hs, h, o) || elements<4>(hs, h, o);
  } else if (op == "project") {       // project H tol|0 s1 s2 point foot (the foot is for the specification)
    std::string h = l.w();
    double tol = l.d();
    int s1 = l.n(), s2 = l.n();
    auto p = l.ds(), foot = l.ds();
    o.S("h", h).L("p", p).L("foot", foot).IL("scat", std::vector<int>{s1 > 0 ? s1 : 10, s1 > 0 ? s2 : 10});
    if (auto c = base<1>(hs, h)) {
      o.N("tol", tol > 0 ? tol : 1e-4);
      auto r = tol > 0 ? spl::Projection<1>::ProjectionOnCurve(p, c, tol) : spl::Projection<1>::ProjectionOnCurve(p, c);
      o.L("ret", un<1>(r));
    } else {
      auto s = base<2>(hs, h);
      o.N("tol", tol > 0 ? tol : 1e-5);
      auto r = tol > 0 ? spl::Projection<2>::ProjectionOnSurface(p, s, {s1, s2}, tol)
               : s1 > 0 ? spl::Projection<2>::ProjectionOnSurface(p, s, {s1, s2}) : spl::Projection<2>::ProjectionOnSurface(p, s);
      o.L("ret", un<2>(r));
    }
  } else {
    return false;
  }
  return true;
}
