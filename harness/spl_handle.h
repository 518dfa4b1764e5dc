// The operations on splines with D parametric directions.
#ifndef VERIF_SPL_HANDLE_H_
#define VERIF_SPL_HANDLE_H_
#include "spl.h"

#include "b_spline.h"
#include "b_spline_generator.h"
#include "nurbs.h"
#include "nurbs_generator.h"

template<int D> std::array<ParamCoord, D> pc(v::Line &l) {
  std::array<ParamCoord, D> r;
  for (int i = 0; i < D; ++i) r[i] = ParamCoord{l.d()};
  return r;
}
template<int D> std::vector<double> un(const std::array<ParamCoord, D> &a) {
  std::vector<double> r;
  for (auto &x : a) r.push_back(x.get());
  return r;
}

template<int D, class S> struct H : Handle {
  std::shared_ptr<S> s;
  explicit H(std::shared_ptr<S> x) : s(x) {}
  static constexpr bool rational = std::is_same<S, spl::NURBS<D>>::value;

  std::string state() const override {
    v::Obj o;
    o.S("kind", rational ? "n" : "b");
    std::vector<long> deg, n;
    std::string knots = "[", cps = "[", w = "[";
    std::array<int, D> len = s->GetPointsPerDirection();
    long total = 1;
    for (int i = 0; i < D; ++i) {
      deg.push_back(s->GetDegree(i).get());
      n.push_back(len[i]);
      total *= len[i];
      std::vector<double> k;
      for (const auto &x : *s->GetKnotVector(i)) k.push_back(x.get());
      knots += (i ? "," : "") + v::nums(k);
    }
    std::array<int, D> idx{};
    for (long k = 0; k < total; ++k) {
      std::vector<double> c;
      for (int j = 0; j < s->GetPointDim(); ++j) c.push_back(s->GetControlPoint(idx, j));
      cps += (k ? "," : "") + v::nums(c);
      w += (k ? "," : "") + v::num(s->GetWeight(idx));
      for (int i = 0; i < D && ++idx[i] == len[i]; ++i) idx[i] = 0;
    }
    o.IL("deg", deg).IL("n", n).raw("knots", knots + "]").raw("cps", cps + "]").raw("w", w + "]");
    o.I("count", s->GetNumberOfControlPoints()).I("pdim", s->GetPointDim());
    return o.done();
  }
  std::shared_ptr<Handle> copy() const override { return std::make_shared<H>(std::make_shared<S>(*s)); }

  void op(const std::string &name, v::Line &l, v::Obj &o, Handles &all) override {
    if (name == "insert") {
      int d = l.n(); double u = l.d(); int m = l.n();
      o.I("d", d + 1).N("u", u).I("m", m);
      s->InsertKnot(ParamCoord{u}, d, m);
    } else if (name == "refine") {
      int d = l.n(); auto us = l.ds();
      o.I("d", d + 1).L("us", us);
      std::vector<ParamCoord> k;
      for (double u : us) k.push_back(ParamCoord{u});
      s->RefineKnots(k, d);
    } else if (name == "remove") {
      int d = l.n(); double u = l.d(); double tol = l.d(); int m = l.n();
      o.I("d", d + 1).N("u", u).N("tol", tol).I("m", m);
      size_t c = s->RemoveKnot(ParamCoord{u}, d, tol, m);
      o.I("ret", static_cast<long>(c));
    } else if (name == "elevate") {
      int d = l.n();
      o.I("d", d + 1);
      s->ElevateDegreeForDimension(d);
    } else if (name == "reduce") {
      int d = l.n(); double tol = l.d();
      o.I("d", d + 1).N("tol", tol);
      o.B("ret", s->ReduceDegreeForDimension(d, tol));
    } else if (name == "subdivide") {
      int d = l.n(); double u = l.d(); std::string a = l.w(), b = l.w();
      o.I("d", d + 1).N("u", u).S("a", a).S("b", b);
      auto r = s->SudivideSpline(ParamCoord{u}, d);
      all[a] = std::make_shared<H>(r[0]);
      all[b] = std::make_shared<H>(r[1]);
    } else if (name == "eval") {
      auto u = pc<D>(l); auto dims = l.is();
      o.L("u", un<D>(u)).IL("dims", dims);
      o.L("ret", s->Evaluate(u, dims));
    } else if (name == "deriv") {
      auto u = pc<D>(l); auto dims = l.is(); std::array<int, D> a;
      for (int i = 0; i < D; ++i) a[i] = l.n();
      o.L("u", un<D>(u)).IL("dims", dims).IL("a", a);
      o.L("ret", s->EvaluateDerivative(u, dims, a));
    } else if (name == "basis") {
      int d = l.n(); double u = l.d();
      o.I("d", d + 1).N("u", u);
      o.L("ret", s->EvaluateAllNonZeroBasisFunctions(d, ParamCoord{u}));
    } else if (name == "dbasis") {
      int d = l.n(); double u = l.d(); int k = l.n();
      o.I("d", d + 1).N("u", u).I("k", k);
      o.L("ret", s->EvaluateAllNonZeroBasisFunctionDerivatives(d, ParamCoord{u}, k));
    } else if (name == "homog") {
      if constexpr (rational) {
        std::array<int, D> idx; for (int i = 0; i < D; ++i) idx[i] = l.n();
        o.IL("idx", idx);
        std::vector<double> r;
        for (int i = 0; i <= s->GetPointDim(); ++i) r.push_back(s->GetHomogeneousControlPoint(idx, i));
        o.L("ret", r);
      }
    } else if (name == "info") {
      o.N("expansion", s->GetExpansion());
      std::vector<double> r;
      for (int i = 0; i < D; ++i) r.push_back(s->GetKnotVectorRange(i));
      o.L("ranges", r);
    } else if (name == "equal" || name == "geoequal") {
      std::string g = l.w(); double tol = l.d(); bool dflt = l.more() && l.w() == "default";
      o.S("g", g).N("tol", tol);
      auto other = std::dynamic_pointer_cast<H>(all.at(g));
      bool r;
      if (name == "equal") r = dflt ? s->AreEqual(*other->s) : s->AreEqual(*other->s, tol);
      else r = dflt ? s->AreGeometricallyEqual(*other->s) : s->AreGeometricallyEqual(*other->s, tol);
      o.B("ret", r);
    } else if (name == "newpoints") {   // NURBS(const NURBS &, control points)
      if constexpr (rational) {
        std::string g = l.w();
        int pd = l.n(), cnt = l.n();
        std::vector<baf::ControlPoint> cp;
        std::string pts = "[";
        for (int k = 0; k < cnt; ++k) {
          std::vector<double> c; for (int j = 0; j < pd; ++j) c.push_back(l.d());
          pts += (k ? "," : "") + v::nums(c);
          cp.push_back(baf::ControlPoint(c));
        }
        o.S("g", g).raw("pts", pts + "]");
        all[g] = std::make_shared<H>(std::make_shared<spl::NURBS<D>>(*s, cp));
      }
    } else {
      fprintf(stderr, "unknown operation %s\n", name.c_str());
      _exit(64);
    }
  }
};

#endif
