// bas SCRIPT TRACE: replays scenarios of operations on spl::ParameterSpace<1..3> and baf::BasisFunction
#include "common.h"
#include "basis_function_factory.h"
#include "parameter_space.h"

static std::vector<ParamCoord> coords(const std::vector<double> &v) {
  std::vector<ParamCoord> r;
  for (double x : v) r.push_back(ParamCoord{x});
  return r;
}
static std::vector<double> knots(const baf::KnotVector &k) {
  std::vector<double> a;
  for (size_t i = 0; i < k.GetNumberOfKnots(); ++i) a.push_back(k.GetKnot(i).get());
  return a;
}
static std::string lists(const std::vector<std::vector<double>> &v) {
  return v::list(v, [](const std::vector<double> &x) { return v::nums(x); });
}
struct Space {
  virtual ~Space() = default;
  virtual int dim() const = 0;
  virtual std::string state() const = 0;
  virtual Space *copy() const = 0;
  virtual void change(const std::string &op, int d, double u) = 0;
  virtual void ask(const std::string &op, v::Line &l, v::Obj &o) const = 0;
  virtual bool equal(const Space &other, double tol, bool dflt) const = 0;
};
template<int D> struct SpaceD : Space {
  std::unique_ptr<spl::ParameterSpace<D>> s;
  SpaceD() {}
  SpaceD(const std::vector<int> &deg, const std::vector<std::vector<double>> &kn) {
    std::array<std::shared_ptr<baf::KnotVector>, D> k;
    std::array<Degree, D> p;
    for (int d = 0; d < D; ++d) {
      k[d] = std::make_shared<baf::KnotVector>(coords(kn[d]));
      p[d] = Degree{deg[d]};
    }
    s.reset(new spl::ParameterSpace<D>(k, p));
  }
  int dim() const override { return D; }
  std::string state() const override {
    std::vector<int> deg;
    std::vector<std::vector<double>> kn;
    for (int d = 0; d < D; ++d) {
      deg.push_back(s->GetDegree(d).get());
      kn.push_back(knots(*s->GetKnotVector(d)));
    }
    return v::Obj().IL("deg", deg).raw("knots", lists(kn)).done();
  }
  Space *copy() const override {
    auto *c = new SpaceD<D>();
    c->s.reset(new spl::ParameterSpace<D>(*s));
    return c;
  }
  void change(const std::string &op, int d, double u) override {
    if (op == "insert") s->InsertKnot(ParamCoord{u}, d);
    else if (op == "remove") s->RemoveKnot(ParamCoord{u}, d);
    else if (op == "elevate") s->ElevateDegree(d);
    else if (op == "reduce") s->ReduceDegree(d);
    else if (op == "thicken") s->IncrementMultiplicityOfAllKnots(d);
    else if (op == "thin") s->DecrementMultiplicityOfAllKnots(d);
    else _exit(64);
  }
  static std::array<ParamCoord, D> param(const std::vector<double> &u) {
    std::array<ParamCoord, D> r;
    for (int d = 0; d < D; ++d) r[d] = ParamCoord{u[d]};
    return r;
  }
  static std::array<int, D> arr(const std::vector<int> &u) {
    std::array<int, D> r;
    for (int d = 0; d < D; ++d) r[d] = u[d];
    return r;
  }
  void ask(const std::string &op, v::Line &l, v::Obj &o) const override {
    if (op == "ranges") {
      std::vector<double> r;
      for (int d = 0; d < D; ++d) r.push_back(s->GetKnotVectorRange(d));
      o.L("ret", r);
    } else if (op == "divide") {
      int d = l.n();
      double u = l.d();
      o.I("d", d).N("u", u);
      auto r = s->GetDividedKnotVectors(ParamCoord{u}, d - 1);
      for (int i = 0; i < 2; ++i) {
        std::vector<std::vector<double>> kn;
        for (int e = 0; e < D; ++e) kn.push_back(knots(*r[i][e]));
        o.raw(i ? "right" : "left", lists(kn));
      }
    } else {
      auto u = l.ds();
      o.L("u", u);
      if (op == "inside") {
        s->ThrowIfParametricCoordinateOutsideKnotVectorRange(param(u));
      } else if (op == "at") {
        auto k = l.is();
        o.IL("k", k);
        std::vector<std::vector<double>> a, b;
        for (int d = 0; d < D; ++d) {
          a.push_back(s->EvaluateAllNonZeroBasisFunctions(d, ParamCoord{u[d]}));
          b.push_back(s->EvaluateAllNonZeroBasisFunctionDerivatives(d, ParamCoord{u[d]}, k[d]));
        }
        o.IL("first", s->GetArrayOfFirstNonZeroBasisFunctions(param(u))).raw("val", lists(a)).raw("der", lists(b));
      } else if (op == "tensor") {
        auto idx = l.is();
        auto k = l.is();
        o.IL("idx", idx).IL("k", k);
        o.N("val", s->GetBasisFunctions(arr(idx), param(u))).N("der", s->GetBasisFunctionDerivatives(arr(idx), param(u), arr(k)));
      } else {
        _exit(64);
      }
    }
  }
  bool equal(const Space &other, double tol, bool dflt) const override {
    auto &t = *static_cast<const SpaceD<D> &>(other).s;
    return dflt ? s->AreEqual(t) : s->AreEqual(t, tol);
  }
};

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, std::unique_ptr<Space>> ks;
  std::map<std::string, std::string> last;
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    std::string h = l.w();
    o.S("h", h);
    try {
      if (op == "new") {
        auto deg = l.is();
        std::vector<std::vector<double>> kn;
        for (size_t d = 0; d < deg.size(); ++d) kn.push_back(l.ds());
        o.IL("deg", deg).raw("knots", lists(kn));
        Space *s = deg.size() == 1 ? static_cast<Space *>(new SpaceD<1>(deg, kn))
                 : deg.size() == 2 ? static_cast<Space *>(new SpaceD<2>(deg, kn)) : new SpaceD<3>(deg, kn);
        ks[h].reset(s);
      } else if (op == "copy") {
        std::string g = l.w();
        o.S("g", g);
        ks[g].reset(ks.at(h)->copy());
      } else if (op == "insert" || op == "remove" || op == "elevate" || op == "reduce" || op == "thicken" || op == "thin") {
        int d = l.n();
        o.I("d", d);
        double u = 0;
        if (op == "insert" || op == "remove") {
          u = l.d();
          o.N("u", u);
        }
        ks.at(h)->change(op, d - 1, u);
      } else if (op == "equal") {
        std::string g = l.w(), t = l.w();
        bool dflt = t == "default";
        double tol = dflt ? 10 * 2.220446049250313e-16 : strtod(t.c_str(), nullptr);
        o.S("g", g).N("tol", tol).B("ret", ks.at(h)->equal(*ks.at(g), tol, dflt));
      } else if (op == "single") {
        int p = l.n(), i = l.n();
        auto kn = l.ds();
        auto u = l.ds();
        int m = l.n();
        o.I("p", p).I("i", i).L("knots", kn).L("u", u);
        baf::KnotVector kv(coords(kn));
        std::unique_ptr<baf::BasisFunction> f(baf::BasisFunctionFactory::CreateDynamic(kv, KnotSpan{i}, Degree{p}));
        std::vector<std::vector<double>> r;
        for (double x : u) {
          std::vector<double> y = {f->Evaluate(ParamCoord{x})};
          for (int k = 1; k <= m; ++k) y.push_back(f->EvaluateDerivative(ParamCoord{x}, Derivative{k}));
          r.push_back(y);
        }
        o.raw("ret", lists(r));
      } else {
        ks.at(h)->ask(op, l, o);
      }
    } catch (const std::exception &e) {
      res = "throw";
    }
    o.S("res", res);
    std::string chg = "[";
    for (auto &p : ks) {
      if (!p.second) continue;
      std::string st = p.second->state();
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).s.substr(0) + "," + st.substr(1);
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
