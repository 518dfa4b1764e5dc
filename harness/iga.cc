// iga SCRIPT TRACE: replays scenarios on the isogeometric analysis part (example/iga): elements, connectivity, mappings,
// integration rules, basis functions at integration points, assembly, boundary conditions, time steps, solutions.
#include "common.h"

#include <armadillo>

#include "basis_function_handler.h"
#include "bdf_handler.h"
#include "connectivity_handler.h"
#include "element_generator.h"
#include "element_integral_calculator.h"
#include "five_point_gauss_legendre.h"
#include "four_point_gauss_legendre.h"
#include "linear_equation_assembler.h"
#include "mapping_handler.h"
#include "one_point_gauss_legendre.h"
#include "poisson_problem.h"
#include "solution_spline.h"
#include "solution_vtk_writer.h"
#include "three_point_gauss_legendre.h"
#include "two_point_gauss_legendre.h"

using iga::itg::IntegrationRule;
static IntegrationRule rule(int n) {
  if (n == 1) return iga::itg::OnePointGaussLegendre();
  if (n == 2) return iga::itg::TwoPointGaussLegendre();
  if (n == 3) return iga::itg::ThreePointGaussLegendre();
  if (n == 4) return iga::itg::FourPointGaussLegendre();
  if (n == 5) return iga::itg::FivePointGaussLegendre();
  _exit(64);
}
static std::string vec(const arma::dvec &x) { return v::nums(std::vector<double>(x.begin(), x.end())); }
static std::string mat(const arma::dmat &a) {
  std::string r = "[";
  for (size_t i = 0; i < a.n_rows; ++i) {
    std::vector<double> row;
    for (size_t j = 0; j < a.n_cols; ++j) row.push_back(a(i, j));
    r += (i ? "," : "") + v::nums(row);
  }
  return r + "]";
}
static std::shared_ptr<arma::dvec> toVec(const std::vector<double> &x) {
  auto r = std::make_shared<arma::dvec>(x.size());
  for (size_t i = 0; i < x.size(); ++i) (*r)(i) = x[i];
  return r;
}
static std::string text(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

template<int D> std::string show(const spl::NURBS<D> &s) {
  v::Obj o;
  std::vector<long> deg, n;
  std::string knots = "[", cps = "[", w = "[";
  std::array<int, D> len = const_cast<spl::NURBS<D> &>(s).GetPointsPerDirection();
  long total = 1;
  for (int i = 0; i < D; ++i) {
    deg.push_back(s.GetDegree(i).get());
    n.push_back(len[i]);
    total *= len[i];
    std::vector<double> k;
    for (const auto &x : *s.GetKnotVector(i)) k.push_back(x.get());
    knots += (i ? "," : "") + v::nums(k);
  }
  std::array<int, D> idx{};
  for (long k = 0; k < total; ++k) {
    std::vector<double> c;
    for (int j = 0; j < s.GetPointDim(); ++j) c.push_back(s.GetControlPoint(idx, j));
    cps += (k ? "," : "") + v::nums(c);
    w += (k ? "," : "") + v::num(s.GetWeight(idx));
    for (int i = 0; i < D && ++idx[i] == len[i]; ++i) idx[i] = 0;
  }
  o.S("kind", "n").IL("deg", deg).IL("n", n).raw("knots", knots + "]").raw("cps", cps + "]").raw("w", w + "]");
  return o.done();
}

struct System {
  std::string g;
  std::shared_ptr<arma::dmat> a;
  std::shared_ptr<arma::dvec> b;
  std::string state() const { return v::Obj().S("g", g).raw("a", mat(*a)).raw("b", vec(*b)).done(); }
};
using Systems = std::map<std::string, System>;

struct Geo {
  virtual ~Geo() = default;
  virtual std::string state() const = 0;
  virtual void op(const std::string &name, v::Line &l, v::Obj &o, std::map<std::string, std::shared_ptr<Geo>> &all, Systems &sys) = 0;
};
using Geos = std::map<std::string, std::shared_ptr<Geo>>;

template<int D> struct G : Geo {
  std::shared_ptr<spl::NURBS<D>> s;
  std::map<std::string, std::shared_ptr<iga::PoissonProblem<D>>> problems;
  explicit G(std::shared_ptr<spl::NURBS<D>> x) : s(std::move(x)) {}
  std::string state() const override { return show<D>(*s); }
  static std::string ips(const std::vector<iga::elm::ElementIntegrationPoint<D>> &ps, bool ders) {
    return v::list(ps, [&](const iga::elm::ElementIntegrationPoint<D> &p) {
      v::Obj o;
      if (ders) {
        std::string d = "[";
        for (int i = 0; i < D; ++i) {
          std::vector<double> x;
          for (int k = 0; k < p.GetNumberOfNonZeroBasisFunctionDerivatives(i); ++k) x.push_back(p.GetBasisFunctionDerivativeValue(k, i));
          d += (i ? "," : "") + v::nums(x);
        }
        o.raw("d", d + "]");
      } else {
        std::vector<double> x;
        for (int k = 0; k < p.GetNumberOfNonZeroBasisFunctions(); ++k) x.push_back(p.GetBasisFunctionValue(k));
        o.L("v", x);
      }
      return o.N("w", p.GetWeight()).N("jac", p.GetJacobianDeterminant()).done();
    });
  }
  static std::vector<double> un(const std::array<ParamCoord, D> &a) {
    std::vector<double> r;
    for (auto &x : a) r.push_back(x.get());
    return r;
  }
  void op(const std::string &name, v::Line &l, v::Obj &o, Geos &all, Systems &sys) override {
    if (name == "refine") {
      int d = l.n(); double u = l.d();
      o.I("d", d + 1).N("u", u);
      s->InsertKnot(ParamCoord{u}, d, 1);
    } else if (name == "elements") {
      iga::elm::ElementGenerator<D> e(s);
      std::string r = "[";
      for (int i = 0; i < D; ++i) {
        r += (i ? "," : "") + v::list(e.GetElementList(i), [](const iga::elm::Element &x) {
          return v::nums({x.GetLowerBound().get(), x.GetUpperBound().get()});
        });
      }
      o.raw("lists", r + "]").IL("per", e.GetNumElementsPerParamDir()).I("total", e.GetNumberOfElements());
    } else if (name == "element") {
      int k = l.n();
      iga::elm::ElementGenerator<D> e(s);
      auto i = e.GetElementIndices(k);
      o.I("e", k).IL("idx", i).I("back", e.Get1DElementIndex(i));
      iga::ConnectivityHandler<D> c(s);
      std::vector<long> g;
      int nl = 1;
      for (int d = 0; d < D; ++d) nl *= s->GetDegree(d).get() + 1;
      for (int j = 0; j < nl; ++j) g.push_back(c.GetGlobalIndex(k, j));
      o.IL("glob", g);
    } else if (name == "locate") {
      std::array<ParamCoord, D> u;
      for (auto &x : u) x = ParamCoord{l.d()};
      iga::elm::ElementGenerator<D> e(s);
      o.L("u", un(u)).I("e", e.GetElementNumberAtParamCoord(u));
    } else if (name == "map") {
      int k = l.n();
      std::array<double, D> x;
      for (auto &y : x) y = l.d();
      bool square = l.n();
      iga::MappingHandler<D> m(s);
      auto u = m.Reference2ParameterSpace(k, x);
      o.I("e", k).L("x", std::vector<double>(x.begin(), x.end())).L("u", un(u)).N("jac", m.GetJacobianDeterminant(u)).B("square", square);
      o.raw("inv", square ? mat(m.GetDxiDx(u)) : "[]");
    } else if (name == "bafs" || name == "ders" || name == "phys") {
      int k = l.n(), n = l.n();
      o.I("e", k).I("rule", n);
      iga::BasisFunctionHandler<D> b(s);
      if (name == "bafs") o.raw("ret", ips(b.EvaluateAllElementNonZeroNURBSBasisFunctions(k, rule(n)), false));
      if (name == "ders") o.raw("ret", ips(b.EvaluateAllElementNonZeroNURBSBasisFunctionDerivatives(k, rule(n)), true));
      if (name == "phys") o.raw("ret", ips(b.EvaluateAllElementNonZeroNURBSBafDerivativesPhysical(k, rule(n)), true));
    } else if (name == "left") {
      auto &y = sys.at(l.w());
      int n = l.n(); double kappa = l.d();
      o.I("rule", n).N("kappa", kappa);
      iga::LinearEquationAssembler<D> as(s);
      iga::ElementIntegralCalculator<D> calc(s);
      if (kappa == 1.0) as.GetLeftSide(rule(n), y.a, calc);
      else as.GetLeftSide(rule(n), y.a, calc, kappa);
    } else if (name == "right") {
      auto &y = sys.at(l.w());
      int n = l.n(); auto src = l.ds();
      o.I("rule", n).L("src", src);
      iga::LinearEquationAssembler<D> as(s);
      as.GetRightSide(rule(n), y.b, iga::ElementIntegralCalculator<D>(s), toVec(src));
    } else if (name == "neumann") {
      if constexpr (D > 1) {
        auto &y = sys.at(l.w());
        int n = l.n();
        std::array<std::array<std::shared_ptr<arma::dvec>, 2>, D> cp;
        std::string r = "[";
        for (int i = 0; i < D; ++i) {
          for (int j = 0; j < 2; ++j) {
            auto x = l.ds();
            cp[i][j] = toVec(x);
            r += (i + j ? "," : "") + v::nums(x);
          }
        }
        o.I("rule", n).raw("cps", r + "]");
        iga::LinearEquationAssembler<D>(s).GetRightSideNeumann(rule(n), y.b, cp);
      }
    } else if (name == "zerobc") {
      auto &y = sys.at(l.w());
      iga::LinearEquationAssembler<D>(s).SetZeroBC(y.a, y.b);
    } else if (name == "dirichlet") {
      auto &y = sys.at(l.w());
      auto x = l.ds();
      o.L("vals", x);
      if (x.empty()) iga::LinearEquationAssembler<D>(s).SetDirichletBC(y.a, y.b);
      else iga::LinearEquationAssembler<D>(s).SetDirichletBC(y.a, y.b, toVec(x));
    } else if (name == "bdf") {
      auto &y = sys.at(l.w());
      std::string t = l.w();
      int n = l.n(); double dt = l.d(); auto prev = l.ds();
      o.S("t", t).I("rule", n).N("dt", dt).L("prev", prev);
      iga::BDFHandler<D> h(s, rule(n));
      System z;
      z.g = y.g;
      z.a = h.GetBDF1LeftSide(y.a, dt);
      z.b = h.GetBDF1RightSide(y.b, toVec(prev), dt);
      sys[t] = z;
    } else if (name == "boundary") {
      if constexpr (D > 1) {
        iga::LinearEquationAssembler<D> as(s);
        auto c = as.GetBoundarySplineConnectivity();
        auto b = as.GetBoundarySplines();
        std::string r = "[", q = "[";
        for (int i = 0; i < D; ++i) {
          for (int j = 0; j < 2; ++j) {
            r += (i + j ? "," : "") + show<D - 1>(*b[i][j]);
            q += (i + j ? "," : "") + v::ints(c[i][j]);
          }
        }
        o.raw("splines", r + "]").raw("conn", q + "]");
      }
    } else if (name == "solution") {
      std::string h = l.w();
      auto x = l.ds();
      o.S("r", h).L("x", x);
      iga::SolutionSpline<D> q(s, *toVec(x));
      all[h] = std::make_shared<G<D>>(q.GetSolutionSpline());
    } else if (name == "problem") {
      std::string p = l.w();
      int n = l.n();
      o.S("p", p).I("rule", n);
      problems[p] = std::make_shared<iga::PoissonProblem<D>>(s, rule(n));
    } else if (name == "steady") {
      std::string p = l.w();
      o.S("p", p).raw("x", vec(problems.at(p)->GetSteadyStateSolution()));
    } else if (name == "unsteady") {
      std::string p = l.w();
      double dt = l.d(), te = l.d();
      auto x = l.ds();
      o.S("p", p).N("dt", dt).N("tend", te).L("vals", x);
      auto r = x.empty() ? problems.at(p)->GetUnsteadyStateSolution(dt, te) : problems.at(p)->GetUnsteadyStateSolution(dt, te, toVec(x));
      o.raw("xs", v::list(r, [](const std::shared_ptr<arma::dvec> &q) { return vec(*q); }));
    } else if (name == "vtk") {
      auto x = l.ds();
      auto sc = l.is();
      o.L("x", x).IL("scat", sc);
      iga::SolutionVTKWriter<D>().WriteSolutionToVTK(s, *toVec(x), {sc}, "solution.vtk");
      o.S("text", text("solution.vtk"));
    } else {
      fprintf(stderr, "unknown operation %s\n", name.c_str());
      _exit(64);
    }
  }
};

template<int D> std::shared_ptr<Geo> make(v::Line &l) {
  std::array<Degree, D> deg;
  std::array<std::shared_ptr<baf::KnotVector>, D> kv;
  for (auto &d : deg) d = Degree{l.n()};
  for (auto &k : kv) {
    std::vector<ParamCoord> c;
    for (double x : l.ds()) c.push_back(ParamCoord{x});
    k = std::make_shared<baf::KnotVector>(c);
  }
  int tot = l.n();
  std::vector<baf::ControlPoint> cp;
  for (int i = 0; i < tot; ++i) cp.push_back(baf::ControlPoint(l.ds()));
  return std::make_shared<G<D>>(std::make_shared<spl::NURBS<D>>(kv, deg, cp, l.ds()));
}

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  Geos gs;
  Systems sys;
  std::map<std::string, std::string> last;
  char dir[] = "verif-iga-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir)) _exit(64);
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    try {
      if (op == "rule") {
        int n = l.n();
        IntegrationRule r = rule(n);
        std::vector<double> c;
        for (int i = 0; i < r.GetNumberOfIntegrationPoints(); ++i) c.push_back(r.GetCoordinate(i));
        o.I("rule", n).I("count", r.GetNumberOfIntegrationPoints()).L("coords", c);
        o.raw("pts", v::list(r.GetIntegrationPoints(), [](const iga::itg::IntegrationPoint &p) {
          return v::nums({p.GetCoordinate(), p.GetWeight()});
        }));
      } else if (op == "new") {
        std::string h = l.w();
        int d = l.n();
        o.S("h", h);
        gs[h] = d == 1 ? make<1>(l) : d == 2 ? make<2>(l) : make<3>(l);
      } else if (op == "system") {
        std::string y = l.w(), g = l.w();
        int n = l.n();
        o.S("y", y).S("g", g).I("n", n);
        sys[y] = {g, std::make_shared<arma::dmat>(n, n, arma::fill::zeros), std::make_shared<arma::dvec>(n, arma::fill::zeros)};
      } else if (op == "solve") {
        std::string y = l.w();
        o.S("y", y).raw("x", vec(arma::solve(*sys.at(y).a, *sys.at(y).b)));
      } else {
        std::string g = l.w();
        o.S("h", g);
        if (op == "left" || op == "right" || op == "neumann" || op == "zerobc" || op == "dirichlet" || op == "bdf") o.S("y", l.t[l.i]);
        gs.at(g)->op(op, l, o, gs, sys);
      }
    } catch (const std::exception &e) {
      res = "throw";
      o.S("what", v::exname(e));
    }
    o.S("res", res);
    std::string chg = "[", chs = "[";
    for (auto &p : gs) {
      std::string st = p.second->state();
      if (last["g " + p.first] != st) chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).raw("s", st).done();
      last["g " + p.first] = st;
    }
    for (auto &p : sys) {
      std::string st = p.second.state();
      if (last["s " + p.first] != st) chs += (chs.size() > 1 ? "," : "") + v::Obj().S("y", p.first).raw("s", st).done();
      last["s " + p.first] = st;
    }
    o.raw("chg", chg + "]").raw("chs", chs + "]");
    out.event(o.done());
  }
  remove("solution.vtk");
  if (chdir("..")) return;
  rmdir(dir);
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 20, exec);
}
