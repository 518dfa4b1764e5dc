// net SCRIPT TRACE: replays scenarios of operations on spl::PhysicalSpace<1..4> and spl::WeightedPhysicalSpace<1..4>
#include "common.h"
#include "weighted_physical_space.h"

static std::string lists(const std::vector<std::vector<double>> &v) {
  return v::list(v, [](const std::vector<double> &x) { return v::nums(x); });
}
static std::vector<double> values(const baf::ControlPoint &p) {
  std::vector<double> r;
  for (int i = 0; i < p.GetDimension(); ++i) r.push_back(p.GetValue(i));
  return r;
}
static int longer(int n) { return n + 1; }
static int shorter(int n) { return n - 1; }
struct Net {
  virtual ~Net() = default;
  virtual std::string state() const = 0;
  virtual Net *copy() const = 0;
  virtual void change(const std::string &op, v::Line &l, v::Obj &o) = 0;
  virtual void ask(const std::string &op, v::Line &l, v::Obj &o) = 0;
  virtual bool equal(const Net &other, double tol, bool dflt) const = 0;
};
template<int D> struct NetD : Net {
  std::unique_ptr<spl::PhysicalSpace<D>> s;
  spl::WeightedPhysicalSpace<D> *w = nullptr;      // the same object when it is weighted
  static std::array<int, D> arr(const std::vector<int> &u) {
    std::array<int, D> r;
    for (int d = 0; d < D; ++d) r[d] = u[d];
    return r;
  }
  NetD() {}
  NetD(const std::vector<int> &n, const std::vector<std::vector<double>> &p, bool rat, const std::vector<double> &ws) {
    std::vector<baf::ControlPoint> cps;
    for (auto &x : p) cps.emplace_back(x);
    if (rat) {
      w = new spl::WeightedPhysicalSpace<D>(cps, ws, arr(n));
      s.reset(w);
    } else {
      s.reset(new spl::PhysicalSpace<D>(cps, arr(n)));
    }
  }
  std::string state() const override {
    auto n = s->GetPointsPerDirection();
    std::vector<std::vector<double>> p;
    std::vector<double> bw;
    std::array<int, D> idx;
    idx.fill(0);
    while (true) {
      p.push_back(values(s->GetControlPoint(idx)));
      bw.push_back(s->GetWeight(idx));
      int d = 0;
      while (d < D && ++idx[d] == n[d]) idx[d++] = 0;
      if (d == D) break;
    }
    return v::Obj().IL("n", n).IL("top", s->GetMaximumPointIndexInEachDirection()).I("count", s->GetNumberOfControlPoints())
        .I("dim", s->GetDimension()).raw("p", lists(p)).L("bw", bw).L("w", w ? w->GetWeights() : std::vector<double>()).done();
  }
  Net *copy() const override {
    auto *c = new NetD<D>();
    if (w) c->s.reset(c->w = new spl::WeightedPhysicalSpace<D>(*w));
    else c->s.reset(new spl::PhysicalSpace<D>(*s));
    return c;
  }
  void change(const std::string &op, v::Line &l, v::Obj &o) override {
    if (op == "set" || op == "setw" || op == "setboth") {
      auto idx = l.is();
      o.IL("idx", idx);
      std::vector<double> pt;
      double we = 0;
      if (op != "setw") { pt = l.ds(); o.L("pt", pt); }
      if (op != "set") { we = l.d(); o.N("w", we); }
      if (op == "setboth") { w->SetWeightedControlPoint(arr(idx), baf::ControlPoint(pt), we); return; }
      int d = l.n(), delta = l.n();
      o.I("d", d).I("delta", delta);
      auto f = delta > 0 ? longer : shorter;
      if (op == "set" && d == 0) s->SetControlPoint(arr(idx), baf::ControlPoint(pt));
      else if (op == "set") s->SetControlPoint(arr(idx), baf::ControlPoint(pt), d - 1, f);
      else if (d == 0) w->SetWeight(arr(idx), we);
      else w->SetWeight(arr(idx), we, d - 1, f);
    } else if (op == "add" || op == "rem") {
      int k = l.n();
      o.I("k", k);
      if (op == "add") s->AddControlPoints(k);
      else s->RemoveControlPoints(k);
    } else if (op == "len" || op == "inc" || op == "dec") {
      int d = l.n();
      o.I("d", d);
      if (op == "len") {
        int m = l.n();
        o.I("m", m);
        s->SetNumberOfPoints(d - 1, m);
      } else if (op == "inc") {
        s->IncrementNumberOfPoints(d - 1);
      } else {
        s->DecrementNumberOfPoints(d - 1);
      }
    } else {
      ask(op, l, o);
    }
  }
  void ask(const std::string &op, v::Line &l, v::Obj &o) override {
    if (op == "ask") {
      o.N("expansion", s->GetExpansion()).N("distance", s->GetMaximumDistanceFromOrigin());
      if (w) o.N("minimum", w->GetMinimumWeight());
    } else if (op == "get") {
      auto idx = l.is();
      o.IL("idx", idx).L("pt", values(s->GetControlPoint(arr(idx)))).N("w", s->GetWeight(arr(idx)));
      if (w) o.L("homog", values(w->GetHomogenousControlPoint(arr(idx))));
    } else if (op == "part") {
      int first = l.n(), len = l.n(), d = l.n();
      o.I("first", first).I("len", len).I("d", d);
      std::vector<std::vector<double>> p;
      for (auto &x : s->GetDividedControlPoints(first, len, d - 1)) p.push_back(values(x));
      o.raw("p", lists(p));
      if (w) o.L("w", w->GetDividedWeights(first, len, d - 1));
    } else {
      _exit(64);
    }
  }
  bool equal(const Net &other, double tol, bool dflt) const override {
    auto &t = static_cast<const NetD<D> &>(other);
    if (w && t.w) return dflt ? w->AreEqual(*t.w) : w->AreEqual(*t.w, tol);
    return dflt ? s->AreEqual(*t.s) : s->AreEqual(*t.s, tol);
  }
};
static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, std::unique_ptr<Net>> ks;
  std::map<std::string, std::string> last;
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    std::string h = l.w();
    o.S("h", h);
    try {
      if (op == "new") {
        auto n = l.is();
        int k = l.n();
        std::vector<std::vector<double>> p;
        for (int i = 0; i < k; ++i) p.push_back(l.ds());
        bool rat = l.n();
        auto ws = l.ds();
        o.IL("n", n).raw("p", lists(p)).B("rat", rat).L("w", ws);
        Net *s = n.size() == 1 ? static_cast<Net *>(new NetD<1>(n, p, rat, ws))
               : n.size() == 2 ? static_cast<Net *>(new NetD<2>(n, p, rat, ws))
               : n.size() == 3 ? static_cast<Net *>(new NetD<3>(n, p, rat, ws)) : new NetD<4>(n, p, rat, ws);
        ks[h].reset(s);
      } else if (op == "copy") {
        std::string g = l.w();
        o.S("g", g);
        ks[g].reset(ks.at(h)->copy());
      } else if (op == "equal") {
        std::string g = l.w(), t = l.w();
        bool dflt = t == "default";
        double tol = dflt ? 10 * 2.220446049250313e-16 : strtod(t.c_str(), nullptr);
        o.S("g", g).N("tol", tol).B("ret", ks.at(h)->equal(*ks.at(g), tol, dflt));
      } else {
        ks.at(h)->change(op, l, o);
      }
    } catch (const std::exception &e) {
      res = "throw";
    }
    o.S("res", res);
    std::string chg = "[";
    for (auto &p : ks) {
      if (!p.second) continue;
      std::string st = p.second->state();
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).s.substr(0) + "," + st.substr(1);
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
