// kv SCRIPT TRACE: replays scenarios of operations on baf::KnotVector
#include "common.h"
#include "knot_vector.h"

static std::vector<ParamCoord> coords(const std::vector<double> &v) {
  std::vector<ParamCoord> r;
  for (double x : v) r.push_back(ParamCoord{x});
  return r;
}
static std::string state(const baf::KnotVector &k) {
  std::vector<double> a, b;
  for (size_t i = 0; i < k.GetNumberOfKnots(); ++i) a.push_back(k.GetKnot(i).get());
  for (const auto &x : k) b.push_back(x.get());
  return v::Obj().L("k", a).L("it", b).done();
}

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, baf::KnotVector> ks;
  std::map<std::string, std::string> last;
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    std::string h = l.w();
    o.S("h", h);
    try {
      if (op == "new") {
        auto k = l.ds();
        o.L("k", k);
        ks[h] = baf::KnotVector(coords(k));
      } else if (op == "avg") {
        int p = l.n(), n = l.n();
        auto c = l.ds();
        o.I("p", p).I("n", n).L("c", c);
        ks[h] = baf::KnotVector(coords(c), Degree{p}, n);
      } else if (op == "copy") {
        std::string g = l.w();
        o.S("g", g);
        baf::KnotVector c(ks.at(h));
        ks.erase(g);
        ks.emplace(g, c);
      } else if (op == "assign") {
        std::string g = l.w();
        o.S("g", g);
        ks[g] = ks.at(h);
      } else if (op == "move") {
        std::string g = l.w();
        o.S("g", g);
        baf::KnotVector c(std::move(ks.at(h)));
        ks.erase(h);
        ks.emplace(g, std::move(c));
        last.erase(h);
      } else if (op == "moveassign") {
        std::string g = l.w();
        o.S("g", g);
        ks[g] = std::move(ks.at(h));
        ks.erase(h);
        last.erase(h);
      } else if (op == "range") {
        std::string g = l.w();
        int i = l.n(), j = l.n();
        o.S("g", g).I("i", i).I("j", j);
        const baf::KnotVector &c = ks.at(h);
        baf::KnotVector part(c.begin() + i, c.begin() + j);
        ks[g] = part;
      } else if (op == "insert" || op == "remove") {
        double u = l.d();
        o.N("u", u);
        if (op == "insert") ks.at(h).InsertKnot(ParamCoord{u});
        else ks.at(h).RemoveKnot(ParamCoord{u});
      } else if (op == "set") {
        int i = l.n();
        double u = l.d();
        o.I("i", i).N("u", u);
        ks.at(h)[i] = ParamCoord{u};
      } else if (op == "diff") {
        std::string g = l.w(), x = l.w();
        o.S("g", g).S("x", x);
        auto d = ks.at(h) - ks.at(g);
        ks[x] = d;
      } else if (op == "query") {
        auto &k = ks.at(h);
        o.I("count", k.GetNumberOfKnots()).I("distinct", k.GetNumberOfDifferentKnots()).N("last", k.GetLastKnot().get());
      } else if (op == "at") {
        double u = l.d();
        auto &k = ks.at(h);
        o.N("u", u).I("mult", k.GetMultiplicity(ParamCoord{u})).B("inrange", k.IsInKnotVectorRange(ParamCoord{u}))
            .B("last", k.IsLastKnot(ParamCoord{u})).I("span", k.GetKnotSpan(ParamCoord{u}).get());
      } else if (op == "eq") {
        std::string g = l.w();
        o.S("g", g).B("ret", ks.at(h) == ks.at(g));
      } else if (op == "near") {
        std::string g = l.w();
        double t = l.d();
        o.S("g", g).N("tol", t).B("ret", ks.at(h).AreEqual(ks.at(g), t));
      } else {
        _exit(64);
      }
    } catch (const std::exception &e) {
      res = "throw";
    }
    o.S("res", res);
    std::string chg = "[";
    for (auto &p : ks) {
      std::string st = state(p.second);
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).s.substr(0) + "," + st.substr(1);
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
