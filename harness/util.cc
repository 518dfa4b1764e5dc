// util SCRIPT TRACE: texts, vectors of numbers, control points and named numbers. Texts are given as hexadecimal bytes (- is empty).
#include "common.h"
#include "control_point.h"
#include "named_type.h"
#include "numeric_settings.h"
#include "random.h"
#include "string_operations.h"
#include "vector_utils.h"

using SO = util::StringOperations;
using VU = util::VectorUtils<double>;
using VI = util::VectorUtils<int>;

static std::string text(v::Line &l) {
  std::string h = l.w(), r;
  for (size_t i = 0; h != "-" && i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static std::string chars(const std::string &s) {
  return v::list(s, [](char c) { return v::str(std::string(1, c)); });
}
static std::string charlists(const std::vector<std::string> &s) { return v::list(s, [](const std::string &x) { return chars(x); }); }
static std::vector<double> state(const baf::ControlPoint &p) {
  std::vector<double> r;
  for (int i = 0; i < p.GetDimension(); ++i) r.push_back(p.GetValue(i));
  return r;
}
struct Meter;
using Length = util::NamedType<double, Meter>;

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, baf::ControlPoint> ps;
  std::map<std::string, std::string> last;
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    try {
      if (op == "split") {
        std::string s = text(l), d = text(l);
        o.raw("s", chars(s)).S("d", d);
        o.raw("ret", charlists(SO::split(s, d[0])));
      } else if (op == "trim") {
        std::string s = text(l);
        o.raw("s", chars(s)).raw("ret", chars(SO::trim(s)));
      } else if (op == "affix") {
        std::string s = text(l), t = text(l);
        o.raw("s", chars(s)).raw("t", chars(t)).B("starts", SO::StartsWith(s, t)).B("ends", SO::EndsWith(s, t));
      } else if (op == "number") {
        std::string s = text(l);
        o.raw("s", chars(s));
        o.N("ret", SO::StringToDouble(s));
      } else if (op == "list") {
        std::string s = text(l);
        o.raw("s", chars(s));
        o.L("ret", SO::DelimitedStringToVector(s));
      } else if (op == "numbers" || op == "integers") {
        int n = l.n();
        std::vector<std::string> s;
        for (int i = 0; i < n; ++i) s.push_back(text(l));
        o.raw("s", charlists(s));
        if (op == "numbers") o.L("ret", SO::StringVectorToNumberVector<double>(s));
        else o.IL("ret", SO::StringVectorToNumberVector<int>(s));
      } else if (op == "vec1") {
        auto a = l.ds();
        double f = l.d();
        o.L("a", a).N("f", f).N("norm", VU::ComputeTwoNorm(a)).L("scaled", VU::ScaleVector(a, f));
      } else if (op == "vec2") {
        auto a = l.ds(), b = l.ds();
        o.L("a", a).L("b", b).L("diff", VU::ComputeDifference(a, b)).N("dist", VU::ComputeDistance(a, b))
            .N("dot", VU::ComputeScalarProduct(a, b)).L("cross", a.size() == 3 ? VU::CrossProduct(a, b) : std::vector<double>());
      } else if (op == "ivec") {
        auto a = l.is(), b = l.is();
        int f = l.n();
        o.IL("a", a).IL("b", b).I("f", f).N("norm", VI::ComputeTwoNorm(a)).IL("diff", VI::ComputeDifference(a, b))
            .N("dist", VI::ComputeDistance(a, b)).I("dot", VI::ComputeScalarProduct(a, b)).IL("scaled", VI::ScaleVector(a, f));
      } else if (op == "filter") {
        auto a = l.ds();
        auto pos = l.is();
        o.L("a", a).IL("pos", pos);
        o.L("ret", VU::FilterVector(a, pos));
      } else if (op == "areequal") {
        double a = l.d(), b = l.d(), t = l.d();
        o.N("a", a).N("b", b).N("tol", t).B("ret", util::NumericSettings<double>::AreEqual(a, b, t))
            .B("dflt", util::NumericSettings<double>::AreEqual(a, b));
      } else if (op == "named") {
        double a = l.d(), b = l.d();
        Length x{a}, y{b};
        o.N("a", a).N("b", b).N("sum", (x + y).get()).N("diff", (x - y).get()).N("prod", (x * y).get())
            .B("eq", x == y).B("gt", x > y).B("lt", x < y).B("ge", x >= y).B("le", x <= y);
      } else if (op == "uniform" || op == "binomial") {
        double a = l.d(), b = l.d(), d = op == "binomial" ? l.d() : 0;
        int n = l.n();
        std::vector<double> r;
        for (int i = 0; i < n; ++i) r.push_back(op == "uniform" ? util::Random::GetUniformRandom<double>(a, b) : util::Random::GetBinomialRandom<double>(a, b, d));
        o.N("a", a).N("b", b).N("d", d).L("ret", r);
      } else if (op == "point") {
        std::string h = l.w();
        auto c = l.ds();
        o.S("h", h).L("c", c);
        ps.insert_or_assign(h, baf::ControlPoint(c));
      } else if (op == "origin") {
        std::string h = l.w();
        int n = l.n();
        o.S("h", h).I("n", n);
        ps.insert_or_assign(h, baf::ControlPoint(static_cast<uint64_t>(n)));
      } else if (op == "set") {
        std::string h = l.w();
        int i = l.n();
        double x = l.d();
        o.S("h", h).I("i", i).N("x", x);
        ps.at(h).SetValue(i, x);
      } else if (op == "copy") {
        std::string h = l.w(), g = l.w();
        o.S("h", h).S("g", g);
        ps.insert_or_assign(g, baf::ControlPoint(ps.at(h)));
      } else if (op == "add" || op == "sub") {
        std::string g = l.w(), a = l.w(), b = l.w();
        o.S("g", g).S("a", a).S("b", b);
        ps.insert_or_assign(g, op == "add" ? ps.at(a) + ps.at(b) : ps.at(a) - ps.at(b));
      } else if (op == "times") {
        std::string g = l.w(), a = l.w();
        double f = l.d();
        o.S("g", g).S("a", a).N("f", f);
        ps.insert_or_assign(g, ps.at(a) * f);
      } else if (op == "transform") {
        std::string g = l.w(), a = l.w();
        auto m = l.ds(), s = l.ds();
        std::array<std::array<double, 4>, 4> t;
        for (int i = 0; i < 16; ++i) t[i / 4][i % 4] = m[i];
        o.S("g", g).S("a", a).L("m", m).L("s", s);
        ps.insert_or_assign(g, ps.at(a).Transform(t, {s[0], s[1], s[2]}));
      } else if (op == "length") {
        std::string a = l.w();
        o.S("a", a).N("ret", ps.at(a).GetEuclideanNorm()).I("dim", ps.at(a).GetDimension());
      } else {
        _exit(64);
      }
    } catch (const std::exception &e) {
      res = "throw";
    }
    o.S("res", res);
    std::string chg = "[";
    for (auto &p : ps) {
      std::string st = v::nums(state(p.second));
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).raw("c", st).done();
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
