// mi SCRIPT TRACE: replays scenarios of operations on util::MultiIndexHandler
#include <array>
#include "common.h"
#include "multi_index_handler.h"

struct Any {
  virtual ~Any() = default;
  virtual std::string state() const = 0;
  virtual std::shared_ptr<Any> copy() const = 0;
  virtual void op(const std::string &op, v::Line &l, v::Obj &o) = 0;
};
template<int D> std::array<int, D> arr(v::Line &l) {
  std::array<int, D> a;
  for (auto &x : a) x = l.n();
  return a;
}
template<int D> struct Mi : Any {
  util::MultiIndexHandler<D> m;
  std::array<int, D> len;
  explicit Mi(const std::array<int, D> &n) : m(n), len(n) {}
  std::shared_ptr<Any> copy() const override { return std::make_shared<Mi<D>>(*this); }
  std::string state() const override {
    util::MultiIndexHandler<D> c(m);
    std::vector<int> at, ex;
    for (int i = 0; i < D; ++i) { at.push_back(c[i]); ex.push_back(m.ExtractDimension(i)); }
    return v::Obj().IL("len", len).IL("cur", m.GetIndices()).IL("at", at).I("one", m.Get1DIndex()).I("total", m.Get1DLength())
        .IL("dif", m.GetDifferenceIndices()).IL("ex", ex).done();
  }
  void op(const std::string &op, v::Line &l, v::Obj &o) override {
    if (op == "inc") { auto &r = ++m; o.B("self", &r == &m); }
    else if (op == "post") { auto r = m++; o.IL("ret", r.GetIndices()); }
    else if (op == "dec") { auto &r = --m; o.B("self", &r == &m); }
    else if (op == "plus") { int n = l.n(); o.I("n", n); o.IL("ret", (m + n).GetIndices()); }
    else if (op == "minus") { int n = l.n(); o.I("n", n); o.IL("ret", (m - n).GetIndices()); }
    else if (op == "set") { auto a = arr<D>(l); o.IL("to", a); m.SetIndices(a); }
    else if (op == "set1") { int n = l.n(); o.I("n", n); m.Set1DIndex(n); }
    else if (op == "one") { auto a = arr<D>(l); o.IL("of", a).I("ret", m.Get1DIndex(a)); }
    else if (op == "onein") { auto n = arr<D>(l), a = arr<D>(l); o.IL("in", n).IL("of", a).I("ret", m.Get1DIndex(n, a)); }
    else _exit(64);
  }
};
static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, std::shared_ptr<Any>> ms;
  for (v::Line l : lines) {
    std::string op = l.w(), res = "ok", h = l.w();
    v::Obj o;
    o.S("op", op).S("h", h);
    std::string g = h;
    try {
      if (op == "new") {
        int d = l.n();
        if (d == 1) ms[h] = std::make_shared<Mi<1>>(arr<1>(l));
        else if (d == 2) ms[h] = std::make_shared<Mi<2>>(arr<2>(l));
        else if (d == 3) ms[h] = std::make_shared<Mi<3>>(arr<3>(l));
        else ms[h] = std::make_shared<Mi<4>>(arr<4>(l));
      } else if (op == "copy") {
        g = l.w();
        o.S("g", g);
        ms[g] = ms.at(h)->copy();
      } else {
        ms.at(h)->op(op, l, o);
      }
    } catch (const std::exception &e) {
      res = "throw";
    }
    o.S("res", res);
    std::string all = "[";
    for (auto &p : ms) all += (all.size() > 1 ? "," : "") + v::Obj().S("h", p.first).raw("s", p.second->state()).done();
    o.raw("all", all + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
