// spl SCRIPT TRACE: replays scenarios of spline operations on the library and records what it did
#include "spl.h"
template<> std::shared_ptr<Maker> NewMaker<1>(const std::string &how, v::Line &l);
template<> std::shared_ptr<Maker> NewMaker<2>(const std::string &how, v::Line &l);
template<> std::shared_ptr<Maker> NewMaker<3>(const std::string &how, v::Line &l);
template<> std::shared_ptr<Maker> NewMaker<4>(const std::string &how, v::Line &l);

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  Handles hs;
  std::map<std::string, std::shared_ptr<Maker>> makers;
  std::map<std::string, std::string> last;   // last recorded state of each handle
  for (v::Line l : lines) {
    std::string op = l.w();
    v::Obj o;
    o.S("op", op);
    std::string res = "ok", what;
    try {
      if (op == "args") {            // args M direct|gen DIM kind ... : arguments of a constructor
        std::string m = l.w(), how = l.w();
        int dim = l.n();
        o.S("m", m);
        makers[m] = dim == 1 ? NewMaker<1>(how, l) : dim == 2 ? NewMaker<2>(how, l) : dim == 3 ? NewMaker<3>(how, l) : NewMaker<4>(how, l);
        continue;
      } else if (op == "new") {      // new H M
        std::string h = l.w(), m = l.w();
        o.S("h", h).S("m", m).raw("args", makers.at(m)->args());
        hs[h] = makers.at(m)->make();
      } else if (op == "touch") {    // the user's own knot vector changes
        std::string m = l.w(); int d = l.n(); double u = l.d();
        o.S("m", m);
        makers.at(m)->touch(d, u);
      } else if (op == "copy") {     // copy H G : G := copy of H
        std::string h = l.w(), g = l.w();
        o.S("h", h).S("g", g);
        hs[g] = hs.at(h)->copy();
      } else if (op == "drop") {
        std::string h = l.w();
        o.S("h", h);
        hs.erase(h);
        last.erase(h);
      } else if (!GenOp(op, l, o, hs)) {
        std::string h = l.w();
        o.S("h", h);
        hs.at(h)->op(op, l, o, hs);
      }
    } catch (const std::exception &e) {
      res = "throw";
      what = v::exname(e);
    }
    o.S("res", res);
    if (res == "throw") o.S("ex", what);
    std::string chg = "[";
    for (auto &p : hs) {
      std::string st = p.second->state();
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("h", p.first).raw("s", st).done();
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, exec);
}
