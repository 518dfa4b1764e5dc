// io SCRIPT TRACE SECONDS: replays scenarios of reading, writing and converting spline files.
// Every scenario has a directory of its own (created and removed here); the paths of a script are relative to it.
#include <dirent.h>
#include <sys/stat.h>
#include <any>
#include <array>
#include <iterator>
#include "common.h"
#include "any_casts.h"
#include "b_spline.h"
#include "converter_log.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "io_converter.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "nurbs.h"
#include "vtk_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"

template<int D> std::any make(const std::string &kind, v::Line &l) {
  std::array<Degree, D> deg;
  for (auto &d : deg) d = Degree{l.n()};
  KnotVectors<D> kv;
  for (auto &k : kv) {
    std::vector<ParamCoord> c;
    for (double x : l.ds()) c.push_back(ParamCoord{x});
    k = std::make_shared<baf::KnotVector>(c);
  }
  int n = l.n();
  std::vector<baf::ControlPoint> pts;
  for (int i = 0; i < n; ++i) pts.emplace_back(l.ds());
  if (kind == "b") return std::make_any<std::shared_ptr<spl::BSpline<D>>>(std::make_shared<spl::BSpline<D>>(kv, deg, pts));
  auto w = l.ds();
  return std::make_any<std::shared_ptr<spl::NURBS<D>>>(std::make_shared<spl::NURBS<D>>(kv, deg, pts, w));
}
template<int D, class T> std::string show(const std::string &kind, T &s) {
  v::Obj o;
  o.S("kind", kind).I("dim", D);
  std::vector<int> deg;
  std::string ks = "[";
  for (int d = 0; d < D; ++d) {
    deg.push_back(s.GetDegree(d).get());
    std::vector<double> k;
    for (auto &x : *s.GetKnotVector(d)) k.push_back(x.get());
    ks += (d ? "," : "") + v::nums(k);
  }
  o.IL("deg", deg).raw("knots", ks + "]").IL("n", s.GetPointsPerDirection());
  std::string ps = "[";
  std::vector<double> w;
  util::MultiIndexHandler<D> h(s.GetPointsPerDirection());
  int total = s.GetNumberOfControlPoints();
  for (int i = 0; i < total; ++i, ++h) {
    std::vector<double> p;
    for (int c = 0; c < s.GetPointDim(); ++c) p.push_back(s.GetControlPoint(h.GetIndices(), c));
    ps += (i ? "," : "") + v::nums(p);
    w.push_back(s.GetWeight(h.GetIndices()));
  }
  o.raw("pts", ps + "]").L("w", w);
  return o.done();
}
template<int D> bool tryShow(const std::any &a, std::string *out) {
  if (auto p = std::any_cast<std::shared_ptr<spl::BSpline<D>>>(&a)) { *out = show<D>("b", **p); return true; }
  if (auto p = std::any_cast<std::shared_ptr<spl::NURBS<D>>>(&a)) { *out = show<D>("n", **p); return true; }
  return false;
}
static std::string show(const std::any &a) {
  std::string r = "{\"kind\":\"other\",\"dim\":0}";
  tryShow<1>(a, &r) || tryShow<2>(a, &r) || tryShow<3>(a, &r) || tryShow<4>(a, &r);
  return r;
}
static std::string text(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static std::map<std::string, std::string> files() {
  std::map<std::string, std::string> r;
  DIR *x = opendir(".");
  while (dirent *e = readdir(x)) r[e->d_name] = e->d_name[0] == '.' ? "" : text(e->d_name);
  closedir(x);
  return r;
}
static std::string unhex(const std::string &h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static std::vector<std::vector<int>> lists(v::Line &l) {
  std::vector<std::vector<int>> r;
  int n = l.n();
  for (int i = 0; i < n; ++i) r.push_back(l.is());
  return r;
}
static std::string lists(const std::vector<std::vector<int>> &x) {
  return v::list(x, [](const std::vector<int> &y) { return v::ints(y); });
}

template<int D> void types(const std::any &a, v::Obj &o) {
  std::string k = std::to_string(D), r;
  try { auto p = util::AnyCasts::GetSpline<D>(a); r = p ? "yes" : "null"; } catch (const std::runtime_error &) { r = "throw"; }
  o.S("get" + k, r);
  try { r = util::AnyCasts::IsRational<D>(a) ? "yes" : "no"; } catch (const std::runtime_error &) { r = "throw"; }
  o.S("rational" + k, r);
}

static void exec(const std::vector<v::Line> &lines, v::Out &out) {
  std::map<std::string, std::vector<std::any>> mem;
  std::map<std::string, std::string> last;
  struct Conv { std::string in, out; std::unique_ptr<io::IOConverter> c; };
  std::map<std::string, std::shared_ptr<Conv>> convs;
  std::map<std::string, std::shared_ptr<io::ConverterLog>> logs;
  std::map<std::string, std::string> logpath;
  for (v::Line l : lines) {
    for (auto &t : l.t) for (auto &c : t) if (c == '~') c = ' ';     // blanks in file names
    std::string op = l.w(), res = "ok";
    v::Obj o;
    o.S("op", op);
    std::string path;      // file whose text is recorded afterwards
    try {
      if (op == "add") {
        std::string L = l.w(), kind = l.w();
        int dim = l.n();
        o.S("L", L);
        if (dim == 1) mem[L].push_back(make<1>(kind, l));
        else if (dim == 2) mem[L].push_back(make<2>(kind, l));
        else if (dim == 3) mem[L].push_back(make<3>(kind, l));
        else mem[L].push_back(make<4>(kind, l));
      } else if (op == "empty") {
        std::string L = l.w();
        o.S("L", L);
        mem[L].clear();
      } else if (op == "append") {          // the i-th spline of M becomes shared with L
        std::string L = l.w(), M = l.w();
        int i = l.n();
        o.S("L", L).S("M", M).I("i", i);
        auto x = mem.at(M).at(i - 1);
        mem[L].push_back(x);
      } else if (op == "write") {
        std::string fmt = l.w(), L = l.w();
        path = l.w();
        o.S("fmt", fmt).S("L", L);
        std::vector<std::vector<int>> sc;
        if (fmt == "vtk") { sc = lists(l); o.raw("scat", lists(sc)); }
        if (fmt == "xml") io::XMLWriter().WriteFile(mem.at(L), path.c_str());
        else if (fmt == "iges") io::IGESWriter().WriteFile(mem.at(L), path.c_str());
        else if (fmt == "irit") io::IRITWriter().WriteFile(mem.at(L), path.c_str());
        else io::VTKWriter().WriteFile(mem.at(L), path.c_str(), sc);
      } else if (op == "read") {
        std::string fmt = l.w(), p = l.w(), L = l.w();
        o.S("fmt", fmt).S("path", p).S("L", L);
        std::vector<std::any> r;
        if (fmt == "xml") r = io::XMLReader().ReadFile(p.c_str());
        else if (fmt == "iges") r = io::IGESReader().ReadFile(p.c_str());
        else r = io::IRITReader().ReadFile(p.c_str());
        mem[L] = r;
      } else if (op == "file") {
        path = l.w();
        std::string t = l.more() ? unhex(l.w()) : "";
        std::ofstream(path, std::ios::binary) << t;
      } else if (op == "conv") {
        std::string c = l.w();
        auto x = std::make_shared<Conv>();
        x->in = l.w();
        x->out = l.w();
        o.S("c", c).S("in", x->in).S("out", x->out);
        x->c = std::make_unique<io::IOConverter>(x->in.c_str(), x->out.c_str());
        convs[c] = x;
      } else if (op == "run") {
        std::string c = l.w();
        auto pos = l.is();
        auto sc = lists(l);
        o.S("c", c).IL("pos", pos).raw("scat", lists(sc));
        path = convs.at(c)->out;
        auto ret = convs.at(c)->c->ConvertFile(pos, sc);
        o.IL("ret", ret);
      } else if (op == "possible") {
        std::string L = l.w();
        int d = l.n();
        o.S("L", L).I("max", d).IL("ret", io::IOConverter::GetSplinePositionsOfCorrectDimension(mem.at(L), d));
      } else if (op == "types") {
        std::string L = l.w();
        o.S("L", L);
        std::string all = "[";
        for (auto &a : mem.at(L)) {
          v::Obj t;
          t.I("dim", util::AnyCasts::GetSplineDimension(a));
          types<1>(a, t);
          types<2>(a, t);
          types<3>(a, t);
          types<4>(a, t);
          all += (all.size() > 1 ? "," : "") + t.done();
        }
        o.raw("ret", all + "]");
      } else if (op == "openlog") {
        std::string g = l.w(), p = l.w();
        o.S("g", g).S("path", p);
        logpath[g] = p;                      // the object keeps the pointer
        logs[g] = std::make_shared<io::ConverterLog>(logpath[g].c_str());
        o.S("in", logs[g]->GetInput()).S("out", logs[g]->GetOutput());
      } else if (op == "positions") {
        std::string g = l.w();
        auto pos = l.is();
        o.S("g", g).IL("possible", pos);
        o.IL("ret", logs.at(g)->GetPositions(pos));
      } else if (op == "scattering") {
        std::string g = l.w();
        o.S("g", g);
        o.raw("ret", lists(logs.at(g)->GetScattering()));
      } else if (op == "writelog") {
        std::string g = l.w();
        o.S("g", g);
        path = logpath.at(g);
        logs.at(g)->WriteLog();
      } else if (op == "exec") {             // a converter executable with the given log file
        std::string x = l.w(), lg = l.w(), outp = l.w();
        path = outp;
        o.S("exe", x).S("log", lg);
        const char *dir = getenv("VERIF_EXE");
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          alarm(20);
          if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(65);
          std::string e = std::string(dir) + "/" + x;
          execl(e.c_str(), e.c_str(), lg.c_str(), nullptr);
          _exit(66);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 65) _exit(64);
        res = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ok" : (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "throw" : "died");
        o.S("logtext", text(lg));
      } else if (op == "call") {             // a converter executable with any arguments; which files change?
        std::string x = l.w();
        std::vector<std::string> a(l.n());
        for (auto &t : a) t = l.w();
        o.S("exe", x).raw("args", v::list(a, [](const std::string &t) { return "\"" + t + "\""; }));
        auto before = files();
        const char *dir = getenv("VERIF_EXE");
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
          alarm(20);
          if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(65);
          std::string e = std::string(dir) + "/" + x;
          std::vector<char *> av{&e[0]};
          for (auto &t : a) av.push_back(&t[0]);
          av.push_back(nullptr);
          execv(e.c_str(), av.data());
          _exit(66);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 65) _exit(64);
        res = WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ok" : (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "throw" : "died");
        o.B("same", before == files());
      } else if (op == "alien") {            // things that are no splines: every question about them is refused
        std::vector<std::any> things{std::any(), std::any(5), std::any(std::string("spline")), std::any(std::vector<double>{1, 2}),
                                     std::any(std::shared_ptr<int>())};
        std::vector<int> kept;
        for (auto &a : things) {
          v::Obj t;
          bool dim = true;
          try { util::AnyCasts::GetSplineDimension(a); } catch (const std::exception &) { dim = false; }
          types<1>(a, t);
          types<2>(a, t);
          types<3>(a, t);
          types<4>(a, t);
          std::string all = t.done();
          kept.push_back(dim || all.find("yes") != std::string::npos || all.find("\"no\"") != std::string::npos);
        }
        o.IL("answered", kept);
      } else {
        _exit(64);
      }
    } catch (const std::exception &e) {
      res = "throw";
      o.S("what", v::exname(e));
    }
    o.S("res", res);
    if (!path.empty()) o.S("path", path).B("there", exists(path)).S("text", text(path));
    std::string chg = "[";
    for (auto &p : mem) {
      std::string st = v::list(p.second, [](const std::any &a) { return show(a); });
      if (last[p.first] != st) {
        chg += (chg.size() > 1 ? "," : "") + v::Obj().S("L", p.first).raw("s", st).done();
        last[p.first] = st;
      }
    }
    o.raw("chg", chg + "]");
    out.event(o.done());
  }
}
static void inOwnDirectory(const std::vector<v::Line> &lines, v::Out &out) {
  char d[] = "./sc.XXXXXX";
  if (!mkdtemp(d) || chdir(d)) _exit(64);
  exec(lines, out);
  if (chdir("..")) return;
  if (DIR *x = opendir(d)) {
    while (dirent *e = readdir(x)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") unlink((std::string(d) + "/" + n).c_str());
    }
    closedir(x);
  }
  rmdir(d);
}
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  return v::run(argv[1], argv[2], argc > 3 ? atoi(argv[3]) : 10, inOwnDirectory);
}
