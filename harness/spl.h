// Driver for splines (src/baf, src/spl): interface over the parametric dimensions.
#ifndef VERIF_SPL_H_
#define VERIF_SPL_H_
#include "common.h"

struct Handle {
  virtual ~Handle() = default;
  virtual std::string state() const = 0;       // JSON projection through the public getters
  virtual std::shared_ptr<Handle> copy() const = 0;
  // executes one operation; fills the event; may create further handles
  virtual void op(const std::string &name, v::Line &l, v::Obj &o,
                  std::map<std::string, std::shared_ptr<Handle>> &all) = 0;
};
struct Maker {   // keeps what the user passed to a constructor, so that scripts can go on using it
  virtual ~Maker() = default;
  virtual std::shared_ptr<Handle> make() = 0;          // a spline from these arguments / this generator
  virtual std::string args() const = 0;                 // what was passed, as JSON
  virtual void touch(int direction, double knot) = 0;  // the user changes a knot vector passed before
};
using Handles = std::map<std::string, std::shared_ptr<Handle>>;
template<int D> std::shared_ptr<Maker> NewMaker(const std::string &how, v::Line &l);
// surfaces from curves, squares, random splines, projections, elements; false: not one of these operations
bool GenOp(const std::string &op, v::Line &l, v::Obj &o, Handles &hs);
#endif
