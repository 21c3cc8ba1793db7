// Expression language: value / rejection of a string, as the boundary-condition
// functor exposes it.
#include <nimble_expression_parser.h>

#include "probe_common.h"
using ExpressionParsing::BoundaryConditionFunctor;

static json
num(double v)
{
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return std::string(b);
}

int
main()
{
  auto items = probe::read_items();
  return probe::run_items(items, [](const json& it) {
    json        r;
    std::string e = it["e"];
    try {
      BoundaryConditionFunctor f(e);
      json                     vals = json::array();
      for (auto& p : it["pts"]) vals.push_back(num(f.eval(p[0], p[1], p[2], p[3])));
      r["vals"] = vals;
      // a copy and an assigned functor are independent of, and equal to, the original
      auto                     pts = it["pts"];
      BoundaryConditionFunctor g(f);
      BoundaryConditionFunctor h(std::string("x+1"));
      h    = f;
      vals = json::array();
      for (auto& p : pts) vals.push_back(num(g(p[0], p[1], p[2], p[3])));
      r["copy"] = vals;
      vals      = json::array();
      for (auto& p : pts) {
        h.eval(p[0], p[1], p[2], p[3]);
        f.eval(p[3], p[2], p[1], p[0]);  // must not disturb h
        vals.push_back(num(h.eval()));
      }
      r["assign"] = vals;
      // one without an expression can be assigned as well, and then has none until it gets one
      BoundaryConditionFunctor none, e2(f);
      std::string              seen;
      try {
        e2 = none;
        try {
          e2.eval(0, 0, 0, 0);
          seen = "evaluates";
        } catch (const std::invalid_argument&) {
          BoundaryConditionFunctor e3(e2);
          seen = e2.equation == "" && e3.equation == "" ? "none" : "equation";
        }
        e2 = f;
      } catch (const std::invalid_argument& x) {
        seen = std::string("refused: ") + x.what();
      }
      r["empty"] = seen;
      vals       = json::array();
      for (auto& p : pts) vals.push_back(num(e2.eval(p[0], p[1], p[2], p[3])));
      r["again"] = vals;
      if (it.count("then")) {
        // reassign by string; a rejected string leaves the functor as it was
        std::string e2 = it["then"];
        json        t;
        try {
          h = e2;
          t["ok"] = true;
        } catch (const std::invalid_argument&) {
          t["ok"] = false;
        }
        vals = json::array();
        for (auto& p : pts) vals.push_back(num(h.eval(p[0], p[1], p[2], p[3])));
        t["vals"] = vals;
        r["then"] = t;
      }
    } catch (const std::invalid_argument& x) {
      r = json::object();
      r["reject"] = "invalid_argument";
    } catch (const std::exception& x) {
      r = json::object();
      r["reject"] = std::string("other: ") + x.what();
    }
    return r;
  });
}
