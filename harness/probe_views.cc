// Views over one storage (spec/Views.tla, P32): executes the operations of a
// behaviour on real views and reports what every one of them read.
#include <numeric>
#include <utility>

#include "nimble.quanta.arrayview.h"
#include "nimble.quanta.h"
#include "nimble_view.h"
#include "probe_common.h"

namespace q = nimble::quanta;
using V1    = nimble::Viewify<1>;
using V2    = nimble::Viewify<2>;
using A     = q::arrayview_t<double>;

struct view
{
  std::string kind;
  V1          s1;
  V2          s2;
  A           a;
  view(const std::string& k) : kind(k) {}
  view(const std::string& k, const A& v) : kind(k), a(v) {}
};

static json
reads(view& v)
{
  json all = json::array();
  auto add = [&](const std::vector<double>& x) { all.push_back(x); };
  if (v.kind == "s1") {
    std::vector<double> x, y;
    const V1&           c = v.s1;
    for (int i = 0; i < v.s1.size()[0]; ++i) {
      x.push_back(v.s1(i));
      y.push_back(c(i));
    }
    add(x);
    add(y);
  } else if (v.kind == "s2") {
    std::vector<double> x, y;
    const V2&           c = v.s2;
    for (int i = 0; i < v.s2.size()[0]; ++i)
      for (int j = 0; j < v.s2.size()[1]; ++j) {
        x.push_back(v.s2(i, j));
        y.push_back(c(i, j));
      }
    add(x);
    add(y);
  } else {
    std::vector<double> x, y, z, w, u;
    for (size_t i = 0; i < v.a.size(); ++i) x.push_back(v.a[i]);
    for (double d : v.a) y.push_back(d);
    auto cs = v.a.const_sub(0, v.a.size());
    for (size_t i = 0; i < cs.size(); ++i) z.push_back(cs[i]);
    for (const double& d : v.a.as_span_of_const()) w.push_back(d);
    for (size_t i = 0; i < v.a.size(); ++i) u.push_back(v.a.data()[i]);
    add(x);
    add(y);
    add(z);
    add(w);
    add(u);
    std::vector<double> t(v.a.size() + 1, 12345.0);
    v.a.copy_to(t.begin());
    if (t.back() != 12345.0) throw std::runtime_error("copy_to writes past the size of the view");
    t.pop_back();
    add(t);
  }
  return all;
}

template <int F>
static json
fields(const json& o)
{
  using FV = nimble::View<static_cast<FieldEnum>(F)>;
  int n    = o["n"];
  FV  one(n), two(one), three(2);
  three = two;
  std::array<FV*, 3> by{&one, &two, &three};
  auto               at = [](FV& f, int i, int j) -> double& {
    if constexpr (F == 1)
      return f(i);
    else
      return f(i, j);
  };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < F; ++j) at(one, i, j) = 7;
  for (auto& w : o["writes"]) at(*by[w["by"].get<int>() - 1], w["n"], w["c"]) = w["x"];
  json all = json::array();
  for (FV* f : by) {
    json rows = json::array();
    for (int i = 0; i < f->extent(0); ++i) {
      json row = json::array();
      for (int j = 0; j < f->extent(1); ++j) row.push_back(at(*f, i, j));
      rows.push_back(row);
    }
    if (f->rank() != (F == 1 ? 1 : 2)) rows.push_back("rank");
    all.push_back(rows);
  }
  return all;
}

static json
run(const json& item)
{
  const int           G = 64, N = item["n"];
  std::vector<double> store(N + 2 * G);
  for (int i = 0; i < (int)store.size(); ++i) store[i] = 5000 + i;
  double* mem = store.data() + G;
  for (int i = 0; i < N; ++i) mem[i] = (i * 37) % 101 - 50;
  std::vector<std::unique_ptr<view>> vs;
  json                               out = json::array();
  for (auto& o : item["ops"]) {
    const std::string op = o["op"];
    json              r;
    auto              arg = [&](const char* k) -> view& { return *vs[o[k].get<int>() - 1]; };
    if (op == "make") {
      const auto&       d    = o["v"];
      const std::string kind = d["kind"], how = o["how"];
      int               base = d["base"], n = d["len"][0], s = d["st"][0];
      if (kind == "a") {
        if (how == "count")
          vs.emplace_back(new view(kind, A(mem + base, (size_t)n)));
        else if (how == "start")
          vs.emplace_back(base % 2 ? new view(kind, A(mem, base, n)) : new view(kind, A(store, G + base, n)));
        else
          vs.emplace_back(new view(kind, A(mem + base, mem + base + n)));
      } else {
        vs.emplace_back(new view(kind));
        if (kind == "s2")
          vs.back()->s2 = V2(mem + base, {n, d["len"][1]}, {s, d["st"][1]});
        else if (s == 1 && how == "count")
          vs.back()->s1 = V1(mem + base, n);
        else
          vs.back()->s1 = V1(mem + base, std::array<int, 1>{n}, std::array<int, 1>{s});
      }
      r["val"] = reads(*vs.back());
    } else if (op == "sub") {
      size_t start = o["start"], count = o["count"];
      vs.emplace_back(new view("a", arg("k").a.sub(start, count)));
      r["val"] = reads(*vs.back());
      auto                c = arg("k").a.const_sub(start, count);
      std::vector<double> x(c.begin(), c.end());
      r["val"].push_back(x);
    } else if (op == "alias") {
      vs.emplace_back(new view(arg("k")));
      r["val"] = reads(*vs.back());
    } else if (op == "set" || op == "sum") {
      view&  v = arg("k");
      double x = o["x"];
      double& c =
          v.kind == "s1" ? v.s1(o["e"].get<int>()) : (v.kind == "s2" ? v.s2(o["e"][0], o["e"][1]) : v.a[o["e"].get<int>()]);
      r["val"] = json::array({json::array({c})});
      if (op == "set")
        c = x;
      else
        c += x;
    } else if (op == "get" || op == "to") {
      r["val"] = reads(arg("k"));
    } else if (op == "zero") {
      view& v = arg("k");
      v.kind == "s1" ? v.s1.zero() : v.s2.zero();
    } else if (op == "copy") {
      view &v = arg("k"), &w = arg("l");
      v.kind == "s1" ? v.s1.copy(w.s1) : v.s2.copy(w.s2);
    } else if (op == "axpy") {
      view & v = arg("k"), &w = arg("l");
      double a = o["a"];
      if (v.kind == "s1")
        v.s1 += a * w.s1;
      else
        v.s2 += a * w.s2;
    } else if (op == "assign") {
      view & v = arg("k"), &w = arg("l");
      double a = o["a"], d = o["d"], c = o["r"];
      if (v.kind == "s1")
        (a * w.s1).assignTo(d, c, v.s1);
      else
        (a * w.s2).assignTo(d, c, v.s2);
    } else if (op == "from") {
      std::vector<double> s = o["seq"].get<std::vector<double>>();
      arg("k").a.copy_from(s.begin());
    } else if (op == "exchange") {
      arg("k").a.swap_with(arg("l").a.begin());
    } else if (op == "swap") {
      swap(arg("k").a, arg("l").a);
    } else if (op == "remap") {
      double a = o["a"], b = o["b"];
      q::remap(arg("k").a, [&](double x) { return a * x + b; });
    } else if (op == "parts") {
      std::vector<double> part(mem, mem + N);
      std::vector<int>    counts = o["counts"].get<std::vector<int>>();
      auto                ps     = q::partition_into_arrayviews(part, counts);
      json                x      = json::array();
      for (auto& p : ps) x.push_back(std::vector<double>(p.begin(), p.end()));
      r["val"] = json::array({x});
    } else if (op == "sections") {
      std::vector<int>     counts = o["counts"].get<std::vector<int>>();
      q::spanarray<double> s(counts);
      for (auto& sec : s)
        for (double& d : sec) d = 7;
      int n = 0;
      for (auto& w : o["writes"]) {
        int a = w["s"].get<int>() - 1, b = w["e"];
        if (n++ % 2)
          s(a, b) = w["x"].get<double>();
        else
          s[a][b] = w["x"].get<double>();
      }
      const q::spanarray<double>& c = s;
      json                        x = json::array(), y = json::array(), z = json::array();
      for (auto& sec : c) x.push_back(std::vector<double>(sec.begin(), sec.end()));
      for (size_t i = 0; i < c.size(); ++i) {
        std::vector<double> t, u;
        for (size_t j = 0; j < c[i].size(); ++j) {
          t.push_back(c(i, j));
          u.push_back(c[i][j]);
        }
        y.push_back(t);
        z.push_back(u);
      }
      q::spanarray<double> moved(std::move(s));
      json                 w = json::array();
      for (auto& sec : moved) w.push_back(std::vector<double>(sec.begin(), sec.end()));
      r["val"] = json::array({x, y, z, w});
      q::spanarray<double> none;
      if (none.size() != 0) r["val"].push_back("the empty array has sections");
    } else if (op == "fields") {
      int c    = o["c"];
      r["val"] = c == 1 ? fields<1>(o) : c == 3 ? fields<3>(o) : c == 6 ? fields<6>(o) : fields<9>(o);
    }
    r["op"] = op;
    r["mem"] = std::vector<double>(mem, mem + N);
    out.push_back(r);
  }
  json fin;
  fin["ops"]   = out;
  int  touched = 0;
  for (int i = 0; i < (int)store.size(); ++i)
    if ((i < G || i >= G + N) && store[i] != 5000 + i) ++touched;
  fin["outside"] = touched;
  return fin;
}

int
main()
{
  return probe::run_items(probe::read_items(), run, 10);
}
