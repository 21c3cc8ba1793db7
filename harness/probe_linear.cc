// Matrix containers, mesh couplings, constraints, the conjugate-gradient
// solver and the assembly of a tangent.
#include <mpi.h>
#include <nimble_block.h>
#include <nimble_boundary_condition_manager.h>
#include <nimble_genesis_mesh.h>
#include <nimble_linear_solver.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>
#include <nimble_mesh_utils.h>

#include <Kokkos_Core.hpp>
#include <cmath>

#include "probe_common.h"

using namespace nimble;

static json
num(double v)
{
  if (std::isfinite(v)) return v;
  return std::isnan(v) ? "nan" : "inf";
}

template <typename M>
static json
ops(M& m, const json& it)
{
  json      out = json::array();
  const int n   = it["n"];
  for (auto& o : it["ops"]) {
    const json&       e  = o["e"];
    const std::string op = e["op"];
    const int         i = e["i"], j = e["j"];
    const double      v = e["v"];
    json              r;
    r["refused"] = false;
    r["val"]     = json::array();
    try {
      if (op == "all") m.SetAllValues(v);
      if (op == "row") m.SetRowValues(i, v);
      if (op == "col") m.SetColumnValues(j, v);
      if (op == "set") m(i, j) = v;
      if (op == "sum") m(i, j) += v;
      if (op == "get") r["val"].push_back(num(const_cast<const M&>(m)(i, j)));
    } catch (const std::exception&) {
      r["refused"] = true;
    }
    out.push_back(r);
  }
  json fin = json::array();
  for (auto& p : it["pat"]) fin.push_back(num(m((int)p[0], (int)p[1])));
  json r;
  r["ops"]   = out;
  r["final"] = fin;
  r["nnz"]   = m.NumNonzeros();
  return r;
}

struct CrsOps : CRSMatrixContainer
{
};

static json
crs_ops(const json& it)
{
  std::vector<int> I, J;
  for (auto& p : it["pat"]) {
    I.push_back(p[0]);
    J.push_back(p[1]);
  }
  CRSMatrixContainer m;
  m.AllocateNonzeros(I, J);
  // products are taken where the history has them
  json      out = json::array();
  const int n   = it["n"];
  json      all, one = it;
  one["pat"] = json::array();
  for (auto& o : it["ops"]) {
    if (o["e"]["op"] == "mul") {
      std::vector<double> v = o["e"]["vec"].get<std::vector<double>>(), y(n + 2, 123.0);
      m.MatVec(v.data(), y.data());
      json r;
      r["refused"] = y[n] != 123.0 || y[n + 1] != 123.0;
      r["val"]     = json::array();
      for (int i = 0; i < n; ++i) r["val"].push_back(num(y[i]));
      out.push_back(r);
    } else {
      one["ops"] = json::array({o});
      out.push_back(ops(m, one)["ops"][0]);
    }
  }
  json fin = it;
  fin["ops"] = json::array();
  json r     = ops(m, fin);
  r["ops"]   = out;
  r["rows"]  = m.NumRows();
  return r;
}

static json
dense_ops(const json& it)
{
  std::vector<int> I, J;
  for (auto& p : it["pat"]) {
    I.push_back(p[0]);
    J.push_back(p[1]);
  }
  MatrixContainer m;
  m.AllocateNonzeros(I, J);
  return ops(m, it);
}

static json
constrain(const json& it)
{
  const int                       nodes = it["nodes"], n = 3 * nodes;
  std::vector<int>                gid = it["gid"].get<std::vector<int>>();
  std::map<int, std::string>      names, sides;
  std::map<int, std::vector<int>> sets, ssets;
  int                             k = 0;
  for (auto& s : it["sets"]) {
    const int id = it["ids"][k++];
    names[id]    = "set_" + std::to_string(k);
    sides[id]    = "side_" + std::to_string(k);
    std::vector<int> v;
    for (int x : s) v.push_back(x - 1);
    if (!v.empty() || it["keep_empty"].get<bool>()) {
      sets[id]  = v;
      ssets[id] = v;
    }
  }
  BoundaryConditionManager bc;
  bc.Initialize(names, sets, sides, ssets, it["lines"].get<std::vector<std::string>>(), 3, it["scheme"]);
  std::vector<double> rhs = it["rhs"].get<std::vector<double>>();
  rhs.push_back(55.0);
  bc.ModifyRHSForKinematicBC(gid.data(), rhs.data());
  json             r, jr = json::array(), jm = json::array(), jd = json::array();
  for (double v : rhs) jr.push_back(num(v));
  std::vector<int> I, J;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (!it["mat"][i][j].empty()) {
        I.push_back(i);
        J.push_back(j);
      }
  CRSMatrixContainer m;
  MatrixContainer    d;
  m.AllocateNonzeros(I, J);
  d.AllocateNonzeros(I, J);
  for (size_t q = 0; q < I.size(); ++q) m(I[q], J[q]) = d(I[q], J[q]) = it["mat"][I[q]][J[q]][0].get<double>();
  bc.ModifyTangentStiffnessMatrixForKinematicBC(n, gid.data(), it["diag"].get<double>(), m);
  bc.ModifyTangentStiffnessMatrixForKinematicBC(n, gid.data(), it["diag"].get<double>(), d);
  for (size_t q = 0; q < I.size(); ++q) {
    jm.push_back(num(m(I[q], J[q])));
    jd.push_back(num(d(I[q], J[q])));
  }
  r["rhs"]   = jr;
  r["crs"]   = jm;
  r["dense"] = jd;
  return r;
}

static json
graph(const json& it)
{
  GenesisMesh mesh;
  mesh.ReadFile(it["path"].get<std::string>());
  std::vector<int> num_ = it["num"].get<std::vector<int>>(), I{7}, J{8, 9};
  DetermineTangentMatrixNonzeroStructure(mesh, num_, I, J);
  json r;
  r["i"] = 0;
  r["I"] = I;
  r["J"] = J;
  return r;
}

static json
cg(const json& it)
{
  CGScratchSpace scratch;
  json           out = json::array();
  for (auto& s : it["list"]) {
    const int        n = s["A"].size();
    std::vector<int> I, J;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (i == j || s["A"][i][j] != 0) {
          I.push_back(i);
          J.push_back(j);
        }
    CRSMatrixContainer A;
    A.AllocateNonzeros(I, J);
    for (size_t q = 0; q < I.size(); ++q) A(I[q], J[q]) = s["scale"].get<double>() * s["A"][I[q]][J[q]].get<double>();
    std::vector<double> b = s["b"].get<std::vector<double>>(), x = s["x0"].get<std::vector<double>>();
    for (double& v : b) v *= s["scale"].get<double>();
    int  iters = -5;
    bool ok    = CG_SolveSystem(A, b.data(), scratch, x.data(), iters, s["tolerance"].get<double>(), s["limit"].get<int>());
    json r;
    r["ok"]    = ok;
    r["iters"] = iters;
    r["x"]     = json::array();
    for (double v : x) r["x"].push_back(num(v));
    // the matrix is not changed
    bool kept = true;
    for (size_t q = 0; q < I.size(); ++q)
      kept = kept && A(I[q], J[q]) == s["scale"].get<double>() * s["A"][I[q]][J[q]].get<double>();
    r["kept"] = kept;
    out.push_back(r);
  }
  json r;
  r["list"] = out;
  return r;
}

static json
assemble(const json& it)
{
  MaterialFactory f;
  Block           b;
  b.Initialize(it["material"].get<std::string>(), f);
  std::vector<double> X = it["X"].get<std::vector<double>>(), u = it["u"].get<std::vector<double>>();
  std::vector<int>    conn = it["conn"].get<std::vector<int>>(), gid = it["gid"].get<std::vector<int>>(), I, J;
  const int           n = X.size();
  std::vector<std::set<int>> nz(n);
  for (size_t e = 0; e < conn.size() / 8; ++e)
    for (int p = 0; p < 8; ++p)
      for (int q = 0; q < 8; ++q)
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) nz[3 * gid[conn[8 * e + p]] + i].insert(3 * gid[conn[8 * e + q]] + j);
  for (int i = 0; i < n; ++i)
    for (int j : nz[i]) {
      I.push_back(i);
      J.push_back(j);
    }
  CRSMatrixContainer m;
  m.AllocateNonzeros(I, J);
  m.SetAllValues(it["start"].get<double>());
  b.ComputeTangentStiffnessMatrix(n, X.data(), u.data(), (int)conn.size() / 8, conn.data(), gid.data(), m);
  json r, cols;
  for (int c : it["columns"].get<std::vector<int>>()) {
    json v = json::array();
    for (int i = 0; i < n; ++i) v.push_back(nz[i].count(c) ? num(m(i, c)) : json(nullptr));
    cols.push_back(v);
  }
  r["columns"] = cols;
  return r;
}

static json
one(const json& it)
{
  const std::string k = it["kind"];
  if (k == "ops") return it["dense"].get<bool>() ? dense_ops(it) : crs_ops(it);
  if (k == "bc") return constrain(it);
  if (k == "graph") return graph(it);
  if (k == "cg") return cg(it);
  return assemble(it);
}

int
main(int argc, char** argv)
{
  auto items = probe::read_items();
  // the solver's inner products are global: each worker is a program of its own in MPI
  return probe::run_items(items, [&](const json& it) {
    static bool started = (MPI_Init(&argc, &argv), Kokkos::initialize(argc, argv), true);
    (void)started;
    return one(it);
  });
}
