// One hexahedral element and single material points, through the entry points
// for plain arrays and for gathered views.
#include <nimble_data_manager.h>
#include <nimble_element.h>
#include <nimble_kokkos_defs.h>
#include <nimble_kokkos_material_factory.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>

#include <Kokkos_Core.hpp>
#include <cmath>
#include <limits>

#include "probe_common.h"

static json
num(double v)
{
  if (std::isfinite(v)) return v;
  return std::isnan(v) ? "nan" : "inf";
}
static json
nums(const double* p, int n)
{
  json a = json::array();
  for (int i = 0; i < n; ++i) a.push_back(num(p[i]));
  return a;
}
static std::vector<double>
flat(const json& j)
{
  std::vector<double> r;
  if (j.is_array()) {
    for (auto& x : j)
      for (double v : flat(x)) r.push_back(v);
  } else
    r.push_back(j.get<double>());
  return r;
}

static json
hex(const json& it)
{
  auto   X = flat(it["X"]), x = flat(it["x"]), s = flat(it["s"]), f9 = flat(it["f9"]), C = flat(it["C"]), iso = flat(it["iso"]);
  double rho = it["rho"];
  json   r, p, k;
  {
    nimble::HexElement   h;
    nimble::Element&     e = h;
    std::vector<double>  m(8, -1), F(72, -1), f(24, 77), ave(9, -1), K(576, 5);
    double               vol = -1;
    e.ComputeLumpedMass(rho, X.data(), m.data());
    p["mass"] = nums(m.data(), 8);
    p["len"]  = e.ComputeCharacteristicLength(X.data());
    p["lenx"] = e.ComputeCharacteristicLength(x.data());
    e.ComputeDeformationGradients(X.data(), x.data(), F.data());
    p["F"] = nums(F.data(), 72);
    e.ComputeNodalForces(x.data(), s.data(), f.data());
    p["force"] = nums(f.data(), 24);
    e.ComputeVolumeAverage(x.data(), 9, f9.data(), vol, ave.data());
    p["vol"]  = vol;
    p["ave9"] = nums(ave.data(), 9);
    e.ComputeVolumeAverage(X.data(), 9, f9.data(), vol, ave.data());
    p["vol0"] = vol;
    // any number of quantities
    std::vector<double> q4(32), a4(4);
    for (int i = 0; i < 8; ++i)
      for (int j = 0; j < 4; ++j) q4[4 * i + j] = f9[9 * i + j];
    e.ComputeVolumeAverage(x.data(), 4, q4.data(), vol, a4.data());
    p["ave4"] = nums(a4.data(), 4);
    e.ComputeTangent(x.data(), C.data(), K.data());
    p["K"] = nums(K.data(), 576);
    std::vector<double> C8;
    for (int q = 0; q < 8; ++q) C8.insert(C8.end(), iso.begin(), iso.end());
    e.ComputeTangent(X.data(), C8.data(), K.data());
    p["Kiso"] = nums(K.data(), 576);
    r["dims"] = json::array({e.Dim(), e.NumNodesPerElement(), e.NumIntegrationPointsPerElement()});
  }
  {
    // element e of three, the others not a number
    using namespace nimble_kokkos;
    nimble::HexElement         h;
    const int                  n = 3, e = it["slot"];
    double                     nan = std::numeric_limits<double>::quiet_NaN();
    DeviceVectorNodeGatheredView gX("X", n), gu("u", n), gf("f", n);
    DeviceScalarNodeGatheredView gm("m", n);
    DeviceFullTensorIntPtView  F("F", n);
    DeviceSymTensorIntPtView   S("S", n);
    DeviceScalarElemView       V("V", n);
    DeviceFullTensorElemView   aF("aF", n);
    DeviceSymTensorElemView    aS("aS", n);
    Kokkos::deep_copy(gX, nan);
    Kokkos::deep_copy(gu, nan);
    Kokkos::deep_copy(gf, 3.5);
    Kokkos::deep_copy(gm, 3.5);
    Kokkos::deep_copy(F, 3.5);
    Kokkos::deep_copy(S, 3.5);
    Kokkos::deep_copy(V, 3.5);
    Kokkos::deep_copy(aF, 3.5);
    Kokkos::deep_copy(aS, 3.5);
    for (int a = 0; a < 8; ++a)
      for (int i = 0; i < 3; ++i) {
        gX(e, a, i) = X[3 * a + i];
        gu(e, a, i) = x[3 * a + i] - X[3 * a + i];
      }
    auto sX = Kokkos::subview(gX, e, Kokkos::ALL, Kokkos::ALL);
    auto su = Kokkos::subview(gu, e, Kokkos::ALL, Kokkos::ALL);
    auto sf = Kokkos::subview(gf, e, Kokkos::ALL, Kokkos::ALL);
    auto sm = Kokkos::subview(gm, e, Kokkos::ALL);
    auto sF = Kokkos::subview(F, e, Kokkos::ALL, Kokkos::ALL);
    auto sS = Kokkos::subview(S, e, Kokkos::ALL, Kokkos::ALL);
    h.ComputeLumpedMass(rho, sX, sm);
    json m = json::array(), jF = json::array(), f = json::array();
    for (int a = 0; a < 8; ++a) m.push_back(num(sm(a)));
    k["mass"] = m;
    h.ComputeDeformationGradients(sX, su, sF);
    for (int q = 0; q < 8; ++q)
      for (int c = 0; c < 9; ++c) jF.push_back(num(sF(q, c)));
    k["F"] = jF;
    for (int q = 0; q < 8; ++q)
      for (int c = 0; c < 6; ++c) sS(q, c) = s[6 * q + c];
    h.ComputeNodalForces(sX, su, sS, sf);
    for (int a = 0; a < 8; ++a)
      for (int i = 0; i < 3; ++i) f.push_back(num(sf(a, i)));
    k["force"] = f;
    h.ComputeVolume(sX, su, Kokkos::subview(V, e));
    k["vol"] = num(V(e));
    for (int q = 0; q < 8; ++q)
      for (int c = 0; c < 9; ++c) sF(q, c) = f9[9 * q + c];
    h.ComputeVolumeAverageFullTensor(sX, su, sF, Kokkos::subview(aF, e, Kokkos::ALL));
    h.ComputeVolumeAverageSymTensor(sX, su, sS, Kokkos::subview(aS, e, Kokkos::ALL));
    json a9 = json::array(), a6 = json::array();
    for (int c = 0; c < 9; ++c) a9.push_back(num(aF(e, c)));
    for (int c = 0; c < 6; ++c) a6.push_back(num(aS(e, c)));
    k["ave9"] = a9;
    k["ave6"] = a6;
    // neighbours untouched
    bool touched = false;
    for (int o = 0; o < n; ++o)
      if (o != e) {
        for (int a = 0; a < 8; ++a) {
          touched |= gm(o, a) != 3.5;
          for (int i = 0; i < 3; ++i) touched |= gf(o, a, i) != 3.5;
          for (int c = 0; c < 9; ++c) touched |= F(o, a, c) != 3.5;
        }
        touched |= V(o) != 3.5;
        for (int c = 0; c < 9; ++c) touched |= aF(o, c) != 3.5;
        for (int c = 0; c < 6; ++c) touched |= aS(o, c) != 3.5;
      }
    k["touched"] = touched;
  }
  r["p"] = p;
  r["k"] = k;
  return r;
}

static json
material(const json& it)
{
  json        r;
  std::string text = it["text"];
  auto        Fs   = flat(it["F"]);
  int         n    = Fs.size() / 9;
  // a data manager is passed along and not used by these models
  alignas(64) static char dm_storage[sizeof(nimble::DataManager)];
  nimble::DataManager&    dm = *reinterpret_cast<nimble::DataManager*>(dm_storage);
  auto arrays = [&](nimble::Material& m) {
    std::vector<double> S(6 * n, 77.0), F(Fs);
    m.GetStress(0, n, 0.0, 1.0, F.data(), F.data(), S.data(), S.data(), nullptr, nullptr, dm, false);
    return nums(S.data(), 6 * n);
  };
  auto views = [&](nimble::Material& m) {
    using namespace nimble_kokkos;
    DeviceFullTensorIntPtView F("F", n), Fn("Fn", n);
    DeviceSymTensorIntPtView  S("S", n), Sn("Sn", n);
    json                      res = json::array();
    for (int k = 0; k < n; ++k) {
      int q = (k + 3) % 8;
      for (int c = 0; c < 9; ++c) {
        F(k, q, c)  = Fs[9 * k + c];
        Fn(k, q, c) = (c < 3);
      }
      auto                              f = Kokkos::subview(F, k, q, Kokkos::ALL);
      auto                              fn = Kokkos::subview(Fn, k, q, Kokkos::ALL);
      auto                              sn = Kokkos::subview(Sn, k, q, Kokkos::ALL);
      auto                              s  = Kokkos::subview(S, k, q, Kokkos::ALL);
      nimble::Material::DeviceElemState a, b;
      const nimble::Material&           cm = m;
      cm.GetStress(0.0, 1.0, fn, f, sn, s, a, b);
      for (int c = 0; c < 6; ++c) res.push_back(num(s(c)));
    }
    return res;
  };
  {
    nimble::MaterialFactory f;
    f.parse_and_create(text);
    auto m = f.get_material();
    r["host"]      = arrays(*m);
    r["hostview"]  = views(*m);
    int                 np = it["np"];
    std::vector<double> T(36 * np + 1, 77.0);
    m->GetTangent(np, T.data());
    r["tangent"] = nums(T.data(), 36 * np + 1);
    r["again"]   = arrays(*m);
    r["par"]     = json::array({m->GetDensity(), m->GetBulkModulus(), m->GetShearModulus()});
  }
  {
    nimble_kokkos::MaterialFactory f;
    f.parse_and_create(text);
    auto m = f.get_material_host();
    auto d = f.get_material_device();
    r["khost"] = arrays(*m);
    r["dev"]   = views(*d);
  }
  return r;
}

int
main(int argc, char** argv)
{
  auto items = probe::read_items();
  return probe::run_items(
      items,
      [](const json& it) -> json {
        if (!Kokkos::is_initialized()) {
          static int   c = 1;
          static char  n[] = "probe";
          static char* v[] = {n, nullptr};
          Kokkos::initialize(c, v);
        }
        return it["kind"] == "hex" ? hex(it) : material(it);
      },
      20);
}
