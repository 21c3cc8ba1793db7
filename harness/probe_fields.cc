// Replays histories of field operations (spec/Fields.tla) on the two model
// data classes.
#include <map>
#include <memory>
#include <mpi.h>

#include "nimble_data_manager.h"
#include "nimble_genesis_mesh.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_model_data.h"
#include "nimble_parser.h"
#include "probe_common.h"

using nimble::Length;

static Length
length(const std::string& s)
{
  if (s == "scalar") return nimble::SCALAR;
  if (s == "vector") return nimble::VECTOR;
  if (s == "sym") return nimble::SYMMETRIC_TENSOR;
  if (s == "full") return nimble::FULL_TENSOR;
  return static_cast<Length>(std::stoi(s));
}

// ---- host fields
struct Host : nimble::ModelData
{
  using nimble::ModelData::GetNodeData;
  struct Key
  {
    std::string rel, label, len;
    int         block, n;
  };
  std::vector<Key> keys;
  int              turn = 0;

  int
  comps(const std::string& len)
  {
    return nimble::LengthToInt(length(len), dim_);
  }
  double&
  at(const Key& k, bool old, int idx)
  {
    ++turn;
    if (k.rel == "node") {
      int id = GetFieldId(k.label);
      if (k.len == "scalar") {
        auto v = turn % 2 ? GetScalarNodeData(id) : GetScalarNodeData(k.label);
        return v.data()[idx * v.stride()[0]];
      }
      if (k.len == "vector") {
        auto v = turn % 2 ? GetVectorNodeData(id) : GetVectorNodeData(k.label);
        return v(idx / 3, idx % 3);
      }
      return turn % 2 ? nimble::ModelData::GetNodeData(id)[idx] : GetNodeData(k.label)[idx];
    }
    int   nc     = comps(k.len);
    auto& labels = GetElementDataLabels().at(k.block);
    auto  names  = nimble::GetComponentLabels(k.label, length(k.len), dim_);
    int   pos    = -1;
    for (int i = 0; i < (int)labels.size(); ++i)
      if (labels[i] == names.at(idx % nc)) pos = i;
    auto& v = old ? GetElementDataOld(k.block) : GetElementDataNew(k.block);
    return v.at((idx / nc) * labels.size() + pos);
  }
  json
  dump(bool old)
  {
    json r = json::array();
    for (auto& k : keys) {
      json v = json::array();
      for (int i = 0; i < k.n * comps(k.len); ++i) v.push_back(at(k, old, i));
      r.push_back({{"rel", k.rel}, {"block", k.block}, {"label", k.label}, {"v", v}});
    }
    return r;
  }
  Key&
  find(const json& o)
  {
    for (auto& k : keys)
      if (k.rel == o["rel"] && k.block == o["block"].get<int>() && k.label == o["label"]) return k;
    throw std::runtime_error("no such key");
  }
};

static json
host(const json& it, nimble::DataManager& dm)
{
  Host m;
  m.SetDimension(3);
  json out = json::array();
  for (auto& o : it["ops"]) {
    json              r  = nullptr;
    const std::string op = o["op"];
    if (op == "node") {
      r = m.AllocateNodeData(length(o["len"]), o["label"], o["n"]);
      bool known = false;
      for (auto& k : m.keys) known = known || (k.rel == "node" && m.GetFieldId(k.label) == r.get<int>());
      if (!known) m.keys.push_back({"node", o["label"], o["len"], 0, o["n"]});
    } else if (op == "declare") {
      std::map<int, int> num;
      for (auto& b : o["blocks"]) {
        std::vector<std::pair<std::string, Length>> d;
        for (auto& f : b["fields"]) {
          d.emplace_back(f["label"].get<std::string>(), length(f["len"]));
          m.keys.push_back({"ipt", f["label"], f["len"], b["id"], b["n"]});
        }
        m.DeclareElementData(b["id"], d);
        num[b["id"]] = b["n"];
      }
      m.AllocateElementData(num);
      r = json::object();
      for (auto& b : o["blocks"]) r[std::to_string(b["id"].get<int>())] = m.GetElementDataLabels().at(b["id"]);
    } else if (op == "look") {
      try {
        r = m.GetFieldId(o["label"]);
      } catch (const std::exception&) {
        r = -1;
      }
    } else if (op == "fill") {
      auto& k = m.find(o);
      for (int i = 0; i < k.n * m.comps(k.len); ++i) m.at(k, false, i) = o["v"].get<double>() + i;
    } else if (op == "set") {
      m.at(m.find(o), o["old"].get<bool>(), o["i"]) = o["v"];
    } else if (op == "advance") {
      m.UpdateStates(dm);
    } else if (op == "output") {
      std::string s;
      for (auto& q : o["req"]) s += (s.empty() ? "" : " ") + q.get<std::string>();
      m.SpecifyOutputFields(s);
      std::vector<std::vector<double>>                a;
      std::map<int, std::vector<std::vector<double>>> e;
      m.GetNodeDataForOutput(a);
      m.GetElementDataForOutput(e);
      r["node"]        = m.GetNodeDataLabelsForOutput();
      r["node_values"] = a;
      r["elem"]        = json::object();
      for (auto& b : m.GetElementDataLabelsForOutput())
        r["elem"][std::to_string(b.first)] = {{"labels", b.second}, {"values", e[b.first]}};
      r["derived"] = json::object();
      for (auto& b : m.GetDerivedElementDataLabelsForOutput()) r["derived"][std::to_string(b.first)] = b.second;
    } else if (op == "dump") {
      r["new"] = m.dump(false);
      r["old"] = m.dump(true);
    }
    out.push_back(r);
  }
  return {{"r", out}};
}

// ---- device fields
struct Dev
{
  nimble_kokkos::ModelData m;
  struct Key
  {
    std::string rel, label, len;
    int         block, n, id;
  };
  std::vector<Key> keys;

  int
  comps(const std::string& len)
  {
    return nimble::LengthToInt(length(len), 3);
  }
  Key&
  find(const json& o)
  {
    for (auto& k : keys)
      if (k.rel == o["rel"] && k.block == o["block"].get<int>() && k.label == o["label"]) return k;
    throw std::runtime_error("no such key");
  }
  // hands every entry, by number, to f; writes reach the device copy and its mirror
  template <typename V, typename F>
  static void
  all1(V v, F f)
  {
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    for (int i = 0; i < (int)h.extent(0); ++i) f(i, h(i));
    Kokkos::deep_copy(v, h);
  }
  template <typename V, typename F>
  static void
  all2(V v, F f)
  {
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    int c = h.extent(1);
    for (int i = 0; i < (int)h.extent(0) * c; ++i) f(i, h(i / c, i % c));
    Kokkos::deep_copy(v, h);
  }
  template <typename V, typename F>
  static void
  all3(V v, F f)
  {
    auto h = Kokkos::create_mirror_view(v);
    Kokkos::deep_copy(h, v);
    int c = h.extent(2), p = h.extent(1);
    for (int i = 0; i < (int)h.extent(0) * c * p; ++i) f(i, h(i / (c * p), (i / c) % p, i % c));
    Kokkos::deep_copy(v, h);
  }
  template <typename F>
  void
  device(const Key& k, bool old, F f)
  {
    auto st = old ? nimble::STEP_N : nimble::STEP_NP1;
    int  id = m.GetFieldId(k.label);
    if (k.rel == "node") {
      if (k.len == "scalar") {
        all1(m.GetDeviceScalarNodeData(id), f);
        Kokkos::deep_copy(m.GetHostScalarNodeData(id), m.GetDeviceScalarNodeData(id));
      } else {
        all2(m.GetDeviceVectorNodeData(id), f);
        Kokkos::deep_copy(m.GetHostVectorNodeData(id), m.GetDeviceVectorNodeData(id));
      }
    } else if (k.rel == "elem") {
      if (k.len == "scalar") {
        all1(m.GetDeviceScalarElementData(k.block, id), f);
        Kokkos::deep_copy(m.GetHostScalarElementData(k.block, id), m.GetDeviceScalarElementData(k.block, id));
      } else if (k.len == "sym") {
        all2(m.GetDeviceSymTensorElementData(k.block, id), f);
        Kokkos::deep_copy(m.GetHostSymTensorElementData(k.block, id), m.GetDeviceSymTensorElementData(k.block, id));
      } else {
        all2(m.GetDeviceFullTensorElementData(k.block, id), f);
        Kokkos::deep_copy(m.GetHostFullTensorElementData(k.block, id), m.GetDeviceFullTensorElementData(k.block, id));
      }
    } else {
      if (k.len == "scalar")
        all3(m.GetDeviceScalarIntegrationPointData(k.block, id, st), f);
      else if (k.len == "vector")
        all3(m.GetDeviceVectorIntegrationPointData(k.block, id, st), f);
      else if (k.len == "sym") {
        all3(m.GetDeviceSymTensorIntegrationPointData(k.block, id, st), f);
        Kokkos::deep_copy(
            m.GetHostSymTensorIntegrationPointData(k.block, id, st), m.GetDeviceSymTensorIntegrationPointData(k.block, id, st));
      } else {
        all3(m.GetDeviceFullTensorIntegrationPointData(k.block, id, st), f);
        Kokkos::deep_copy(
            m.GetHostFullTensorIntegrationPointData(k.block, id, st), m.GetDeviceFullTensorIntegrationPointData(k.block, id, st));
      }
    }
  }
  // the values as the host sees them (through the general views where there are any)
  json
  seen(const Key& k, bool old)
  {
    auto st = old ? nimble::STEP_N : nimble::STEP_NP1;
    int  id = m.GetFieldId(k.label);
    json v  = json::array();
    auto f  = [&](int, double& x) { v.push_back(x); };
    if (k.rel == "node") {
      if (k.len == "scalar") {
        auto w = m.GetScalarNodeData(k.label);
        for (int i = 0; i < w.size()[0]; ++i) v.push_back(w(i));
      } else {
        auto w = m.GetVectorNodeData(id);
        for (int i = 0; i < w.size()[0] * w.size()[1]; ++i) v.push_back(w(i / 3, i % 3));
      }
    } else if (k.rel == "elem") {
      if (k.len == "scalar")
        all1(m.GetHostScalarElementData(k.block, id), f);
      else if (k.len == "sym")
        all2(m.GetHostSymTensorElementData(k.block, id), f);
      else
        all2(m.GetHostFullTensorElementData(k.block, id), f);
    } else {
      if (k.len == "scalar")
        all3(m.GetDeviceScalarIntegrationPointData(k.block, id, st), f);
      else if (k.len == "vector")
        all3(m.GetDeviceVectorIntegrationPointData(k.block, id, st), f);
      else if (k.len == "sym")
        all3(m.GetHostSymTensorIntegrationPointData(k.block, id, st), f);
      else
        all3(m.GetHostFullTensorIntegrationPointData(k.block, id, st), f);
    }
    return v;
  }
  json
  dump(bool old)
  {
    json r = json::array();
    for (auto& k : keys) {
      json d = json::array();
      device(k, old, [&](int, double& x) { d.push_back(x); });
      json h = seen(k, old);
      json e = {{"rel", k.rel}, {"block", k.block}, {"label", k.label}, {"v", d}};
      if (h != d) e["host"] = h;
      r.push_back(e);
    }
    return r;
  }
};

static json
device(const json& it)
{
  using namespace nimble_kokkos;
  Dev  w;
  auto conn = [](const json& c) {
    DeviceElementConnectivityView d("c", c.size());
    auto                          h = Kokkos::create_mirror_view(d);
    for (size_t i = 0; i < c.size(); ++i) h(i) = c[i].get<int>();
    Kokkos::deep_copy(d, h);
    return d;
  };
  json out = json::array();
  for (auto& o : it["ops"]) {
    json              r  = nullptr;
    const std::string op = o["op"];
    if (op == "node" || op == "elem" || op == "ipt") {
      int b = op == "node" ? 0 : o["block"].get<int>();
      if (op == "node")
        r = w.m.AllocateNodeData(length(o["len"]), o["label"], o["n"]);
      else if (op == "elem")
        r = w.m.AllocateElementData(b, length(o["len"]), o["label"], o["n"]);
      else if (o["init"].empty())
        r = w.m.AllocateIntegrationPointData(b, length(o["len"]), o["label"], o["n"]);
      else
        r = w.m.AllocateIntegrationPointData(b, length(o["len"]), o["label"], o["n"], o["init"].get<std::vector<double>>());
      bool known = false;
      for (auto& k : w.keys) known = known || (k.rel == op && k.block == b && k.label == o["label"]);
      if (!known) w.keys.push_back({op, o["label"], o["len"], b, o["n"], 0});
    } else if (op == "look") {
      try {
        r = w.m.GetFieldId(o["label"]);
      } catch (const std::exception&) {
        r = -1;
      }
    } else if (op == "fill") {
      w.device(w.find(o), false, [&](int i, double& x) { x = o["v"].get<double>() + i; });
    } else if (op == "set") {
      w.device(w.find(o), o["old"].get<bool>(), [&](int i, double& x) {
        if (i == o["i"].get<int>()) x = o["v"];
      });
    } else if (op == "gather" || op == "scatter") {
      auto& k  = w.find(o);
      int   id = w.m.GetFieldId(k.label), ne = o["conn"].size() / 8;
      auto  c  = conn(o["conn"]);
      json v = json::array();
      if (k.len == "scalar") {
        DeviceScalarNodeGatheredView g("g", ne);
        auto                         h = Kokkos::create_mirror_view(g);
        if (op == "gather") {
          g = w.m.GatherScalarNodeData(id, ne, 8, c, g);
          Kokkos::deep_copy(h, g);
          for (int e = 0; e < ne; ++e)
            for (int n = 0; n < 8; ++n) v.push_back(h(e, n));
        } else {
          for (int e = 0; e < ne; ++e)
            for (int n = 0; n < 8; ++n) h(e, n) = o["v"].get<double>() + e * 8 + n;
          Kokkos::deep_copy(g, h);
          if (o["view"].get<bool>())
            w.m.ScatterScalarNodeDataUsingKokkosScatterView(id, ne, 8, c, g);
          else
            w.m.ScatterScalarNodeData(id, ne, 8, c, g);
        }
      } else {
        DeviceVectorNodeGatheredView g("g", ne);
        auto                         h = Kokkos::create_mirror_view(g);
        if (op == "gather") {
          g = w.m.GatherVectorNodeData(id, ne, 8, c, g);
          Kokkos::deep_copy(h, g);
          for (int e = 0; e < ne; ++e)
            for (int n = 0; n < 8; ++n)
              for (int q = 0; q < 3; ++q) v.push_back(h(e, n, q));
        } else {
          for (int e = 0; e < ne; ++e)
            for (int n = 0; n < 8; ++n)
              for (int q = 0; q < 3; ++q) h(e, n, q) = o["v"].get<double>() + (e * 8 + n) * 3 + q;
          Kokkos::deep_copy(g, h);
          w.m.ScatterVectorNodeData(id, ne, 8, c, g);
        }
      }
      r = v;
    } else if (op == "labels") {
      r["scalar"] = w.m.GetScalarNodeDataLabels();
      r["vector"] = w.m.GetVectorNodeDataLabels();
      r["blocks"] = w.m.GetBlockIds();
      r["sym"] = r["full"] = json::object();
      for (int b : w.m.GetBlockIds()) {
        r["sym"][std::to_string(b)]  = w.m.GetSymmetricTensorIntegrationPointDataLabels(b);
        r["full"][std::to_string(b)] = w.m.GetFullTensorIntegrationPointDataLabels(b);
      }
    } else if (op == "dump") {
      r["new"] = w.dump(false);
      r["old"] = w.dump(true);
    }
    out.push_back(r);
  }
  return {{"r", out}};
}

int
main(int argc, char** argv)
{
  auto items = probe::read_items();
  return probe::run_items(items, [&](const json& it) {
    static bool started = (MPI_Init(&argc, &argv), Kokkos::initialize(argc, argv), true);
    (void)started;
    static nimble::Parser                       parser;
    static nimble::GenesisMesh                  mesh;
    static std::unique_ptr<nimble::DataManager> dm;
    if (!dm) {
      mesh.Initialize("none", {0}, {0.0}, {0.0}, {0.0}, {}, {}, {}, {}, {}, {});
      dm.reset(new nimble::DataManager(parser, mesh));
    }
    return it["be"] == "host" ? host(it, *dm) : device(it);
  });
}
