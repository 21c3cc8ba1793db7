// Performs the operations of spec/MeshFile.tla: meshes loaded from, put
// together and saved in files of both kinds, results appended, questions.
#include <nimble_exodus_output.h>
#include <nimble_genesis_mesh.h>
#include <nimble_mesh_utils.h>
#include <nimble_model_data.h>

#include <fstream>
#include <map>
#include <memory>

#include "probe_common.h"

using nimble::ExodusOutput;
using nimble::GenesisMesh;

static json
show(GenesisMesh& m)
{
  json r;
  int  n = (int)m.GetNumNodes();
  r["dim"]    = m.GetDim();
  r["nodes"]  = json::array();
  r["blocks"] = json::array();
  if ((int)m.GetNumNodeGlobalIds() != n) throw std::runtime_error("nodes and their numbers");
  int top = -1;
  for (int i = 0; i < n; ++i) {
    r["nodes"].push_back({{"id", m.GetNodeGlobalIds()[i] + 1}, {"x", {m.GetCoordinatesX()[i], m.GetCoordinatesY()[i], m.GetDim() == 3 ? m.GetCoordinatesZ()[i] : 0.0}}});
    top = std::max(top, m.GetNodeGlobalIds()[i]);
  }
  if (m.GetMaxNodeGlobalId() != top) throw std::runtime_error("the largest number of a node");
  auto ids = m.GetBlockIds(), all = m.GetAllBlockIds();
  if (ids.size() != m.GetNumBlocks() || all.size() != m.GetNumGlobalBlocks()) throw std::runtime_error("numbers of blocks");
  auto   ne = m.GetNumElementsInBlock();
  auto   npe = m.GetNumNodesPerElement();
  auto&  conn = m.GetConnectivity();
  size_t k = 0, elem = 0;
  if (ne.size() != ids.size() || npe.size() != ids.size() || conn.size() != ids.size()) throw std::runtime_error("blocks in the tables of the mesh");
  for (int b : all) {
    json x = {{"id", b}, {"name", m.GetBlockName(b)}, {"elems", json::array()}};
    if (k < ids.size() && ids[k] == b) {
      ++k;
      x["npe"]  = npe.at(b);
      x["type"] = m.GetElementType(b);
      if (npe.at(b) != m.GetNumNodesPerElement(b) || ne.at(b) != m.GetNumElementsInBlock(b) || (int)conn.at(b).size() != ne.at(b) * npe.at(b))
        throw std::runtime_error("sizes of a block");
      auto& gids = m.GetElementGlobalIdsInBlock(b);
      if ((int)gids.size() != ne.at(b)) throw std::runtime_error("numbers of the elements of a block");
      for (int e = 0; e < ne.at(b); ++e) {
        json c = json::array();
        for (int j = 0; j < npe.at(b); ++j) c.push_back(m.GetConnectivity(b)[e * npe.at(b) + j] + 1);
        if (elem >= m.GetNumElements() || m.GetElementGlobalIds()[elem++] != gids[e]) throw std::runtime_error("order of the elements");
        x["elems"].push_back({{"id", gids[e] + 1}, {"conn", c}});
      }
    }
    r["blocks"].push_back(x);
  }
  if (k != ids.size() || elem != m.GetNumElements()) throw std::runtime_error("blocks or elements left over");
  auto put = [&](const char* key, const char* list, const std::vector<int>& sids, const std::map<int, std::string>& names, const std::map<int, std::vector<int>>& sets,
                 const std::map<int, std::vector<double>>& df, int count) {
    r[key] = json::array();
    if (count != (int)sids.size() || names.size() != sids.size() || sets.size() != sids.size()) throw std::runtime_error("sets in the tables of the mesh");
    for (int s : sids) {
      json x = {{"id", s}, {"name", names.at(s)}, {list, json::array()}, {"df", df.count(s) ? json(df.at(s)) : json::array()}};
      for (int q : sets.at(s)) x[list].push_back(q + 1);
      r[key].push_back(x);
    }
  };
  put("nsets", "nodes", m.GetNodeSetIds(), m.GetNodeSetNames(), m.GetNodeSets(), m.GetNodeSetDistributionFactors(), m.GetNumNodeSets());
  put("ssets", "nodes", m.GetSideSetIds(), m.GetSideSetNames(), m.GetSideSets(), m.GetSideSetDistributionFactors(), m.GetNumSideSets());
  return r;
}

static json
run(const json& item)
{
  const std::string                  dir = item["dir"];
  std::unique_ptr<GenesisMesh>       mem;
  std::map<int, int>                 pairs;
  std::map<int, std::unique_ptr<ExodusOutput>> open;
  json                               all = json::array();
  std::map<int, json>                what;
  using Names  = std::map<int, std::vector<std::string>>;
  using Values = std::map<int, std::vector<std::vector<double>>>;
  for (auto& o : item["ops"]) {
    json        r = json::object();
    std::string op   = o["op"];
    std::string path = o.contains("f") ? dir + "/slot" + std::to_string(o["f"].get<int>()) + ".e" : "";
    bool        text = o.contains("kind") && o["kind"] == "text";
    auto names = [&](const json& w, const json& bids) {
      Names n;
      for (size_t b = 0; b < bids.size(); ++b) n[bids[b]] = w[b].get<std::vector<std::string>>();
      return n;
    };
    try {
      if (op == "outside") {
        open.erase(o["f"].get<int>());
        std::ofstream(path + (text ? ".txt" : ""), std::ios::binary | std::ios::trunc) << std::ifstream(o["src"].get<std::string>(), std::ios::binary).rdbuf();
      } else if (op == "load") {
        mem.reset(new GenesisMesh);
        pairs.clear();
        if (text)
          mem->ReadTextFile(path);
        else
          mem->ReadFile(path);
        r["mesh"] = show(*mem);
      } else if (op == "make") {
        mem.reset(new GenesisMesh);
        pairs.clear();
        auto&                           m = o["mesh"];
        std::vector<int>                gid, eid, bid;
        std::vector<double>             x[3];
        std::map<int, std::string>      bname;
        std::map<int, std::vector<int>> beid, conn;
        std::map<int, int>              npe;
        for (auto& n : m["nodes"]) {
          gid.push_back(n["id"].get<int>() - 1);
          for (int c = 0; c < 3; ++c) x[c].push_back(n["x"][c]);
        }
        for (auto& b : m["blocks"]) {
          int id = b["id"];
          bid.push_back(id);
          bname[id] = b["name"];
          npe[id]   = b["npe"];
          for (auto& e : b["elems"]) {
            eid.push_back(e["id"].get<int>() - 1);
            beid[id].push_back(eid.back());
            for (int q : e["conn"]) conn[id].push_back(q - 1);
          }
        }
        mem->Initialize(path, gid, x[0], x[1], x[2], eid, bid, bname, beid, npe, conn);
        r["mesh"] = show(*mem);
      } else if (op == "save") {
        int f = o["f"];
        open[f].reset(new ExodusOutput);
        open[f]->Initialize(path, *mem);
        if (open[f]->GetFileName() != path) throw std::runtime_error("name of the output");
        auto& w = what[f] = o["what"];
        auto  g = w["g"].get<std::vector<std::string>>(), n = w["n"].get<std::vector<std::string>>();
        auto  e = names(w["e"], o["bids"]), d = names(w["d"], o["bids"]);
        if (text)
          open[f]->InitializeDatabaseTextFile(*mem, g, n, e, d);
        else
          open[f]->InitializeDatabase(*mem, g, n, e, d);
        r["mesh"] = show(*mem);
      } else if (op == "step") {
        int   f = o["f"];
        auto& w = what[f];
        auto& s = o["s"];
        auto  e = names(w["e"], o["bids"]), d = names(w["d"], o["bids"]);
        Values ve, vd;
        for (size_t b = 0; b < o["bids"].size(); ++b) {
          ve[o["bids"][b]] = s["e"][b].get<std::vector<std::vector<double>>>();
          vd[o["bids"][b]] = s["d"][b].get<std::vector<std::vector<double>>>();
        }
        auto g = s["g"].get<std::vector<double>>();
        auto n = s["n"].get<std::vector<std::vector<double>>>();
        if (text)
          open.at(f)->WriteStepTextFile(s["time"], g, n, e, ve, d, vd);
        else
          open.at(f)->WriteStep(s["time"], g, n, e, ve, d, vd);
      } else if (op == "blocks") {
        r["ids"] = json::array();
        std::vector<std::string> want;
        std::vector<int>         got{5, 5};
        for (std::string s : o["names"]) {
          int id = -1;
          try {
            id = mem->GetBlockId(s);
          } catch (const std::invalid_argument&) {
          }
          if (mem->HasBlock(s) != (id != -1)) throw std::runtime_error("a block that is there and is not");
          r["ids"].push_back(id);
          want.push_back(s);
        }
        mem->BlockNamesToOnProcessorBlockIds(want, got);
        r["here"] = got;
      } else if (op == "box") {
        double b[6];
        mem->BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]);
        r["box"]    = std::vector<double>(b, b + 6);
        r["center"] = mem->BoundingBoxCenter();
      } else if (op == "pair") {
        mem->AppendPeriodicPair(o["q"][0].get<int>() - 1, o["q"][1].get<int>() - 1, mem->GetNodeGlobalIds(), pairs);
        r["pairs"] = json::array();
        for (auto& p : pairs) r["pairs"].push_back({p.first + 1, p.second + 1});
      } else if (op == "place") {
        // with a field before and one after it, neither of them touched
        nimble::ModelData md;
        const int         n = (int)mem->GetNumNodes(), d = mem->GetDim();
        md.SetDimension(d);
        md.AllocateNodeData(nimble::VECTOR, "velocity", n);
        md.AllocateNodeData(nimble::VECTOR, "reference_coordinate", n);
        md.AllocateNodeData(nimble::SCALAR, "lumped_mass", n);
        md.SetReferenceCoordinates(*mem);
        auto x = md.GetVectorNodeData("reference_coordinate"), v = md.GetVectorNodeData("velocity");
        auto s = md.GetScalarNodeData("lumped_mass");
        r["x"] = json::array();
        for (int i = 0; i < n; ++i) {
          r["x"].push_back(json::array());
          for (int c = 0; c < d; ++c) {
            r["x"].back().push_back((double)x(i, c));
            if (v(i, c) != 0.0) throw std::runtime_error("another field");
          }
          if (s(i) != 0.0) throw std::runtime_error("another field");
        }
      } else if (op == "matrix") {
        std::vector<int> i{7}, j;
        nimble::DetermineTangentMatrixNonzeroStructure(*mem, o["num"].get<std::vector<int>>(), i, j);
        r["i"] = i;
        r["j"] = j;
      } else
        throw std::runtime_error("unknown operation " + op);
    } catch (const std::exception& x) {
      r["exception"] = x.what();
      all.push_back(r);
      break;
    }
    all.push_back(r);
  }
  return {{"ops", all}};
}

int
main(int argc, char** argv)
{
  probe::run_items(probe::read_items(), run, 60);
}
