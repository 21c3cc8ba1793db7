// Contact surfaces, projections and forces (spec/Skin.tla, Contact.tla,
// Proj.tla), replayed on the contact manager and interface.
//   probe_contact ITEMS OUT   every rank reads ITEMS and writes OUT.<rank>
#include <mpi.h>
#include <nimble_contact_interface.h>
#include <nimble_contact_manager.h>
#include <nimble_data_manager.h>
#include <nimble_genesis_mesh.h>
#include <nimble_kokkos_model_data.h>
#include <nimble_parser.h>
#include <nimble_vector_communicator.h>

#include <Kokkos_Core.hpp>
#include <Tpetra_Core.hpp>
#include <cmath>
#include <fstream>

#include "brute.h"
#include "probe_common.h"

using nimble::ContactEntity;
using nimble::ContactManager;

namespace {

json
num(double x)
{
  return std::isfinite(x) ? json(x) : json("nan");
}

json
nums(const double* x, int n)
{
  json r = json::array();
  for (int i = 0; i < n; ++i) r.push_back(num(x[i]));
  return r;
}

ContactEntity
point(const json& p)
{
  double c[3] = {p[0], p[1], p[2]};
  return ContactEntity(ContactEntity::NODE, 1, c, 1.0, 0);
}

ContactEntity
triangle(const json& t, double len)
{
  double c[9];
  for (int k = 0; k < 9; ++k) c[k] = t[k / 3][k % 3];
  int f[4] = {0, 1, 2, 3};
  return ContactEntity(ContactEntity::TRIANGLE, 2, c, len, 0, 1, f);
}

struct Manager : ContactManager
{
  using ContactManager::ContactManager;
  using ContactManager::ComputeContactForce;

  json
  facet(const ContactEntity& f, const nimble::GenesisMesh& mesh) const
  {
    const int* g = mesh.GetNodeGlobalIds();
    json       j;
    j["id"]  = f.contact_entity_global_id_;
    j["loc"] = f.local_id_;
    j["x"]   = {num(f.coord_1_x_), num(f.coord_1_y_), num(f.coord_1_z_), num(f.coord_2_x_), num(f.coord_2_y_), num(f.coord_2_z_),
              num(f.coord_3_x_), num(f.coord_3_y_), num(f.coord_3_z_)};
    j["n"]   = {g[node_ids_.at(f.node_id_for_node_1_)], g[node_ids_.at(f.node_id_for_node_2_)]};
    j["q"]   = {g[node_ids_.at(f.node_id_1_for_fictitious_node_)], g[node_ids_.at(f.node_id_2_for_fictitious_node_)],
              g[node_ids_.at(f.node_id_3_for_fictitious_node_)], g[node_ids_.at(f.node_id_4_for_fictitious_node_)]};
    j["l"]   = num(f.char_len_);
    j["box"] = {num(f.get_x_min()), num(f.get_x_max()), num(f.get_y_min()), num(f.get_y_max()), num(f.get_z_min()), num(f.get_z_max())};
    j["tri"] = f.entity_type_ == ContactEntity::TRIANGLE && f.num_nodes_ == 3;
    j["st"]  = f.contact_status();
    return j;
  }
  json
  node(const ContactEntity& f, const nimble::GenesisMesh& mesh) const
  {
    json j;
    j["id"]  = f.contact_entity_global_id_;
    j["n"]   = mesh.GetNodeGlobalIds()[node_ids_.at(f.node_id_for_node_1_)];
    j["x"]   = {num(f.coord_1_x_), num(f.coord_1_y_), num(f.coord_1_z_)};
    j["l"]   = num(f.char_len_);
    j["box"] = {num(f.get_x_min()), num(f.get_x_max()), num(f.get_y_min()), num(f.get_y_max()), num(f.get_z_min()), num(f.get_z_max())};
    j["nod"] = f.entity_type_ == ContactEntity::NODE && f.num_nodes_ == 1;
    j["st"]  = f.contact_status();
    return j;
  }
  // entities on the host (as created) or on the device (as moved)
  json
  entities(const nimble::GenesisMesh& mesh, bool device) const
  {
    json r;
    r["faces"] = json::array();
    r["nodes"] = json::array();
    for (size_t i = 0; i < numContactFaces(); ++i) r["faces"].push_back(facet(device ? contact_faces_d_(i) : getContactFace(i), mesh));
    for (size_t i = 0; i < numContactNodes(); ++i) r["nodes"].push_back(node(device ? contact_nodes_d_(i) : getContactNode(i), mesh));
    r["dev"] = {contact_faces_d_.extent(0), contact_nodes_d_.extent(0)};
    r["on"]  = ContactEnabled();
    double b[6];
    BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]);
    r["bb"]  = nums(b, 6);
    r["avg"] = num(BoundingBoxAverageCharacteristicLengthOverAllRanks());
    return r;
  }
  void
  manager_way(nimble_kokkos::DeviceVectorNodeView disp, nimble_kokkos::DeviceVectorNodeView force)
  {
    Kokkos::deep_copy(force, 0.0);
    ApplyDisplacements(disp);
    ZeroContactForce();
    ResetContactStatus();
    for (size_t i = 0; i < contact_nodes_d_.extent(0); ++i)
      for (size_t j = 0; j < contact_faces_d_.extent(0); ++j) {
        bool   in  = false;
        double gap = 0., n[3], b[3];
        Projection(contact_nodes_d_(i), contact_faces_d_(j), in, gap, n, b);
        if (in) {
          contact_nodes_d_(i).set_contact_status(true);
          contact_faces_d_(j).set_contact_status(true);
          EnforceNodeFaceInteraction(contact_nodes_d_(i), contact_faces_d_(j), gap, n, b, force_d_);
        }
      }
    GetForces(force);
  }
  json
  closest(const ContactEntity& p, const ContactEntity& t)
  {
    ContactEntity::vertex c;
    PROJECTION_TYPE       type = UNKNOWN;
    ClosestPointProjection(&p, &t, &c, &type, 1);
    json o;
    o["type"] = (int)type;
    o["c"]    = nums(c.coords_, 3);
    return o;
  }
};

json
projection(Manager& m, const json& it)
{
  json r = json::array();
  auto t = triangle(it["tri"], it["len"].get<double>());
  for (auto& q : it["pts"]) {
    auto   p = point(q);
    json   o;
    bool   in = true;
    double gap = 7., n[3] = {7., 7., 7.}, b[3] = {7., 7., 7.};
    ContactManager::Projection(p, t, in, gap, n, b);
    o["in"]  = in;
    o["gap"] = num(gap);
    o["n"]   = nums(n, 3);
    o["b"]   = nums(b, 3);
    ContactManager::PROJECTION_TYPE type = ContactManager::NODE_OR_EDGE;
    ContactEntity::vertex           c;
    double                          g2 = 7., n2[3] = {7., 7., 7.};
    ContactManager::SimpleClosestPointProjectionSingle(p, t, &type, &c, g2, n2);
    o["s"] = {{"type", (int)type}, {"c", nums(c.coords_, 3)}, {"gap", num(g2)}, {"n", nums(n2, 3)}};
    o["c"] = m.closest(p, t);
    r.push_back(o);
  }
  return r;
}

struct World
{
  nimble::Parser                       parser;
  nimble::GenesisMesh                  mesh;
  std::unique_ptr<nimble::DataManager> data;
  std::shared_ptr<Brute>               brute = std::make_shared<Brute>();
  std::unique_ptr<Manager>             man;

  explicit World(const json& d)
  {
    auto                            gid = d["gid"].get<std::vector<int>>();
    std::vector<double>             x, y, z;
    std::vector<int>                elems, ids;
    std::map<int, std::string>      names;
    std::map<int, std::vector<int>> beids, conn;
    std::map<int, int>              nper;
    for (auto& p : d["xyz"]) {
      x.push_back(p[0]);
      y.push_back(p[1]);
      z.push_back(p[2]);
    }
    for (auto& b : d["blocks"]) {
      int id = b["id"];
      ids.push_back(id);
      names[id] = b["name"].get<std::string>();
      beids[id] = b["eid"].get<std::vector<int>>();
      conn[id]  = b["conn"].get<std::vector<int>>();
      nper[id]  = 8;
      elems.insert(elems.end(), beids[id].begin(), beids[id].end());
    }
    mesh.Initialize("none", gid, x, y, z, elems, ids, names, beids, nper, conn);
    data.reset(new nimble::DataManager(parser, mesh));
    man.reset(new Manager(brute, *data));
  }
  void
  create(const json& it)
  {
    std::vector<int> p, s;
    mesh.BlockNamesToOnProcessorBlockIds(it["prim"].get<std::vector<std::string>>(), p);
    mesh.BlockNamesToOnProcessorBlockIds(it["sec"].get<std::vector<std::string>>(), s);
    man->CreateContactEntities(mesh, *data->GetVectorCommunicator(), p, s);
  }
};

json
force_of(const nimble::Viewify<2>& v, int n)
{
  json r = json::array();
  for (int i = 0; i < n; ++i) r.push_back({num(v(i, 0)), num(v(i, 1)), num(v(i, 2))});
  return r;
}

json
surface(const json& it, int rank)
{
  World w(it["ranks"][rank]);
  if (it.count("penalty")) w.man->SetPenaltyParameter(it["penalty"].get<double>());
  w.create(it);
  json r = w.man->entities(w.mesh, false);
  if (it.count("vis")) {
    w.man->InitializeContactVisualization(it["vis"][rank].get<std::string>());
    w.man->ContactVisualizationWriteStep(0.0);
  }
  if (!it.count("moves")) return r;
  r["moves"]  = json::array();
  auto  ids   = w.data->GetFieldIDs();
  auto  md    = std::dynamic_pointer_cast<nimble_kokkos::ModelData>(w.data->GetModelData());
  auto  disp  = md->GetVectorNodeData(ids.displacement);
  auto  force = md->GetVectorNodeData("contact_force");
  int   n     = w.mesh.GetNumNodes(), step = 0;
  auto& gids  = it["ranks"][rank]["gid"];
  for (auto& mv : it["moves"]) {
    json o;
    auto dh = md->GetHostVectorNodeData(ids.displacement);
    for (int i = 0; i < n; ++i) {
      auto& u = mv["u"][gids[i].dump()];
      for (int k = 0; k < 3; ++k) dh(i, k) = u[k];
    }
    auto dd = md->GetDeviceVectorNodeData(ids.displacement);
    Kokkos::deep_copy(dd, dh);
    auto fh = md->GetHostVectorNodeData(ids.contact_force);
    auto fd = md->GetDeviceVectorNodeData(ids.contact_force);
    // what is there already must not matter
    for (int i = 0; i < n; ++i)
      for (int k = 0; k < 3; ++k) fh(i, k) = fd(i, k) = 99.;
    if (mv["way"] == 0) {
      w.man->manager_way(dd, fd);
      Kokkos::deep_copy(fh, fd);
    } else {
      w.brute->share = mv["way"] == 2;
      w.man->ComputeContactForce(++step, false, force);
    }
    o["f"] = json::array();
    for (int i = 0; i < n; ++i) o["f"].push_back({num(fh(i, 0)), num(fh(i, 1)), num(fh(i, 2))});
    o["g"] = force_of(force, n);
    o["e"] = w.man->entities(w.mesh, true);
    if (it.count("vis")) {
      w.man->ContactVisualizationWriteStep(1.0 + r["moves"].size());
      o["act"] = {w.man->numActiveContactFaces(), w.man->numActiveContactNodes()};
    }
    r["moves"].push_back(o);
  }
  return r;
}
}  // namespace

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  {
    Tpetra::ScopeGuard guard(&argc, &argv);
    if (!Kokkos::is_initialized()) Kokkos::initialize(argc, argv);
    std::ifstream          in(argv[1]);
    auto                   items = probe::read_items(in);
    std::ofstream          out(std::string(argv[2]) + "." + std::to_string(rank));
    std::unique_ptr<World> w0;
    for (size_t i = 0; i < items.size(); ++i) {
      out << "{\"start\":" << i << "}" << std::endl;
      alarm(20);
      json j;
      try {
        if (items[i].count("tri")) {
          if (!w0)
            w0.reset(new World(json::parse(R"({"gid":[0],"xyz":[[0,0,0]],"blocks":[]})")));
          j["r"] = projection(*w0->man, items[i]);
        } else
          j["r"] = surface(items[i], rank);
      } catch (const std::exception& e) {
        j["exception"] = std::string(e.what());
      }
      j["i"] = i;
      out << j.dump() << std::endl;
      alarm(0);
    }
    alarm(20);
  }
  MPI_Finalize();
  return 0;
}
