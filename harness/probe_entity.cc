// Contact entities (spec/Entity.tla, P35): executes the operations of a
// behaviour and reports the entity each of them acted on.
#include <nimble_contact_entity.h>

#include <Kokkos_Core.hpp>

#include "probe_common.h"

using nimble::ContactEntity;

static json
show(const ContactEntity& e)
{
  json j;
  bool tri = e.entity_type_ == ContactEntity::TRIANGLE;
  j["kind"] = tri && e.num_nodes_ == 3 ? 3 : (e.entity_type_ == ContactEntity::NODE && e.num_nodes_ == 1 ? 1 : -1);
  j["id"]   = e.contact_entity_global_id();
  j["loc"]  = e.local_id();
  j["n"]    = {e.node_id_for_node_1_, e.node_id_for_node_2_};
  j["q"]    = {e.node_id_1_for_fictitious_node_, e.node_id_2_for_fictitious_node_, e.node_id_3_for_fictitious_node_, e.node_id_4_for_fictitious_node_};
  j["len"]  = e.char_len_;
  j["x"].push_back({e.coord_1_x_, e.coord_1_y_, e.coord_1_z_});
  j["f"].push_back({e.force_1_x_, e.force_1_y_, e.force_1_z_});
  if (tri) {
    j["x"].push_back({e.coord_2_x_, e.coord_2_y_, e.coord_2_z_});
    j["x"].push_back({e.coord_3_x_, e.coord_3_y_, e.coord_3_z_});
    j["f"].push_back({e.force_2_x_, e.force_2_y_, e.force_2_z_});
    j["f"].push_back({e.force_3_x_, e.force_3_y_, e.force_3_z_});
  }
  j["st"]  = e.contact_status();
  j["box"] = {{e.get_x_min(), e.get_x_max()}, {e.get_y_min(), e.get_y_max()}, {e.get_z_min(), e.get_z_max()}};
  auto c   = e.centroid();
  j["cen"] = {c[0], c[1], c[2]};
  return j;
}

static void
triple(const json& j, double* x)
{
  for (int i = 0; i < 3; ++i) x[i] = j[i];
}

static json
run(const json& item)
{
  const int                  nn = item["nn"];
  std::vector<double>        coord(3 * nn), force(3 * nn);
  std::vector<ContactEntity> es;
  json                       all = json::array();
  for (auto& step : item["ops"]) {
    auto&       o  = step["e"];
    std::string op = o["op"];
    json        r;
    auto        ent = [&](const char* k) -> ContactEntity& { return es.at(o[k].get<int>() - 1); };
    if (op == "make") {
      double x[9];
      int    a[6];
      for (int c = 0; c < 3; ++c) triple(o["x"][c], x + 3 * c);
      for (int k = 0; k < 6; ++k) a[k] = o["a"][k];
      int    loc = o["loc"], id = o["id"];
      double len = o["len"];
      if (o["kind"] == 1)
        es.push_back(loc < 0 ? ContactEntity(ContactEntity::NODE, id, x, len, a[0]) : ContactEntity(ContactEntity::NODE, id, loc, x, len, a[0]));
      else
        es.push_back(
            loc < 0 ? ContactEntity(ContactEntity::TRIANGLE, id, x, len, a[0], a[1], a + 2) :
                      ContactEntity(ContactEntity::TRIANGLE, id, loc, x, len, a[0], a[1], a + 2));
    } else if (op == "move") {
      for (int n = 0; n < nn; ++n) triple(o["coord"][n], &coord[3 * n]);
    } else if (op == "place") {
      if (o["k"].get<int>() % 2) {
        Kokkos::View<const double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(coord.data(), coord.size());
        ent("k").SetCoordinates(v);
      } else
        ent("k").SetCoordinates(coord.data());
    } else if (op == "push") {
      double F[3], N[3];
      triple(o["F"], F);
      triple(o["N"], N);
      if (ent("k").entity_type_ == ContactEntity::NODE)
        ent("k").SetNodalContactForces(F);
      else
        ent("k").SetNodalContactForces(F, N);
    } else if (op == "press") {
      double F[3], at[3];
      triple(o["F"], F);
      triple(o["at"], at);
      ent("k").ComputeNodalContactForces(F, at);
    } else if (op == "scatter") {
      if (o["k"].get<int>() % 2) {
        Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged>> v(force.data(), force.size());
        ent("k").ScatterForceToContactManagerForceVector(v);
      } else
        ent("k").ScatterForceToContactManagerForceVector(force);
      r["force"] = force;
    } else if (op == "touch") {
      ent("k").set_contact_status(o["st"]);
    } else if (op == "reset") {
      ent("k").ResetContactData();
    } else if (op == "export") {
      ent("k").ExportGeometryInto(ent("l"));
    } else if (op == "copy") {
      ent("l") = ent("k");
    } else if (op == "send") {
      std::vector<ContactEntity> out, in(o["s"].size() + 1);
      for (int k : o["s"]) out.push_back(es.at(k - 1));
      std::vector<char> buffer{'x', 'y'};
      nimble::SerializeContactFaces((int)out.size(), out.data(), buffer);
      std::vector<char> arrived(buffer);
      nimble::UnserializeContactFaces((int)out.size(), in.data(), arrived);
      r["got"] = json::array();
      for (size_t i = 0; i < out.size(); ++i) {
        r["got"].push_back(show(in[i]));
        if (show(out[i]) != show(es.at(o["s"][i].get<int>() - 1))) throw std::runtime_error("sending changes the facet sent");
      }
      if (in.back().entity_type_ != ContactEntity::NONE) throw std::runtime_error("more facets arrive than were sent");
    } else if (op == "area") {
      double p[9];
      for (int c = 0; c < 3; ++c) triple(o["p"][c], p + 3 * c);
      r["area"] = nimble::TriangleArea(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8]);
    } else if (op == "edge") {
      double p[9];
      for (int c = 0; c < 3; ++c) triple(o["p"][c], p + 3 * c);
      r["t"]    = nimble::PointEdgeClosestPointFindT(p, p + 3, p + 6);
      r["dist"] = nimble::PointEdgeClosestPointFindDistanceSquared(p, p + 3, p + 6, o["w"].get<double>() / 4.0);
    } else
      throw std::runtime_error("unknown operation " + op);
    int k = step["k"];
    if (k) r["shown"] = show(es.at(k - 1));
    all.push_back(r);
  }
  json out;
  out["ops"] = all;
  out["end"] = json::array();
  for (auto& e : es) out["end"].push_back(show(e));
  return out;
}

int
main(int argc, char** argv)
{
  Kokkos::ScopeGuard guard(argc, argv);
  probe::run_items(probe::read_items(), run, 60);
}
