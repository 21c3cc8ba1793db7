// The search back ends (ArborX, BVH) are not built here; this one tries every
// contact node against every facet, with the code's own projection, and leaves
// the enforcement to the interface.
#pragma once
#include <nimble_contact_interface.h>
#include <nimble_contact_manager.h>

#include <vector>

struct Brute : nimble::ContactInterface
{
  bool share  = false;  // divide the penalty among the facets touched
  bool status = false;  // flag what touches
  void
  DoSearchAndEnforcement(
      nimble_kokkos::DeviceContactEntityArrayView nodes,
      nimble_kokkos::DeviceContactEntityArrayView faces,
      nimble::KokkosPenaltyContactEnforcement) override
  {
    for (size_t i = 0; status && i < nodes.extent(0); ++i) nodes(i).set_contact_status(false);
    for (size_t j = 0; status && j < faces.extent(0); ++j) faces(j).set_contact_status(false);
    for (size_t i = 0; i < nodes.extent(0); ++i) {
      struct Hit
      {
        size_t j;
        double gap, n[3], c[3];
      };
      std::vector<Hit> hits;
      for (size_t j = 0; j < faces.extent(0); ++j) {
        nimble::ContactManager::PROJECTION_TYPE type;
        nimble::ContactEntity::vertex           c;
        Hit                                     h;
        h.j   = j;
        h.gap = 1.;
        nimble::ContactManager::SimpleClosestPointProjectionSingle(nodes(i), faces(j), &type, &c, h.gap, h.n);
        for (int k = 0; k < 3; ++k) h.c[k] = c[k];
        if (type == nimble::ContactManager::FACE && h.gap > -faces(j).char_len_) hits.push_back(h);
      }
      int in = 0;
      for (auto& h : hits) in += h.gap < -1e-9 * faces(h.j).char_len_;
      for (auto& h : hits)
        if (status && h.gap < -1e-9 * faces(h.j).char_len_) {
          nodes(i).set_contact_status(true);
          faces(h.j).set_contact_status(true);
        }
      for (auto& h : hits) EnforceNodeFaceInteraction(nodes(i), faces(h.j), share ? in : 1, h.gap, h.n, h.c);
    }
  }
};
