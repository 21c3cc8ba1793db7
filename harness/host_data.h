// nimble::ModelData with the fields the integrators expect
#pragma once
#include <iomanip>
#include <iostream>
#include <memory>

#include "integrators/explicit_time_integrator.h"
#include "integrators/quasistatic_time_integrator.h"
#include "nimble.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_data_manager.h"
#include "nimble_genesis_mesh.h"
#include "nimble_material_factory.h"
#include "nimble_model_data.h"
#include "nimble_parser.h"
#include "nimble_block_material_interface_factory_base.h"
#include "nimble_vector_communicator.h"

struct HostData : nimble::DataManager
{
  HostData(const nimble::Parser& parser, const nimble::GenesisMesh& mesh) : nimble::DataManager(parser, mesh)
  {
    using namespace nimble;
    const int n = static_cast<int>(mesh.GetNumNodes());
    model_data_ = std::make_shared<nimble::ModelData>();
    auto& md    = *model_data_;
    md.SetDimension(mesh.GetDim());
    const std::string scheme = parser.TimeIntegrationScheme();
    if (scheme == "explicit") field_ids_.lumped_mass = md.AllocateNodeData(SCALAR, "lumped_mass", n);
    field_ids_.reference_coordinates = md.AllocateNodeData(VECTOR, "reference_coordinate", n);
    field_ids_.displacement          = md.AllocateNodeData(VECTOR, "displacement", n);
    field_ids_.velocity              = md.AllocateNodeData(VECTOR, "velocity", n);
    field_ids_.acceleration          = md.AllocateNodeData(VECTOR, "acceleration", n);
    field_ids_.internal_force        = md.AllocateNodeData(VECTOR, "internal_force", n);
    field_ids_.external_force        = md.AllocateNodeData(VECTOR, "external_force", n);
    field_ids_.contact_force         = md.AllocateNodeData(VECTOR, "contact_force", n);
    if (scheme == "quasistatic") {
      md.AllocateNodeData(VECTOR, "trial_displacement", n);
      md.AllocateNodeData(VECTOR, "displacement_fluctuation", n);
      md.AllocateNodeData(VECTOR, "trial_internal_force", n);
      md.AllocateNodeData(SCALAR, "skin_node", n);
    }
    md.SetReferenceCoordinates(mesh);
  }
};
