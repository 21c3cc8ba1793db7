// The program with nimble::ModelData in place of nimble_kokkos::ModelData:
// the same command line, deck, mesh, integrators and output, on the host-side
// blocks, materials and fields.  Used by P22 (the quasistatic integrator works
// on this model data only) and as a second back end for the explicit runs.
#include "host_data.h"

namespace {

class HostApp : public nimble::NimbleApplication
{
  std::unique_ptr<HostData>                    data_;
  std::shared_ptr<nimble::MaterialFactoryBase> materials_;

  std::unique_ptr<nimble::IntegratorBase>
  CreateIntegrator(nimble::DataManager& outer, nimble::GenesisMesh& mesh) override
  {
    auto& parser = GetParser();
    data_        = std::make_unique<HostData>(parser, mesh);
    data_->SetBlockMaterialInterfaceFactory(outer.GetBlockMaterialInterfaceFactory());
    materials_ = std::make_shared<nimble::MaterialFactory>();
    data_->GetModelData()->InitializeBlocks(*data_, materials_);
    data_->InitializeOutput(nimble::IOFileName(parser.ExodusFileName(), "e", "out", Rank(), NumRanks()));
    if (parser.TimeIntegrationScheme() == "quasistatic")
      return std::make_unique<nimble::QuasistaticTimeIntegrator>(*this, mesh, *data_);
    return std::make_unique<nimble::ExplicitTimeIntegrator>(*this, mesh, *data_);
  }
};

}  // namespace

int
main(int argc, char** argv)
{
  std::cout << std::setprecision(12);
  HostApp app;
  return app.Run(argc, argv);
}
