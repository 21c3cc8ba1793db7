// The program with materials that remember (spec/History.tla): the new stress
// and the new state of a point are functions of its old stress, old
// deformation, old state and new deformation.  Every evaluation is written to
// a log, as the material saw it.
//
// NSM_BACKEND=host runs on nimble::ModelData, otherwise on
// nimble_kokkos::ModelData; NSM_LOG names the log.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

#include "host_data.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_material.h"

namespace {

FILE*
log_file()
{
  static FILE* f = [] {
    const char* n = std::getenv("NSM_LOG");
    std::string s = n ? n : "/dev/null";
    int         r = 0;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    if (n) s += "." + std::to_string(r);
    return std::fopen(s.c_str(), "w");
  }();
  return f;
}

void
put(const double* v, int n)
{
  for (int i = 0; i < n; ++i) std::fprintf(log_file(), " %.17g", v[i]);
}

class Recorder : public nimble::ElasticMaterial
{
 public:
  Recorder(const nimble::MaterialParameters& p, int states) : nimble::ElasticMaterial(p), states_(states) {}
  Recorder(const Recorder&) = default;

  int
  NumStateVariables() const override
  {
    return states_;
  }
  void
  GetStateVariableLabel(int i, char label[nimble::MaterialParameters::MAX_MAT_MODEL_STR_LEN]) const override
  {
    std::strcpy(label, i == 0 ? "hist_a" : i == 1 ? "hist_b" : "hist_c");
  }
  double
  GetStateVariableInitialValue(int i) const override
  {
    return (i + 1) * GetDensity();
  }

  void
  GetStress(
      int                  elem,
      int                  num_pts,
      double               tp,
      double               tc,
      const double*        Fn,
      const double*        Fnp1,
      const double*        Sn,
      double*              Snp1,
      const double*        hn,
      double*              hnp1,
      nimble::DataManager& dm,
      bool                 output) override
  {
    nimble::ElasticMaterial::GetStress(elem, num_pts, tp, tc, Fn, Fnp1, Sn, Snp1, hn, hnp1, dm, output);
    for (int q = 0; q < num_pts; ++q) {
      const double *F0 = Fn + 9 * q, *F1 = Fnp1 + 9 * q, *S0 = Sn + 6 * q, *h0 = hn + states_ * q;
      double *      S1 = Snp1 + 6 * q, *h1 = hnp1 + states_ * q;
      history(F0[0] - 1.0, F1[0] - 1.0, S0, S1);
      h1[0] = h0[0] + F1[0] - 1.0;
      if (states_ > 1) h1[1] = h0[1] + h0[0];
      if (states_ > 2) h1[2] = F0[0] - 1.0;
      std::fprintf(log_file(), "H %.17g %d %d %d %d", GetDensity(), states_, elem, q, output ? 1 : 0);
      put(&tp, 1);
      put(&tc, 1);
      put(F0, 9);
      put(F1, 9);
      put(S0, 6);
      put(S1, 6);
      put(h0, states_);
      put(h1, states_);
      std::fprintf(log_file(), "\n");
    }
  }

  void
  GetStress(
      double                                                     tp,
      double                                                     tc,
      const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& Fn,
      const nimble_kokkos::DeviceFullTensorIntPtSingleEntryView& Fnp1,
      const nimble_kokkos::DeviceSymTensorIntPtSingleEntryView&  Sn,
      nimble_kokkos::DeviceSymTensorIntPtSingleEntryView         Snp1,
      const nimble::Material::DeviceElemState&                   n,
      nimble::Material::DeviceElemState&                         np1) const override
  {
    nimble::Material::GetStress(tp, tc, Fn, Fnp1, Sn, Snp1, n, np1);
    double F0[9], F1[9], S0[6], S1[6], h0[19], h1[19];
    for (int i = 0; i < 9; ++i) { F0[i] = Fn(i); F1[i] = Fnp1(i); }
    for (int i = 0; i < 6; ++i) { S0[i] = Sn(i); S1[i] = Snp1(i); }
    history(F0[0] - 1.0, F1[0] - 1.0, S0, S1);
    for (int i = 0; i < 6; ++i) Snp1(i) = S1[i];
    h0[0] = n.scalar(0);
    for (int i = 0; i < 3; ++i) h0[1 + i] = n.vec3D(i);
    for (int i = 0; i < 6; ++i) h0[4 + i] = n.sym_tensor(i);
    for (int i = 0; i < 9; ++i) h0[10 + i] = n.full_tensor(i);
    h1[0] = h0[0] + F1[0] - 1.0;
    h1[1] = h0[3] + h0[0];
    h1[2] = h0[1] + F0[0] - 1.0;
    h1[3] = h0[2] + F1[0] - 1.0;
    for (int i = 0; i < 6; ++i) h1[4 + i] = h0[4 + (i + 5) % 6] + S0[i];
    for (int i = 0; i < 9; ++i) h1[10 + i] = h0[10 + (i + 8) % 9] + F0[i] - (i < 3 ? 1.0 : 0.0);
    np1.scalar(0) = h1[0];
    for (int i = 0; i < 3; ++i) np1.vec3D(i) = h1[1 + i];
    for (int i = 0; i < 6; ++i) np1.sym_tensor(i) = h1[4 + i];
    for (int i = 0; i < 9; ++i) np1.full_tensor(i) = h1[10 + i];
    std::fprintf(log_file(), "D %.17g %d -1 -1 0", GetDensity(), 19);
    put(&tp, 1);
    put(&tc, 1);
    put(F0, 9);
    put(F1, 9);
    put(S0, 6);
    put(S1, 6);
    put(h0, 19);
    put(h1, 19);
    std::fprintf(log_file(), "\n");
  }

 private:
  int states_;

  void
  history(double g0, double g1, const double* S0, double* S1) const
  {
    S1[0] += S0[0];
    S1[1] += S0[0];
    S1[2] += 3.0 * GetShearModulus() * g0;
    S1[3] += S0[3] + GetBulkModulus() * g1;
    S1[4] += S0[3] + S0[1];
    S1[5] += 2.0 * S0[5] + GetShearModulus() * g1;
  }
};

int
states_of(const std::string& name)
{
  return name.compare(0, 8, "recorder") == 0 && name.size() == 9 ? name[8] - '0' : 0;
}

class HostMaterials : public nimble::MaterialFactory
{
  void
  create() override
  {
    const int m = states_of(material_params->GetMaterialName(false));
    if (m == 0)
      nimble::MaterialFactory::create();
    else
      material = std::make_shared<Recorder>(*material_params, m);
  }
};

class DeviceMaterials : public nimble_kokkos::MaterialFactory
{
  void
  create() override
  {
    const int m = states_of(material_params->GetMaterialName(false));
    if (m == 0) {
      nimble_kokkos::MaterialFactory::create();
      return;
    }
    auto host       = std::make_shared<Recorder>(*material_params, m);
    material        = host;
    material_device = new (Kokkos::kokkos_malloc<>("Material", sizeof(Recorder))) Recorder(*host);
  }
};

class DeviceApp : public nimble::NimbleApplication
{
  std::unique_ptr<nimble::MaterialFactoryBase>
  CreateMaterialFactory() override
  {
    return std::make_unique<DeviceMaterials>();
  }
};

class HostApp : public DeviceApp
{
  std::unique_ptr<HostData>                    data_;
  std::shared_ptr<nimble::MaterialFactoryBase> materials_;

  std::unique_ptr<nimble::IntegratorBase>
  CreateIntegrator(nimble::DataManager& outer, nimble::GenesisMesh& mesh) override
  {
    auto& parser = GetParser();
    data_        = std::make_unique<HostData>(parser, mesh);
    data_->SetBlockMaterialInterfaceFactory(outer.GetBlockMaterialInterfaceFactory());
    materials_ = std::make_shared<HostMaterials>();
    data_->GetModelData()->InitializeBlocks(*data_, materials_);
    data_->InitializeOutput(nimble::IOFileName(parser.ExodusFileName(), "e", "out", Rank(), NumRanks()));
    if (parser.TimeIntegrationScheme() == "quasistatic")
      return std::make_unique<nimble::QuasistaticTimeIntegrator>(*this, mesh, *data_);
    return std::make_unique<nimble::ExplicitTimeIntegrator>(*this, mesh, *data_);
  }
};

}  // namespace

int
main(int argc, char** argv)
{
  std::cout << std::setprecision(12);
  const char* be = std::getenv("NSM_BACKEND");
  if (be && std::string(be) == "host") {
    HostApp app;
    return app.Run(argc, argv);
  }
  DeviceApp app;
  return app.Run(argc, argv);
}
