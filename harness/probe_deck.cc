// Input decks, file names and material definitions as the program reads them.
#include <nimble_kokkos_material_factory.h>
#include <nimble_material.h>
#include <nimble_material_factory.h>
#include <nimble_parser.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

#include "probe_common.h"

static std::string
num(double v)
{
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}

static json
deck(const json& it)
{
  std::string path = it["path"];
  if (it.count("text")) {
    std::ofstream f(path, std::ios::binary);
    std::string   t = it["text"];
    f.write(t.data(), t.size());
  }
  json           r;
  nimble::Parser p;
  p.SetInputFilename(path);
  try {
    p.Initialize();
  } catch (const std::exception& e) {
    r["reject"] = std::string(e.what()).substr(0, 300);
    return r;
  }
  r["genesis input file"]                  = p.GenesisFileName();
  r["exodus output file"]                  = p.ExodusFileName();
  r["use two level mesh decomposition"]    = p.UseTwoLevelMeshDecomposition();
  r["write timing data file"]              = p.WriteTimingDataFile();
  r["nonlinear solver relative tolerance"] = num(p.NonlinearSolverRelativeTolerance());
  r["nonlinear solver maximum iterations"] = p.NonlinearSolverMaxIterations();
  r["initial time"]                        = num(p.InitialTime());
  r["final time"]                          = num(p.FinalTime());
  r["number of load steps"]                = p.NumLoadSteps();
  r["output frequency"]                    = p.OutputFrequency();
  r["has contact"]                         = p.HasContact();
  r["contact"]                             = p.ContactString();
  r["vis"]                                 = {p.ContactVisualization(), p.ContactVisualizationFileName()};
  try {
    r["time integration scheme"] = p.TimeIntegrationScheme();
  } catch (const std::exception&) {
    r["time integration scheme"] = nullptr;
  }
  try {
    r["output fields"] = p.GetOutputFieldString();
  } catch (const std::exception&) {
    r["output fields"] = nullptr;
  }
  r["bcs"]    = p.GetBoundaryConditionStrings();
  json blocks = json::object();
  for (int id : {1, 2, 3, 7, 10}) {
    try {
      blocks[std::to_string(id)] = p.GetModelMaterialParameters(id);
    } catch (const std::exception&) {
      blocks[std::to_string(id)] = nullptr;
    }
  }
  r["blocks"] = blocks;
  return r;
}

template <typename F>
static json
material(const std::string& text, int npts)
{
  json r;
  try {
    F f;
    if (npts)
      f.parse_and_create(text, npts);
    else
      f.parse_and_create(text);
    auto m = f.get_material();
    r["density"]       = num(m->GetDensity());
    r["bulk_modulus"]  = num(m->GetBulkModulus());
    r["shear_modulus"] = num(m->GetShearModulus());
    r["model"]         = dynamic_cast<nimble::NeohookeanMaterial*>(m.get()) ? "neohookean"
                         : dynamic_cast<nimble::ElasticMaterial*>(m.get())  ? "elastic"
                                                                            : "?";
    F    g;
    json map = json::object();
    for (auto& kv : g.parse_material_params_string(text)) map[kv.first] = num(kv.second);
    r["map"] = map;
  } catch (const std::exception& e) {
    r           = json::object();
    r["reject"] = std::string(e.what()).substr(0, 200);
  }
  return r;
}

int
main(int argc, char** argv)
{
  Kokkos::initialize(argc, argv);
  auto items = probe::read_items();
  int  rc    = probe::run_items(items, [](const json& it) {
    std::string kind = it["kind"];
    if (kind == "deck") return deck(it);
    if (kind == "name") {
      json r;
      r["name"] = nimble::IOFileName(it["base"], it["ext"], it["label"], it["r"], it["n"]);
      return r;
    }
    json r;
    r["host"]   = material<nimble::MaterialFactory>(it["text"], it["npts"]);
    r["kokkos"] = material<nimble_kokkos::MaterialFactory>(it["text"], it["npts"]);
    return r;
  });
  _exit(rc);
}
