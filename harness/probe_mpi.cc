// Reductions over shared nodes (spec/Reduction.tla) and the communication
// helpers (spec/Comm.tla), replayed on several ranks.
//   probe_mpi ITEMS OUT   every rank reads ITEMS and writes OUT.<rank>
// MPI_Iallreduce/MPI_Test are intercepted: the result of a non-blocking sum
// becomes visible only when the behaviour says so, and until then the receive
// buffer holds garbage.
#include <mpi.h>
#include <nimble.mpi.mpicontext.h>
#include <nimble.mpi.reduction_utils.h>
#include <nimble_genesis_mesh.h>
#include <nimble_model_data.h>
#include <nimble_tpetra_utils.h>
#include <nimble_vector_communicator.h>
#include <nimble_view.h>

#include <Kokkos_Core.hpp>
#include <Tpetra_Core.hpp>
#include <cmath>
#include <cstring>
#include <fstream>
#include <limits>
#include <list>
#include <sstream>

#include "probe_common.h"

namespace {
struct Pending
{
  MPI_Request         key;      // what the caller holds
  MPI_Request         real;
  std::vector<double> shadow, sent;
  const double*       from;
  double*             to;
  int                 order;
  bool                done;
};
std::list<Pending> g_pending;
std::vector<int>   g_prio(8, 1);
int                g_started = 0;
bool               g_intercept = false, g_sendbuf_touched = false, g_wild = false;
long               g_next_key = 1;
}  // namespace

extern "C" int
MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q)
{
  if (!g_intercept || t != MPI_DOUBLE) return PMPI_Iallreduce(s, r, n, t, op, c, q);
  g_pending.emplace_back();
  Pending& p = g_pending.back();
  p.shadow.assign(n, 0.);
  p.from = (const double*)s;
  p.to   = (double*)r;
  p.sent.assign(p.from, p.from + n);
  for (int i = 0; i < n; ++i) p.to[i] = std::numeric_limits<double>::quiet_NaN();
  p.order = g_prio[g_started++ % g_prio.size()];
  p.done  = false;
  int rc  = PMPI_Iallreduce(s, p.shadow.data(), n, t, op, c, &p.real);
  std::memcpy(&p.key, &p.real, sizeof p.key);
  *q = p.key;
  return rc;
}

extern "C" int
MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
  if (!g_intercept) return PMPI_Test(q, flag, st);
  Pending* mine = nullptr;
  for (auto& p : g_pending) {
    if (!p.done) {
      int f = 0;
      PMPI_Test(&p.real, &f, MPI_STATUS_IGNORE);
      p.done = f;
    }
    if (std::memcmp(&p.key, q, sizeof p.key) == 0 && !mine) mine = &p;
  }
  if (!mine) {
    g_wild = true;
    *flag  = 1;
    return MPI_SUCCESS;
  }
  bool turn = mine->done;
  for (auto& p : g_pending)
    if (p.order < mine->order) turn = false;
  *flag = turn;
  if (turn) {
    for (size_t i = 0; i < mine->sent.size(); ++i)
      if (std::memcmp(&mine->from[i], &mine->sent[i], 8)) g_sendbuf_touched = true;
    std::copy(mine->shadow.begin(), mine->shadow.end(), mine->to);
    *q = MPI_REQUEST_NULL;
    for (auto it = g_pending.begin(); it != g_pending.end(); ++it)
      if (&*it == mine) {
        g_pending.erase(it);
        break;
      }
  }
  return MPI_SUCCESS;
}

static json
reduction(const json& it, int rank)
{
  json r = json::array();
  auto ids = it["ids"][rank].get<std::vector<int>>();
  int  n   = ids.size();
  // one communicator object for all operations of the item, one through Tpetra if the item uses it
  nimble::VectorCommunicator vc(3, n, Teuchos::RCP<const Teuchos::Comm<int>>());
  vc.Initialize(ids);
  std::unique_ptr<nimble::VectorCommunicator> tp, plane;
  std::unique_ptr<nimble::TpetraContainer>    labelled;
  nimble::ModelData                           model;
  for (auto& op : it["ops"]) {
    if (op["kind"] == "tpetra" && !tp) {
      tp.reset(new nimble::VectorCommunicator(3, n, Tpetra::getDefaultComm()));
      tp->Initialize(ids);
    } else if (op["kind"] == "plane" && !plane) {
      plane.reset(new nimble::VectorCommunicator(2, n, Tpetra::getDefaultComm()));
      plane->Initialize(ids);
    } else if (op["kind"] == "label" && !labelled) {
      nimble::GenesisMesh mesh;
      std::vector<double> x(n, 0.5);
      mesh.Initialize("m.g", ids, x, x, x, {}, {}, {}, {}, {}, {});
      labelled.reset(new nimble::TpetraContainer);
      labelled->Initialize(mesh, ids, Tpetra::getDefaultComm());
      model.SetDimension(3);
      model.AllocateNodeData(nimble::VECTOR, "elsewhere", n);
      model.AllocateNodeData(nimble::SCALAR, "field 1", n);
      model.AllocateNodeData(nimble::VECTOR, "field 3", n);
    }
  }
  for (auto& op : it["ops"]) {
    std::string k = op["kind"];
    json        o;
    if (k == "bnd") {
      std::vector<int> loc{-7}, mr{-7};  // the lists are appended to
      vc.GetPartitionBoundaryNodeLocalIds(loc, mr);
      o["loc"] = loc;
      o["min"] = mr;
      r.push_back(o);
      continue;
    }
    int dim = op["dim"];
    auto give = op["given"][rank];
    std::vector<double> d(n * dim + 1, 12345.);
    for (int i = 0; i < n; ++i)
      for (int c = 0; c < dim; ++c) d[i * dim + c] = give[i][c];
    g_prio      = op["prio"].get<std::vector<int>>();
    g_started   = 0;
    g_intercept = k == "ptr" || k == "view";
    if (k == "ptr")
      vc.VectorReduction(dim, d.data());
    else if (k == "tpetra")
      tp->VectorReduction(dim, d.data());
    else if (k == "plane")
      plane->VectorReduction(dim, d.data());
    else if (k == "label") {
      std::string label = "field " + std::to_string(dim);
      double*     f     = model.GetNodeData(model.GetFieldId(label));
      std::copy(d.begin(), d.end() - 1, f);
      labelled->VectorReduction(model, label);
      std::copy(f, f + n * dim, d.begin());
      for (std::string l : {"elsewhere", "field 1", "field 3"})
        if (l != label) {
          double* g = model.GetNodeData(model.GetFieldId(l));
          int     m = n * (l == "field 1" ? 1 : 3);
          for (int i = 0; i < m; ++i)
            if (g[i] != 0.) o["overrun"] = true;
          std::fill(g, g + m, 0.);
        }
      std::fill(f, f + n * dim, 0.);
    }
    else {
      nimble::Viewify<2> v(d.data(), {n, dim}, {dim, 1});
      vc.VectorReduction(dim, v);
    }
    g_intercept = false;
    o["v"]      = json::array();
    for (int i = 0; i < n; ++i) {
      json row = json::array();
      for (int c = 0; c < dim; ++c) row.push_back(std::isfinite(d[i * dim + c]) ? json(d[i * dim + c]) : json("nan"));
      o["v"].push_back(row);
    }
    if (d[n * dim] != 12345.) o["overrun"] = true;
    if (!g_pending.empty()) o["left"] = g_pending.size();
    if (g_sendbuf_touched) o["sendbuf"] = true;
    if (g_wild) o["wild"] = true;
    g_pending.clear();
    r.push_back(o);
  }
  return r;
}

template <size_t N>
static std::array<int, N>
arr(const json& j)
{
  std::array<int, N> a;
  for (size_t i = 0; i < N; ++i) a[i] = j[i];
  return a;
}

using VI = std::vector<int>;

static json
comm_ops(const json& it, int rank)
{
  json               r = json::array();
  nimble::mpicontext world(MPI_COMM_WORLD);
  nimble::mpicontext ctx(MPI_COMM_WORLD);
  for (auto& op : it["ops"]) {
    std::string k = op["k"];
    // "a": one argument per rank of the present communicator
    int  me = ctx.get_rank();
    json a  = (op.count("a") && op["a"].is_array() && !op["a"].empty()) ? op["a"][me] : json();
    json o;
    int  root = op.value("root", 0);
    if (k == "split") {
      MPI_Comm c = op.value("keyed", false) ? world.split_by_color(a[0].get<int>(), a[1].get<int>())
                                            : world.split_by_color(a[0].get<int>());
      nimble::mpicontext s(c);
      o["rank"] = s.get_rank();
      o["size"] = s.get_size();
      o["all"]  = s.allgather_to_vector(rank);
      MPI_Comm_free(&c);
    } else if (k == "skip") {
      MPI_Comm c = a.get<int>() < 0 ? world.split_by_color() : world.split_by_color(a.get<int>());
      o["null"]  = c == MPI_COMM_NULL;
      if (c != MPI_COMM_NULL) MPI_Comm_free(&c);
    } else if (k == "gather") {
      o["res"] = ctx.gather(a.get<VI>(), root);
    } else if (k == "scatter") {
      std::vector<VI> src;
      if (me == root) src = op["src"].get<std::vector<VI>>();
      o["res"] = ctx.scatter(root, src);
    } else if (k == "allgather") {
      o["res"] = ctx.allgather_to_vector(a.get<int>());
    } else if (k == "allgather3") {
      o["res"] = ctx.allgather_to_vector(arr<3>(a));
    } else if (k == "allgatherz") {
      o["res"] = ctx.allgather_to_vector((size_t)(a.get<size_t>() + (size_t(1) << 40)));
    } else if (k == "gather1") {
      if (ctx.is_root()) o["res"] = ctx.gather_recieve(a.get<int>());
      else ctx.gather_send(a.get<int>());
    } else if (k == "gather3") {
      if (ctx.is_root()) o["res"] = ctx.gather_recieve(arr<3>(a));
      else ctx.gather_send(arr<3>(a));
    } else if (k == "gatherp") {
      VI v = a.get<VI>();
      if (ctx.is_root()) o["res"] = ctx.gather_recieve(v.data(), (int)v.size());
      else ctx.gather_send(v.data(), (int)v.size());
    } else if (k == "bcast") {
      int v = a;
      ctx.bcast(v);
      o["res"] = v;
    } else if (k == "bcast3") {
      auto v = arr<3>(a);
      ctx.bcast(v);
      o["res"] = v;
    } else if (k == "cat") {
      o["res"] = ctx.catenate_gatherv(a.get<std::string>());
    } else if (k == "catf") {
      o["res"] = ctx.catenate_gatherv_format(
          a.get<std::string>(), op["start"].get<std::string>(), op["sep"].get<std::string>(), op["end"].get<std::string>());
    } else if (k == "print") {
      std::ostringstream os;
      ctx.print(a.get<std::string>(), os).println(a.get<std::string>(), os).print_if_root(7, os).println_if_root("k", os);
      ctx.print_formatted(a.get<std::string>(), op["start"].get<std::string>(), op["sep"].get<std::string>(), op["end"].get<std::string>(), os);
      o["res"] = os.str();
    } else if (k == "vv") {  // gatherv then scatterv back
      VI  mine   = a.get<VI>();
      VI  counts = ctx.allgather_to_vector((int)mine.size());
      VI  disp;
      int acc = 0;
      for (int c : counts) {
        disp.push_back(acc);
        acc += c;
      }
      VI back(mine.size(), -1);
      if (ctx.is_root()) {
        VI all(acc);
        ctx.gatherv_recieve(mine, all, counts, disp);
        o["res"] = all;
        for (int& x : all) x = x * 2 + 1;
        ctx.scatterv_send(all, counts, disp, back);
      } else {
        ctx.gatherv_send(mine);
        ctx.scatterv_recieve(back);
      }
      o["back"] = back;
    } else if (k == "p2p") {  // every rank sends to the next ones, several messages, various receivers
      int from = op["from"], to = op["to"], tag = op["tag"];
      auto msgs = op["msgs"].get<std::vector<VI>>();
      std::string how = op["how"];
      if (me == from)
        for (auto& m : msgs) {
          VI c = m;
          if (how == "raw") ctx.send(std::pair<int*, int>(c.data(), (int)c.size()), to, tag);
          else if (how == "packbuf") {
            VI buffer(3, 99);
            ctx.sendpacked(c, to, tag, buffer);
          } else if (how == "packnobuf") {
#if 1
            ctx.sendpacked(c, to, tag);
#endif
          } else
            ctx.send(c, to, tag);
        }
      if (me == to) {
        o["res"]   = json::array();
        o["count"] = json::array();
        VI keep(5, 77);
        for (size_t i = 0; i < msgs.size(); ++i) {
          if (how == "vec") {
            VI  v{1, 2, 3, 4, 5, 6};
            int c = ctx.recv(v, from, tag);
            o["count"].push_back(c);
            o["res"].push_back(v);
          } else if (how == "raw") {
            VI  v(10, -5);
            int c = ctx.recv(v.data(), from, tag, 10);
            o["count"].push_back(c);
            o["res"].push_back(VI(v.begin(), v.begin() + c));
            for (size_t q = c; q < v.size(); ++q)
              if (v[q] != -5) o["overrun"] = true;
          } else if (how == "keep") {
            size_t before = keep.size();
            int    c      = ctx.recv_avoid_resize(keep, from, tag);
            o["count"].push_back(c);
            o["res"].push_back(VI(keep.begin(), keep.begin() + c));
            if (keep.size() < before || keep.size() < (size_t)c) o["shrunk"] = true;
          } else {
            VI v{4, 4}, buffer(i * 7, 3);
            ctx.recvpacked(v, from, tag, buffer);
            o["count"].push_back((int)v.size());
            o["res"].push_back(v);
          }
        }
      }
    } else if (k == "packids") {
      VI   mine = a.get<VI>();
      auto n    = nimble::GetNumberOfNodesAssignedToEachRank(mine, ctx);
      VI   nn(n.get(), n.get() + ctx.get_size());
      o["n"] = nn;
      int mx = *std::max_element(nn.begin(), nn.end());
      o["res"] = nimble::PackIDSpace(mine, mx, ctx);
      o["max"] = nimble::GetMaximumNodeId(mine, ctx);
    } else
      o["unknown"] = k;
    r.push_back(o);
  }
  return r;
}

// the matrix of a mesh that is spread over the ranks
static json
pattern(const json& it, int rank)
{
  json                r;
  nimble::GenesisMesh mesh;
  mesh.ReadFile(it["paths"][rank].get<std::string>());
  std::vector<int>        num = it["nums"][rank];
  nimble::TpetraContainer tc;
  tc.Initialize(mesh, num, Tpetra::getDefaultComm());
  for (int round = 0; round < 2; ++round) {  // it may be allocated again
    tc.AllocateTangentStiffnessMatrix(mesh);
    tc.TangentStiffnessMatrixSetScalar(it["value"].get<double>());
  }
  r["nnz"]     = tc.TangentStiffnessMatrixNumNonzeros();
  json entries = json::array();
  bool values  = true;
  auto& m      = *tc.crs_matrix_;
  auto  rows   = m.getRowMap();
  using M      = nimble::TpetraContainer::matrix_type;
  for (size_t i = 0; i < rows->getNodeNumElements(); ++i) {
    auto   row = rows->getGlobalElement(i);
    size_t n   = m.getNumEntriesInGlobalRow(row);
    typename M::nonconst_global_inds_host_view_type cols("cols", n);
    typename M::nonconst_values_host_view_type      vals("vals", n);
    m.getGlobalRowCopy(row, cols, vals, n);
    for (size_t k = 0; k < n; ++k) {
      entries.push_back({(long)row, (long)cols(k)});
      if (vals(k) != it["value"].get<double>()) values = false;
    }
  }
  r["entries"] = entries;
  r["values"]  = values;
  return r;
}

int
main(int argc, char** argv)
{
  MPI_Init(&argc, &argv);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  {
    Tpetra::ScopeGuard guard(&argc, &argv);
    std::ifstream      in(argv[1]);
    auto               items = probe::read_items(in);
    std::ofstream      out(std::string(argv[2]) + "." + std::to_string(rank));
    for (size_t i = 0; i < items.size(); ++i) {
      out << "{\"start\":" << i << "}" << std::endl;
      alarm(20);
      json j;
      try {
        j["r"] = items[i].count("paths") ? pattern(items[i], rank) : items[i].count("ids") ? reduction(items[i], rank) : comm_ops(items[i], rank);
      } catch (const std::exception& e) {
        j["exception"] = std::string(e.what());
      }
      j["i"] = i;
      out << j.dump() << std::endl;
      alarm(0);
    }
    alarm(20);
  }
  MPI_Finalize();
  return 0;
}
