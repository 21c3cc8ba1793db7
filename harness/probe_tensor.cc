// The tensor kernel (spec/Tensor.tla): registers of full and symmetric
// tensors, one operation at a time.  After an operation has been reported its
// target is set to the exact value, so that rounding does not build up.
#include <nimble_utils.h>

#include "probe_common.h"

static const int KF[3][3] = {{K_F_XX, K_F_XY, K_F_XZ}, {K_F_YX, K_F_YY, K_F_YZ}, {K_F_ZX, K_F_ZY, K_F_ZZ}};
static const int KS[3][3] = {{K_S_XX, K_S_XY, K_S_XZ}, {K_S_YX, K_S_YY, K_S_YZ}, {K_S_ZX, K_S_ZY, K_S_ZZ}};

static void
inF(const json& m, double* f)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) f[KF[i][j]] = m[i][j];
}
static void
inS(const json& m, double* s)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) s[KS[i][j]] = m[i][j];
}
static json
outF(const double* f)
{
  json m = json::array();
  for (int i = 0; i < 3; ++i) m.push_back({f[KF[i][0]], f[KF[i][1]], f[KF[i][2]]});
  return m;
}
static json
outS(const double* s)
{
  json m = json::array();
  for (int i = 0; i < 3; ++i) m.push_back({s[KS[i][0]], s[KS[i][1]], s[KS[i][2]]});
  return m;
}

struct Square
{
  int                 n;
  std::vector<double> v;
  double&             operator()(int i, int j) { return v[i * n + j]; }
  double              operator()(int i, int j) const { return v[i * n + j]; }
};

int
main()
{
  return probe::run_items(probe::read_items(), [](const json& it) {
    double F[5][9], S[4][6];
    for (auto& f : F) inF(json::parse("[[1,0,0],[0,1,0],[0,0,1]]"), f);
    for (auto& s : S) inS(json::parse("[[1,0,0],[0,1,0],[0,0,1]]"), s);
    json res = json::array();
    for (auto& e : it["ops"]) {
      std::string op = e["op"];
      const json& a  = e["args"];
      int         to = e.value("to", 0);
      json        r;
      bool        full = true, none = false;
      if (op == "load") {
      } else if (op == "loads") {
        full = false;
      } else if (op == "mul") Mult_Full33_Full33(F[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "sum") Sum_Full33_Full33(F[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "mulk") Mult_Scalar_Full33_Full33((double)a[0], F[(int)a[1]], F[(int)a[2]], F[to]);
      else if (op == "bch") BCH(F[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "ssum") Sum_Sym33_Full33(S[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "smul") Mult_Sym33_Full33(S[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "mulst") Mult_Full33_Sym33_ReturnT(F[(int)a[0]], S[(int)a[1]], F[to]);
      else if (op == "sbch") BCH_Sym33_Full33(S[(int)a[0]], F[(int)a[1]], F[to]);
      else if (op == "scale") Mult_Scalar_Full33((double)a[0], F[(int)a[1]], F[to]);
      else if (op == "skew") SkewPart_Full33(F[(int)a[0]], F[to]);
      else if (op == "inv") {
        double d = Invert_Full33(F[(int)a[0]], F[to]);
        double m[3][3], v[3][3];
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) m[i][j] = F[(int)a[0]][KF[i][j]];
        double d2 = Invert3x3(m, v);
        r["det"] = {d, d2};
        json w   = json::array();
        for (int i = 0; i < 3; ++i) w.push_back({v[i][0], v[i][1], v[i][2]});
        r["inv3x3"] = w;
      } else if (op == "copy") SetEqual_Full33(F[(int)a[0]], F[to]);
      else if (op == "zero") Zero_Full33(F[to]);
      else if (op == "det") { r["val"] = Determinant_Full33(F[(int)a[0]]); none = true; }
      else if (op == "normf") { r["val"] = Norm_Full33(F[(int)a[0]]); none = true; }
      else if (op == "norms") { r["val"] = Norm_Sym33(S[(int)a[0]]); none = true; }
      else if (op == "cross") {
        double u[3], v[3], w[3];
        for (int i = 0; i < 3; ++i) { u[i] = a[0][i]; v[i] = a[1][i]; }
        CrossProduct(u, v, w);
        r["val"] = {w[0], w[1], w[2]};
        none     = true;
      } else if (op == "sign") {
        double x = a[0], y = a[1];
        bool   b = (double)a[2] > 0;
        r["val"] = {MultiplySign(x, y), Minimum(x, y), if_then_else(b, x, y), if_then(b, x, y), if_then_else_zero(b, x)};
        none     = true;
      } else if (op == "polar") {
        double f[9], v[6], rot[9], v2[6], rot2[9], lv[6];
        inF(e["F"], f);
        Polar_Decomp(f, v, rot);
        Polar_Left_LogV_Lame(f, v2, rot2, lv);
        r["V"]  = {outS(v), outS(v2)};
        r["R"]  = {outF(rot), outF(rot2)};
        r["lv"] = outS(lv);
        none    = true;
      } else if (op == "logrot") {
        double f[9], l[9];
        inF(e["R"], f);
        for (double& x : l) x = 777.0;
        Log_Rotation(f, l);
        r["log"] = outF(l);
        none     = true;
      } else if (op == "solve") {
        int    n = e["A"].size();
        Square m{n, std::vector<double>(n * n)};
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j) m(i, j) = e["A"][i][j];
        Square           m0 = m;
        std::vector<int> idx(n);
        LU_Decompose(n, m, idx.data());
        json xs = json::array();
        for (auto& b : e["b"]) {
          std::vector<double> x = b;
          LU_Solve(n, m, x.data(), idx.data());
          xs.push_back(x);
        }
        std::vector<double> x = e["b"][0];
        LU_SolveSystem(n, m0, x.data(), idx.data());
        r["x"]   = xs;
        r["sys"] = x;
        none     = true;
      } else {
        full = false;
        if (op == "square_tf") Square_Full33T_Full33(F[(int)a[0]], S[to]);
        else if (op == "square_ft") Square_Full33_Full33T(F[(int)a[0]], S[to]);
        else if (op == "sym") SymPart_Full33(F[(int)a[0]], S[to]);
        else if (op == "rot") Rotate_Sym33_Using_Rtranspose_S_R(S[(int)a[0]], F[(int)a[1]], S[to]);
        else if (op == "unrot") Unrotate_Sym33_Using_R_S_Rtranspose(S[(int)a[0]], F[(int)a[1]], S[to]);
        else if (op == "copys") SetEqual_Sym33(S[(int)a[0]], S[to]);
        else throw std::runtime_error("unknown operation " + op);
      }
      if (!none && op != "load" && op != "loads") r["t"] = full ? outF(F[to]) : outS(S[to]);
      if (!none) {
        if (full) inF(e["want"], F[to]);
        else inS(e["want"], S[to]);
        // the other registers hold what they held
        json all = json::array();
        for (int k = 1; k <= 4; ++k) all.push_back(outF(F[k]));
        for (int k = 1; k <= 3; ++k) all.push_back(outS(S[k]));
        r["all"] = all;
      }
      res.push_back(r);
    }
    return json{{"ops", res}};
  });
}
