#include "core.h"
#include <math.h>
#include <float.h>
#include <string.h>
#include <sstream>
#include <algorithm>

double Rng::logu(double a, double b) { return exp(u(log(a), log(b))); }
uint64_t fnv(const void *p, size_t n, uint64_t h) { const unsigned char *c = (const unsigned char *) p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }

const char *field_name[] = {"doub_d_tau", "pade_params", "sos_params", "fourier_tol", "lambda", "planet_r", "levels_z", "out_levels", "out_taus", "out_thetas",
     "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0", "levels_b", "surface_b", "g", "coef", "omega", "ltau", "kernel_ampfac", "kernel_params", "kernel_func",
     "F_iso_top_l", "F_iso_bot_l", "levels_b_l", "surface_b_l", "g_l", "coef_l", "omega_l", "ltau_l", "kernel_ampfac_l", "kernel_params_l"};
const char *code_name[] = {"create", "destroy", "set", "update_varied", "clear_saved", "solve", "adjoint", "query", "create_bad", "get_bad", "fd_create", "fd_set", "fd_solve", "fd_destroy", "sched", "write", "read", "run"};

int kernel_npar(int k) { return N_KPAR[k]; }

/*------------------------------------------------ documented configuration rules */
static int count(unsigned o, std::initializer_list<unsigned> l) { int n = 0; for (unsigned m : l) if (o & m) n++; return n; }
unsigned implied(const Config &c) {
     unsigned o = c.options;
     if (c.n_stokes > 1) o |= XRTM_OPTION_VECTOR;
     if (o & XRTM_OPTION_N_T_TMS) o |= XRTM_OPTION_DELTA_M;
     if (!(o & (XRTM_OPTION_FOUR_CONV_OLD | XRTM_OPTION_FOUR_CONV_NEW))) o |= XRTM_OPTION_FOUR_CONV_NEW;
     if (!(o & (XRTM_OPTION_PART_SOL_CLASSICAL | XRTM_OPTION_PART_SOL_GREENS))) o |= XRTM_OPTION_PART_SOL_CLASSICAL;
     if (!(o & (XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_PHASE_MATRIX_GC | XRTM_OPTION_PHASE_MATRIX_LC))) o |= o & XRTM_OPTION_VECTOR ? XRTM_OPTION_PHASE_MATRIX_GC : XRTM_OPTION_PHASE_SCALAR;
     if (!(o & (XRTM_OPTION_QUAD_NORM_GAUS_LEG | XRTM_OPTION_QUAD_DOUB_GAUS_LEG | XRTM_OPTION_QUAD_LOBATTO))) o |= XRTM_OPTION_QUAD_DOUB_GAUS_LEG;
     if (!(o & (XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT))) o |= XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT;
     if (o & XRTM_OPTION_PHASE_MATRIX_LC) o |= XRTM_OPTION_SAVE_PHASE_MATS;
     return o;
}
bool config_ok(const Config &c) {
     unsigned o = implied(c); int s = c.solvers;
     const int DA = XRTM_SOLVER_DOUB_ADD, EA = XRTM_SOLVER_EIG_ADD, EB = XRTM_SOLVER_EIG_BVP, FS = XRTM_SOLVER_FOUR_STREAM, MB = XRTM_SOLVER_MEM_BVP,
          PA = XRTM_SOLVER_PADE_ADD, SI = XRTM_SOLVER_SINGLE, SS = XRTM_SOLVER_SIX_STREAM, SO = XRTM_SOLVER_SOS, TO = XRTM_SOLVER_TWO_OS, TS = XRTM_SOLVER_TWO_STREAM;
     auto no = [&](int m) { return (s & m) != 0; };
     if (o & XRTM_OPTION_N_T_TMS && o & XRTM_OPTION_NO_AZIMUTHAL) return false;
     if (count(o, {XRTM_OPTION_FOUR_CONV_OLD, XRTM_OPTION_FOUR_CONV_NEW}) != 1) return false;
     if (count(o, {XRTM_OPTION_OUTPUT_AT_LEVELS, XRTM_OPTION_OUTPUT_AT_TAUS}) != 1) return false;
     if (count(o, {XRTM_OPTION_PART_SOL_CLASSICAL, XRTM_OPTION_PART_SOL_GREENS}) != 1) return false;
     if (count(o, {XRTM_OPTION_PHASE_SCALAR, XRTM_OPTION_PHASE_MATRIX_GC, XRTM_OPTION_PHASE_MATRIX_LC}) != 1) return false;
     if (count(o, {XRTM_OPTION_QUAD_NORM_GAUS_LEG, XRTM_OPTION_QUAD_DOUB_GAUS_LEG, XRTM_OPTION_QUAD_LOBATTO}) != 1) return false;
     if (o & XRTM_OPTION_SAVE_LAYER_R_T_S && o & XRTM_OPTION_STACK_REUSE_ADDING) return false;
     if (o & XRTM_OPTION_STACK_REUSE_ADDING && !(o & XRTM_OPTION_CALC_DERIVS)) return false;
     if (o & XRTM_OPTION_STACK_REUSE_ADDING && o & XRTM_OPTION_TOP_DOWN_ADDING) return false;
     if (o & XRTM_OPTION_TOP_DOWN_ADDING && o & XRTM_OPTION_BOTTOM_UP_ADDING) return false;
     if (!(o & (XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT))) return false;
     bool vec = (o & XRTM_OPTION_VECTOR) != 0, pm = (o & (XRTM_OPTION_PHASE_MATRIX_GC | XRTM_OPTION_PHASE_MATRIX_LC)) != 0;
     if (vec != pm) return false;
     if (((o & XRTM_OPTION_CALC_DERIVS) != 0) != (c.n_derivs > 0)) return false;
     if (o & XRTM_OPTION_DELTA_M && c.max_coef < 2 * c.n_quad + 1) return false;
     if (o & XRTM_OPTION_SFI && c.n_out_thetas == 0) return false;
     if (o & (XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING) && c.n_out_levels != 1) return false;
     if (!vec && c.n_stokes > 1) return false;
     if (c.n_quad != 1 && no(TS)) return false;
     if (c.n_quad != 2 && no(FS)) return false;
     if (c.n_quad != 3 && no(SS)) return false;
     if (c.n_out_levels > 2 && no(DA | EA | PA | SO | TO)) return false;
     if (c.n_out_thetas > 0 && !(o & XRTM_OPTION_SFI) && no(TS | FS | SS)) return false;
     if (o & XRTM_OPTION_DELTA_M && !(o & XRTM_OPTION_N_T_TMS) && no(SI)) return false;
     if (o & XRTM_OPTION_N_T_TMS && no(TO)) return false;
     if (o & XRTM_OPTION_NO_AZIMUTHAL && no(SI)) return false;
     if (o & XRTM_OPTION_OUTPUT_AT_TAUS && no(DA | EA | PA | SO | TO)) return false;
     if (o & XRTM_OPTION_QUAD_LOBATTO && s) return false;
     if (o & XRTM_OPTION_SFI && no(DA | EA | MB | PA | SO)) return false;
     if (!(o & XRTM_OPTION_SOURCE_SOLAR) && no(MB | SI | SO | TO)) return false;
     if (o & XRTM_OPTION_SOURCE_THERMAL && no(FS | MB | SI | SS | SO | TO | TS)) return false;
     if (o & (XRTM_OPTION_STACK_REUSE_ADDING | XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING) && no(EB | MB | SI | SO | TO)) return false;
     return true;
}

/*-------------------------------------------------------------------- text form */
static std::string dstr(double d) { char b[64]; if (isnan(d)) return "nan"; snprintf(b, sizeof b, "%a", d); return b; }
std::string op_text(const Op &o, const History *) {
     std::ostringstream s;
     s << "op " << o.inst << " " << code_name[o.code] << " " << o.iv.size();
     for (int i : o.iv) s << " " << i;
     s << " " << o.dv.size();
     for (double d : o.dv) s << " " << dstr(d);
     if (o.f.alloc_k || o.f.lapack_k) s << " fault " << o.f.alloc_k << " " << o.f.alloc_persist << " " << o.f.lapack_k << " " << o.f.lapack_family;
     return s.str();
}
std::string History::text() const {
     std::ostringstream s;
     s << "prop " << prop << "\nseed " << seed << "\nheap " << heap.fill << " " << heap.reuse << " " << heap.skew << " " << heap.fill_seed << "\nstack " << stack << "\n";
     for (auto &p : par) s << "par " << p.first << " " << p.second << "\n";
     for (auto &c : cfg) {
          s << "cfg " << c.options << " " << c.solvers << " " << c.max_coef << " " << c.n_quad << " " << c.n_stokes << " " << c.n_derivs << " " << c.n_layers << " " << c.n_kernel_quad << " " << c.n_out_levels << " " << c.n_out_thetas << " " << c.kernels.size();
          for (int k : c.kernels) s << " " << k;
          s << "\n";
     }
     for (auto &o : ops) s << op_text(o) << "\n";
     return s.str();
}
static double rd(std::istream &s) { std::string w; s >> w; return strtod(w.c_str(), 0); }
bool History::parse(const std::string &t) {
     std::istringstream f(t); std::string line;
     cfg.clear(); ops.clear(); par.clear();
     while (std::getline(f, line)) {
          if (line.empty() || line[0] == '#') continue;
          std::istringstream s(line); std::string w; s >> w;
          if (w == "prop") s >> prop;
          else if (w == "seed") s >> seed;
          else if (w == "heap") s >> heap.fill >> heap.reuse >> heap.skew >> heap.fill_seed;
          else if (w == "stack") s >> stack;
          else if (w == "par") { std::string k; int v; s >> k >> v; par[k] = v; }
          else if (w == "cfg") {
               Config c; size_t n; s >> c.options >> c.solvers >> c.max_coef >> c.n_quad >> c.n_stokes >> c.n_derivs >> c.n_layers >> c.n_kernel_quad >> c.n_out_levels >> c.n_out_thetas >> n;
               c.kernels.resize(n); for (auto &k : c.kernels) s >> k;
               cfg.push_back(c);
          } else if (w == "op") {
               Op o; std::string cn; size_t n; s >> o.inst >> cn;
               o.code = -1; for (int i = 0; i < N_CODES; ++i) if (cn == code_name[i]) o.code = i;
               if (o.code < 0) return false;
               s >> n; o.iv.resize(n); for (auto &v : o.iv) s >> v;
               s >> n; o.dv.resize(n); for (auto &v : o.dv) v = rd(s);
               if (s >> w && w == "fault") s >> o.f.alloc_k >> o.f.alloc_persist >> o.f.lapack_k >> o.f.lapack_family;
               ops.push_back(o);
          } else return false;
     }
     return !ops.empty();
}

/*------------------------------------------------------------------------ model */
Inputs::Inputs(const Config &cfg) : c(cfg) {
     for (int i = 0; i < N_FIELDS; ++i) { has[i] = false; sc[i] = 0; }
     pade_s = pade_r = sos_n = 0; sos_tau = sos_tol = 0;
     int nl = c.n_layers, nd = c.n_derivs, nk = c.n_kernels(), ne = c.n_elem();
     n_coef.assign(nl, 0); coef.assign(nl, VD(ne * c.max_coef, 0.)); omega.assign(nl, 0.); ltau.assign(nl, 0.);
     hcoef.assign(nl, 0); homega.assign(nl, 0); hltau.assign(nl, 0);
     kamp.assign(nk, 0.); hkamp.assign(nk, 0); kfunc.assign(nk, 0);
     for (int i = 0; i < nk; ++i) { int n = kernel_npar(c.kernels[i]); kpar.push_back(VD(n, 0.)); hkpar.push_back(VI(n, 0)); kpar_l.push_back(std::vector<VD>(nd, VD(n, 0.))); }
     ftop_l.assign(nd, 0.); fbot_l.assign(nd, 0.); surfb_l.assign(nd, 0.); levb_l.assign(nd, VD(nl + 1, 0.));
     omega_l.assign(nl, VD(nd, 0.)); ltau_l.assign(nl, VD(nd, 0.)); kamp_l.assign(nk, VD(nd, 0.));
     coef_l.assign(nl, std::vector<VD>(nd, VD(ne * c.max_coef, 0.)));
     need_update = nd > 0; solved = false;
}
Op mk(int inst, int code) { Op o; o.inst = inst; o.code = code; return o; }
Op mkset(int inst, int field, int i0, int i1, int i2, const VI &ints, const VD &dv) {
     Op o; o.inst = inst; o.code = O_SET; o.iv = {field, i0, i1, i2, (int) ints.size()}; o.iv.insert(o.iv.end(), ints.begin(), ints.end()); o.dv = dv; return o;
}

/* Sizes the payload must have for the indexes given; -1 if indexes make no sense. */
static int nlay(const Inputs &in, int i) { return i < 0 ? in.c.n_layers : 1; }
static int nder(const Inputs &in, int i) { return i < 0 ? in.c.n_derivs : 1; }

int Inputs::set_expect(const Op &o) const {
     int f = o.iv[0], i0 = o.iv[1], i1 = o.iv[2], i2 = o.iv[3]; const VD &v = o.dv; const int *iv = o.iv.data() + 5;
     if (is_linear(f) && !c.opt(XRTM_OPTION_CALC_DERIVS)) return 0;
     auto lay = [&](int i) { return i == -1 || (i >= 0 && i < c.n_layers); };
     auto der = [&](int i) { return i == -1 || (i >= 0 && i < c.n_derivs); };
     auto ker = [&](int i) { return i >= 0 && i < c.n_kernels(); };
     auto kp = [&](int k, int i) { return i == -1 || (i >= 0 && i < kernel_npar(c.kernels[k])); };
     for (double x : v) if (isnan(x)) return -1;
     switch (f) {
     case F_DOUB: if (!(c.solvers & XRTM_SOLVER_DOUB_ADD)) return v[0] > 0 ? -1 : 0; return v[0] > 0;
     case F_PADE: if (!(c.solvers & XRTM_SOLVER_PADE_ADD)) return -1; return iv[1] < 32;
     case F_SOS: if (!(c.solvers & XRTM_SOLVER_SOS)) return iv[0] > 0 && v[0] > 0 && v[1] >= 0 ? -1 : 0; return iv[0] > 0 && v[0] > 0 && v[1] >= 0;
     case F_FTOL: return v[0] >= 0;
     case F_LAMBDA: if (!c.opt(XRTM_OPTION_SOURCE_THERMAL)) return 0; return v[0] > 0;
     case F_RADIUS: if (!c.opt(XRTM_OPTION_PSA)) return 0; return v[0] > 0;
     case F_LEVZ: if (!c.opt(XRTM_OPTION_PSA)) return 0; for (int i = 1; i <= c.n_layers; ++i) if (v[i] > v[i - 1]) return 0; return 1;
     case F_OLEV: {
          if (!c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS)) return 0;
          for (int i = 0; i < c.n_out_levels; ++i) { if (iv[i] < 0 || iv[i] > c.n_layers) return 0; if (i && iv[i] <= iv[i - 1]) return 0; }
          if (c.solvers & (XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD | XRTM_SOLVER_SOS | XRTM_SOLVER_TWO_OS))
               for (int i = 0; i < std::min(2, c.n_out_levels); ++i) if (iv[i] != 0 && iv[i] != c.n_layers) return 0;
          if (c.solvers & XRTM_SOLVER_TWO_OS && iv[0] != 0) return 0;
          if (c.opt(XRTM_OPTION_TOP_DOWN_ADDING) && iv[0] != c.n_layers) return 0;
          if (c.opt(XRTM_OPTION_BOTTOM_UP_ADDING) && iv[0] != 0) return 0;
          return 1;
     }
     case F_OTAU: if (!c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) return 0; for (double x : v) if (x < 0) return 0; return 1;
     case F_OTHETA: if (!c.n_out_thetas) return 0; for (double x : v) if (x < 0 || x >= 90) return 0; return 1;
     case F_FTOP: case F_FBOT: return v[0] >= 0;
     case F_F0: if (!c.opt(XRTM_OPTION_SOURCE_SOLAR)) return 0; return v[0] >= 0;
     case F_THETA0: if (!c.opt(XRTM_OPTION_SOURCE_SOLAR)) return 0; return v[0] >= 0 && v[0] < 90;
     case F_PHI0: if (!c.opt(XRTM_OPTION_SOURCE_SOLAR)) return -1; return 1;
     case F_LEVB: if (!c.opt(XRTM_OPTION_SOURCE_THERMAL)) return 0; for (double x : v) if (x < 0) return 0; return 1;
     case F_SURFB: if (!c.opt(XRTM_OPTION_SOURCE_THERMAL)) return 0; return v[0] >= 0;
     case F_G: case F_G_L: return 0;
     case F_COEF: {
          if (!lay(i0)) return 0;
          int nl = nlay(*this, i0); size_t off = 0;
          for (int i = 0; i < nl; ++i) {
               int n = iv[i] < 0 ? c.max_coef : iv[i];
               if (iv[i] < -1) return -1;
               if (i0 < 0 && iv[i] < 0) { bool all = true; for (int j = 0; j < nl; ++j) if (iv[j] >= 0) all = false; if (!all) return -1; }
               if (n > c.max_coef) return 0;
          }
          for (int i = 0; i < nl; ++i) {
               int n = iv[i] < 0 ? c.max_coef : iv[i];
               if (n > 1 && fabs(1. - v[off]) > DBL_EPSILON) return 0;
               off += (size_t) n * c.n_elem();
          }
          return 1;
     }
     case F_OMEGA: if (!lay(i0)) return 0; for (double x : v) if (x < 0 || x > 1) return 0; return 1;
     case F_LTAU: if (!lay(i0)) return 0; for (double x : v) if (x <= 0) return 0; return 1;
     case F_KAMP: if (!ker(i0)) return 0; return v[0] >= 0 && v[0] <= 1;
     case F_KPAR: if (!ker(i0) || !kp(i0, i1)) return 0; if (i1 == -1 && !kernel_npar(c.kernels[i0])) return -1; return 1;
     case F_KFUNC: if (!ker(i0)) return 0; if (c.kernels[i0] != XRTM_KERNEL_USER_DEFINED) return 0; return 1;
     case F_FTOP_L: case F_FBOT_L: return der(i1);
     case F_LEVB_L: if (!c.opt(XRTM_OPTION_SOURCE_THERMAL)) return 0; return der(i1);
     case F_SURFB_L: if (!c.opt(XRTM_OPTION_SOURCE_THERMAL)) return 0; return der(i1);
     case F_COEF_L: if (!lay(i0) || !der(i1)) return 0; return 1;
     case F_OMEGA_L: case F_LTAU_L: return lay(i0) && der(i1);
     case F_KAMP_L: return ker(i0) && der(i1);
     case F_KPAR_L: if (!ker(i0) || !der(i1) || !kp(i0, i2)) return 0; if (!kernel_npar(c.kernels[i0])) return -1; return 1;
     }
     return -1;
}

void Inputs::set_apply(const Op &o) {
     int f = o.iv[0], i0 = o.iv[1], i1 = o.iv[2], i2 = o.iv[3]; const VD &v = o.dv; const int *iv = o.iv.data() + 5;
     int L0 = i0 < 0 ? 0 : i0, L1 = i0 < 0 ? c.n_layers : i0 + 1, D0 = i1 < 0 ? 0 : i1, D1 = i1 < 0 ? c.n_derivs : i1 + 1;
     if (f != F_COEF && !is_linear(f)) has[f] = true;
     if (is_linear(f)) need_update = true;
     size_t p = 0;
     switch (f) {
     case F_PADE: pade_s = iv[0]; pade_r = iv[1]; break;
     case F_SOS: sos_n = iv[0]; sos_tau = v[0]; sos_tol = v[1]; break;
     case F_LEVZ: levz = v; break;
     case F_OLEV: olev.assign(iv, iv + c.n_out_levels); break;
     case F_OTAU: otau = v; break;
     case F_OTHETA: otheta = v; break;
     case F_LEVB: levb = v; break;
     case F_COEF:
          for (int i = L0; i < L1; ++i) {
               int n = iv[i - L0] < 0 ? c.max_coef : iv[i - L0];
               n_coef[i] = n; hcoef[i] = 1;
               for (int e = 0; e < c.n_elem(); ++e) for (int k = 0; k < c.max_coef; ++k) { if (k < n) coef[i][e * c.max_coef + k] = v[p++]; else { coef[i][e * c.max_coef + k] = 0.; for (int j = 0; j < c.n_derivs; ++j) { double &x = coef_l[i][j][e * c.max_coef + k]; if (x != 0.) trimmed = true; x = 0.; } } }
          }
          break;
     case F_OMEGA: for (int i = L0; i < L1; ++i) { omega[i] = v[p++]; homega[i] = 1; } break;
     case F_LTAU: for (int i = L0; i < L1; ++i) { ltau[i] = v[p++]; hltau[i] = 1; } break;
     case F_KAMP: kamp[i0] = v[0]; hkamp[i0] = 1; break;
     case F_KPAR: if (i1 < 0) for (size_t j = 0; j < kpar[i0].size(); ++j) { kpar[i0][j] = v[j]; hkpar[i0][j] = 1; } else { kpar[i0][i1] = v[0]; hkpar[i0][i1] = 1; } break;
     case F_KFUNC: kfunc[i0] = iv[0]; break;
     case F_FTOP_L: for (int j = D0; j < D1; ++j) ftop_l[j] = v[p++]; break;
     case F_FBOT_L: for (int j = D0; j < D1; ++j) fbot_l[j] = v[p++]; break;
     case F_SURFB_L: for (int j = D0; j < D1; ++j) surfb_l[j] = v[p++]; break;
     case F_LEVB_L: for (int j = D0; j < D1; ++j) for (int i = 0; i <= c.n_layers; ++i) levb_l[j][i] = v[p++]; break;
     case F_COEF_L: for (int i = L0; i < L1; ++i) for (int j = D0; j < D1; ++j) for (int e = 0; e < c.n_elem(); ++e) for (int k = 0; k < n_coef[i]; ++k) coef_l[i][j][e * c.max_coef + k] = v[(((size_t) (i - L0) * (D1 - D0) + (j - D0)) * c.n_elem() + e) * c.max_coef + k]; break;
     case F_OMEGA_L: for (int i = L0; i < L1; ++i) for (int j = D0; j < D1; ++j) omega_l[i][j] = v[p++]; break;
     case F_LTAU_L: for (int i = L0; i < L1; ++i) for (int j = D0; j < D1; ++j) ltau_l[i][j] = v[p++]; break;
     case F_KAMP_L: for (int j = D0; j < D1; ++j) kamp_l[i0][j] = v[p++]; break;
     case F_KPAR_L: for (int j = D0; j < D1; ++j) { int a = i2 < 0 ? 0 : i2, b = i2 < 0 ? (int) kpar[i0].size() : i2 + 1; for (int k = a; k < b; ++k) kpar_l[i0][j][k] = v[p++]; } break;
     default: sc[f] = v[0];
     }
}

int Inputs::solve_expect(const Op &o, std::string *why) const {
     int solver = o.iv[0], out = o.iv[1];
     auto no = [&](const char *s) { if (why) *why = s; return 0; };
     if (!(solver & c.solvers) || (solver & (solver - 1))) return no("solver");
     if (!(out & 15)) return no("output");
     if (out & ~7) return -1;
     if ((out & 1) && o.iv[2] <= 0) return no("n_phis");
     if (solver == XRTM_SOLVER_SINGLE && out != 1) return no("single output");
     if (c.solvers & XRTM_SOLVER_DOUB_ADD && !has[F_DOUB]) return no("doub_d_tau");
     if (c.solvers & XRTM_SOLVER_PADE_ADD && !has[F_PADE]) return no("pade_params");
     if (c.solvers & XRTM_SOLVER_SOS && !has[F_SOS]) return no("sos_params");
     if (!has[F_FTOL]) return no("fourier_tol");
     if (c.opt(XRTM_OPTION_PSA) && (!has[F_RADIUS] || !has[F_LEVZ])) return no("psa");
     if (c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS) && !has[F_OLEV]) return no("out_levels");
     if (c.opt(XRTM_OPTION_OUTPUT_AT_TAUS) && !has[F_OTAU]) return no("out_taus");
     if (c.n_out_thetas && !has[F_OTHETA]) return no("out_thetas");
     if (!has[F_FTOP] || !has[F_FBOT]) return no("F_iso");
     if (c.opt(XRTM_OPTION_SOURCE_SOLAR) && (!has[F_F0] || !has[F_THETA0] || !has[F_PHI0])) return no("solar");
     if (c.opt(XRTM_OPTION_SOURCE_THERMAL) && (!has[F_LEVB] || !has[F_SURFB])) return no("thermal");
     for (int i = 0; i < c.n_layers; ++i) if (!hcoef[i] || !homega[i] || !hltau[i]) return no("layer");
     for (int i = 0; i < c.n_kernels(); ++i) {
          if (!hkamp[i]) return no("ampfac");
          for (int h : hkpar[i]) if (!h) return no("kernel_params");
          if (c.kernels[i] == XRTM_KERNEL_USER_DEFINED && !kfunc[i]) return no("kernel_func");
     }
     if (c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) {
          double t = 0; for (double x : ltau) t += x;
          for (size_t i = 0; i < otau.size(); ++i) {
               if (fabs(otau[i] - t) < 1e-9 * t && otau[i] != t) return -1;
               if (otau[i] > t) return no("out_taus beyond total");
               if (i && otau[i] <= otau[i - 1]) return no("out_taus not increasing");
          }
     }
     if (need_update) return no("varied layers");
     if (trimmed) return -1;
     return 1;
}

std::vector<Op> Inputs::canonical(int inst) const {
     std::vector<Op> r;
     auto S = [&](int f, int a, int b, int d, const VI &iv, const VD &dv) { r.push_back(mkset(inst, f, a, b, d, iv, dv)); };
     for (int f = 0; f < F_COEF; ++f) if (has[f]) {
          switch (f) {
          case F_PADE: S(f, -1, -1, -1, {pade_s, pade_r}, {}); break;
          case F_SOS: S(f, -1, -1, -1, {sos_n}, {sos_tau, sos_tol}); break;
          case F_LEVZ: S(f, -1, -1, -1, {}, levz); break;
          case F_OLEV: S(f, -1, -1, -1, olev, {}); break;
          case F_OTAU: S(f, -1, -1, -1, {}, otau); break;
          case F_OTHETA: S(f, -1, -1, -1, {}, otheta); break;
          case F_LEVB: S(f, -1, -1, -1, {}, levb); break;
          default: S(f, -1, -1, -1, {}, {sc[f]});
          }
     }
     int ne = c.n_elem(), mc = c.max_coef;
     for (int i = 0; i < c.n_layers; ++i) {
          if (hcoef[i]) { VD v; for (int e = 0; e < ne; ++e) for (int k = 0; k < n_coef[i]; ++k) v.push_back(coef[i][e * mc + k]); S(F_COEF, i, -1, -1, {n_coef[i]}, v); }
          if (homega[i]) S(F_OMEGA, i, -1, -1, {}, {omega[i]});
          if (hltau[i]) S(F_LTAU, i, -1, -1, {}, {ltau[i]});
     }
     for (int k = 0; k < c.n_kernels(); ++k) {
          if (hkamp[k]) S(F_KAMP, k, -1, -1, {}, {kamp[k]});
          for (size_t j = 0; j < kpar[k].size(); ++j) if (hkpar[k][j]) S(F_KPAR, k, (int) j, -1, {}, {kpar[k][j]});
          if (kfunc[k]) S(F_KFUNC, k, -1, -1, {kfunc[k]}, {});
     }
     int nd = c.n_derivs;
     if (nd) {
          S(F_FTOP_L, -1, -1, -1, {}, ftop_l); S(F_FBOT_L, -1, -1, -1, {}, fbot_l);
          if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) { S(F_SURFB_L, -1, -1, -1, {}, surfb_l); for (int j = 0; j < nd; ++j) S(F_LEVB_L, -1, j, -1, {}, levb_l[j]); }
          for (int i = 0; i < c.n_layers; ++i) {
               S(F_OMEGA_L, i, -1, -1, {}, omega_l[i]); S(F_LTAU_L, i, -1, -1, {}, ltau_l[i]);
               if (hcoef[i]) for (int j = 0; j < nd; ++j) S(F_COEF_L, i, j, -1, {}, coef_l[i][j]);
          }
          for (int k = 0; k < c.n_kernels(); ++k) {
               S(F_KAMP_L, k, -1, -1, {}, kamp_l[k]);
               if (kpar[k].size()) for (int j = 0; j < nd; ++j) for (size_t p = 0; p < kpar[k].size(); ++p) S(F_KPAR_L, k, j, (int) p, {}, {kpar_l[k][j][p]});
          }
          if (!need_update) r.push_back(mk(inst, O_UPDATE));
     }
     return r;
}
