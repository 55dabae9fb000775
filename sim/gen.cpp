/* Seeded generation of configurations, inputs and calls. */
#include "core.h"
#include <math.h>
#include <float.h>
#include <algorithm>
#include <stdlib.h>

static const int ALLS[11] = {XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_FOUR_STREAM, XRTM_SOLVER_MEM_BVP, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SINGLE, XRTM_SOLVER_SIX_STREAM, XRTM_SOLVER_SOS, XRTM_SOLVER_TWO_OS, XRTM_SOLVER_TWO_STREAM};

static unsigned lifted() { static unsigned m = ~0u; if (m == ~0u) { const char *s = getenv("SIM_DOMAIN"); m = s ? (unsigned) strtoul(s, 0, 0) : 0; } return m; }
/* Known findings (known-findings.txt) keep these combinations out of the generated histories; each is replayed on its own. */
static unsigned excl(const Config &c) {
     const int str = XRTM_SOLVER_TWO_STREAM | XRTM_SOLVER_FOUR_STREAM | XRTM_SOLVER_SIX_STREAM;
     unsigned o = implied(c), e = 0; auto has = [&](unsigned m) { return (o & m) != 0; };
     if ((c.solvers & str) && !has(XRTM_OPTION_SOURCE_SOLAR)) e |= 1 << 2;
     if (has(XRTM_OPTION_VECTOR) && has(XRTM_OPTION_PART_SOL_GREENS)) e |= 1 << 3;
     if ((c.solvers & str) && (c.n_stokes > 1 || has(XRTM_OPTION_VECTOR))) e |= 1 << 4;
     if ((c.solvers & XRTM_SOLVER_TWO_STREAM) && has(XRTM_OPTION_SFI) && has(XRTM_OPTION_CALC_DERIVS)) e |= 1 << 5;
     if (has(XRTM_OPTION_CALC_DERIVS) && has(XRTM_OPTION_PART_SOL_GREENS)) e |= 1 << 6;
     if (has(XRTM_OPTION_PHASE_MATRIX_LC)) e |= 1 << 7;
     if (has(XRTM_OPTION_STACK_REUSE_ADDING) && has(XRTM_OPTION_SOURCE_THERMAL)) e |= 1 << 9;
     if (has(XRTM_OPTION_STACK_REUSE_ADDING) && has(XRTM_OPTION_CALC_DERIVS) && !has(XRTM_OPTION_SOURCE_SOLAR) && !has(XRTM_OPTION_SOURCE_THERMAL)) e |= 1 << 10;
     return e;
}
bool domain_ok(const Config &c) {
     unsigned e = excl(c), l = lifted() & ~0x102u;
     if (l) return e == l;              /* development: only histories of these exclusions */
     return e == 0 && !(c.solvers & XRTM_SOLVER_TWO_OS && c.options & XRTM_OPTION_TOP_DOWN_ADDING);   /* two_os gives the top only */
}
int domain_outputs(const Config &c, int solver) {
     const int bvp = XRTM_SOLVER_TWO_STREAM | XRTM_SOLVER_FOUR_STREAM | XRTM_SOLVER_SIX_STREAM | XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_MEM_BVP;
     if ((solver & bvp) && c.opt(XRTM_OPTION_SFI) && !(lifted() & 2)) return 1;
     return 7;
}

Config gen_config(Rng &r, const GenOpt &g) {
     for (int tries = 0; tries < 100000; ++tries) {
          Config c; unsigned o = 0;
          /* choose the leading solver first so that all are used about equally often */
          VI av; for (int s : ALLS) if (s & g.solvers_mask) av.push_back(s);
          int lead = r.pick(av); c.solvers = lead;
          if (g.multi) for (int s : av) if (r.chance(.12 * g.multi)) c.solvers |= s;
          c.n_quad = lead == XRTM_SOLVER_TWO_STREAM ? 1 : lead == XRTM_SOLVER_FOUR_STREAM ? 2 : lead == XRTM_SOLVER_SIX_STREAM ? 3 : r.range(1, g.max_quad);
          if (g.multi) { if (c.n_quad == 1 && r.chance(.25)) c.solvers |= XRTM_SOLVER_TWO_STREAM & g.solvers_mask; if (c.n_quad == 2 && r.chance(.25)) c.solvers |= XRTM_SOLVER_FOUR_STREAM & g.solvers_mask; if (c.n_quad == 3 && r.chance(.25)) c.solvers |= XRTM_SOLVER_SIX_STREAM & g.solvers_mask; }
          bool der = r.chance(g.p_derivs) || g.min_derivs;
          if (der) { o |= XRTM_OPTION_CALC_DERIVS; c.n_derivs = r.range(std::max(1, g.min_derivs), g.max_derivs); }
          bool vec = r.chance(g.p_vector);
          if (vec) { o |= XRTM_OPTION_VECTOR | ((lifted() & 0x80) ? XRTM_OPTION_PHASE_MATRIX_LC : XRTM_OPTION_PHASE_MATRIX_GC); c.n_stokes = g.nondeg ? r.pick({3, 3, 4}) : r.pick({1, 3, 3, 4}); if (g.nondeg && c.n_quad < 2) continue; if (c.n_quad > 3) c.n_quad = 3; }
          else o |= XRTM_OPTION_PHASE_SCALAR;
          o |= r.chance(.5) ? XRTM_OPTION_FOUR_CONV_OLD : XRTM_OPTION_FOUR_CONV_NEW;
          o |= r.chance(g.p_taus) ? XRTM_OPTION_OUTPUT_AT_TAUS : XRTM_OPTION_OUTPUT_AT_LEVELS;
          o |= r.chance(.6) ? XRTM_OPTION_PART_SOL_CLASSICAL : XRTM_OPTION_PART_SOL_GREENS;
          o |= r.chance(.5) ? XRTM_OPTION_QUAD_NORM_GAUS_LEG : XRTM_OPTION_QUAD_DOUB_GAUS_LEG;
          if (r.chance(.88)) o |= XRTM_OPTION_SOURCE_SOLAR;
          if (r.chance(.25)) o |= XRTM_OPTION_SOURCE_THERMAL;
          if (r.chance(g.p_delta)) { o |= XRTM_OPTION_DELTA_M; if (r.chance(.5)) o |= XRTM_OPTION_N_T_TMS; } else if (r.chance(.1)) o |= XRTM_OPTION_N_T_TMS;
          if (r.chance(.12)) o |= XRTM_OPTION_NO_AZIMUTHAL;
          if (r.chance(.2)) o |= XRTM_OPTION_PSA;
          if (r.chance(.2)) o |= XRTM_OPTION_SFI;
          for (unsigned m : {XRTM_OPTION_SAVE_LEG_POLYS, XRTM_OPTION_SAVE_PHASE_MATS, XRTM_OPTION_SAVE_LOCAL_R_T, XRTM_OPTION_SAVE_LAYER_R_T_S, XRTM_OPTION_SAVE_TOTAL_R_T_S}) if (r.chance(g.p_save)) o |= m;
          if (der && r.chance(.25)) { o |= XRTM_OPTION_STACK_REUSE_ADDING; o &= ~XRTM_OPTION_SAVE_LAYER_R_T_S; }
          if (r.chance(.08)) o |= XRTM_OPTION_TOP_DOWN_ADDING; else if (r.chance(.08)) o |= XRTM_OPTION_BOTTOM_UP_ADDING;
          int ud = r.below(8); o |= ud == 0 ? XRTM_OPTION_UPWELLING_OUTPUT : ud == 1 ? XRTM_OPTION_DOWNWELLING_OUTPUT : (XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT);
          o |= g.force; o &= ~g.forbid;
          c.options = o;
          c.max_coef = r.chance(.6) ? 2 * c.n_quad + r.range(1, 4) : r.range(1, 2 * c.n_quad + 2);
          c.n_layers = r.chance(.1) ? 1 : r.range(2, g.max_layers);
          c.n_out_levels = (o & (XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING)) ? 1 : r.pick({1, 2, 2, 2, 3});
          if (o & XRTM_OPTION_OUTPUT_AT_LEVELS && c.n_out_levels > c.n_layers + 1) c.n_out_levels = c.n_layers + 1;
          c.n_out_thetas = (o & XRTM_OPTION_SFI) ? r.range(1, 3) : r.pick({0, 0, 1, 2, 3});
          if (r.chance(g.p_kernels)) { int n = r.pick({1, 1, 2}); for (int i = 0; i < n; ++i) { int k = r.pick({0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 10}); c.kernels.push_back(g.lambert ? 0 : k); } }
          c.n_kernel_quad = r.pick({2, 4, 6});
          /* keep the leading solver, drop companions the configuration rules out */
          auto ok = [](const Config &c) { return config_ok(c) && domain_ok(c); };
          if (!ok(c)) { int s = c.solvers; Config t = c; t.solvers = lead; for (int m : ALLS) if ((s & m) && m != lead) { t.solvers |= m; if (!ok(t)) t.solvers &= ~m; } c = t; }
          if (!ok(c)) continue;
          if ((c.options & (XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_SOURCE_THERMAL)) == 0 && !r.chance(.15)) continue;
          return c;
     }
     abort();
}

bool gen_near = false;
static double gtheta(Rng &r, bool edge) {
     if (edge && r.chance(.12)) return r.pick({0., 60., 54.735610317245346, 1e-3, 89.});
     return r.u(1., 82.);
}
static void hg(Rng &r, const Config &c, int n, VD &v, bool edge) {
     double g = edge && r.chance(.1) ? r.pick({0., .95}) : r.u(-.4, .85);
     for (int e = 0; e < c.n_elem(); ++e) for (int k = 0; k < n; ++k) {
          double x = (2 * k + 1) * pow(g, k);
          if (e == 0) v.push_back(k == 0 ? 1. : x);
          else if (k < 2 && e != 3 && e != 1 && e != 2) v.push_back(0.);
          else if (e == 1 || e == 2) v.push_back(k < 2 ? 0. : .8 * x);
          else if (e == 3) v.push_back(.7 * x);
          else v.push_back(.1 * x);
     }
}
static double kpar_val(Rng &r, int kernel, int p) {
     switch (kernel) {
     case 1: return r.u(.05, .5);
     case 3: case 4: return r.u(.8, 2.2);
     case 7: return p == 0 ? r.u(.1, .9) : r.u(.05, .5);
     case 8: return p == 0 ? r.u(.05, .5) : p == 1 ? r.u(-.4, .4) : r.u(.5, 1.1);
     case 9: return p == 0 ? r.u(.02, .2) : r.u(1.2, 1.6);
     default: return r.u(.05, .5);
     }
}
static double lval(Rng &r) { return r.chance(.3) ? 0. : r.chance(.3) ? 1. : r.u(-1., 1.); }

VI settable(const Inputs &in, bool linear) {
     const Config &c = in.c; VI v;
     if (!linear) {
          v = {F_FTOL, F_FTOP, F_FBOT, F_COEF, F_OMEGA, F_LTAU};
          if (c.solvers & XRTM_SOLVER_DOUB_ADD) v.push_back(F_DOUB);
          if (c.solvers & XRTM_SOLVER_PADE_ADD) v.push_back(F_PADE);
          if (c.solvers & XRTM_SOLVER_SOS) v.push_back(F_SOS);
          if (c.opt(XRTM_OPTION_PSA)) { v.push_back(F_RADIUS); v.push_back(F_LEVZ); }
          v.push_back(c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS) ? F_OLEV : F_OTAU);
          if (c.n_out_thetas) v.push_back(F_OTHETA);
          if (c.opt(XRTM_OPTION_SOURCE_SOLAR)) { v.push_back(F_F0); v.push_back(F_THETA0); v.push_back(F_PHI0); }
          if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) { v.push_back(F_LEVB); v.push_back(F_SURFB); v.push_back(F_LAMBDA); }
          if (c.n_kernels()) { v.push_back(F_KAMP); bool p = false, u = false; for (int k : c.kernels) { p |= kernel_npar(k) > 0; u |= k == 10; } if (p) v.push_back(F_KPAR); if (u) v.push_back(F_KFUNC); }
     } else if (c.n_derivs) {
          v = {F_FTOP_L, F_FBOT_L, F_COEF_L, F_OMEGA_L, F_LTAU_L, F_OMEGA_L, F_LTAU_L};
          if (c.opt(XRTM_OPTION_SOURCE_THERMAL) && (!(c.solvers & (XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD)) || (lifted() & 0x100))) { v.push_back(F_LEVB_L); v.push_back(F_SURFB_L); }
          if (c.n_kernels()) { v.push_back(F_KAMP_L); bool p = false; for (int k : c.kernels) p |= kernel_npar(k) > 0; if (p) v.push_back(F_KPAR_L); }
     }
     return v;
}

Op gen_set(Rng &r, const Inputs &in, int inst, int f, bool edge) {
     const Config &c = in.c; VD v; VI iv; int i0 = -1, i1 = -1, i2 = -1; int nl = c.n_layers, nd = c.n_derivs, ne = c.n_elem();
     auto lay = [&]() { return r.chance(.35) ? -1 : r.below(nl); };
     switch (f) {
     case F_DOUB: v = {r.pick({1e-2, 1e-3, 1e-4, 3e-3})}; break;
     case F_PADE: { int s = r.range(0, 4), q = r.chance(.6) ? r.range(2, 5) : r.range(1, 16); if (r.chance(.3)) s = q = -1; iv = {s, q}; break; }
     case F_SOS: iv = {r.range(2, 40)}; v = {r.pick({.05, .1, .02}), r.pick({0., 1e-4, 1e-3})}; break;
     case F_FTOL: v = {r.pick({0., 1e-4, 1e-3, 1e-2, .1})}; break;
     case F_LAMBDA: v = {r.u(.3, 12.)}; break;
     case F_RADIUS: v = {r.u(3e6, 7e6)}; break;
     case F_LEVZ: { double z = r.u(2e4, 8e4); for (int i = 0; i < nl; ++i) { v.push_back(z); z -= (z / (nl - i)) * r.u(.3, 1.); } v.push_back(r.chance(.5) ? 0. : z > 0 ? z * .5 : 0.); for (int i = 1; i <= nl; ++i) if (v[i] > v[i - 1]) v[i] = v[i - 1]; break; }
     case F_OLEV: {
          bool ends = (c.solvers & (XRTM_SOLVER_DOUB_ADD | XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_PADE_ADD | XRTM_SOLVER_SOS | XRTM_SOLVER_TWO_OS)) != 0;
          if (c.opt(XRTM_OPTION_TOP_DOWN_ADDING)) iv = {nl};
          else if (c.opt(XRTM_OPTION_BOTTOM_UP_ADDING)) iv = {0};
          else if (ends) iv = c.n_out_levels == 1 ? VI{c.solvers & XRTM_SOLVER_TWO_OS || r.chance(.5) ? 0 : nl} : VI{0, nl};
          else { VI all; for (int i = 0; i <= nl; ++i) all.push_back(i); while ((int) all.size() > c.n_out_levels) all.erase(all.begin() + r.below((int) all.size())); iv = all; }
          break;
     }
     case F_OTAU: { double t = 0; bool full = true; for (int i = 0; i < nl; ++i) { t += in.ltau[i]; full &= in.hltau[i] != 0; } if (!full || t <= 0) t = 1e-3; VD q; for (int i = 0; i < c.n_out_levels; ++i) q.push_back(t * r.u(0., .98)); if (gen_near && q.size() > 1 && r.chance(.25)) { size_t i = 1 + r.below((int) q.size() - 1); q[i] = std::min(t * .99, q[i-1] + r.pick({1e-6, 1e-4, 1e-3})); } if (edge && r.chance(.2)) q[0] = 0.; if (edge && r.chance(.1) && nl > 1) q.back() = in.hltau[0] ? in.ltau[0] : q.back(); std::sort(q.begin(), q.end()); for (size_t i = 1; i < q.size(); ++i) if (q[i] <= q[i - 1]) q[i] = q[i - 1] + 1e-4 * t; v = q; break; }
     case F_OTHETA: for (int i = 0; i < c.n_out_thetas; ++i) v.push_back(gtheta(r, edge));
          if (gen_near && c.opt(XRTM_OPTION_SFI) && v.size() > 1 && r.chance(.3)) { size_t i = 1 + r.below((int) v.size() - 1); v[i] = std::min(85., v[i-1] + r.pick({1e-3, .01, .05, .3})); }   /* output angles that are almost the same */
          break;
     case F_FTOP: case F_FBOT: v = {r.chance(.5) ? 0. : r.u(0., 2.)}; break;
     case F_F0: v = {edge && r.chance(.08) ? 0. : r.u(.5, 4.)}; break;
     case F_THETA0: v = {gtheta(r, edge)}; break;
     case F_PHI0: v = {r.u(0., 360.)}; break;
     case F_LEVB: for (int i = 0; i <= nl; ++i) v.push_back(edge && r.chance(.1) ? 0. : r.u(.1, 3.)); break;
     case F_SURFB: v = {edge && r.chance(.2) ? 0. : r.u(.1, 3.)}; break;
     case F_COEF: { i0 = lay(); int n = i0 < 0 ? nl : 1; bool all = r.chance(.15); for (int i = 0; i < n; ++i) { int k = all ? -1 : r.chance(.5) ? c.max_coef : r.range(1, c.max_coef); iv.push_back(k); hg(r, c, k < 0 ? c.max_coef : k, v, edge); } break; }
     case F_OMEGA: i0 = lay(); for (int i = 0; i < (i0 < 0 ? nl : 1); ++i) v.push_back(edge && r.chance(.15) ? r.pick({0., 1., .999999}) : r.u(.05, .99)); break;
     case F_LTAU: i0 = lay(); for (int i = 0; i < (i0 < 0 ? nl : 1); ++i) v.push_back(edge && r.chance(.08) ? r.pick({1e-8, 20.}) : r.logu(1e-3, 4.)); break;
     case F_KAMP: i0 = r.below(c.n_kernels()); v = {edge && r.chance(.15) ? 0. : r.u(.02, .45)}; break;
     case F_KPAR: { VI ks; for (int k = 0; k < c.n_kernels(); ++k) if (kernel_npar(c.kernels[k])) ks.push_back(k); i0 = r.pick(ks); int n = kernel_npar(c.kernels[i0]); if (r.chance(.5)) for (int p = 0; p < n; ++p) v.push_back(kpar_val(r, c.kernels[i0], p)); else { i1 = r.below(n); v = {kpar_val(r, c.kernels[i0], i1)}; } break; }
     case F_KFUNC: { VI ks; for (int k = 0; k < c.n_kernels(); ++k) if (c.kernels[k] == 10) ks.push_back(k); i0 = r.pick(ks); iv = {r.range(1, 2)}; break; }
     case F_FTOP_L: case F_FBOT_L: case F_SURFB_L: if (r.chance(.5)) { for (int j = 0; j < nd; ++j) v.push_back(lval(r)); } else { i1 = r.below(nd); v = {lval(r)}; } break;
     case F_LEVB_L: { if (r.chance(.5)) i1 = r.below(nd); int n = i1 < 0 ? nd : 1; for (int j = 0; j < n; ++j) { bool z = r.chance(.4); for (int i = 0; i <= nl; ++i) v.push_back(z ? 0. : lval(r)); } break; }
     case F_COEF_L: { i0 = lay(); i1 = r.chance(.4) ? -1 : r.below(nd); int ni = i0 < 0 ? nl : 1, nj = i1 < 0 ? nd : 1;
          for (int i = 0; i < ni; ++i) for (int j = 0; j < nj; ++j) { bool z = r.chance(.4); for (int e = 0; e < ne; ++e) for (int k = 0; k < c.max_coef; ++k) v.push_back(z || k == 0 ? 0. : r.u(-.5, .5)); } break; }
     case F_OMEGA_L: case F_LTAU_L: { i0 = lay(); i1 = r.chance(.4) ? -1 : r.below(nd); int n = (i0 < 0 ? nl : 1) * (i1 < 0 ? nd : 1); for (int i = 0; i < n; ++i) v.push_back(lval(r)); break; }
     case F_KAMP_L: i0 = r.below(c.n_kernels()); i1 = r.chance(.4) ? -1 : r.below(nd); for (int j = 0; j < (i1 < 0 ? nd : 1); ++j) v.push_back(lval(r)); break;
     case F_KPAR_L: { VI ks; for (int k = 0; k < c.n_kernels(); ++k) if (kernel_npar(c.kernels[k])) ks.push_back(k); i0 = r.pick(ks); int n = kernel_npar(c.kernels[i0]); i1 = r.chance(.4) ? -1 : r.below(nd); i2 = r.chance(.4) ? -1 : r.below(n); int m = (i1 < 0 ? nd : 1) * (i2 < 0 ? n : 1); for (int q = 0; q < m; ++q) v.push_back(lval(r)); break; }
     }
     return mkset(inst, f, i0, i1, i2, iv, v);
}

Op gen_solve(Rng &r, const Inputs &in, int inst, int solver) {
     const Config &c = in.c;
     if (!solver) { VI av; for (int s : ALLS) if (s & c.solvers) av.push_back(s); solver = r.pick(av); }
     int out = solver == XRTM_SOLVER_SINGLE ? 1 : r.chance(.55) ? 1 : r.chance(.4) ? 7 : r.range(1, 7);
     out &= domain_outputs(c, solver); if (!out) out = 1;
     int np = (out & 1) ? r.pick({1, 1, 2, 3}) : 0;
     Op o = mk(inst, O_SOLVE); o.iv = {solver, out, np, (out == 1 || out == 2 || out == 4) && r.chance(.4)};
     for (int i = 0; i < c.n_out2() * np; ++i) o.dv.push_back(r.chance(.1) ? 0. : r.u(0., 360.));
     return o;
}

/* Set every required input, in random order and at random granularity. */
void gen_setup(Rng &r, Inputs &in, int inst, std::vector<Op> &ops, double p_skip_lin, bool adjoint) {
     const Config &c = in.c;
     auto push = [&](const Op &o) { if (in.set_expect(o) == 1) { ops.push_back(o); in.set_apply(o); } };
     std::vector<int> pending;
     for (int pass = 0; pass < 400; ++pass) {
          pending.clear();
          for (int f : settable(in, false)) {
               bool done;
               switch (f) {
               case F_LAMBDA: done = true; break;
               case F_COEF: done = std::find(in.hcoef.begin(), in.hcoef.end(), 0) == in.hcoef.end(); break;
               case F_OMEGA: done = std::find(in.homega.begin(), in.homega.end(), 0) == in.homega.end(); break;
               case F_LTAU: done = std::find(in.hltau.begin(), in.hltau.end(), 0) == in.hltau.end(); break;
               case F_KAMP: done = std::find(in.hkamp.begin(), in.hkamp.end(), 0) == in.hkamp.end(); break;
               case F_KPAR: done = true; for (auto &h : in.hkpar) for (int x : h) if (!x) done = false; break;
               case F_KFUNC: done = true; for (int k = 0; k < c.n_kernels(); ++k) if (c.kernels[k] == 10 && !in.kfunc[k]) done = false; break;
               case F_OTAU: { bool full = std::find(in.hltau.begin(), in.hltau.end(), 0) == in.hltau.end(); double t = 0; for (double x : in.ltau) t += x; done = in.has[f] && !(full && in.otau.back() > t); break; }
               default: done = in.has[f];
               }
               if (!done) pending.push_back(f);
          }
          if (pending.empty()) break;
          push(gen_set(r, in, inst, r.pick(pending)));
     }
     if (c.n_derivs) {
          int n = r.chance(p_skip_lin) ? r.range(0, 2) : r.range(2, 7); VI l = settable(in, true); if (adjoint) { VI k; for (int f : l) if (f == F_OMEGA_L || f == F_LTAU_L || f == F_COEF_L || f == F_KAMP_L) k.push_back(f); l = k; }
          for (int i = 0; i < n; ++i) push(gen_set(r, in, inst, r.pick(l)));
          if (in.need_update || in.trimmed) { ops.push_back(mk(inst, O_UPDATE)); in.updated(); }
     }
}

/* A creation the interface must reject: a valid configuration with one or two things changed that do not go together. */
bool gen_bad_config(Rng &r, const Config &ok, Config &out) {
     for (int tries = 0; tries < 200; ++tries) {
          Config c = ok; int n = r.pick({1, 1, 1, 2, 2, 3});
          for (int i = 0; i < n; ++i) switch (r.below(9)) {
          case 0: case 1: case 2: c.options ^= 1u << r.range(0, 31); break;
          case 3: case 4: c.solvers ^= ALLS[r.below(11)]; break;
          case 5: c.n_derivs = r.pick({0, 1, 2}); break;
          case 6: c.n_out_thetas = r.pick({0, 1, 2}); break;
          case 7: c.n_out_levels = r.range(1, 4); break;
          case 8: if (r.chance(.5)) c.n_stokes = r.range(1, 4); else if (r.chance(.5)) c.n_quad = r.range(1, 4); else c.max_coef = std::max(1, 2 * c.n_quad + r.range(-1, 1)); break;
          }
          if (!config_ok(c)) { out = c; return true; }
     }
     return false;
}

/* A call the interface must reject. */
Op gen_bad(Rng &r, const Inputs &in, int inst) {
     const Config &c = in.c;
     for (int tries = 0; tries < 500; ++tries) {
          if (r.chance(.15)) {   /* a solution that must be refused */
               Op o = gen_solve(r, in, inst);
               int w = r.below(5);
               if (w == 0) o.iv[0] = ALLS[r.below(11)];
               else if (w == 1) { o.iv[1] = 0; o.iv[3] = 0; }
               else if (w == 2 && (o.iv[1] & 1)) { o.iv[2] = r.pick({0, -1}); o.dv.clear(); }
               else if (w == 3) o.iv[0] = 1 << r.range(11, 20);
               if (o.iv[0] & (o.iv[0] - 1)) continue;
               if (in.solve_expect(o) == 0) return o;
               continue;
          }
          VI l = settable(in, r.chance(.35)); Op o;
          int kind = r.below(10);
          if (kind < 6 && !l.empty()) {
               int f = r.pick(l); o = gen_set(r, in, inst, f);
               VD &v = o.dv; int *iv = o.iv.data();
               auto idx = [&](int n) { return r.pick({-2, -7, n, n + 1, n + 5}); };
               switch (f) {
               case F_COEF: {
                    int m = r.below(4); int nl = iv[1] == -1 ? c.n_layers : 1;
                    if (m == 0) { iv[1] = idx(c.n_layers); if (nl > 1) continue; }
                    else if (m == 1) { int q = r.below(nl); if (iv[5] < 0) continue; int n = c.max_coef + r.range(1, 3); iv[5 + q] = n; v.clear(); for (int i = 0; i < nl; ++i) hg(r, c, iv[5 + i], v, false); }
                    else { int q = r.below(nl); size_t off = 0; for (int i = 0; i < q; ++i) off += (size_t) (iv[5 + i] < 0 ? c.max_coef : iv[5 + i]) * c.n_elem(); int n = iv[5 + q] < 0 ? c.max_coef : iv[5 + q]; if (n < 2) continue; v[off] = r.pick({0., .9, 1.1, -1.}); }
                    break;
               }
               case F_OMEGA: if (r.chance(.5)) v[r.below((int) v.size())] = r.pick({-.1, 1.1, 2., -1e-9}); else if (iv[1] >= 0) iv[1] = idx(c.n_layers); break;
               case F_LTAU: if (r.chance(.5)) v[r.below((int) v.size())] = r.pick({0., -.1}); else if (iv[1] >= 0) iv[1] = idx(c.n_layers); break;
               case F_KAMP: if (r.chance(.5)) v[0] = r.pick({-.1, 1.2}); else iv[1] = idx(c.n_kernels()); break;
               case F_KPAR: if (r.chance(.5)) iv[1] = idx(c.n_kernels()); else { iv[2] = idx(kernel_npar(c.kernels[iv[1]])); v = {.1}; } break;
               case F_KFUNC: iv[1] = idx(c.n_kernels()); break;
               case F_PADE: iv[6] = r.pick({32, 33, 40, 100, 1000}); break;
               case F_LEVZ: { int q = r.range(1, c.n_layers); v[q] = v[q - 1] + 10.; break; }
               case F_OLEV: { int q = r.below(c.n_out_levels); iv[5 + q] = r.pick({-1, c.n_layers + 1, q ? iv[5 + q - 1] : -2, c.n_layers / 2}); break; }
               case F_OTAU: v[r.below((int) v.size())] = -.01; break;
               case F_OTHETA: v[r.below((int) v.size())] = r.pick({-1., 90., 120.}); break;
               case F_THETA0: v[0] = r.pick({-1., 90., 100.}); break;
               case F_LEVB: v[r.below((int) v.size())] = -.5; break;
               case F_DOUB: case F_LAMBDA: case F_RADIUS: v[0] = r.pick({0., -1.}); break;
               case F_SOS: { int m = r.below(3); if (m == 0) iv[5] = r.pick({0, -2}); else if (m == 1) v[0] = r.pick({0., -.1}); else v[1] = -1e-3; break; }
               case F_FTOL: case F_FTOP: case F_FBOT: case F_F0: case F_SURFB: v[0] = r.pick({-1., -1e-6}); break;
               case F_FTOP_L: case F_FBOT_L: case F_SURFB_L: case F_LEVB_L: if (iv[2] == -1) continue; iv[2] = idx(c.n_derivs); break;
               case F_COEF_L: case F_OMEGA_L: case F_LTAU_L: if (r.chance(.5)) { if (iv[1] == -1) continue; iv[1] = idx(c.n_layers); } else { if (iv[2] == -1) continue; iv[2] = idx(c.n_derivs); } break;
               case F_KAMP_L: if (r.chance(.5)) iv[1] = idx(c.n_kernels()); else { if (iv[2] == -1) continue; iv[2] = idx(c.n_derivs); } break;
               case F_KPAR_L: { int m = r.below(3); if (m == 0) { iv[1] = idx(c.n_kernels()); } else if (m == 1) { if (iv[2] == -1) continue; iv[2] = idx(c.n_derivs); } else { if (iv[3] == -1) continue; iv[3] = idx(kernel_npar(c.kernels[iv[1]])); } v.resize(64, .1); break; }
               default: continue;
               }
          } else {   /* an input the instance was not created for */
               int f = r.pick({F_G, F_DOUB, F_SOS, F_LAMBDA, F_RADIUS, F_LEVZ, F_OLEV, F_OTAU, F_OTHETA, F_F0, F_THETA0, F_PHI0, F_LEVB, F_SURFB, F_KAMP, F_KPAR, F_KFUNC,
                    F_FTOP_L, F_FBOT_L, F_LEVB_L, F_SURFB_L, F_G_L, F_COEF_L, F_OMEGA_L, F_LTAU_L, F_KAMP_L, F_KPAR_L});
               VD v(256, .5); VI iv; int i0 = r.pick({-1, 0}), i1 = r.pick({-1, 0});
               if (f == F_LEVZ) for (size_t i = 0; i < v.size(); ++i) v[i] = 256. - (double) i;
               if (f == F_OLEV) for (int i = 0; i < c.n_out_levels; ++i) iv.push_back(i);
               if (f == F_KFUNC) iv = {1}; if (f == F_SOS) { iv = {r.pick({0, -1, 3})}; v[0] = r.pick({-.1, .1}); v[1] = -.1; } if (f == F_DOUB) v[0] = r.pick({0., -.1});
               if (f == F_KAMP || f == F_KPAR || f == F_KFUNC || f == F_KAMP_L || f == F_KPAR_L) i0 = 0;
               o = mkset(inst, f, i0, i1, -1, iv, v);
               if (is_linear(f) && c.n_derivs == 0) o.dv.assign(1024, .5);
          }
          if (in.set_expect(o) == 0) return o;
     }
     Op o = mkset(inst, F_FTOL, -1, -1, -1, {}, {-1.}); return o;
}
