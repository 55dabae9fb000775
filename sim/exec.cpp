#include "exec.h"
#include <math.h>
#include <float.h>
#include <limits.h>
#include <string.h>
#include <algorithm>
#include <sstream>

Api *make_cpp(); Api *make_f77(); Api *make_f90();
#ifndef SIM_BINDINGS
Api *make_api(int kind) { return make_c(kind == 1); }
#endif

std::string fmt(const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const char *solver_name(int s) { const char *n = xrtm_solver_mask_to_name((enum xrtm_solver_mask) s); return n ? n : "?"; }

bool Exec::fail(const std::string &sig, const std::string &what) { if (!v.any()) { v.sig = sig; v.what = what; v.op = cur; } aborted = true; return false; }

static const uint64_t STEP_BUDGET = 400000000ull;
extern "C" uint64_t cov_limit;

template <class F> int Exec::call(Inst &I, const rt_fault *f, F fn) {
     static rt_fault none; volatile int r = -1;
     rt_owner(I.owner); rt_arm(f ? f : &none);
     if (h.stack >= 0) rt_poison_stack((unsigned char) h.stack, h.stack == 256 ? h.seed | 1 : 0);
     uint64_t s0 = cov_steps; cov_limit = s0 + STEP_BUDGET; cov_hash = 0;
     rc = sigsetjmp(rt_env, 1);
     if (!rc) { rt_enter(); r = fn(); rt_leave(); }
     rt_disarm(); rt_owner(0);
     st.steps += cov_steps - s0; st.n["calls"]++; cov_limit = ~0ull;
     if (f && (rt_alloc_fired() || rt_lapack_fired())) { faulted = true; if (P("C12")) st.nontrivial = true; }
     if (f && rt_alloc_fired()) st.n["fault:alloc"] += 1;
     if (f && rt_lapack_fired()) { st.n[std::string("fault:lapack:") + rt_lapack_fired_name()]++; }
     if (rc) { I.lost = true; I.alive = false; }
     return r;
}

bool Exec::do_create(Inst &I, const Config &c, const rt_fault *f, int &status) {
     I.cfg = c; I.lost = false; I.owner = next_owner++; if (next_owner > 60) next_owner = 1;
     if (!I.api) I.api.reset(make_api(h.par.count("api") ? h.par.at("api") : h.seed % 3 == 1));
     status = call(I, f, [&]() { return I.api->create(c); });
     I.alive = !rc && status == 0 && I.api->alive; I.in = Inputs(c);
     return I.alive;
}
void Exec::do_destroy(Inst &I) { if (!I.alive) return; call(I, 0, [&]() { return I.api->destroy(); }); I.alive = false; }

int Exec::do_solve(Inst &I, const Op &o, const rt_fault *f, Outs &r) {
     r.shape(I.cfg, o.iv[2], SENTINEL);
     static std::vector<double *> rows; static VD ph; ph = o.dv; int np = std::max(1, o.iv[2]); ph.resize((size_t) I.cfg.n_out2() * np, 0.);
     rows.resize(I.cfg.n_out2()); for (int i = 0; i < I.cfg.n_out2(); ++i) rows[i] = ph.data() + (size_t) i * np;
     double **ph_ = rows.data();
     r.status = call(I, f, [&]() { return I.api->solve(o, ph_, r); }); r.rc = rc;
     return r.status;
}

/* A solution by a new instance of configuration c that is given only the inputs. */
bool Exec::ref_solve(const Inputs &in, const Config &c, const Op &o, Outs &r, bool no_lin) {
     Inst R; int s; R.api.reset(make_c(false));
     if (!do_create(R, c, 0, s)) { r.shape(c, o.iv[2], SENTINEL); r.status = -9999; return false; }
     for (const Op &q : in.canonical(0)) {
          if ((no_lin || !c.n_derivs) && (q.code == O_UPDATE || is_linear(q.iv[0]))) { if (q.code != O_UPDATE || !c.n_derivs) continue; }
          int x = q.code == O_UPDATE ? call(R, 0, [&]() { return R.api->update(); }) : call(R, 0, [&]() { return R.api->set(q); });
          if (rc || (x && (q.code == O_UPDATE || R.in.set_expect(q) == 1))) { r.shape(c, o.iv[2], SENTINEL); r.status = -9998; do_destroy(R); return false; }
     }
     do_solve(R, o, 0, r); int ok = r.status == 0 && !r.rc; int rc0 = r.rc;
     do_destroy(R); rc = rc0;
     return ok;
}

static bool eqv(double a, double b, double tol, double scale) {
     if (a == b) return true; if (isnan(a) && isnan(b)) return true; if (isnan(a) || isnan(b) || isinf(a) || isinf(b)) return false;
     if (a == SENTINEL || b == SENTINEL) return false;
     return fabs(a - b) <= tol * scale + tol * std::max(fabs(a), fabs(b)) || fabs(a - b) < 1e-13;
}
std::string compare(const Outs &a, const Outs &b, double tol, unsigned mask, bool *exact, double floor) {
     if (exact) *exact = true;
     for (int k = 0; k < 12; ++k) if (mask >> k & 1) {
          if (a.d[k].size() != b.d[k].size()) return fmt("%s: sizes differ", out_name[k]);
          double sc = 0; for (double x : b.d[k]) if (x != SENTINEL && isfinite(x)) sc = std::max(sc, fabs(x));
          for (size_t i = 0; i < a.d[k].size(); ++i) {
               if (exact && memcmp(&a.d[k][i], &b.d[k][i], 8)) *exact = false;
               if (!eqv(a.d[k][i], b.d[k][i], tol, sc) && !(fabs(a.d[k][i] - b.d[k][i]) <= floor)) return fmt("%s[%zu]: %.17g, expected %.17g", out_name[k], i, a.d[k][i], b.d[k][i]);
          }
     }
     return "";
}
static bool has_nan(const Outs &a) { for (int k = 0; k < 12; ++k) for (double x : a.d[k]) if (!isfinite(x)) return true; return false; }
static bool all_zero(const Outs &a) { for (int k = 0; k < 12; ++k) for (double x : a.d[k]) if (x != SENTINEL && x != 0.) return false; return true; }

/*------------------------------------------------------------- getters */
std::vector<Expect> expected(const Inputs &in, bool refused) {
     const Config &c = in.c; std::vector<Expect> e; int nl = c.n_layers, nd = c.n_derivs;
     auto E = [&](int f, int a, int b, int d, int g, bool set, const VD &v, int cmp = 0) { e.push_back({{f, a, b, d, g}, set, v, cmp}); };
     if (c.solvers & XRTM_SOLVER_DOUB_ADD) E(F_DOUB, 0, 0, 0, 0, in.has[F_DOUB], {in.sc[F_DOUB]});
     if (c.solvers & XRTM_SOLVER_PADE_ADD) E(F_PADE, 0, 0, 0, 0, in.has[F_PADE], {(double) in.pade_s, (double) in.pade_r});
     if (c.solvers & XRTM_SOLVER_SOS) E(F_SOS, 0, 0, 0, 0, in.has[F_SOS], {(double) in.sos_n, in.sos_tau, in.sos_tol});
     E(F_FTOL, 0, 0, 0, 0, in.has[F_FTOL], {in.sc[F_FTOL]}); if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) E(F_LAMBDA, 0, 0, 0, 0, in.has[F_LAMBDA], {in.sc[F_LAMBDA]});
     if (c.opt(XRTM_OPTION_PSA)) { E(F_RADIUS, 0, 0, 0, 0, in.has[F_RADIUS], {in.sc[F_RADIUS]}); E(F_LEVZ, 0, 0, 0, 0, in.has[F_LEVZ], in.levz); }
     if (c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS)) E(F_OLEV, 0, 0, 0, 0, in.has[F_OLEV], VD(in.olev.begin(), in.olev.end()));
     if (c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) E(F_OTAU, 0, 0, 0, 0, in.has[F_OTAU], in.otau);
     if (c.n_out_thetas) E(F_OTHETA, 0, 0, 0, 0, in.has[F_OTHETA], in.otheta, 1);
     for (int f : {F_FTOP, F_FBOT}) E(f, 0, 0, 0, 0, in.has[f], {in.sc[f]});
     if (c.opt(XRTM_OPTION_SOURCE_SOLAR)) { E(F_F0, 0, 0, 0, 0, in.has[F_F0], {in.sc[F_F0]}); E(F_THETA0, 0, 0, 0, 0, in.has[F_THETA0], {in.sc[F_THETA0]}, 1); E(F_PHI0, 0, 0, 0, 0, in.has[F_PHI0], {in.sc[F_PHI0]}); }
     if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) { E(F_LEVB, 0, 0, 0, 0, in.has[F_LEVB], in.levb); E(F_SURFB, 0, 0, 0, 0, in.has[F_SURFB], {in.sc[F_SURFB]}); }
     for (int i = 0; i < nl; ++i) {
          E(F_COEF, i, -100, 0, 0, in.hcoef[i], {(double) in.n_coef[i]});
          for (int m = 0; m < c.n_elem(); ++m) for (int k = 0; k < in.n_coef[i]; ++k) E(F_COEF, i, m, k, 0, in.hcoef[i], {in.coef[i][m * c.max_coef + k]});
          E(F_OMEGA, i, 0, 0, 0, in.homega[i], {in.omega[i]}, 2); E(F_LTAU, i, 0, 0, 0, in.hltau[i], {in.ltau[i]});
     }
     for (int k = 0; k < c.n_kernels(); ++k) {
          E(F_KFUNC, k, -100, 0, 0, true, {(double) c.kernels[k]});
          E(F_KAMP, k, 0, 0, 0, in.hkamp[k], {in.kamp[k]});
          for (size_t p = 0; p < in.kpar[k].size(); ++p) E(F_KPAR, k, (int) p, 0, 0, in.hkpar[k][p], {in.kpar[k][p]});
     }
     for (int j = 0; j < nd; ++j) {
          E(F_FTOP_L, j, 0, 0, 0, true, {in.ftop_l[j]}); E(F_FBOT_L, j, 0, 0, 0, true, {in.fbot_l[j]});
          if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) { E(F_SURFB_L, j, 0, 0, 0, true, {in.surfb_l[j]}); E(F_LEVB_L, j, 0, 0, 0, true, in.levb_l[j]); }
          for (int i = 0; i < nl; ++i) {
               E(F_OMEGA_L, i, j, 0, 0, true, {in.omega_l[i][j]}); E(F_LTAU_L, i, j, 0, 0, true, {in.ltau_l[i][j]});
               if (in.hcoef[i]) for (int m = 0; m < c.n_elem(); ++m) for (int k = 0; k < in.n_coef[i]; ++k) E(F_COEF_L, i, j, m, k, true, {in.coef_l[i][j][m * c.max_coef + k]});
          }
          for (int k = 0; k < c.n_kernels(); ++k) { E(F_KAMP_L, k, j, 0, 0, true, {in.kamp_l[k][j]}); for (size_t p = 0; p < in.kpar[k].size(); ++p) E(F_KPAR_L, k, j, (int) p, 0, true, {in.kpar_l[k][j][p]}); }
     }
     if (!refused) return e;
     /* What the instance was not created for, and indexes outside its dimensions: the getter must return the error value. */
     auto R = [&](int f, int a = 0, int b = 0, int x = 0, int y = 0) { E(f, a, b, x, y, false, {}); };
     bool solar = c.opt(XRTM_OPTION_SOURCE_SOLAR), thermal = c.opt(XRTM_OPTION_SOURCE_THERMAL), lin = c.opt(XRTM_OPTION_CALC_DERIVS);
     if (!(c.solvers & XRTM_SOLVER_DOUB_ADD)) R(F_DOUB);
     if (!(c.solvers & XRTM_SOLVER_PADE_ADD)) R(F_PADE);
     if (!(c.solvers & XRTM_SOLVER_SOS)) R(F_SOS);
     if (!c.opt(XRTM_OPTION_PSA)) { R(F_RADIUS); R(F_LEVZ); }
     if (!c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS)) R(F_OLEV);
     if (!c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) R(F_OTAU);
     if (!c.n_out_thetas) R(F_OTHETA);
     if (!solar) { R(F_F0); R(F_THETA0); }
     if (!thermal) { R(F_LAMBDA); R(F_LEVB); R(F_SURFB); }
     R(F_G); R(F_G_L);
     for (int w : {-1, 0, 7}) {
          int l = w < 0 ? -1 : nl + w, k = w < 0 ? -1 : c.n_kernels() + w, j = w < 0 ? -1 : nd + w;
          R(F_OMEGA, l); R(F_LTAU, l); R(F_COEF, l, -100); R(F_COEF, l); R(F_KAMP, k); R(F_KPAR, k);
          if (in.hcoef[0]) { R(F_COEF, 0, w < 0 ? -1 : c.n_elem() + w); R(F_COEF, 0, 0, w < 0 ? -1 : in.n_coef[0] + w); }
          if (c.n_kernels()) R(F_KPAR, 0, w < 0 ? -1 : (int) in.kpar[0].size() + w);
          R(F_FTOP_L, j); R(F_FBOT_L, j); R(F_OMEGA_L, 0, j); R(F_LTAU_L, 0, j); R(F_COEF_L, 0, j);
          if (thermal) { R(F_LEVB_L, j); R(F_SURFB_L, j); }
          if (c.n_kernels()) { R(F_KAMP_L, 0, j); if (!in.kpar[0].empty()) R(F_KPAR_L, 0, j, 0); }
          if (lin && nd) {
               R(F_OMEGA_L, l, 0); R(F_LTAU_L, l, 0); R(F_COEF_L, l, 0); R(F_KAMP_L, k, 0); R(F_KPAR_L, k, 0, 0);
               if (in.hcoef[0]) { R(F_COEF_L, 0, 0, w < 0 ? -1 : c.n_elem() + w); R(F_COEF_L, 0, 0, 0, w < 0 ? -1 : in.n_coef[0] + w); }
               if (c.n_kernels()) R(F_KPAR_L, 0, 0, w < 0 ? -1 : (int) in.kpar[0].size() + w);
          }
     }
     if (!thermal) { R(F_LEVB_L); R(F_SURFB_L); }
     return e;
}
std::string Exec::check_getters(Inst &I) {
     static std::vector<Expect> es; es = expected(I.in, cur % 12 == 0 || cur + 1 == (int) h.ops.size());
     static GetR g; static std::string bad; bad.clear(); static const Expect *E;
     for (const Expect &e : es) {
          E = &e;
          call(I, 0, [&]() { g = I.api->get(E->g, I.cfg); return 0; });
          if (rc) { return fmt("getter of %s ended abnormally", field_name[e.g.field]); }
          st.n["getter reads"]++; if (P("C06")) st.nontrivial = true;
          if (!e.set) { if (g.status != 1) return fmt("getter of unset %s[%d,%d] gives status %d value %g instead of the error value", field_name[e.g.field], e.g.i0, e.g.i1, g.status, g.v.empty() ? 0 : g.v[0]); continue; }
          if (g.status) return fmt("getter of %s[%d,%d,%d] fails (status %d) although the input is set", field_name[e.g.field], e.g.i0, e.g.i1, e.g.i2, g.status);
          for (size_t i = 0; i < e.v.size(); ++i) {
               double x = g.v[i], y = e.v[i]; bool ok;
               if (e.cmp == 1) ok = fabs(x - y) < 2e-6; else if (e.cmp == 2) ok = x == y || (y > 1. - 1.01e-5 && fabs(x - y) < 1.1e-5); else ok = x == y;
               if (!ok) return fmt("getter of %s[%d,%d,%d,%d] gives %.17g, last accepted %.17g", field_name[e.g.field], e.g.i0, e.g.i1, e.g.i2, e.g.i3, x, y);
          }
     }
     return "";
}

/*------------------------------------------------------------ operations */
void Exec::note(const std::string &label, const void *p, size_t n) {
     if (!want_transcript) return;
     transcript.push_back(fnv(p, n)); tlabel.push_back(label);
}
static void note_outs(Exec &x, const std::string &l, const Outs &r) {
     static const bool loud = getenv("SIM_LOUD") != 0;   /* development: show the values */
     if (loud && !r.status) for (int k = 0; k < 12; ++k) if (!r.d[k].empty()) { fprintf(stderr, "%s %s:", l.c_str(), out_name[k]); for (size_t i = 0; i < r.d[k].size() && i < 60; ++i) fprintf(stderr, " %.9g", r.d[k][i]); fprintf(stderr, "\n"); }
     if (!x.want_transcript) return;
     x.note(l + " status", &r.status, sizeof r.status);
     if (r.status) return;
     for (int k = 0; k < 12; ++k) { VD t = r.d[k]; for (double &y : t) if (isnan(y)) y = NAN; else if (y == 0.) y = 0.; x.note(l + " " + out_name[k], t.data(), t.size() * 8); }
}

static std::string abn(int rc) { return rc == RT_EXIT ? fmt("process exit with status %d", rt_exit_status) : rt_signal == 999 ? std::string("no return within the step budget") : fmt("signal %d", rt_signal); }

/* Abnormal ends belong to C12; for the other properties one is a violation only when the same call
   by a new instance with the same inputs ends normally. */
static Inputs one_direction(const Inputs &in, int j, double k);
static const unsigned SAVES = XRTM_OPTION_SAVE_LEG_POLYS | XRTM_OPTION_SAVE_PHASE_MATS | XRTM_OPTION_SAVE_LOCAL_R_T | XRTM_OPTION_SAVE_LAYER_R_T_S | XRTM_OPTION_SAVE_TOTAL_R_T_S | XRTM_OPTION_STACK_REUSE_ADDING;
bool Exec::ref_abnormal(Inst &I, const Op &o) {
     bool bad = false; rt_heap_knobs k = h.heap; int rc0 = rc;
     for (int f : {h.heap.fill, (int) FILL_RANDOM, (int) FILL_BIG, (int) FILL_ZERO}) {
          k.fill = f; k.fill_seed += 77; k.reuse = 0; rt_set_knobs(&k);
          if (o.code == O_SOLVE) { static Outs b; ref_solve(I.in, I.cfg, o, b, false); bad |= b.rc != 0 || b.status == -9999 || b.status == -9998; }
          else {
               Inst R; int s; R.api.reset(make_c(false)); if (!do_create(R, I.cfg, 0, s)) { bad = true; break; }
               for (const Op &q : I.in.canonical(0)) { if (q.code == O_SET) call(R, 0, [&]() { return R.api->set(q); }); else call(R, 0, [&]() { return R.api->update(); }); if (rc) break; }
               if (!rc) { if (o.code == O_SET) call(R, 0, [&]() { return R.api->set(o); }); else if (o.code == O_UPDATE) call(R, 0, [&]() { return R.api->update(); }); }
               bad |= rc != 0; do_destroy(R);
          }
     }
     if (bad && o.code == O_SOLVE) {   /* the same solution taken apart as this property says it may be: when every part ends normally, the whole has to */
          struct Part { Inputs in; Config c; Op o; }; std::vector<Part> parts; const Config &c = I.cfg;
          if (P("C28") && c.n_derivs > 1) for (int j = 0; j < c.n_derivs; ++j) parts.push_back({one_direction(I.in, j, 1.), c, o});
          if (P("C03")) { Config n = c; n.options &= ~SAVES; if (n.options != c.options) parts.push_back({I.in, n, o}); }
          if (P("C22")) { Config n = c; n.solvers = o.iv[0]; if (n.solvers != c.solvers && config_ok(n)) parts.push_back({I.in, n, o}); }
          if (P("C21")) for (int bit = 1; bit <= 4; bit <<= 1) if (o.iv[1] & bit && o.iv[1] != bit) { Op q = o; q.iv[1] = bit; if (bit != 1) { q.iv[2] = 0; q.dv.clear(); } parts.push_back({I.in, c, q}); }
          if (P("C29") && c.n_out_levels > 1) for (int L = 0; L < c.n_out_levels; ++L) {
               Inputs in = I.in; in.c.n_out_levels = 1; if (in.olev.size()) in.olev = VI(1, in.olev[L]); if (in.otau.size()) in.otau = VD(1, in.otau[L]);
               if (in.has[F_OLEV] && in.set_expect(mkset(0, F_OLEV, -1, -1, -1, in.olev, {})) != 1) continue;
               parts.push_back({in, in.c, o});
          }
          bool part = false;
          for (const Part &x : parts) { k.fill = h.heap.fill; k.fill_seed += 77; rt_set_knobs(&k); static Outs b; ref_solve(x.in, x.c, x.o, b, false); part |= b.rc != 0 || b.status != 0; }
          if (!parts.empty()) bad = part;
     }
     rt_set_knobs(&h.heap); rc = rc0;
     return bad;
}
#define ABNORMAL(I, fn) \
     if (rc) { st.n["abnormal ends"]++; if (want_transcript) note(std::string(fn) + " abnormal end", &rc, sizeof rc); bool af_ = rt_alloc_fired() > 0, lf_ = rt_lapack_fired() > 0; std::string ln_ = rt_lapack_fired_name(); int rc_ = rc, sg_ = rt_signal; std::string ab_ = abn(rc); \
          bool mine = P("C12") || ((P("C07") || P("C08")) && af_); \
          if (!mine && !af_ && !lf_) { mine = rc_ == RT_SIGNAL && !ref_abnormal(I, o); if (!mine) st.n["abnormal ends left to C12"]++; } \
          if (mine) fail(h.prop + " " + (rc_ == RT_EXIT ? "exit" : sg_ == 999 ? "hang" : "signal") + " " + fn + (lf_ ? std::string(" lapack ") + ln_ : af_ ? " alloc" : ""), std::string(fn) + " ended by " + ab_); \
          aborted = true; return; }

void Exec::op_create(const Op &o) {
     Inst &I = inst[o.inst]; if (I.alive) return;
     int idx = o.iv.empty() ? o.inst : o.iv[0]; const Config &c = h.cfg[idx]; int s; bool good = config_ok(c);
     if (o.f.alloc_k < 0 && good) {   /* every single allocation of this creation fails once, alone and with all that follow */
          for (int persist = 0; persist < 2; ++persist) for (long k = 1;; ++k) {
               rt_fault f = {k, persist, 0, 0}; if (k > 1) next_owner = I.owner; do_create(I, c, &f, s); st.n["creations with a failed allocation"]++;
               bool fired = rt_alloc_fired() > 0; std::string at = fmt(" (allocation %ld%s fails)", k, persist ? " and all later ones" : "");
               if (rc) { if (P("C07") || P("C12")) fail(h.prop + " create abnormal alloc", "xrtm_create ended by " + abn(rc) + at); aborted = true; return; }
               if (!fired) {
                    if (!I.alive) { fail(h.prop + " create rejected", "a valid creation is rejected"); return; }
                    st.n["allocations of a creation failed one by one"] += k - 1; st.nontrivial |= k > 20;
                    if (persist == 0) { do_destroy(I); if (rc) { aborted = true; return; } if (rt_live_blocks_of(I.owner)) { fail(h.prop + " leak", "memory left after destruction"); return; } }
                    break;
               }
               char msg[300];
               if (I.alive) { fail("C07 create unreported", "creation returns success although an allocation failed" + at); return; }
               if (s != XRTM_INT_ERROR) { fail("C07 create status", fmt("failed creation returns %d, not the error value", s) + at); return; }
               if (rt_live_blocks_of(I.owner)) { fail("C07 create leak alloc", fmt("failed creation leaves %ld blocks (%zu bytes) allocated", rt_live_blocks_of(I.owner), rt_live_bytes_of(I.owner)) + at); return; }
               if (k % 16 == 1 && rt_check_heap(msg, sizeof msg)) { fail("C07 heap create", msg + at); return; }
               if (k > 20000) { aborted = true; return; }
          }
          st.n["creations"]++; return;
     }
     do_create(I, c, &o.f, s); bool fired = rt_alloc_fired() > 0;
     info[cur] = {rt_alloc_seen(), rt_lapack_seen(), s, true};
     ABNORMAL(I, "xrtm_create");
     note("create", &s, sizeof s);
     if (!I.alive) {
          st.n["creations failed"]++;
          if (s != XRTM_INT_ERROR) { fail(h.prop + " create status", fmt("xrtm_create failed with status %d, not the error value", s)); return; }
          if (!fired && good) { if (P("C05") || P("C07") || P("C01") || P("C12")) fail(h.prop + " create rejected", "a valid creation is rejected"); aborted = true; return; }
          if (P("C07") || P("C10")) if (rt_live_blocks_of(I.owner)) fail(h.prop + (fired ? " create leak alloc" : " create leak args"), fmt("failed creation leaves %ld blocks (%zu bytes) allocated", rt_live_blocks_of(I.owner), rt_live_bytes_of(I.owner)));
          return;
     }
     if (!good) { if (P("C05") || P("C07")) fail(h.prop + " create accepted", "an invalid creation is accepted"); aborted = true; return; }
     if (fired && P("C07")) { fail("C07 create unreported", "creation returns success although an allocation failed"); return; }
     st.n["creations"]++;
     if (P("C01") || P("C06")) {
          int i = I.api->counts_bad(c); if (i) { fail(h.prop + " counts", fmt("instance property %d does not read as created", i - 1)); return; }
     }
}
int Api::counts_bad(const Config &c) {
          int v[64], n = counts(v); int w[64], m = 0;
          w[m++] = (int) implied(c); w[m++] = c.solvers; w[m++] = c.max_coef; w[m++] = c.n_quad; w[m++] = c.n_stokes; w[m++] = c.n_derivs; w[m++] = c.n_layers; w[m++] = c.n_kernels(); w[m++] = c.n_kernels() ? c.n_kernel_quad : 0; w[m++] = c.n_out_levels; w[m++] = c.n_out_thetas; w[m++] = c.n_out2(); w[m++] = c.n_elem();
          for (int k : c.kernels) w[m++] = k;
          for (int i = 0; i < m && i < n; ++i) if (v[i] != w[i]) return i + 1;
          return 0;
}

std::string Exec::retry_set(Inst &I, const Op &o) {   /* would a new instance with the same inputs accept it? */
     Inst R; int s; R.api.reset(make_c(false)); if (!do_create(R, I.cfg, 0, s)) return "";
     for (const Op &q : I.in.canonical(0)) if (q.code == O_SET) call(R, 0, [&]() { return R.api->set(q); }); else call(R, 0, [&]() { return R.api->update(); });
     int x = call(R, 0, [&]() { return R.api->set(o); }); do_destroy(R);
     return x == 0 ? "accepted by a new instance with the same inputs" : "";
}

void Exec::op_set(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive) return;
     int ex = I.in.set_expect(o), f = o.iv[0];
     int s = call(I, &o.f, [&]() { return I.api->set(o); });
     info[cur] = {rt_alloc_seen(), rt_lapack_seen(), s, true};
     ABNORMAL(I, std::string("set ") + field_name[f]);
     note(std::string("set ") + field_name[f], &s, sizeof s);
     st.n[ex == 0 ? "rejected calls" : "input changes"]++; if (ex == 0 && (P("C05") || P("C12"))) st.nontrivial = true;
     bool angle = f == F_THETA0 || f == F_OTHETA;
     if (ex == 0) {
          if (s == 0) { if (P("C05") || P("C19")) fail(h.prop + " accepted " + field_name[f], "an invalid call was accepted: " + op_text(o)); aborted = true; return; }
          if (s != XRTM_INT_ERROR && (P("C05"))) { fail(h.prop + " status " + field_name[f], fmt("a rejected call returned %d, not the error value", s)); return; }
     } else if (ex == 1) {
          if (s != 0) {
               if (angle) { std::string w = retry_set(I, o); if (w.empty()) { st.n["angle conflicts"]++; } else { fail(h.prop + " rejected " + field_name[f], "a valid call was rejected although it is " + w); return; } }
               else { fail(h.prop + " rejected " + field_name[f], "a valid call was rejected: " + op_text(o)); return; }
          } else I.in.set_apply(o);
     }
     check_after(o);
}
void Exec::check_after(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive || nocheck) return;
     bool always = P("C06") || P("C05") || P("C14") || P("C19") || P("C20");
     if (always || ((P("C08") || P("C13")) && (o.code == O_SOLVE || o.code == O_UPDATE || o.code == O_ADJOINT))) {
          std::string w = check_getters(I);
          if (!w.empty()) fail(h.prop + " getters after " + code_name[o.code] + (o.code == O_SET ? std::string(" ") + field_name[o.iv[0]] : ""), w);
     }
     char msg[300];
     if (P("C10") && rt_check_heap(msg, sizeof msg)) fail("C10 heap " + std::string(code_name[o.code]), msg);
}

void Exec::op_update(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive) return;
     if (!I.cfg.n_derivs) return;
     int s = call(I, &o.f, [&]() { return I.api->update(); });
     info[cur] = {rt_alloc_seen(), rt_lapack_seen(), s, true}; bool fired = rt_alloc_fired() > 0;
     ABNORMAL(I, "xrtm_update_varied_layers");
     note("update", &s, sizeof s); st.n["varied-layers updates"]++;
     if (s == 0) I.in.updated();
     else {
          Op probe = mk(0, O_SOLVE); probe.iv = {I.cfg.solvers & -I.cfg.solvers, 1, 1, 0}; probe.dv.assign(I.cfg.n_out2(), 0.); std::string why; bool nu = I.in.need_update; I.in.need_update = false; int ready = I.in.solve_expect(probe, &why); I.in.need_update = nu;
          if (!fired && ready == 0) { I.in.need_update = true; check_after(o); return; }   /* inputs are missing */
          if (!fired) { fail(h.prop + " update failed", fmt("xrtm_update_varied_layers failed (%d)", s)); return; }
          if (P("C08") && s != XRTM_INT_ERROR) { fail("C08 update status", fmt("xrtm_update_varied_layers returned %d on memory exhaustion, not the error value", s)); return; }
          I.in.need_update = true; I.in.upd = 2;
     }
     check_after(o);
}

/* Combinations with adjoint code: elsewhere a refusal is as good as the right values. */
static bool adjoint_supported(const Inputs &in, int s) {
     const Config &c = in.c; for (double x : in.ftop_l) if (x != 0.) return false; for (double x : in.fbot_l) if (x != 0.) return false;
     if (!(s & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_SINGLE))) return false;
     for (int k : c.kernels) if (k != XRTM_KERNEL_LAMBERTIAN) return false;
     if (s & XRTM_SOLVER_SINGLE) return true;
     if (!c.opt(XRTM_OPTION_SOURCE_SOLAR) || c.opt(XRTM_OPTION_SOURCE_THERMAL) || c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) return false;
     if ((s & XRTM_SOLVER_EIG_ADD) && c.opt(XRTM_OPTION_TOP_DOWN_ADDING)) return false;
     return !(c.opt(XRTM_OPTION_SFI) && c.n_out_thetas);
}
static double tol_for(const History &h) { auto i = h.par.find("tol"); return i == h.par.end() ? 1e-9 : pow(10., -i->second); }

/* The inputs of an instance that differentiates in direction j only, its linearized inputs multiplied by k. */
static Inputs one_direction(const Inputs &in, int j, double k) {
     Inputs r = in; r.c.n_derivs = 1; auto one = [&](VD &v) { v = VD(1, k * v[j]); }; auto row = [&](std::vector<VD> &v) { VD x = v[j]; for (double &y : x) y *= k; v.assign(1, x); };
     one(r.ftop_l); one(r.fbot_l); one(r.surfb_l); row(r.levb_l); for (auto *v : {&r.omega_l, &r.ltau_l, &r.kamp_l}) for (VD &x : *v) one(x);
     for (auto *v : {&r.coef_l, &r.kpar_l}) for (auto &x : *v) row(x);
     return r;
}
/* Part of the results: one derivative, level and angle each (-1: all), the derivatives divided by k. */
static Outs part(const Outs &a, const Config &c, int np, int J, int L, int T, double k) {
     Outs r; Config q = c; if (J >= 0) q.n_derivs = 1; if (L >= 0) q.n_out_levels = 1; if (T >= 0) q.n_out_thetas = 1;
     r.shape(q, np, SENTINEL); r.status = a.status; r.rc = a.rc; int nl = c.n_out_levels, nd = c.n_derivs, nt = c.n_out2(), ns = c.n_stokes;
     for (int m = 0; m < 12; ++m) { size_t at = 0; bool lin = m & 2, rad = m < 4;
          for (int l = 0; l < nl; ++l) for (int d = 0; d < (lin ? nd : 1); ++d) for (int t = 0; t < (rad ? nt : 1); ++t) for (int p = 0; p < (rad ? std::max(1, np) * ns : 1); ++p, ++at) {
               if ((L >= 0 && l != L) || (lin && J >= 0 && d != J) || (rad && T >= 0 && t != T)) continue;
               size_t i = (((size_t) (L < 0 ? l : 0) * (lin ? q.n_derivs : 1) + (lin && J < 0 ? d : 0)) * (rad ? (T < 0 ? nt : 1) : 1) + (rad && T < 0 ? t : 0)) * (rad ? std::max(1, np) * ns : 1) + p;
               if (at >= a.d[m].size() || i >= r.d[m].size()) continue;
               double x = a.d[m][at]; r.d[m][i] = lin && x != SENTINEL ? x * k : x;
          }
     }
     return r;
}

/* A solution where the update of the varied layers has not been made or has failed: it is refused, or right. */
void Exec::unready_solve(Inst &I, const Op &o) {
     static Outs a, b; do_solve(I, o, &o.f, a); int r = rc; rc = RT_OK; st.n["solutions without update"]++;
     bool never = I.in.upd == 0; std::string what = never ? "without the update of the varied layers" : "after a failed update of the varied layers"; Inputs in = I.in; in.updated();
     if (a.rc) r = a.rc;
     if (r != RT_OK) { ref_solve(in, in.c, o, b, false); rc = RT_OK; if (b.rc == RT_OK && b.status >= -1) fail(h.prop + " unready abnormal", "the solution " + what + (r == RT_EXIT ? " ended the process" : " ended in a signal")); aborted = true; return; }
     if (a.status != 0) { st.n["refused solutions"]++; check_after(o); return; }
     ref_solve(in, in.c, o, b, false); rc = RT_OK; if (b.rc || b.status != 0) { aborted = true; return; }
     bool exact; std::string w = compare(a, b, tol_for(h), ~0u, &exact); if (!w.empty()) fail(h.prop + " unready value", "a solution " + what + " succeeded and is wrong: " + w);
     aborted = true;
}
void Exec::op_solve(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive) return;
     std::string why; int ex = I.in.solve_expect(o, &why);
     if (ex == 0 && why == "varied layers" && I.in.upd != 1 && (P("C08") || P("C05"))) { unready_solve(I, o); return; }
     if (ex < 0 || (ex == 0 && why == "varied layers")) { st.n["skipped solves"]++; return; }
     static Outs a; do_solve(I, o, &o.f, a);
     bool af = rt_alloc_fired() > 0, lf = rt_lapack_fired() > 0; std::string lname = rt_lapack_fired_name();
     info[cur] = {rt_alloc_seen(), rt_lapack_seen(), a.status, true};
     uint64_t path = cov_hash;
     rc = a.rc;
     ABNORMAL(I, std::string("solution ") + solver_name(o.iv[0]));
     note_outs(*this, std::string("solution ") + solver_name(o.iv[0]), a);
     std::string sn = solver_name(o.iv[0]);
     if (ex == 0) {
          st.n["refused solutions"]++;
          if (a.status == 0) { if (P("C05") || P("C19")) fail(h.prop + " solved " + why, "a solution that must be refused (" + why + ") succeeded"); aborted = true; return; }
          if (a.status != XRTM_INT_ERROR && P("C05")) { fail(h.prop + " solve status", fmt("a refused solution returned %d, not the error value", a.status)); return; }
          check_after(o); return;
     }
     I.in.solved = true;
     st.n["solutions"]++; st.n["solutions:" + sn]++;
     st.states.insert(fnv(&path, 8, fnv(o.iv.data(), 8)));
     if (a.status != 0) st.n["solutions failed"]++;
     if (af || lf) {
          if (a.status != 0) { if (P("C08") && a.status != XRTM_INT_ERROR) { fail("C08 solve status", fmt("solution returned %d on memory exhaustion, not the error value", a.status)); return; }
               st.n["faults reported as errors"]++; check_after(o); return; }
          st.n["faults absorbed"]++;   /* success after a fault: the results must be right (checked below) */
     }
     if (nocheck || P("C11") || P("C10") || P("C12") || P("C06")) { check_after(o); return; }
     std::string extra = (af ? " after a failed allocation" : lf ? " after a failed " + lname : "");
     std::string fs = (af ? " alloc" : lf ? " lapack " + lname : "");

     static Outs b; double tol = tol_for(h); bool exact;
     auto check = [&](const Config &c, const char *kind, unsigned mask, bool nolin, double t) {
          ref_solve(I.in, c, o, b, nolin); rc = RT_OK;
          st.n["reference solutions"]++;
          if (b.status == -9999 || b.status == -9998) { st.n["reference refused"]++; return; }
          if (b.rc) { st.n["reference abnormal"]++; return; }
          if ((a.status == 0) != (b.status == 0)) { fail(h.prop + " " + kind + " status " + sn + fs, fmt("solution status %d, reference status %d", a.status, b.status) + extra); return; }
          if (a.status) return;
          if (has_nan(b)) st.n["degenerate references"]++;
          std::string w = compare(a, b, t, mask, &exact);
          if (exact) st.n["bitwise equal"]++; else st.n["equal within tolerance"]++;
          if (!all_zero(b) && !has_nan(b)) { st.n["nontrivial comparisons"]++; if (faulted || !(P("C08") || P("C09"))) st.nontrivial = true; }
          if (!w.empty()) {   /* does the reference itself depend on what memory contained? */
               Outs b0 = b; rt_heap_knobs k = h.heap; bool unstable = false;
               for (int f : {(int) FILL_RANDOM, (int) FILL_BIG, (int) FILL_ZERO}) { k.fill = f; k.fill_seed += 77; k.reuse = 0; rt_set_knobs(&k); ref_solve(I.in, c, o, b, nolin); rc = RT_OK; if (b.rc || b.status != b0.status || !compare(b, b0, t, mask).empty()) unstable = true; }
               rt_set_knobs(&h.heap);
               if (unstable && !getenv("SIM_UNSTABLE")) { st.n["unstable references"]++; aborted = true; return; }   /* C11 decides this */
               fail(h.prop + (unstable ? " unstable " : " ") + kind + " value " + sn + fs, w + extra);
          }
     };
     /* does a solution depend on what memory contained?  Then C11 decides. */
     auto unstable_op = [&](const Op &q, unsigned mask) {
          static Outs b0, b1; rt_heap_knobs k = h.heap; bool un = false, first = true;
          for (int f : {(int) FILL_KEEP, (int) FILL_RANDOM, (int) FILL_BIG, (int) FILL_ZERO}) { k.fill = f; k.fill_seed += 77; k.reuse = 0; rt_set_knobs(&k); ref_solve(I.in, I.cfg, q, b1, false); rc = RT_OK; if (first) b0 = b1; else if (b1.rc || b1.status != b0.status || !compare(b1, b0, tol, mask).empty()) un = true; first = false; }
          rt_set_knobs(&h.heap);
          if (un && !getenv("SIM_UNSTABLE")) { st.n["unstable references"]++; aborted = true; return true; }
          return false;
     };
     unsigned nl = 0x333, lin = 0xccc; std::string which;
     auto big = [](const Outs &z, unsigned mask) { double x = 0; for (int k = 0; k < 12; ++k) if (mask >> k & 1) for (double y : z.d[k]) if (y != SENTINEL && isfinite(y)) x = std::max(x, fabs(y)); return x; };
     auto noise = [&](const Inputs &in) { double x = std::max({fabs(in.sc[F_F0]), fabs(in.sc[F_FTOP]), fabs(in.sc[F_FBOT]), fabs(in.sc[F_SURFB]), big(a, 0x333)}); for (double y : in.levb) x = std::max(x, fabs(y)); return 1e-8 * x; };
     /* whether inputs that differ in the last digits give results that differ more than the tolerance; leaves the reference in b */
     auto ill = [&](const Inputs &in, const Op &q, double t, unsigned mask) {
          Outs keep = b; bool bad = false, ex;
          for (int i = 0; i < 12 && !bad; ++i) {
               Inputs x = i & 1 ? in : I.in; double e = (i & 2 ? -1 : 1) * 2e-13;
               int k = 0; auto vary = [&](double &v) { v *= 1. + e * (1 + k++ % 3); };
               if (i < 4) for (double &v : x.omega) v = std::min(1., v * (1. - fabs(e) * (1 + (i & 2)))); else if (i < 8) { for (double &v : x.ltau) vary(v); for (double &v : x.levb) { vary(v); e = -e; } } else vary(x.sc[F_THETA0]);
               bool all = !(i & 1);
               ref_solve(x, x.c, all ? o : q, b); rc = RT_OK; st.n["perturbed reference solutions"]++;
               bad = b.rc || b.status || has_nan(b) || !compare(all ? a : keep, b, t * .1, mask, &ex).empty();
          }
          b = keep; if (bad) st.n["ill-conditioned references"]++; return bad;
     };
     /* part of the results against an instance that has only that part */
     auto check_part = [&](const Inputs &in, const Op &q, const char *kind, unsigned mask, const Outs &pa, double t, bool angles) {
          ref_solve(in, in.c, q, b); rc = RT_OK; st.n["reference solutions"]++;
          if (b.status == -9999 || b.status == -9998) { st.n["reference refused"]++; return; }
          if (b.rc) { st.n["reference abnormal"]++; return; }
          if (angles && ((a.status && !b.status && in.otheta[0] == 0.) || (o.iv[0] & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_MEM_BVP | XRTM_SOLVER_PADE_ADD)))) { st.n["failed where angles differ, not compared"]++; return; }
          if ((a.status == 0) != (b.status == 0)) { if (!unstable_op(o, 0xfff)) fail(h.prop + " " + kind + " status " + sn, fmt("solution status %d, reference status %d", a.status, b.status)); return; }
          if (a.status) return;
          if (has_nan(b) || has_nan(pa)) { st.n["degenerate references"]++; return; }
          if (getenv("SIM_LOUD")) for (int m = 0; m < 4; ++m) for (size_t i = 0; i < pa.d[m].size(); ++i) fprintf(stderr, "%s %d %zu %.12g %.12g\n", kind, m, i, pa.d[m][i], b.d[m][i]);
          double fl = angles ? noise(in) : 0.;
          std::string w = compare(pa, b, t, mask & ~0xcccu, &exact, fl); bool e2 = exact; if (w.empty() && mask & 0xccc) { w = compare(pa, b, t, mask & 0xccc, &exact, angles ? fl + big(a, 0xccc) * 1e-8 : 0.); exact = exact && e2; } st.n[exact ? "bitwise equal" : "equal within tolerance"]++;
          if (!all_zero(b)) { st.n["nontrivial comparisons"]++; st.nontrivial = true; }
          if (!w.empty()) { if (unstable_op(o, mask) || (angles && ill(in, q, t, mask))) return; fail(h.prop + " " + kind + " value " + sn, w + which); }
     };
     if (P("C02")) {
          check(I.cfg, "fresh", 0xfff, false, tol); if (aborted) return;
          Outs keep = b;
          if (a.status == 0 && !(o.iv[0] == XRTM_SOLVER_PADE_ADD && I.in.pade_s < 0)) { /* radiances do not depend on the linearized inputs; automatic Pade parameters do, by design */
               check(I.cfg, "nolin", nl, true, tol); if (aborted) return;
          }
     } else if (P("C28")) {
          Rng r(fnv(&cur, sizeof cur, h.seed + 28)); if (o.iv[0] == XRTM_SOLVER_PADE_ADD && I.in.pade_s < 0) { st.n["automatic Pade parameters, not compared"]++; check_after(o); return; }
          for (int j = 0, n = I.cfg.n_derivs; j < n && !aborted; ++j) if (n < 3 || r.chance(.7)) {
               double k = r.pick({1., 1., 2., -1., -4., .5}); which = fmt(" (direction %d, factor %g)", j, k); Inputs in = one_direction(I.in, j, k); st.n[k == 1. ? "directions alone" : "directions alone, scaled"]++;
               check_part(in, o, k == 1. ? "alone" : k < 0 ? "negative" : "scaled", 0xc | 0x3, part(a, I.cfg, o.iv[2], j, -1, -1, k), tol, false);
          }
     } else if (P("C29")) {
          Rng r(fnv(&cur, sizeof cur, h.seed + 29)); if (I.in.sc[F_FTOL] > 0) { st.n["with a Fourier tolerance, not compared"]++; check_after(o); return; }
          for (int w = 1; w < 4 && !aborted; ++w) {
               const Config &c = I.cfg; int L = w & 1 && c.n_out_levels > 1 ? r.below(c.n_out_levels) : -1, T = w & 2 && c.n_out_thetas > 1 ? r.below(c.n_out_thetas) : -1; if ((w & 1) != (L >= 0) || ((w & 2) != 0) != (T >= 0)) continue;
               if (T >= 0) {   /* directions which (nearly) coincide make the problem degenerate */
                    xrtm_data *d = I.api->raw(); double close = 1.; VD mu(d->qx, d->qx + d->n_quad + d->n_umus); if (c.opt(XRTM_OPTION_SOURCE_SOLAR)) mu.push_back(d->mu_0);
                    size_t nq = d->n_quad, nu = nq + d->n_umus; bool sfi = c.opt(XRTM_OPTION_SFI);   /* with SFI the output angles are not among the directions solved for */
                    for (size_t x = 0; x < mu.size(); ++x) for (size_t y = 0; y < x; ++y) if (!(sfi && x >= nq && x < nu && y >= nq)) close = std::min(close, fabs(mu[x] - mu[y]));
                    if (close < 1e-2) { st.n["nearly coincident directions, not compared"]++; continue; }
               }
               if (T >= 0 && c.n_kernels() && I.in.otheta[T] == 0.) { st.n["nadir alone has no azimuthal terms, not compared"]++; continue; }   /* the quadrature in azimuth leaves some of an azimuthally constant kernel */
               if (T >= 0 && (o.iv[0] == XRTM_SOLVER_SOS || (o.iv[0] == XRTM_SOLVER_PADE_ADD && I.in.pade_s < 0))) { st.n["orders chosen by the angles, not compared"]++; continue; }
               Inputs in = I.in; Op q = o; if (L >= 0) { in.c.n_out_levels = 1; if (in.olev.size()) in.olev = VI(1, in.olev[L]); if (in.otau.size()) in.otau = VD(1, in.otau[L]);
                    if (in.has[F_OLEV] && in.set_expect(mkset(0, F_OLEV, -1, -1, -1, in.olev, {})) != 1) { st.n["levels not allowed alone"]++; continue; } }
               bool eig = o.iv[0] & (XRTM_SOLVER_EIG_ADD | XRTM_SOLVER_EIG_BVP | XRTM_SOLVER_MEM_BVP | XRTM_SOLVER_PADE_ADD), conserv = false; for (double w0 : in.omega) if (w0 > 1. - 1e-5) conserv = true; if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) for (double y : in.ltau) if (y < 1e-4) conserv = true;   /* their derivatives lose most digits */
               if (T >= 0) { in.c.n_out_thetas = 1; in.otheta = VD(1, in.otheta[T]); int np = std::max(1, o.iv[2]); if (!q.dv.empty()) q.dv.assign(o.dv.begin() + (size_t) T * np, o.dv.begin() + (size_t) (T + 1) * np); }
               st.n[w == 1 ? "levels alone" : w == 2 ? "angles alone" : "level and angle alone"]++;
               which = fmt(" (output level %d, angle %d)", L, T);
               check_part(in, q, w == 1 ? "level alone" : w == 2 ? "angle alone" : "level and angle alone", c.n_derivs && !(T >= 0 && eig && conserv) ? 0x33f : 0x333, part(a, c, o.iv[2], -1, L, T, 1.), T < 0 ? std::max(tol, 1e-7) : eig ? 1e-3 : 1e-5, T >= 0);
          }
     } else if (P("C22")) {
          Config c = I.cfg; c.solvers = o.iv[0]; if (config_ok(c)) check(c, "alone", 0xfff, false, tol);
     } else if (P("C03")) {
          Config c = I.cfg; c.options &= ~SAVES; check(c, "nosave", 0xfff, false, tol);
     } else check(I.cfg, "fresh", 0xfff, false, tol);
     (void) lin;
     if (aborted) return;
     if (P("C21") && a.status == 0) {
          Outs first = a; int out = o.iv[1];
          for (int k = 0; k < 12; ++k) { int bit = k < 4 ? 1 : k < 8 ? 2 : 4; if (!(out & bit)) { for (double x : first.d[k]) if (x != SENTINEL) { fail("C21 touched " + sn, std::string("array ") + out_name[k] + " of an output that was not requested was changed"); return; } } }
          for (int bit = 1; bit <= 4; bit <<= 1) {
               if (!(out & bit) || out == bit) continue;
               Op q = o; q.iv[1] = bit; q.iv[3] = bit % 3 != 0; if (bit != 1) { q.iv[2] = 0; q.dv.clear(); }
               static Outs c; do_solve(I, q, 0, c); rc = c.rc; if (rc) { aborted = true; return; }
               if (c.status) { fail("C21 alone status " + sn, fmt("output %d alone fails (%d) although it succeeds with others", bit, c.status)); return; }
               unsigned m = bit == 1 ? 0xf : bit == 2 ? 0xf0 : 0xf00; st.n["separate outputs compared"]++;
               std::string w = compare(c, first, tol, m); if (!w.empty()) { if (unstable_op(q, m) || unstable_op(o, m)) return; fail("C21 alone value " + sn, w + " (alone, then with other outputs)"); return; }
          }
          if (out & 1 && o.iv[2] > 1) for (int p = 0; p < o.iv[2]; ++p) {
               Op q = o; q.iv[1] = 1; q.iv[2] = 1; q.dv.clear(); for (int i = 0; i < I.cfg.n_out2(); ++i) q.dv.push_back(o.dv[i * o.iv[2] + p]);
               static Outs c; do_solve(I, q, 0, c); rc = c.rc; if (rc) { aborted = true; return; }
               if (c.status) { fail("C21 phi status " + sn, "one azimuth angle alone fails"); return; }
               Outs pick; pick.shape(I.cfg, 1, SENTINEL); const Config &g = I.cfg; int np = o.iv[2];
               for (int k = 0; k < 4; ++k) { size_t rows = first.d[k].size() / ((size_t) np * g.n_stokes); for (size_t x = 0; x < rows; ++x) for (int s = 0; s < g.n_stokes; ++s) pick.d[k][x * g.n_stokes + s] = first.d[k][(x * np + p) * g.n_stokes + s]; }
               st.n["separate angles compared"]++;
               bool fo = true; std::string w; if (I.in.sc[F_FTOL] > 0) st.n["separate angles with a Fourier tolerance, not compared"]++; else w = compare(c, pick, tol, 0xf, &fo);
               if (!w.empty()) { if (unstable_op(q, 0xf) || unstable_op(o, 0xf)) return; fail("C21 phi value " + sn, w + " (azimuth angle alone, then with others)"); return; }
          }
     }
     check_after(o);
}

/* The adjoint solution: its derivatives against forward ones of a new instance without the reverse option. */
bool Exec::ref_adjoint(const Inputs &in, const Op &o, Outs &r) {
     Inst R; int s; R.api.reset(make_c(false)); r.shape(in.c, o.iv[2], SENTINEL); r.status = -9999;
     if (!do_create(R, in.c, 0, s)) { rc = RT_OK; return false; }
     bool ok = true; for (const Op &q : in.canonical(0)) { int x = q.code == O_UPDATE ? call(R, 0, [&]() { return R.api->update(); }) : call(R, 0, [&]() { return R.api->set(q); }); if (rc || x) { ok = false; break; } }
     if (ok) {
          int np = std::max(1, o.iv[2]); VD ph = o.dv; ph.resize((size_t) in.c.n_out2() * np, 0.); std::vector<double *> rows(in.c.n_out2()); for (int i = 0; i < in.c.n_out2(); ++i) rows[i] = ph.data() + (size_t) i * np;
          double **pp = rows.data(); CApi *api = dynamic_cast<CApi *>(R.api.get()); r.status = call(R, 0, [&]() { return api->adjoint(o, pp, r); }); if (rc) ok = false;
     }
     rc = RT_OK; do_destroy(R); rc = RT_OK; return ok;
}

/* The adjoint and the forward derivatives disagree: difference quotients of the radiances decide.
   True if they confirm the forward derivative where the two differ most. */
bool Exec::forward_confirmed(const Inputs &in, const Config &c, const Op &q, const Outs &a, const Outs &b, unsigned mask) {
     static Outs p[3]; int K = -1; size_t at = 0; double worst = -1, scale = 0;
     for (int k = 2; k < 4; ++k) if (mask >> k & 1) for (size_t i = 0; i < b.d[k].size(); ++i) {
          scale = std::max(scale, fabs(b.d[k][i])); double e = fabs(a.d[k][i] - b.d[k][i]); if (isnan(e)) e = 1e300; if (e > worst) { worst = e; K = k; at = i; }
     }
     if (K < 0) return true;
     size_t blk = (size_t) b.nt * b.np * b.ns, lev = at / (blk * b.nd), j = at / blk % b.nd, el = lev * blk + at % blk;
     if (isnan(a.d[K][at])) {            /* derivatives that do not exist (coincident or negative eigenvalues) are not judged: nearby inputs have them */
          for (int n = 0; n < 3; ++n) {
               Inputs z = in; for (double &w : z.omega) w *= .93 - .1 * n; z.sc[F_THETA0] = z.sc[F_THETA0] * .9 + 3.1 + n; for (auto &v_ : z.coef) for (size_t k = 0; k < v_.size(); ++k) if (k % c.max_coef && v_[k] != SENTINEL) v_[k] *= .8 - .2 * n;
               if (!ref_adjoint(z, q, p[0])) continue;
               if (p[0].status || !has_nan(p[0])) return false;
          }
          return c.n_stokes == 1;
     }
     bool up = true, dn = true; double h = 1e-4; const double WM = 1. - 1e-5; Inputs x0 = in; for (double &w : x0.omega) w = std::min(w, WM);
     for (int i = 0; i < c.n_layers; ++i) {
          double w = x0.omega[i], d = in.omega_l[i][j]; if (w + 2 * h * d > WM || w + 2 * h * d < 0) up = false; if (w - 2 * h * d > WM || w - 2 * h * d < 0) dn = false;
          if (fabs(in.ltau_l[i][j]) * h > .01 * in.ltau[i]) h = .01 * in.ltau[i] / fabs(in.ltau_l[i][j]);
     }
     for (int k = 0; k < c.n_kernels(); ++k) { double w = x0.kamp[k], d = 2 * h * in.kamp_l[k][j]; if (w + d > 1 || w + d < 0) up = false; if (w - d > 1 || w - d < 0) dn = false; }
     if (!up && !dn) return false;
     auto f = [&](double t, double &y) {
          Inputs x = x0; for (int i = 0; i < c.n_layers; ++i) { x.omega[i] += t * in.omega_l[i][j]; x.ltau[i] += t * in.ltau_l[i][j]; for (size_t k = 0; k < x.coef[i].size(); ++k) if (x.coef[i][k] != SENTINEL) x.coef[i][k] += t * in.coef_l[i][j][k]; }
          for (int k = 0; k < c.n_kernels(); ++k) x.kamp[k] += t * in.kamp_l[k][j];
          ref_solve(x, c, q, p[0], false); int r0 = rc; rc = RT_OK; if (r0 || p[0].status) return false; y = p[0].d[K - 2][el]; return isfinite(y) != 0; };
     double D[2]; for (int n = 0; n < 2; ++n, h /= 2) {
          double y0, y1, y2;
          if (up && dn) { if (!f(h, y1) || !f(-h, y2)) return false; D[n] = (y1 - y2) / (2 * h); }
          else { double g = up ? h : -h; if (!f(0, y0) || !f(g, y1) || !f(2 * g, y2)) return false; D[n] = (4 * y1 - 3 * y0 - y2) / (2 * g); }
     }
     double fd = (4 * D[1] - D[0]) / 3, err = fabs(D[1] - D[0]) + 1e-9 * scale, ef = fabs(fd - b.d[K][at]), ea = fabs(fd - a.d[K][at]);
     return (ef <= 10 * err + 1e-4 * scale && ea > 3 * ef + 10 * err);
}

void Exec::op_adjoint(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive) return; CApi *api = dynamic_cast<CApi *>(I.api.get()); if (!api) return;
     std::string why; int ex = I.in.solve_expect(o, &why);
     if (ex < 0 || (ex == 0 && why == "varied layers")) { st.n["skipped solves"]++; return; }
     static Outs a; a.shape(I.cfg, o.iv[2], SENTINEL);
     int np = std::max(1, o.iv[2]); static VD ph; ph = o.dv; ph.resize((size_t) I.cfg.n_out2() * np, 0.); static std::vector<double *> rows; rows.resize(I.cfg.n_out2()); for (int i = 0; i < I.cfg.n_out2(); ++i) rows[i] = ph.data() + (size_t) i * np;
     double **ph_ = rows.data();
     a.status = call(I, &o.f, [&]() { return api->adjoint(o, ph_, a); }); a.rc = rc;
     std::string sn = solver_name(o.iv[0]); info[cur] = {rt_alloc_seen(), rt_lapack_seen(), a.status, true};
     ABNORMAL(I, std::string("adjoint ") + sn);
     note_outs(*this, "adjoint " + sn, a);
     if (I.api->counts_bad(I.cfg)) { fail(h.prop + " adjoint counts " + sn, "an option or count of the instance is different after an adjoint solution"); return; }
     if (ex == 0) {
          st.n["refused adjoint solutions"]++;
          if (a.status == 0) { fail(h.prop + " adjoint solved " + why, "an adjoint solution that must be refused (" + why + ") succeeded"); return; }
          check_after(o); return;
     }
     I.in.solved = true; st.n["adjoint solutions"]++; st.n["adjoint solutions:" + sn]++;
     if (a.status) { st.n["adjoint solutions failed"]++; if (rt_alloc_fired() || rt_lapack_fired()) { check_after(o); return; } }
     if (P("C13")) {
          static Outs b; Config c = I.cfg; c.options &= ~XRTM_OPTION_REVERSE_DERIVS; Op q = o; q.code = O_SOLVE;
          ref_solve(I.in, c, q, b, false); rc = RT_OK; st.n["reference solutions"]++;
          if (b.rc || b.status == -9999 || b.status == -9998) { st.n["reference refused"]++; check_after(o); return; }
          if (a.status && !b.status) { if (!adjoint_supported(I.in, o.iv[0])) st.n["adjoint solutions not supported"]++; else { fail("C13 adjoint status " + sn, fmt("the adjoint solution fails (%d), the forward one succeeds", a.status)); return; } }
          if (!a.status && b.status) { st.n["forward reference failed"]++; }
          if (!a.status && !b.status) {
               unsigned m_ = I.cfg.opt(XRTM_OPTION_UPWELLING_OUTPUT) == I.cfg.opt(XRTM_OPTION_DOWNWELLING_OUTPUT) ? 0xf : I.cfg.opt(XRTM_OPTION_UPWELLING_OUTPUT) ? 5 : 10; std::string w = compare(a, b, 1e-5, m_); { double top = 0; for (int k = 0; k < 2; ++k) for (double x : b.d[k]) if (x != SENTINEL) top = std::max(top, fabs(x)); if (!w.empty()) w = compare(a, b, 1e-5, m_, 0, 1e-9 * top); }
               if (has_nan(b)) st.n["degenerate references"]++; else if (!all_zero(b)) { st.n["adjoint derivatives compared"]++; for (int k = 2; k < 4; ++k) for (double x : b.d[k]) if (x != 0. && x != SENTINEL) st.nontrivial = true; }
               if (!w.empty() && !has_nan(b)) {
                    Outs b0 = b; rt_heap_knobs k = h.heap; bool un = false; for (int f : {(int) FILL_RANDOM, (int) FILL_BIG}) { k.fill = f; k.fill_seed += 77; k.reuse = 0; rt_set_knobs(&k); ref_solve(I.in, c, q, b, false); rc = RT_OK; if (!compare(b, b0, 1e-9, 0xf).empty()) un = true; } rt_set_knobs(&h.heap);
                    if (un) { st.n["unstable references"]++; aborted = true; return; }
                    if (!forward_confirmed(I.in, c, q, a, b0, m_)) { st.n["forward derivatives not confirmed by difference quotients"]++; check_after(o); return; }
                    fail("C13 adjoint value " + sn, w + " (adjoint, then forward)"); return;
               }
          }
     }
     check_after(o);
}

#include "fd.h"

void Exec::run() {
     rt_reset(&h.heap); next_owner = 1;
     inst.resize(8); info.assign(h.ops.size(), OpInfo());
     st.n["runs"]++;
     for (size_t i = 0; i < h.ops.size() && !aborted; ++i) {
          const Op &o = h.ops[i]; cur = (int) i; st.n["operations"]++;
          pathsig = fnv(&o.code, sizeof o.code, pathsig);
          switch (o.code) {
          case O_CREATE: op_create(o); break;
          case O_DESTROY: { Inst &I = inst[o.inst]; if (!I.alive) break; int ow = I.owner; if (I.fd_alive) { call(I, 0, [&]() { return xrtm_fd_destroy(&I.fd); }); I.fd_alive = false; } call(I, 0, [&]() { return I.api->destroy(); }); I.alive = false;
               if (rc) { if (rc == RT_SIGNAL) fail(h.prop + " signal destroy", "xrtm_destroy ended by " + abn(rc)); aborted = true; break; }
               if ((P("C10") || P("C07") || P("C08") || P("C14") || P("C19")) && rt_live_blocks_of(ow)) { fail(h.prop + " leak", fmt("%ld blocks (%zu bytes) left after destruction, sizes ", rt_live_blocks_of(ow), rt_live_bytes_of(ow)) + rt_describe_live(ow)); }
               st.n["destructions"]++; if (P("C10") && I.in.solved) st.nontrivial = true; break; }
          case O_SET: op_set(o); break;
          case O_UPDATE: op_update(o); break;
          case O_CLEAR: { Inst &I = inst[o.inst]; if (!I.alive) break; call(I, 0, [&]() { I.api->clear(); return 0; }); if (rc) { if (rc == RT_SIGNAL) fail(h.prop + " signal clear", "xrtm_clear_saved ended by " + abn(rc)); break; } st.n["saved-state clears"]++; check_after(o); break; }
          case O_SOLVE: op_solve(o); break;
          case O_ADJOINT: op_adjoint(o); break;
          case O_FD_CREATE: case O_FD_SET: case O_FD_SOLVE: case O_FD_DESTROY: op_fd(o); break;
          default: break;
          }
     }
     char msg[300];
     if (!v.any() && !aborted && !rt_lapack_fired() && rt_check_heap(msg, sizeof msg)) fail(h.prop + " heap", msg);
     st.n[fmt("heap fill %d", h.heap.fill)]++;
}
