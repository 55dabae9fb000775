/* What is generated and decided for each property. */
#include "exec.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#include <algorithm>

/* The linearized inputs that adjoint solutions cover. */
static bool unready = false;   /* solutions without the update of the varied layers too */
static bool adj = false;   /* this history has adjoint solutions */
static void adjoint_only(VI &l) { VI k; for (int f : l) if (f == F_OMEGA_L || f == F_LTAU_L || f == F_COEF_L || f == F_KAMP_L) k.push_back(f); l = k; }
static void step_ops(Rng &r, History &h, std::vector<Inputs> &in, int inst, double p_lin, double p_same) {
     Inputs &I = in[inst];
     bool lin = I.c.n_derivs && r.chance(p_lin); VI l = settable(I, lin); if (lin && adj) adjoint_only(l); if (l.empty()) { lin = false; l = settable(I, false); }
     Op o;
     if (r.chance(p_same)) { std::vector<Op> c = I.canonical(inst); std::vector<Op> s; for (auto &q : c) if (q.code == O_SET) s.push_back(q); if (s.empty()) return; o = r.pick(s); }
     else o = gen_set(r, I, inst, r.pick(l));
     if (I.set_expect(o) != 1) return;
     h.ops.push_back(o); I.set_apply(o);
}
static void ready(Rng &r, History &h, Inputs &I, int inst) {
     if (I.c.opt(XRTM_OPTION_OUTPUT_AT_TAUS) && I.has[F_OTAU]) { double t = 0; for (double x : I.ltau) t += x; bool bad = I.otau.back() > t * (1 - 1e-7); for (size_t i = 1; i < I.otau.size(); ++i) bad |= I.otau[i] <= I.otau[i - 1]; if (bad) { Op o = gen_set(r, I, inst, F_OTAU, false); h.ops.push_back(o); I.set_apply(o); } }
     if (I.need_update || I.trimmed) { h.ops.push_back(mk(inst, O_UPDATE)); I.updated(); }
}
static void heap_knobs(Rng &r, History &h) {
     h.heap.fill = r.pick({(int) FILL_KEEP, (int) FILL_KEEP, (int) FILL_RANDOM, (int) FILL_ZERO, (int) FILL_BIG}); h.heap.reuse = !r.chance(.25); h.heap.skew = 64 * r.below(4); h.heap.fill_seed = r.next() >> 12;
     h.stack = r.pick({-1, -1, 0, 256});
}

/* The adjoint solution in place of the forward one. */
static void adjoint_of(const Inputs &I, Op &q) { q.code = O_ADJOINT; q.iv[1] = 1; q.iv[3] = 0; if (q.iv[2] < 1) { q.iv[2] = 1; q.dv.assign(I.c.n_out2(), 40.); } }

/* A fault for the next call. */
static void gen_fault(Rng &r, Op &o, int kinds) {
     if ((kinds & 1) && (!(kinds & 2) || r.chance(.5))) { o.f.alloc_k = 1 + (r.chance(.5) ? r.below(6) : r.chance(.7) ? r.below(60) : r.below(600)); o.f.alloc_persist = r.chance(.5); }
     else { o.f.lapack_k = 1 + (r.chance(.6) ? r.below(4) : r.below(60)); o.f.lapack_family = r.chance(.5) ? 0 : 1 + r.below(9); }
}
/* A solution, with the set-up it needs, possibly after attempts that fail. */
static void solve_ops(Rng &r, History &h, Inputs &I, int inst, int kinds, double p_fault) {
     if (I.c.opt(XRTM_OPTION_OUTPUT_AT_TAUS)) { bool u = I.need_update, t = I.trimmed; I.updated(); ready(r, h, I, inst); I.need_update = u; I.trimmed = t; }
     if ((kinds & 1) && I.need_update && r.chance(p_fault)) for (int n = r.pick({1, 1, 3, 8}), k = 1 + r.below(4); n > 0; --n) { Op u = mk(inst, O_UPDATE); gen_fault(r, u, 1); if (n > 1) { u.f.alloc_k = k; k += 1 + (r.chance(.3) ? r.below(3) : 0); } h.ops.push_back(u); }
     if (I.need_update && unready && r.chance(.3)) h.ops.push_back(gen_solve(r, I, inst)); ready(r, h, I, inst); Op q = gen_solve(r, I, inst); if (adj && r.chance(.6)) adjoint_of(I, q);
     if (kinds && r.chance(p_fault)) for (int n = r.pick({1, 1, 1, 2, 3, 6}); n > 0; --n) { Op f = q; gen_fault(r, f, kinds); h.ops.push_back(f); }
     h.ops.push_back(q);
}

/* The finite-difference interface: perturbations that mostly keep the inputs valid. */
struct Fd { bool on = false; Inputs p; };
static void fd_ops(Rng &r, History &h, const Inputs &I, int inst, Fd &fd, int kinds, double p_fault) {
     if (!fd.on) {
          Op o = mk(inst, O_FD_CREATE); int n = r.chance(.03) ? r.pick({0, -1}) : r.pick({1, 1, 2, 2, 3}); o.iv = {n};
          if (kinds & 1 && r.chance(.2)) { Op f = o; gen_fault(r, f, 1); h.ops.push_back(f); }
          h.ops.push_back(o); fd.on = true; if (I.c.opt(XRTM_OPTION_CALC_DERIVS) || n < 1) { fd.on = false; return; }
          Config c = I.c; c.n_derivs = n; c.options |= XRTM_OPTION_CALC_DERIVS; fd.p = Inputs(c);
          Op d = mk(inst, O_FD_SET); d.iv = {N_FIELDS, -1, -1, -1, 0}; for (int j = 0; j < n; ++j) d.dv.push_back(r.chance(.1) ? -r.u(.01, .2) : r.logu(1e-3, 1.)); h.ops.push_back(d);
     }
     fd.p.n_coef = I.n_coef; int nd = fd.p.c.n_derivs; double t = 1e9, w = 1, b = 1e9; for (double x : I.ltau) t = std::min(t, x); for (double x : I.omega) w = std::min(w, std::min(x, 1 - x)); for (double x : I.levb) b = std::min(b, x);
     int n = r.pick({0, 1, 2, 3, 5}); VI l; if (nd) { l = settable(fd.p, true); if (I.c.opt(XRTM_OPTION_SOURCE_THERMAL)) { l.push_back(F_LEVB_L); l.push_back(F_SURFB_L); } }
     for (; nd && n > 0; --n) {
          if (r.chance(.06)) { Op d = mk(inst, O_FD_SET); d.iv = {N_FIELDS, -1, -1, -1, 0}; for (int j = 0; j < nd; ++j) d.dv.push_back(r.logu(1e-3, 1.)); h.ops.push_back(d); continue; }
          Op o = gen_set(r, fd.p, inst, r.pick(l)); o.code = O_FD_SET; double k = .3; bool wild = r.chance(.05);
          switch (o.iv[0]) { case F_FTOP_L: k *= I.sc[F_FTOP]; break; case F_FBOT_L: k *= I.sc[F_FBOT]; break; case F_LTAU_L: k *= t; break; case F_OMEGA_L: k *= w; break; case F_LEVB_L: k *= b; break; case F_SURFB_L: k *= I.sc[F_SURFB]; break; case F_COEF_L: k = .1; break;
                            case F_KAMP_L: k *= I.kamp[o.iv[1]]; break; case F_KPAR_L: { double m = 1e9; for (double x : I.kpar[o.iv[1]]) m = std::min(m, fabs(x)); k *= m; break; } }
          if (!wild) for (double &x : o.dv) x *= k;
          if (fd.p.set_expect(o) == 1) { h.ops.push_back(o); fd.p.set_apply(o); }
     }
     Op q = gen_solve(r, I, inst); q.code = O_FD_SOLVE; q.iv.push_back(r.below(3));
     if (kinds && r.chance(p_fault)) for (int m = r.pick({1, 1, 2, 3}); m > 0; --m) { Op f = q; gen_fault(r, f, kinds); if (f.f.alloc_k && r.chance(.5)) f.f.alloc_k += r.below(2000); h.ops.push_back(f); }
     h.ops.push_back(q);
     if (r.chance(.06)) { h.ops.push_back(mk(inst, O_FD_DESTROY)); fd.on = false; }
}

History make_history(const std::string &prop, uint64_t seed) {
     gen_near = false;
     Rng r(seed * 1000003ull + fnv(prop.data(), prop.size()) % 1000033ull);
     unready = false; History h; h.prop = prop; h.seed = seed; heap_knobs(r, h);
     GenOpt g; int steps = r.range(2, 10); double p_bad = 0, p_lin = .35, p_same = .08, p_clear = .06, p_solve = .45; int ninst = r.chance(.2) ? 2 : 1; double p_recreate = .02, p_fault = .7, p_fd = 0; int kinds = 0;
     if (prop == "C02") { g.p_derivs = 1; g.min_derivs = 1; p_lin = .6; }
     else if (prop == "C03") { g.p_save = .8; g.p_derivs = .6; p_clear = .12; }
     else if (prop == "C05") { p_bad = .6; p_solve = .3; unready = true; }
     else if (prop == "C06") { p_bad = .15; p_solve = .25; p_clear = .1; }
     else if (prop == "C20") { p_same = .6; g.p_derivs = .7; g.p_kernels = .6; if (r.chance(.3)) g.max_derivs = 6; }
     else if (prop == "C21") { g.p_derivs = .4; p_solve = .6; steps = r.range(1, 4); }
     else if (prop == "C22") { g.multi = 4; p_bad = .1; p_solve = .65; ninst = 1; }
     else if (prop == "C28") { g.p_derivs = 1; g.min_derivs = 1; p_lin = .6; }
     else if (prop == "C29") { g.p_derivs = .4; gen_near = true; }
     else if (prop == "C10") { p_bad = .1; p_recreate = .12; steps = r.range(3, 20); }
     else if (prop == "C12") { p_bad = .2; kinds = 3; p_fault = .4; }
     else if (prop == "C13") { g.p_save = .1; g.lambert = r.chance(.95); if (r.chance(.9)) g.forbid |= XRTM_OPTION_SOURCE_THERMAL; if (r.chance(.9)) g.forbid |= XRTM_OPTION_TOP_DOWN_ADDING; g.p_taus = .05;   g.p_derivs = 1; g.min_derivs = 1; g.force |= XRTM_OPTION_REVERSE_DERIVS; g.max_layers = 3; g.max_quad = 3; p_bad = .15; g.nondeg = true; p_lin = .45; p_solve = .6; steps = r.range(1, 6); ninst = 1; }
     else if (prop == "C14") { p_fd = .6; kinds = 3; p_fault = .35; p_solve = .25; g.p_derivs = .04; if (r.chance(.8)) g.max_layers = 3; }
     else if (prop == "C04") { ninst = r.chance(.25) ? 3 : 2; p_recreate = .08; kinds = r.chance(.3) ? 3 : 0; p_fault = .25; steps = r.range(ninst, 7); g.max_layers = 3; g.max_quad = r.pick({2, 3, 4}); if (r.chance(.15)) p_fd = .3; p_bad = .05; }
     else if (prop == "C19") { p_bad = .3; kinds = r.chance(.3) ? 1 : 0; p_fault = .25; g.p_derivs = .5; g.max_quad = r.pick({2, 3, 4, 8}); steps = r.range(1, 6); if (r.chance(.3)) p_fd = .4; p_recreate = .06; h.par["api"] = 2 + r.below(4); }
     else if (prop == "C08") { kinds = 1; ninst = 1; unready = true; g.p_derivs = .5; if (r.chance(.35)) { g.p_derivs = 1; g.min_derivs = 1; g.force |= XRTM_OPTION_STACK_REUSE_ADDING; p_lin = .75; p_solve = .3; } }
     else if (prop == "C09") { kinds = 2; ninst = 1; g.p_derivs = .4; }
     adj = prop == "C13";
     if ((prop == "C10" || prop == "C11" || prop == "C12" || prop == "C05") && r.chance(.12)) {   /* adjoint derivatives in the other properties */
          adj = true; kinds &= ~1; /* known finding C08-adjoint-alloc */ g.p_save = .1; g.lambert = r.chance(.95); g.forbid |= XRTM_OPTION_SOURCE_THERMAL; if (r.chance(.9)) g.forbid |= XRTM_OPTION_TOP_DOWN_ADDING; g.p_taus = .05; g.p_derivs = 1; g.min_derivs = 1; g.force |= XRTM_OPTION_REVERSE_DERIVS; g.max_layers = 3; g.max_quad = 3; g.nondeg = true;
     }
     for (int i = 0; i < ninst; ++i) h.cfg.push_back(gen_config(r, g));
     if (prop == "C04") {   /* mostly the same configuration for all, or the same sizes with other solvers */
          if (r.chance(.6)) for (int i = 1; i < ninst; ++i) if (r.chance(.9)) h.cfg[i] = h.cfg[0];
          Op o; o.code = O_SCHED; o.iv = {0, r.pick({0, 1, 2, 3, 3, 4, 5}), r.pick({50, 20, 5, 90}), r.chance(.2) ? r.below(ninst) : -1, r.range(1, 4000), (int) (r.next() & 0xffff)}; h.ops.push_back(o);
     }
     std::vector<Inputs> in; std::vector<Fd> fd(4);
     if ((prop == "C10" || prop == "C11" || prop == "C12" || prop == "C06") && r.chance(.15)) p_fd = .3;
     if (prop == "C07") {   /* a healthy instance, then creations of a second one with every allocation failing in turn */
          if (ninst < 2) h.cfg.push_back(gen_config(r, g));
          for (int i = 0; i < 2; ++i) in.push_back(Inputs(h.cfg[i]));
          h.ops.push_back(mk(0, O_CREATE)); gen_setup(r, in[0], 0, h.ops); ready(r, h, in[0], 0); Op q = gen_solve(r, in[0], 0); h.ops.push_back(q);
          Op c = mk(1, O_CREATE); c.f.alloc_k = -1; h.ops.push_back(c);
          for (int k = r.below(3); k > 0; --k) { Config b; if (gen_bad_config(r, h.cfg[r.below(2)], b)) { h.cfg.push_back(b); Op o = mk(6, O_CREATE); o.iv = {(int) h.cfg.size() - 1}; h.ops.push_back(o); } }
          step_ops(r, h, in, 0, p_lin, p_same); ready(r, h, in[0], 0); h.ops.push_back(gen_solve(r, in[0], 0));
          gen_setup(r, in[1], 1, h.ops); ready(r, h, in[1], 1); h.ops.push_back(gen_solve(r, in[1], 1));
          h.ops.push_back(mk(0, O_DESTROY)); h.ops.push_back(mk(1, O_DESTROY));
          return h;
     }
     for (int i = 0; i < ninst; ++i) { in.push_back(Inputs(h.cfg[i])); h.ops.push_back(mk(i, O_CREATE)); }
     auto bad = [&](int i) { Op o = gen_bad(r, in[i], i); if (adj && o.code == O_SOLVE && r.chance(.7)) { o.code = O_ADJOINT; o.iv[3] = 0; } h.ops.push_back(o); };
     for (int i = 0; i < ninst; ++i) {
          if (p_bad > 0 && r.chance(p_bad)) { bad(i); if (r.chance(.3)) h.ops.push_back(gen_solve(r, in[i], i)); }
          if (p_bad > 0 && r.chance(.5)) { /* partial set-up: a solution before everything is set must be refused */
               std::vector<Op> tmp; Inputs copy = in[i]; gen_setup(r, copy, i, tmp); int k = r.below((int) tmp.size()); for (int q = 0; q < k; ++q) if (tmp[q].code == O_SET) { h.ops.push_back(tmp[q]); in[i].set_apply(tmp[q]); if (r.chance(p_bad * .2)) bad(i); }
               Op o = gen_solve(r, in[i], i); if (in[i].solve_expect(o) == 0) h.ops.push_back(o);
          }
          gen_setup(r, in[i], i, h.ops, .3, adj);
     }
     if (prop == "C19" && r.chance(.4)) { g.p_derivs = 1; for (int n = r.range(10, 60); n > 0; --n) { Op o = gen_bad(r, in[0], 0); if (o.code == O_SET) h.ops.push_back(o); } }
     for (int s = 0; s < steps; ++s) {
          int i = r.below(ninst); double u = r.u();
          if (p_fd > 0 && (r.chance(p_fd) || (s == 0 && prop == "C14"))) { ready(r, h, in[i], i); fd_ops(r, h, in[i], i, fd[i], kinds, p_fault); }
          else if (s == 0 || u < p_solve) solve_ops(r, h, in[i], i, kinds, p_fault);
          else if ((u -= p_solve) < p_clear) h.ops.push_back(mk(i, O_CLEAR));
          else if ((u -= p_clear) < p_recreate) { h.ops.push_back(mk(i, O_DESTROY)); h.ops.push_back(mk(i, O_CREATE)); fd[i].on = false; in[i] = Inputs(h.cfg[i]); gen_setup(r, in[i], i, h.ops, .3, adj); }
          else if ((prop == "C05" && r.chance(.12)) || ((prop == "C10" || prop == "C19") && r.chance(.1))) { Config b; if (gen_bad_config(r, h.cfg[i], b)) { h.cfg.push_back(b); Op o = mk(prop == "C19" ? (int) h.cfg.size() - 1 : 6, O_CREATE); if (prop != "C19") o.iv = {(int) h.cfg.size() - 1}; h.ops.push_back(o); } }
          else if (in[i].c.opt(XRTM_OPTION_OUTPUT_AT_TAUS) && (prop == "C05" || prop == "C01" || prop == "C19" || prop == "C10") && r.chance(prop == "C05" ? .25 : .05)) {   /* accepted, but no solution is possible */
               double t = 0; for (double x : in[i].ltau) t += x;
               Op o = gen_set(r, in[i], i, F_OTAU, false); int n = (int) o.dv.size();
               if (n > 1 && r.chance(.6)) { int k = r.below(n - 1); if (r.chance(.5)) std::swap(o.dv[k], o.dv[k + 1]); else o.dv[k + 1] = o.dv[k]; } else o.dv[n - 1] = t * r.pick({1.001, 1.5, 10.}) + 1e-3;
               h.ops.push_back(o); in[i].set_apply(o); h.ops.push_back(gen_solve(r, in[i], i));
               if (r.chance(.3)) h.ops.push_back(gen_solve(r, in[i], i));
          }
          else if (r.chance(p_bad)) bad(i);
          else { int n = r.pick({1, 1, 2, 3}); for (int q = 0; q < n; ++q) step_ops(r, h, in, i, p_lin, p_same); }
     }
     for (int i = 0; i < ninst; ++i) { ready(r, h, in[i], i); h.ops.push_back(gen_solve(r, in[i], i)); }
     for (int i = 0; i < ninst; ++i) h.ops.push_back(mk(i, O_DESTROY));
     if (prop == "C29" || prop == "C21") { Rng q(seed * 77 + 5); if (q.chance(.85)) for (Op &o : h.ops) if (o.code == O_SET && o.iv.size() && o.iv[0] == F_FTOL && o.dv.size() == 1 && o.dv[0] > 0) o.dv[0] = 0.; }
     return h;
}

/* C11: the same history under different heap and stack contents and block placement. */
static Violation check_memory(const History &h, Stats &st) {
     struct { int fill, reuse, skew, stack; } kn[] = {{-1, 0, 0, 0}, {FILL_RANDOM, 0, 64, 256}, {FILL_BIG, 1, 128, 0x41}, {FILL_ZERO, 0, 192, 0}, {FILL_KEEP, 1, 0, 255}};
     std::vector<uint64_t> t0; std::vector<std::string> l0; Violation v;
     for (int k = 0; k < 5; ++k) {
          History q = h; if (kn[k].fill >= 0) { q.heap.fill = kn[k].fill; q.heap.reuse = kn[k].reuse; q.heap.skew = kn[k].skew; q.heap.fill_seed = h.heap.fill_seed + 1000 * k; q.stack = kn[k].stack; }
          Stats dummy; Exec x(q, k ? dummy : st); x.want_transcript = true; x.run(); if (k) { st.steps += dummy.steps; st.n["repeated runs"]++; st.n["transcript entries compared"] += (long) x.transcript.size(); }
          if (k == 0) { t0 = x.transcript; l0 = x.tlabel; if (t0.size() > 8) st.nontrivial = true; continue; }
          size_t n = std::min(t0.size(), x.transcript.size());
          for (size_t i = 0; i <= n; ++i) {
               if (i == n) { if (t0.size() != x.transcript.size()) { v.sig = "C11 length " + (n < l0.size() ? l0[n] : x.tlabel[n]); v.what = "one run has further results"; } break; }
               if (t0[i] != x.transcript[i] || l0[i] != x.tlabel[i]) { v.sig = "C11 " + l0[i]; v.what = "the result of \"" + l0[i] + "\" depends on the contents or placement of memory (variant " + std::to_string(k) + ")"; break; }
          }
          if (v.any()) return v;
     }
     return v;
}

Violation check_conc(const History &h, Stats &st) __attribute__((weak));
Violation check_bind(const History &h, Stats &st) __attribute__((weak));
Violation check_history(const History &h, Stats &st) {
     if (h.prop == "C04") { if (check_conc) return check_conc(h, st); abort(); }
     if (h.prop == "C19") { if (check_bind) return check_bind(h, st); abort(); }
     if (h.prop == "C11") return check_memory(h, st);
     Exec x(h, st); x.run();
     return x.v;
}
