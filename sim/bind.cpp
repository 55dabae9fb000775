#define PY_SSIZE_T_CLEAN
#include <Python.h>
/* C19: one history of calls played through the C++, Fortran 77, Fortran 90 and Python interfaces and
   through the C interface.  Status, values read back, solutions and memory held must agree. */
#include "exec.h"
#include <string.h>
#include <math.h>
#include <array>
#include <xrtm_int_cpp.h>
#include <xrtm_fd_int_cpp.h>

extern "C" uint64_t cov_limit;
/* What the caller knows about the instance a call is made on. */
static struct BM {
     int nl, ne, mc, nd, nfd, no, nt, nt2, ns, nq, nkq, nk; const int *ncoef; const std::vector<int> *kernels; void *slot, *fdslot; bool overrun, derivs;
     int nc(int i) const { return i >= 0 && i < nl ? ncoef[i] : 0; }
     int np(int k) const { return k >= 0 && k < nk ? kernel_npar((*kernels)[k]) : 0; }
} bm;

/* An array as Fortran passes it, between guards. */
template <class T, int R> struct Flat {
     T *p; std::array<int, R> n; size_t tot; bool out; void *tab; T *mem; static constexpr int G = 4;
     static T guard() { return (T) 1234567; }
     template <class X> void walk(X *t, int d, T *&q, bool to) {
          if constexpr (std::is_pointer<X>::value) { for (int i = 0; i < n[d]; ++i) walk(t[i], d + 1, q, to); }
          else { for (int i = 0; i < n[d]; ++i) { if (to) q[i] = t[i]; else t[i] = q[i]; } q += n[d]; }
     }
     template <class X> Flat(X *t, std::array<int, R> dims, bool o) : n(dims), out(o), tab(t) {
          tot = 1; for (int i = 0; i < R; ++i) tot *= n[i];
          mem = new T[tot + 2 * G]; for (int i = 0; i < G; ++i) mem[i] = mem[G + tot + i] = guard(); p = mem + G;
          for (size_t i = 0; i < tot; ++i) p[i] = (T) bm.mc;      /* numbers of coefficients not given: all of them */
          if (tab) { T *q = p; walk(t, 0, q, true); }
          wb = out && tab ? &Flat::template writeback<X> : 0;
     }
     template <class X> void writeback() { T *q = p; walk((X *) tab, 0, q, false); }
     void (Flat::*wb)() = 0;
     void back() { for (int i = 0; i < G; ++i) if (mem[i] != guard() || mem[G + tot + i] != guard()) bm.overrun = true; if (wb) (this->*wb)(); delete[] mem; }
};
#define CPP_TRY try
#define CPP_CATCH(cls, r) catch (const std::bad_alloc &) { return r; } catch (...) { return r; }
static xrtm_data *bm_raw(xrtm_data *d);
#include "bindgen.h"
static xrtm_data *bm_raw(xrtm_data *d) { return (xrtm_data *) *(xrtm_int_cpp **) d; }
#include "pycall.h"

struct Lang : Api {
     virtual int query(int k, VD &v) = 0;
     virtual int fd_create(int n) = 0; virtual int fd_destroy() = 0; virtual int fd_set(const Config &c, int n, const Op &o, VD &v) = 0;
     virtual void fd_get(const Config &c, int nd, const Op &o, VD &v) = 0; virtual int fd_solve(const Op &o, double **phis, Outs &r) = 0;
};
#undef CAPI_PLACE
#define CAPI_PLACE(s) ((xrtm_data *) bm.slot)
/* not part of the other interfaces: the C functions */
#define RAW(d) (d)
#define xrtm_get_n_elem(d) (cfg.n_elem())
#define xrtm_clear_saved(d) (xrtm_clear_saved)(RAW(d))
#define xrtm_set_kernel_func(d, a, b, c) (xrtm_set_kernel_func)(RAW(d), a, b, c)
#define xrtm_solution_2(d, ...) (-1)
namespace lang_c {
#include "bindlang.inc"
}
namespace lang_f77 {
#include "bind_f77.h"
#include "bindlang.inc"
}
namespace lang_f90 {
#include "bind_f90.h"
#include "bindlang.inc"
}
namespace lang_cpp {
#include "bind_cpp.h"
#undef RAW
#define RAW(d) (bm_raw(d))
#include "bindlang.inc"
}
namespace lang_py {
#include "bind_py.h"
#undef RAW
#define RAW(d) (py_raw(d))
#include "bindlang.inc"
}
extern "C" int s90_sizes(int k); extern "C" void s90_constants(int *v); extern "C" void s77_constants_(int *n, int *v);
static const char *lname[6] = {"C", "C", "C++", "Fortran 77", "Fortran 90", "Python"};
static Lang *make_lang(int k) { if (k == 2) return new lang_cpp::L; if (k == 3) return new lang_f77::L; if (k == 4) return new lang_f90::L; if (k == 5) return new lang_py::L; return new lang_c::L; }
static int slot_bytes(int k, bool fd) {
     int n[2], v[256]; if (k == 4) return s90_sizes(fd); if (k == 3) { s77_constants_(n, v); return n[fd]; }
     if (k == 2 || (k == 5 && !fd)) return sizeof(void *); return fd ? sizeof(xrtm_fd_data) : sizeof(xrtm_data);
}

struct Player {
     const History &h; int kind; bool faults; std::vector<std::string> lab; std::vector<uint64_t> tr; std::vector<std::string> val; std::vector<VD> full; std::string bad, badsig; bool abnormal = false; Stats &st; long solutions = 0, faulted = 0, rejected = 0, gets = 0; uint64_t steps = 0;
     struct In { std::unique_ptr<Lang> a; Inputs in; bool alive = false, fd = false; int nfd = 0; Inputs fdp; std::vector<unsigned char> slot, fdslot; VI ncoef; };
     std::vector<In> inst; bool blocks_known = true;
     Player(const History &h_, int k, bool f, Stats &s) : h(h_), kind(k), faults(f), st(s) {}
     void note(const std::string &l, const void *p, size_t n, const std::string &t = "") { lab.push_back(l); tr.push_back(fnv(p, n)); val.push_back(t); full.push_back(VD()); }
     void notes(const std::string &l, int s) { int x = s == 0 ? 0 : 1; note(l, &x, sizeof x, s == 0 ? "no error" : "an error"); if (s) rejected++; }
     void notev(const std::string &l, const VD &v) { VD t = v; for (double &x : t) if (isnan(x)) x = NAN; else if (x == 0.) x = 0.; char b[300]; int q = 0; b[0] = 0; for (size_t i = 0; i < t.size() && i < 8; ++i) q += snprintf(b + q, sizeof b - q, "%s%.17g", i ? " " : "", t[i]); note(l, t.data(), t.size() * 8, b); full.back() = t; }
     void focus(int i) {
          In &I = inst[i]; const Config &c = h.cfg[i];
          bm = {c.n_layers, c.n_elem(), c.max_coef, c.n_derivs, I.nfd, c.n_out_levels, c.n_out_thetas, c.n_out2(), c.n_stokes, c.n_quad, c.n_kernel_quad, c.n_kernels(), I.ncoef.data(), &c.kernels, I.slot.data() + 64, I.fdslot.data() + 64, false, c.opt(XRTM_OPTION_CALC_DERIVS)};
     }
     template <class F> bool go(const Op *o, F f) {
          static const rt_fault none = {0, 0, 0, 0}; rt_arm(o && faults ? &o->f : &none); cov_steps = 0; cov_limit = 400000000;
          bool ok = false; if (!sigsetjmp(rt_env, 1)) { rt_enter(); f(); rt_leave(); ok = true; }
          rt_disarm(); cov_limit = ~0ull; st.steps += cov_steps; return ok;
     }
     void guards(int i, const std::string &l, bool heap = true) {
          if (!bad.empty()) return; In &I = inst[i]; char m[300];
          auto chk = [&](std::vector<unsigned char> &s) { for (size_t k = 0; k < 64; ++k) if (s[k] != 0xA5 || s[s.size() - 1 - k] != 0xA5) return true; return false; };
          if (chk(I.slot)) { badsig = "C19 storage " + l; bad = fmt("writes outside the %d bytes the %s interface sets aside for an instance", slot_bytes(kind, false), lname[kind]); }
          else if (chk(I.fdslot)) { badsig = "C19 storage " + l; bad = "writes outside the bytes set aside for a finite-difference instance"; }
          else if (bm.overrun) { badsig = "C19 array bounds " + l; bad = "writes outside an array of the caller"; }
          else if (!py_bad.empty()) { badsig = "C19 Python " + py_bad; bad = "through the Python interface " + py_bad; py_bad.clear(); }
          else if (heap && kind && rt_check_heap(m, sizeof m)) { badsig = "C19 heap " + l; bad = m; }
     }
     void run();
};
void Player::run() {
     rt_reset(&h.heap); inst.clear(); inst.resize(h.cfg.size()); int opi = -1;
     for (const Op &o : h.ops) {
          opi++; if (o.inst < 0 || o.inst >= (int) inst.size()) continue;
          In &I = inst[o.inst]; const Config &c = h.cfg[o.inst]; int s = -77; std::string l = code_name[o.code]; bool ok = true; VD v; Outs r; std::vector<double *> rows; VD ph;
          if (o.code != O_CREATE && !I.alive) continue;
          if (o.code == O_CREATE && I.alive) continue;
          if (o.code == O_CREATE) {
               I.a.reset(make_lang(kind)); I.slot.assign(slot_bytes(kind, false) + 128, 0xA5); I.fdslot.assign(slot_bytes(kind, true) + 128, 0xA5); I.ncoef.assign(std::max(c.n_layers, 1), c.max_coef); I.nfd = 0; I.fd = false;
          }
          auto solve_args = [&](const Config &k) { r.shape(k, o.iv[2], SENTINEL); int np = std::max(1, o.iv[2]); ph = o.dv; ph.resize((size_t) c.n_out2() * np, 0.); rows.clear(); for (int i = 0; i < c.n_out2(); ++i) rows.push_back(ph.data() + (size_t) i * np); };
          std::function<void()> f;
          focus(o.inst); Op oo = o; if (oo.dv.size() < 8192) oo.dv.resize(8192, 0.); if (oo.iv.size() < 64) oo.iv.resize(64, 0);
          switch (o.code) {
          case O_CREATE: f = [&]() { s = I.a->create(c); }; break;
          case O_DESTROY: if (I.fd) { go(0, [&]() { I.a->fd_destroy(); }); I.fd = false; } f = [&]() { s = I.a->destroy(); }; break;
          case O_SET: if (I.in.set_expect(o) < 0) continue; l += std::string(" ") + field_name[o.iv[0]]; f = [&]() { s = I.a->set(o.iv[0] == F_COEF || o.iv[0] == F_COEF_L ? o : oo); }; break;
          case O_UPDATE: if (!c.n_derivs) continue; f = [&]() { s = I.a->update(); }; break;
          case O_CLEAR: f = [&]() { I.a->clear(); s = 0; }; break;
          case O_SOLVE: if (I.in.solve_expect(o) < 0) continue; solve_args(c); l += fmt(" %s", xrtm_solver_mask_to_name((enum xrtm_solver_mask) o.iv[0]) ? xrtm_solver_mask_to_name((enum xrtm_solver_mask) o.iv[0]) : "?"); f = [&]() { s = I.a->solve(o, rows.data(), r); }; break;
          case O_FD_CREATE: if (I.fd || o.iv[0] < 1) continue; I.nfd = o.iv[0]; focus(o.inst); f = [&]() { s = I.a->fd_create(o.iv[0]); }; break;
          case O_FD_DESTROY: if (!I.fd) continue; f = [&]() { s = I.a->fd_destroy(); }; break;
          case O_FD_SET: { if (!I.fd) continue; I.fdp.n_coef = I.in.n_coef; bool del = o.iv[0] == N_FIELDS; if (del ? (int) o.dv.size() != I.nfd : I.fdp.set_expect(o) < 0) continue; if (o.iv[0] == F_COEF_L) { bool m = false; for (int x : I.in.hcoef) if (!x) m = true; if (m) continue; }
               if (!del) l += std::string(" ") + field_name[o.iv[0]]; f = [&]() { s = I.a->fd_set(c, I.nfd, o.iv[0] == F_COEF_L ? o : oo, v); }; break; }
          case O_FD_SOLVE: { if (!I.fd || I.in.solve_expect(o) < 0) continue; Config k = c; k.n_derivs = I.nfd; solve_args(k); l += fmt(" %s", xrtm_solver_mask_to_name((enum xrtm_solver_mask) o.iv[0]) ? xrtm_solver_mask_to_name((enum xrtm_solver_mask) o.iv[0]) : "?"); f = [&]() { s = I.a->fd_solve(o, rows.data(), r); }; break; }
          default: continue;
          }
          long before = rt_live_blocks();
          ok = go(&o, f); guards(o.inst, l);
          if (ok && bad.empty() && faults && s && (rt_alloc_fired() || rt_lapack_fired())) {   /* refused for want of memory: nothing has been done, so the call can be made again */
               faulted++; l += " after a failed allocation"; if (o.code == O_SOLVE || o.code == O_FD_SOLVE || o.code == O_UPDATE) blocks_known = false;
               if ((o.code == O_CREATE || o.code == O_FD_CREATE || o.code == O_SET || o.code == O_FD_SET) && rt_live_blocks() != before) { badsig = "C19 leak " + l; bad = fmt("a call through the %s interface refused for want of memory leaves %ld blocks", lname[kind], rt_live_blocks() - before); }
               if (o.code == O_CREATE) I.slot.assign(I.slot.size(), 0xA5); if (o.code == O_SOLVE) solve_args(c); if (o.code == O_FD_SOLVE) { Config k = c; k.n_derivs = I.nfd; solve_args(k); }
               bm.overrun = false; ok = go(0, f); guards(o.inst, l);
               l = l.substr(0, l.size() - strlen(" after a failed allocation"));
          }
          if (!ok) { int e[1] = {1}; note(l + " abnormal end", e, sizeof e, fmt("signal %d", rt_signal)); abnormal = true; return; }
          if (!bad.empty()) return;
          notes(l, s);
          switch (o.code) {
          case O_CREATE: I.alive = s == 0; I.in = Inputs(c); if (I.alive) { VI w(64, 0); int n = 0; if (go(0, [&]() { n = I.a->counts(w.data()); })) note("instance properties", w.data(), n * sizeof(int)); else { note("instance properties abnormal end", "", 0); abnormal = true; return; }
               for (int k = 0; k < (c.n_kernels() ? 4 : 2); ++k) { int q = 0; if (!go(0, [&]() { q = I.a->query(k, v); })) { note("quadrature abnormal end", "", 0); abnormal = true; return; } guards(o.inst, "quadrature", false); if (!bad.empty()) return; v.resize(k < 2 ? bm.nq : bm.nkq); notes("quadrature", q); notev("quadrature", v); } } break;
          case O_DESTROY: I.alive = false; break;
          case O_SET: if (s == 0) { I.in.set_apply(o); if (o.iv[0] == F_COEF) I.ncoef = I.in.n_coef; } break;
          case O_UPDATE: if (!s) I.in.updated(); break;
          case O_SOLVE: case O_FD_SOLVE: I.in.solved = true; if (s == 0) { solutions++; for (int k = 0; k < 12; ++k) if (!r.d[k].empty()) notev(l + " " + out_name[k], r.d[k]); } break;
          case O_FD_CREATE: if (s == 0) { I.fd = true; I.fdp = Inputs(fd_config(c, I.nfd)); } break;
          case O_FD_DESTROY: I.fd = false; break;
          case O_FD_SET: { if (s == 0 && o.iv[0] != N_FIELDS) I.fdp.set_apply(o); VD g; if (!go(0, [&]() { I.a->fd_get(c, I.nfd, o, g); })) { note(l + " read back: abnormal end", "", 0); abnormal = true; return; } notev(l + " read back", g); gets++; break; }
          }
          if (I.alive && (o.code == O_SET || o.code == O_SOLVE)) {   /* reads: what was set, and a sample of everything with an index now and then out of range */
               Rng q(h.seed * 7919 + opi); std::vector<Expect> es = expected(I.in, true); int n = 0;
               for (const Expect &e : es) {
                    bool mine = o.code == O_SET && e.g.field == o.iv[0]; if (mine ? n > 12 && !q.chance(.1) : !q.chance(.02)) continue; n++;
                    Get g = e.g; if (q.chance(.06)) { int d = q.pick({-1, 1, 7, -3}) ; int w = q.below(3); if (w == 0) g.i0 += d; else if (w == 1 && g.i1 != -100) g.i1 += d; else if (w == 2) g.i2 += d; }
                    GetR x; if (!go(0, [&]() { x = I.a->get(g, c); })) { note(fmt("get %s abnormal end", field_name[g.field]), "", 0); abnormal = true; return; }
                    x.v.insert(x.v.begin(), x.status); notev(fmt("get %s", field_name[g.field]), x.v); gets++; guards(o.inst, fmt("get %s", field_name[g.field]), false); if (!bad.empty()) return;
               }
          }
          if (blocks_known) { long b = rt_live_blocks(); note("memory held after " + l, &b, sizeof b, fmt("%ld blocks", b)); }
     }
     for (size_t i = 0; i < inst.size(); ++i) if (inst[i].alive) { focus((int) i); if (inst[i].fd) go(0, [&]() { inst[i].a->fd_destroy(); }); inst[i].fd = false; if (!go(0, [&]() { inst[i].a->destroy(); })) { abnormal = true; return; } inst[i].alive = false; }
     long b = rt_live_blocks(); if (b) { badsig = "C19 leak"; bad = fmt("%ld blocks (%zu bytes) are left after everything is destroyed through the %s interface", b, rt_live_bytes(), lname[kind]); }
}

static bool constants(Violation &v) {
     size_t n = sizeof bind_constants / sizeof *bind_constants; static int a[512], b[512], z[2]; s90_constants(a); s77_constants_(z, b);
     for (size_t i = 0; i < n; ++i) {
          const char *w = bind_constants[i].cpp != bind_constants[i].c ? "C++" : b[i] != bind_constants[i].c ? "Fortran 77" : a[i] != bind_constants[i].c ? "Fortran 90" : 0;
          if (w) { v.sig = std::string("C19 constant ") + bind_constants[i].name; v.what = fmt("%s has another value in %s (C++ %d, Fortran 77 %d, Fortran 90 %d) than in C (%d)", bind_constants[i].name, w, bind_constants[i].cpp, b[i], a[i], bind_constants[i].c); return true; }
     }
     return false;
}

Violation check_bind(const History &h, Stats &st) {
     Violation v; int kind = h.par.count("api") ? h.par.at("api") : 2; if (constants(v)) return v;
     if (kind == 5) py_start(); py_bad.clear(); py_calls = h.seed; Stats none; Player c(h, 0, false, none); c.run();
     Player b(h, kind, true, st); b.run();
     st.n[std::string("histories through ") + lname[kind]]++; st.n["solutions"] += b.solutions; st.n["rejected calls"] += b.rejected; st.n["values read back"] += b.gets; st.n["results compared"] += (long) std::min(b.tr.size(), c.tr.size()); st.n["calls refused for want of memory and repeated"] += b.faulted;
     if (b.solutions) st.nontrivial = true;
     std::string sig, what; size_t at = 0; bool blocks = b.blocks_known; size_t i = 0, j = 0;
     auto skip = [&](Player &p, size_t &k) { while (!blocks && k < p.lab.size() && p.lab[k].compare(0, 12, "memory held ") == 0) k++; };
     for (;; ++i, ++j) {
          skip(c, i); skip(b, j);
          if (i >= c.lab.size() || j >= b.lab.size()) {
               if (i < c.lab.size() && b.bad.empty()) { sig = "C19 length " + c.lab[i]; what = "the history ends early through " + std::string(lname[kind]) + " before " + c.lab[i]; at = i; }
               else if (j < b.lab.size() && !c.abnormal) { sig = "C19 " + b.lab[j]; what = "through " + std::string(lname[kind]) + " only: " + b.lab[j] + " " + b.val[j]; at = i; }
               break;
          }
          auto unwritten = [&]() {      /* Python makes new arrays: what C leaves as it was may be anything there */
               const VD &x = c.full[i], &y = b.full[j]; if (kind != 5 || c.lab[i] != b.lab[j] || x.size() != y.size() || x.empty()) return false;
               for (size_t n = 0; n < x.size(); ++n) if (x[n] != SENTINEL && memcmp(&x[n], &y[n], 8)) return false;
               return true;
          };
          if ((c.lab[i] != b.lab[j] || c.tr[i] != b.tr[j]) && !unwritten()) { sig = std::string("C19 ") + lname[kind] + " " + b.lab[j]; what = b.lab[j] + " gives " + b.val[j] + " through " + lname[kind] + ", " + c.val[i] + " through C" + (c.lab[i] != b.lab[j] ? " (" + c.lab[i] + ")" : ""); at = i; break; }
     }
     if (sig.empty()) { if (!b.bad.empty() && c.bad.empty()) { v.sig = b.badsig; v.what = b.bad; } return v; }
     /* results of the C interface that depend on what memory held are not judged here */
     static const int fills[3] = {FILL_RANDOM, FILL_BIG, FILL_ZERO};
     for (int k = 0; k < 3; ++k) {
          History q = h; q.heap.fill = fills[k]; q.heap.reuse = 0; q.heap.fill_seed += 91 * (k + 1); Player x(q, 0, false, none); x.run();
          bool same = x.lab.size() == c.lab.size(); for (size_t n = 0; same && n <= at && n < x.lab.size(); ++n) if (x.lab[n] != c.lab[n] || x.tr[n] != c.tr[n]) same = false;
          if (!same) { st.n["mismatches left to C11 (results depend on memory)"]++; if (getenv("SIM_UNSTABLE")) st.n["unstable: " + sig + ": " + what]++; return v; }
     }
     v.sig = sig; v.what = what; return v;
}
