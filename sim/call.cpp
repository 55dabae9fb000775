/* C17, C18, C27: the program callxrtm, run as a process of the simulation.

   The first configuration and the O_SET operations say what the input file says; the O_SOLVE operation what the
   command line asks for; each O_RUN operation is one process (or one for each byte of a sweep):
   run: iv = {delivery (0 file, 1 standard input, 2 command line), target of the fault (0 input, 1 coefficient file, 2 standard output),
              fault, position (-1: swept), buffer, chunk, style of the text, flags, byte} */
#include "exec.h"
#include "disk.h"
#include <string.h>
#include <errno.h>
#include <time.h>
extern "C" {
#include <gutil.h>
#include <rtutil_scat_io.h>
extern uint64_t cov_limit; extern char __start_repodata[], __stop_repodata[];
int callxrtm_main(int, char **);
clock_t __wrap_clock(void) { static clock_t t; return rt_in_call ? (t += 12345) : 0; }
}
bool disk_has(FILE *f);
History io_pin(const History &h);
namespace {
typedef std::string Str;
enum { DEL, TARGET, FAULT, POS, BUF, CHUNK, STYLE, FLAGS, BYTE, N_RUN };
enum { FL_TIMING = 1, FL_NOSOLVER = 2, FL_NOPHI = 4, FL_QUIET = 8, FL_OMIT = 16 };
const int BAD = 100;              /* a statement that must be refused, in place of an I/O fault */
struct St { size_t a, b, last; bool isint; int op; };
struct Doc { Str text, head; std::vector<St> st; std::vector<char> cls; std::map<Str, int> files; bool brief = false; std::vector<Op> ops; size_t create_end = 0; };
const char *fname[N_FIELDS] = {"doub_d_tau", "pade_params", "sos_params", "fourier_tol", "lambda", "planet_r", "levels_z", "out_levels", "out_taus", "out_thetas", "F_iso_top", "F_iso_bot", "F_0", "theta_0", "phi_0", "levels_b", "surface_b", "g", "coef", "omega", "ltau", "kernel_ampfac", "kernel_params", 0,
     "F_iso_top_l", "F_iso_bot_l", "levels_b_l", "surface_b_l", "g_l", "coef_l", "omega_l", "ltau_l", "kernel_ampfac_l", "kernel_params_l"};
/* ---- the text of an input file */
struct Writer {
     Rng r; int del; Doc d; const Config &c; int style;
     int nfd; bool omit;
     Writer(const Config &cfg, uint64_t seed, int delivery, int fd, bool om) : r(seed), del(delivery), c(cfg), nfd(fd), omit(om) { style = r.below(3); }
     void put(const Str &s, char cls = 0) { d.text += s; d.cls.resize(d.text.size(), cls); }
     Str I(int x) { return std::to_string(x); }
     Str D(double x) {
          char b[64]; if (x == (double) (int) x && std::fabs(x) < 1e6 && r.chance(.4)) { snprintf(b, sizeof b, r.chance(.5) ? "%.0f" : "%.0f.", x); if (!strncmp(b, "-0", 2)) return "0."; return b; }
          snprintf(b, sizeof b, "%.17g", x); if (!strchr(b, '.')) snprintf(b, sizeof b, "%.17e", x); Str s = b; if (s.compare(0, 2, "0.") == 0 && s.size() > 2 && s[2] != 'e' && r.chance(.3)) s = s.substr(1); return s;
     }
     Str sp() { return style == 0 ? "" : style == 1 ? " " : r.pick({"", " ", "  ", "\t"}); }
     void gap() {
          if (del == 2) { put(r.chance(.8) ? " " : "  \t"); return; }
          put(r.chance(.7) ? "\n" : r.chance(.5) ? " " : "\n\n  "); if (style == 1) return;
          if (r.chance(.08)) { put("//", 2); put(" ", 1); put(r.pick({"omega = {1.}", "x /* y", "a 'quote", "'"}), 1); put("\n", 2); }
          if (r.chance(.08)) { size_t a = d.text.size(); put("/*", 2); put(r.pick({" ltau[0] = 1. ", " two\n lines // ", "**", " it's "}), 1); put("*/", 2); (void) a; put(" "); }
     }
     Str arr1(const std::vector<Str> &v) { Str o = del == 2 ? "" : "{"; for (size_t i = 0; i < v.size(); ++i) { if (i) o += "," + sp(); o += v[i]; } return o + (del == 2 ? "" : "}"); }
     Str arrn(const std::vector<Str> &v) { Str o = del == 2 ? "" : "{"; for (size_t i = 0; i < v.size(); ++i) { if (i) o += Str(del == 2 ? ";" : ",") + (style == 2 && del != 2 ? "\n  " : sp()); o += v[i]; } return o + (del == 2 ? "" : "}"); }
     std::vector<Str> Ds(const double *v, int n, int stride = 1) { std::vector<Str> o; for (int i = 0; i < n; ++i) o.push_back(D(v[(size_t) i * stride])); return o; }
     /* one statement; last: where its last number starts, if it ends in one */
     void stmt(int op, const Str &name, const Str &dims, const Str &val, long last, bool isint) {
          gap(); St s; s.a = d.text.size(); s.op = op; s.isint = isint; Str l = del == 2 ? "-" + name + dims + " " : name + (dims.size() ? sp() + dims : "") + (style == 2 && r.chance(.3) ? "\t=\n" : sp() + "=" + sp());
          put(l); for (size_t i = 0, q = 0; i < val.size(); ++i) { if ((val[i] == '\'' || val[i] == '"') && (!q || q == (size_t) val[i])) q = q ? 0 : val[i]; put(Str(1, val[i]), q ? 2 : 0); }
          s.b = d.text.size(); s.last = last < 0 ? Str::npos : s.b - (val.size() - last); d.st.push_back(s);
     }
     Str quote(const Str &s) { const char *q = r.chance(.5) ? "'" : "\""; return q + s + q; }
     Str dims(std::initializer_list<int> l) { Str o; for (int x : l) { if (x == -2) break; o += "[" + (x < 0 ? Str(":") : I(x)) + "]"; } return o; }
     void list(const Str &name, const std::vector<Str> &v) { Str o = del == 2 ? "" : "("; for (size_t i = 0; i < v.size(); ++i) { if (i) o += "," + sp(); o += r.chance(.8) ? quote(v[i]) : v[i]; } stmt(-1, name, "", o + (del == 2 ? "" : ")"), -1, false); }
     void create() {
          std::vector<std::function<void()>> f; auto in = [&](const char *n, int v, int def = -1) { if (omit && v == def && r.chance(.6)) return; f.push_back([this, n, v] { stmt(-1, n, "", I(v), 0, true); }); };
          in("max_coef", c.max_coef); in("n_quad", c.n_quad, 16); in("n_stokes", c.n_stokes, 1); in("n_derivs", nfd ? nfd : c.n_derivs, 0); in("n_layers", c.n_layers, 1); in("n_kernels", c.n_kernels(), 0); in("n_kernel_quad", c.n_kernel_quad, 16); in("n_out_levels", c.n_out_levels, 1); in("n_out_thetas", c.n_out_thetas, 0); if (nfd) in("fd", r.below(3));
          std::vector<Str> o, s, k; for (int i = 0; i < xrtm_option_n(); ++i) if (c.options & xrtm_option_index_to_mask(i)) o.push_back(xrtm_option_index_to_name(i)); for (int i = 0; i < xrtm_solver_n(); ++i) if (c.solvers & xrtm_solver_index_to_mask(i)) s.push_back(xrtm_solver_index_to_name(i)); for (int x : c.kernels) k.push_back(xrtm_kernel_value_to_name((enum xrtm_kernel_type) x));
          if (o.size()) f.push_back([this, o] { list("options", o); }); f.push_back([this, s] { list("solvers", s); }); if (k.size()) f.push_back([this, k] { list("kernels", k); });
          if (r.chance(.6)) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
          for (auto &q : f) q(); d.create_end = d.text.size();
     }
     int cols() const { return c.opt(XRTM_OPTION_VECTOR) ? 6 : 1; }
     /* values[ne][n], as the file has them: rows of the elements */
     Str coefs(const double *v, int n, int stride) { std::vector<Str> rows; int ne = c.n_elem(); for (int k = 0; k < n; ++k) { std::vector<Str> q; for (int e = 0; e < cols(); ++e) q.push_back(e < ne ? D(v[(size_t) e * stride + k]) : D(r.chance(.5) ? 0. : r.u(-1., 1.))); rows.push_back(arr1(q)); } return arrn(rows); }
     Str file(const double *v, int n, int stride, bool lin = false) {
          const int n0 = n, ne = c.n_elem(); bool six = ne == 6 || r.chance(.2);
          if (lin && r.chance(.6)) while (n > 1) { bool z = true; for (int e = 0; e < ne; ++e) z &= v[(size_t) e * stride + n - 1] == 0.; if (!z) break; n--; if (n < n0) d.brief = true; }   /* the missing ones are zero */
          if (ne == 6) { bool z = true; for (int k = 0; k < n; ++k) for (int e = 1; e < 6; ++e) z &= v[(size_t) e * stride + k] == 0.; if (z && r.chance(.7)) { six = false; d.brief = true; } }
          int more = !lin && n0 == c.max_coef && r.chance(.2) ? r.range(1, 3) : 0;     /* more than max_coef: not used */
          Str nm = "c" + I((int) d.files.size()); d.files[nm] = 1; Str o; char b[64]; static const char *lab[] = {"lambda", "mr", "mi", "dist_type", "a1", "a2", "a3", "a4", "a5", "r1", "r2", "n_int1", "n_int2", "n_quad", "norm", "reff", "veff", "gavg", "vavg", "ravg", "rvw", "cext", "csca", "cbak", "g"};
          for (int i = 0; i < 25; ++i) { o += Str(lab[i]) + " = " + (i == 3 ? "log_normal" : i >= 11 && i <= 13 ? "0" : "0.") + "\n"; } o += I(n + more) + "\n";
          for (int k = 0; k < n + more; ++k) { for (int e = 0; e < (six ? 6 : 1); ++e) { snprintf(b, sizeof b, "%.17e", e < ne && k < n ? v[(size_t) e * stride + k] : .25); o += (e ? " " : "") + Str(b); } o += "\n"; } disk[nm] = o;
          return quote((six ? "gc6:" : "gc:") + nm);
     }
     /* a phase function by name: kind and parameters */
     Str named(const double *q, bool lin) {
          static const char *nm[] = {"hg", "dhg", "ray"}; static const int np[] = {1, 3, 1}; int k = (int) q[0]; Str o = nm[k]; if (lin) o += "_l"; char b[64];
          for (int i = 0; i < np[k] * (lin ? 2 : 1); ++i) { snprintf(b, sizeof b, "%.17g", q[1 + i]); o += Str(":") + b; } return quote(o);
     }
     void set(int k, const Op &o) {
          int f = o.iv[0], a = o.iv[1], b = o.iv[2], e = o.iv[3]; const int *iv = o.iv.data() + 5; const double *v = o.dv.data(); int nl = c.n_layers, nd = o.code == O_FD_SET ? nfd : c.n_derivs, ne = c.n_elem(), mc = c.max_coef; Str n = f == N_FIELDS ? "delta" : fname[f], pl = "_l"; if (o.code == O_FD_SET && f != N_FIELDS) { n = n.substr(0, n.size() - 2) + "_p"; pl = "_p"; }
          auto one = [&](const Str &dm) { stmt(k, n, dm, D(v[0]), 0, false); };
          auto many = [&](const Str &dm, int m) { stmt(k, n, dm, arr1(Ds(v, m)), -1, false); };
          bool full = r.chance(.3);                    /* [:] written out */
          switch (f) {
          case F_DOUB: case F_FTOL: case F_LAMBDA: case F_RADIUS: case F_FTOP: case F_FBOT: case F_F0: case F_THETA0: case F_PHI0: case F_SURFB: one(""); break;
          case F_PADE: { Str x = I(iv[0]) + "," + sp(); stmt(k, n, "", x + I(iv[1]), x.size(), true); break; }
          case F_SOS: { Str x = I(iv[0]) + "," + D(v[0]) + "," + sp(); stmt(k, n, "", x + D(v[1]), x.size(), false); break; }
          case F_LEVZ: case F_LEVB: many("", nl + 1); break;
          case F_OTAU: many("", c.n_out_levels); break;
          case F_OTHETA: many("", c.n_out_thetas); break;
          case F_OLEV: { std::vector<Str> q; for (int i = 0; i < c.n_out_levels; ++i) q.push_back(I(iv[i])); stmt(k, n, "", arr1(q), -1, false); break; }
          case F_OMEGA: case F_LTAU: if (a >= 0) one(dims({a})); else many(full ? "[:]" : "", nl); break;
          case F_KAMP: one(dims({a})); break;
          case F_KPAR: if (b >= 0) one(dims({a, b})); else many(full ? dims({a, -1}) : dims({a}), kernel_npar(c.kernels[a])); break;
          case F_COEF: {
               int m = iv[0] < 0 ? mc : iv[0];
               if (a >= 0) { if (o.dv.size() > (size_t) m * ne) stmt(k, "coef_files", dims({a}), named(v + m * ne, false), -1, false); else if (r.chance(.3)) stmt(k, "coef_files", dims({a}), file(v, m, m), -1, false); else stmt(k, n, dims({a}), I(m) + "," + sp() + coefs(v, m, m), -1, false); }
               else { bool fl = r.chance(.3); std::vector<Str> q; size_t at = 0; for (int i = 0; i < nl; ++i) { m = iv[i] < 0 ? mc : iv[i]; q.push_back(fl ? file(v + at, m, m) : coefs(v + at, m, m)); at += (size_t) m * ne; } stmt(k, fl ? "coef_files" : n, full ? "[:]" : "", fl ? arr1(q) : arrn(q), -1, false); }
               break; }
          case N_FIELDS: case F_FTOP_L: case F_FBOT_L: case F_SURFB_L: many("", nd); break;
          case F_LEVB_L: { std::vector<Str> q; for (int i = 0; i <= nl; ++i) q.push_back(arr1(Ds(v + i, nd, nl + 1))); stmt(k, n, "", arrn(q), -1, false); break; }
          case F_OMEGA_L: case F_LTAU_L:
               if (a >= 0 && b >= 0) one(dims({a, b})); else if (a < 0 && b >= 0) many(dims({-1, b}), nl); else if (a >= 0) many(full ? dims({a, -1}) : dims({a}), nd);
               else { std::vector<Str> q; for (int i = 0; i < nl; ++i) q.push_back(arr1(Ds(v + i * nd, nd))); stmt(k, n, full ? "[:][:]" : r.chance(.3) ? "[:]" : "", arrn(q), -1, false); } break;
          case F_COEF_L: {
               if (o.dv.size() > (size_t) mc * ne && a >= 0 && b >= 0) { stmt(k, "coef_files" + pl, dims({a, b}), named(v + mc * ne, true), -1, false); break; }
               bool fl = r.chance(.3); int ni = a < 0 ? nl : 1, nj = b < 0 ? nd : 1; std::vector<Str> rows; size_t at = 0;
               for (int i = 0; i < ni; ++i) { std::vector<Str> q; for (int j = 0; j < nj; ++j) { const double *x = v + at; int m = o.iv.size() > (size_t) (5 + i) ? iv[i] : mc; bool z = true; for (int l = 0; l < ne * mc; ++l) z &= x[l] == 0.; q.push_back(fl ? (z && r.chance(.5) ? quote("none") : file(x, mc, mc, true)) : coefs(x, m, mc)); at += (size_t) ne * mc; }
                    rows.push_back(b >= 0 ? q[0] : fl ? arr1(q) : arrn(q)); }
               Str nm = fl ? "coef_files" + pl : n;
               if (a >= 0 && b >= 0) stmt(k, nm, dims({a, b}), rows[0], -1, false); else if (a < 0 && b >= 0) stmt(k, nm, dims({-1, b}), fl ? arr1(rows) : arrn(rows), -1, false);
               else if (a >= 0) stmt(k, nm, full ? dims({a, -1}) : dims({a}), rows[0], -1, false); else stmt(k, nm, full ? "[:][:]" : r.chance(.3) ? "[:]" : "", arrn(rows), -1, false);
               break; }
          case F_KAMP_L: if (b >= 0) one(dims({a, b})); else many(full ? dims({a, -1}) : dims({a}), nd); break;
          case F_KPAR_L: {
               int np = kernel_npar(c.kernels[a]);
               if (b >= 0 && e >= 0) one(dims({a, b, e})); else if (b < 0 && e >= 0) many(dims({a, -1, e}), nd); else if (b >= 0) many(full ? dims({a, b, -1}) : dims({a, b}), np);
               else { std::vector<Str> q; for (int j = 0; j < nd; ++j) q.push_back(arr1(Ds(v + j * np, np))); stmt(k, n, full ? dims({a, -1, -1}) : dims({a}), arrn(q), -1, false); } break; }
          }
     }
};
Doc make_doc(const Config &c, const std::vector<Op> &ops, int style, int del, int nfd, bool omit) {
     Writer w(c, style * 77ull + 5, del, nfd, omit); w.create(); if (del == 2) { w.d.head = w.d.text; w.d.text.clear(); w.d.cls.clear(); w.d.st.clear(); }
     for (size_t i = 0; i < ops.size(); ++i) w.set((int) i, ops[i]); w.d.ops = ops; w.gap(); return w.d;
}
/* ---- processes */
struct Proc { int rc = 0, status = 0; Str out, err, heap; bool fired = false; bool zero() const { return (rc == RT_OK || rc == RT_EXIT) && status == 0; } bool normal() const { return rc == RT_OK || rc == RT_EXIT; } };
struct Result { bool ok = false, abnormal = false; Outs r; VD qx; };
struct Run {
     const History &h; Stats &st; Violation v; int cur = 0; long pin_pos = -1, pin_b = -1; std::vector<char> image; Config c; std::vector<Op> sets; Op sol; VD phis; int nfd = 0, last_del = 0; uint64_t lib_steps = 0, last_steps = 0;
     Run(const History &q, Stats &s) : h(q), st(s) { static std::vector<char> im; if (im.empty()) im.assign(__start_repodata, __stop_repodata); image = im; }
     bool fail(const Str &sig, const Str &what) { if (!v.any()) { v.sig = h.prop + ":" + sig; v.what = what; v.op = cur; } return false; }
     void fresh() { memcpy(__start_repodata, image.data(), image.size()); rt_reset(&h.heap); }
     template <class F> int call(F fn) {
          uint64_t s0 = cov_steps; cov_limit = s0 + 400000000 + 6 * lib_steps; cov_hash = 0; int rc = sigsetjmp(rt_env, 1);
          if (!rc) { if (h.stack >= 0) rt_poison_stack((unsigned char) h.stack, h.stack == 256 ? h.seed | 1 : 0); rt_enter(); errno = 0; fn(); }
          rt_leave(); cov_limit = ~0ull; st.steps += cov_steps - s0; last_steps = cov_steps - s0; return rc;
     }
     /* what the library computes when it is given these inputs by calls */
     /* jit: the phase function coefficients differ in their last bit */
     Result library(const std::vector<Op> &ops0, int del, Rng *jit = 0) {
          last_del = del;
          std::vector<Op> ops; if (del == 2) ops = {mkset(0, F_DOUB, -1, -1, -1, {}, {1e-9}), mkset(0, F_PADE, -1, -1, -1, {4, 5}, {}), mkset(0, F_SOS, -1, -1, -1, {128}, {.005, 1e-9}), mkset(0, F_FTOL, -1, -1, -1, {}, {0.}), mkset(0, F_FTOP, -1, -1, -1, {}, {0.}), mkset(0, F_FBOT, -1, -1, -1, {}, {0.}), mkset(0, F_PHI0, -1, -1, -1, {}, {0.})};
          ops.insert(ops.end(), ops0.begin(), ops0.end()); if (jit) for (auto &x : ops) if (x.iv[0] == F_COEF || x.iv[0] == F_COEF_L) for (double &v : x.dv) if (v != 1.) v *= 1. + (jit->range(-2, 2)) * 1.1102230246251565e-16; xrtm_fd_data fd; memset(&fd, 0x5a, sizeof fd); VD vals;
          Result R; fresh(); std::unique_ptr<Api> api(make_c(false)); int s = 0; bool bad = false; auto ok = [&](int rc) { if (rc) R.abnormal = true; return !rc && s == 0; };
          if (!ok(call([&] { s = api->create(c); }))) return R; if (nfd && !ok(call([&] { s = xrtm_fd_create(&fd, api->raw(), nfd); }))) return R;
          for (size_t i = 0; i < ops.size() && !bad; ++i) if (!ok(call([&] { s = ops[i].code == O_FD_SET ? fd_give(&fd, c, nfd, ops[i], vals) : api->set(ops[i]); }))) bad = true;
          if (bad) return R; if (c.n_derivs && !ok(call([&] { s = api->update(); }))) return R;
          R.qx.assign(c.n_quad + c.n_out_thetas, 0.); xrtm_qx(api->raw(), R.qx.data());
          std::vector<VD> ph(c.n_out2(), phis); std::vector<double *> pp; for (auto &x : ph) pp.push_back(x.data());
          Config fc = c; if (nfd) fc.n_derivs = nfd; R.r.shape(fc, (int) phis.size(), SENTINEL); Op o = sol; o.iv[2] = (int) phis.size(); o.iv[3] = 0;
          #define OP(k, T) ((T) R.r.ptr(k))
          lib_steps = 0; int rc = call([&] { if (!nfd) s = api->solve(o, pp.data(), R.r); else s = xrtm_fd_solution(&fd, (enum xrtm_solver_mask) o.iv[0], o.iv[1], XRTM_FD_METHOD_CENTRAL, o.iv[2], pp.data(), OP(0, double ****), OP(1, double ****), OP(2, double *****), OP(3, double *****), OP(4, double *), OP(5, double *), OP(6, double **), OP(7, double **), OP(8, double *), OP(9, double *), OP(10, double **), OP(11, double **), 0, 0); });
          lib_steps = last_steps;
          #undef OP
          R.ok = !rc && s == 0; R.abnormal |= rc != 0; return R;
     }
     Proc program(const Doc &d, const Op &o, long pos, int byte, bool faultless = false) {
          Proc p; std::map<Str, Str> keep = disk; fresh(); std::vector<Str> a = {"callxrtm"}; int del = o.iv[DEL], fl = o.iv[FLAGS], out = sol.iv[1]; char b[64];
          if (del == 0) { a.push_back("-input_file"); a.push_back("in.xif"); } else if (del == 2) { a.push_back("-input_string"); a.push_back(d.head + (o.iv[STYLE] & 1 ? " ::" : "::") + d.text); }
          int first = 0; for (int i = 0; i < xrtm_solver_n() && !first; ++i) if (c.solvers & xrtm_solver_index_to_mask(i)) first = xrtm_solver_index_to_mask(i);
          if (!(fl & FL_NOSOLVER) || first != sol.iv[0]) { a.push_back("-solver"); a.push_back(xrtm_solver_mask_to_name((enum xrtm_solver_mask) sol.iv[0])); }
          if (out & 1) { if (!(phis.size() == 1 && phis[0] == 0. && (fl & FL_NOPHI))) { a.push_back("-out_phis"); Str l; for (size_t i = 0; i < phis.size(); ++i) { snprintf(b, sizeof b, "%.17g", phis[i]); l += (i ? "," : "") + Str(b); } a.push_back(l); } } else a.push_back("-no_radiance");
          if (out & 2) a.push_back("-radiance_mean"); if (out & 4) a.push_back("-flux"); if (fl & FL_TIMING) { a.push_back("-timing"); a.push_back("2"); } if (fl & FL_QUIET) a.push_back("-no_output_results");
          std::vector<std::vector<char>> s; std::vector<char *> av; for (auto &x : a) s.push_back(std::vector<char>(x.c_str(), x.c_str() + x.size() + 1)); for (auto &x : s) av.push_back(x.data()); av.push_back(0);
          static const bool loud = getenv("SIM_LOUD") != 0; if (loud) { for (auto &x : a) fprintf(stderr, "%s ", x.c_str()); fprintf(stderr, "\n%s\n", del == 2 ? "" : d.text.c_str()); }
          disk["in.xif"] = d.text; IoPlan plan; if (!faultless) { plan.kind = o.iv[FAULT]; plan.pos = pos; plan.arg = byte; plan.buf = o.iv[BUF]; plan.chunk = o.iv[CHUNK]; plan.seed = h.seed * 31 + cur * 7 + 1; }
          IoPlan none = plan; none.kind = IoPlan::NONE; int target = o.iv[TARGET]; FILE *si = stdin, *so = stdout, *se = stderr; Str in = d.text; io_stat.fired = 0;
          io_plan = del == 1 && target == 0 ? plan : none; FILE *i1 = disk_pipe(&in, false); io_plan = target == 2 ? plan : none; FILE *o1 = disk_pipe(&p.out, true); io_plan = IoPlan(); io_plan.buf = 0; FILE *e1 = disk_pipe(&p.err, true);
          io_plan = target == 2 || (del == 1 && target == 0) ? none : plan; io_plan.name = target == 0 ? "in.xif" : target == 1 ? "c" + std::to_string(o.iv[BYTE]) : "";
          stdin = i1; stdout = o1; stderr = e1; int r = 0; rt_exit_status = 0; int rc = call([&] { r = callxrtm_main((int) av.size() - 1, av.data()); });
          if (loud) fprintf(stderr, "--- rc %d status %d\n%s%s\n", rc, rt_exit_status, p.err.c_str(), p.out.c_str()); p.rc = rc; p.status = rc == RT_OK ? r & 255 : rt_exit_status & 255; char m[300];
          if (rc == RT_OK || rc == RT_EXIT) { if (disk_has(o1)) disk_close(o1); }     /* as exit() does, whose failures nobody sees */
          stdin = si; stdout = so; stderr = se; p.fired = io_stat.fired != 0; if (rt_check_heap(m, sizeof m)) p.heap = m;
          st.n["processes"]++; if (p.fired) st.n[Str("fault:") + io_kind_name[plan.kind] + (target == 0 ? " (input)" : target == 1 ? " (coefficient file)" : " (standard output)")]++; if (io_stat.short_reads) st.n["fault:short read"] += io_stat.short_reads;
          uint64_t q[2] = {cov_hash, (uint64_t) p.status}; st.states.insert(fnv(q, sizeof q)); long sr = io_stat.short_reads; (void) sr; disk_reset(); disk = keep; return p;
     }
     /* the columns of the printed results */
     const std::vector<Result> *alt = 0;
     Str differ(const Str &out, const Result &R) {
          std::vector<std::vector<Str>> rows; size_t p = 0; std::vector<Str> lines; while (p < out.size()) { size_t q = out.find('\n', p); if (q == Str::npos) return "the last line is not complete"; lines.push_back(out.substr(p, q - p)); p = q + 1; }
          size_t at = 0; int o = sol.iv[1], nd = nfd ? nfd : c.n_derivs; bool both = !c.opt(XRTM_OPTION_UPWELLING_OUTPUT) && !c.opt(XRTM_OPTION_DOWNWELLING_OUTPUT), up = both || c.opt(XRTM_OPTION_UPWELLING_OUTPUT), dn = both || c.opt(XRTM_OPTION_DOWNWELLING_OUTPUT), lev = c.opt(XRTM_OPTION_OUTPUT_AT_LEVELS);
          Inputs in(c); for (auto &x : sets) if (x.code == O_SET) in.set_apply(x); char m[200];
          auto next = [&](Str &l) { if (at >= lines.size()) return false; l = lines[at++]; return true; };
          auto head = [&](std::vector<Str> w, const char *u, const char *e) {   /* the headings name the columns */
               Str l; if (!next(l)) return false; w.insert(w.begin(), lev ? "level" : "tau"); if (up) w.push_back(u); if (dn) w.push_back(e);
               for (int g = 0; g < nd; ++g) { Str n = "[" + std::to_string(g) + "]"; if (up) w.push_back("L(" + Str(u) + ")" + n); if (dn) w.push_back("L(" + Str(e) + ")" + n); }
               std::vector<Str> t; size_t a = 0; while ((a = l.find_first_not_of(' ', a)) != Str::npos) { size_t b = std::min(l.find(' ', a), l.size()); t.push_back(l.substr(a, b - a)); a = b; } return t == w; };
          double big = 0; for (int k = 0; k < 12; ++k) for (double x : R.r.d[k]) if (x != SENTINEL) big = std::max(big, std::fabs(x));
          auto cell = [&](const Str &l, size_t a, int w, const double &x, const char *what, int i, double tol = -1) -> Str { double more = 0; if (alt) for (int k = 0; k < 12; ++k) if (!R.r.d[k].empty() && &x >= R.r.d[k].data() && &x < R.r.d[k].data() + R.r.d[k].size()) for (auto &z : *alt) more = std::max(more, 20. * std::fabs(z.r.d[k][&x - R.r.d[k].data()] - x)); if (a + w > l.size()) return Str("row too short"); Str t = l.substr(a, w); char *e; double y = strtod(t.c_str(), &e); if (*e || e == t.c_str()) return "no number: '" + t + "'"; if (!(std::fabs(x - y) <= (tol >= 0 ? tol : 2e-6 * std::fabs(x) + 1e-9 * big + more)) && !(x != x && y != y) && x != y) { snprintf(m, sizeof m, "%s, level %d: %s printed, the library gives %.9g", what, i, t.c_str(), x); return m; } return ""; };
          auto first = [&](const Str &l, int i) { return lev ? cell(l, 0, 14, in.olev[i], "level", i, 0.) : cell(l, 0, 14, in.otau[i], "tau", i, 1e-6 * std::fabs(in.otau[i])); };
          const int nt = c.n_out2(), np = (int) phis.size(), ns = c.n_stokes; Str l, x;
          if (o & 1) {
               if (!head({"theta", "phi", "i_stokes"}, "I_up", "I_dn")) return "no heading of the radiances";
               for (int i = 0; i < c.n_out_levels; ++i) for (int j = 0; j < nt; ++j) for (int k = 0; k < np; ++k) for (int s = 0; s < ns; ++s) {
                    if (!next(l)) return "radiances are missing"; if (!(x = first(l, i)).empty()) return x; size_t a = 14;
                    double th = c.n_out_thetas ? in.otheta[j] : acos(R.qx[j]) * 57.29577951308232; if (!(x = cell(l, a, 14, th, "theta", i, 1e-4)).empty()) return x; a += 14;
                    if (!(x = cell(l, a, 14, phis[k], "phi", i, 1e-3)).empty()) return x; a += 14; if (!(x = cell(l, a, 10, s, "Stokes index", i, 0.)).empty()) return x; a += 10;
                    size_t q = (((size_t) i * nt + j) * np + k) * ns + s;
                    if (up) { if (!(x = cell(l, a, 14, R.r.d[0][q], "I_up", i)).empty()) return x; a += 14; } if (dn) { if (!(x = cell(l, a, 14, R.r.d[1][q], "I_dn", i)).empty()) return x; a += 14; }
                    for (int g = 0; g < nd; ++g) { q = ((((size_t) i * nd + g) * nt + j) * np + k) * ns + s; if (up) { if (!(x = cell(l, a, 14, R.r.d[2][q], "L(I_up)", i)).empty()) return x; a += 14; } if (dn) { if (!(x = cell(l, a, 14, R.r.d[3][q], "L(I_dn)", i)).empty()) return x; a += 14; } }
                    if (a != l.size()) return "row too long";
               }
               if (!next(l) || !l.empty()) return "no end of the radiances";
          }
          for (int t = 0; t < 2; ++t) if (o & (2 << t)) {
               if (!head({}, t ? "flux_up" : "mean_up", t ? "flux_dn" : "mean_dn")) return "no heading";
               for (int i = 0; i < c.n_out_levels; ++i) {
                    if (!next(l)) return "rows are missing"; if (!(x = first(l, i)).empty()) return x; size_t a = 14; const VD *d = R.r.d + (t ? 8 : 4);
                    if (up) { if (!(x = cell(l, a, 14, d[0][i], t ? "flux_up" : "mean_up", i)).empty()) return x; a += 14; } if (dn) { if (!(x = cell(l, a, 14, d[1][i], t ? "flux_dn" : "mean_dn", i)).empty()) return x; a += 14; }
                    a += 14 * nd * (up + dn); if (a != l.size()) return "wrong length of a row";
               }
               if (!next(l) || !l.empty()) return "no end";
          }
          while (at < lines.size()) { if (!lines[at].empty()) return "more output than results"; at++; }
          return "";
     }
     bool nothing(const Str &out) { size_t p = 0; while (p < out.size()) { if (out.compare(p, 5, "level") == 0 || out.compare(p, 4, "tau ") == 0) return false; p = out.find('\n', p); if (p == Str::npos) break; p++; } return true; }
     bool sane(const Str &w, const Proc &p) {
          if (p.rc == RT_SIGNAL) return fail(rt_signal == 999 ? "no end" : "abnormal", w + (rt_signal == 999 ? ": does not end" : ": signal " + std::to_string(rt_signal)));
          if (!p.heap.empty()) return fail("heap", w + ": " + p.heap); return true;
     }
     bool rejected(const Str &w, const Proc &p, const Str &why) {
          if (p.zero()) return fail("accepted", w + ": exit status 0 although " + why); if (!nothing(p.out)) return fail("results", w + ": prints results although " + why);
          if (p.err.empty() && p.out.empty()) return fail("silent", w + ": fails without a message"); st.n["processes that had to fail"]++; return true;
     }
     bool computed(const Str &w, const Proc &p, const Result &R) {
          if (!p.zero()) return fail("refused", w + ": exit status " + std::to_string(p.status) + ": " + p.err.substr(0, 200)); Str x = differ(p.out, R);
          if (!x.empty()) {        /* named phase functions are computed by the program, with its own rounding: matters only for ill-conditioned problems */
               std::vector<Result> a; Rng j(h.seed); for (int i = 0; i < 6; ++i) { a.push_back(library(sets, last_del, &j)); if (!a.back().ok || a.back().abnormal) { a.clear(); break; } }
               alt = &a; Str y = differ(p.out, R); alt = 0; if (y.empty()) { st.n["ill-conditioned results"]++; return true; } return fail("wrong results", w + ": " + x);
          } st.n["processes whose results were compared"]++; return true;
     }
     Str where(const Op &o, long pos, int byte) { Str s = o.iv[DEL] == 0 ? "input file" : o.iv[DEL] == 1 ? "standard input" : "command line"; if (o.iv[FAULT]) { s += Str(", ") + io_kind_name[o.iv[FAULT]] + (o.iv[TARGET] == 0 ? " of the input" : o.iv[TARGET] == 1 ? " of coefficient file " + std::to_string(o.iv[BYTE]) : " at standard output"); if (pos >= 0) s += " (byte " + std::to_string(pos) + ")"; if (o.iv[FAULT] == IoPlan::MUTATE) s += " = " + std::to_string(byte); } return s; }
     static bool number(const Str &t, bool isint) { size_t i = 0; if (i < t.size() && t[i] == '-') i++; size_t a = i; while (i < t.size() && isdigit(t[i])) i++; if (i == t.size()) return i > a; if (isint || t[i] != '.') return false; bool dg = i > a; i++; size_t f = i; while (i < t.size() && isdigit(t[i])) i++; if (!dg && i == f) return false; if (i == t.size()) return true; if (t[i] != 'e') return false; i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++; size_t x = i; while (i < t.size() && isdigit(t[i])) i++; return i == t.size() && i > x; }
     /* an input cut at a byte */
     bool cut(const Doc &d, const Op &o, long pos, const Result &full) {
          Proc p = program(d, o, pos, 0); Str w = where(o, pos, 0); if (!sane(w, p)) return false; if (d.brief && !p.zero()) return true;
          std::vector<Op> ops; Str why; bool incomment = false, line = false; size_t P = std::min<size_t>(pos, d.text.size());
          { bool blk = false; for (size_t i = 0, q = 0; i < P; ++i) { char x = d.text[i]; if (blk) { if (x == '/' && d.text[i - 1] == '*' && i >= q + 3) blk = false; } else if (x == '\'' || x == '"') { size_t e = d.text.find(x, i + 1); if (e == Str::npos || e >= P) break; i = e; } else if (x == '/' && i + 1 < P && d.text[i + 1] == '/') { size_t e = d.text.find('\n', i); if (e == Str::npos || e >= P) { line = true; break; } i = e; } else if (x == '/' && i + 1 < P && d.text[i + 1] == '*') { blk = true; q = i; } } incomment = blk; }
          if (incomment) why = "a comment is not terminated";
          else if (!line && P > 0 && d.text[P - 1] == '/' && P < d.text.size() && (d.text[P] == '/' || d.text[P] == '*')) why = "it ends within a comment delimiter";
          bool create = true; if (why.empty()) for (auto &s : d.st) {
               if (s.op < 0) { if (s.b > P) { create = false; why = "'" + d.text.substr(s.a, std::min<size_t>(s.b - s.a, 30)) + "' is missing or not complete"; break; } continue; }
               if (s.b <= P) { ops.push_back(d.ops[s.op]); continue; }
               if (s.a >= P) break;
               Str t = s.last != Str::npos && s.last < P ? d.text.substr(s.last, P - s.last) : ""; if (t.empty() || !number(t, s.isint)) { why = "'" + d.text.substr(s.a, std::min<size_t>(s.b - s.a, 40)) + "' is cut short"; break; }
               Op q = d.ops[s.op]; if (s.isint) q.iv.back() = atoi(t.c_str()); else q.dv.back() = atof(t.c_str()); ops.push_back(q); break;
          }
          if (!why.empty()) return rejected(w, p, why);
          if (ops.size() == d.ops.size() && P >= d.st.back().b) return full.ok ? computed(w, p, full) : rejected(w, p, "the library refuses these inputs");
          std::vector<Op> keep = sets; sets = ops; Result R = library(ops, o.iv[DEL]); bool good = R.abnormal ? true : R.ok ? computed(w, p, R) : rejected(w, p, "an input is missing or wrong: the library refuses the same inputs"); sets = keep; return good;
     }
     bool one(const Doc &d, const Op &o, long pos, int byte, const Result &full, const Proc &clean) {
          int f = o.iv[FAULT]; Str w = where(o, pos, byte); pin_pos = pos; pin_b = byte;
          if (o.iv[TARGET] == 2) {
               Proc p = program(d, o, pos, byte); if (!sane(w, p)) return false;
               if (p.zero() && p.out != clean.out) return fail("lost output", w + ": exit status 0, but only " + std::to_string(p.out.size()) + " of " + std::to_string(clean.out.size()) + " bytes of the results are written");
               if (p.zero() && p.fired && f == IoPlan::CLOSE) return fail("lost output", w + ": exit status 0 although closing standard output failed");
               if (!p.fired && !p.zero() && clean.zero()) return fail("refused", w + ": exit status " + std::to_string(p.status) + " although nothing went wrong"); st.n[p.zero() ? "processes that wrote everything" : "processes that reported lost output"]++; return true;
          }
          if (o.iv[TARGET] == 0 && f == IoPlan::TRUNCATE) return cut(d, o, pos, full);
          Proc p = program(d, o, pos, byte); if (!sane(w, p)) return false;
          if (d.brief && !p.zero()) return true;
          if (!p.fired) return full.ok ? computed(w, p, full) : rejected(w, p, "the library refuses these inputs");
          if (o.iv[TARGET] == 0 && f == IoPlan::MUTATE) { int k = (size_t) pos < d.cls.size() ? d.cls[pos] : 2; if (k == 0) return rejected(w, p, "the input is damaged"); if (k == 1 && byte && byte != '/' && byte != '*' && byte != '\n') return full.ok ? computed(w, p, full) : rejected(w, p, "the library refuses these inputs"); if (p.zero() == false) return true; st.n["processes with an unspecified result"]++; return true; }
          if (f == IoPlan::TRUNCATE) { /* a coefficient file that ends early: what is left may be a complete file */
               Str nm = "c" + std::to_string(o.iv[BYTE]), whole = disk[nm]; disk[nm] = whole.substr(0, std::min<size_t>(pos, whole.size())); double **cf = 0; int flag, n = -1; fresh(); Str q = (d.text.find("gc6:" + nm) != Str::npos ? "gc6:" : "gc:") + nm; int rc = call([&] { n = load_scat_coefs(q.c_str(), c.max_coef, &cf, &flag); }); disk[nm] = whole;
               if (rc || n < 0) return rc ? true : rejected(w, p, "a coefficient file is not complete"); st.n["coefficient files that are complete although cut"]++; return true;
          }
          if (f == IoPlan::OPEN) return rejected(w, p, "a file cannot be opened");
          /* read errors: reported, or the input was read all the same */
          if (p.zero()) return full.ok ? computed(w, p, full) : fail("accepted", w + ": exit status 0"); return rejected(w, p, "the input could not be read");
     }
     /* puts a statement into the input that must be refused */
     bool bad(Doc &d, const Op &o, Str &t) {
          const int nl = c.n_layers, nk = c.n_kernels(), nd = c.n_derivs, mc = c.max_coef, del = o.iv[DEL]; Rng r(o.iv[STYLE] * 31 + o.iv[BYTE]); bool cre = false; auto I = [](int x) { return "[" + std::to_string(x) + "]"; }; auto N = [](int x) { return std::to_string(x); };
          auto A = [&](int n, Str e, Str sep = ",") { Str s; for (int i = 0; i < n; ++i) s += (i ? sep : "") + e; return del == 2 ? s : "{" + s + "}"; }; int ne = c.opt(XRTM_OPTION_VECTOR) ? 6 : 1; auto rows = [&](int n) { return A(n, A(ne, "0."), del == 2 ? ";" : ","); }; Str n, v; bool eq = del != 2; int k = o.iv[BYTE] % 58;
          const bool fdm = nfd > 0;
          switch (k) {
          case 0: n = "omega" + I(nl); v = ".5"; break; case 1: n = "ltau[0][0]"; v = ".1"; break; case 2: n = "omega"; for (int i = 0; i < 40; ++i) n += "[0]"; v = ".5"; break; case 3: n = "omega[-2]"; v = ".5"; break;
          case 4: n = "coef_files" + I(nl); v = "'ray:.1'"; break; case 5: n = "coef" + I(nl); v = "1," + rows(1); break; case 6: if (nl < 2) return false; n = "omega"; v = A(nl - 1, ".5"); break; case 7: n = "omega"; v = A(nl + 1, ".5"); break;
          case 8: n = "F_0"; v = "'1.'"; break; case 9: n = "omegas"; v = "1."; break; case 10: n = "F_0"; v = "1."; eq = !eq; break; case 11: n = "coef[0]"; v = "-1," + A(0, ""); break; case 12: n = "coef[0]"; v = "-2147483647," + A(0, ""); break; case 13: n = "coef[0]"; v = N(mc + 1) + "," + rows(mc + 1); break;
          case 14: n = "kernel_ampfac" + I(nk); v = ".1"; break; case 15: n = "kernel_params" + I(nk); v = A(1, ".1"); break; case 16: n = "kernel_params" + I(nk) + "[0]"; v = ".1"; break; case 17: n = "kernel_ampfac_l" + I(nk) + "[0]"; v = "1."; break;
          case 18: n = "kernel_params_l" + I(nk) + "[0]"; v = A(1, ".1"); break; case 19: n = "kernel_params_l" + I(nk); v = A(1, A(1, ".1"), ";"); break; case 20: n = "omega_l[0]" + I(nd); v = "1."; break; case 21: n = "coef_files_l[0]" + I(nd); v = "'none'"; break; case 22: n = "coef_files_l" + I(nl) + "[0]"; v = "'none'"; break;
          case 23: n = "coef_l" + I(nl) + "[0]"; v = rows(1); break; case 24: n = "coef_l[:]" + I(nd); v = A(nl, rows(mc), del == 2 ? ";" : ","); break; case 25: n = "n_quad"; v = "2"; break;
          case 26: if (fdm) return false; n = "delta"; v = A(nd ? nd : 1, "1."); break; case 27: n = "omega_p" + Str(fdm ? I(nl) : "[0]") + "[0]"; v = "1."; break; case 28: n = "coef_files_p[0]" + I(nfd); v = "'none'"; break; case 29: n = "coef_p" + I(fdm ? nl : 0) + "[0]"; v = rows(1); break;
          case 30: n = "coef_files[0]"; v = "'hg'"; break; case 31: n = "coef_files[0]"; v = "'hg:abc'"; break; case 32: n = "coef_files[0]"; v = "'gc:nofile'"; break; case 33: n = "coef_files[0]"; v = "'xyz:1'"; break; case 34: n = "coef_files[0]"; v = "''"; break; case 35: n = "coef_files[0]"; v = "':'"; break;
          case 36: n = "coef_files[0]"; v = "'dhg:.1:.2'"; break; case 37: n = "coef_files[0]"; v = "'ray'"; break; case 38: n = "coef_files[0]"; v = "'gc'"; break;
          case 39: n = "omega[0]"; v = "2."; break; case 40: n = "ltau[0]"; v = "-1."; break; case 41: n = "omega[0]"; v = ""; break; case 42: n = "g[0]"; v = ".5"; break; case 43: n = "theta_0"; v = "91."; break; case 44: n = "omega[]"; v = ".5"; break; case 45: n = "omega[0"; v = ".5"; break; case 46: n = "kernel_params"; v = A(1, ".1"); break;
          case 47: n = "kernel_params_l"; v = A(1, A(1, ".1"), ";"); break; case 48: n = "kernel_ampfac"; v = ".1"; break;
          case 49: n = "options"; v = "'no_such'"; cre = true; break; case 50: n = "solvers"; v = "'no_such'"; cre = true; break; case 51: n = "kernels"; v = "'no_such'"; cre = true; break; case 52: n = "n_kernels"; v = N(nk + 1); cre = true; break; case 53: n = "n_layers"; v = r.chance(.5) ? "0" : "-3"; cre = true; break;
          case 54: n = "n_stokes"; v = r.chance(.5) ? "5" : "0"; cre = true; break; case 55: n = "n_quad"; v = r.chance(.5) ? "0" : "-1"; cre = true; break; case 56: n = "max_coef"; v = r.chance(.5) ? "0" : "-1"; cre = true; break; case 57: n = "n_derivs"; v = "-1"; cre = true; break;
          }
          if (k >= 49 && k <= 51 && del != 2) v = "(" + v + ")"; t = (del == 2 ? "-" : "") + n + (eq ? " = " : " ") + v; t = " " + t + (del == 2 ? " " : "\n"); size_t at;
          if (cre) { if (del == 2) { d.head += t; return true; } at = d.create_end; }
          else { std::vector<size_t> e; for (auto &x : d.st) if (x.op >= 0) e.push_back(x.b); if (e.empty()) return false; at = k == 24 || k == 29 || k == 28 || k == 21 || r.chance(.5) ? e.back() : e[r.below(e.size())]; }
          d.text.insert(at, t); if (at > 0 && at < d.text.size()) {} return true;
     }
     bool op(const Op &o0) {
          Op o = o0; disk.clear(); std::vector<Op> all = sets;
          if (o.iv[FLAGS] & FL_OMIT && o.iv[DEL] == 2) { Rng q(o.iv[STYLE]); std::vector<Op> k; bool no[N_FIELDS + 1] = {0}; for (int f : {F_DOUB, F_PADE, F_SOS, F_FTOL, F_FTOP, F_FBOT, F_PHI0}) no[f] = q.chance(.5); for (auto &x : sets) if (!no[x.iv[0]]) k.push_back(x); sets = k; }
          bool good = op1(o); sets = all; return good;
     }
     bool op1(Op &o) {
          Doc d = make_doc(c, sets, o.iv[STYLE], o.iv[DEL], nfd, (o.iv[FLAGS] & FL_OMIT) && o.iv[DEL] == 2); Result full = library(sets, o.iv[DEL]); if (full.abnormal) { st.n["inputs the library does not survive"]++; return true; }
          Op q = o; q.iv[FAULT] = 0; q.iv[TARGET] = 0; q.iv[BUF] = -1; q.iv[CHUNK] = 0; Proc clean = program(d, q, -1, 0, true); Str w = where(q, -1, 0);
          if (h.prop == "C27" || h.prop == "C17") {
               if (!sane(w, clean)) { if (h.prop != "C27") v = Violation(); return false; }
               if (!(o.iv[FLAGS] & FL_QUIET)) { bool good = d.brief && !clean.zero() ? rejected(w, clean, "") : full.ok ? computed(w, clean, full) : rejected(w, clean, "the library refuses these inputs"); if (!good) { if (h.prop != "C27") { v = Violation(); st.n["histories ended by a failure the other property decides"]++; } return false; } }
               if (h.prop == "C27") { bool nz = false; for (int k = 0; k < 12; ++k) for (double x : full.r.d[k]) nz |= x != SENTINEL && x != 0.; if (full.ok && nz) st.nontrivial = true; return true; }
          } else if (!clean.normal()) return true;
          if (o.iv[FAULT] == BAD) { Str t; if (!bad(d, o, t)) return true; Op q = o; q.iv[FAULT] = 0; q.iv[TARGET] = 0; Proc p = program(d, q, -1, 0); Str w = where(q, -1, 0) + " with '" + t + "'"; if (!sane(w, p)) return false; st.nontrivial = true; st.n["fault:malformed statement"]++; return rejected(w, p, "it has a statement that is not valid"); }
          if (o.iv[TARGET] == 1) { if (d.files.empty()) return true; o.iv[BYTE] %= (int) d.files.size(); }
          if (o.iv[FAULT] == 0) { if (o.iv[BUF] >= 0 || o.iv[CHUNK]) { o.iv[TARGET] = h.prop == "C18" ? 2 : 0; Proc p = program(d, o, -1, 0); if (p.out != clean.out || p.status != clean.status) return fail("delivery", where(o, -1, 0) + ": another result when delivered with buffer " + std::to_string(o.iv[BUF]) + ", chunks " + std::to_string(o.iv[CHUNK])); st.nontrivial = true; } return true; }
          size_t n = o.iv[TARGET] == 0 ? d.text.size() : o.iv[TARGET] == 1 ? disk["c" + std::to_string(o.iv[BYTE])].size() : clean.out.size();
          if (o.iv[TARGET] == 2 && clean.out.empty()) return true; static const int bytes[] = {0, '@', 0x80, '$', 1, 0xff};
          auto bt = [&](long p) { return o.iv[TARGET] == 1 ? 0 : o.iv[BYTE] < 0 ? bytes[(p * 5 + h.seed) % 6] : o.iv[BYTE]; };
          st.nontrivial = true;
          if (o.iv[FAULT] == IoPlan::OPEN || o.iv[FAULT] == IoPlan::CLOSE) return one(d, o, -1, 0, full, clean);
          if (o.iv[POS] >= 0) return one(d, o, o.iv[POS] % (n + 1), bt(o.iv[POS] % (n + 1)), full, clean);
          size_t step = 1 + n / (o.iv[POS] == -1 ? 40 : 12), k = 0; for (size_t p = (h.seed + cur) % step; p <= n; p += step) { if (!one(d, o, (long) p, bt(p), full, clean)) return false; k++; }
          for (size_t p = n > 3 ? n - 3 : 0; p <= n; ++p) if (!one(d, o, (long) p, bt(p), full, clean)) return false;
          return true;
     }
     void run() {
          disk_reset(); c = h.cfg[0]; bool have = false;
          for (auto &o : h.ops) { if (o.code == O_SET || o.code == O_FD_SET) sets.push_back(o); if (o.code == O_FD_CREATE) nfd = o.iv[0]; if (o.code == O_SOLVE) { sol = o; have = true; } }
          if (!have || sets.empty()) return; phis.assign(sol.dv.begin(), sol.dv.begin() + std::min<size_t>(sol.dv.size(), sol.iv[2])); if (phis.empty()) phis.push_back(0.);
          if (nfd < 0 || (nfd && c.opt(XRTM_OPTION_CALC_DERIVS))) return;
          { Inputs in(c), p(nfd ? fd_config(c, nfd) : c); for (auto &o : sets) { if (o.code == O_FD_SET) { if (!nfd) return; p.n_coef = in.n_coef; if (o.iv[0] == F_COEF_L) for (int x : in.hcoef) if (!x) return; if (o.iv[0] == N_FIELDS ? (int) o.dv.size() != nfd : p.set_expect(o) != 1) return; if (o.iv[0] != N_FIELDS) p.set_apply(o); continue; } if (in.set_expect(o) != 1) return; in.set_apply(o); } }
          for (cur = 0; cur < (int) h.ops.size() && !v.any(); ++cur) if (h.ops[cur].code == O_RUN && h.ops[cur].iv.size() >= N_RUN) { st.n[Str("inputs by ") + (h.ops[cur].iv[DEL] == 0 ? "file" : h.ops[cur].iv[DEL] == 1 ? "standard input" : "command line")]++; op(h.ops[cur]); }
          fresh(); disk_reset();
     }
};
}
History make_history(const std::string &prop, uint64_t seed) {
     History h; h.prop = prop; h.seed = seed; Rng r(seed ^ (prop == "C17" ? 0x17171717 : prop == "C18" ? 0x18181818 : 0x27272727));
     h.heap.fill = r.below(N_FILLS); h.heap.reuse = r.below(2); h.heap.skew = 64 * r.below(3); h.heap.fill_seed = r.next() & 0xffffff; h.stack = r.pick({-1, 0, 0xff, 0x7f, 256});
     GenOpt g; g.max_layers = prop == "C27" ? 4 : 3; g.max_quad = prop == "C27" ? 4 : 2; bool fdm = r.chance(prop == "C18" ? .1 : .2); if (fdm) g.p_derivs = 0; Config c; do c = gen_config(r, g); while (std::count(c.kernels.begin(), c.kernels.end(), 10) || (fdm && c.opt(XRTM_OPTION_CALC_DERIVS))); h.cfg.push_back(c);
     Inputs in(c); std::vector<Op> ops; gen_setup(r, in, 0, ops); if (r.chance(.5)) for (int i = r.range(1, 4); i > 0; --i) { VI l = settable(in, c.n_derivs && r.chance(.4)); Op o = gen_set(r, in, 0, r.pick(l)); if (in.set_expect(o) == 1) { ops.push_back(o); in.set_apply(o); } }
     /* as statements of the file: forms the file does not have are written with the values they lead to */
     Inputs m(c); const int ne = c.n_elem(), mc = c.max_coef; for (auto &o : ops) if (o.code == O_SET) {
          int f = o.iv[0];
          if (f == F_COEF && o.iv[1] >= 0 && r.chance(.25)) {              /* a phase function by name */
               int k = r.below(mc >= 3 ? 3 : 2), n = k == 2 ? 3 : mc; double p[3]; if (k < 2) { p[0] = r.u(-.5, .8); p[1] = r.u(-.5, .5); p[2] = r.u(0., 1.); } else p[0] = r.u(0., .3); VD x((size_t) n * ne, 0.); double a = (1. - p[0]) / (2. + p[0]);
               if (k < 2) for (int i = 0; i < n; ++i) x[i] = (2 * i + 1) * (k == 0 ? pow(p[0], i) : p[2] * pow(p[0], i) + (1. - p[2]) * pow(p[1], i)); else { x[0] = 1.; x[2] = a; if (ne == 6) { x[3 + 2] = 6. * a; x[9 + 1] = 3. * (1. - 2. * p[0]) / (2. + p[0]); x[12 + 2] = sqrt(6.) * a; } }
               x.push_back(k); for (int i = 0; i < (k == 1 ? 3 : 1); ++i) x.push_back(p[i]); o.iv[5] = n; o.dv = x;
          }
          if (f == F_COEF && ne == 6 && r.chance(.1)) { size_t at = 0; for (int i = 0; i < (o.iv[1] < 0 ? c.n_layers : 1); ++i) { int n = o.iv[5 + i] < 0 ? mc : o.iv[5 + i]; if (o.dv.size() == (size_t) n * ne || o.iv[1] < 0) for (int k = n; k < n * ne; ++k) o.dv[at + k] = 0.; at += (size_t) n * ne; } }
          if (f == F_COEF_L && o.iv[1] >= 0 && o.iv[2] >= 0 && r.chance(.25)) {
               int k = r.below(mc >= 3 ? 3 : 2), n = m.n_coef[o.iv[1]] < 1 ? mc : m.n_coef[o.iv[1]]; double p[6]; for (double &z : p) z = r.u(-.8, .8); if (k == 1) p[2] = r.u(0., 1.); if (k == 2) { p[0] = r.u(0., .3); if (n < 3) k = 0; } VD x((size_t) mc * ne, 0.);
               for (int i = 1; i < n && k < 2; ++i) x[i] = (2 * i + 1) * (k == 0 ? i * pow(p[0], i - 1) * p[1] : p[5] * (pow(p[0], i) - pow(p[1], i)) + p[2] * i * pow(p[0], i - 1) * p[3] + (1. - p[2]) * i * pow(p[1], i - 1) * p[4]);
               if (k == 2) { double q = p[1] / ((2. + p[0]) * (2. + p[0])); x[2] = -3. * q; if (ne == 6) { x[mc + 2] = -18. * q; x[3 * mc + 1] = -15. * q; x[4 * mc + 2] = -3. * sqrt(6.) * q; } }
               x.push_back(k); for (int i = 0; i < (k == 1 ? 6 : 2); ++i) x.push_back(p[i]); o.dv = x;
          } else if (f == F_COEF_L && r.chance(.3)) { int n = r.range(1, mc); for (size_t i = 0; i < o.dv.size(); ++i) if ((int) (i % mc) >= n) o.dv[i] = 0.; }
          m.set_apply(o);
          if ((f == F_FTOP_L || f == F_FBOT_L || f == F_SURFB_L) && o.iv[2] != -1) { const VD &x = f == F_FTOP_L ? m.ftop_l : f == F_FBOT_L ? m.fbot_l : m.surfb_l; h.ops.push_back(mkset(0, f, -1, -1, -1, {}, VD(x.begin(), x.begin() + c.n_derivs))); continue; }
          if (f == F_LEVB_L && o.iv[2] != -1) { VD x; for (int j = 0; j < c.n_derivs; ++j) for (int i = 0; i <= c.n_layers; ++i) x.push_back(m.levb_l[j][i]); h.ops.push_back(mkset(0, f, -1, -1, -1, {}, x)); continue; }
          if (f == F_COEF && o.iv[1] == -1) { bool same = true; size_t at = 0; for (int i = 0; i < c.n_layers; ++i) same &= o.iv[5 + i] < 0 || o.iv[5 + i] == c.max_coef; if (!same) { for (int i = 0; i < c.n_layers; ++i) { int n = o.iv[5 + i] < 0 ? c.max_coef : o.iv[5 + i]; size_t k = (size_t) n * c.n_elem(); h.ops.push_back(mkset(0, f, i, -1, -1, {n}, VD(o.dv.begin() + at, o.dv.begin() + at + k))); at += k; } continue; } }
          if (f == F_COEF_L && o.iv[1] >= 0) { Op q = o; q.iv.resize(5); q.iv.push_back(m.n_coef[o.iv[1]] < 1 ? c.max_coef : m.n_coef[o.iv[1]]); h.ops.push_back(q); continue; }
          h.ops.push_back(o);
     }
     if (fdm) {
          int n = r.range(1, 3); Op o = mk(0, O_FD_CREATE); o.iv = {n}; h.ops.insert(h.ops.begin(), o); Inputs p(fd_config(c, n)); p.n_coef = m.n_coef; std::vector<Op> q;
          Op d = mk(0, O_FD_SET); d.iv = {N_FIELDS, -1, -1, -1, 0}; for (int j = 0; j < n; ++j) d.dv.push_back(r.logu(1e-3, 1.)); q.push_back(d);
          for (int k = r.range(0, 5); k > 0; --k) { VI l = settable(p, true); Op o = gen_set(r, p, 0, r.pick(l)); o.code = O_FD_SET; int f = o.iv[0]; double z = f == F_LTAU_L ? *std::min_element(m.ltau.begin(), m.ltau.end()) : 1.; for (double &x : o.dv) x *= .05 * z; if (p.set_expect(o) != 1) continue; p.set_apply(o);
               if ((f == F_FTOP_L || f == F_FBOT_L || f == F_SURFB_L) && o.iv[2] != -1) { const VD &x = f == F_FTOP_L ? p.ftop_l : f == F_FBOT_L ? p.fbot_l : p.surfb_l; Op w = mkset(0, f, -1, -1, -1, {}, VD(x.begin(), x.begin() + n)); w.code = O_FD_SET; q.push_back(w); continue; }
               if (f == F_LEVB_L && o.iv[2] != -1) { VD x; for (int j = 0; j < n; ++j) for (int i = 0; i <= c.n_layers; ++i) x.push_back(p.levb_l[j][i]); Op w = mkset(0, f, -1, -1, -1, {}, x); w.code = O_FD_SET; q.push_back(w); continue; }
               if (f == F_COEF_L && o.iv[1] >= 0) { o.iv.resize(5); o.iv.push_back(m.n_coef[o.iv[1]]); } q.push_back(o); }
          for (auto &x : q) if (x.iv[0] == F_COEF_L) h.ops.push_back(x); else h.ops.insert(h.ops.begin() + 1 + r.below(h.ops.size()), x);
     }
     Op s = gen_solve(r, in, 0); if (s.iv[2] == 1 && r.chance(.3)) s.dv.assign(s.dv.size(), 0.); h.ops.push_back(s);
     int n = prop == "C27" ? r.range(1, 4) : r.range(1, 3);
     for (int i = 0; i < n; ++i) {
          Op o = mk(0, O_RUN); o.iv.assign(N_RUN, 0); o.iv[DEL] = prop == "C27" ? r.below(3) : prop == "C17" ? r.below(2) : r.below(3); o.iv[STYLE] = r.below(1000); o.iv[BUF] = r.pick({-1, -1, 0, 1, 64, 700}); o.iv[CHUNK] = r.pick({0, 0, 1, 5, 100});
          o.iv[FLAGS] = (r.chance(.4) ? FL_OMIT : 0) | (r.chance(.1) ? FL_TIMING : 0) | (r.chance(.5) ? FL_NOSOLVER : 0) | (r.chance(.5) ? FL_NOPHI : 0) | (prop == "C27" && r.chance(.03) ? FL_QUIET : 0); o.iv[POS] = r.chance(.6) ? -1 : r.below(6000);
          if (prop == "C17") { o.iv[TARGET] = r.chance(.25); o.iv[FAULT] = o.iv[TARGET] ? r.pick({(int) IoPlan::TRUNCATE, (int) IoPlan::TRUNCATE, (int) IoPlan::EIO_ALWAYS, (int) IoPlan::EIO_ONCE, (int) IoPlan::OPEN}) : r.pick({0, (int) IoPlan::TRUNCATE, (int) IoPlan::TRUNCATE, (int) IoPlan::TRUNCATE, (int) IoPlan::MUTATE, (int) IoPlan::EIO_ALWAYS, (int) IoPlan::EIO_ONCE}); o.iv[BYTE] = o.iv[TARGET] ? r.below(8) : -1; if (o.iv[TARGET] == 0 && o.iv[DEL] == 0 && r.chance(.03)) o.iv[FAULT] = IoPlan::OPEN; if (r.chance(.4)) { o.iv[FAULT] = BAD; o.iv[TARGET] = 0; o.iv[DEL] = r.below(3); o.iv[BYTE] = r.below(58); } }
          if (prop == "C18") { o.iv[TARGET] = 2; o.iv[FAULT] = r.pick({0, (int) IoPlan::FULL, (int) IoPlan::FULL, (int) IoPlan::FULL, (int) IoPlan::FAIL_ONCE, (int) IoPlan::FAIL_ONCE, (int) IoPlan::CLOSE}); o.iv[CHUNK] = 0; }
          h.ops.push_back(o);
     }
     return h;
}
static long last_pos, last_b; static int last_op;
Violation check_history(const History &h, Stats &st) { Run r(h, st); r.run(); last_pos = r.pin_pos; last_b = r.pin_b; last_op = r.v.op; io_plan = IoPlan(); return r.v; }
History io_pin(const History &h) {
     History q = h; Stats st; Violation v = check_history(h, st); if (!v.any() || v.op < 0) return q;
     Op &o = q.ops[v.op]; if (o.code == O_RUN && o.iv[FAULT] && o.iv[POS] < 0 && last_pos >= 0) { o.iv[POS] = (int) last_pos; if (o.iv[TARGET] == 0 && o.iv[FAULT] == IoPlan::MUTATE) o.iv[BYTE] = (int) last_b; } return q;
}
