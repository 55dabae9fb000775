/* C15, C16: the scattering file functions against the simulated disk.

   write: iv = {file, kind, fn, header given, allsix, n, n_four, fault, position (-1: each), buffer, chunk, extra}, dv = {data seed}
   read:  iv = {file, kind, fn, header given, allsix, requested n, -, fault, position (-1: each), buffer, chunk, byte}
   put:   a write with kind + 100: the file is made by the simulator, not by the code under test. */
#include "exec.h"
#include "disk.h"
#include <string.h>
#include <errno.h>
#include <float.h>
extern "C" {
#include <gutil.h>
#include <rtutil_scat_io.h>
#include <rtutil_support.h>
extern uint64_t cov_limit;
}
History io_pin(const History &h);
namespace {
enum { K_HEAD, K_HEADB, K_PHASE, K_COEF, K_COEFB4, K_COEFB8, K_TOTAL, K_MATS, K_LOAD, N_KINDS };
const char *kname[] = {"scat_header", "scat_header_bin", "phase_func", "scat_coefs", "scat_coefs_bin (4 byte)", "scat_coefs_bin (8 byte)", "scat_total", "phase_mats", "load_scat_coefs"};
const char *dist[] = {"none", "modified_gamma", "log_normal", "power_law", "gamma", "modified_power_law", "modified_bimodal_log_normal", "exponential", "mono"};
const char *quad[] = {"norm_gaus_leg", "doub_gaus_leg", "lobatto"};
/* ---- the contents of a file, as values */
struct Data {
     int valid = 0;                 /* 1 yes, 0 malformed or incomplete, -1 not specified */
     double hd[22]; int hi[4];      /* doubles in file order (accuracy last), dist_type n_int1 n_int2 n_quad */
     int n = 0, n_four = 0, qt = 0; VD v; std::string why;
};
typedef std::string Str;
/* a reader of the text formats, by tokens */
struct Scan {
     const Str &s; size_t p = 0; bool bad = false, odd = false; Str why;
     explicit Scan(const Str &t) : s(t) {}
     static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
     void no(const char *w) { if (!bad) why = Str(w) + " at byte " + std::to_string(p); bad = true; }
     void skip() { while (p < s.size() && ws(s[p])) p++; }
     void lit(const char *w) { for (; *w; ++w) if (*w == ' ') skip(); else if (p < s.size() && s[p] == *w) p++; else { no("label"); return; } }
     Str tok() { skip(); size_t a = p; while (p < s.size() && !ws(s[p])) p++; return s.substr(a, p - a); }
     double num(bool header = false) {
          if (bad) return 0; Str t = tok(); if (t.empty()) { no("no value"); return 0; }
          char *e; double x = strtod(t.c_str(), &e);
          if (*e || e != t.c_str() + t.size()) { no("value"); return 0; }
          if (t.find_first_of("xXnN") != Str::npos || !std::isfinite(x)) odd = true;
          return x;
     }
     int integer(bool header = false) {
          if (bad) return 0; Str t = tok(); if (t.empty()) { no("no value"); return 0; }
          char *e; errno = 0; long x = strtol(t.c_str(), &e, 10);
          if (*e || e != t.c_str() + t.size()) { no("integer"); return 0; }
          if (errno || x > INT_MAX || x < -INT_MAX) odd = true;
          return (int) x;
     }
     void line() { while (p < s.size() && s[p] != '\n') p++; if (p < s.size()) p++; }
};
void head(Scan &f, Data &d) {
     static const char *lab[] = {"lambda =", "mr =", "mi =", "dist_type =", "a1 =", "a2 =", "a3 =", "a4 =", "a5 =", "r1 =", "r2 =", "n_int1 =", "n_int2 =", "n_quad =", "norm =", "reff =", "veff =", "gavg =", "vavg =", "ravg =", "rvw =", "cext =", "csca =", "cbak =", "g ="};
     int k = 0;
     for (int i = 0; i < 25; ++i) {
          f.lit(lab[i]); if (f.bad) return;
          if (i == 3) { Str t = f.tok(); d.hi[0] = -1; for (int j = 0; j < 9; ++j) if (t == dist[j]) d.hi[0] = j; if (d.hi[0] < 0) f.no("distribution"); }
          else if (i >= 11 && i <= 13) d.hi[i - 10] = f.integer(true);
          else d.hd[k++] = f.num(true);
          f.skip();
     }
     d.hd[21] = 0.;
}
Data parse_text(const Str &s, int kind, int allsix, int want) {
     Data d; Scan f(s); head(f, d);
     if (!f.bad && kind != K_HEAD) {
          if (kind == K_PHASE || kind == K_COEF || kind == K_LOAD) {
               int n = f.integer(); if (!f.bad && n < 0) f.no("count");
               if (kind != K_PHASE && want > 0 && n > want) n = want;
               d.n = n; bool th = kind == K_PHASE;
               for (int i = 0; i < n && !f.bad; ++i) { if (th) d.v.push_back(f.num()); for (int j = 0; j < (allsix ? 6 : 1); ++j) d.v.push_back(f.num()); if (!allsix) f.line(); }
               if (kind == K_LOAD && !f.bad && n < 1) f.no("no coefficients");
          } else {
               d.n = f.integer(); int i4 = f.integer(); d.n_four = i4 + 1; Str q = f.bad ? Str() : f.tok(); d.qt = -1; for (int j = 0; j < 3; ++j) if (q == quad[j]) d.qt = j;
               if (!f.bad && d.qt < 0) f.no("quadrature");
               if (i4 == INT_MAX) f.odd = true;
               if (!f.bad && (d.n < 0 || d.n_four < 0 || (kind == K_MATS && (d.n < 1 || d.n_four < 1)))) f.no("dimension");
               while (f.p < s.size() && s[f.p] == '\n') f.p++;
               if (d.n > 10000) { if (kind == K_TOTAL) f.odd = true; f.no("too many"); }
               if (kind == K_TOTAL) for (int i = 0; i < 16 * d.n && !f.bad; ++i) d.v.push_back(f.num());
               else {
                    f.line();
                    for (int k = 0; k < 2 * d.n; ++k) for (int j = 0; j < 2 * d.n; ++j) for (int i = 0; i < d.n_four && !f.bad; ++i) { f.num(); f.num(); int q = f.integer(); if (!f.bad && q != i) f.no("order"); for (int l = 0; l < 16; ++l) d.v.push_back(f.num()); }
                    f.skip(); f.line();
                    for (int i = 0; i < 2 * d.n && !f.bad; ++i) { f.num(); for (int l = 0; l < 16; ++l) d.v.push_back(f.num()); }
                    f.skip(); f.line();
                    for (int i = 0; i < 2 * d.n && !f.bad; ++i) { f.num(); for (int l = 0; l < 4; ++l) d.v.push_back(f.num()); }
               }
          }
     }
     d.valid = f.odd ? -1 : !f.bad; d.why = f.why; return d;
}
Data parse_bin(const Str &s, int kind, int want_elem, int want) {
     Data d; size_t p = 0; bool bad = false;
     auto g = [&](void *q, size_t n) { if (p + n > s.size()) { bad = true; memset(q, 0, n); p = s.size(); return; } memcpy(q, s.data() + p, n); p += n; };
     int k = 0; for (int i = 0; i < 26; ++i) if (i == 3) g(&d.hi[0], 4); else if (i >= 11 && i <= 13) g(&d.hi[i - 10], 4); else if (i == 14) g(&d.hd[21], 8); else g(&d.hd[k++], 8);
     if (!bad && (d.hi[0] < 0 || d.hi[0] > 8)) bad = true;
     if (kind != K_HEADB && !bad) {
          int sz, ne, nc; g(&sz, 4); g(&ne, 4); g(&nc, 4);
          if (!bad && (sz != 4 && sz != 8)) bad = true;
          if (!bad && (nc < 0 || ne < want_elem || ne > 6)) bad = true;
          if (!bad && p + (double) sz * ne * nc > s.size()) bad = true;
          if (!bad) {
               int n = want > 0 && nc > want ? want : nc; d.n = n;
               for (int i = 0; i < want_elem; ++i) for (int j = 0; j < n; ++j) { const char *q = s.data() + p + (size_t) sz * ((size_t) i * nc + j); if (sz == 4) { float x; memcpy(&x, q, 4); d.v.push_back(x); } else { double x; memcpy(&x, q, 8); d.v.push_back(x); } }
          }
     }
     d.valid = !bad; return d;
}
void to_header(const Data &d, scat_header_data &h) {
     double *q[22] = {&h.lambda, &h.mr, &h.mi, &h.a1, &h.a2, &h.a3, &h.a4, &h.a5, &h.r1, &h.r2, &h.norm, &h.reff, &h.veff, &h.gavg, &h.vavg, &h.ravg, &h.rvw, &h.cext, &h.csca, &h.cbak, &h.g, &h.accuracy};
     memset(&h, 0, sizeof h); for (int i = 0; i < 22; ++i) *q[i] = d.hd[i];
     h.dist_type = (enum size_dist_type) d.hi[0]; h.n_int1 = d.hi[1]; h.n_int2 = d.hi[2]; h.n_quad = d.hi[3];
}
void of_header(const scat_header_data &h, Data &d) {
     double q[22] = {h.lambda, h.mr, h.mi, h.a1, h.a2, h.a3, h.a4, h.a5, h.r1, h.r2, h.norm, h.reff, h.veff, h.gavg, h.vavg, h.ravg, h.rvw, h.cext, h.csca, h.cbak, h.g, h.accuracy};
     memcpy(d.hd, q, sizeof q); d.hi[0] = h.dist_type; d.hi[1] = h.n_int1; d.hi[2] = h.n_int2; d.hi[3] = h.n_quad;
}
double value(Rng &r) { switch (r.below(8)) { case 0: return 0.; case 1: return 1.; case 2: return -r.u(); case 3: return r.u() * 1e-30; case 4: return r.u() * 1e120; default: return r.u(-3., 3.); } }
Data make_data(uint64_t seed, int kind, int n, int n_four, int allsix, bool hgiven) {
     Rng r(seed); Data d; d.valid = 1;
     for (double &x : d.hd) x = hgiven ? value(r) : 0.; d.hi[0] = hgiven ? r.below(9) : 0; for (int i = 1; i < 4; ++i) d.hi[i] = hgiven ? r.pick({0, 1, -7, 64, 123456}) : 0;
     d.n = n; d.n_four = n_four; d.qt = r.below(3);
     long m = kind == K_HEAD || kind == K_HEADB ? 0 : kind == K_PHASE ? n * (allsix ? 7 : 1 + 1) : kind == K_TOTAL ? 16 * n : kind == K_MATS ? 64L * n * n * n_four + 40L * n : n * (allsix ? 6 : 1);
     for (long i = 0; i < m; ++i) d.v.push_back(value(r));
     if ((kind == K_COEF || kind == K_LOAD) && n > 0 && r.chance(.6)) d.v[0] = r.pick({1., 1., 2., .5, 0.});
     if (kind == K_COEFB4) for (double &x : d.v) x = (float) std::max(-1e30, std::min(1e30, x));
     return d;
}
double as_text(double x) { char b[64]; snprintf(b, sizeof b, "%e", x); return strtod(b, 0); }
/* the file as another program could have written it */
Str format(uint64_t seed, int kind, const Data &d, int allsix) {
     Rng r(seed * 7 + 3); Str o; char b[128]; int style = r.below(3);
     auto sp = [&]() -> Str { return style == 0 ? " " : style == 1 ? r.pick({" ", "  ", "\t"}) : "   "; };
     auto num = [&](double x) { const char *f[] = {"%e", "%.17g", "%16e"}; snprintf(b, sizeof b, f[style], x); return Str(b); };
     if (kind == K_HEADB || kind == K_COEFB4 || kind == K_COEFB8) {
          auto put = [&](const void *p, size_t n) { o.append((const char *) p, n); }; int k = 0;
          for (int i = 0; i < 26; ++i) if (i == 3) put(&d.hi[0], 4); else if (i >= 11 && i <= 13) put(&d.hi[i - 10], 4); else if (i == 14) put(&d.hd[21], 8); else put(&d.hd[k++], 8);
          if (kind != K_HEADB) { int sz = kind == K_COEFB4 ? 4 : 8, ne = allsix ? 6 : 1, nc = d.n; put(&sz, 4); put(&ne, 4); put(&nc, 4); for (double x : d.v) if (sz == 4) { float y = x; put(&y, 4); } else put(&x, 8); }
          return o;
     }
     static const char *lab[] = {"lambda    =", "mr        =", "mi        =", "dist_type =", "a1        =", "a2        =", "a3        =", "a4        =", "a5        =", "r1        =", "r2        =", "n_int1    =", "n_int2    =", "n_quad    =", "norm      =", "reff      =", "veff      =", "gavg      =", "vavg      =", "ravg      =", "rvw       =", "cext      =", "csca      =", "cbak      =", "g         ="};
     int k = 0; for (int i = 0; i < 25; ++i) { o += lab[i]; o += sp(); if (i == 3) o += dist[d.hi[0]]; else if (i >= 11 && i <= 13) o += std::to_string(d.hi[i - 10]); else o += num(d.hd[k++]); o += "\n"; if (style == 1 && r.chance(.05)) o += "\n"; }
     size_t at = 0; auto row = [&](int m) { for (int i = 0; i < m; ++i) o += (i || style == 2 ? sp() : Str()) + num(d.v[at++]); o += "\n"; };
     if (kind == K_PHASE || kind == K_COEF || kind == K_LOAD) { o += std::to_string(d.n) + "\n"; for (int i = 0; i < d.n; ++i) { row((kind == K_PHASE) + (allsix ? 6 : 1)); if (style == 1 && allsix && r.chance(.1)) o += "\n"; } }
     else if (kind == K_TOTAL || kind == K_MATS) {
          o += std::to_string(d.n) + sp() + std::to_string(d.n_four - 1) + sp() + quad[d.qt] + "\n";
          if (kind == K_TOTAL) for (int i = 0; i < 2 * d.n; ++i) row(8);
          else {
               o += "C SCATTERING MATRIX\n";
               for (int k = 0; k < 2 * d.n; ++k) for (int j = 0; j < 2 * d.n; ++j) for (int i = 0; i < d.n_four; ++i) { o += num(.5) + sp() + num(-.25) + sp() + std::to_string(i) + "\n"; for (int l = 0; l < 4; ++l) row(4); }
               o += "C EXTINCTION MATRIX\n"; for (int i = 0; i < 2 * d.n; ++i) { o += num(.5) + "\n"; for (int l = 0; l < 4; ++l) row(4); }
               o += "C EMISION VECTOR\n"; for (int i = 0; i < 2 * d.n; ++i) { o += num(.5); for (int l = 0; l < 4; ++l) o += sp() + num(d.v[at++]); o += "\n"; }
          }
     }
     return o;
}
/* ---- calls */
struct Run {
     const History &h; Stats &st; Violation v; int cur = 0; long pin_pos = -1, pin_k = 0; bool faulted = false;
     Run(const History &q, Stats &s) : h(q), st(s) {}
     bool fail(const Str &sig, const Str &what) { if (!v.any()) { v.sig = h.prop + ":" + sig; v.what = what; v.op = cur; } return false; }
     template <class F> int call(F fn, const rt_fault *f = 0) {
          uint64_t s0 = cov_steps; cov_limit = s0 + 30000000; cov_hash = 0; int rc = sigsetjmp(rt_env, 1);
          if (!rc) { if (h.stack >= 0) rt_poison_stack((unsigned char) h.stack, h.stack == 256 ? h.seed | 1 : 0); rt_enter(); if (f) rt_arm(f); errno = 0; fn(); }
          rt_disarm(); rt_leave(); cov_limit = ~0ull; st.steps += cov_steps - s0; st.n["calls"]++; return rc;
     }
     void plan(const Op &o, long pos, int arg) { io_plan = IoPlan(); io_plan.kind = o.iv[7]; io_plan.pos = pos; io_plan.arg = arg; io_plan.buf = o.iv[9]; io_plan.chunk = o.iv[10]; io_plan.seed = h.seed * 31 + cur * 7 + 1; }
     static Str name(int f) { return "f" + std::to_string(f); }
     Str where(const Op &o, long pos) { Str s = Str(kname[o.iv[1] % 100]) + (o.iv[2] ? "_fn" : "_fp"); if (o.iv[7]) s += Str(", ") + io_kind_name[o.iv[7]] + (pos >= 0 ? " (byte " + std::to_string(pos) + ")" : ""); return s; }
     bool after(const Str &w, long live, long open, int rc) {
          char m[300];
          if (rc == RT_EXIT) return fail("exit", w + ": the process was ended"); if (rc == RT_SIGNAL) return fail("abnormal", w + ": signal " + std::to_string(rt_signal));
          if (rt_check_heap(m, sizeof m)) return fail("heap", w + ": " + m);
          if (io_stat.open_now != open) return fail("stream", w + ": " + std::to_string(io_stat.open_now - open) + " streams left open");
          if (rt_live_blocks() != live) return fail("memory", w + ": " + std::to_string(rt_live_blocks() - live) + " blocks of memory left behind: " + rt_describe_live(-1));
          return true;
     }
     bool write_once(const Op &o, const Data &d, long pos, const Str *want) {
          int kind = o.iv[1], fn = o.iv[2], six = o.iv[4], n = o.iv[5]; Str f = name(o.iv[0]); scat_header_data H; to_header(d, H); scat_header_data *hp = o.iv[3] || kind == K_HEAD || kind == K_HEADB ? &H : 0;
          int ne = six ? 6 : 1; std::vector<VD> rows; std::vector<double *> rp; VD col[8]; const VD &v = d.v; VD theta; double *****P = 0, ***Ke = 0, **Km = 0; VD qx;
          if (kind == K_PHASE || kind == K_COEF) { int w = (kind == K_PHASE) + ne; rows.assign(6, VD(n ? n : 1)); for (int i = 0; i < n; ++i) { if (kind == K_PHASE) theta.push_back(v[i * w]); for (int j = 0; j < ne; ++j) rows[j][i] = v[i * w + j + (kind == K_PHASE)]; } }
          if (kind == K_COEFB4 || kind == K_COEFB8) for (int j = 0; j < ne; ++j) rows.push_back(VD(v.begin() + j * n, v.begin() + (j + 1) * n));
          for (auto &x : rows) { if (x.empty()) x.resize(1); rp.push_back(x.data()); } if (theta.empty()) theta.resize(1);
          if (kind == K_TOTAL) for (int j = 0; j < 8; ++j) { for (int i = 0; i < 2 * n; ++i) col[j].push_back(v[i * 8 + j]); if (!n) col[j].resize(1); }
          if (kind == K_MATS) { P = alloc_array5_d(d.n_four, 2 * n, 2 * n, 4, 4); Ke = alloc_array3_d(2 * n, 4, 4); Km = alloc_array2_d(2 * n, 4); size_t a = 0;
               for (int k = 0; k < 2 * n; ++k) for (int j = 0; j < 2 * n; ++j) for (int i = 0; i < d.n_four; ++i) for (int l = 0; l < 16; ++l) P[i][j][k][l / 4][l % 4] = v[a++];
               for (int i = 0; i < 2 * n; ++i) for (int l = 0; l < 16; ++l) Ke[i][l / 4][l % 4] = v[a++];
               for (int i = 0; i < 2 * n; ++i) for (int l = 0; l < 4; ++l) Km[i][l] = v[a++]; for (int i = 0; i < n; ++i) qx.push_back(.1 * (i + 1)); }
          plan(o, pos, 0); long live = rt_live_blocks(), open = io_stat.open_now; io_stat.fired = 0; int r = -99, flag = 0; FILE *fp = 0;
          if (!fn) { fp = disk_open(f.c_str(), "w"); if (!fp) { if (P) { free_array5_d(P); free_array3_d(Ke); free_array2_d(Km); } return true; } open = io_stat.open_now; }
          double **pp = rp.data(); const char *nm = f.c_str();
          int rc = call([&] {
               switch (kind) {
               case K_HEAD: r = fn ? scat_header_write_fn(nm, hp) : scat_header_write_fp(fp, hp); break;
               case K_HEADB: r = fn ? scat_header_write_bin_fn(nm, hp) : scat_header_write_bin_fp(fp, hp); break;
               case K_PHASE: r = fn ? phase_func_write_fn(nm, hp, theta.data(), pp, n, six) : phase_func_write_fp(fp, hp, theta.data(), pp, n, six); break;
               case K_COEF: r = fn ? scat_coefs_write_fn(nm, n, hp, pp, six) : scat_coefs_write_fp(fp, n, hp, pp, six); break;
               case K_COEFB4: case K_COEFB8: { int sz = kind == K_COEFB4 ? 4 : 8; r = fn ? scat_coefs_write_bin_fn(nm, n, hp, pp, sz, ne) : scat_coefs_write_bin_fp(fp, n, hp, pp, sz, ne); break; }
               case K_TOTAL: r = fn ? scat_total_write_fn(nm, hp, n, d.n_four, d.qt, col[0].data(), col[1].data(), col[2].data(), col[3].data(), col[4].data(), col[5].data(), col[6].data(), col[7].data()) : scat_total_write_fp(fp, hp, n, d.n_four, d.qt, col[0].data(), col[1].data(), col[2].data(), col[3].data(), col[4].data(), col[5].data(), col[6].data(), col[7].data()); break;
               case K_MATS: r = fn ? phase_mats_write_fn(nm, hp, n, d.n_four, d.qt, o.iv[11] ? qx.data() : 0, P, Ke, Km) : phase_mats_write_fp(fp, hp, n, d.n_four, d.qt, o.iv[11] ? qx.data() : 0, P, Ke, Km); break;
               } }, &o.f);
          int afl = rt_alloc_fired(); if (afl) { st.n["fault:failed allocation"] += afl; faulted = true; }
          bool ok = rc == RT_OK && r >= 0; Str w = "writing " + where(o, pos);
          bool good = after(w, live, open, rc); (void) flag;
          if (good && !fn) { if (ok && ferror(fp)) good = fail("write error", w + ": success although the stream reported an error"); int e = disk_close(fp); if (e) ok = false; fp = 0; }
          if (P) { free_array5_d(P); free_array3_d(Ke); free_array2_d(Km); }
          if (!good) return false;
          bool fired = io_stat.fired || afl;
          if (io_stat.fired) { st.n[Str("fault:") + io_kind_name[o.iv[7]]]++; faulted = true; }
          if (!ok && !fired) return fail("refused", w + ": failed (" + std::to_string(r) + ") although nothing went wrong");
          if (ok && want && disk[f] != *want) return fail("incomplete", w + ": success, but only " + std::to_string(disk[f].size()) + " of " + std::to_string(want->size()) + " bytes are on the disk");
          if (ok) st.n["writes that succeeded"]++; else st.n["writes reported as failed"]++;
          return true;
     }
     Data parse(const Str &s, int kind, int six, int want) { return kind == K_HEADB || kind == K_COEFB4 || kind == K_COEFB8 ? parse_bin(s, kind, six ? 6 : 1, want) : parse_text(s, kind, six, want); }
     static bool same(double a, double b, double tol = 0.) { return a == b || (a != a && b != b) || std::fabs(a - b) <= tol * std::fabs(b); }
     Str differ(const Data &a, const Data &b, bool hd, double tol = 0.) {
          if (hd) { for (int i = 0; i < 22; ++i) if (!same(a.hd[i], b.hd[i])) return "header value " + std::to_string(i); for (int i = 0; i < 4; ++i) if (a.hi[i] != b.hi[i]) return "header integer " + std::to_string(i); }
          if (a.n != b.n || a.n_four != b.n_four || a.qt != b.qt) return "dimensions"; if (a.v.size() != b.v.size()) return "number of values";
          for (size_t i = 0; i < a.v.size(); ++i) if (!same(a.v[i], b.v[i], tol)) { char t[120]; snprintf(t, sizeof t, "value %zu: %.9g, in the file %.9g", i, a.v[i], b.v[i]); return t; }
          return "";
     }
     /* iv[6]: size of the returned values for binary coefficients (0: 8, 1: 4) */
     bool read_once(const Op &o, long pos, int arg, bool readback = false, const Data *written = 0) {
          int kind = o.iv[1], fn = o.iv[2] || kind == K_LOAD, six = o.iv[4], want = o.iv[5]; Str f = name(o.iv[0]); if (!disk.count(f)) return true;
          scat_header_data H; memset(&H, 0x77, sizeof H); bool hg = o.iv[3] || kind == K_HEAD || kind == K_HEADB; scat_header_data *hp = hg ? &H : 0;
          plan(o, pos, arg); long live = rt_live_blocks(), open = io_stat.open_now; io_stat.fired = 0; int r = -99; FILE *fp = 0; Data got; double *theta = 0, **ph = 0, *****P = 0, ***Ke = 0, **Km = 0; void **cf = 0; int flag = -1; static std::vector<double> big[8];
          if (kind == K_TOTAL) for (auto &x : big) if (x.empty()) x.assign(20002, 0.);
          int osz = o.iv[6] ? 4 : 8, ne = six ? 6 : 1;
          if (!fn) { fp = disk_open(f.c_str(), "r"); if (!fp) return true; open = io_stat.open_now; }
          const char *nm = f.c_str(); Str lf = Str(o.iv[11] & 256 ? "lc" : "gc") + (six ? "6:" : ":") + f;
          int rc = call([&] {
               switch (kind) {
               case K_HEAD: r = fn ? scat_header_read_fn(nm, hp) : scat_header_read_fp(fp, hp); break;
               case K_HEADB: r = fn ? scat_header_read_bin_fn(nm, hp) : scat_header_read_bin_fp(fp, hp); break;
               case K_PHASE: r = fn ? phase_func_read_fn(nm, hp, &theta, &ph, six) : phase_func_read_fp(fp, hp, &theta, &ph, six); break;
               case K_COEF: r = fn ? scat_coefs_read_fn(nm, want, hp, &ph, six) : scat_coefs_read_fp(fp, want, hp, &ph, six); break;
               case K_COEFB4: case K_COEFB8: r = fn ? scat_coefs_read_bin_fn(nm, want, hp, &cf, osz, ne) : scat_coefs_read_bin_fp(fp, want, hp, &cf, osz, ne); break;
               case K_TOTAL: r = fn ? scat_total_read_fn(nm, hp, &got.n, &got.n_four, &got.qt, &big[0][0], &big[1][0], &big[2][0], &big[3][0], &big[4][0], &big[5][0], &big[6][0], &big[7][0]) : scat_total_read_fp(fp, hp, &got.n, &got.n_four, &got.qt, &big[0][0], &big[1][0], &big[2][0], &big[3][0], &big[4][0], &big[5][0], &big[6][0], &big[7][0]); break;
               case K_MATS: r = fn ? phase_mats_read_fn(nm, hp, &got.n, &got.n_four, &got.qt, &P, &Ke, &Km) : phase_mats_read_fp(fp, hp, &got.n, &got.n_four, &got.qt, &P, &Ke, &Km); break;
               case K_LOAD: r = load_scat_coefs(lf.c_str(), want, &ph, &flag); break;
               } }, &o.f);
          int afl = rt_alloc_fired(); if (afl) { st.n["fault:failed allocation"] += afl; faulted = true; }
          bool ok = rc == RT_OK && r >= 0; Str w = "reading " + where(o, pos); if (o.iv[7] == IoPlan::MUTATE) w += " = " + std::to_string(arg);
          if (ok) {
               of_header(H, got);
               if (kind == K_PHASE || kind == K_COEF || kind == K_LOAD) { got.n = r; for (int i = 0; i < r; ++i) { if (kind == K_PHASE) got.v.push_back(theta[i]); for (int j = 0; j < ne; ++j) got.v.push_back(ph[j][i]); } }
               if (kind == K_COEFB4 || kind == K_COEFB8) { got.n = r; for (int j = 0; j < ne; ++j) for (int i = 0; i < r; ++i) got.v.push_back(osz == 4 ? ((float **) cf)[j][i] : ((double **) cf)[j][i]); }
               if (kind == K_TOTAL) for (int i = 0; i < 2 * got.n && i < 20000; ++i) for (int j = 0; j < 8; ++j) got.v.push_back(big[j][i]);
               int n = got.n; if (kind == K_MATS && n > 0 && n < 10000) {
                    for (int k = 0; k < 2 * n; ++k) for (int j = 0; j < 2 * n; ++j) for (int i = 0; i < got.n_four; ++i) for (int l = 0; l < 16; ++l) got.v.push_back(P[i][j][k][l / 4][l % 4]);
                    for (int i = 0; i < 2 * n; ++i) for (int l = 0; l < 16; ++l) got.v.push_back(Ke[i][l / 4][l % 4]); for (int i = 0; i < 2 * n; ++i) for (int l = 0; l < 4; ++l) got.v.push_back(Km[i][l]); }
               if (theta) free_array1_d(theta); if (ph) free_array2_d(ph); if (P) { free_array5_d(P); free_array3_d(Ke); free_array2_d(Km); } if (cf) { if (osz == 4) free_array2_f((float **) cf); else free_array2_d((double **) cf); }
          }
          bool good = after(w, live, open, rc); bool fe = fp && ferror(fp); if (fp) disk_close(fp); if (!good) return false; (void) fe;
          bool fired = io_stat.fired; if (fired) { st.n[Str("fault:") + io_kind_name[o.iv[7]]]++; faulted = true; }
          if (io_stat.short_reads) { st.n["fault:short read"] += io_stat.short_reads; io_stat.short_reads = 0; }
          Str bytes = disk[f]; if (o.iv[7] == IoPlan::TRUNCATE && (size_t) pos < bytes.size()) bytes.resize(pos); if (o.iv[7] == IoPlan::MUTATE && (size_t) pos < bytes.size()) bytes[pos] = (char) arg;
          Data ref = parse(bytes, kind, six, want); bool eio = o.iv[7] >= IoPlan::EIO_ALWAYS && fired;
          if (kind == K_LOAD) { if (ref.valid == 1 && ref.v.size() && ref.v[0] != 0. && ref.v[0] != 1.) { double q = ref.v[0]; for (double &x : ref.v) x /= q; } }
          if (osz == 4 && (kind == K_COEFB4 || kind == K_COEFB8)) for (double &x : ref.v) x = (float) x;
          if (kind == K_MATS || kind == K_TOTAL) ; else { got.n_four = ref.n_four; got.qt = ref.qt; }
          if (kind == K_HEAD || kind == K_HEADB) got.n = ref.n;
          if (ref.valid < 0) { st.n["reads with an unspecified result"]++; return true; }
          if (!ok && !eio && !afl && ref.valid) return fail("refused", w + ": failed (" + std::to_string(r) + ") on a readable file");
          if (ok && !ref.valid) return fail("accepted", w + ": success on an incomplete or malformed file" + (ref.why.empty() ? "" : " (" + ref.why + ")"));
          if (ok) { Str x = differ(got, ref, hg && kind != K_LOAD, kind == K_LOAD ? 1e-14 : 0.); if (!x.empty()) return fail("wrong data", w + ": success with data that are not those of the file: " + x); }
          if (ok && kind == K_LOAD && flag != (o.iv[11] & 256 ? SCAT_COEF_LC : SCAT_COEF_GC)) return fail("wrong data", w + ": wrong type of coefficients");
          if (ok) st.n["reads that succeeded"]++; else st.n["reads reported as failed"]++;
          return true;
     }
     bool write_op(const Op &o0) {
          Op o = o0; int kind = o.iv[1] % 100; bool put = o.iv[1] >= 100; o.iv[1] = kind; Data d = make_data((uint64_t) o.dv[0], kind == K_LOAD ? K_COEF : kind, o.iv[5], o.iv[6], o.iv[4], o.iv[3] || kind == K_HEAD || kind == K_HEADB);
          if (put) { disk[name(o.iv[0])] = format((uint64_t) o.dv[0], kind, d, o.iv[4]); return true; }
          if (kind == K_LOAD) kind = o.iv[1] = K_COEF;
          /* without faults first: the bytes that make the file, and the data they hold */
          Op q = o; q.iv[7] = 0; q.f = rt_fault{0, 0, 0, 0}; q.iv[9] = -1; if (!write_once(q, d, -1, 0)) return false;
          Str f = name(o.iv[0]), want = disk[f]; Data ref = parse(want, kind, o.iv[4], 0), model = d; bool bin = kind == K_HEADB || kind == K_COEFB4 || kind == K_COEFB8;
          if (!bin) { for (double &x : model.hd) x = as_text(x); for (double &x : model.v) x = as_text(x); model.hd[21] = 0.; }
          if (kind == K_HEAD || kind == K_HEADB) model.n = ref.n; if (kind != K_TOTAL && kind != K_MATS) { model.n_four = ref.n_four; model.qt = ref.qt; }
          if (h.prop == "C16") {
               if (!ref.valid) return fail("not readable", "writing " + where(q, -1) + ": success, but the file cannot be read: " + ref.why);
               Str x = differ(ref, model, true); if (!x.empty()) return fail("wrong bytes", "writing " + where(q, -1) + ": the file does not hold the data written: " + x);
               Op rd = mk(0, O_READ); rd.iv = {o.iv[0], kind, o.iv[2], 1, o.iv[4], 0, 0, 0, -1, -1, 0, 0}; if (!read_once(rd, -1, 0)) { v.sig = h.prop + ":reads back"; return false; }
               st.nontrivial = true;
          }
          if (o.f.alloc_k < 0) { for (long k = 1; k < 12; ++k) { q = o; q.f.alloc_k = k; pin_k = k; if (!write_once(q, d, 0, &want)) return false; if (!rt_alloc_fired()) break; } }
          else if (o.iv[7] && o.iv[8] < 0 && o.iv[7] != IoPlan::CLOSE && o.iv[7] != IoPlan::OPEN) { long step = 1 + want.size() / 600; for (long p = (long) h.seed % step; p <= (long) want.size(); p += step) { pin_pos = p; if (!write_once(o, d, p, &want)) return false; } }
          else if (o.iv[7] || o.f.alloc_k || o.iv[9] >= 0) { pin_pos = o.iv[8]; if (!write_once(o, d, o.iv[8], &want)) return false; }
          if (!(h.ops.size() > 1 && o.iv[7] && !o.iv[2] && o.iv[11] == 2)) disk[f] = want;   /* sometimes what is left of a failed write is read later */
          return true;
     }
     bool read_op(const Op &o) {
          Str f = name(o.iv[0]); if (!disk.count(f)) return true; long n = disk[f].size(), step = 1 + n / (o.iv[7] == IoPlan::MUTATE ? 250 : 500); static const int bytes[] = {'x', '.', ' ', '\n', '-', '7', 0, 'e', 255, '+', '=', '0'};
          if (o.f.alloc_k < 0) { for (long k = 1; k < 14; ++k) { Op q = o; q.f.alloc_k = k; pin_k = k; if (!read_once(q, o.iv[8], o.iv[11] & 255)) return false; if (!rt_alloc_fired()) break; } }
          else if (o.iv[7] && o.iv[8] < 0 && o.iv[7] != IoPlan::OPEN && o.iv[7] != IoPlan::CLOSE) { for (long p = (long) h.seed % step; p <= n; p += step) { pin_pos = p; int b = o.iv[7] == IoPlan::MUTATE && (o.iv[11] & 255) == 1 ? bytes[(p * 7 + h.seed) % 12] : o.iv[11] & 255; pin_k = b; if (!read_once(o, p, b)) return false; } }
          else if (!read_once(o, o.iv[8], o.iv[11] & 255)) return false;
          if (h.prop == "C15") st.nontrivial = true;
          return true;
     }
     void run() {
          rt_reset(&h.heap); disk_reset();
          for (cur = 0; cur < (int) h.ops.size() && !v.any(); ++cur) {
               const Op &o = h.ops[cur]; pin_pos = -1; pin_k = 0; if (o.iv.size() < 12) continue; cov_hash = 0;
               if (o.code == O_WRITE) write_op(o); else if (o.code == O_READ) read_op(o);
               if (v.any() && (h.prop == "C15") == (o.code == O_WRITE)) { v = Violation(); st.n["histories ended by a failure the other property decides"]++; break; }
               io_plan = IoPlan(); st.n[Str(o.code == O_WRITE ? o.iv[1] >= 100 ? "put " : "write " : "read ") + kname[o.iv[1] % 100]]++;
               uint64_t q[3] = {cov_hash, (uint64_t) o.iv[1], (uint64_t) o.code}; st.states.insert(fnv(q, sizeof q));
          }
     }
};
}
History make_history(const std::string &prop, uint64_t seed) {
     History h; h.prop = prop; h.seed = seed; Rng r(seed ^ (prop == "C16" ? 0x16161616 : 0x15151515));
     h.heap.fill = r.below(N_FILLS); h.heap.reuse = r.below(2); h.heap.skew = 64 * r.below(3); h.heap.fill_seed = r.next() & 0xffffff; h.stack = r.pick({-1, 0, 0xff, 0x7f, 256});
     bool w = prop == "C16"; int nf = r.range(1, 3);
     struct F { int kind, six, n; bool there; }; std::vector<F> f(nf, F{0, 0, 0, false}); int nops = r.range(3, 9);
     for (int i = 0; i < nops; ++i) {
          int k = r.below(nf); F &x = f[k]; int buf = r.pick({-1, -1, 0, 1, 7, 64, 512}), chunk = r.pick({0, 0, 1, 2, 5, 40});
          if (!x.there || r.chance(w ? .65 : .25)) {
               x.kind = r.below(N_KINDS); x.six = r.chance(.6); x.n = x.kind == K_MATS ? r.range(1, 2) : r.chance(.1) ? 0 : r.range(1, 7); if (x.kind == K_LOAD && !x.n) x.n = 1; x.there = true;
               bool put = !w && r.chance(.7); Op o = mk(0, O_WRITE); int fault = put ? 0 : r.chance(w ? .75 : .1) ? r.pick({(int) IoPlan::FULL, (int) IoPlan::FULL, (int) IoPlan::FAIL_ONCE, (int) IoPlan::CLOSE, (int) IoPlan::OPEN}) : 0;
               o.iv = {k, x.kind + (put ? 100 : 0), r.below(2), r.below(5) > 0, x.six, x.n, r.range(1, 3), fault, r.chance(.5) ? -1 : r.range(0, 2500), buf, chunk, r.below(3)}; o.dv = {(double) (r.next() >> 20)};
               if (fault && x.kind == K_MATS && x.n > 1) o.iv[6] = 1; if (!put && !fault && r.chance(.3)) { o.f.alloc_k = r.chance(.7) ? -1 : r.range(1, 6); o.f.alloc_persist = r.below(2); }
               h.ops.push_back(o); if (!w || r.chance(.6)) continue;
          }
          if (w && r.chance(.7)) continue;
          Op o = mk(0, O_READ); int fault = w ? 0 : r.chance(.75) ? r.pick({(int) IoPlan::TRUNCATE, (int) IoPlan::TRUNCATE, (int) IoPlan::MUTATE, (int) IoPlan::MUTATE, (int) IoPlan::EIO_ALWAYS, (int) IoPlan::EIO_ONCE, (int) IoPlan::OPEN}) : 0;
          int kind = x.kind; if (kind == K_COEF && r.chance(.2)) kind = K_LOAD; if (kind == K_LOAD && r.chance(.2)) kind = K_COEF;
          int six = x.six; if (r.chance(.15)) six = (kind == K_COEFB4 || kind == K_COEFB8 || x.six) ? !six : six;
          o.iv = {k, kind, r.below(2), r.below(3) > 0, six, r.chance(.6) ? 0 : r.range(1, 8), r.below(2), fault, r.chance(.6) ? -1 : r.range(0, 1800), buf, chunk, (r.chance(.6) ? 1 : r.below(256)) | r.below(2) << 8};
          if (!fault && r.chance(.4)) { o.f.alloc_k = r.chance(.7) ? -1 : r.range(1, 6); o.f.alloc_persist = r.below(2); }
          h.ops.push_back(o);
     }
     return h;
}
static long last_pos, last_k; static int last_op;
Violation check_history(const History &h, Stats &st) { Run r(h, st); r.run(); last_pos = r.pin_pos; last_k = r.pin_k; last_op = r.v.op; io_plan = IoPlan(); return r.v; }
/* the history with the position at which a sweep failed */
History io_pin(const History &h) {
     History q = h; Stats st; Violation v = check_history(h, st); if (!v.any() || v.op < 0) return q;
     Op &o = q.ops[v.op]; if (o.f.alloc_k < 0) { o.f.alloc_k = last_k ? last_k : 1; return q; }
     if (o.iv[7] && o.iv[8] < 0 && last_pos >= 0) { o.iv[8] = (int) last_pos; if (o.code == O_READ && o.iv[7] == IoPlan::MUTATE) o.iv[11] = (o.iv[11] & 256) | (int) last_k; }
     return q;
}
