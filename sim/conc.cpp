/* Several threads, each with an instance of its own, under a scheduler that decides at every
   memory access of the code under test which of them runs next.

   The library is compiled with -fsanitize=thread, but linked with the functions below instead
   of the sanitizer's: each access comes here first.  Exactly one thread runs at a time.  The
   library's static data are put back to their initial state before every execution, so that
   initialisation on first use is part of each run. */
#include "exec.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <string.h>
#include <signal.h>
#include <stdlib.h>

extern "C" { extern char __start_repodata[] __attribute__((weak)), __stop_repodata[] __attribute__((weak)); uint64_t cov_steps, cov_hash, cov_limit = ~0ull, cov_blocks; }
extern int fd_give(xrtm_fd_data *d, const Config &c, int nd, const Op &o, VD &vals);
extern std::string fd_getters(xrtm_fd_data *d, const Inputs &p, const VD &delta);

static const int MT = 4;
static const uint64_t ACCESS_LIMIT = 400000000ull;
struct Switch { int from; uint64_t at; int to; };
static struct {
     int nth = 0; bool solo = true; sem_t sem[MT]; bool done[MT]; sem_t over;
     uint64_t seed; int mode; double p_any, p_hot; int stall; uint64_t stall_until, total;
     std::vector<Switch> taken, list[1]; std::vector<std::vector<Switch>> plan; size_t at[MT];
     std::vector<uint8_t> written; long hot, hot_shared; std::set<uint64_t> hot_sites;
     uint64_t rs;
} S;
static thread_local int my = -1; static thread_local uint64_t acc, next_any, acc_limit; static thread_local int still;   /* still: no switching */
static double rnd() { S.rs ^= S.rs << 13; S.rs ^= S.rs >> 7; S.rs ^= S.rs << 17; return (double) (S.rs >> 11) / 9007199254740992.0; }
static void plan_any() { if (S.p_any <= 0) { next_any = ~0ull; return; } double u = rnd(); next_any = acc + 1 + (uint64_t) (-log(1 - u) / S.p_any); }
static int choose(int me) {   /* another thread that can run, or -1 */
     int c[MT], n = 0; for (int i = 0; i < S.nth; ++i) if (i != me && !S.done[i] && !(i == S.stall && S.total < S.stall_until)) c[n++] = i;
     if (!n) for (int i = 0; i < S.nth; ++i) if (i != me && !S.done[i]) c[n++] = i;
     return n ? c[(int) (rnd() * n) % n] : -1;
}
static void go(int to) { int me = my; S.taken.push_back({me, acc, to}); sem_post(&S.sem[to]); while (sem_wait(&S.sem[me])) ; }
/* the thread cannot go on for now (a lock is held by another) */
static void give_way() { if (S.solo || my < 0) return; int t = S.mode == 1 ? -1 : choose(my); if (S.mode == 1) { for (int i = 1; i < S.nth && t < 0; ++i) { int c = (my + i) % S.nth; if (!S.done[c]) t = c; } } if (t >= 0) { acc++; go(t); } }

static inline __attribute__((always_inline)) void point(uintptr_t a, bool w) {
     if (my < 0) return;
     acc++; cov_steps++;
     if (acc > acc_limit && rt_in_call) { rt_signal = 999; rt_in_call = 0; still = 0; siglongjmp(rt_env, RT_SIGNAL); }
     bool hot = false; uintptr_t o = a - (uintptr_t) __start_repodata;
     if (o < (uintptr_t) (__stop_repodata - __start_repodata)) { if (w) S.written[o] = 1; hot = S.written[o]; }
     else { int r = rt_region((void *) a); if (r > 0 && r != my + 1) { hot = true; S.hot_shared++; } }
     if (S.solo) return;
     S.total++;
     if (hot) { S.hot++; if (S.hot_sites.size() < 100000) S.hot_sites.insert(a); }
     if (still) return;
     if (S.mode == 1) { auto &P = S.plan[my]; size_t &i = S.at[my]; while (i < P.size() && P[i].at < acc) i++; if (i < P.size() && P[i].at == acc) { int t = P[i++].to; if (t != my && t < S.nth && !S.done[t]) go(t); } return; }
     bool sw = false;
     if (acc >= next_any) { plan_any(); sw = true; }
     if (hot && rnd() < S.p_hot) sw = true;
     if (sw) { int t = choose(my); if (t >= 0) go(t); }
}
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *a) { point((uintptr_t) a, false); } \
void __tsan_write##n(void *a) { point((uintptr_t) a, true); } \
void __tsan_unaligned_read##n(void *a) { point((uintptr_t) a, false); } \
void __tsan_unaligned_write##n(void *a) { point((uintptr_t) a, true); } \
void __tsan_volatile_read##n(void *a) { point((uintptr_t) a, false); } \
void __tsan_volatile_write##n(void *a) { point((uintptr_t) a, true); } \
void __tsan_unaligned_volatile_read##n(void *a) { point((uintptr_t) a, false); } \
void __tsan_unaligned_volatile_write##n(void *a) { point((uintptr_t) a, true); } \
void __tsan_read_write##n(void *a) { point((uintptr_t) a, false); point((uintptr_t) a, true); } \
void __tsan_unaligned_read_write##n(void *a) { point((uintptr_t) a, false); point((uintptr_t) a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { point((uintptr_t) a, false); }
void __tsan_write_range(void *a, long n) { uintptr_t o = (uintptr_t) a - (uintptr_t) __start_repodata; if (my >= 0 && o < (uintptr_t) (__stop_repodata - __start_repodata)) memset(&S.written[o], 1, std::min<size_t>(n, S.written.size() - o)); point((uintptr_t) a, true); }
void __tsan_vptr_update(void **a, void *) { point((uintptr_t) a, true); }
void __tsan_vptr_read(void **a) { point((uintptr_t) a, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T *a, int) { point((uintptr_t) a, false); return *a; } \
void __tsan_atomic##n##_store(volatile T *a, T v, int) { point((uintptr_t) a, true); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { point((uintptr_t) a, true); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { point((uintptr_t) a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { point((uintptr_t) a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) { point((uintptr_t) a, true); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
/* locks: waiting for one lets the others run */
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (my < 0 || S.solo) return __real_pthread_mutex_lock(m); while (pthread_mutex_trylock(m)) { if (acc++ > acc_limit && rt_in_call) { rt_signal = 999; rt_in_call = 0; siglongjmp(rt_env, RT_SIGNAL); } give_way(); } return 0; }
int __real_pthread_once(pthread_once_t *o, void (*f)(void)); int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { still++; int r = __real_pthread_once(o, f); still--; return r; }
void __real_GOMP_critical_start(void); void __wrap_GOMP_critical_start(void) { still++; __real_GOMP_critical_start(); }
void __real_GOMP_critical_end(void); void __wrap_GOMP_critical_end(void) { __real_GOMP_critical_end(); still--; }
/* functions of the C library with hidden static data */
static char hidden;
char *__real_strtok(char *s, const char *d); char *__wrap_strtok(char *s, const char *d) { char *r = __real_strtok(s, d); if (my >= 0 && !S.solo && !still) give_way(); return r; }
int __real_rand(void); int __wrap_rand(void) { int r = __real_rand(); if (my >= 0 && !S.solo && !still) give_way(); return r; }
}

/* One thread: its operations, and what it sees. */
struct Th {
     int id; const History *h; std::vector<const Op *> ops; std::vector<uint64_t> tr; std::vector<std::string> lab; bool abnormal = false; long solutions = 0; bool nonzero = false;
     CApi api; Inputs in; bool alive = false; xrtm_fd_data fd; bool fd_alive = false; int fd_n = 0; Inputs fdp; VD fdd; size_t live_end = 0;
     void note(const std::string &l, const void *p, size_t n) { lab.push_back(l); tr.push_back(fnv(p, n)); }
     void body();
};
template <class F> static bool guarded(const Op *o, F f) {   /* false: the call did not return */
     static const rt_fault none = {0, 0, 0, 0}; rt_arm(o ? &o->f : &none);
     if (!sigsetjmp(rt_env, 1)) { rt_enter(); f(); rt_leave(); rt_disarm(); return true; }
     rt_disarm(); still = 0; return false;
}
static const char *sname(int s) { const char *n = xrtm_solver_mask_to_name((enum xrtm_solver_mask) s); return n ? n : "?"; }
void Th::body() {
     const Config &c = h->cfg[id];
     for (const Op *po : ops) {
          const Op &o = *po; int s = -77; std::string l = code_name[o.code]; bool ok = true;
          if (o.code != O_CREATE && !alive) continue;
          switch (o.code) {
          case O_CREATE: if (alive) continue; api.by2 = h->seed % 3 == 1; ok = guarded(po, [&]() { s = api.create(c); }); alive = ok && s == 0 && api.alive; in = Inputs(c); note(l, &s, sizeof s); fd_alive = false;
               if (alive) { int v[64]; memset(v, 0, sizeof v); guarded(0, [&]() { api.counts(v); }); note("counts", v, sizeof v); } break;
          case O_DESTROY: if (fd_alive) { guarded(0, [&]() { xrtm_fd_destroy(&fd); }); fd_alive = false; } ok = guarded(0, [&]() { s = api.destroy(); }); alive = false; note(l, &s, sizeof s); { size_t b = rt_live_bytes(); note("memory left", &b, sizeof b); } break;
          case O_SET: case O_GETBAD: {
               if (o.code != O_SET) continue; int ex = in.set_expect(o); if (ex < 0) continue; ok = guarded(po, [&]() { s = api.set(o); }); l = "set " + std::string(field_name[o.iv[0]]); note(l, &s, sizeof s); if (ok && s == 0) in.set_apply(o);
               if (ok && ex == 1) { int k = std::max(0, o.iv[1]); GetR g; ok = guarded(0, [&]() { g = api.get(Get{o.iv[0], k, 0, 0, 0}, c); }); note("get " + std::string(field_name[o.iv[0]]), &g.status, sizeof g.status); if (!g.v.empty()) note("get " + std::string(field_name[o.iv[0]]), g.v.data(), g.v.size() * 8); }
               break; }
          case O_UPDATE: if (!c.n_derivs) continue; ok = guarded(po, [&]() { s = api.update(); }); note(l, &s, sizeof s); if (ok && !s) in.updated(); break;
          case O_CLEAR: ok = guarded(0, [&]() { api.clear(); }); note(l, &s, sizeof s); break;
          case O_SOLVE: case O_ADJOINT: {
               if (in.solve_expect(o) < 0) continue; Outs r; r.shape(c, o.iv[2], SENTINEL); int np = std::max(1, o.iv[2]); VD ph = o.dv; ph.resize((size_t) c.n_out2() * np, 0.); std::vector<double *> rows; for (int i = 0; i < c.n_out2(); ++i) rows.push_back(ph.data() + (size_t) i * np);
               ok = guarded(po, [&]() { s = o.code == O_SOLVE ? api.solve(o, rows.data(), r) : api.adjoint(o, rows.data(), r); });
               l += std::string(" ") + sname(o.iv[0]); note(l, &s, sizeof s); if (ok && s == 0) { solutions++; for (int k = 0; k < 12; ++k) { if (!r.d[k].empty()) note(l + " " + out_name[k], r.d[k].data(), r.d[k].size() * 8); for (double x : r.d[k]) if (x != SENTINEL && x != 0) nonzero = true; } }
               in.solved = true; break; }
          case O_FD_CREATE: { if (fd_alive) continue; memset(&fd, 0, sizeof fd); int n = o.iv[0]; ok = guarded(po, [&]() { s = xrtm_fd_create(&fd, api.raw(), n); }); note(l, &s, sizeof s); if (ok && s == 0) { fd_alive = true; fd_n = n; Config f = c; f.n_derivs = n; f.options |= XRTM_OPTION_CALC_DERIVS; fdp = Inputs(f); fdd.assign(n, 0.); } break; }
          case O_FD_DESTROY: if (!fd_alive) continue; fd_alive = false; ok = guarded(0, [&]() { s = xrtm_fd_destroy(&fd); }); note(l, &s, sizeof s); break;
          case O_FD_SET: { if (!fd_alive) continue; fdp.n_coef = in.n_coef; bool del = o.iv[0] == N_FIELDS; if (del ? (int) o.dv.size() != fd_n : fdp.set_expect(o) != 1) continue; if (o.iv[0] == F_COEF_L) { bool m = false; for (int x : in.hcoef) if (!x) m = true; if (m) continue; }
               VD v; ok = guarded(0, [&]() { s = fd_give(&fd, c, fd_n, o, v); }); note(l, &s, sizeof s); break; }
          case O_FD_SOLVE: {
               if (!fd_alive || in.solve_expect(o) < 0) continue; Config f = c; f.n_derivs = fd_n; Outs r; r.shape(f, o.iv[2], SENTINEL); int np = std::max(1, o.iv[2]); VD ph = o.dv; ph.resize((size_t) c.n_out2() * np, 0.); std::vector<double *> rows; for (int i = 0; i < c.n_out2(); ++i) rows.push_back(ph.data() + (size_t) i * np);
               #define OP(k, T) ((T) r.ptr(k))
               ok = guarded(po, [&]() { s = xrtm_fd_solution(&fd, (enum xrtm_solver_mask) o.iv[0], o.iv[1], (enum xrtm_fd_method_type) o.iv[4], o.iv[2], rows.data(), OP(0, double ****), OP(1, double ****), OP(2, double *****), OP(3, double *****), OP(4, double *), OP(5, double *), OP(6, double **), OP(7, double **), OP(8, double *), OP(9, double *), OP(10, double **), OP(11, double **), 0, 0); });
               #undef OP
               l += std::string(" ") + sname(o.iv[0]); note(l, &s, sizeof s); if (ok && s == 0) { solutions++; for (int k = 0; k < 12; ++k) if (!r.d[k].empty()) note(l + " " + out_name[k], r.d[k].data(), r.d[k].size() * 8); } in.solved = true; break; }
          default: continue;
          }
          if (!ok) { int e[2] = {rt_signal, rt_exit_status}; note(l + " abnormal end", e, sizeof e); abnormal = true; return; }
     }
     live_end = rt_live_bytes();
}

static char *stacks; static const size_t STK = 8u << 20; static std::vector<char> image;
static void *thread_main(void *p) {
     Th *t = (Th *) p; int id = t->id; acc = 0; acc_limit = ACCESS_LIMIT; still = 0; rt_thread(id + 1);
     if (!S.solo) { while (sem_wait(&S.sem[id])) ; plan_any(); }
     my = id; t->body(); my = -1;
     /* hand over, or end the run */
     S.done[id] = true; int to = -1;
     if (!S.solo) { if (S.mode == 1) { for (int i = 0; i < S.nth && to < 0; ++i) if (!S.done[i]) to = i; } else to = choose(id); }
     if (to >= 0) sem_post(&S.sem[to]); else sem_post(&S.over);
     return 0;
}
static void reset_world() { if (image.empty()) return; memcpy(__start_repodata, image.data(), image.size()); rt_heap_knobs k = {FILL_ZERO, 1, 0, 0}; rt_reset(&k); srand(1); }
static void start(pthread_t *t, Th *p) { char *st = stacks + (size_t) p->id * STK; madvise(st, STK, MADV_DONTNEED); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, STK); if (pthread_create(t, &at, thread_main, p)) _exit(70); pthread_attr_destroy(&at); }

static Violation conc(const History &h, Stats &st) {
     Violation v; size_t n = __stop_repodata - __start_repodata;
     if (!stacks) { stacks = (char *) mmap((void *) 0x310000000000ull, STK * MT, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0); if (stacks == MAP_FAILED) _exit(70); image.assign(__start_repodata, __stop_repodata); }
     S.written.assign(n + 64, 0); int nth = std::min((int) h.cfg.size(), MT); S.nth = nth;
     const Op *sched = 0; for (const Op &o : h.ops) if (o.code == O_SCHED) sched = &o;
     std::vector<Th> solo(nth), both(nth); pthread_t t[MT]; uint64_t steps0 = cov_steps;
     auto fill = [&](std::vector<Th> &v) { for (int i = 0; i < nth; ++i) { v[i].id = i; v[i].h = &h; for (const Op &o : h.ops) if (o.inst == i && o.code != O_SCHED) v[i].ops.push_back(&o); } };
     fill(solo); fill(both); sem_init(&S.over, 0, 0);
     S.solo = true; bool bad = false; char msg[300];
     for (int i = 0; i < nth; ++i) { reset_world(); start(&t[i], &solo[i]); sem_wait(&S.over); pthread_join(t[i], 0); if (solo[i].abnormal) st.n["threads whose run alone ends abnormally"]++; }
     bad = rt_check_heap(msg, sizeof msg);
     /* together */
     S.solo = false; reset_world(); S.total = 0; S.hot = S.hot_shared = 0; S.hot_sites.clear(); S.taken.clear(); S.plan.assign(MT, {}); memset(S.at, 0, sizeof S.at); memset(S.done, 0, sizeof S.done); S.stall = -1; S.mode = 0; S.p_any = 1e-4; S.p_hot = .1; S.seed = h.seed;
     if (sched) { const VI &q = sched->iv; S.mode = q[0]; if (S.mode == 0) { static const double pa[] = {0, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2}; S.p_any = pa[q[1] % 6]; S.p_hot = q[2] / 100.; S.stall = q[3]; S.stall_until = (uint64_t) q[4] * 1000; S.seed = h.seed + q[5]; }
          else for (size_t i = 1; i + 4 <= q.size(); i += 4) if (q[i] >= 0 && q[i] < MT) S.plan[q[i]].push_back({q[i], ((uint64_t) (unsigned) q[i + 2] << 30) | (unsigned) q[i + 1], q[i + 3]}); }
     S.rs = S.seed * 0x9e3779b97f4a7c15ull + 0x51ull; for (int i = 0; i < 4; ++i) rnd();
     for (int i = 0; i < nth; ++i) { sem_init(&S.sem[i], 0, 0); start(&t[i], &both[i]); }
     int first = S.mode == 1 ? 0 : choose(-1); sem_post(&S.sem[first]); sem_wait(&S.over); for (int i = 0; i < nth; ++i) { pthread_join(t[i], 0); sem_destroy(&S.sem[i]); }
     S.solo = true; st.steps += cov_steps - steps0; st.n["thread switches"] += (long) S.taken.size(); st.n["accesses to mutable static data"] += S.hot; st.n["accesses to the memory of another thread"] += S.hot_shared; st.n["threads"] += nth; st.n["fault:preemption"] += (long) S.taken.size(); if (S.stall >= 0) st.n["fault:stalled thread"]++;
     uint64_t sg = 14695981039346656037ull; for (auto &s : S.taken) sg = fnv(&s.at, 8, fnv(&s.to, sizeof s.to, fnv(&s.from, sizeof s.from, sg))); if (!S.taken.empty()) st.states.insert(sg);
     for (const Op &o : h.ops) { if (o.f.alloc_k) st.n["fault:alloc (armed)"]++; if (o.f.lapack_k) st.n["fault:lapack (armed)"]++; }
     long sol = 0; for (auto &x : solo) { sol += x.solutions; if (x.nonzero && S.taken.size() > 2) st.nontrivial = true; } st.n["solutions compared"] += sol;
     for (int i = 0; i < nth && !v.any(); ++i) {
          Th &a = solo[i], &b = both[i]; size_t m = std::max(a.tr.size(), b.tr.size()); st.n["results compared"] += (long) a.tr.size();
          for (size_t k = 0; k < m; ++k) if (k >= a.tr.size() || k >= b.tr.size() || a.tr[k] != b.tr[k] || a.lab[k] != b.lab[k]) { std::string l = k < b.lab.size() ? b.lab[k] : "end"; v.sig = "C04 " + l; v.what = "thread " + std::to_string(i) + ": the result of \"" + l + "\" (result " + std::to_string(k) + ") differs from that of the same calls made alone"; v.op = (int) k; break; }
     }
     if (!v.any() && !bad && rt_check_heap(msg, sizeof msg)) { v.sig = "C04 memory"; v.what = std::string("together, not alone: ") + msg; }
     memcpy(__start_repodata, image.data(), image.size());
     return v;
}
Violation check_conc(const History &h, Stats &st) { return conc(h, st); }
/* The same history with the schedule it took written out. */
History conc_pin(const History &h) {
     Stats st; conc(h, st); History q = h; VI iv = {1}; for (auto &s : S.taken) { iv.push_back(s.from); iv.push_back((int) (s.at & 0x3fffffff)); iv.push_back((int) (s.at >> 30)); iv.push_back(s.to); }
     bool any = false; for (Op &o : q.ops) if (o.code == O_SCHED) { o.iv = iv; any = true; } if (!any) { Op o; o.code = O_SCHED; o.iv = iv; q.ops.insert(q.ops.begin(), o); }
     return q;
}
