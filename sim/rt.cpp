#include "rt.h"
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <math.h>
#include <float.h>

/*------------------------------------------------------------------ heap */
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) ((void) 0)
#define VALGRIND_MAKE_MEM_DEFINED(p, n) ((void) 0)
#endif
static uintptr_t BASE = 0x200000000000ull;   /* lower under valgrind (used for diagnosis only) */
/* One heap for each simulated thread, so that its addresses do not depend on the others. */
static const size_t ARENA = 4ull << 30; static const int NH = 5;
static char *arena;

struct Hdr {
     uint64_t magic;
     size_t size;      /* requested */
     size_t cap;       /* payload capacity (size class) */
     uint64_t seq;
     int owner;
     int live;
     Hdr *next;        /* free list or all-blocks list */
     Hdr *all;
};
static const uint64_t MAGIC = 0x51b10c4ea9ull, CANARY = 0xc3c3a5a55a5a3c3cull;
static const size_t HSZ = 64, RED = 64;
struct Heap {
     char *base; size_t brk_, high_; Hdr *all_, *freelist[64]; uint64_t seq_, rs_; long live_blocks, total_allocs; size_t live_bytes; int owner_;
     long owner_blocks[64]; size_t owner_bytes[64];
};
static Heap heaps[NH]; static thread_local Heap *hp = heaps;
static rt_heap_knobs knobs;
static char bad_msg[256]; static int bad_;

static void bad(const char *s, void *p, size_t n) {
     if (!bad_) snprintf(bad_msg, sizeof bad_msg, "%s (block of %zu bytes)", s, n);
     bad_ = 1; (void) p;
}
static int cls(size_t n) { int c = 0; size_t s = 64; while (s < n) { s <<= 1; c++; } return c; }

extern "C" void rt_init(void) {
     if (arena) return;
     if (RUNNING_ON_VALGRIND) BASE = 0x100000000000ull;
     void *p = mmap((void *) BASE, ARENA * NH, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
     if (p != (void *) BASE) { dprintf(2, "sim: cannot map arena\n"); _exit(70); }
     arena = (char *) p; for (int i = 0; i < NH; ++i) heaps[i].base = arena + i * ARENA;
}
extern "C" void rt_thread(int t) { hp = heaps + t; }
extern "C" int rt_region(const void *p) { uintptr_t d = (uintptr_t) p - BASE; return d < ARENA * NH ? (int) (d / ARENA) : -1; }
extern "C" void rt_set_knobs(const rt_heap_knobs *k) { knobs = *k; for (Heap &H : heaps) H.rs_ = k->fill_seed * 0x9e3779b97f4a7c15ull + 1; }
static void rt_reset_heap(Heap &H) {
     if (H.high_ > (64u << 20)) { madvise(H.base, H.high_, MADV_DONTNEED); H.high_ = 0; }
     char *b = H.base; size_t hi = H.high_; memset(&H, 0, sizeof H); H.base = b; H.high_ = hi;
}
extern "C" void rt_reset(const rt_heap_knobs *k) {
     rt_init();
     for (Heap &H : heaps) rt_reset_heap(H);
     bad_ = 0;
     rt_set_knobs(k); rt_disarm();
}
static void fill(void *p, size_t n, int fresh) {
     switch (knobs.fill) {
     case FILL_ZERO: memset(p, 0, n); break;
     case FILL_FF: memset(p, 0xff, n); break;
     case FILL_NAN: { double v = NAN; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char *) p + i, &v, 8); if (n & 7) memset((char *) p + (n & ~7ul), 0xee, n & 7); break; }
     case FILL_BIG: { double v = 1.2345e37; for (size_t i = 0; i + 8 <= n; i += 8) memcpy((char *) p + i, &v, 8); if (n & 7) memset((char *) p + (n & ~7ul), 0x5a, n & 7); break; }
     case FILL_RANDOM: { uint64_t &rs_ = hp->rs_; for (size_t i = 0; i + 8 <= n; i += 8) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; double v = (double) (int64_t) rs_ * 1e-18; memcpy((char *) p + i, &v, 8); } if (n & 7) memset((char *) p + (n & ~7ul), (int) rs_, n & 7); break; }
     default: if (fresh) memset(p, 0, n);
     }
}
static Hdr *hdr(void *p) { return (Hdr *) ((char *) p - HSZ - RED); }
static void put_canary(Hdr *h) {
     char *p = (char *) h + HSZ;
     for (size_t i = 0; i < RED; i += 8) memcpy(p + i, &CANARY, 8);
     char *q = p + RED + h->size; size_t e = h->cap - h->size + RED;
     for (size_t i = 0; i < e; ++i) q[i] = (char) (0xa0 + (i & 15));
}
static int check_block(Hdr *h) {
     if (RUNNING_ON_VALGRIND) return 0;   /* valgrind watches the red zones itself */
     char *p = (char *) h + HSZ;
     for (size_t i = 0; i < RED; i += 8) if (memcmp(p + i, &CANARY, 8)) return 1;
     char *q = p + RED + h->size; size_t e = h->cap - h->size + RED;
     for (size_t i = 0; i < e; ++i) if ((unsigned char) q[i] != 0xa0 + (i & 15)) return 2;
     return 0;
}
static int mine(void *p) { return (uintptr_t) p - BASE < ARENA * NH; }

/* faults */
static thread_local rt_fault flt; static thread_local long alloc_seen, lapack_seen; static thread_local int armed, alloc_fired, lapack_fired; static thread_local const char *lapack_name;
extern "C" void rt_arm(const rt_fault *f) { flt = *f; alloc_seen = lapack_seen = 0; alloc_fired = lapack_fired = 0; lapack_name = ""; armed = 1; }
extern "C" void rt_disarm(void) { armed = 0; }
extern "C" long rt_alloc_seen(void) { return alloc_seen; }
extern "C" long rt_lapack_seen(void) { return lapack_seen; }
extern "C" int rt_alloc_fired(void) { return alloc_fired; }
extern "C" int rt_lapack_fired(void) { return lapack_fired; }
extern "C" const char *rt_lapack_fired_name(void) { return lapack_name; }
static int fail_alloc(void) {
     if (!armed) return 0;
     alloc_seen++;
     if (flt.alloc_k && (alloc_seen == flt.alloc_k || (flt.alloc_persist && alloc_seen > flt.alloc_k))) { alloc_fired++; return 1; }
     return 0;
}

static void *do_alloc(size_t n, int zero) {
     if (n > (1ull << 31)) return 0;
     Heap &H = *hp; H.total_allocs++;
     int c = cls(n ? n : 1); size_t cap = 64ull << c;
     Hdr *h = 0; int fresh = 1;
     if (knobs.reuse && H.freelist[c]) { h = H.freelist[c]; H.freelist[c] = h->next; fresh = 0; }
     else {
          size_t need = HSZ + RED + cap + RED + (size_t) knobs.skew;
          need = (need + 63) & ~63ull;
          if (H.brk_ + need > ARENA) return 0;
          h = (Hdr *) (H.base + H.brk_); H.brk_ += need; if (H.brk_ > H.high_) H.high_ = H.brk_;
          h->magic = MAGIC; h->cap = cap; h->all = H.all_; H.all_ = h;
     }
     h->size = n; h->seq = ++H.seq_; h->owner = H.owner_; h->live = 1; h->next = 0;
     void *p = (char *) h + HSZ + RED;
     fill(p, n, fresh);
     if (zero) memset(p, 0, n);
     put_canary(h);
     if (RUNNING_ON_VALGRIND) { if (!zero) VALGRIND_MAKE_MEM_UNDEFINED(p, n); VALGRIND_MAKE_MEM_NOACCESS((char *) p + n, h->cap - h->size + RED); VALGRIND_MAKE_MEM_NOACCESS((char *) h + HSZ, RED); }
     H.live_blocks++; H.live_bytes += n; H.owner_blocks[H.owner_]++; H.owner_bytes[H.owner_] += n;
     return p;
}
static void do_free(void *p) {
     Hdr *h = hdr(p);
     if (((uintptr_t) p & 63) || h->magic != MAGIC) { bad("free of an address that is not a block", p, 0); return; }
     if (!h->live) { bad("double free", p, h->size); return; }
     int r = check_block(h);
     if (r == 1) bad("write before the start of a block", p, h->size);
     if (r == 2) bad("write past the end of a block", p, h->size);
     Heap &H = heaps[rt_region(p)]; h->live = 0; H.live_blocks--; H.live_bytes -= h->size; H.owner_blocks[h->owner]--; H.owner_bytes[h->owner] -= h->size;
     if (knobs.fill != FILL_KEEP) memset(p, 0xdd, h->size);
     if (knobs.reuse) { int c = cls(h->cap); h->next = H.freelist[c]; H.freelist[c] = h; }
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (fail_alloc()) return 0; return do_alloc(n, 0); }
void *__wrap_calloc(size_t a, size_t b) { if (fail_alloc()) return 0; if (b && a > SIZE_MAX / b) return 0; return do_alloc(a * b, 1); }
void __wrap_free(void *p) { if (!p) return; if (mine(p)) do_free(p); else if (rt_in_call || (uintptr_t) p < 4096 || (intptr_t) p < 0) bad("free of a wild pointer", p, 0); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
     if (fail_alloc()) return 0;
     if (!p) return do_alloc(n, 0);
     if (!mine(p)) return __real_realloc(p, n);
     Hdr *h = hdr(p);
     if (h->magic != MAGIC || !h->live) { bad("realloc of a dead block", p, 0); return do_alloc(n, 0); }
     void *q = do_alloc(n, 0); if (!q) return 0;
     memcpy(q, p, h->size < n ? h->size : n); do_free(p);
     return q;
}
char *__wrap_strdup(const char *s) { if (fail_alloc()) return 0; size_t n = strlen(s) + 1; char *p = (char *) do_alloc(n, 0); if (p) memcpy(p, s, n); return p; }
}
extern "C" long rt_live_blocks(void) { return hp->live_blocks; }
extern "C" size_t rt_live_bytes(void) { return hp->live_bytes; }
extern "C" long rt_total_allocs(void) { return hp->total_allocs; }
extern "C" void rt_owner(int o) { hp->owner_ = o & 63; }
extern "C" long rt_live_blocks_of(int o) { return hp->owner_blocks[o & 63]; }
extern "C" size_t rt_live_bytes_of(int o) { return hp->owner_bytes[o & 63]; }
extern "C" const char *rt_describe_live(int o) {
     static char s[400]; s[0] = 0; int n = 0;
     for (Hdr *h = hp->all_; h && n < 8; h = h->all) if (h->live && (o < 0 || h->owner == o)) { n++; snprintf(s + strlen(s), sizeof s - strlen(s), "%zu ", h->size); }
     return s;
}
extern "C" int rt_check_heap(char *msg, size_t n) {
     if (!bad_) for (Heap &H : heaps) for (Hdr *h = H.all_; h; h = h->all) if (h->live) {
          int r = check_block(h);
          if (r == 1) bad("write before the start of a block", 0, h->size);
          if (r == 2) bad("write past the end of a block", 0, h->size);
          if (r) break;
     }
     if (bad_) { snprintf(msg, n, "%s", bad_msg); return 1; }
     return 0;
}

/*---------------------------------------------------------------- lapack */
/* A failing call behaves as a real failure does: info > 0 and unusable results. */
static int fail_lapack(const char *name, int fam) {
     if (!armed) return 0;
     if (flt.lapack_family && flt.lapack_family != fam) return 0;
     lapack_seen++;
     if (flt.lapack_k && lapack_seen == flt.lapack_k) { lapack_fired++; lapack_name = name; return 1; }
     return 0;
}
static void spoil(double *a, long n) { for (long i = 0; i < n; ++i) a[i] = -7.7e3 - (double) (i % 5); }
extern "C" {
void __real_dgetrf_(int *, int *, double *, int *, int *, int *);
void __wrap_dgetrf_(int *m, int *n, double *a, int *lda, int *ipiv, int *info) {
     __real_dgetrf_(m, n, a, lda, ipiv, info);
     if (fail_lapack("dgetrf", 1)) { spoil(a, (long) *lda * *n); *info = 1; }
}
void __real_dgetri_(int *, double *, int *, int *, double *, int *, int *);
void __wrap_dgetri_(int *n, double *a, int *lda, int *ipiv, double *w, int *lw, int *info) {
     __real_dgetri_(n, a, lda, ipiv, w, lw, info);
     if (*lw > 0 && fail_lapack("dgetri", 2)) { spoil(a, (long) *lda * *n); *info = 1; }
}
void __real_dgbtrf_(int *, int *, int *, int *, double *, int *, int *, int *);
void __wrap_dgbtrf_(int *m, int *n, int *kl, int *ku, double *ab, int *ldab, int *ipiv, int *info) {
     __real_dgbtrf_(m, n, kl, ku, ab, ldab, ipiv, info);
     if (fail_lapack("dgbtrf", 3)) { spoil(ab, (long) *ldab * *n); *info = 1; }
}
void __real_zgbtrf_(int *, int *, int *, int *, void *, int *, int *, int *);
void __wrap_zgbtrf_(int *m, int *n, int *kl, int *ku, void *ab, int *ldab, int *ipiv, int *info) {
     __real_zgbtrf_(m, n, kl, ku, ab, ldab, ipiv, info);
     if (fail_lapack("zgbtrf", 4)) { spoil((double *) ab, 2L * *ldab * *n); *info = 1; }
}
void __real_zgetrf_(int *, int *, void *, int *, int *, int *);
void __wrap_zgetrf_(int *m, int *n, void *a, int *lda, int *ipiv, int *info) {
     __real_zgetrf_(m, n, a, lda, ipiv, info);
     if (fail_lapack("zgetrf", 8)) { spoil((double *) a, 2L * *lda * *n); *info = 1; }
}
void __real_zgetri_(int *, void *, int *, int *, void *, int *, int *);
void __wrap_zgetri_(int *n, void *a, int *lda, int *ipiv, void *w, int *lw, int *info) {
     __real_zgetri_(n, a, lda, ipiv, w, lw, info);
     if (*lw > 0 && fail_lapack("zgetri", 9)) { spoil((double *) a, 2L * *lda * *n); *info = 1; }
}
void __real_dgeev_(char *, char *, int *, double *, int *, double *, double *, double *, int *, double *, int *, double *, int *, int *);
void __wrap_dgeev_(char *jl, char *jr, int *n, double *a, int *lda, double *wr, double *wi, double *vl, int *ldvl, double *vr, int *ldvr, double *w, int *lw, int *info) {
     __real_dgeev_(jl, jr, n, a, lda, wr, wi, vl, ldvl, vr, ldvr, w, lw, info);
     if (*lw > 0 && fail_lapack("dgeev", 5)) { spoil(wr, *n); spoil(wi, *n); spoil(vr, (long) *ldvr * *n); *info = *n; }
}
void __real_dsyev_(char *, char *, int *, double *, int *, double *, double *, int *, int *);
void __wrap_dsyev_(char *j, char *u, int *n, double *a, int *lda, double *w, double *wk, int *lw, int *info) {
     __real_dsyev_(j, u, n, a, lda, w, wk, lw, info);
     if (*lw > 0 && fail_lapack("dsyev", 6)) { spoil(a, (long) *lda * *n); spoil(w, *n); *info = 1; }
}
void __real_dasymtx_(double *, double *, double *, int *, int *, int *, int *, double *);
void __wrap_dasymtx_(double *a, double *evec, double *eval, int *m, int *ia, int *ievec, int *ier, double *wk) {
     __real_dasymtx_(a, evec, eval, m, ia, ievec, ier, wk);
     if (fail_lapack("dasymtx", 7)) { spoil(evec, (long) *ievec * *m); spoil(eval, *m); *ier = 1; }
}
}

/*------------------------------------------------------- process boundary */
thread_local sigjmp_buf rt_env; thread_local int rt_in_call, rt_exit_status, rt_signal; int rt_stderr_bytes;
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) __attribute__((noreturn));
extern "C" void __wrap_exit(int s) { if (rt_in_call) { rt_exit_status = s; rt_in_call = 0; siglongjmp(rt_env, RT_EXIT); } __real_exit(s); }
extern "C" void __real_abort(void) __attribute__((noreturn));
extern "C" void __wrap_abort(void) __attribute__((noreturn));
extern "C" void __wrap_abort(void) { if (rt_in_call) { rt_signal = SIGABRT; rt_in_call = 0; siglongjmp(rt_env, RT_SIGNAL); } __real_abort(); }

extern "C" void __wrap__gfortran_stop_string(const char *, size_t, bool) { __wrap_exit(1); }
extern "C" void __wrap__gfortran_stop_numeric(int c, bool) { __wrap_exit(c); }
extern "C" void __wrap__gfortran_error_stop_string(const char *, size_t, bool) { __wrap_exit(1); }
static void handler(int s) {
     if (rt_in_call) { rt_signal = s; rt_in_call = 0; siglongjmp(rt_env, RT_SIGNAL); }
     signal(s, SIG_DFL); raise(s);
}
static char altstack[NH][1 << 16];
extern "C" void rt_enter(void) {
     static int inst; static thread_local int mine_;
     if (!mine_) { mine_ = 1; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = altstack[hp - heaps]; st.ss_size = sizeof altstack[0]; sigaltstack(&st, 0); }
     if (!inst) {
          inst = 1;
          struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
          int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGVTALRM};
          for (int s : sigs) sigaction(s, &sa, 0);
     }
     rt_in_call = 1;
}
extern "C" void rt_leave(void) { rt_in_call = 0; }
extern "C" __attribute__((noinline)) void rt_poison_stack(unsigned char b, uint64_t seed) {
     volatile unsigned char buf[1 << 17];
     if (seed) { uint64_t s = seed; for (size_t i = 0; i + 8 <= sizeof buf; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; double v = (double) (int64_t) s * 1e-18; memcpy((void *) (buf + i), &v, 8); } }
     else memset((void *) buf, b, sizeof buf);
     __asm__ volatile ("" : : "r"(buf) : "memory");
}
