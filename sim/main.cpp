#include "exec.h"
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <pthread.h>
#include <fstream>
#include <sstream>
extern "C" uint64_t cov_blocks;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static FILE *out;
History conc_pin(const History &h) __attribute__((weak));
History io_pin(const History &h) __attribute__((weak));
static std::string one_line(std::string s) { for (char &c : s) if (c == '\n' || c == '\t') c = ' '; return s; }

static int body(int argc, char **argv);
struct Args { int c; char **v; int r; };
static void *thread(void *p) { Args *a = (Args *) p; a->r = body(a->c, a->v); return 0; }
/* The same address space layout, environment and stack in every process, so that a seed
   is one execution whichever process runs it. */
int main(int argc, char **argv) {
     if (!getenv("SIM_FIXED")) {
          personality(ADDR_NO_RANDOMIZE);
          char *loud = getenv("SIM_LOUD"); char l[16] = "SIM_LOUD=1";
          static char dm[64]; if (getenv("SIM_DOMAIN")) snprintf(dm, sizeof dm, "SIM_DOMAIN=%s", getenv("SIM_DOMAIN")); else strcpy(dm, "SIM_DOMAIN=0");   /* development only: known-finding exclusions to lift */
          static char un[] = "SIM_UNSTABLE=1"; bool isun = getenv("SIM_UNSTABLE") != 0;
          char *env[] = {(char *) "SIM_FIXED=1", dm, (char *) "OPENBLAS_NUM_THREADS=1", (char *) "OMP_NUM_THREADS=1", (char *) "LC_ALL=C", (char *) "PATH=/usr/bin:/bin", loud ? l : isun ? un : 0, loud && isun ? un : 0, 0};
          execve("/proc/self/exe", argv, env);
     }
     if (argc < 2) return 2;
     size_t n = 64u << 20; void *st = mmap((void *) (getenv("SIM_VG") ? 0x180000000000ull : 0x300000000000ull), n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
     if (st == MAP_FAILED) return 70;
     pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, n);
     Args a = {argc, argv, 2}; pthread_t t; if (pthread_create(&t, &at, thread, &a)) return 70;
     pthread_join(t, 0); fflush(0); _exit(a.r);
}
static int body(int argc, char **argv) {
     int fd = dup(1); out = fdopen(fd, "w"); setvbuf(out, 0, _IOLBF, 0);
     bool loud = getenv("SIM_LOUD") != 0;
     int nul = open("/dev/null", O_WRONLY); if (!loud) { dup2(nul, 2); } dup2(nul, 1);
     rt_init();
     std::string cmd = argv[1];
     if (cmd == "gen") { fputs(make_history(argv[2], strtoull(argv[3], 0, 10)).text().c_str(), out); fclose(out); return 0; }
     if (cmd == "replay") {           /* replay FILE: exit 1 and "V sig \t what \t op" if violated */
          std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); History h;
          if (ss.str().compare(0, 4, "seq ") == 0) {   /* seq PROP START STRIDE COUNT: histories one after another in one process */
               std::string w, prop; uint64_t s; long stride, n; ss >> w >> prop >> s >> stride >> n; Stats st;
               for (long i = 0; i < n; ++i, s += stride) { Violation v = check_history(make_history(prop, s), st); if (v.any()) { fprintf(out, "V\t%s\t%s\t%d\n", v.sig.c_str(), one_line(v.what).c_str(), v.op); fclose(out); return 1; } }
               fprintf(out, "OK\n"); fclose(out); return 0;
          }
          if (!h.parse(ss.str())) { fprintf(out, "E cannot parse\n"); return 3; }
          Stats st; Violation v = check_history(h, st);
          if (v.any()) { fprintf(out, "V\t%s\t%s\t%d\n", v.sig.c_str(), one_line(v.what).c_str(), v.op); fclose(out); return 1; }
          fprintf(out, "OK\n"); fclose(out); return 0;
     }
     if (cmd == "run") {              /* run PROP START STRIDE SECONDS MAXRUNS: one line per run that violates, then statistics */
          std::string prop = argv[2]; uint64_t s = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10); double limit = atof(argv[5]); long maxr = atol(argv[6]);
          double t0 = now(); Stats st; long n = 0; std::set<uint64_t> hashes; long nviol = 0;
          while (n < maxr && now() - t0 < limit) {
               fprintf(out, "S %llu\n", (unsigned long long) s);
               History h = make_history(prop, s); std::string t = h.text();
               bool fresh = hashes.insert(fnv(t.data() + 10, t.size() - 10)).second; st.nontrivial = false;
               Violation v = check_history(h, st); n++; if (fresh && st.nontrivial) st.n["@nontrivial"]++;
               if (v.any()) { fprintf(out, "V\t%llu\t%s\t%s\t%d\n", (unsigned long long) s, v.sig.c_str(), one_line(v.what).c_str(), v.op); if (++nviol > 40) break; }
               if (n <= 2) { std::string x = h.text(); for (char &c : x) if (c == '\n') c = '|'; fprintf(out, "X\t%llu\t%s\n", (unsigned long long) s, x.substr(0, 3000).c_str()); }
               s += stride;
          }
          for (auto &p : st.n) fprintf(out, "N\t%s\t%ld\n", p.first.c_str(), p.second);
          fprintf(out, "N\t@steps\t%llu\nN\t@distinct histories\t%zu\nM\t%llu\n", (unsigned long long) st.steps, hashes.size(), (unsigned long long) cov_blocks);
          fprintf(out, "T\t%zu", st.states.size()); int k = 0; for (uint64_t x : st.states) { fprintf(out, " %llx", (unsigned long long) x); if (++k > 200000) break; } fprintf(out, "\n");
          fprintf(out, "D\t%ld\t%.3f\n", n, now() - t0); fclose(out); _exit(0);
     }
     if (cmd == "min") {              /* min FILE SECONDS: smaller history with the same signature, printed */
          std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf(); History h; h.parse(ss.str()); double limit = atof(argv[3]), t0 = now();
          auto viol = [&](const History &q, std::string &sig) {
               int p[2]; if (pipe(p)) return false; pid_t c = fork();
               if (!c) { alarm(20); Stats st; Violation v = check_history(q, st); ssize_t w = write(p[1], v.sig.data(), v.sig.size()); (void) w; _exit(0); }
               close(p[1]); sig.clear(); char b[512]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) sig.append(b, k); close(p[0]); int s; waitpid(c, &s, 0);
               if (WIFSIGNALED(s)) sig = "crash"; return !sig.empty();
          };
          std::string sig, s2; if (!viol(h, sig)) { fprintf(out, "E no violation\n"); return 3; }
          bool again = true;
          while (again && now() - t0 < limit) {
               again = false;
               for (size_t chunk = std::max<size_t>(1, h.ops.size() / 2); chunk >= 1 && now() - t0 < limit; chunk /= 2) {
                    for (size_t i = 0; i + chunk <= h.ops.size() && now() - t0 < limit;) { if (chunk == 1 && h.ops[i].code == O_SCHED) { i++; continue; } History q = h; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk); if (viol(q, s2) && s2 == sig) { h = q; again = true; } else i += chunk; }
                    if (chunk == 1) break;
               }
               /* simpler environment */
               History q = h; q.stack = -1; if (h.stack != -1 && viol(q, s2) && s2 == sig) h = q;
               q = h; q.heap = {FILL_ZERO, 0, 0, 0}; if ((h.heap.fill || h.heap.reuse || h.heap.skew) && viol(q, s2) && s2 == sig) h = q;
               for (size_t i = 0; i < h.ops.size(); ++i) if (h.ops[i].f.alloc_k < 0) for (int p = 0; p < 2; ++p) for (long k = 1; k < 400 && h.ops[i].f.alloc_k < 0 && now() - t0 < limit; ++k) { q = h; q.ops[i].f.alloc_k = k; q.ops[i].f.alloc_persist = p; if (viol(q, s2) && s2 == sig) h = q; }
               for (size_t i = 0; i < h.ops.size(); ++i) if (h.ops[i].f.alloc_k || h.ops[i].f.lapack_k) { q = h; q.ops[i].f = rt_fault{0, 0, 0, 0}; if (viol(q, s2) && s2 == sig) { h = q; again = true; } }
          }
          if (io_pin) {                    /* one position instead of a sweep over all of them */
               int p[2]; if (pipe(p)) return 3; pid_t c = fork(); if (!c) { alarm(20); std::string t = io_pin(h).text(); FILE *w = fdopen(p[1], "w"); fputs(t.c_str(), w); fclose(w); _exit(0); }
               close(p[1]); std::string t; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) t.append(b, k); close(p[0]); int s; waitpid(c, &s, 0);
               History q; if (q.parse(t) && viol(q, s2) && s2 == sig) h = q;
          }
          if (h.prop == "C04" && conc_pin) {   /* the schedule as a list of switches, then fewer of them */
               int p[2]; if (pipe(p)) return 3; pid_t c = fork(); if (!c) { alarm(20); std::string t = conc_pin(h).text(); FILE *w = fdopen(p[1], "w"); fputs(t.c_str(), w); fclose(w); _exit(0); }
               close(p[1]); std::string t; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) t.append(b, k); close(p[0]); int s; waitpid(c, &s, 0);
               History q; if (q.parse(t) && viol(q, s2) && s2 == sig) {
                    h = q; size_t at = 0; for (size_t i = 0; i < h.ops.size(); ++i) if (h.ops[i].code == O_SCHED) at = i;
                    for (size_t ch = std::max<size_t>(1, (h.ops[at].iv.size() - 1) / 8); ch >= 1 && now() - t0 < 2 * limit; ch /= 2) {
                         for (size_t i = 1; i < h.ops[at].iv.size() && now() - t0 < 2 * limit;) { q = h; VI &v = q.ops[at].iv; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + 4 * ch)); if (viol(q, s2) && s2 == sig) h = q; else i += 4 * ch; }
                         if (ch == 1) break;
                    }
               }
          }
          fputs(h.text().c_str(), out); fclose(out); return 0;
     }
     return 2;
}
