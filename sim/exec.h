#ifndef SIM_EXEC_H
#define SIM_EXEC_H
#include "api.h"
#include <memory>

struct Stats {
     std::map<std::string, long> n;                 /* counters, by name */
     bool nontrivial = false;                       /* this run decided something */
     uint64_t steps = 0;                            /* basic blocks run in the code under test */
     std::set<uint64_t> states;                     /* see DESIGN.md: hash of (operation, solver, code path) */
};
struct Violation { std::string sig, what; int op = -1; bool any() const { return !sig.empty(); } };
struct OpInfo { long allocs = 0, lapack = 0; int status = 0; bool ran = false; };

struct Inst {
     std::unique_ptr<Api> api; Config cfg; Inputs in; bool alive = false, lost = false; int owner = 0;
     xrtm_fd_data fd; bool fd_alive = false; int fd_n = 0; std::shared_ptr<Inputs> fdp; VD fd_delta;
};
struct Exec {
     const History &h; Stats &st; Violation v; std::vector<OpInfo> info; std::vector<Inst> inst;
     std::vector<uint64_t> transcript; std::vector<std::string> tlabel; bool want_transcript = false; bool probe = false; bool nocheck = false, faulted = false;
     int next_owner = 1; int cur = -1; bool aborted = false; uint64_t pathsig = 0;
     Exec(const History &hist, Stats &s) : h(hist), st(s) {}
     void run();
     /* helpers */
     bool fail(const std::string &sig, const std::string &what);
     template <class F> int call(Inst &I, const rt_fault *f, F fn);
     int rc = RT_OK;
     bool do_create(Inst &I, const Config &c, const rt_fault *f, int &status);
     void do_destroy(Inst &I);
     int do_solve(Inst &I, const Op &o, const rt_fault *f, Outs &r);
     bool ref_solve(const Inputs &in, const Config &c, const Op &o, Outs &r, bool no_lin = false);
     bool ref_abnormal(Inst &I, const Op &o);
     std::string check_getters(Inst &I);
     void unready_solve(Inst &I, const Op &o); void op_solve(const Op &o); void op_set(const Op &o); void op_update(const Op &o); void op_create(const Op &o); void op_adjoint(const Op &o); bool ref_adjoint(const Inputs &in, const Op &o, Outs &r); bool forward_confirmed(const Inputs &in, const Config &c, const Op &q, const Outs &a, const Outs &b, unsigned mask); void op_fd(const Op &o);
     void check_after(const Op &o);
     void note(const std::string &label, const void *p, size_t n);
     std::string retry_set(Inst &I, const Op &o);
     bool P(const char *s) const { return h.prop == s; }
};
std::string compare(const Outs &a, const Outs &b, double tol, unsigned mask = 0xfff, bool *exact = 0, double floor = 0.);
extern "C" { extern uint64_t cov_steps, cov_hash; }
History make_history(const std::string &prop, uint64_t seed);
Violation check_history(const History &h, Stats &st);     /* whole check of one history */
struct Expect { Get g; bool set; VD v; int cmp; };       /* cmp 0 exact, 1 angle, 2 omega */
std::vector<Expect> expected(const Inputs &in, bool refused);           /* every getter call and what it has to return */
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Api *make_api(int kind);   /* 0 C, 1 C create2, 2 C++, 3 F77, 4 F90 */
#endif
