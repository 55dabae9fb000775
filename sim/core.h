/* Histories, the input model, and the generator of configurations and values. */
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <functional>
#include <complex>
#include <cmath>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <memory>
#include <fstream>
#include "rt.h"

extern "C" {
#include <xrtm_interface.h>
#include <xrtm_fd_interface.h>
}

typedef std::vector<double> VD;
typedef std::vector<int> VI;

struct Rng {
     uint64_t s;
     explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567ull) { next(); next(); }
     uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
     int below(int n) { return n <= 0 ? 0 : (int) (next() % (uint64_t) n); }
     int range(int a, int b) { return a + below(b - a + 1); }
     double u() { return (double) (next() >> 11) / 9007199254740992.0; }
     double u(double a, double b) { return a + (b - a) * u(); }
     double logu(double a, double b);
     bool chance(double p) { return u() < p; }
     template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((int) l.size())); }
     template <class T> const T &pick(const std::vector<T> &v) { return v[below((int) v.size())]; }
};

struct Config {
     unsigned options = 0; int solvers = 0;
     int max_coef = 1, n_quad = 1, n_stokes = 1, n_derivs = 0, n_layers = 1;
     VI kernels; int n_kernel_quad = 4; int n_out_levels = 1, n_out_thetas = 0;
     int n_elem() const { return n_stokes == 1 ? 1 : 6; }
     int n_kernels() const { return (int) kernels.size(); }
     int n_out2() const { return n_out_thetas ? n_out_thetas : n_quad; }
     bool opt(unsigned m) const { return (options & m) != 0; }
};
unsigned implied(const Config &c);            /* options as completed by the documented defaults */
bool config_ok(const Config &c);              /* by the documented rules */
const int N_KPAR[] = {0, 4, 0, 2, 2, 0, 0, 3, 3, 2, 4};
int kernel_npar(int k);

enum Field {
     F_DOUB, F_PADE, F_SOS, F_FTOL, F_LAMBDA, F_RADIUS, F_LEVZ, F_OLEV, F_OTAU, F_OTHETA,
     F_FTOP, F_FBOT, F_F0, F_THETA0, F_PHI0, F_LEVB, F_SURFB, F_G, F_COEF, F_OMEGA, F_LTAU,
     F_KAMP, F_KPAR, F_KFUNC,
     F_FTOP_L, F_FBOT_L, F_LEVB_L, F_SURFB_L, F_G_L, F_COEF_L, F_OMEGA_L, F_LTAU_L, F_KAMP_L, F_KPAR_L,
     N_FIELDS
};
extern const char *field_name[];
inline bool is_linear(int f) { return f >= F_FTOP_L; }

enum Code {
     O_CREATE, O_DESTROY, O_SET, O_UPDATE, O_CLEAR, O_SOLVE, O_ADJOINT, O_QUERY, O_CREATE_BAD, O_GETBAD,
     O_FD_CREATE, O_FD_SET, O_FD_SOLVE, O_FD_DESTROY,
     O_SCHED,                 /* C04: how threads are interleaved; see conc.cpp */
     O_WRITE, O_READ,         /* C15, C16: see io.cpp */
     O_RUN,                   /* C17, C18: see call.cpp */
     N_CODES
};
extern const char *code_name[];

/* O_SET: iv = {field, i0, i1, i2, n_int, ints...}, dv = values.
     COEF      i0 = layer | -1;                 ints = n_coef per layer (or -1: all coefficients)
     OMEGA...  i0 = layer | -1
     KAMP      i0 = kernel;    KPAR i0 = kernel, i1 = param | -1
     *_L       i0 = layer (kernel) | -1, i1 = deriv | -1, i2 = param | -1
   O_SOLVE / O_ADJOINT: iv = {solver bit, outputs, n_phis, single function?}, dv = phis per angle */
struct Op {
     int inst = 0, code = 0; VI iv; VD dv; rt_fault f = {0, 0, 0, 0};
};
struct History {
     std::string prop; uint64_t seed = 0;
     rt_heap_knobs heap = {FILL_KEEP, 1, 0, 0};
     int stack = -1;           /* stack contents before each call: -1 leave, 0..255 byte, 256 random */
     std::map<std::string, int> par;   /* per property parameters */
     std::vector<Config> cfg; std::vector<Op> ops;
     std::string text() const; bool parse(const std::string &t);
};
std::string op_text(const Op &o, const History *h = 0);

struct Inputs {
     Config c;
     bool has[N_FIELDS];                /* scalar / array inputs */
     double sc[N_FIELDS];
     int pade_s, pade_r, sos_n; double sos_tau, sos_tol;
     VD levz, otau, otheta, levb; VI olev;
     VI n_coef; std::vector<VD> coef;   /* [layer][elem * max_coef + k] */
     VD omega, ltau, g; VI hcoef, homega, hltau;
     VD kamp; VI hkamp; std::vector<VD> kpar; std::vector<VI> hkpar; VI kfunc;
     VD ftop_l, fbot_l, surfb_l; std::vector<VD> levb_l, omega_l, ltau_l, kamp_l;
     std::vector<std::vector<VD>> coef_l, kpar_l;
     bool trimmed = false;             /* linearized coefficients were cut off since: results may differ in rounding until the next update */
     void updated() { need_update = trimmed = false; upd = 1; }
     int upd = 0;                       /* the last update of the varied layers: 0 none yet, 1 done, 2 failed */
     bool need_update;                  /* linearized inputs changed since varied layers were updated */
     bool solved;
     explicit Inputs(const Config &cfg);
     Inputs() {}
     int set_expect(const Op &o) const; /* 1 valid, 0 invalid, -1 unspecified */
     void set_apply(const Op &o);
     int solve_expect(const Op &o, std::string *why = 0) const;
     std::vector<Op> canonical(int inst) const;   /* ops which give a new instance these inputs */
};

/* generation */
struct GenOpt {
     int solvers_mask = 0x7ff; double p_derivs = .5; int min_derivs = 0, max_derivs = 3; double p_taus = .2; double p_save = .7;
     int max_layers = 4, max_quad = 4; double p_vector = .12; double p_kernels = .4; int multi = 1; double p_delta = .35;
     unsigned force = 0, forbid = 0; bool edge = true, lambert = false, nondeg = false;
};
extern bool gen_near;
Config gen_config(Rng &r, const GenOpt &g);
bool gen_bad_config(Rng &r, const Config &ok, Config &out);
bool domain_ok(const Config &c); int domain_outputs(const Config &c, int solver);
Op gen_set(Rng &r, const Inputs &in, int inst, int field, bool edge = true);
std::vector<int> settable(const Inputs &in, bool linear);
Op gen_bad(Rng &r, const Inputs &in, int inst);
Op gen_solve(Rng &r, const Inputs &in, int inst, int solver = 0);
void gen_setup(Rng &r, Inputs &in, int inst, std::vector<Op> &ops, double p_skip_lin = .3, bool adjoint = false);
Op mk(int inst, int code); Op mkset(int inst, int field, int i0, int i1, int i2, const VI &ints, const VD &dv);

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
#endif
