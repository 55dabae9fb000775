/* Calls into the code under test through one of its interfaces. */
#ifndef SIM_API_H
#define SIM_API_H
#include "core.h"

struct Outs {                       /* caller-side result arrays of one solution */
     int nl, nd, nt, np, ns; Config c;
     VD d[12];                      /* Ip Im Ipl Iml mp mm mpl mml fp fm fpl fml */
     std::vector<void *> p[12];
     int status = 0; int rc = RT_OK;
     Outs() {}
     void shape(const Config &cfg, int nphis, double sentinel);
     void *ptr(int k) { return p[k].empty() ? (d[k].empty() ? 0 : (void *) d[k].data()) : p[k].data(); }
};
extern const char *out_name[12];
const double SENTINEL = -8.7654321e77;

struct Get { int field; int i0, i1, i2, i3; };
/* A getter result: status and values as doubles. */
struct GetR { int status; VD v; bool operator==(const GetR &o) const; };

struct Api {
     virtual ~Api() {}
     virtual int create(const Config &c) = 0;
     virtual int destroy() = 0;
     virtual int set(const Op &o) = 0;
     virtual GetR get(const Get &g, const Config &c) = 0;
     virtual int update() = 0;
     virtual void clear() = 0;
     virtual int solve(const Op &o, double **phis, Outs &r) = 0;
     virtual int counts(int *v) = 0;      /* instance properties */
     int counts_bad(const Config &c);     /* 1 + the first that differs from what c gives, or 0 */
     bool alive = false;
     virtual xrtm_data *raw() { return 0; }
};
#include "capi_decl.inc"
Api *make_c(bool by2);
Config fd_config(const Config &c, int n);
int fd_give(xrtm_fd_data *d, const Config &c, int nd, const Op &o, VD &vals);     /* gives a perturbation */
extern "C" { extern void *sim_kernels[3][2]; }
/* Pointer tables for coefficient arguments: values laid out [layer][deriv][elem][n]. */
struct Tab { std::vector<double *> e; std::vector<double **> j; std::vector<double ***> i; };
void build_tab(Tab &t, const VD &v, int ni, int nj, int ne, const VI &n /* per i*/, VD &buf);
#endif
