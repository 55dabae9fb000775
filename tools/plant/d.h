/* Small helper of the demonstrations: a problem, its inputs, a solution. */
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <xrtm_interface.h>
#ifndef SOLVE
#define SOLVE xrtm_solution
#endif
typedef struct {
     int options, solvers, max_coef, n_quad, n_derivs, n_layers, n_kernels, n_levels, n_thetas;
     enum xrtm_kernel_type kernels[2];
     double F_0, theta_0, phi_0, planet_r, levels_z[8], omega[8], ltau[8], g[8], thetas[4], levels_b[8], surface_b, ampfac[2], F_top, F_bot, fourier_tol, doub;
     int levels[4], pade_s, pade_r;
     double omega_l[8][3], ltau_l[8][3], g_l[8][3], ampfac_l[2][3];
     double taus[4];
} prob;
static prob prob0(int options, int solvers) {
     prob p; int i, j; memset(&p, 0, sizeof p);
     p.options = options; p.solvers = solvers; p.max_coef = 9; p.n_quad = 4; p.n_layers = 3; p.n_levels = 2; p.n_thetas = 2;
     p.F_0 = 1.3; p.theta_0 = 35.; p.phi_0 = 20.; p.planet_r = 6.37e6; p.thetas[0] = 10.; p.thetas[1] = 50.; p.pade_s = 3; p.pade_r = 4; p.doub = 1e-3; p.surface_b = .7;
     p.ampfac[0] = .2; p.ampfac[1] = .1; p.F_top = 0.; p.F_bot = 0.; p.fourier_tol = 0.;
     for (i = 0; i < 8; ++i) { p.levels_z[i] = 6e4 - 2e4 * i; p.omega[i] = .9 - .1 * i; p.ltau[i] = .2 + .1 * i; p.g[i] = .5 + .1 * (i % 3); p.levels_b[i] = 1. + .1 * i; }
     for (i = 0; i < 8; ++i) for (j = 0; j < 3; ++j) { p.omega_l[i][j] = j == 0 ? 1. : 0.; p.ltau_l[i][j] = j == 1 ? 1. : 0.; p.g_l[i][j] = 0.; }
     p.levels[0] = 0; p.levels[1] = p.n_layers; p.taus[0] = .05; p.taus[1] = .3;
     return p;
}
static void die(const char *s) { fprintf(stderr, "demo: %s failed\n", s); exit(3); }
#define T(x) do { if (x) die(#x); } while (0)
static void put_coef(xrtm_data *d, prob *p, int l) { int k; double *c[1], v[64]; for (k = 0; k < p->max_coef; ++k) v[k] = (2 * k + 1) * pow(p->g[l], k); c[0] = v; T(xrtm_set_coef_1(d, l, p->max_coef, c)); }
static void put_coef_l(xrtm_data *d, prob *p, int l, int j) { int k; double *c[1], v[64]; for (k = 0; k < p->max_coef; ++k) v[k] = k ? p->g_l[l][j] * (2 * k + 1) * k * pow(p->g[l], k - 1) : 0.; c[0] = v; T(xrtm_set_coef_l_11(d, l, j, c)); }
static void make(xrtm_data *d, prob *p) { T(xrtm_create(d, (enum xrtm_option_mask) p->options, (enum xrtm_solver_mask) p->solvers, p->max_coef, p->n_quad, 1, p->n_derivs, p->n_layers, 1, p->n_kernels, 6, p->kernels, p->n_levels, p->n_thetas)); }
static void put(xrtm_data *d, prob *p) {
     int i, j;
     if (p->solvers & XRTM_SOLVER_DOUB_ADD) T(xrtm_set_doub_d_tau(d, p->doub));
     if (p->solvers & XRTM_SOLVER_PADE_ADD) T(xrtm_set_pade_params(d, p->pade_s, p->pade_r));
     if (p->solvers & XRTM_SOLVER_SOS) T(xrtm_set_sos_params(d, 20, .05, 0.));
     T(xrtm_set_fourier_tol(d, p->fourier_tol));
     if (p->options & XRTM_OPTION_PSA) { T(xrtm_set_planet_r(d, p->planet_r)); T(xrtm_set_levels_z(d, p->levels_z)); }
     for (i = 0; i < p->n_layers; ++i) T(xrtm_set_ltau_1(d, i, p->ltau[i]));
     if (p->options & XRTM_OPTION_OUTPUT_AT_TAUS) T(xrtm_set_out_taus(d, p->taus)); else T(xrtm_set_out_levels(d, p->levels));
     if (p->n_thetas) T(xrtm_set_out_thetas(d, p->thetas));
     T(xrtm_set_F_iso_top(d, p->F_top)); T(xrtm_set_F_iso_bot(d, p->F_bot));
     if (p->options & XRTM_OPTION_SOURCE_SOLAR) { T(xrtm_set_F_0(d, p->F_0)); T(xrtm_set_theta_0(d, p->theta_0)); T(xrtm_set_phi_0(d, p->phi_0)); }
     if (p->options & XRTM_OPTION_SOURCE_THERMAL) { T(xrtm_set_levels_b(d, p->levels_b)); T(xrtm_set_surface_b(d, p->surface_b)); }
     for (i = 0; i < p->n_layers; ++i) { put_coef(d, p, i); T(xrtm_set_omega_1(d, i, p->omega[i])); }
     for (i = 0; i < p->n_kernels; ++i) T(xrtm_set_kernel_ampfac(d, i, p->ampfac[i]));
     if (p->n_derivs) {
          for (i = 0; i < p->n_layers; ++i) for (j = 0; j < p->n_derivs; ++j) { T(xrtm_set_omega_l_11(d, i, j, p->omega_l[i][j])); T(xrtm_set_ltau_l_11(d, i, j, p->ltau_l[i][j])); if (p->g_l[i][j] != 0.) put_coef_l(d, p, i, j); }
          for (i = 0; i < p->n_kernels; ++i) for (j = 0; j < p->n_derivs; ++j) T(xrtm_set_kernel_ampfac_l_1(d, i, j, p->ampfac_l[i][j]));
          T(xrtm_update_varied_layers(d));
     }
}
typedef struct { int status; double I[2][4][8][3], L[2][4][3][8][3], mean[2][4], flux[2][4]; } res;
/* radiances (and derivatives), mean radiances and fluxes as asked for */
static res solve(xrtm_data *d, prob *p, int solver, int outputs, int n_phis, double phi) {
     static __thread res r; int i, j, k, l, s, nt = p->n_thetas ? p->n_thetas : p->n_quad;
     double ph[8][3], *phis[8]; static __thread double ****I[2], *****K[2], *M[2], **ML[2], *F[2], **FL[2], *Dv, **DvL; static __thread double mm[2][4], ff[2][4], dv[4];
     memset(&r, 0, sizeof r); memset(mm, 0, sizeof mm); memset(ff, 0, sizeof ff);
     for (i = 0; i < nt; ++i) { phis[i] = ph[i]; for (j = 0; j < 3; ++j) ph[i][j] = phi + 40. * j + i; }
     for (s = 0; s < 2; ++s) {
          I[s] = malloc(4 * sizeof *I[s]); K[s] = malloc(4 * sizeof *K[s]); ML[s] = malloc(4 * sizeof *ML[s]); FL[s] = malloc(4 * sizeof *FL[s]); M[s] = mm[s]; F[s] = ff[s];
          for (i = 0; i < 4; ++i) {
               ML[s][i] = calloc(4, 8); FL[s][i] = calloc(4, 8); I[s][i] = malloc(8 * sizeof(void *)); K[s][i] = malloc(4 * sizeof(void *));
               for (j = 0; j < 8; ++j) { I[s][i][j] = malloc(3 * sizeof(void *)); for (k = 0; k < 3; ++k) I[s][i][j][k] = calloc(4, 8); }
               for (l = 0; l < 4; ++l) { K[s][i][l] = malloc(8 * sizeof(void *)); for (j = 0; j < 8; ++j) { K[s][i][l][j] = malloc(3 * sizeof(void *)); for (k = 0; k < 3; ++k) K[s][i][l][j][k] = calloc(4, 8); } }
          }
     }
     DvL = 0; Dv = dv;
     r.status = SOLVE(d, (enum xrtm_solver_mask) solver, outputs, n_phis, phis, I[0], I[1], K[0], K[1], M[0], M[1], ML[0], ML[1], F[0], F[1], FL[0], FL[1], Dv, DvL);
     for (s = 0; s < 2; ++s) for (i = 0; i < p->n_levels; ++i) {
          r.mean[s][i] = mm[s][i]; r.flux[s][i] = ff[s][i];
          for (j = 0; j < nt; ++j) for (k = 0; k < n_phis; ++k) { r.I[s][i][j][k] = I[s][i][j][k][0]; for (l = 0; l < p->n_derivs; ++l) r.L[s][i][l][j][k] = K[s][i][l][j][k][0]; }
     }
     return r;
}
static double cmp1(double a, double b) { if (isnan(a) || isnan(b)) return isnan(a) && isnan(b) ? 0. : 1e30; return fabs(a - b) / (1e-6 + fabs(b)); }
static double worst(res *a, res *b) {
     double w = 0., x; size_t i, n = (sizeof(res) - offsetof(res, I)) / 8; double *p = (double *) a->I, *q = (double *) b->I;
     if ((a->status != 0) != (b->status != 0)) return 1e30;
     for (i = 0; i < n; ++i) { x = cmp1(p[i], q[i]); if (x > w) w = x; }
     return w;
}
static res fresh(prob *p, int solver, int outputs, int n_phis, double phi) { xrtm_data d; res r; make(&d, p); put(&d, p); r = solve(&d, p, solver, outputs, n_phis, phi); xrtm_destroy(&d); return r; }
static int check(const char *what, res a, res b) { double w = worst(&a, &b); printf("%s: status %d / %d, largest relative difference %g\n", what, a.status, b.status, w); return w > 1e-7; }
#define STD (XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT | XRTM_OPTION_PART_SOL_CLASSICAL)
/* two threads, each solving its own problem over and over: does any result differ from the one made alone? */
#include <pthread.h>
#include <time.h>
typedef struct { prob p; int s, n_phis; res alone; double w; volatile int *stop; } race_t;
static void *racer(void *v) { race_t *t = v; xrtm_data d; res r; double w; int c; while (! *t->stop) { make(&d, &t->p); put(&d, &t->p); for (c = 0; c < 5; ++c) { T(xrtm_set_omega_1(&d, 0, t->p.omega[0])); r = solve(&d, &t->p, t->s, XRTM_OUTPUT_RADIANCE, t->n_phis, 10.); w = worst(&r, &t->alone); if (w > t->w) { t->w = w; if (w > 1e-7) *t->stop = 1; } } xrtm_destroy(&d); } return 0; }
static int race(prob *a, int sa, prob *b, int sb, int secs) {
     static race_t t[2]; static volatile int stop; pthread_t q[2]; int i; time_t t0;
     t[0].p = *a; t[0].s = sa; t[1].p = *b; t[1].s = sb;
     for (i = 0; i < 2; ++i) { t[i].n_phis = 2; t[i].stop = &stop; t[i].alone = fresh(&t[i].p, t[i].s, XRTM_OUTPUT_RADIANCE, 2, 10.); if (t[i].alone.status) die("solution alone"); }
     for (i = 0; i < 2; ++i) pthread_create(&q[i], 0, racer, &t[i]);
     for (t0 = time(0); ! stop && time(0) - t0 < secs; ) { struct timespec x = {0, 20000000}; nanosleep(&x, 0); }
     stop = 1; for (i = 0; i < 2; ++i) pthread_join(q[i], 0);
     printf("two threads: largest relative difference from the same calls alone %g %g\n", t[0].w, t[1].w); return t[0].w > 1e-7 || t[1].w > 1e-7;
}
