"""The planted bugs: edits of /repo (text that occurs once), a demonstration in C (d.h is included)."""
BUGS = {}
def bug(i, prop, edits, demo, needs, breaks, **kw): BUGS[i] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)

bug('psa-heights', 'C01', [('src/xrtm_model.c', 'return DEP_MASK_MU_0 | DEP_MASK_PLANET_R | DEP_MASK_LEVELS_Z;', 'return DEP_MASK_MU_0 | DEP_MASK_PLANET_R;')], r'''
int main(void) {
     prob p = prob0(STD | XRTM_OPTION_PSA, XRTM_SOLVER_EIG_ADD); xrtm_data d; res a, b; int i;
     p.theta_0 = 80.; make(&d, &p); put(&d, &p); solve(&d, &p, XRTM_SOLVER_EIG_ADD, XRTM_OUTPUT_RADIANCE, 1, 0.);
     for (i = 0; i <= p.n_layers; ++i) p.levels_z[i] *= .3;
     T(xrtm_set_levels_z(&d, p.levels_z)); a = solve(&d, &p, XRTM_SOLVER_EIG_ADD, XRTM_OUTPUT_RADIANCE, 1, 0.); b = fresh(&p, XRTM_SOLVER_EIG_ADD, XRTM_OUTPUT_RADIANCE, 1, 0.);
     return check("after new level heights", a, b);
}''', 'pseudo-spherical attenuation, a solution, then new level heights only, then another solution', 'the Chapman factors of the old heights are used')

bug('legendre-mu0', 'C03', [('src/xrtm_model.c', 'int deps = DEP_MASK_INIT | DEP_MASK_MU_0;', 'int deps = DEP_MASK_INIT;')], r'''
int main(void) {
     int base = STD | XRTM_OPTION_SAVE_LEG_POLYS; prob p = prob0(base, XRTM_SOLVER_EIG_BVP); xrtm_data d; res a, b;
     p.n_thetas = 0; make(&d, &p); put(&d, &p); solve(&d, &p, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.theta_0 = 61.; T(xrtm_set_theta_0(&d, p.theta_0)); a = solve(&d, &p, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.options = STD; b = fresh(&p, XRTM_SOLVER_EIG_BVP, XRTM_OUTPUT_RADIANCE, 1, 0.);
     return check("saved Legendre polynomials after a new solar angle", a, b);
}''', 'saved Legendre polynomials, a solution, a new solar zenith angle, a solution', 'the polynomials of the old solar angle are reused')

bug('coef-l-stale', 'C02', [('src/xrtm_model.c', '          return DEP_MASK_COEF | DEP_MASK_COEF_L | DEP_MASK_OMEGA | DEP_MASK_OMEGA_L |\n                 DEP_MASK_LTAU | DEP_MASK_LTAU_L | utaus_deps(d);', '          return DEP_MASK_COEF | DEP_MASK_OMEGA | DEP_MASK_OMEGA_L |\n                 DEP_MASK_LTAU | DEP_MASK_LTAU_L | utaus_deps(d);'),
  ('src/xrtm_model.c', '              d->dep_flags_opt_props[i_layer] & DEP_MASK_COEF_L)', '              d->dep_flags_opt_props[i_layer] & DEP_MASK_COEF_L && ! (d->dep_flags_opt_props[i_layer] & DEP_MASK_OMEGA_L))')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_DELTA_M, s); xrtm_data d; res a, b;
     p.n_derivs = 2; p.g_l[1][0] = 1.; make(&d, &p); put(&d, &p); solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.g_l[1][0] = 2.; put_coef_l(&d, &p, 1, 0); T(xrtm_update_varied_layers(&d)); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     return check("after new linearized coefficients", a, b);
}''', 'delta-M, derivatives, a solution, then new linearized coefficients of a layer only', 'the delta-M scaled linearized coefficients of the previous solution are used')

bug('get-ltau-scaled', 'C06', [('src/xrtm_interface.c', '     return d->ltau0[i_layer];', '     return d->options & XRTM_OPTION_PSA ? d->ltau[i_layer] : d->ltau0[i_layer];')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD | XRTM_OPTION_DELTA_M | XRTM_OPTION_PSA, s); xrtm_data d; double x;
     make(&d, &p); put(&d, &p); solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); x = xrtm_get_ltau(&d, 1); printf("ltau set %.17g read %.17g\n", p.ltau[1], x); return x != p.ltau[1];
}''', 'delta-M with pseudo-spherical attenuation, a solution, then the getter of the optical thickness', 'the getter returns the scaled value')

bug('pade-table', 'C04', [('src/xrtm_pade_rts.c', '     double pade_c[MAX_PADE_R];\n\n     double *F_p;', '     static double pade_c[MAX_PADE_R];\n\n     double *F_p;')], r'''
int main(void) {
     int s = XRTM_SOLVER_PADE_ADD; prob p = prob0(STD, s), q; q = p; p.pade_s = 2; p.pade_r = 2; q.pade_s = 2; q.pade_r = 5;
     return race(&p, s, &q, s, 20);
}''', 'two threads solving with pade_add and different Pade orders at the same time', 'the table of Pade coefficients is shared by all instances')

bug('six-stream-scratch', 'C04', [('src/xrtm_six_stream.c', '     double P_q0_pp[3];\n     double P_q0_mp[3];\n\n     double d[3];', '     static double P_q0_pp[3];\n     static double P_q0_mp[3];\n\n     double d[3];')], r'''
int main(void) {
     int s = XRTM_SOLVER_SIX_STREAM; prob p = prob0(STD | XRTM_OPTION_SFI, s), q; p.n_quad = 3; q = p; q.theta_0 = 60.; q.g[0] = .2; q.g[1] = .9;
     return race(&p, s, &q, s, 20);
}''', 'two threads solving with six_stream at the same time, one preempted between filling and using the scattered beam', 'static scratch arrays')

bug('quad-cache', 'C04', [('misc/rtutil_math.c', '''     nn = (n + 1) / 2;

     ia = 4 * n + 2;
     ib = n * (n + 1);

     da = (n - 1) / (8. * pow((double) n, 3));

     ii = n - 1;
     for (i = 0; i < nn; ++i) {
          gauss_leg_point(n, i, ia, ib, da, &y1, &p2);

          db = .5 * y1;
          x[ i] = .5 - db;''', '''     static int n_last = 0;
     static double x_last[64], w_last[64];

     if (n == n_last) {
          for (i = 0; i < n; ++i) {
               x[i] = x_last[i];
               w[i] = w_last[i];
          }
          return;
     }

     nn = (n + 1) / 2;

     ia = 4 * n + 2;
     ib = n * (n + 1);

     da = (n - 1) / (8. * pow((double) n, 3));

     ii = n - 1;
     for (i = 0; i < nn; ++i) {
          gauss_leg_point(n, i, ia, ib, da, &y1, &p2);

          db = .5 * y1;
          x[ i] = .5 - db;'''), ('misc/rtutil_math.c', '''          w[ii] = w[ i];

          ii--;
     }
}



void gauss_leg_quadx(''', '''          w[ii] = w[ i];

          ii--;
     }

     if (n <= 64) {
          n_last = n;
          for (i = 0; i < n; ++i) {
               x_last[i] = x[i];
               w_last[i] = w[i];
          }
     }
}



void gauss_leg_quadx(''')], r'''
#include <pthread.h>
static volatile int stop, bad; static double rx[2][8], rw[2][8];
static void *go(void *v) { int k = *(int *) v, n = k ? 8 : 6, i; double x[16], w[16]; while (! stop) { gauss_leg_quad2(n, x, w); for (i = 0; i < n; ++i) if (x[i] != rx[k][i] || w[i] != rw[k][i]) { bad++; stop = 1; } } return 0; }
int main(void) {
     int k, id[2] = {0, 1}, s; pthread_t t[2]; struct timespec z = {0, 20000000};
     for (k = 0; k < 2; ++k) gauss_leg_quad2(k ? 8 : 6, rx[k], rw[k]);
     for (k = 0; k < 2; ++k) pthread_create(&t[k], 0, go, &id[k]); for (s = 0; s < 4000 && ! stop; ++s) nanosleep(&z, 0); stop = 1; for (k = 0; k < 2; ++k) pthread_join(t[k], 0);
     printf("%d wrong quadratures\n", bad); return bad != 0;
}''', 'two threads creating instances with different numbers of quadrature points at the same time', 'the quadrature table of the last creation is kept in static memory')

bug('sos-params-partial', 'C05', [('src/xrtm_interface.c', '''     if (sos_max_tau <= 0.) {''', '''     d->sos_max_os  = sos_max_os;

     if (sos_max_tau <= 0.) {'''), ('src/xrtm_interface.c', '''     d->sos_max_os  = sos_max_os;
     d->sos_max_tau = sos_max_tau;''', '''     d->sos_max_tau = sos_max_tau;''')], r'''
int main(void) {
     int s = XRTM_SOLVER_SOS, n; double t, e; prob p = prob0(STD, s); xrtm_data d; res a, b;
     make(&d, &p); put(&d, &p); if (! xrtm_set_sos_params(&d, 2, .05, -1.)) return 1;
     T(xrtm_get_sos_params(&d, &n, &t, &e)); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     printf("orders %d\n", n); return check("after rejected parameters", a, b) || n != 20;
}''', 'the sos parameters set with a valid number of orders and an invalid tolerance or optical thickness', 'the rejected call has already changed the number of orders')

bug('coef-count-layer', 'C05', [('src/xrtm_interface.c', '               if (n_coef_layer[ii] > d->n_coef) {', '               if (n_coef_layer[0] > d->n_coef) {')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, i, k, n[3] = {9, 9, 12}; prob p = prob0(STD, s); xrtm_data d; static double v[3][32]; double *c1[3][1], **c[3];
     make(&d, &p); put(&d, &p); for (i = 0; i < 3; ++i) { for (k = 0; k < 32; ++k) v[i][k] = (2 * k + 1) * pow(.5, k); c1[i][0] = v[i]; c[i] = c1[i]; }
     k = xrtm_set_coef_n(&d, n, c); printf("more coefficients than the instance has room for in the last layer: status %d\n", k); return k == 0;
}''', 'phase function coefficients of all layers set in one call with too many in a layer after the first', 'only the count of the first layer is checked: the others are written past the array')

ALLOC = r'''
#include <errno.h>
static long left = -1; void *__real_malloc(size_t n); void *__real_calloc(size_t n, size_t m);
void *__wrap_malloc(size_t n) { if (left >= 0 && left-- == 0) { errno = ENOMEM; return 0; } return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { if (left >= 0 && left-- == 0) { errno = ENOMEM; return 0; } return __real_calloc(n, m); }
'''
bug('create-kernel-flags', 'C07', [('src/xrtm_interface.c', 'd->set_flags_kernel_params = ALLOC_ARRAY2_UC(d->n_kernels, MAX_KERNEL_PARAMS);', 'd->set_flags_kernel_params = alloc_array2_uc(d->n_kernels, MAX_KERNEL_PARAMS);')], ALLOC + r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, k; prob p = prob0(STD, s); xrtm_data d; p.n_kernels = 1; p.kernels[0] = XRTM_KERNEL_LAMBERTIAN; freopen("/dev/null", "w", stderr);
     for (k = 0; ; ++k) {
          left = k; if (! xrtm_create(&d, (enum xrtm_option_mask) p.options, (enum xrtm_solver_mask) p.solvers, p.max_coef, p.n_quad, 1, p.n_derivs, p.n_layers, 1, p.n_kernels, 6, p.kernels, p.n_levels, p.n_thetas)) { if (left >= 0) break; printf("creation succeeded without allocation %d\n", k); return 1; }
          if (left >= 0) { printf("creation fails although memory is available\n"); return 2; } left = -1;
     }
     left = -1; xrtm_destroy(&d); printf("%d allocations\n", k); return k < 20;
}''', 'surface kernels and one particular allocation of the creation failing', 'the creation goes on with a null pointer', wrap='malloc calloc')

bug('stack-matrix-check', 'C08', [('src/xrtm_stacks.c', 'stacks[i].T_m = ALLOC_ARRAY3_D(n_four, n_quad, n_quad);', 'stacks[i].T_m = alloc_array3_d(n_four, n_quad, n_quad);')], ALLOC + r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, k, l, r; xrtm_data d; res a, b; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_STACK_REUSE_ADDING, s), q; p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.ltau_l[0][1] = 1.; q = p; q.ltau_l[0][1] = 0.; q.ltau_l[2][1] = 1.;
     freopen("/dev/null", "w", stderr); b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     for (k = 0; k < 400; ++k) {
          make(&d, &p); put(&d, &p); T(xrtm_set_ltau_l_11(&d, 0, 1, 0.)); T(xrtm_set_ltau_l_11(&d, 2, 1, 1.));
          left = k; r = xrtm_update_varied_layers(&d); l = left < 0; left = -1;
          if (l && ! r) { printf("allocation %d failed and the update succeeded\n", k); return 1; }
          if (r) T(xrtm_update_varied_layers(&d));
          a = solve(&d, &q, s, XRTM_OUTPUT_RADIANCE, 1, 0.); if (check("solution after a failed update", a, b)) return 1;
          xrtm_destroy(&d); if (! l) break;
     }
     printf("%d allocations\n", k); return k < 3;
}''', 'stack reuse, new linearized inputs and memory running out at one allocation of the varied-layers update', 'the update reports success with a null matrix', wrap='malloc calloc')

bug('eig-not-converged', 'C09', [('src/xrtm_eig_util.c', '''                 &n_quad, dwork, &lwork, &info);
          if (info) {''', '''                 &n_quad, dwork, &lwork, &info);
          if (info < 0) {''')], r'''
static int left = -1; void __real_dgeev_(char *, char *, int *, double *, int *, double *, double *, double *, int *, double *, int *, double *, int *, int *);
void __wrap_dgeev_(char *a, char *b, int *n, double *A, int *lda, double *wr, double *wi, double *vl, int *ldvl, double *vr, int *ldvr, double *w, int *lw, int *info) {
     int i; __real_dgeev_(a, b, n, A, lda, wr, wi, vl, ldvl, vr, ldvr, w, lw, info); if (left >= 0 && left-- == 0) { *info = 1; for (i = 0; i < *n * *n; ++i) vr[i] = .1; }
}
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP, k; prob p = prob0(STD, s); xrtm_data d; res a;
     for (k = 0; k < 6; ++k) { make(&d, &p); put(&d, &p); left = k; a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); printf("eigenvalues of call %d not converged: status %d\n", k, a.status); if (left < 0 && ! a.status) return 1; left = -1; xrtm_destroy(&d); }
     return 0;
}''', 'the eigenvalue iteration not converging', 'the solution uses the unconverged eigenvectors and reports success', wrap='dgeev_')

bug('taus-leak', 'C10', [('src/xrtm_interface.c', '''          if (d->options & XRTM_OPTION_DELTA_M)
               free_array1_d(d->utaus20);
     }

     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
          free_array1_d(d->levels_b);''', '''          if (d->options & XRTM_OPTION_DELTA_M && d->options & XRTM_OPTION_N_T_TMS)
               free_array1_d(d->utaus20);
     }

     if (d->options & XRTM_OPTION_SOURCE_THERMAL)
          free_array1_d(d->levels_b);''')], r'''
#include <malloc.h>
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP, i; prob p = prob0((STD & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_DELTA_M, s); xrtm_data d; size_t a = 0, b;
     for (i = 0; i < 60; ++i) { make(&d, &p); put(&d, &p); xrtm_destroy(&d); b = mallinfo2().uordblks; if (i == 9) a = b; }
     printf("allocated after 10 and 60 instances: %zu %zu\n", a, b); return b > a + 400;
}''', 'output at optical depths with delta-M and without the TMS correction', 'the array of the unscaled depths is never released')

bug('two-os-uninit', 'C11', [('src/xrtm_two_os.c', '''               if (! derivs->layers[n_layers][j])
                    init_array1_d(i_p_l[0][n_layers][j], n_quad_v_x, 0.);
               else''', '''               if (derivs->layers[n_layers][j])''')], r'''
static char *ptr; void *__real_malloc(size_t n); static int fill;
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) { size_t i; double *x = p; for (i = 0; i < n / 8; ++i) x[i] = fill ? 1.5 : 0.; } return p; }
int main(void) {
     int s = XRTM_SOLVER_TWO_OS; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS, s); res a, b; p.n_derivs = 3; p.n_kernels = 1; p.kernels[0] = XRTM_KERNEL_LAMBERTIAN; p.ampfac_l[0][2] = 1.; p.n_thetas = 0;
     p.solvers = s; p.max_coef = 9;
     fill = 0; a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); fill = 1; b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); return check("other memory contents", a, b);
}''', 'two_os with a surface and derivatives not all of which are with respect to the surface', 'a row of the work array that nothing sets is read', wrap='malloc')

bug('doubling-steps', 'C12', [('src/xrtm_doub_rts.c', '     for (i = 0; i < n_doub; ++i) {', '     for (i = 0; i != n_doub; ++i) {'), ('src/xrtm_doub_rts.c', '''     *d_tau = MIN(ltau, *d_tau);

''', '')], r'''
int main(void) {
     int s = XRTM_SOLVER_DOUB_ADD; prob p = prob0(STD, s); p.doub = .2; p.ltau[1] = .01;
     fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); printf("returned\n"); return 0;
}''', 'a layer thinner than a quarter of the doubling thickness', 'the number of doublings is negative and the loop runs for hours', limit=20)

bug('adjoint-chapman', 'C13', [('src/xrtm_model_a.c', 'for (j = i - 1; j >= 0; --j)', 'for (j = i - 1; j > 0; --j)')], r'''
static int which = 1;
#define SOLVE (which ? xrtm_solution_2 : xrtm_solution)
#include "d.h"
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, o = STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_PSA; prob p = prob0(o | XRTM_OPTION_REVERSE_DERIVS, s); res a, b;
     p.theta_0 = 75.; p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.ltau_l[0][0] = 1.; p.omega_l[1][1] = 1.;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); which = 0; p.options = o; b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     printf("adjoint and forward derivatives: %d %d, %g\n", a.status, b.status, worst(&a, &b)); return a.status || worst(&a, &b) > 1e-4;
}''', 'adjoint with pseudo-spherical attenuation and a derivative with respect to the optical thickness of the top layer', 'the top layer loses its part of the attenuation derivative', bare=1)

bug('fd-coef-element', 'C14', [('src/xrtm_fd_interface.c', 'coef[k][l] = xrtm_get_coef(d->d, i, k, l) + f * d->coef_p[i][j][k][l];', 'coef[k][l] = xrtm_get_coef(d->d, i, k, l) + f * d->coef_p[i][j][0][l];')], r'''
#include <xrtm_fd_interface.h>
#define NC 9
static double c0[6][NC], c1[6][NC], z[6][NC]; static double *C0[6], *C1[6];
static void radiance(prob *p, double eps, xrtm_data *d, double out[4]) {
     int i, j, k; double *c[6], v[6][NC]; double ph[1] = {30.}, *phis[1] = {ph}, I[2][1][1][1][4], *i3[2][1][1][1], **i2[2][1][1], ***i1[2][1], ****i0[2];
     for (j = 0; j < 6; ++j) { c[j] = v[j]; for (k = 0; k < NC; ++k) v[j][k] = c0[j][k] + eps * c1[j][k]; }
     T(xrtm_set_coef_1(d, 0, NC, c));
     for (i = 0; i < 2; ++i) { i3[i][0][0][0] = I[i][0][0][0]; i2[i][0][0] = i3[i][0][0]; i1[i][0] = i2[i][0]; i0[i] = i1[i]; }
     T(xrtm_radiance(d, XRTM_SOLVER_EIG_ADD, 1, phis, i0[0], i0[1], 0, 0)); for (i = 0; i < 4; ++i) out[i] = I[0][0][0][0][i];
}
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, i, j, k, bad = 0, lev[1] = {0}; double th[1] = {40.}, a[4], b[4], delta[1] = {1e-4}; xrtm_data d; xrtm_fd_data fd; prob p; memset(&p, 0, sizeof p);
     for (j = 0; j < 6; ++j) { C0[j] = c0[j]; C1[j] = c1[j]; for (k = 0; k < NC; ++k) { c0[j][k] = j == 0 ? (2 * k + 1) * pow(.5, k) : j < 4 ? (k > 1 ? .4 * (2 * k + 1) * pow(.45, k) : j == 3 ? .2 : 0.) : j == 4 && k > 1 ? -.1 * pow(.5, k) : 0.; c1[j][k] = 0.; } }
     for (k = 2; k < NC; ++k) c1[4][k] = 1e-1;
     T(xrtm_create(&d, (enum xrtm_option_mask) (XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT | XRTM_OPTION_PHASE_MATRIX_GC | XRTM_OPTION_VECTOR), (enum xrtm_solver_mask) s, NC, 4, 4, 0, 1, 1, 0, 6, 0, 1, 1));
     T(xrtm_set_fourier_tol(&d, 0.)); T(xrtm_set_ltau_1(&d, 0, .4)); T(xrtm_set_omega_1(&d, 0, .9)); T(xrtm_set_out_levels(&d, lev)); T(xrtm_set_out_thetas(&d, th)); T(xrtm_set_F_iso_top(&d, 0.)); T(xrtm_set_F_iso_bot(&d, 0.)); T(xrtm_set_F_0(&d, 1.)); T(xrtm_set_theta_0(&d, 35.)); T(xrtm_set_phi_0(&d, 0.)); T(xrtm_set_coef_1(&d, 0, NC, C0));
     radiance(&p, 5e-5, &d, a); radiance(&p, -5e-5, &d, b); radiance(&p, 0., &d, z[0]);
     { double ph[1] = {30.}, *phis[1] = {ph}, I[2][1][1][1][4], *i3[2][1][1][1], **i2[2][1][1], ***i1[2][1], ****i0[2], K[2][1][1][1][1][4], *k4[2][1][1][1][1], **k3[2][1][1][1], ***k2[2][1][1], ****k1[2][1], *****k0[2];
       for (i = 0; i < 2; ++i) { i3[i][0][0][0] = I[i][0][0][0]; i2[i][0][0] = i3[i][0][0]; i1[i][0] = i2[i][0]; i0[i] = i1[i]; k4[i][0][0][0][0] = K[i][0][0][0][0]; k3[i][0][0][0] = k4[i][0][0][0]; k2[i][0][0] = k3[i][0][0]; k1[i][0] = k2[i][0]; k0[i] = k1[i]; }
       T(xrtm_fd_create(&fd, &d, 1)); T(xrtm_fd_set_delta(&fd, delta));
       { double v[6][NC], *c[6]; for (j = 0; j < 6; ++j) { c[j] = v[j]; for (k = 0; k < NC; ++k) v[j][k] = c1[j][k] * 5e-5; } T(xrtm_fd_set_coef_p_11(&fd, 0, 0, c)); }
       T(xrtm_fd_radiance(&fd, (enum xrtm_solver_mask) s, XRTM_FD_METHOD_CENTRAL, 1, phis, i0[0], i0[1], k0[0], k0[1]));
       for (i = 0; i < 4; ++i) { double q = (a[i] - b[i]) / delta[0]; printf("Stokes %d: finite difference %g, difference quotient %g\n", i, K[0][0][0][0][0][i], q); if (fabs(K[0][0][0][0][0][i] - q) > 1e-4 * (fabs(q) + 1e-3)) bad = 1; } }
     return bad;
}''', 'finite differences with respect to the coefficients of a polarized phase matrix', 'the perturbation of the first element is used for the others')

bug('scat-bin-tail', 'C15', [('misc/rtutil_scat_io.c', 'if (fread(coefs[i], size2, n_total, fp) < (size_t) n_total) goto L1;', 'if (n_total > 0 && fread(coefs[i], size2, n_total, fp) < 1) goto L1;')], r'''
#include <rtutil_scat_io.h>
#include <unistd.h>
int main(void) {
     static double v[40]; double *c[1] = {v}; void **r = 0; int i, n, bad = 0; scat_header_data h; char t[] = "/tmp/demo-XXXXXX"; int f = mkstemp(t); long len; FILE *fp;
     for (i = 0; i < 40; ++i) v[i] = (2 * i + 1) * pow(.8, i); freopen("/dev/null", "w", stderr);
     if (scat_coefs_write_bin_fn(t, 40, 0, c, 8, 1) < 0) die("write"); fp = fopen(t, "r"); fseek(fp, 0, SEEK_END); len = ftell(fp); fclose(fp);
     for (i = 1; i < 300; i += 37) { truncate(t, len - i); n = scat_coefs_read_bin_fn(t, 40, 0, &r, 8, 1); printf("%d bytes missing: %d\n", i, n); if (n >= 0) bad = 1; }
     unlink(t); close(f); return bad;
}''', 'a binary coefficient file that lost its last bytes', 'the reader reports success with coefficients that were never read')

bug('scat-bin-short-write', 'C16', [('misc/rtutil_scat_io.c', 'if (fwrite(coefs2[i], size, n_coef2, fp) < (size_t) n_coef2) goto L1;', 'if (n_coef2 > 0 && fwrite(coefs2[i], size, n_coef2, fp) < 1) goto L1;')], r'''
#include <rtutil_scat_io.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
int main(void) {
     static double v[20000]; double *c[1] = {v}; int i, n, bad = 0; char t[] = "/tmp/demo-XXXXXX"; int f = mkstemp(t); struct rlimit l; freopen("/dev/null", "w", stderr);
     signal(SIGXFSZ, SIG_IGN); for (i = 0; i < 20000; ++i) v[i] = 1. / (1 + i);
     for (i = 0; i < 4; ++i) { getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = 40960 + 12288 * i; setrlimit(RLIMIT_FSIZE, &l); n = scat_coefs_write_bin_fn(t, 20000, 0, c, 8, 1); printf("room for %ld of 160000 bytes: %d\n", (long) l.rlim_cur, n); if (n >= 0) bad = 1; }
     unlink(t); close(f); return bad;
}''', 'a disk that fills up in the middle of the block of coefficients', 'a file cut short is reported as written')

CALLX = '''#!/bin/bash
X=$PWD/_build/tree/utils/callxrtm; T=$(mktemp -d) || exit 99; cd $T
cat > a.xif <<'X'
options = ("output_at_levels", "source_solar"%s)
solvers = ("eig_add")
max_coef = 9
n_quad = 3
n_stokes = 1
%sn_layers = 2
n_kernels = 0
n_out_levels = 2
n_out_thetas = 2
fourier_tol = 0.
F_iso_top = 0.
F_iso_bot = 0.
F_0 = 1.
theta_0 = 35.
phi_0 = 0.
out_levels = {0, 2}
out_thetas = {0., 30.}
omega = {.9, .8}
coef = {{{1., 1.5, 1.2, .6, .3}}, {{1., 1.2, .8, .4, .2}}}
%sltau = {.2, .5}
X
'''
bug('lenient-array', 'C17', [('utils/parse_data.h', '''     if (r != '}') {
          input_error''', '''     if (r != '}' && r != 0) {
          input_error''')], CALLX.replace('coef = {{{1., 1.5, 1.2, .6, .3}}, {{1., 1.2, .8, .4, .2}}}', 'n_coef = {5, 5}\ncoef[0] = 5, {{1.}, {1.5}, {1.2}, {.6}, {.3}}\ncoef[1] = 5, {{1.}, {1.2}, {.8}, {.4}, {.2}}').replace('n_coef = {5, 5}\n', '') % ('', 'n_derivs = 0\n', '') + '''
$X -input_file a.xif > a.out || { cat a.out; echo "the whole file is refused"; rm -r $T; exit 9; }
head -c -2 a.xif > b.xif; tail -1 b.xif
$X -input_file b.xif > b.out; S=$?; echo "the file without its last character: status $S"; rm -r $T; [ $S != 0 ]
''', 'an input file cut before the brace that closes its last array', 'the cut file is taken as complete')

bug('timing-clearerr', 'C18', [('utils/callxrtm.c', '''          if (o.timing)
               printf("\\n");''', '''          if (o.timing) {
               printf("\\n");
               rewind(stdout);
          }''')], CALLX.replace('coef = {{{1., 1.5, 1.2, .6, .3}}, {{1., 1.2, .8, .4, .2}}}', 'coef[0] = 5, {{1.}, {1.5}, {1.2}, {.6}, {.3}}\ncoef[1] = 5, {{1.}, {1.2}, {.8}, {.4}, {.2}}') % ('', 'n_derivs = 0\n', '') + '''
$X -input_file a.xif -timing 1 > a.out || { cat a.out; echo "failed with good output"; rm -r $T; exit 9; }
bash -c "$X -input_file a.xif > /dev/full"; echo "full disk, without timing: status $?"
bash -c "$X -input_file a.xif -timing 1 > /dev/full"; S=$?; echo "full disk, with timing: status $S"; rm -r $T; [ $S != 0 ]
''', '-timing with an output that cannot be written', 'the error of the output stream is cleared before it is looked at')

bug('callxrtm-phi', 'C27', [('utils/callxrtm.c', 'printf("%14e", I_m_l[i][m][j][k][l]);', 'printf("%14e", I_m_l[i][m][j][n_out_phis - 1][l]);')], CALLX.replace('coef = {{{1., 1.5, 1.2, .6, .3}}, {{1., 1.2, .8, .4, .2}}}', 'coef[0] = 5, {{1.}, {1.5}, {1.2}, {.6}, {.3}}\ncoef[1] = 5, {{1.}, {1.2}, {.8}, {.4}, {.2}}').replace('\n%sltau', '\nltau').replace('.5}\nX', '.5}\n%sX') % (', "calc_derivs"', 'n_derivs = 1\n', 'omega_l[0][0] = 1.\n') + '''
$X -input_file a.xif -out_phis 10. > 1 && $X -input_file a.xif -out_phis 80. > 2 && $X -input_file a.xif -out_phis 10.,80. > 12 || { cat 1 2 12; rm -r $T; exit 9; }
(grep " 1.000000e+01 " 1; grep " 8.000000e+01 " 2) | sort > a; grep -E " (1|8).000000e\\\\+01 " 12 | sort > b; cat a b | wc -l; diff a b; S=$?; rm -r $T; exit $S
''', 'derivatives at more than one azimuth angle', 'the derivatives of downwelling radiance are printed for the last azimuth angle only')

bug('cpp-swallowed', 'C19', [('interfaces/xrtm_int_cpp.cpp', '''     r = xrtm_set_kernel_params_l_n1(&d, i_kernel, i_param, params_l);
     if (r == XRTM_INT_ERROR)''', '''     r = xrtm_set_kernel_params_l_n1(&d, i_kernel, i_param, params_l);
     if (r == XRTM_INT_ERROR && i_kernel < d.n_kernels)''')], '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99; R=_build/tree
g++ -O1 -w -fpermissive -DVERSION='"0"' -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -I$R/src -I$R/misc -I$R/interfaces -o $T/demo "$H/demo.cpp" $R/interfaces/xrtm_int_cpp.o $R/src/libxrtm.a $R/misc/libxrtm_misc.a -lopenblas -lgfortran -lm || { rm -r $T; exit 98; }
$T/demo; S=$?; rm -r $T; exit $S
''', 'the C++ interface and a kernel index out of range', 'the refusal is not passed on', files={'demo.cpp': r'''
#include <stdio.h>
#include "xrtm_int_cpp.h"
int main() {
     xrtm_int_cpp *x; double v[2] = {0., 0.}; xrtm_int_cpp::kernel_type k[1] = {xrtm_int_cpp::KERNEL_LAMBERTIAN}; 
     try { x = new xrtm_int_cpp((XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_CALC_DERIVS), XRTM_SOLVER_EIG_ADD, 9, 4, 1, 2, 3, 1, 1, 6, k, 2, 2); } catch (...) { printf("creation failed\n"); return 3; }
     try { x->set_kernel_params_l_n1(4, 0, v); } catch (...) { printf("refused\n"); return 0; }
     printf("kernel 4 of 1 accepted\n"); return 1;
}
'''})

bug('brdf-angle-order', 'C20', [('src/xrtm_interface.c', '''          brdf_aux_calc_part(&d->kernel_aux, d->n_quad, d->n_quad + d->n_umus, d->qx, d->n_kernel_quad, d->kernel_qx);

          if (d->set_flags_mu_0)
               brdf_aux_calc_mu_0(''', '''          if (! d->set_flags_mu_0)
               brdf_aux_calc_part(&d->kernel_aux, d->n_quad, d->n_quad + d->n_umus, d->qx, d->n_kernel_quad, d->kernel_qx);
          else
               brdf_aux_calc_mu_0(''')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD, s); xrtm_data d; res a, b; p.n_kernels = 1; p.kernels[0] = XRTM_KERNEL_ROSS_THICK; p.ampfac[0] = .3;
     make(&d, &p); put(&d, &p); p.thetas[0] = 25.; p.thetas[1] = 65.; T(xrtm_set_out_thetas(&d, p.thetas)); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     return check("output angles set after the solar angle", a, b);
}''', 'a surface kernel with geometry and the output angles set after the solar angle', 'the kernel geometry of the output angles is not computed')

bug('flux-and-mean', 'C21', [('src/xrtm_model.c', '          if (solutions & XRTM_OUTPUT_RADIANCE_MEAN   && i == 0) {', '          if (solutions & (XRTM_OUTPUT_RADIANCE_MEAN | XRTM_OUTPUT_FLUX) && i == 0 && mean_p && mean_m) {')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD, s); res a = fresh(&p, s, XRTM_OUTPUT_FLUX, 1, 0.);
     printf("mean radiances not asked for: %g %g\n", a.mean[0][0], a.mean[1][1]); return a.mean[0][0] != 0. || a.mean[1][1] != 0.;
}''', 'fluxes asked for without mean radiances, with arrays for both', 'the array of mean radiances is overwritten')

bug('py-flux-strides', 'C19', [('interfaces/xrtm_int_py.c', """     coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (coef_l_ndarray == NULL)
          goto error;
     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_layers, d->n_elem, d->n_coef) < 0)""", """     coef_l_ndarray = PyArray_FROM_OTF(coef_l_object, NPY_DOUBLE, NPY_ARRAY_BEHAVED);
     if (coef_l_ndarray == NULL)
          goto error;
     if (check_pyarray_shape(coef_l_ndarray, "coef_l", 3, d->n_layers, d->n_elem, d->n_coef) < 0)""")], """#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); PYTHONPATH=_build/tree/interfaces PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 /usr/bin/python3 "$H/demo.py"
""", 'the Python interface and linearized coefficients of all layers in an array that is not stored by rows (a transposed array)', 'coefficients are taken in the order of storage', files={'demo.py': r"""
import sys, numpy as np, xrtm
x = xrtm.xrtm(["calc_derivs", "output_at_levels", "part_sol_classical", "source_solar", "upwelling_output", "downwelling_output"], ["eig_add"], 4, 4, 1, 2, 3, 1, 6, ["lambertian"], 2, 1)
for i in range(3): x.set_coef_1(i, 4, np.array([[1., .9 + .1 * i, .5, .1]]))
c = np.zeros((4, 1, 3)); c[1, 0, :] = [.1, .2, .3]; c[2, 0, :] = [.4, .5, .6]
x.set_coef_l_n1(0, c.T)
v = [[x.get_coef_l(i, 0, 0, k) for k in range(4)] for i in range(3)]
print(v); sys.exit(0 if np.array_equal(np.array(v), c[:, 0, :].T) else 1)
"""})
BUGS['nadir-last'] = dict(property='C29', edits=[('src/xrtm_interface.c',
"        (d->n_stokes == 1 && ((flag1 && d->mu_0_0 == 1.) || (flag2 && d->n_umus == 1 && d->umus[0] == 1.))))\n/*",
"        (d->n_stokes == 1 && ((flag1 && d->mu_0_0 == 1.) || (flag2 && d->n_umus && d->umus[d->n_umus - 1] == 1.))))\n/*")],
 demo=r"""
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD, s), q; res a, b; int i, k, w = 0;
     p.thetas[0] = 50.; p.thetas[1] = 0.; q = p; q.n_thetas = 1; q.thetas[0] = 50.;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 2, 10.); b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 2, 10.);
     for (i = 0; i < 2; ++i) for (k = 0; k < 2; ++k) { printf("%g %g\n", a.I[0][i][0][k], b.I[0][i][0][k]); if (cmp1(a.I[0][i][0][k], b.I[0][i][0][k]) > 1e-5) w = 1; }
     return w;
}""", needs='user angles of which the last is exactly nadir and others are not', breaks='radiances at the other angles lose their azimuth dependence')
BUGS['pade-derivs-order'] = dict(property='C28', edits=[('src/xrtm_pade_rts.c',
"""               if (! derivs[i])
                    continue;

               dmat_mul_d2(B12[i], A21, n_quad_v, n_umus_v, w1, w1u1);""",
"""               if (! derivs[i])
                    break;

               dmat_mul_d2(B12[i], A21, n_quad_v, n_umus_v, w1, w1u1);""")],
 demo=r"""
static prob with(double first) { prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS, XRTM_SOLVER_PADE_ADD); int i; p.n_derivs = 2; p.pade_s = 3; p.pade_r = 2;
     for (i = 0; i < 3; ++i) { p.omega_l[i][0] = i == 0 ? first : 0.; p.ltau_l[i][0] = 0.; p.omega_l[i][1] = i == 1; p.ltau_l[i][1] = 0.; } return p; }
int main(void) {
     int s = XRTM_SOLVER_PADE_ADD, i, j, k, w = 0; prob p = with(1.), q = with(1.); res a, b;
     q.omega_l[1][0] = 1.;   /* the first derivative varies the second layer too: nothing to the second derivative */
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 10.); b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 1, 10.);
     for (i = 0; i < 2; ++i) for (j = 0; j < 2; ++j) for (k = 0; k < 2; ++k) if (cmp1(a.L[i][j][1][k][0], b.L[i][j][1][k][0]) > 1e-6) { printf("%g %g\n", a.L[i][j][1][k][0], b.L[i][j][1][k][0]); w = 1; }
     return w;
}""", needs='Pade of order 2 and a derivative that varies a layer an earlier derivative does not', breaks='the derivative of that layer is wrong, depending on the inputs of another derivative')
BUGS['taus-order'] = dict(property='C05', edits=[('src/xrtm_interface.c',
"          for (i = 1; i < d->n_ulevels; ++i) {\n               if (d->utaus[i] <= d->utaus[i-1] || d->utaus[i] > a) {",
"          for (i = 1; i < d->n_ulevels; ++i) {\n               if (d->utaus[i] == d->utaus[i-1] || d->utaus[i] > a) {")],
 demo=r"""
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP; prob p = prob0((STD & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS, s); res a;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 10.); if (a.status) return 1;
     p.taus[0] = .3; p.taus[1] = .05; a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 10.); printf("descending optical depths: status %d\n", a.status); return a.status == 0;
}""", needs='output optical depths in descending order, and a solution', breaks='a solution that has to be refused succeeds with the values of wrong layers')
BUGS['kpar-l-n1'] = dict(property='C20', edits=[('src/xrtm_interface.c',
"""     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_INT_ERROR);

     for (i = 0; i < d->n_derivs; ++i)
          d->kernel_params_l[i_kernel][i][i_param] = params_l[i];""",
"""     CHECK_INDEX_RANGE(i_param,     n_params,  "i_param",  "n_params",  XRTM_INT_ERROR);

     for (i = 0; i < d->n_derivs && i < n_params; ++i)
          d->kernel_params_l[i_kernel][i][i_param] = params_l[i];""")],
 demo=r"""
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, i, w = 0; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS, s); xrtm_data d; double v[3] = {.1, .2, .3};
     p.n_derivs = 3; p.n_kernels = 1; p.kernels[0] = XRTM_KERNEL_RAHMAN; make(&d, &p); T(xrtm_set_kernel_params_l_n1(&d, 0, 1, v));
     for (i = 0; i < 3; ++i) if (xrtm_get_kernel_params_l(&d, 0, i, 1) != v[i]) w = 1;
     xrtm_destroy(&d); p.kernels[0] = XRTM_KERNEL_ROSS_THICK + 0; p.kernels[0] = XRTM_KERNEL_LI_SPARSE; make(&d, &p); T(xrtm_set_kernel_params_l_n1(&d, 0, 1, v));
     for (i = 0; i < 3; ++i) { printf("%g ", xrtm_get_kernel_params_l(&d, 0, i, 1)); if (xrtm_get_kernel_params_l(&d, 0, i, 1) != v[i]) w = 1; }
     return w;
}""", needs='all derivatives of one kernel parameter set at once, with more derivatives than the kernel has parameters', breaks='the remaining derivatives keep their old values, unlike when they are set one by one')
BUGS['ttau-size'] = dict(property='C10', edits=[('src/xrtm_interface.c',
"          d->ttau = ALLOC_ARRAY1_D(d->n_layers + 1);", "          d->ttau = ALLOC_ARRAY1_D(d->n_layers > 1 ? d->n_layers : 2);")],
 demo=r"""
#include <sys/wait.h>
#include <unistd.h>
static void body(void) {
     int s = XRTM_SOLVER_EIG_BVP, n; prob p = prob0((STD & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS, s); xrtm_data d;
     for (n = 2; n <= 8; ++n) { p.n_layers = n; for (int i = 0; i < 8; ++i) p.omega[i] = .5; make(&d, &p); put(&d, &p); solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 10.); xrtm_destroy(&d); }
}
int main(void) {   /* the C library notices a write behind the end of a block when the block is freed */
     int st; pid_t q = fork(); if (! q) { setenv("MALLOC_CHECK_", "3", 1); body(); _exit(0); }
     waitpid(q, &st, 0); printf("ended with %x\n", st); return st != 0;
}""", needs='output at optical depths with at least two layers, and the right block size', breaks='a write past the end of an array')
BUGS['sos-omega-clamp'] = dict(property='C22', edits=[('src/xrtm_sos.c',
"          jj = index[j];\n\n          b = a * omega[jj] * (btran2[j] + btran2[j+1]);\n\n          for (k = 0; k < n_quad_v; ++k)\n               i_p[0][j][k] = T",
"          jj = index[j];\n\n          if (omega[jj] > .9999)\n               omega[jj] = .9999;\n\n          b = a * omega[jj] * (btran2[j] + btran2[j+1]);\n\n          for (k = 0; k < n_quad_v; ++k)\n               i_p[0][j][k] = T")],
 demo=r"""
int main(void) {
     int e = XRTM_SOLVER_EIG_BVP, s = XRTM_SOLVER_SOS; prob p = prob0(STD, e | s); res a, b; xrtm_data d;
     p.omega[1] = 1.; p.ltau[0] = p.ltau[1] = p.ltau[2] = .02; a = fresh(&p, e, XRTM_OUTPUT_RADIANCE, 1, 10.);
     make(&d, &p); put(&d, &p); b = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 10.); if (b.status) die("sos"); b = solve(&d, &p, e, XRTM_OUTPUT_RADIANCE, 1, 10.); xrtm_destroy(&d);
     return check("eigen solution alone and after successive orders", b, a);
}""", needs='a conservative layer, a solution with sos and then one with another solver on the same instance', breaks='the other solver gets the albedo that sos replaced')
BUGS['levz-last'] = dict(property='C05', edits=[('src/xrtm_interface.c',
"     for (i = 1; i < d->n_layers + 1; ++i) {\n          if (levels_z[i] > levels_z[i-1]) {",
"     for (i = 1; i < d->n_layers; ++i) {\n          if (levels_z[i] > levels_z[i-1]) {")],
 demo=r"""
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP; prob p = prob0(STD | XRTM_OPTION_PSA, s); xrtm_data d; double z[4] = {6e4, 4e4, 2e4, 3e4}; int r;
     make(&d, &p); put(&d, &p); r = xrtm_set_levels_z(&d, z); printf("heights that rise at the last level: %d\n", r); xrtm_destroy(&d); return r != XRTM_INT_ERROR;
}""", needs='heights that rise at the lowest level only', breaks='invalid heights are accepted')
BUGS['aux-static'] = dict(property='C04', edits=[('src/xrtm_brdf.c',
"     double f;\n     double *f_l;\n\n     double **params_l2;\n\n     kernel_aux_data aux2;\n\n     init_array2_d(kernel_f,",
"     double f;\n     double *f_l;\n\n     double **params_l2;\n\n     static kernel_aux_data aux2;\n\n     init_array2_d(kernel_f,")],
 demo=r"""
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP; prob p = prob0(STD, s), q; p.n_kernels = 1; p.kernels[0] = XRTM_KERNEL_ROUJEAN; p.ampfac[0] = .2; q = p; q.thetas[0] = 61.; q.theta_0 = 65.; return race(&p, s, &q, s, 20);
}""", needs='two instances with surface kernels that solve at the same time, one interrupted between the two parts of a kernel', breaks='the surface of one instance is computed with the angles of the other')
BUGS['adjoint-taus-psa'] = dict(property='C13', edits=[('src/xrtm_single_a.c',
"               as_0_a[i_layer] += t * e * c * d;\n\n               as_0_a[i_layer] -= t * a_save;\n\n               I_ss_a[jj] = 0.;\n          }\n     }\n\n     ltau_a[i_layer] += utau_a * utau / ltau[i_layer];\n}\n\n\n\n/*******************************************************************************\n *\n ******************************************************************************/\nvoid single_scattered_radiance_up_a(",
"               as_0_a[i_layer] += t * e * c * d;\n\n               I_ss_a[jj] = 0.;\n          }\n     }\n\n     ltau_a[i_layer] += utau_a * utau / ltau[i_layer];\n}\n\n\n\n/*******************************************************************************\n *\n ******************************************************************************/\nvoid single_scattered_radiance_up_a(")],
 bare=1, demo=r"""
static int which = 1;
#define SOLVE (which ? xrtm_solution_2 : xrtm_solution)
#include "d.h"
int main(void) {
     int s = XRTM_SOLVER_SINGLE, o = (STD & ~XRTM_OPTION_OUTPUT_AT_LEVELS) | XRTM_OPTION_OUTPUT_AT_TAUS | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_PSA; prob p = prob0(o | XRTM_OPTION_REVERSE_DERIVS, s); res a, b;
     p.theta_0 = 75.; p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.ltau_l[0][0] = 1.; p.omega_l[1][1] = 1.;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); which = 0; p.options = o; b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     printf("adjoint and forward derivatives: %d %d, %g\n", a.status, b.status, worst(&a, &b)); return a.status || worst(&a, &b) > 1e-4;
}""", needs='an adjoint solution at optical depths inside a layer, with pseudo-spherical attenuation', breaks='the derivative with respect to the optical thickness loses a part')

XIF = CALLX.replace('coef = {{{1., 1.5, 1.2, .6, .3}}, {{1., 1.2, .8, .4, .2}}}', 'coef[0] = 5, {{1.}, {1.5}, {1.2}, {.6}, {.3}}\ncoef[1] = 7, {{1.}, {1.2}, {.8}, {.4}, {.2}, {.1}, {.05}}')
bug('kpar-l-count', 'C27', [('utils/input_util.c', '''     if ((n == 2 && dimens[1] > -1) || (n == 3 && dimens[1] > -1 && dimens[2] == -1)) {
          parse_equal(input);
          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[0]));''', '''     if ((n == 2 && dimens[1] > -1) || (n == 3 && dimens[1] > -1 && dimens[2] == -1)) {
          parse_equal(input);
          n_params = kernel_n_params((enum xrtm_kernel_type) xrtm_get_kernel(input->d, dimens[1]));''')],
  XIF.replace('n_kernels = 0', 'n_kernels = 2\nn_kernel_quad = 16\nkernels = ("rahman", "roujean")').replace('rahman', 'rahman').replace('roujean', 'lambertian') % (', "calc_derivs"', 'n_derivs = 2\n', '''kernel_ampfac[0] = .1
kernel_ampfac[1] = .1
kernel_params[0] = {.5, .8, -.1}
omega_l[0][0] = 1.
''') + '''
(cat a.xif; for j in 0 1 2; do echo "kernel_params_l[0][1][$j] = .0$((j+1))"; done) > b.xif; (cat a.xif; echo "kernel_params_l[0][1] = {.01, .02, .03}") > c.xif
$X -input_file b.xif > b || { cat b; echo "failed with good input"; rm -r $T; exit 9; }
$X -input_file c.xif > c; S=$?; diff b c > /dev/null || S=1; echo "derivatives of the parameters spelled as an array: $S"; rm -r $T; exit $S
''', 'two kernels with different numbers of parameters and the linearized parameters of one derivative written as an array', 'the number of parameters of another kernel is used')

bug('varied-flag-early', 'C08', [('src/xrtm_interface.c', '''     if (d->solvers & (XRTM_SOLVERS_INTERNAL & XRTM_SOLVERS_ADDING) && d->options & XRTM_OPTION_STACK_REUSE_ADDING) {
          size = d->n_layers * d->n_layers;''', '''     d->varied_layers_updated = 0;

     if (d->solvers & (XRTM_SOLVERS_INTERNAL & XRTM_SOLVERS_ADDING) && d->options & XRTM_OPTION_STACK_REUSE_ADDING) {
          size = d->n_layers * d->n_layers;'''), ('src/xrtm_interface.c', '''               d->stack_grid[d->stack_chain[i].i1][d->stack_chain[i].i2] = &(d->stack_chain[i]);
     }

     d->varied_layers_updated = 0;
''', '''               d->stack_grid[d->stack_chain[i].i1][d->stack_chain[i].i2] = &(d->stack_chain[i]);
     }
''')], ALLOC + r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, k, i, j, l, r; xrtm_data d; res a, b; prob q, p = prob0(STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_STACK_REUSE_ADDING, s); p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.ltau_l[0][1] = 1.; p.omega_l[2][0] = 1.; q = p; q.n_derivs = 0;
     freopen("/dev/null", "w", stderr); b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     for (k = 0; k < 400; ++k) {
          make(&d, &p); put(&d, &q); for (i = 0; i < p.n_layers; ++i) for (j = 0; j < 2; ++j) { T(xrtm_set_omega_l_11(&d, i, j, p.omega_l[i][j])); T(xrtm_set_ltau_l_11(&d, i, j, p.ltau_l[i][j])); put_coef_l(&d, &p, i, j); }
          left = k; r = xrtm_update_varied_layers(&d); l = left < 0; left = -1;
          if (r) { printf("update failed at allocation %d\n", k); fflush(stdout); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); if (! a.status && check("solution after a failed update", a, b)) return 1; }
          xrtm_destroy(&d); if (! l) break;
     }
     printf("%d allocations\n", k); return k < 3;
}''', 'stack reuse, an allocation that fails inside the first update of the varied layers, then a solution without a new update', 'the solution goes ahead without the stacks it needs', wrap='malloc calloc')

bug('stack-lower-touched', 'C03', [('src/xrtm_model.c', 's->touched = s1->touched || s2->touched || s->new_[i_four] || d->misc_input.use_rebuild_stacks;', 's->touched = s1->touched || s2->touched == s->new_[i_four] || d->misc_input.use_rebuild_stacks;')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_STACK_REUSE_ADDING, s); xrtm_data d; res a, b; p.n_layers = 4; p.levels[1] = 4; p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.ltau_l[0][1] = 1.; p.omega_l[1][0] = 1.;
     make(&d, &p); put(&d, &p); solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.omega[3] = .5; T(xrtm_set_omega_1(&d, 3, .5)); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.options = STD | XRTM_OPTION_CALC_DERIVS; b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); return check("stack reuse after a change of the lowest layer", a, b);
}''', 'stack reuse, a solution, a change of the lower layer of a stack only, a solution', 'the stack of the previous solution is used')

bug('fd-ncoef', 'C14', [('src/xrtm_fd_interface.c', 'coef[k][l] = xrtm_get_coef(d->d, i, k, l) + f * d->coef_p[i][j][k][l];', 'coef[k][l] = xrtm_get_coef(d->d, i, k, l) + (l < xrtm_get_n_coef(d->d, 0) ? f : 0.) * d->coef_p[i][j][k][l];')], r'''
#include <xrtm_fd_interface.h>
static double I(xrtm_data *d, double *c, int n) { double ph[1] = {30.}, *phis[1] = {ph}, v[2], *i3 = v, **i2 = &i3, ***i1 = &i2, ****i0 = &i1, w[2], *j3 = w, **j2 = &j3, ***j1 = &j2, ****j0 = &j1, *cc[1] = {c}; T(xrtm_set_coef_1(d, 1, n, cc)); T(xrtm_radiance(d, XRTM_SOLVER_EIG_ADD, 1, phis, i0, j0, 0, 0)); return v[0]; }
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, k, lev[1] = {0}; double th[1] = {40.}, delta[1] = {1e-4}, c[9], u[9], l[9], q[9], *c0[1] = {c}, *pp[1] = {q}; xrtm_data d; xrtm_fd_data fd;
     for (k = 0; k < 9; ++k) { c[k] = (2 * k + 1) * pow(.6, k); q[k] = k > 5 ? 1e-2 * delta[0] : 0.; u[k] = c[k] + .5 * q[k]; l[k] = c[k] - .5 * q[k]; }
     T(xrtm_create(&d, (enum xrtm_option_mask) (XRTM_OPTION_SOURCE_SOLAR | XRTM_OPTION_OUTPUT_AT_LEVELS | XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT), (enum xrtm_solver_mask) s, 9, 5, 1, 0, 2, 1, 0, 6, 0, 1, 1));
     T(xrtm_set_fourier_tol(&d, 0.)); for (k = 0; k < 2; ++k) { T(xrtm_set_ltau_1(&d, k, .4)); T(xrtm_set_omega_1(&d, k, .9)); } T(xrtm_set_out_levels(&d, lev)); T(xrtm_set_out_thetas(&d, th)); T(xrtm_set_F_iso_top(&d, 0.)); T(xrtm_set_F_iso_bot(&d, 0.)); T(xrtm_set_F_0(&d, 1.)); T(xrtm_set_theta_0(&d, 35.)); T(xrtm_set_phi_0(&d, 0.)); T(xrtm_set_coef_1(&d, 0, 4, c0));
     { double a = I(&d, u, 9), b = I(&d, l, 9), x, ph[1] = {30.}, *phis[1] = {ph}, v[4], *i3[2] = {v, v + 1}, **i2[2] = {i3, i3 + 1}, ***i1[2] = {i2, i2 + 1}, ****i0[2] = {i1, i1 + 1}, *k4[2] = {v + 2, v + 3}, **k3[2] = {k4, k4 + 1}, ***k2[2] = {k3, k3 + 1}, ****k1[2] = {k2, k2 + 1}, *****k0[2] = {k1, k1 + 1};
       I(&d, c, 9); T(xrtm_fd_create(&fd, &d, 1)); T(xrtm_fd_set_delta(&fd, delta)); for (k = 0; k < 9; ++k) q[k] *= .5; T(xrtm_fd_set_coef_p_11(&fd, 1, 0, pp));
       T(xrtm_fd_radiance(&fd, (enum xrtm_solver_mask) s, XRTM_FD_METHOD_CENTRAL, 1, phis, i0[0], i0[1], k0[0], k0[1])); x = (a - b) / delta[0]; printf("finite difference %g, difference quotient %g\n", v[2], x); return fabs(v[2] - x) > 1e-3 * fabs(x); }
}''', 'layers with different numbers of coefficients and a perturbation of the higher ones of the longer', 'the perturbation of these coefficients is left out')

bug('scat-int-order', 'C16', [('misc/rtutil_scat_io.c', '     if (fwrite(&h->n_int1,    sizeof(int),    1, fp) < 1) goto L1;\n     if (fwrite(&h->n_int2,    sizeof(int),    1, fp) < 1) goto L1;', '     if (fwrite(&h->n_int2,    sizeof(int),    1, fp) < 1) goto L1;\n     if (fwrite(&h->n_int1,    sizeof(int),    1, fp) < 1) goto L1;')], r'''
#include <rtutil_scat_io.h>
#include <unistd.h>
int main(void) {
     static double v[40]; double *c[1] = {v}; void **r = 0; int i; scat_header_data h, g; char t[] = "/tmp/demo-XXXXXX"; int f = mkstemp(t);
     memset(&h, 0, sizeof h); memset(&g, 0, sizeof g); h.lambda = .5; h.mr = 1.3; h.n_int1 = 3; h.n_int2 = 5; h.n_quad = 7; for (i = 0; i < 40; ++i) v[i] = (2 * i + 1) * pow(.8, i);
     if (scat_coefs_write_bin_fn(t, 40, &h, c, 8, 1) < 0) die("write"); if (scat_coefs_read_bin_fn(t, 40, &g, &r, 8, 1) < 0) die("read"); unlink(t); close(f);
     printf("n_int1 %d, n_int2 %d\n", g.n_int1, g.n_int2); return g.n_int1 != 3 || g.n_int2 != 5;
}''', 'a binary file with a header whose numbers of integration intervals differ', 'the two numbers are exchanged in the file')

bug('sfi-near-angle', 'C29', [('src/xrtm_sfi_x.c', '          if (! flag)\n               e1[j] = exp(-(ltau - ptau) / umus[j]);\n          else\n               e1[j] = exp(-        ptau  / umus[j]);\n     }\n\n     for (j = 0; j < n_derivs; ++j) {\n          if (derivs_layers[j]) {\n               ptau_l[j]', '          if (j > 0 && fabs(umus[j] - umus[j-1]) < 1.e-3)\n               e1[j] = e1[j-1];\n          else\n          if (! flag)\n               e1[j] = exp(-(ltau - ptau) / umus[j]);\n          else\n               e1[j] = exp(-        ptau  / umus[j]);\n     }\n\n     for (j = 0; j < n_derivs; ++j) {\n          if (derivs_layers[j]) {\n               ptau_l[j]')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP; prob p = prob0(STD | XRTM_OPTION_SFI, s), q; res a, b; int i, k, w = 0;
     p.thetas[0] = 70.; p.thetas[1] = 70.05; q = p; q.n_thetas = 1; q.thetas[0] = 70.05;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 2, 10.); b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 2, 9.);
     for (i = 0; i < 2; ++i) for (k = 0; k < 2; ++k) { b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 2, 11.); printf("%.9g %.9g\n", a.I[0][i][1][k], b.I[0][i][0][k]); if (cmp1(a.I[0][i][1][k], b.I[0][i][0][k]) > 1e-5) w = 1; }
     return w;
}''', 'SFI with two output angles that are almost the same', 'the attenuation along the first of them is used for the second')

bug('stacks-flag', 'C28', [('src/xrtm_interface.c', '     int flag;\n\n     for (j = 0; j < d->n_derivs; ++j) {\n          flag = 0;\n\n          derivs_stacks[0][j] = ADDING_U_U;', '     int flag = 0;\n\n     for (j = 0; j < d->n_derivs; ++j) {\n          derivs_stacks[0][j] = ADDING_U_U;')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_ADD, i, k, w = 0; prob p = prob0(STD | XRTM_OPTION_CALC_DERIVS | XRTM_OPTION_STACK_REUSE_ADDING, s), q; res a, b;
     p.n_derivs = 2; memset(p.omega_l, 0, sizeof p.omega_l); memset(p.ltau_l, 0, sizeof p.ltau_l); p.omega_l[0][0] = 1.; p.omega_l[2][1] = 1.; q = p; q.omega_l[2][0] = 1.; q.omega_l[0][0] = 0.;
     a = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 2, 10.); b = fresh(&q, s, XRTM_OUTPUT_RADIANCE, 2, 10.);
     for (i = 0; i < 2; ++i) for (k = 0; k < 2; ++k) { printf("%.9g %.9g\n", a.L[0][i][1][k][0], b.L[0][i][1][k][0]); if (cmp1(a.L[0][i][1][k][0], b.L[0][i][1][k][0]) > 1e-9) w = 1; }
     return w;
}''', 'two derivatives, the second with a varied layer further down than that of the first', 'what the first varies is taken for varied in the second')

bug('beam-only-flagged', 'C20', [('src/xrtm_model.c', '          dep_flags[i-1] &= (deps ^ DEP_MASK_MASK);\n\n          update_opt_props(d, i-1, work);', '          if (d->options & XRTM_OPTION_PSA && ! (dep_flags[i-1] & deps))\n               continue;\n\n          dep_flags[i-1] &= (deps ^ DEP_MASK_MASK);\n\n          update_opt_props(d, i-1, work);')], r'''
int main(void) {
     int s = XRTM_SOLVER_EIG_BVP; prob p = prob0(STD | XRTM_OPTION_PSA, s); xrtm_data d; res a, b;
     make(&d, &p); put(&d, &p); solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     p.ltau[0] = 1.; T(xrtm_set_ltau_1(&d, 0, p.ltau[0])); a = solve(&d, &p, s, XRTM_OUTPUT_RADIANCE, 1, 0.); b = fresh(&p, s, XRTM_OUTPUT_RADIANCE, 1, 0.);
     return check("after a new optical thickness of the first layer alone", a, b);
}''', 'pseudo-spherical attenuation, a solution, then the optical thickness of one upper layer set alone', 'the attenuation in the layers below is kept')

bug('bin-float-elem', 'C15', [('misc/rtutil_scat_io.c', '(double) ((float **) coefs)[i][j];', '(double) ((float **) coefs)[i < 5 ? i : 4][j];')], r'''
#include <rtutil_scat_io.h>
#include <unistd.h>
int main(void) {
     static double v[6][20]; double *c[6]; void **r = 0; int i, j, bad = 0; char t[] = "/tmp/demo-XXXXXX"; close(mkstemp(t));
     for (i = 0; i < 6; ++i) { c[i] = v[i]; for (j = 0; j < 20; ++j) v[i][j] = (i + 1.) / (j + 1); }
     if (scat_coefs_write_bin_fn(t, 20, 0, c, 4, 6) < 0) die("write"); if (scat_coefs_read_bin_fn(t, 20, 0, &r, 8, 6) != 20) die("read"); unlink(t);
     for (i = 0; i < 6; ++i) for (j = 0; j < 20; ++j) bad |= ((double **) r)[i][j] != (float) v[i][j];
     printf("values %s\n", bad ? "differ" : "equal"); return bad;
}''', 'a binary file of single precision values of all six elements read as double', 'the sixth element is a copy of the fifth')
