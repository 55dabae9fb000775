#include "api.h"
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>

const char *out_name[12] = {"I_p", "I_m", "I_p_l", "I_m_l", "mean_p", "mean_m", "mean_p_l", "mean_m_l", "flux_p", "flux_m", "flux_p_l", "flux_m_l"};

bool GetR::operator==(const GetR &o) const { return status == o.status && v.size() == o.v.size() && (v.empty() || !memcmp(v.data(), o.v.data(), v.size() * 8)); }

void Outs::shape(const Config &cfg, int nphis, double s) {
     c = cfg; nl = cfg.n_out_levels; nd = cfg.n_derivs; nt = cfg.n_out2(); np = nphis > 0 ? nphis : 1; ns = cfg.n_stokes;
     auto five = [&](int k, bool lin) {
          int D = lin ? nd : 1; if (lin && !nd) { d[k].clear(); p[k].clear(); return; }
          size_t n = (size_t) nl * D * nt * np * ns; d[k].assign(n, s);
          size_t a = lin ? nl : 0, b = (size_t) nl * D, cc = b * nt, e = cc * np;
          p[k].assign(a + b + cc + e, 0); void **P = p[k].data();
          for (size_t i = 0; i < a; ++i) P[i] = P + a + i * D;
          for (size_t i = 0; i < b; ++i) P[a + i] = P + a + b + i * nt;
          for (size_t i = 0; i < cc; ++i) P[a + b + i] = P + a + b + cc + i * np;
          for (size_t i = 0; i < e; ++i) P[a + b + cc + i] = d[k].data() + i * ns;
     };
     auto two = [&](int k, bool lin) {
          if (lin && !nd) { d[k].clear(); p[k].clear(); return; }
          d[k].assign((size_t) nl * (lin ? nd : 1), s); p[k].clear();
          if (lin) { p[k].assign(nl, 0); for (int i = 0; i < nl; ++i) p[k][i] = d[k].data() + (size_t) i * nd; }
     };
     five(0, false); five(1, false); five(2, true); five(3, true);
     two(4, false); two(5, false); two(6, true); two(7, true); two(8, false); two(9, false); two(10, true); two(11, true);
}

/* user-defined surface kernels */
extern "C" {
static void aux0(brdf_aux_data *aux, void *aux2, int i, int j, int nd, uchar *derivs, double *p, double **p_l) { }
static double ker1(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int nd, uchar *derivs, double *p, double **p_l, double *f_l) {
     double x = aux->cos_theta[i] * aux->cos_theta[j], q = .2 + .1 * (1. + aux->cos_phi[k]) * x;
     for (int l = 0; l < nd; ++l) if (derivs[l]) f_l[l] = p_l[l][0] * q + p_l[l][1] * x + .1 * p_l[l][2] + .05 * p_l[l][3];
     return p[0] * q + p[1] * x + .1 * p[2] + .05 * p[3];
}
static double ker2(brdf_aux_data *aux, void *aux2, enum xrtm_brdf_geometry g, int i, int j, int k, double phi, int nd, uchar *derivs, double *p, double **p_l, double *f_l) {
     double x = 1. - aux->cos_theta[i] * aux->cos_theta[j] * .5;
     for (int l = 0; l < nd; ++l) if (derivs[l]) f_l[l] = p_l[l][0] * x + .3 * p_l[l][1];
     return p[0] * x + .3 * p[1];
}
void *sim_kernels[3][2] = {{0, 0}, {(void *) aux0, (void *) ker1}, {(void *) aux0, (void *) ker2}};
}

void build_tab(Tab &t, const VD &v, int ni, int nj, int ne, const VI &n, VD &buf) {
     /* separate, exactly sized rows so that reads past the end are visible as values of the guard */
     size_t tot = 0; for (int i = 0; i < ni; ++i) tot += (size_t) nj * ne * (n[i] + 1);
     buf.assign(tot + 1, 3.3e33); t.e.clear(); t.j.clear(); t.i.clear(); t.e.reserve((size_t) ni * nj * ne); t.j.reserve((size_t) ni * nj); t.i.reserve(ni);
     size_t q = 0, b = 0;
     for (int i = 0; i < ni; ++i) { for (int j = 0; j < nj; ++j) { for (int e = 0; e < ne; ++e) { t.e.push_back(buf.data() + b); for (int k = 0; k < n[i]; ++k) buf[b++] = q < v.size() ? v[q++] : 0; b++; } t.j.push_back(t.e.data() + t.e.size() - ne); } t.i.push_back(t.j.data() + t.j.size() - nj); }
}

#include "capi.inc"
Api *make_c(bool by2) { CApi *a = new CApi; a->by2 = by2; return a; }

/* Perturbations are held as the linearized inputs of a configuration with as many derivatives. */
Config fd_config(const Config &c, int n) { Config f = c; f.n_derivs = n; f.options |= XRTM_OPTION_CALC_DERIVS; return f; }
