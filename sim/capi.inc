/* Calls of the C interface, or of another one whose functions have been given the same names (bind.cpp). */
#ifndef CAPI_PLACE
#define CAPI_PLACE(s) (&(s))
#endif
int CApi::create(const Config &c) {
     cfg = c; static thread_local enum xrtm_kernel_type k[64]; for (int i = 0; i < c.n_kernels(); ++i) k[i] = (enum xrtm_kernel_type) c.kernels[i];
     if (by2) { d = xrtm_create2(c.options, c.solvers, c.max_coef, c.n_quad, c.n_stokes, c.n_derivs, c.n_layers, 1, c.n_kernels(), c.n_kernel_quad, k, c.n_out_levels, c.n_out_thetas); alive = d != 0; return d ? 0 : XRTM_INT_ERROR; }
     d = CAPI_PLACE(store);
     int r = xrtm_create(d, c.options, c.solvers, c.max_coef, c.n_quad, c.n_stokes, c.n_derivs, c.n_layers, 1, c.n_kernels(), c.n_kernel_quad, k, c.n_out_levels, c.n_out_thetas);
     alive = r == 0; return r;
}
int CApi::destroy() { int r = by2 ? xrtm_destroy2(d) : xrtm_destroy(d); alive = false; d = 0; return r; }
int CApi::update() { return xrtm_update_varied_layers(d); }
void CApi::clear() { xrtm_clear_saved(d); }
int CApi::counts(int *v) {
     int n = 0; v[n++] = xrtm_get_options(d); v[n++] = xrtm_get_solvers(d); v[n++] = xrtm_get_max_coef(d); v[n++] = xrtm_get_n_quad(d); v[n++] = xrtm_get_n_stokes(d);
     v[n++] = xrtm_get_n_derivs(d); v[n++] = xrtm_get_n_layers(d); v[n++] = xrtm_get_n_kernels(d); v[n++] = cfg.n_kernels() ? xrtm_get_n_kernel_quad(d) : 0; v[n++] = xrtm_get_n_out_levels(d);
     v[n++] = xrtm_get_n_out_thetas(d); v[n++] = xrtm_get_n_out_thetas_2(d); v[n++] = xrtm_get_n_elem(d);
     for (int i = 0; i < cfg.n_kernels(); ++i) v[n++] = xrtm_get_kernel(d, i);
     return n;
}

int CApi::set(const Op &o) {
     int f = o.iv[0], a = o.iv[1], b = o.iv[2], e = o.iv[3]; int *iv = (int *) o.iv.data() + 5; double *v = (double *) o.dv.data();
     int nl = cfg.n_layers, nd = cfg.n_derivs, ne = cfg.n_elem();
     static thread_local double dummy[8]; if (!v) v = dummy;
     switch (f) {
     case F_DOUB: return xrtm_set_doub_d_tau(d, v[0]);
     case F_PADE: return xrtm_set_pade_params(d, iv[0], iv[1]);
     case F_SOS: return xrtm_set_sos_params(d, iv[0], v[0], v[1]);
     case F_FTOL: return xrtm_set_fourier_tol(d, v[0]);
     case F_LAMBDA: return xrtm_set_lambda(d, v[0]);
     case F_RADIUS: return xrtm_set_planet_r(d, v[0]);
     case F_LEVZ: return xrtm_set_levels_z(d, v);
     case F_OLEV: return xrtm_set_out_levels(d, iv);
     case F_OTAU: return xrtm_set_out_taus(d, v);
     case F_OTHETA: return xrtm_set_out_thetas(d, v);
     case F_FTOP: return xrtm_set_F_iso_top(d, v[0]);
     case F_FBOT: return xrtm_set_F_iso_bot(d, v[0]);
     case F_F0: return xrtm_set_F_0(d, v[0]);
     case F_THETA0: return xrtm_set_theta_0(d, v[0]);
     case F_PHI0: return xrtm_set_phi_0(d, v[0]);
     case F_LEVB: return xrtm_set_levels_b(d, v);
     case F_SURFB: return xrtm_set_surface_b(d, v[0]);
     case F_G: return a == -1 ? xrtm_set_g_n(d, v) : xrtm_set_g_1(d, a, v[0]);
     case F_G_L: {
          static thread_local double *rows[64]; for (int i = 0; i < nl && i < 64; ++i) rows[i] = v + (size_t) i * nd;
          if (a == -1) return b == -1 ? xrtm_set_g_l_nn(d, rows) : xrtm_set_g_l_n1(d, b, v);
          return b == -1 ? xrtm_set_g_l_1n(d, a, v) : xrtm_set_g_l_11(d, a, b, v[0]);
     }
     case F_COEF: {
          static thread_local Tab t; static thread_local VD buf; int ni = a == -1 ? nl : 1; VI n(ni); for (int i = 0; i < ni; ++i) n[i] = iv[i] < 0 ? cfg.max_coef : iv[i];
          build_tab(t, o.dv, ni, 1, ne, n, buf);
          static thread_local VI nn; nn = n;
          bool all = iv[0] < 0; n.clear(); n.shrink_to_fit();
          static thread_local std::vector<double **> rows; rows.clear(); for (int i = 0; i < ni; ++i) rows.push_back(t.i[i][0]);
          if (a == -1) return xrtm_set_coef_n(d, all ? 0 : nn.data(), rows.data());
          return xrtm_set_coef_1(d, a, all ? -1 : nn[0], rows[0]);
     }
     case F_OMEGA: return a == -1 ? xrtm_set_omega_n(d, v) : xrtm_set_omega_1(d, a, v[0]);
     case F_LTAU: return a == -1 ? xrtm_set_ltau_n(d, v) : xrtm_set_ltau_1(d, a, v[0]);
     case F_KAMP: return xrtm_set_kernel_ampfac(d, a, v[0]);
     case F_KPAR: return b == -1 ? xrtm_set_kernel_params_n(d, a, v) : xrtm_set_kernel_params_1(d, a, b, v[0]);
     case F_KFUNC: { int k = iv[0] < 1 || iv[0] > 2 ? 1 : iv[0];
          return xrtm_set_kernel_func(d, a, (void (*)(brdf_aux_data *, void *, int, int, int, uchar *, double *, double **)) sim_kernels[k][0],
               (double (*)(brdf_aux_data *, void *, enum xrtm_brdf_geometry, int, int, int, double, int, uchar *, double *, double **, double *)) sim_kernels[k][1]); }
     case F_FTOP_L: return b == -1 ? xrtm_set_F_iso_top_l_n(d, v) : xrtm_set_F_iso_top_l_1(d, b, v[0]);
     case F_FBOT_L: return b == -1 ? xrtm_set_F_iso_bot_l_n(d, v) : xrtm_set_F_iso_bot_l_1(d, b, v[0]);
     case F_SURFB_L: return b == -1 ? xrtm_set_surface_b_l_n(d, v) : xrtm_set_surface_b_l_1(d, b, v[0]);
     case F_LEVB_L: {
          static thread_local double *rows[64]; static thread_local VD tr; tr.assign((size_t) (nl + 1) * (nd + 1), 0.);
          for (int i = 0; i <= nl && i < 64; ++i) { rows[i] = tr.data() + (size_t) i * nd; for (int j = 0; j < nd && b == -1; ++j) rows[i][j] = v[(size_t) j * (nl + 1) + i]; }
          return b == -1 ? xrtm_set_levels_b_l_n(d, rows) : xrtm_set_levels_b_l_1(d, b, v);
     }
     case F_COEF_L: {
          static thread_local Tab t; static thread_local VD buf; static thread_local VI n; int ni = a == -1 ? nl : 1, nj = b == -1 ? std::max(nd, 1) : 1; n.assign(ni, cfg.max_coef);
          build_tab(t, o.dv, ni, nj, ne, n, buf);
          static thread_local std::vector<double **> rows; rows.clear(); for (int i = 0; i < ni; ++i) rows.push_back(t.i[i][0]);
          if (a == -1) return b == -1 ? xrtm_set_coef_l_nn(d, t.i.data()) : xrtm_set_coef_l_n1(d, b, rows.data());
          return b == -1 ? xrtm_set_coef_l_1n(d, a, t.i[0]) : xrtm_set_coef_l_11(d, a, b, t.i[0][0]);
     }
     case F_OMEGA_L: case F_LTAU_L: {
          static thread_local double *rows[64]; for (int i = 0; i < nl && i < 64; ++i) rows[i] = v + (size_t) i * nd;
          if (f == F_OMEGA_L) { if (a == -1) return b == -1 ? xrtm_set_omega_l_nn(d, rows) : xrtm_set_omega_l_n1(d, b, v); return b == -1 ? xrtm_set_omega_l_1n(d, a, v) : xrtm_set_omega_l_11(d, a, b, v[0]); }
          if (a == -1) return b == -1 ? xrtm_set_ltau_l_nn(d, rows) : xrtm_set_ltau_l_n1(d, b, v); return b == -1 ? xrtm_set_ltau_l_1n(d, a, v) : xrtm_set_ltau_l_11(d, a, b, v[0]);
     }
     case F_KAMP_L: return b == -1 ? xrtm_set_kernel_ampfac_l_n(d, a, v) : xrtm_set_kernel_ampfac_l_1(d, a, b, v[0]);
     case F_KPAR_L: {
          static thread_local double *rows[64]; int np = a >= 0 && a < cfg.n_kernels() ? kernel_npar(cfg.kernels[a]) : 1; for (int j = 0; j < nd && j < 64; ++j) rows[j] = v + (size_t) j * np;
          if (b == -1) return e == -1 ? xrtm_set_kernel_params_l_nn(d, a, rows) : xrtm_set_kernel_params_l_n1(d, a, e, v);
          return e == -1 ? xrtm_set_kernel_params_l_1n(d, a, b, v) : xrtm_set_kernel_params_l_11(d, a, b, e, v[0]);
     }
     }
     return -12345;
}

/* error constant -> status 1 */
static GetR di(double x) { GetR r; r.status = x == XRTM_DBL_ERROR ? 1 : x == (double) (XRTM_INT_ERROR) ? 4 : 0; r.v.push_back(x); return r; }
static GetR ii(int x) { GetR r; r.status = x == XRTM_INT_ERROR; r.v.push_back(x); return r; }

GetR CApi::get(const Get &g, const Config &c) {
     static thread_local double b[64]; static thread_local int ib[64];
     for (int i = 0; i < 64; ++i) { b[i] = SENTINEL; ib[i] = -77777; }
     auto arr = [&](int st, int n) { GetR r; r.status = st == 0 ? 0 : st == XRTM_INT_ERROR ? 1 : 2; for (int i = 0; i < n; ++i) r.v.push_back(b[i]); return r; };
     switch (g.field) {
     case F_DOUB: return di(xrtm_get_doub_d_tau(d));
     case F_PADE: { int s = -77777, r2 = -77777; int st = xrtm_get_pade_params(d, &s, &r2); b[0] = s; b[1] = r2; return arr(st, 2); }
     case F_SOS: { int n = -77777; int st = xrtm_get_sos_params(d, &n, &b[1], &b[2]); b[0] = n; return arr(st, 3); }
     case F_FTOL: return di(xrtm_get_fourier_tol(d));
     case F_LAMBDA: return di(xrtm_get_lambda(d));
     case F_RADIUS: return di(xrtm_get_planet_r(d));
     case F_LEVZ: { int s = xrtm_get_levels_z(d, b); return arr(s, c.n_layers + 1); }
     case F_OLEV: { int s = xrtm_get_out_levels(d, ib); for (int i = 0; i < c.n_out_levels; ++i) b[i] = ib[i]; return arr(s, c.n_out_levels); }
     case F_OTAU: { int s = xrtm_get_out_taus(d, b); return arr(s, c.n_out_levels); }
     case F_OTHETA: { int s = xrtm_get_out_thetas(d, b); return arr(s, c.n_out_thetas); }
     case F_FTOP: return di(xrtm_get_F_iso_top(d));
     case F_FBOT: return di(xrtm_get_F_iso_bot(d));
     case F_F0: return di(xrtm_get_F_0(d));
     case F_THETA0: return di(xrtm_get_theta_0(d));
     case F_PHI0: return di(xrtm_get_phi_0(d));
     case F_LEVB: { int s = xrtm_get_levels_b(d, b); return arr(s, c.n_layers + 1); }
     case F_SURFB: return di(xrtm_get_surface_b(d));
     case F_G: return di(xrtm_get_g(d, g.i0));
     case F_COEF: if (g.i1 == -100) return ii(xrtm_get_n_coef(d, g.i0)); return di(xrtm_get_coef(d, g.i0, g.i1, g.i2));
     case F_OMEGA: return di(xrtm_get_omega(d, g.i0));
     case F_LTAU: return di(xrtm_get_ltau(d, g.i0));
     case F_KAMP: return di(xrtm_get_kernel_ampfac(d, g.i0));
     case F_KPAR: return di(xrtm_get_kernel_params(d, g.i0, g.i1));
     case F_KFUNC: if (g.i1 == -100) return ii(xrtm_get_kernel(d, g.i0)); return GetR{0, {}};
     case F_FTOP_L: return di(xrtm_get_F_iso_top_l(d, g.i0));
     case F_FBOT_L: return di(xrtm_get_F_iso_bot_l(d, g.i0));
     case F_LEVB_L: { double s = xrtm_get_levels_b_l(d, g.i0, b); return arr(s == 0 ? 0 : (s == XRTM_DBL_ERROR || s == XRTM_INT_ERROR) ? XRTM_INT_ERROR : 2, c.n_layers + 1); }
     case F_SURFB_L: return di(xrtm_get_surface_b_l(d, g.i0));
     case F_G_L: return di(xrtm_get_g_l(d, g.i0, g.i1));
     case F_COEF_L: return di(xrtm_get_coef_l(d, g.i0, g.i1, g.i2, g.i3));
     case F_OMEGA_L: return di(xrtm_get_omega_l(d, g.i0, g.i1));
     case F_LTAU_L: return di(xrtm_get_ltau_l(d, g.i0, g.i1));
     case F_KAMP_L: return di(xrtm_get_kernel_ampfac_l(d, g.i0, g.i1));
     case F_KPAR_L: return di(xrtm_get_kernel_params_l(d, g.i0, g.i1, g.i2));
     }
     return GetR{3, {}};
}

int CApi::solve(const Op &o, double **phis, Outs &r) {
     enum xrtm_solver_mask s = (enum xrtm_solver_mask) o.iv[0]; int out = o.iv[1], np = o.iv[2], single = o.iv[3];
#define P(k, T) ((T) r.ptr(k))
     if (single) {
          if (out == XRTM_OUTPUT_RADIANCE) return xrtm_radiance(d, s, np, phis, P(0, double ****), P(1, double ****), P(2, double *****), P(3, double *****));
          if (out == XRTM_OUTPUT_RADIANCE_MEAN) return xrtm_mean_radiance(d, s, P(4, double *), P(5, double *), P(6, double **), P(7, double **));
          if (out == XRTM_OUTPUT_FLUX) return xrtm_flux(d, s, P(8, double *), P(9, double *), P(10, double **), P(11, double **));
     }
     return xrtm_solution(d, s, out, np, phis, P(0, double ****), P(1, double ****), P(2, double *****), P(3, double *****), P(4, double *), P(5, double *), P(6, double **), P(7, double **), P(8, double *), P(9, double *), P(10, double **), P(11, double **), 0, 0);
}
int CApi::adjoint(const Op &o, double **phis, Outs &r) {
     enum xrtm_solver_mask s = (enum xrtm_solver_mask) o.iv[0]; int out = o.iv[1], np = o.iv[2];
     return xrtm_solution_2(d, s, out, np, phis, P(0, double ****), P(1, double ****), P(2, double *****), P(3, double *****), P(4, double *), P(5, double *), P(6, double **), P(7, double **), P(8, double *), P(9, double *), P(10, double **), P(11, double **), 0, 0);
}

int fd_give(xrtm_fd_data *d, const Config &c, int nd, const Op &o, VD &vals) {
     int f = o.iv[0], a = o.iv[1], b = o.iv[2], e = o.iv[3], nl = c.n_layers; vals = o.dv; vals.resize(vals.size() + 64, 0.); double *v = vals.data();
     static thread_local double *rows[256];
     switch (f) {
     case N_FIELDS: return xrtm_fd_set_delta(d, v);
     case F_FTOP_L: return b == -1 ? xrtm_fd_set_F_iso_top_p_n(d, v) : xrtm_fd_set_F_iso_top_p_1(d, b, v[0]);
     case F_FBOT_L: return b == -1 ? xrtm_fd_set_F_iso_bot_p_n(d, v) : xrtm_fd_set_F_iso_bot_p_1(d, b, v[0]);
     case F_SURFB_L: return b == -1 ? xrtm_fd_set_surface_b_p_n(d, v) : xrtm_fd_set_surface_b_p_1(d, b, v[0]);
     case F_LEVB_L: {
          static thread_local VD tr; tr.assign((size_t) (nl + 1) * (nd + 1), 0.);
          for (int i = 0; i <= nl; ++i) { rows[i] = tr.data() + (size_t) i * nd; for (int j = 0; j < nd && b == -1; ++j) rows[i][j] = v[(size_t) j * (nl + 1) + i]; }
          return b == -1 ? xrtm_fd_set_levels_b_p_n(d, rows) : xrtm_fd_set_levels_b_p_1(d, b, v);
     }
     case F_COEF_L: {
          static thread_local Tab t; static thread_local VD buf; static thread_local VI n; int ni = a == -1 ? nl : 1, nj = b == -1 ? std::max(nd, 1) : 1; n.assign(ni, c.max_coef);
          build_tab(t, o.dv, ni, nj, c.n_elem(), n, buf);
          static thread_local std::vector<double **> r; r.clear(); for (int i = 0; i < ni; ++i) r.push_back(t.i[i][0]);
          if (a == -1) return b == -1 ? xrtm_fd_set_coef_p_nn(d, t.i.data()) : xrtm_fd_set_coef_p_n1(d, b, r.data());
          return b == -1 ? xrtm_fd_set_coef_p_1n(d, a, t.i[0]) : xrtm_fd_set_coef_p_11(d, a, b, t.i[0][0]);
     }
     case F_OMEGA_L: case F_LTAU_L:
          for (int i = 0; i < nl; ++i) rows[i] = v + (size_t) i * nd;
          if (f == F_OMEGA_L) { if (a == -1) return b == -1 ? xrtm_fd_set_omega_p_nn(d, rows) : xrtm_fd_set_omega_p_n1(d, b, v); return b == -1 ? xrtm_fd_set_omega_p_1n(d, a, v) : xrtm_fd_set_omega_p_11(d, a, b, v[0]); }
          if (a == -1) return b == -1 ? xrtm_fd_set_ltau_p_nn(d, rows) : xrtm_fd_set_ltau_p_n1(d, b, v); return b == -1 ? xrtm_fd_set_ltau_p_1n(d, a, v) : xrtm_fd_set_ltau_p_11(d, a, b, v[0]);
     case F_KAMP_L: return b == -1 ? xrtm_fd_set_kernel_ampfac_p_n(d, a, v) : xrtm_fd_set_kernel_ampfac_p_1(d, a, b, v[0]);
     case F_KPAR_L: {
          int np = a >= 0 && a < c.n_kernels() ? kernel_npar(c.kernels[a]) : 1; for (int j = 0; j < nd; ++j) rows[j] = v + (size_t) j * np;
          if (b == -1) return e == -1 ? xrtm_fd_set_kernel_params_p_nn(d, a, rows) : xrtm_fd_set_kernel_params_p_n1(d, a, e, v);
          return e == -1 ? xrtm_fd_set_kernel_params_p_1n(d, a, b, v) : xrtm_fd_set_kernel_params_p_11(d, a, b, e, v[0]);
     }
     }
     return -12345;
}
