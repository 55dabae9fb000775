/* One language: everything the history player calls.  Included in a namespace of its own
   after the names of the interface functions have been replaced. */
#include "capi_decl.inc"
#include "capi.inc"
struct L : Lang {
     CApi api; xrtm_data *raw_() { return (xrtm_data *) bm.slot; }
     L() {}
     int create(const Config &c) override { int s = api.create(c); alive = s == 0; return s; }
     int destroy() override { alive = false; return api.destroy(); }
     int set(const Op &o) override { return api.set(o); }
     GetR get(const Get &g, const Config &c) override { return api.get(g, c); }
     int update() override { return api.update(); }
     void clear() override { api.clear(); }
     int solve(const Op &o, double **phis, Outs &r) override { return api.solve(o, phis, r); }
     int counts(int *v) override { return api.counts(v); }
     int query(int k, VD &v) override {
          v.assign(64, SENTINEL);
          switch (k) { case 0: return xrtm_qx(api.d, v.data()); case 1: return xrtm_qw(api.d, v.data()); case 2: return xrtm_kernel_qx(api.d, v.data()); default: return xrtm_kernel_qw(api.d, v.data()); }
     }
     xrtm_fd_data *fd() { return (xrtm_fd_data *) bm.fdslot; }
     int fd_create(int n) override { return xrtm_fd_create(fd(), api.d, n); }
     int fd_destroy() override { return xrtm_fd_destroy(fd()); }
     int fd_set(const Config &c, int n, const Op &o, VD &v) override { return (fd_give)(fd(), c, n, o, v); }
     void fd_get(const Config &c, int nd, const Op &o, VD &v) override {
          v.clear(); VD a(std::max(64, c.n_layers + nd + 2), SENTINEL); int f = o.iv[0], b = std::max(0, o.iv[2]), i0 = std::max(0, o.iv[1]), e = std::max(0, o.iv[3]);
          v.push_back(xrtm_fd_get_n_derivs(fd()));
          switch (f) {
          case N_FIELDS: v.push_back(xrtm_fd_get_delta(fd(), a.data()) != 0); v.insert(v.end(), a.begin(), a.end()); break;
          case F_FTOP_L: v.push_back(xrtm_fd_get_F_iso_top_p(fd(), b)); break;
          case F_FBOT_L: v.push_back(xrtm_fd_get_F_iso_bot_p(fd(), b)); break;
          case F_SURFB_L: v.push_back(xrtm_fd_get_surface_b_p(fd(), b)); break;
          case F_LEVB_L: v.push_back(xrtm_fd_get_levels_b_p(fd(), b, a.data())); v.insert(v.end(), a.begin(), a.end()); break;
          case F_OMEGA_L: v.push_back(xrtm_fd_get_omega_p(fd(), i0, b)); break;
          case F_LTAU_L: v.push_back(xrtm_fd_get_ltau_p(fd(), i0, b)); break;
          case F_COEF_L: for (int k = 0; k < bm.nc(i0); ++k) for (int l = 0; l < c.n_elem(); ++l) v.push_back(xrtm_fd_get_coef_p(fd(), i0, b, l, k)); break;
          case F_KAMP_L: v.push_back(xrtm_fd_get_kernel_ampfac_p(fd(), i0, b)); break;
          case F_KPAR_L: v.push_back(xrtm_fd_get_kernel_params_p(fd(), i0, b, e)); break;
          }
     }
     int fd_solve(const Op &o, double **phis, Outs &r) override {
          enum xrtm_solver_mask s = (enum xrtm_solver_mask) o.iv[0]; enum xrtm_fd_method_type m = (enum xrtm_fd_method_type) o.iv[4];
          if (o.iv[3] && o.iv[1] == XRTM_OUTPUT_RADIANCE) return xrtm_fd_radiance(fd(), s, m, o.iv[2], phis, P(0, double ****), P(1, double ****), P(2, double *****), P(3, double *****));
          return xrtm_fd_solution(fd(), s, o.iv[1], m, o.iv[2], phis, P(0, double ****), P(1, double ****), P(2, double *****), P(3, double *****), P(4, double *), P(5, double *), P(6, double **), P(7, double **), P(8, double *), P(9, double *), P(10, double **), P(11, double **), 0, 0);
     }
};
#undef P
