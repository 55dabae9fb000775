/* Written by tools/mkbind.py. */
static int py_xrtm_create(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) { PyCall c_(0); c_.mask(options, xrtm_option_mask_to_name); c_.mask(solvers, xrtm_solver_mask_to_name); c_.i(max_coef); c_.i(n_quad); c_.i(n_stokes); c_.i(n_derivs); c_.i(n_layers); c_.i(n_theta_0s); c_.i(n_kernel_quad); c_.kernels(n_kernels, kernels); c_.i(n_out_levels); c_.i(n_out_thetas); return c_.create(d) ? 0 : XRTM_INT_ERROR; }
static int py_xrtm_get_options(xrtm_data *d) { PyCall c_("get_options");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_solvers(xrtm_data *d) { PyCall c_("get_solvers");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_max_coef(xrtm_data *d) { PyCall c_("get_max_coef");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_quad(xrtm_data *d) { PyCall c_("get_n_quad");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_stokes(xrtm_data *d) { PyCall c_("get_n_stokes");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_derivs(xrtm_data *d) { PyCall c_("get_n_derivs");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_layers(xrtm_data *d) { PyCall c_("get_n_layers");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_kernels(xrtm_data *d) { PyCall c_("get_n_kernels");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_kernel_quad(xrtm_data *d) { PyCall c_("get_n_kernel_quad");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_kernel(xrtm_data *d, int i_kernel) { PyCall c_("get_kernel"); c_.i(i_kernel); if (!c_.call(d, -1)) return XRTM_INT_ERROR; return (int) c_.kernel(); }
static int py_xrtm_get_n_out_levels(xrtm_data *d) { PyCall c_("get_n_out_levels");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_out_thetas(xrtm_data *d) { PyCall c_("get_n_out_thetas");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_get_n_out_thetas_2(xrtm_data *d) { PyCall c_("get_n_out_thetas_2");  if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static int py_xrtm_set_doub_d_tau(xrtm_data *d, double d_tau) { PyCall c_("set_doub_d_tau"); c_.d(d_tau); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_doub_d_tau(xrtm_data *d) { PyCall c_("get_doub_d_tau");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_pade_params(xrtm_data *d, int pade_s, int pade_r) { PyCall c_("set_pade_params"); c_.i(pade_s); c_.i(pade_r); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_pade_params(xrtm_data *d, int *pade_s, int *pade_r) { PyCall c_("get_pade_params");  if (!c_.call(d, 2)) return XRTM_INT_ERROR; c_.o(0, pade_s); c_.o(1, pade_r); return 0; }
static int py_xrtm_set_sos_params(xrtm_data *d, int max_os, double max_tau, double sos_tol) { PyCall c_("set_sos_params"); c_.i(max_os); c_.d(max_tau); c_.d(sos_tol); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_sos_params(xrtm_data *d, int *max_os, double *max_tau, double *sos_tol) { PyCall c_("get_sos_params");  if (!c_.call(d, 3)) return XRTM_INT_ERROR; c_.o(0, max_os); c_.o(1, max_tau); c_.o(2, sos_tol); return 0; }
static int py_xrtm_set_fourier_tol(xrtm_data *d, double fourier_tol) { PyCall c_("set_fourier_tol"); c_.d(fourier_tol); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_fourier_tol(xrtm_data *d) { PyCall c_("get_fourier_tol");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_lambda(xrtm_data *d, double lambda) { PyCall c_("set_lambda"); c_.d(lambda); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_lambda(xrtm_data *d) { PyCall c_("get_lambda");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_planet_r(xrtm_data *d, double planet_r) { PyCall c_("set_planet_r"); c_.d(planet_r); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_planet_r(xrtm_data *d) { PyCall c_("get_planet_r");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_levels_z(xrtm_data *d, double *levels_z) { PyCall c_("set_levels_z"); c_.a<double, 1>(levels_z, {bm.nl + 1}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_levels_z(xrtm_data *d, double *levels_z) { PyCall c_("get_levels_z");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, levels_z, {bm.nl + 1}); return 0; }
static int py_xrtm_set_out_levels(xrtm_data *d, int *out_levels) { PyCall c_("set_out_levels"); c_.a<int, 1>(out_levels, {bm.no}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_out_levels(xrtm_data *d, int *out_levels) { PyCall c_("get_out_levels");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<int, 1>(0, out_levels, {bm.no}); return 0; }
static int py_xrtm_set_out_taus(xrtm_data *d, double *out_taus) { PyCall c_("set_out_taus"); c_.a<double, 1>(out_taus, {bm.no}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_out_taus(xrtm_data *d, double *out_taus) { PyCall c_("get_out_taus");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, out_taus, {bm.no}); return 0; }
static int py_xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) { PyCall c_("set_out_thetas"); c_.a<double, 1>(out_thetas, {bm.nt}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_out_thetas(xrtm_data *d, double *out_thetas) { PyCall c_("get_out_thetas");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, out_thetas, {bm.nt}); return 0; }
static int py_xrtm_set_F_iso_top(xrtm_data *d, double F_iso_top) { PyCall c_("set_F_iso_top"); c_.d(F_iso_top); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_F_iso_top(xrtm_data *d) { PyCall c_("get_F_iso_top");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_F_iso_top_l_1(xrtm_data *d, int i_deriv, double F_iso_top_l) { PyCall c_("set_F_iso_top_l_1"); c_.i(i_deriv); c_.d(F_iso_top_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_F_iso_top_l_n(xrtm_data *d, double *F_iso_top_l) { PyCall c_("set_F_iso_top_l_n"); c_.a<double, 1>(F_iso_top_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_F_iso_top_l(xrtm_data *d, int i_deriv) { PyCall c_("get_F_iso_top_l"); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_F_iso_bot(xrtm_data *d, double F_iso_bot) { PyCall c_("set_F_iso_bot"); c_.d(F_iso_bot); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_F_iso_bot(xrtm_data *d) { PyCall c_("get_F_iso_bot");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_F_iso_bot_l_1(xrtm_data *d, int i_deriv, double F_iso_bot_l) { PyCall c_("set_F_iso_bot_l_1"); c_.i(i_deriv); c_.d(F_iso_bot_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_F_iso_bot_l_n(xrtm_data *d, double *F_iso_bot_l) { PyCall c_("set_F_iso_bot_l_n"); c_.a<double, 1>(F_iso_bot_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_F_iso_bot_l(xrtm_data *d, int i_deriv) { PyCall c_("get_F_iso_bot_l"); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_F_0(xrtm_data *d, double F_0) { PyCall c_("set_F_0"); c_.d(F_0); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_F_0(xrtm_data *d) { PyCall c_("get_F_0");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_theta_0(xrtm_data *d, double theta_0) { PyCall c_("set_theta_0"); c_.d(theta_0); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_theta_0(xrtm_data *d) { PyCall c_("get_theta_0");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_phi_0(xrtm_data *d, double phi_0) { PyCall c_("set_phi_0"); c_.d(phi_0); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_phi_0(xrtm_data *d) { PyCall c_("get_phi_0");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_levels_b(xrtm_data *d, double *levels_b) { PyCall c_("set_levels_b"); c_.a<double, 1>(levels_b, {bm.nl + 1}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_levels_b(xrtm_data *d, double *levels_b) { PyCall c_("get_levels_b");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, levels_b, {bm.nl + 1}); return 0; }
static int py_xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l) { PyCall c_("set_levels_b_l_1"); c_.i(i_deriv); c_.a<double, 1>(levels_b_l, {bm.nl + 1}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) { PyCall c_("set_levels_b_l_n"); c_.a<double, 2>(levels_b_l, {bm.nl + 1, bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) { PyCall c_("get_levels_b_l"); c_.i(i_deriv); if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, levels_b_l, {bm.nl + 1}); return 0; }
static int py_xrtm_set_surface_b(xrtm_data *d, double surface_b) { PyCall c_("set_surface_b"); c_.d(surface_b); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_surface_b(xrtm_data *d) { PyCall c_("get_surface_b");  if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l) { PyCall c_("set_surface_b_l_1"); c_.i(i_deriv); c_.d(surface_b_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_surface_b_l_n(xrtm_data *d, double *surface_b_l) { PyCall c_("set_surface_b_l_n"); c_.a<double, 1>(surface_b_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) { PyCall c_("get_surface_b_l"); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_g_1(xrtm_data *d, int i_layer, double g) { PyCall c_("set_g_1"); c_.i(i_layer); c_.d(g); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_g_n(xrtm_data *d, double *g) { PyCall c_("set_g_n"); c_.a<double, 1>(g, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_g(xrtm_data *d, int i_layer) { PyCall c_("get_g"); c_.i(i_layer); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) { PyCall c_("set_g_l_11"); c_.i(i_layer); c_.i(i_deriv); c_.d(g_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) { PyCall c_("set_g_l_n1"); c_.i(i_deriv); c_.a<double, 1>(g_l, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_g_l_1n(xrtm_data *d, int i_layer, double *g_l) { PyCall c_("set_g_l_1n"); c_.i(i_layer); c_.a<double, 1>(g_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_g_l_nn(xrtm_data *d, double **g_l) { PyCall c_("set_g_l_nn"); c_.a<double, 2>(g_l, {bm.nl, bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_g_l(xrtm_data *d, int i_layer, int i_deriv) { PyCall c_("get_g_l"); c_.i(i_layer); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_coef_1(xrtm_data *d, int i_layer, int n_coef_layer, double **coef) { PyCall c_("set_coef_1"); c_.i(i_layer); c_.i(n_coef_layer); c_.a<double, 2>(coef, {bm.ne, (n_coef_layer < 0 ? bm.mc : n_coef_layer)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_coef_n(xrtm_data *d, int *n_coef_layer, double ***coef) { PyCall c_("set_coef_n"); c_.a<int, 1>(n_coef_layer, {bm.nl}); c_.a<double, 3>(coef, {bm.nl, bm.ne, bm.mc}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_get_n_coef(xrtm_data *d, int i_layer) { PyCall c_("get_n_coef"); c_.i(i_layer); if (!c_.call(d, 0)) return XRTM_INT_ERROR; return (int) c_.value<int>(); }
static double py_xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) { PyCall c_("get_coef"); c_.i(i_layer); c_.i(i_elem); c_.i(i_coef); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l) { PyCall c_("set_coef_l_11"); c_.i(i_layer); c_.i(i_deriv); c_.a<double, 2>(coef_l, {bm.ne, bm.nc(i_layer)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) { PyCall c_("set_coef_l_n1"); c_.i(i_deriv); c_.a<double, 3>(coef_l, {bm.nl, bm.ne, bm.mc}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_coef_l_1n(xrtm_data *d, int i_layer, double ***coef_l) { PyCall c_("set_coef_l_1n"); c_.i(i_layer); c_.a<double, 3>(coef_l, {bm.nd, bm.ne, bm.nc(i_layer)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_coef_l_nn(xrtm_data *d, double ****coef_l) { PyCall c_("set_coef_l_nn"); c_.a<double, 4>(coef_l, {bm.nl, bm.nd, bm.ne, bm.mc}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_coef_l(xrtm_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) { PyCall c_("get_coef_l"); c_.i(i_layer); c_.i(i_deriv); c_.i(i_elem); c_.i(i_coef); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_omega_1(xrtm_data *d, int i_layer, double omega) { PyCall c_("set_omega_1"); c_.i(i_layer); c_.d(omega); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_omega_n(xrtm_data *d, double *omega) { PyCall c_("set_omega_n"); c_.a<double, 1>(omega, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_omega(xrtm_data *d, int i_layer) { PyCall c_("get_omega"); c_.i(i_layer); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l) { PyCall c_("set_omega_l_11"); c_.i(i_layer); c_.i(i_deriv); c_.d(omega_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) { PyCall c_("set_omega_l_n1"); c_.i(i_deriv); c_.a<double, 1>(omega_l, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_omega_l_1n(xrtm_data *d, int i_layer, double *omega_l) { PyCall c_("set_omega_l_1n"); c_.i(i_layer); c_.a<double, 1>(omega_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_omega_l_nn(xrtm_data *d, double **omega_l) { PyCall c_("set_omega_l_nn"); c_.a<double, 2>(omega_l, {bm.nl, bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_omega_l(xrtm_data *d, int i_layer, int i_deriv) { PyCall c_("get_omega_l"); c_.i(i_layer); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_ltau_1(xrtm_data *d, int i_layer, double ltau) { PyCall c_("set_ltau_1"); c_.i(i_layer); c_.d(ltau); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_ltau_n(xrtm_data *d, double *ltau) { PyCall c_("set_ltau_n"); c_.a<double, 1>(ltau, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_ltau(xrtm_data *d, int i_layer) { PyCall c_("get_ltau"); c_.i(i_layer); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) { PyCall c_("set_ltau_l_11"); c_.i(i_layer); c_.i(i_deriv); c_.d(ltau_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) { PyCall c_("set_ltau_l_n1"); c_.i(i_deriv); c_.a<double, 1>(ltau_l, {bm.nl}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_ltau_l_1n(xrtm_data *d, int i_layer, double *ltau_l) { PyCall c_("set_ltau_l_1n"); c_.i(i_layer); c_.a<double, 1>(ltau_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_ltau_l_nn(xrtm_data *d, double **ltau_l) { PyCall c_("set_ltau_l_nn"); c_.a<double, 2>(ltau_l, {bm.nl, bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_ltau_l(xrtm_data *d, int i_layer, int i_deriv) { PyCall c_("get_ltau_l"); c_.i(i_layer); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_kernel_ampfac(xrtm_data *d, int i_kernel, double ampfac) { PyCall c_("set_kernel_ampfac"); c_.i(i_kernel); c_.d(ampfac); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) { PyCall c_("get_kernel_ampfac"); c_.i(i_kernel); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_kernel_params_1(xrtm_data *d, int i_kernel, int i_param, double param) { PyCall c_("set_kernel_params_1"); c_.i(i_kernel); c_.i(i_param); c_.d(param); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_kernel_params_n(xrtm_data *d, int i_kernel, double *params) { PyCall c_("set_kernel_params_n"); c_.i(i_kernel); c_.a<double, 1>(params, {bm.np(i_kernel)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) { PyCall c_("get_kernel_params"); c_.i(i_kernel); c_.i(i_param); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_kernel_ampfac_l_1(xrtm_data *d, int i_kernel, int i_deriv, double ampfac_l) { PyCall c_("set_kernel_ampfac_l_1"); c_.i(i_kernel); c_.i(i_deriv); c_.d(ampfac_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_kernel_ampfac_l_n(xrtm_data *d, int i_kernel, double *ampfac_l) { PyCall c_("set_kernel_ampfac_l_n"); c_.i(i_kernel); c_.a<double, 1>(ampfac_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_kernel_ampfac_l(xrtm_data *d, int i_kernel, int i_deriv) { PyCall c_("get_kernel_ampfac_l"); c_.i(i_kernel); c_.i(i_deriv); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_set_kernel_params_l_11(xrtm_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { PyCall c_("set_kernel_params_l_11"); c_.i(i_kernel); c_.i(i_deriv); c_.i(i_param); c_.d(param_l); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_kernel_params_l_1n(xrtm_data *d, int i_kernel, int i_deriv, double *params_l) { PyCall c_("set_kernel_params_l_1n"); c_.i(i_kernel); c_.i(i_deriv); c_.a<double, 1>(params_l, {bm.np(i_kernel)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_kernel_params_l_n1(xrtm_data *d, int i_kernel, int i_param, double *params_l) { PyCall c_("set_kernel_params_l_n1"); c_.i(i_kernel); c_.i(i_param); c_.a<double, 1>(params_l, {bm.nd}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_set_kernel_params_l_nn(xrtm_data *d, int i_kernel, double **params_l) { PyCall c_("set_kernel_params_l_nn"); c_.i(i_kernel); c_.a<double, 2>(params_l, {bm.nd, bm.np(i_kernel)}); if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static double py_xrtm_get_kernel_params_l(xrtm_data *d, int i_kernel, int i_deriv, int i_param) { PyCall c_("get_kernel_params_l"); c_.i(i_kernel); c_.i(i_deriv); c_.i(i_param); if (!c_.call(d, 0)) return XRTM_DBL_ERROR; return (double) c_.value<double>(); }
static int py_xrtm_update_varied_layers(xrtm_data *d) { PyCall c_("update_varied_layers");  if (!c_.call(d, 0)) return XRTM_INT_ERROR;  return 0; }
static int py_xrtm_qx(xrtm_data *d, double *qx) { PyCall c_("qx");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, qx, {bm.nq + bm.nt}); return 0; }
static int py_xrtm_qw(xrtm_data *d, double *qw) { PyCall c_("qw");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, qw, {bm.nq + bm.nt}); return 0; }
static int py_xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) { PyCall c_("kernel_qx");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, kernel_qx, {bm.nkq}); return 0; }
static int py_xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) { PyCall c_("kernel_qw");  if (!c_.call(d, 1)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, kernel_qw, {bm.nkq}); return 0; }
static int py_xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { PyCall c_("solution"); c_.s(xrtm_solver_mask_to_name(solver)); c_.i(solutions); c_.i(n_out_phis); c_.a<double, 2>(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}); if (!c_.call(d, 14)) return XRTM_INT_ERROR; if ((solutions & XRTM_OUTPUT_RADIANCE)) c_.oa<double, 4>(0, I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if ((solutions & XRTM_OUTPUT_RADIANCE)) c_.oa<double, 4>(1, I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if ((solutions & XRTM_OUTPUT_RADIANCE) && bm.derivs) c_.oa<double, 5>(2, K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if ((solutions & XRTM_OUTPUT_RADIANCE) && bm.derivs) c_.oa<double, 5>(3, K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if ((solutions & XRTM_OUTPUT_RADIANCE_MEAN)) c_.oa<double, 1>(4, mean_p, {bm.no}); if ((solutions & XRTM_OUTPUT_RADIANCE_MEAN)) c_.oa<double, 1>(5, mean_m, {bm.no}); if ((solutions & XRTM_OUTPUT_RADIANCE_MEAN) && bm.derivs) c_.oa<double, 2>(6, mean_p_l, {bm.no, bm.nd}); if ((solutions & XRTM_OUTPUT_RADIANCE_MEAN) && bm.derivs) c_.oa<double, 2>(7, mean_m_l, {bm.no, bm.nd}); if ((solutions & XRTM_OUTPUT_FLUX)) c_.oa<double, 1>(8, flux_p, {bm.no}); if ((solutions & XRTM_OUTPUT_FLUX)) c_.oa<double, 1>(9, flux_m, {bm.no}); if ((solutions & XRTM_OUTPUT_FLUX) && bm.derivs) c_.oa<double, 2>(10, flux_p_l, {bm.no, bm.nd}); if ((solutions & XRTM_OUTPUT_FLUX) && bm.derivs) c_.oa<double, 2>(11, flux_m_l, {bm.no, bm.nd}); if ((solutions & XRTM_OUTPUT_FLUX_DIVERGENCE)) c_.oa<double, 1>(12, flux_div, {bm.no}); if ((solutions & XRTM_OUTPUT_FLUX_DIVERGENCE) && bm.derivs) c_.oa<double, 2>(13, flux_div_l, {bm.no, bm.nd}); return 0; }
static int py_xrtm_radiance(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { PyCall c_("radiance"); c_.s(xrtm_solver_mask_to_name(solver)); c_.i(n_out_phis); c_.a<double, 2>(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}); if (!c_.call(d, 4)) return XRTM_INT_ERROR; c_.oa<double, 4>(0, I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); c_.oa<double, 4>(1, I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if (bm.derivs) c_.oa<double, 5>(2, K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); if (bm.derivs) c_.oa<double, 5>(3, K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}); return 0; }
static int py_xrtm_mean_radiance(xrtm_data *d, enum xrtm_solver_mask solver, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l) { PyCall c_("mean_radiance"); c_.s(xrtm_solver_mask_to_name(solver)); if (!c_.call(d, 4)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, mean_p, {bm.no}); c_.oa<double, 1>(1, mean_m, {bm.no}); if (bm.derivs) c_.oa<double, 2>(2, mean_p_l, {bm.no, bm.nd}); if (bm.derivs) c_.oa<double, 2>(3, mean_m_l, {bm.no, bm.nd}); return 0; }
static int py_xrtm_flux(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) { PyCall c_("flux"); c_.s(xrtm_solver_mask_to_name(solver)); if (!c_.call(d, 4)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, flux_p, {bm.no}); c_.oa<double, 1>(1, flux_m, {bm.no}); if (bm.derivs) c_.oa<double, 2>(2, flux_p_l, {bm.no, bm.nd}); if (bm.derivs) c_.oa<double, 2>(3, flux_m_l, {bm.no, bm.nd}); return 0; }
static int py_xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_div, double **flux_div_l) { PyCall c_("flux_divergence"); c_.s(xrtm_solver_mask_to_name(solver)); if (!c_.call(d, 2)) return XRTM_INT_ERROR; c_.oa<double, 1>(0, flux_div, {bm.no}); if (bm.derivs) c_.oa<double, 2>(1, flux_div_l, {bm.no, bm.nd}); return 0; }
