/* Written by tools/mkbind.py. */
extern "C" void xrtm_create_f77_(void *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
static int f77_xrtm_create(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) { int e_ = -4321; Flat<int, 1> kernels_((int *) kernels, {bm.nk}, 0); xrtm_create_f77_(d, &options, &solvers, &max_coef, &n_quad, &n_stokes, &n_derivs, &n_layers, &n_theta_0s, &n_kernels, &n_kernel_quad, kernels_.p, &n_out_levels, &n_out_thetas, &e_); kernels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_create(void *, int, int, int, int, int, int, int, int, int, int, int *, int, int, int, int *);
static int f90_xrtm_create(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) { int e_ = -4321; Flat<int, 1> kernels_((int *) kernels, {bm.nk}, 0); s90_xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels_.p, kernels_.n[0], n_out_levels, n_out_thetas, &e_); kernels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_create(xrtm_data *d, int options, int solvers, int max_coef, int n_quad, int n_stokes, int n_derivs, int n_layers, int n_theta_0s, int n_kernels, int n_kernel_quad, enum xrtm_kernel_type *kernels, int n_out_levels, int n_out_thetas) { (*(xrtm_int_cpp **) d) = 0; CPP_TRY { (*(xrtm_int_cpp **) d) = new xrtm_int_cpp(options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, (enum xrtm_int_cpp::kernel_type *) kernels, n_out_levels, n_out_thetas); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_destroy_f77_(void *, int *);
static int f77_xrtm_destroy(xrtm_data *d) { int e_ = -4321;  xrtm_destroy_f77_(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_destroy(void *, int *);
static int f90_xrtm_destroy(xrtm_data *d) { int e_ = -4321;  s90_xrtm_destroy(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_destroy(xrtm_data *d) { xrtm_int_cpp *o_ = (*(xrtm_int_cpp **) d); (*(xrtm_int_cpp **) d) = 0; CPP_TRY { delete o_; return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_options_f77_(void *);
static int f77_xrtm_get_options(xrtm_data *d) {  int r_ = xrtm_get_options_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_options(void *);
static int f90_xrtm_get_options(xrtm_data *d) {  int r_ = s90_xrtm_get_options(d);  return r_; }
static int cpp_xrtm_get_options(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_options(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_solvers_f77_(void *);
static int f77_xrtm_get_solvers(xrtm_data *d) {  int r_ = xrtm_get_solvers_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_solvers(void *);
static int f90_xrtm_get_solvers(xrtm_data *d) {  int r_ = s90_xrtm_get_solvers(d);  return r_; }
static int cpp_xrtm_get_solvers(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_solvers(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_max_coef_f77_(void *);
static int f77_xrtm_get_max_coef(xrtm_data *d) {  int r_ = xrtm_get_max_coef_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_max_coef(void *);
static int f90_xrtm_get_max_coef(xrtm_data *d) {  int r_ = s90_xrtm_get_max_coef(d);  return r_; }
static int cpp_xrtm_get_max_coef(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_max_coef(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_quad_f77_(void *);
static int f77_xrtm_get_n_quad(xrtm_data *d) {  int r_ = xrtm_get_n_quad_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_quad(void *);
static int f90_xrtm_get_n_quad(xrtm_data *d) {  int r_ = s90_xrtm_get_n_quad(d);  return r_; }
static int cpp_xrtm_get_n_quad(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_quad(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_stokes_f77_(void *);
static int f77_xrtm_get_n_stokes(xrtm_data *d) {  int r_ = xrtm_get_n_stokes_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_stokes(void *);
static int f90_xrtm_get_n_stokes(xrtm_data *d) {  int r_ = s90_xrtm_get_n_stokes(d);  return r_; }
static int cpp_xrtm_get_n_stokes(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_stokes(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_derivs_f77_(void *);
static int f77_xrtm_get_n_derivs(xrtm_data *d) {  int r_ = xrtm_get_n_derivs_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_derivs(void *);
static int f90_xrtm_get_n_derivs(xrtm_data *d) {  int r_ = s90_xrtm_get_n_derivs(d);  return r_; }
static int cpp_xrtm_get_n_derivs(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_derivs(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_layers_f77_(void *);
static int f77_xrtm_get_n_layers(xrtm_data *d) {  int r_ = xrtm_get_n_layers_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_layers(void *);
static int f90_xrtm_get_n_layers(xrtm_data *d) {  int r_ = s90_xrtm_get_n_layers(d);  return r_; }
static int cpp_xrtm_get_n_layers(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_layers(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_kernels_f77_(void *);
static int f77_xrtm_get_n_kernels(xrtm_data *d) {  int r_ = xrtm_get_n_kernels_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_kernels(void *);
static int f90_xrtm_get_n_kernels(xrtm_data *d) {  int r_ = s90_xrtm_get_n_kernels(d);  return r_; }
static int cpp_xrtm_get_n_kernels(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_kernels(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_kernel_quad_f77_(void *);
static int f77_xrtm_get_n_kernel_quad(xrtm_data *d) {  int r_ = xrtm_get_n_kernel_quad_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_kernel_quad(void *);
static int f90_xrtm_get_n_kernel_quad(xrtm_data *d) {  int r_ = s90_xrtm_get_n_kernel_quad(d);  return r_; }
static int cpp_xrtm_get_n_kernel_quad(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_kernel_quad(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_kernel_f77_(void *, int *);
static int f77_xrtm_get_kernel(xrtm_data *d, int i_kernel) {  int r_ = xrtm_get_kernel_f77_(d, &i_kernel);  return r_; }
extern "C" int s90_xrtm_get_kernel(void *, int);
static int f90_xrtm_get_kernel(xrtm_data *d, int i_kernel) {  int r_ = s90_xrtm_get_kernel(d, i_kernel);  return r_; }
static int cpp_xrtm_get_kernel(xrtm_data *d, int i_kernel) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_kernel(i_kernel); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_out_levels_f77_(void *);
static int f77_xrtm_get_n_out_levels(xrtm_data *d) {  int r_ = xrtm_get_n_out_levels_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_out_levels(void *);
static int f90_xrtm_get_n_out_levels(xrtm_data *d) {  int r_ = s90_xrtm_get_n_out_levels(d);  return r_; }
static int cpp_xrtm_get_n_out_levels(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_out_levels(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_out_thetas_f77_(void *);
static int f77_xrtm_get_n_out_thetas(xrtm_data *d) {  int r_ = xrtm_get_n_out_thetas_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_out_thetas(void *);
static int f90_xrtm_get_n_out_thetas(xrtm_data *d) {  int r_ = s90_xrtm_get_n_out_thetas(d);  return r_; }
static int cpp_xrtm_get_n_out_thetas(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_out_thetas(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_out_thetas_2_f77_(void *);
static int f77_xrtm_get_n_out_thetas_2(xrtm_data *d) {  int r_ = xrtm_get_n_out_thetas_2_f77_(d);  return r_; }
extern "C" int s90_xrtm_get_n_out_thetas_2(void *);
static int f90_xrtm_get_n_out_thetas_2(xrtm_data *d) {  int r_ = s90_xrtm_get_n_out_thetas_2(d);  return r_; }
static int cpp_xrtm_get_n_out_thetas_2(xrtm_data *d) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_out_thetas_2(); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_doub_d_tau_f77_(void *, double *, int *);
static int f77_xrtm_set_doub_d_tau(xrtm_data *d, double d_tau) { int e_ = -4321;  xrtm_set_doub_d_tau_f77_(d, &d_tau, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_doub_d_tau(void *, double, int *);
static int f90_xrtm_set_doub_d_tau(xrtm_data *d, double d_tau) { int e_ = -4321;  s90_xrtm_set_doub_d_tau(d, d_tau, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_doub_d_tau(xrtm_data *d, double d_tau) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_doub_d_tau(d_tau); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_doub_d_tau_f77_(void *);
static double f77_xrtm_get_doub_d_tau(xrtm_data *d) {  double r_ = xrtm_get_doub_d_tau_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_doub_d_tau(void *);
static double f90_xrtm_get_doub_d_tau(xrtm_data *d) {  double r_ = s90_xrtm_get_doub_d_tau(d);  return r_; }
static double cpp_xrtm_get_doub_d_tau(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_doub_d_tau(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_pade_params_f77_(void *, int *, int *, int *);
static int f77_xrtm_set_pade_params(xrtm_data *d, int pade_s, int pade_r) { int e_ = -4321;  xrtm_set_pade_params_f77_(d, &pade_s, &pade_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_pade_params(void *, int, int, int *);
static int f90_xrtm_set_pade_params(xrtm_data *d, int pade_s, int pade_r) { int e_ = -4321;  s90_xrtm_set_pade_params(d, pade_s, pade_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_pade_params(xrtm_data *d, int pade_s, int pade_r) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_pade_params(pade_s, pade_r); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_pade_params_f77_(void *, int *, int *, int *);
static int f77_xrtm_get_pade_params(xrtm_data *d, int *pade_s, int *pade_r) { int e_ = -4321;  xrtm_get_pade_params_f77_(d, pade_s, pade_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_pade_params(void *, int *, int *, int *);
static int f90_xrtm_get_pade_params(xrtm_data *d, int *pade_s, int *pade_r) { int e_ = -4321;  s90_xrtm_get_pade_params(d, pade_s, pade_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_pade_params(xrtm_data *d, int *pade_s, int *pade_r) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_pade_params(pade_s, pade_r); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_sos_params_f77_(void *, int *, double *, double *, int *);
static int f77_xrtm_set_sos_params(xrtm_data *d, int max_os, double max_tau, double sos_tol) { int e_ = -4321;  xrtm_set_sos_params_f77_(d, &max_os, &max_tau, &sos_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_sos_params(void *, int, double, double, int *);
static int f90_xrtm_set_sos_params(xrtm_data *d, int max_os, double max_tau, double sos_tol) { int e_ = -4321;  s90_xrtm_set_sos_params(d, max_os, max_tau, sos_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_sos_params(xrtm_data *d, int max_os, double max_tau, double sos_tol) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_sos_params(max_os, max_tau, sos_tol); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_sos_params_f77_(void *, int *, double *, double *, int *);
static int f77_xrtm_get_sos_params(xrtm_data *d, int *max_os, double *max_tau, double *sos_tol) { int e_ = -4321;  xrtm_get_sos_params_f77_(d, max_os, max_tau, sos_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_sos_params(void *, int *, double *, double *, int *);
static int f90_xrtm_get_sos_params(xrtm_data *d, int *max_os, double *max_tau, double *sos_tol) { int e_ = -4321;  s90_xrtm_get_sos_params(d, max_os, max_tau, sos_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_sos_params(xrtm_data *d, int *max_os, double *max_tau, double *sos_tol) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_sos_params(max_os, max_tau, sos_tol); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_fourier_tol_f77_(void *, double *, int *);
static int f77_xrtm_set_fourier_tol(xrtm_data *d, double fourier_tol) { int e_ = -4321;  xrtm_set_fourier_tol_f77_(d, &fourier_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_fourier_tol(void *, double, int *);
static int f90_xrtm_set_fourier_tol(xrtm_data *d, double fourier_tol) { int e_ = -4321;  s90_xrtm_set_fourier_tol(d, fourier_tol, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_fourier_tol(xrtm_data *d, double fourier_tol) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_fourier_tol(fourier_tol); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_fourier_tol_f77_(void *);
static double f77_xrtm_get_fourier_tol(xrtm_data *d) {  double r_ = xrtm_get_fourier_tol_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_fourier_tol(void *);
static double f90_xrtm_get_fourier_tol(xrtm_data *d) {  double r_ = s90_xrtm_get_fourier_tol(d);  return r_; }
static double cpp_xrtm_get_fourier_tol(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_fourier_tol(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_lambda_f77_(void *, double *, int *);
static int f77_xrtm_set_lambda(xrtm_data *d, double lambda) { int e_ = -4321;  xrtm_set_lambda_f77_(d, &lambda, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_lambda(void *, double, int *);
static int f90_xrtm_set_lambda(xrtm_data *d, double lambda) { int e_ = -4321;  s90_xrtm_set_lambda(d, lambda, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_lambda(xrtm_data *d, double lambda) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_lambda(lambda); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_lambda_f77_(void *);
static double f77_xrtm_get_lambda(xrtm_data *d) {  double r_ = xrtm_get_lambda_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_lambda(void *);
static double f90_xrtm_get_lambda(xrtm_data *d) {  double r_ = s90_xrtm_get_lambda(d);  return r_; }
static double cpp_xrtm_get_lambda(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_lambda(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_planet_r_f77_(void *, double *, int *);
static int f77_xrtm_set_planet_r(xrtm_data *d, double planet_r) { int e_ = -4321;  xrtm_set_planet_r_f77_(d, &planet_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_planet_r(void *, double, int *);
static int f90_xrtm_set_planet_r(xrtm_data *d, double planet_r) { int e_ = -4321;  s90_xrtm_set_planet_r(d, planet_r, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_planet_r(xrtm_data *d, double planet_r) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_planet_r(planet_r); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_planet_r_f77_(void *);
static double f77_xrtm_get_planet_r(xrtm_data *d) {  double r_ = xrtm_get_planet_r_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_planet_r(void *);
static double f90_xrtm_get_planet_r(xrtm_data *d) {  double r_ = s90_xrtm_get_planet_r(d);  return r_; }
static double cpp_xrtm_get_planet_r(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_planet_r(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_levels_z_f77_(void *, double *, int *);
static int f77_xrtm_set_levels_z(xrtm_data *d, double *levels_z) { int e_ = -4321; Flat<double, 1> levels_z_(levels_z, {bm.nl + 1}, 0); xrtm_set_levels_z_f77_(d, levels_z_.p, &e_); levels_z_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_levels_z(void *, double *, int, int *);
static int f90_xrtm_set_levels_z(xrtm_data *d, double *levels_z) { int e_ = -4321; Flat<double, 1> levels_z_(levels_z, {bm.nl + 1}, 0); s90_xrtm_set_levels_z(d, levels_z_.p, levels_z_.n[0], &e_); levels_z_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_levels_z(xrtm_data *d, double *levels_z) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_levels_z(levels_z); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_levels_z_f77_(void *, double *, int *);
static int f77_xrtm_get_levels_z(xrtm_data *d, double *levels_z) { int e_ = -4321; Flat<double, 1> levels_z_(levels_z, {bm.nl + 1}, 1); xrtm_get_levels_z_f77_(d, levels_z_.p, &e_); levels_z_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_levels_z(void *, double *, int, int *);
static int f90_xrtm_get_levels_z(xrtm_data *d, double *levels_z) { int e_ = -4321; Flat<double, 1> levels_z_(levels_z, {bm.nl + 1}, 1); s90_xrtm_get_levels_z(d, levels_z_.p, levels_z_.n[0], &e_); levels_z_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_levels_z(xrtm_data *d, double *levels_z) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_levels_z(levels_z); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_out_levels_f77_(void *, int *, int *);
static int f77_xrtm_set_out_levels(xrtm_data *d, int *out_levels) { int e_ = -4321; Flat<int, 1> out_levels_(out_levels, {bm.no}, 0); xrtm_set_out_levels_f77_(d, out_levels_.p, &e_); out_levels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_out_levels(void *, int *, int, int *);
static int f90_xrtm_set_out_levels(xrtm_data *d, int *out_levels) { int e_ = -4321; Flat<int, 1> out_levels_(out_levels, {bm.no}, 0); s90_xrtm_set_out_levels(d, out_levels_.p, out_levels_.n[0], &e_); out_levels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_out_levels(xrtm_data *d, int *out_levels) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_out_levels(out_levels); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_out_levels_f77_(void *, int *, int *);
static int f77_xrtm_get_out_levels(xrtm_data *d, int *out_levels) { int e_ = -4321; Flat<int, 1> out_levels_(out_levels, {bm.no}, 1); xrtm_get_out_levels_f77_(d, out_levels_.p, &e_); out_levels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_out_levels(void *, int *, int, int *);
static int f90_xrtm_get_out_levels(xrtm_data *d, int *out_levels) { int e_ = -4321; Flat<int, 1> out_levels_(out_levels, {bm.no}, 1); s90_xrtm_get_out_levels(d, out_levels_.p, out_levels_.n[0], &e_); out_levels_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_out_levels(xrtm_data *d, int *out_levels) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_out_levels(out_levels); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_out_taus_f77_(void *, double *, int *);
static int f77_xrtm_set_out_taus(xrtm_data *d, double *out_taus) { int e_ = -4321; Flat<double, 1> out_taus_(out_taus, {bm.no}, 0); xrtm_set_out_taus_f77_(d, out_taus_.p, &e_); out_taus_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_out_taus(void *, double *, int, int *);
static int f90_xrtm_set_out_taus(xrtm_data *d, double *out_taus) { int e_ = -4321; Flat<double, 1> out_taus_(out_taus, {bm.no}, 0); s90_xrtm_set_out_taus(d, out_taus_.p, out_taus_.n[0], &e_); out_taus_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_out_taus(xrtm_data *d, double *out_taus) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_out_taus(out_taus); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_out_taus_f77_(void *, double *, int *);
static int f77_xrtm_get_out_taus(xrtm_data *d, double *out_taus) { int e_ = -4321; Flat<double, 1> out_taus_(out_taus, {bm.no}, 1); xrtm_get_out_taus_f77_(d, out_taus_.p, &e_); out_taus_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_out_taus(void *, double *, int, int *);
static int f90_xrtm_get_out_taus(xrtm_data *d, double *out_taus) { int e_ = -4321; Flat<double, 1> out_taus_(out_taus, {bm.no}, 1); s90_xrtm_get_out_taus(d, out_taus_.p, out_taus_.n[0], &e_); out_taus_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_out_taus(xrtm_data *d, double *out_taus) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_out_taus(out_taus); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_out_thetas_f77_(void *, double *, int *);
static int f77_xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) { int e_ = -4321; Flat<double, 1> out_thetas_(out_thetas, {bm.nt}, 0); xrtm_set_out_thetas_f77_(d, out_thetas_.p, &e_); out_thetas_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_out_thetas(void *, double *, int, int *);
static int f90_xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) { int e_ = -4321; Flat<double, 1> out_thetas_(out_thetas, {bm.nt}, 0); s90_xrtm_set_out_thetas(d, out_thetas_.p, out_thetas_.n[0], &e_); out_thetas_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_out_thetas(xrtm_data *d, double *out_thetas) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_out_thetas(out_thetas); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_out_thetas_f77_(void *, double *, int *);
static int f77_xrtm_get_out_thetas(xrtm_data *d, double *out_thetas) { int e_ = -4321; Flat<double, 1> out_thetas_(out_thetas, {bm.nt}, 1); xrtm_get_out_thetas_f77_(d, out_thetas_.p, &e_); out_thetas_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_out_thetas(void *, double *, int, int *);
static int f90_xrtm_get_out_thetas(xrtm_data *d, double *out_thetas) { int e_ = -4321; Flat<double, 1> out_thetas_(out_thetas, {bm.nt}, 1); s90_xrtm_get_out_thetas(d, out_thetas_.p, out_thetas_.n[0], &e_); out_thetas_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_out_thetas(xrtm_data *d, double *out_thetas) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_out_thetas(out_thetas); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_f_iso_top_f77_(void *, double *, int *);
static int f77_xrtm_set_F_iso_top(xrtm_data *d, double F_iso_top) { int e_ = -4321;  xrtm_set_f_iso_top_f77_(d, &F_iso_top, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_top(void *, double, int *);
static int f90_xrtm_set_F_iso_top(xrtm_data *d, double F_iso_top) { int e_ = -4321;  s90_xrtm_set_f_iso_top(d, F_iso_top, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_top(xrtm_data *d, double F_iso_top) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_top(F_iso_top); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_f_iso_top_f77_(void *);
static double f77_xrtm_get_F_iso_top(xrtm_data *d) {  double r_ = xrtm_get_f_iso_top_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_f_iso_top(void *);
static double f90_xrtm_get_F_iso_top(xrtm_data *d) {  double r_ = s90_xrtm_get_f_iso_top(d);  return r_; }
static double cpp_xrtm_get_F_iso_top(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_F_iso_top(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_f_iso_top_l_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_F_iso_top_l_1(xrtm_data *d, int i_deriv, double F_iso_top_l) { int e_ = -4321;  xrtm_set_f_iso_top_l_1_f77_(d, &i_deriv, &F_iso_top_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_top_l_1(void *, int, double, int *);
static int f90_xrtm_set_F_iso_top_l_1(xrtm_data *d, int i_deriv, double F_iso_top_l) { int e_ = -4321;  s90_xrtm_set_f_iso_top_l_1(d, i_deriv, F_iso_top_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_top_l_1(xrtm_data *d, int i_deriv, double F_iso_top_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_top_l_1(i_deriv, F_iso_top_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_f_iso_top_l_n_f77_(void *, double *, int *);
static int f77_xrtm_set_F_iso_top_l_n(xrtm_data *d, double *F_iso_top_l) { int e_ = -4321; Flat<double, 1> F_iso_top_l_(F_iso_top_l, {bm.nd}, 0); xrtm_set_f_iso_top_l_n_f77_(d, F_iso_top_l_.p, &e_); F_iso_top_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_top_l_n(void *, double *, int, int *);
static int f90_xrtm_set_F_iso_top_l_n(xrtm_data *d, double *F_iso_top_l) { int e_ = -4321; Flat<double, 1> F_iso_top_l_(F_iso_top_l, {bm.nd}, 0); s90_xrtm_set_f_iso_top_l_n(d, F_iso_top_l_.p, F_iso_top_l_.n[0], &e_); F_iso_top_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_top_l_n(xrtm_data *d, double *F_iso_top_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_top_l_n(F_iso_top_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_f_iso_top_l_f77_(void *, int *);
static double f77_xrtm_get_F_iso_top_l(xrtm_data *d, int i_deriv) {  double r_ = xrtm_get_f_iso_top_l_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_f_iso_top_l(void *, int);
static double f90_xrtm_get_F_iso_top_l(xrtm_data *d, int i_deriv) {  double r_ = s90_xrtm_get_f_iso_top_l(d, i_deriv);  return r_; }
static double cpp_xrtm_get_F_iso_top_l(xrtm_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_F_iso_top_l(i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_f_iso_bot_f77_(void *, double *, int *);
static int f77_xrtm_set_F_iso_bot(xrtm_data *d, double F_iso_bot) { int e_ = -4321;  xrtm_set_f_iso_bot_f77_(d, &F_iso_bot, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_bot(void *, double, int *);
static int f90_xrtm_set_F_iso_bot(xrtm_data *d, double F_iso_bot) { int e_ = -4321;  s90_xrtm_set_f_iso_bot(d, F_iso_bot, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_bot(xrtm_data *d, double F_iso_bot) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_bot(F_iso_bot); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_f_iso_bot_f77_(void *);
static double f77_xrtm_get_F_iso_bot(xrtm_data *d) {  double r_ = xrtm_get_f_iso_bot_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_f_iso_bot(void *);
static double f90_xrtm_get_F_iso_bot(xrtm_data *d) {  double r_ = s90_xrtm_get_f_iso_bot(d);  return r_; }
static double cpp_xrtm_get_F_iso_bot(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_F_iso_bot(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_f_iso_bot_l_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_F_iso_bot_l_1(xrtm_data *d, int i_deriv, double F_iso_bot_l) { int e_ = -4321;  xrtm_set_f_iso_bot_l_1_f77_(d, &i_deriv, &F_iso_bot_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_bot_l_1(void *, int, double, int *);
static int f90_xrtm_set_F_iso_bot_l_1(xrtm_data *d, int i_deriv, double F_iso_bot_l) { int e_ = -4321;  s90_xrtm_set_f_iso_bot_l_1(d, i_deriv, F_iso_bot_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_bot_l_1(xrtm_data *d, int i_deriv, double F_iso_bot_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_bot_l_1(i_deriv, F_iso_bot_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_f_iso_bot_l_n_f77_(void *, double *, int *);
static int f77_xrtm_set_F_iso_bot_l_n(xrtm_data *d, double *F_iso_bot_l) { int e_ = -4321; Flat<double, 1> F_iso_bot_l_(F_iso_bot_l, {bm.nd}, 0); xrtm_set_f_iso_bot_l_n_f77_(d, F_iso_bot_l_.p, &e_); F_iso_bot_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_iso_bot_l_n(void *, double *, int, int *);
static int f90_xrtm_set_F_iso_bot_l_n(xrtm_data *d, double *F_iso_bot_l) { int e_ = -4321; Flat<double, 1> F_iso_bot_l_(F_iso_bot_l, {bm.nd}, 0); s90_xrtm_set_f_iso_bot_l_n(d, F_iso_bot_l_.p, F_iso_bot_l_.n[0], &e_); F_iso_bot_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_iso_bot_l_n(xrtm_data *d, double *F_iso_bot_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_iso_bot_l_n(F_iso_bot_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_f_iso_bot_l_f77_(void *, int *);
static double f77_xrtm_get_F_iso_bot_l(xrtm_data *d, int i_deriv) {  double r_ = xrtm_get_f_iso_bot_l_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_f_iso_bot_l(void *, int);
static double f90_xrtm_get_F_iso_bot_l(xrtm_data *d, int i_deriv) {  double r_ = s90_xrtm_get_f_iso_bot_l(d, i_deriv);  return r_; }
static double cpp_xrtm_get_F_iso_bot_l(xrtm_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_F_iso_bot_l(i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_f_0_f77_(void *, double *, int *);
static int f77_xrtm_set_F_0(xrtm_data *d, double F_0) { int e_ = -4321;  xrtm_set_f_0_f77_(d, &F_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_f_0(void *, double, int *);
static int f90_xrtm_set_F_0(xrtm_data *d, double F_0) { int e_ = -4321;  s90_xrtm_set_f_0(d, F_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_F_0(xrtm_data *d, double F_0) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_F_0(F_0); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_f_0_f77_(void *);
static double f77_xrtm_get_F_0(xrtm_data *d) {  double r_ = xrtm_get_f_0_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_f_0(void *);
static double f90_xrtm_get_F_0(xrtm_data *d) {  double r_ = s90_xrtm_get_f_0(d);  return r_; }
static double cpp_xrtm_get_F_0(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_F_0(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_theta_0_f77_(void *, double *, int *);
static int f77_xrtm_set_theta_0(xrtm_data *d, double theta_0) { int e_ = -4321;  xrtm_set_theta_0_f77_(d, &theta_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_theta_0(void *, double, int *);
static int f90_xrtm_set_theta_0(xrtm_data *d, double theta_0) { int e_ = -4321;  s90_xrtm_set_theta_0(d, theta_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_theta_0(xrtm_data *d, double theta_0) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_theta_0(theta_0); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_theta_0_f77_(void *);
static double f77_xrtm_get_theta_0(xrtm_data *d) {  double r_ = xrtm_get_theta_0_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_theta_0(void *);
static double f90_xrtm_get_theta_0(xrtm_data *d) {  double r_ = s90_xrtm_get_theta_0(d);  return r_; }
static double cpp_xrtm_get_theta_0(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_theta_0(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_phi_0_f77_(void *, double *, int *);
static int f77_xrtm_set_phi_0(xrtm_data *d, double phi_0) { int e_ = -4321;  xrtm_set_phi_0_f77_(d, &phi_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_phi_0(void *, double, int *);
static int f90_xrtm_set_phi_0(xrtm_data *d, double phi_0) { int e_ = -4321;  s90_xrtm_set_phi_0(d, phi_0, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_phi_0(xrtm_data *d, double phi_0) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_phi_0(phi_0); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_phi_0_f77_(void *);
static double f77_xrtm_get_phi_0(xrtm_data *d) {  double r_ = xrtm_get_phi_0_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_phi_0(void *);
static double f90_xrtm_get_phi_0(xrtm_data *d) {  double r_ = s90_xrtm_get_phi_0(d);  return r_; }
static double cpp_xrtm_get_phi_0(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_phi_0(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_levels_b_f77_(void *, double *, int *);
static int f77_xrtm_set_levels_b(xrtm_data *d, double *levels_b) { int e_ = -4321; Flat<double, 1> levels_b_(levels_b, {bm.nl + 1}, 0); xrtm_set_levels_b_f77_(d, levels_b_.p, &e_); levels_b_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_levels_b(void *, double *, int, int *);
static int f90_xrtm_set_levels_b(xrtm_data *d, double *levels_b) { int e_ = -4321; Flat<double, 1> levels_b_(levels_b, {bm.nl + 1}, 0); s90_xrtm_set_levels_b(d, levels_b_.p, levels_b_.n[0], &e_); levels_b_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_levels_b(xrtm_data *d, double *levels_b) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_levels_b(levels_b); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_levels_b_f77_(void *, double *, int *);
static int f77_xrtm_get_levels_b(xrtm_data *d, double *levels_b) { int e_ = -4321; Flat<double, 1> levels_b_(levels_b, {bm.nl + 1}, 1); xrtm_get_levels_b_f77_(d, levels_b_.p, &e_); levels_b_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_levels_b(void *, double *, int, int *);
static int f90_xrtm_get_levels_b(xrtm_data *d, double *levels_b) { int e_ = -4321; Flat<double, 1> levels_b_(levels_b, {bm.nl + 1}, 1); s90_xrtm_get_levels_b(d, levels_b_.p, levels_b_.n[0], &e_); levels_b_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_levels_b(xrtm_data *d, double *levels_b) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_levels_b(levels_b); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_levels_b_l_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 0); xrtm_set_levels_b_l_1_f77_(d, &i_deriv, levels_b_l_.p, &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_levels_b_l_1(void *, int, double *, int, int *);
static int f90_xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 0); s90_xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l_.p, levels_b_l_.n[0], &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_levels_b_l_1(xrtm_data *d, int i_deriv, double *levels_b_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_levels_b_l_1(i_deriv, levels_b_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_levels_b_l_n_f77_(void *, double *, int *);
static int f77_xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) { int e_ = -4321; Flat<double, 2> levels_b_l_(levels_b_l, {bm.nl + 1, bm.nd}, 0); xrtm_set_levels_b_l_n_f77_(d, levels_b_l_.p, &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_levels_b_l_n(void *, double *, int, int, int *);
static int f90_xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) { int e_ = -4321; Flat<double, 2> levels_b_l_(levels_b_l, {bm.nl + 1, bm.nd}, 0); s90_xrtm_set_levels_b_l_n(d, levels_b_l_.p, levels_b_l_.n[1], levels_b_l_.n[0], &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_levels_b_l_n(xrtm_data *d, double **levels_b_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_levels_b_l_n(levels_b_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_get_levels_b_l_f77_(void *, int *, double *, int *);
static int f77_xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 1); xrtm_get_levels_b_l_f77_(d, &i_deriv, levels_b_l_.p, &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_get_levels_b_l(void *, int, double *, int, int *);
static int f90_xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 1); s90_xrtm_get_levels_b_l(d, i_deriv, levels_b_l_.p, levels_b_l_.n[0], &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_get_levels_b_l(xrtm_data *d, int i_deriv, double *levels_b_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->get_levels_b_l(i_deriv, levels_b_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_surface_b_f77_(void *, double *, int *);
static int f77_xrtm_set_surface_b(xrtm_data *d, double surface_b) { int e_ = -4321;  xrtm_set_surface_b_f77_(d, &surface_b, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_surface_b(void *, double, int *);
static int f90_xrtm_set_surface_b(xrtm_data *d, double surface_b) { int e_ = -4321;  s90_xrtm_set_surface_b(d, surface_b, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_surface_b(xrtm_data *d, double surface_b) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_surface_b(surface_b); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_surface_b_f77_(void *);
static double f77_xrtm_get_surface_b(xrtm_data *d) {  double r_ = xrtm_get_surface_b_f77_(d);  return r_; }
extern "C" double s90_xrtm_get_surface_b(void *);
static double f90_xrtm_get_surface_b(xrtm_data *d) {  double r_ = s90_xrtm_get_surface_b(d);  return r_; }
static double cpp_xrtm_get_surface_b(xrtm_data *d) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_surface_b(); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_surface_b_l_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l) { int e_ = -4321;  xrtm_set_surface_b_l_1_f77_(d, &i_deriv, &surface_b_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_surface_b_l_1(void *, int, double, int *);
static int f90_xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l) { int e_ = -4321;  s90_xrtm_set_surface_b_l_1(d, i_deriv, surface_b_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_surface_b_l_1(xrtm_data *d, int i_deriv, double surface_b_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_surface_b_l_1(i_deriv, surface_b_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_surface_b_l_n_f77_(void *, double *, int *);
static int f77_xrtm_set_surface_b_l_n(xrtm_data *d, double *surface_b_l) { int e_ = -4321; Flat<double, 1> surface_b_l_(surface_b_l, {bm.nd}, 0); xrtm_set_surface_b_l_n_f77_(d, surface_b_l_.p, &e_); surface_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_surface_b_l_n(void *, double *, int, int *);
static int f90_xrtm_set_surface_b_l_n(xrtm_data *d, double *surface_b_l) { int e_ = -4321; Flat<double, 1> surface_b_l_(surface_b_l, {bm.nd}, 0); s90_xrtm_set_surface_b_l_n(d, surface_b_l_.p, surface_b_l_.n[0], &e_); surface_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_surface_b_l_n(xrtm_data *d, double *surface_b_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_surface_b_l_n(surface_b_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_surface_b_l_f77_(void *, int *);
static double f77_xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {  double r_ = xrtm_get_surface_b_l_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_surface_b_l(void *, int);
static double f90_xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) {  double r_ = s90_xrtm_get_surface_b_l(d, i_deriv);  return r_; }
static double cpp_xrtm_get_surface_b_l(xrtm_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_surface_b_l(i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_g_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_g_1(xrtm_data *d, int i_layer, double g) { int e_ = -4321;  xrtm_set_g_1_f77_(d, &i_layer, &g, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_1(void *, int, double, int *);
static int f90_xrtm_set_g_1(xrtm_data *d, int i_layer, double g) { int e_ = -4321;  s90_xrtm_set_g_1(d, i_layer, g, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_1(xrtm_data *d, int i_layer, double g) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_1(i_layer, g); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_g_n_f77_(void *, double *, int *);
static int f77_xrtm_set_g_n(xrtm_data *d, double *g) { int e_ = -4321; Flat<double, 1> g_(g, {bm.nl}, 0); xrtm_set_g_n_f77_(d, g_.p, &e_); g_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_n(void *, double *, int, int *);
static int f90_xrtm_set_g_n(xrtm_data *d, double *g) { int e_ = -4321; Flat<double, 1> g_(g, {bm.nl}, 0); s90_xrtm_set_g_n(d, g_.p, g_.n[0], &e_); g_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_n(xrtm_data *d, double *g) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_n(g); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_g_f77_(void *, int *);
static double f77_xrtm_get_g(xrtm_data *d, int i_layer) {  double r_ = xrtm_get_g_f77_(d, &i_layer);  return r_; }
extern "C" double s90_xrtm_get_g(void *, int);
static double f90_xrtm_get_g(xrtm_data *d, int i_layer) {  double r_ = s90_xrtm_get_g(d, i_layer);  return r_; }
static double cpp_xrtm_get_g(xrtm_data *d, int i_layer) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_g(i_layer); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_g_l_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) { int e_ = -4321;  xrtm_set_g_l_11_f77_(d, &i_layer, &i_deriv, &g_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_l_11(void *, int, int, double, int *);
static int f90_xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) { int e_ = -4321;  s90_xrtm_set_g_l_11(d, i_layer, i_deriv, g_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_l_11(xrtm_data *d, int i_layer, int i_deriv, double g_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_l_11(i_layer, i_deriv, g_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_g_l_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nl}, 0); xrtm_set_g_l_n1_f77_(d, &i_deriv, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_l_n1(void *, int, double *, int, int *);
static int f90_xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nl}, 0); s90_xrtm_set_g_l_n1(d, i_deriv, g_l_.p, g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_l_n1(xrtm_data *d, int i_deriv, double *g_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_l_n1(i_deriv, g_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_g_l_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_g_l_1n(xrtm_data *d, int i_layer, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nd}, 0); xrtm_set_g_l_1n_f77_(d, &i_layer, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_l_1n(void *, int, double *, int, int *);
static int f90_xrtm_set_g_l_1n(xrtm_data *d, int i_layer, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nd}, 0); s90_xrtm_set_g_l_1n(d, i_layer, g_l_.p, g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_l_1n(xrtm_data *d, int i_layer, double *g_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_l_1n(i_layer, g_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_g_l_nn_f77_(void *, double *, int *);
static int f77_xrtm_set_g_l_nn(xrtm_data *d, double **g_l) { int e_ = -4321; Flat<double, 2> g_l_(g_l, {bm.nl, bm.nd}, 0); xrtm_set_g_l_nn_f77_(d, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_g_l_nn(void *, double *, int, int, int *);
static int f90_xrtm_set_g_l_nn(xrtm_data *d, double **g_l) { int e_ = -4321; Flat<double, 2> g_l_(g_l, {bm.nl, bm.nd}, 0); s90_xrtm_set_g_l_nn(d, g_l_.p, g_l_.n[1], g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_g_l_nn(xrtm_data *d, double **g_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_g_l_nn(g_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_g_l_f77_(void *, int *, int *);
static double f77_xrtm_get_g_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_get_g_l_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_g_l(void *, int, int);
static double f90_xrtm_get_g_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_get_g_l(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_get_g_l(xrtm_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_g_l(i_layer, i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_coef_1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_coef_1(xrtm_data *d, int i_layer, int n_coef_layer, double **coef) { int e_ = -4321; Flat<double, 2> coef_(coef, {bm.ne, (n_coef_layer < 0 ? bm.mc : n_coef_layer)}, 0); xrtm_set_coef_1_f77_(d, &i_layer, &n_coef_layer, coef_.p, &e_); coef_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_1(void *, int, int, double *, int, int, int *);
static int f90_xrtm_set_coef_1(xrtm_data *d, int i_layer, int n_coef_layer, double **coef) { int e_ = -4321; Flat<double, 2> coef_(coef, {bm.ne, (n_coef_layer < 0 ? bm.mc : n_coef_layer)}, 0); s90_xrtm_set_coef_1(d, i_layer, n_coef_layer, coef_.p, coef_.n[1], coef_.n[0], &e_); coef_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_1(xrtm_data *d, int i_layer, int n_coef_layer, double **coef) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_1(i_layer, n_coef_layer, coef); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_coef_n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_coef_n(xrtm_data *d, int *n_coef_layer, double ***coef) { int e_ = -4321; Flat<int, 1> n_coef_layer_(n_coef_layer, {bm.nl}, 0); Flat<double, 3> coef_(coef, {bm.nl, bm.ne, bm.mc}, 0); xrtm_set_coef_n_f77_(d, n_coef_layer_.p, coef_.p, &e_); n_coef_layer_.back(); coef_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_n(void *, int *, int, double *, int, int, int, int *);
static int f90_xrtm_set_coef_n(xrtm_data *d, int *n_coef_layer, double ***coef) { int e_ = -4321; Flat<int, 1> n_coef_layer_(n_coef_layer, {bm.nl}, 0); Flat<double, 3> coef_(coef, {bm.nl, bm.ne, bm.mc}, 0); s90_xrtm_set_coef_n(d, n_coef_layer_.p, n_coef_layer_.n[0], coef_.p, coef_.n[2], coef_.n[1], coef_.n[0], &e_); n_coef_layer_.back(); coef_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_n(xrtm_data *d, int *n_coef_layer, double ***coef) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_n(n_coef_layer, coef); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_get_n_coef_f77_(void *, int *);
static int f77_xrtm_get_n_coef(xrtm_data *d, int i_layer) {  int r_ = xrtm_get_n_coef_f77_(d, &i_layer);  return r_; }
extern "C" int s90_xrtm_get_n_coef(void *, int);
static int f90_xrtm_get_n_coef(xrtm_data *d, int i_layer) {  int r_ = s90_xrtm_get_n_coef(d, i_layer);  return r_; }
static int cpp_xrtm_get_n_coef(xrtm_data *d, int i_layer) { CPP_TRY { return (int) (*(xrtm_int_cpp **) d)->get_n_coef(i_layer); } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_coef_f77_(void *, int *, int *, int *);
static double f77_xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {  double r_ = xrtm_get_coef_f77_(d, &i_layer, &i_elem, &i_coef);  return r_; }
extern "C" double s90_xrtm_get_coef(void *, int, int, int);
static double f90_xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) {  double r_ = s90_xrtm_get_coef(d, i_layer, i_elem, i_coef);  return r_; }
static double cpp_xrtm_get_coef(xrtm_data *d, int i_layer, int i_elem, int i_coef) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_coef(i_layer, i_elem, i_coef); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_coef_l_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l) { int e_ = -4321; Flat<double, 2> coef_l_(coef_l, {bm.ne, bm.nc(i_layer)}, 0); xrtm_set_coef_l_11_f77_(d, &i_layer, &i_deriv, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_l_11(void *, int, int, double *, int, int, int *);
static int f90_xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l) { int e_ = -4321; Flat<double, 2> coef_l_(coef_l, {bm.ne, bm.nc(i_layer)}, 0); s90_xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l_.p, coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_l_11(xrtm_data *d, int i_layer, int i_deriv, double **coef_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_l_11(i_layer, i_deriv, coef_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_coef_l_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nl, bm.ne, bm.mc}, 0); xrtm_set_coef_l_n1_f77_(d, &i_deriv, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_l_n1(void *, int, double *, int, int, int, int *);
static int f90_xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nl, bm.ne, bm.mc}, 0); s90_xrtm_set_coef_l_n1(d, i_deriv, coef_l_.p, coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_l_n1(xrtm_data *d, int i_deriv, double ***coef_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_l_n1(i_deriv, coef_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_coef_l_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_coef_l_1n(xrtm_data *d, int i_layer, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nd, bm.ne, bm.nc(i_layer)}, 0); xrtm_set_coef_l_1n_f77_(d, &i_layer, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_l_1n(void *, int, double *, int, int, int, int *);
static int f90_xrtm_set_coef_l_1n(xrtm_data *d, int i_layer, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nd, bm.ne, bm.nc(i_layer)}, 0); s90_xrtm_set_coef_l_1n(d, i_layer, coef_l_.p, coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_l_1n(xrtm_data *d, int i_layer, double ***coef_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_l_1n(i_layer, coef_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_coef_l_nn_f77_(void *, double *, int *);
static int f77_xrtm_set_coef_l_nn(xrtm_data *d, double ****coef_l) { int e_ = -4321; Flat<double, 4> coef_l_(coef_l, {bm.nl, bm.nd, bm.ne, bm.mc}, 0); xrtm_set_coef_l_nn_f77_(d, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_coef_l_nn(void *, double *, int, int, int, int, int *);
static int f90_xrtm_set_coef_l_nn(xrtm_data *d, double ****coef_l) { int e_ = -4321; Flat<double, 4> coef_l_(coef_l, {bm.nl, bm.nd, bm.ne, bm.mc}, 0); s90_xrtm_set_coef_l_nn(d, coef_l_.p, coef_l_.n[3], coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_coef_l_nn(xrtm_data *d, double ****coef_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_coef_l_nn(coef_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_coef_l_f77_(void *, int *, int *, int *, int *);
static double f77_xrtm_get_coef_l(xrtm_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) {  double r_ = xrtm_get_coef_l_f77_(d, &i_layer, &i_deriv, &i_elem, &i_coef);  return r_; }
extern "C" double s90_xrtm_get_coef_l(void *, int, int, int, int);
static double f90_xrtm_get_coef_l(xrtm_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) {  double r_ = s90_xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef);  return r_; }
static double cpp_xrtm_get_coef_l(xrtm_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_coef_l(i_layer, i_deriv, i_elem, i_coef); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_omega_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_omega_1(xrtm_data *d, int i_layer, double omega) { int e_ = -4321;  xrtm_set_omega_1_f77_(d, &i_layer, &omega, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_1(void *, int, double, int *);
static int f90_xrtm_set_omega_1(xrtm_data *d, int i_layer, double omega) { int e_ = -4321;  s90_xrtm_set_omega_1(d, i_layer, omega, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_1(xrtm_data *d, int i_layer, double omega) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_1(i_layer, omega); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_omega_n_f77_(void *, double *, int *);
static int f77_xrtm_set_omega_n(xrtm_data *d, double *omega) { int e_ = -4321; Flat<double, 1> omega_(omega, {bm.nl}, 0); xrtm_set_omega_n_f77_(d, omega_.p, &e_); omega_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_n(void *, double *, int, int *);
static int f90_xrtm_set_omega_n(xrtm_data *d, double *omega) { int e_ = -4321; Flat<double, 1> omega_(omega, {bm.nl}, 0); s90_xrtm_set_omega_n(d, omega_.p, omega_.n[0], &e_); omega_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_n(xrtm_data *d, double *omega) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_n(omega); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_omega_f77_(void *, int *);
static double f77_xrtm_get_omega(xrtm_data *d, int i_layer) {  double r_ = xrtm_get_omega_f77_(d, &i_layer);  return r_; }
extern "C" double s90_xrtm_get_omega(void *, int);
static double f90_xrtm_get_omega(xrtm_data *d, int i_layer) {  double r_ = s90_xrtm_get_omega(d, i_layer);  return r_; }
static double cpp_xrtm_get_omega(xrtm_data *d, int i_layer) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_omega(i_layer); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_omega_l_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l) { int e_ = -4321;  xrtm_set_omega_l_11_f77_(d, &i_layer, &i_deriv, &omega_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_l_11(void *, int, int, double, int *);
static int f90_xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l) { int e_ = -4321;  s90_xrtm_set_omega_l_11(d, i_layer, i_deriv, omega_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_l_11(xrtm_data *d, int i_layer, int i_deriv, double omega_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_l_11(i_layer, i_deriv, omega_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_omega_l_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nl}, 0); xrtm_set_omega_l_n1_f77_(d, &i_deriv, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_l_n1(void *, int, double *, int, int *);
static int f90_xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nl}, 0); s90_xrtm_set_omega_l_n1(d, i_deriv, omega_l_.p, omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_l_n1(xrtm_data *d, int i_deriv, double *omega_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_l_n1(i_deriv, omega_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_omega_l_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_omega_l_1n(xrtm_data *d, int i_layer, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nd}, 0); xrtm_set_omega_l_1n_f77_(d, &i_layer, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_l_1n(void *, int, double *, int, int *);
static int f90_xrtm_set_omega_l_1n(xrtm_data *d, int i_layer, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nd}, 0); s90_xrtm_set_omega_l_1n(d, i_layer, omega_l_.p, omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_l_1n(xrtm_data *d, int i_layer, double *omega_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_l_1n(i_layer, omega_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_omega_l_nn_f77_(void *, double *, int *);
static int f77_xrtm_set_omega_l_nn(xrtm_data *d, double **omega_l) { int e_ = -4321; Flat<double, 2> omega_l_(omega_l, {bm.nl, bm.nd}, 0); xrtm_set_omega_l_nn_f77_(d, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_omega_l_nn(void *, double *, int, int, int *);
static int f90_xrtm_set_omega_l_nn(xrtm_data *d, double **omega_l) { int e_ = -4321; Flat<double, 2> omega_l_(omega_l, {bm.nl, bm.nd}, 0); s90_xrtm_set_omega_l_nn(d, omega_l_.p, omega_l_.n[1], omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_omega_l_nn(xrtm_data *d, double **omega_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_omega_l_nn(omega_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_omega_l_f77_(void *, int *, int *);
static double f77_xrtm_get_omega_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_get_omega_l_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_omega_l(void *, int, int);
static double f90_xrtm_get_omega_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_get_omega_l(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_get_omega_l(xrtm_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_omega_l(i_layer, i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_ltau_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_ltau_1(xrtm_data *d, int i_layer, double ltau) { int e_ = -4321;  xrtm_set_ltau_1_f77_(d, &i_layer, &ltau, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_1(void *, int, double, int *);
static int f90_xrtm_set_ltau_1(xrtm_data *d, int i_layer, double ltau) { int e_ = -4321;  s90_xrtm_set_ltau_1(d, i_layer, ltau, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_1(xrtm_data *d, int i_layer, double ltau) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_1(i_layer, ltau); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_ltau_n_f77_(void *, double *, int *);
static int f77_xrtm_set_ltau_n(xrtm_data *d, double *ltau) { int e_ = -4321; Flat<double, 1> ltau_(ltau, {bm.nl}, 0); xrtm_set_ltau_n_f77_(d, ltau_.p, &e_); ltau_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_n(void *, double *, int, int *);
static int f90_xrtm_set_ltau_n(xrtm_data *d, double *ltau) { int e_ = -4321; Flat<double, 1> ltau_(ltau, {bm.nl}, 0); s90_xrtm_set_ltau_n(d, ltau_.p, ltau_.n[0], &e_); ltau_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_n(xrtm_data *d, double *ltau) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_n(ltau); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_ltau_f77_(void *, int *);
static double f77_xrtm_get_ltau(xrtm_data *d, int i_layer) {  double r_ = xrtm_get_ltau_f77_(d, &i_layer);  return r_; }
extern "C" double s90_xrtm_get_ltau(void *, int);
static double f90_xrtm_get_ltau(xrtm_data *d, int i_layer) {  double r_ = s90_xrtm_get_ltau(d, i_layer);  return r_; }
static double cpp_xrtm_get_ltau(xrtm_data *d, int i_layer) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_ltau(i_layer); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_ltau_l_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) { int e_ = -4321;  xrtm_set_ltau_l_11_f77_(d, &i_layer, &i_deriv, &ltau_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_l_11(void *, int, int, double, int *);
static int f90_xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) { int e_ = -4321;  s90_xrtm_set_ltau_l_11(d, i_layer, i_deriv, ltau_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_l_11(xrtm_data *d, int i_layer, int i_deriv, double ltau_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_l_11(i_layer, i_deriv, ltau_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_ltau_l_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nl}, 0); xrtm_set_ltau_l_n1_f77_(d, &i_deriv, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_l_n1(void *, int, double *, int, int *);
static int f90_xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nl}, 0); s90_xrtm_set_ltau_l_n1(d, i_deriv, ltau_l_.p, ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_l_n1(xrtm_data *d, int i_deriv, double *ltau_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_l_n1(i_deriv, ltau_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_ltau_l_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_ltau_l_1n(xrtm_data *d, int i_layer, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nd}, 0); xrtm_set_ltau_l_1n_f77_(d, &i_layer, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_l_1n(void *, int, double *, int, int *);
static int f90_xrtm_set_ltau_l_1n(xrtm_data *d, int i_layer, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nd}, 0); s90_xrtm_set_ltau_l_1n(d, i_layer, ltau_l_.p, ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_l_1n(xrtm_data *d, int i_layer, double *ltau_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_l_1n(i_layer, ltau_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_ltau_l_nn_f77_(void *, double *, int *);
static int f77_xrtm_set_ltau_l_nn(xrtm_data *d, double **ltau_l) { int e_ = -4321; Flat<double, 2> ltau_l_(ltau_l, {bm.nl, bm.nd}, 0); xrtm_set_ltau_l_nn_f77_(d, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_ltau_l_nn(void *, double *, int, int, int *);
static int f90_xrtm_set_ltau_l_nn(xrtm_data *d, double **ltau_l) { int e_ = -4321; Flat<double, 2> ltau_l_(ltau_l, {bm.nl, bm.nd}, 0); s90_xrtm_set_ltau_l_nn(d, ltau_l_.p, ltau_l_.n[1], ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_ltau_l_nn(xrtm_data *d, double **ltau_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_ltau_l_nn(ltau_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_ltau_l_f77_(void *, int *, int *);
static double f77_xrtm_get_ltau_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_get_ltau_l_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_ltau_l(void *, int, int);
static double f90_xrtm_get_ltau_l(xrtm_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_get_ltau_l(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_get_ltau_l(xrtm_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_ltau_l(i_layer, i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_kernel_ampfac_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_kernel_ampfac(xrtm_data *d, int i_kernel, double ampfac) { int e_ = -4321;  xrtm_set_kernel_ampfac_f77_(d, &i_kernel, &ampfac, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_ampfac(void *, int, double, int *);
static int f90_xrtm_set_kernel_ampfac(xrtm_data *d, int i_kernel, double ampfac) { int e_ = -4321;  s90_xrtm_set_kernel_ampfac(d, i_kernel, ampfac, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_ampfac(xrtm_data *d, int i_kernel, double ampfac) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_ampfac(i_kernel, ampfac); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_kernel_ampfac_f77_(void *, int *);
static double f77_xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {  double r_ = xrtm_get_kernel_ampfac_f77_(d, &i_kernel);  return r_; }
extern "C" double s90_xrtm_get_kernel_ampfac(void *, int);
static double f90_xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) {  double r_ = s90_xrtm_get_kernel_ampfac(d, i_kernel);  return r_; }
static double cpp_xrtm_get_kernel_ampfac(xrtm_data *d, int i_kernel) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_kernel_ampfac(i_kernel); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_kernel_params_1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_1(xrtm_data *d, int i_kernel, int i_param, double param) { int e_ = -4321;  xrtm_set_kernel_params_1_f77_(d, &i_kernel, &i_param, &param, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_1(void *, int, int, double, int *);
static int f90_xrtm_set_kernel_params_1(xrtm_data *d, int i_kernel, int i_param, double param) { int e_ = -4321;  s90_xrtm_set_kernel_params_1(d, i_kernel, i_param, param, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_1(xrtm_data *d, int i_kernel, int i_param, double param) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_1(i_kernel, i_param, param); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_kernel_params_n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_n(xrtm_data *d, int i_kernel, double *params) { int e_ = -4321; Flat<double, 1> params_(params, {bm.np(i_kernel)}, 0); xrtm_set_kernel_params_n_f77_(d, &i_kernel, params_.p, &e_); params_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_n(void *, int, double *, int, int *);
static int f90_xrtm_set_kernel_params_n(xrtm_data *d, int i_kernel, double *params) { int e_ = -4321; Flat<double, 1> params_(params, {bm.np(i_kernel)}, 0); s90_xrtm_set_kernel_params_n(d, i_kernel, params_.p, params_.n[0], &e_); params_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_n(xrtm_data *d, int i_kernel, double *params) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_n(i_kernel, params); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_kernel_params_f77_(void *, int *, int *);
static double f77_xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {  double r_ = xrtm_get_kernel_params_f77_(d, &i_kernel, &i_param);  return r_; }
extern "C" double s90_xrtm_get_kernel_params(void *, int, int);
static double f90_xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) {  double r_ = s90_xrtm_get_kernel_params(d, i_kernel, i_param);  return r_; }
static double cpp_xrtm_get_kernel_params(xrtm_data *d, int i_kernel, int i_param) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_kernel_params(i_kernel, i_param); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_kernel_ampfac_l_1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_kernel_ampfac_l_1(xrtm_data *d, int i_kernel, int i_deriv, double ampfac_l) { int e_ = -4321;  xrtm_set_kernel_ampfac_l_1_f77_(d, &i_kernel, &i_deriv, &ampfac_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_ampfac_l_1(void *, int, int, double, int *);
static int f90_xrtm_set_kernel_ampfac_l_1(xrtm_data *d, int i_kernel, int i_deriv, double ampfac_l) { int e_ = -4321;  s90_xrtm_set_kernel_ampfac_l_1(d, i_kernel, i_deriv, ampfac_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_ampfac_l_1(xrtm_data *d, int i_kernel, int i_deriv, double ampfac_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_ampfac_l_1(i_kernel, i_deriv, ampfac_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_kernel_ampfac_l_n_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_kernel_ampfac_l_n(xrtm_data *d, int i_kernel, double *ampfac_l) { int e_ = -4321; Flat<double, 1> ampfac_l_(ampfac_l, {bm.nd}, 0); xrtm_set_kernel_ampfac_l_n_f77_(d, &i_kernel, ampfac_l_.p, &e_); ampfac_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_ampfac_l_n(void *, int, double *, int, int *);
static int f90_xrtm_set_kernel_ampfac_l_n(xrtm_data *d, int i_kernel, double *ampfac_l) { int e_ = -4321; Flat<double, 1> ampfac_l_(ampfac_l, {bm.nd}, 0); s90_xrtm_set_kernel_ampfac_l_n(d, i_kernel, ampfac_l_.p, ampfac_l_.n[0], &e_); ampfac_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_ampfac_l_n(xrtm_data *d, int i_kernel, double *ampfac_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_ampfac_l_n(i_kernel, ampfac_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_kernel_ampfac_l_f77_(void *, int *, int *);
static double f77_xrtm_get_kernel_ampfac_l(xrtm_data *d, int i_kernel, int i_deriv) {  double r_ = xrtm_get_kernel_ampfac_l_f77_(d, &i_kernel, &i_deriv);  return r_; }
extern "C" double s90_xrtm_get_kernel_ampfac_l(void *, int, int);
static double f90_xrtm_get_kernel_ampfac_l(xrtm_data *d, int i_kernel, int i_deriv) {  double r_ = s90_xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv);  return r_; }
static double cpp_xrtm_get_kernel_ampfac_l(xrtm_data *d, int i_kernel, int i_deriv) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_kernel_ampfac_l(i_kernel, i_deriv); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_set_kernel_params_l_11_f77_(void *, int *, int *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_l_11(xrtm_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { int e_ = -4321;  xrtm_set_kernel_params_l_11_f77_(d, &i_kernel, &i_deriv, &i_param, &param_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_l_11(void *, int, int, int, double, int *);
static int f90_xrtm_set_kernel_params_l_11(xrtm_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { int e_ = -4321;  s90_xrtm_set_kernel_params_l_11(d, i_kernel, i_deriv, i_param, param_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_l_11(xrtm_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_l_11(i_kernel, i_deriv, i_param, param_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_kernel_params_l_1n_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_l_1n(xrtm_data *d, int i_kernel, int i_deriv, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.np(i_kernel)}, 0); xrtm_set_kernel_params_l_1n_f77_(d, &i_kernel, &i_deriv, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_l_1n(void *, int, int, double *, int, int *);
static int f90_xrtm_set_kernel_params_l_1n(xrtm_data *d, int i_kernel, int i_deriv, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.np(i_kernel)}, 0); s90_xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l_.p, params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_l_1n(xrtm_data *d, int i_kernel, int i_deriv, double *params_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_l_1n(i_kernel, i_deriv, params_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_kernel_params_l_n1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_l_n1(xrtm_data *d, int i_kernel, int i_param, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.nd}, 0); xrtm_set_kernel_params_l_n1_f77_(d, &i_kernel, &i_param, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_l_n1(void *, int, int, double *, int, int *);
static int f90_xrtm_set_kernel_params_l_n1(xrtm_data *d, int i_kernel, int i_param, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.nd}, 0); s90_xrtm_set_kernel_params_l_n1(d, i_kernel, i_param, params_l_.p, params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_l_n1(xrtm_data *d, int i_kernel, int i_param, double *params_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_l_n1(i_kernel, i_param, params_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_set_kernel_params_l_nn_f77_(void *, int *, double *, int *);
static int f77_xrtm_set_kernel_params_l_nn(xrtm_data *d, int i_kernel, double **params_l) { int e_ = -4321; Flat<double, 2> params_l_(params_l, {bm.nd, bm.np(i_kernel)}, 0); xrtm_set_kernel_params_l_nn_f77_(d, &i_kernel, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_set_kernel_params_l_nn(void *, int, double *, int, int, int *);
static int f90_xrtm_set_kernel_params_l_nn(xrtm_data *d, int i_kernel, double **params_l) { int e_ = -4321; Flat<double, 2> params_l_(params_l, {bm.nd, bm.np(i_kernel)}, 0); s90_xrtm_set_kernel_params_l_nn(d, i_kernel, params_l_.p, params_l_.n[1], params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_set_kernel_params_l_nn(xrtm_data *d, int i_kernel, double **params_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->set_kernel_params_l_nn(i_kernel, params_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_get_kernel_params_l_f77_(void *, int *, int *, int *);
static double f77_xrtm_get_kernel_params_l(xrtm_data *d, int i_kernel, int i_deriv, int i_param) {  double r_ = xrtm_get_kernel_params_l_f77_(d, &i_kernel, &i_deriv, &i_param);  return r_; }
extern "C" double s90_xrtm_get_kernel_params_l(void *, int, int, int);
static double f90_xrtm_get_kernel_params_l(xrtm_data *d, int i_kernel, int i_deriv, int i_param) {  double r_ = s90_xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param);  return r_; }
static double cpp_xrtm_get_kernel_params_l(xrtm_data *d, int i_kernel, int i_deriv, int i_param) { CPP_TRY { return (double) (*(xrtm_int_cpp **) d)->get_kernel_params_l(i_kernel, i_deriv, i_param); } CPP_CATCH(xrtm_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_update_varied_layers_f77_(void *, int *);
static int f77_xrtm_update_varied_layers(xrtm_data *d) { int e_ = -4321;  xrtm_update_varied_layers_f77_(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_update_varied_layers(void *, int *);
static int f90_xrtm_update_varied_layers(xrtm_data *d) { int e_ = -4321;  s90_xrtm_update_varied_layers(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_update_varied_layers(xrtm_data *d) { CPP_TRY { (*(xrtm_int_cpp **) d)->update_varied_layers(); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_qx_f77_(void *, double *, int *);
static int f77_xrtm_qx(xrtm_data *d, double *qx) { int e_ = -4321; Flat<double, 1> qx_(qx, {bm.nq + bm.nt}, 1); xrtm_qx_f77_(d, qx_.p, &e_); qx_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_qx(void *, double *, int, int *);
static int f90_xrtm_qx(xrtm_data *d, double *qx) { int e_ = -4321; Flat<double, 1> qx_(qx, {bm.nq + bm.nt}, 1); s90_xrtm_qx(d, qx_.p, qx_.n[0], &e_); qx_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_qx(xrtm_data *d, double *qx) { CPP_TRY { (*(xrtm_int_cpp **) d)->qx(qx); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_qw_f77_(void *, double *, int *);
static int f77_xrtm_qw(xrtm_data *d, double *qw) { int e_ = -4321; Flat<double, 1> qw_(qw, {bm.nq + bm.nt}, 1); xrtm_qw_f77_(d, qw_.p, &e_); qw_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_qw(void *, double *, int, int *);
static int f90_xrtm_qw(xrtm_data *d, double *qw) { int e_ = -4321; Flat<double, 1> qw_(qw, {bm.nq + bm.nt}, 1); s90_xrtm_qw(d, qw_.p, qw_.n[0], &e_); qw_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_qw(xrtm_data *d, double *qw) { CPP_TRY { (*(xrtm_int_cpp **) d)->qw(qw); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_kernel_qx_f77_(void *, double *, int *);
static int f77_xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) { int e_ = -4321; Flat<double, 1> kernel_qx_(kernel_qx, {bm.nkq}, 1); xrtm_kernel_qx_f77_(d, kernel_qx_.p, &e_); kernel_qx_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_kernel_qx(void *, double *, int, int *);
static int f90_xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) { int e_ = -4321; Flat<double, 1> kernel_qx_(kernel_qx, {bm.nkq}, 1); s90_xrtm_kernel_qx(d, kernel_qx_.p, kernel_qx_.n[0], &e_); kernel_qx_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_kernel_qx(xrtm_data *d, double *kernel_qx) { CPP_TRY { (*(xrtm_int_cpp **) d)->kernel_qx(kernel_qx); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_kernel_qw_f77_(void *, double *, int *);
static int f77_xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) { int e_ = -4321; Flat<double, 1> kernel_qw_(kernel_qw, {bm.nkq}, 1); xrtm_kernel_qw_f77_(d, kernel_qw_.p, &e_); kernel_qw_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_kernel_qw(void *, double *, int, int *);
static int f90_xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) { int e_ = -4321; Flat<double, 1> kernel_qw_(kernel_qw, {bm.nkq}, 1); s90_xrtm_kernel_qw(d, kernel_qw_.p, kernel_qw_.n[0], &e_); kernel_qw_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_kernel_qw(xrtm_data *d, double *kernel_qw) { CPP_TRY { (*(xrtm_int_cpp **) d)->kernel_qw(kernel_qw); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_solution_f77_(void *, int *, int *, int *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, int *);
static int f77_xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nd}, 1); Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nd}, 1); Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nd}, 1); xrtm_solution_f77_(d, &solver_, &solutions, &n_out_phis, out_phis_.p, I_p_.p, I_m_.p, K_p_.p, K_m_.p, mean_p_.p, mean_m_.p, mean_p_l_.p, mean_m_l_.p, flux_p_.p, flux_m_.p, flux_p_l_.p, flux_m_l_.p, flux_div_.p, flux_div_l_.p, &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_solution(void *, int, int, int, double *, int, int, double *, int, int, int, int, double *, int, int, int, int, double *, int, int, int, int, int, double *, int, int, int, int, int, double *, int, double *, int, double *, int, int, double *, int, int, double *, int, double *, int, double *, int, int, double *, int, int, double *, int, double *, int, int, int *);
static int f90_xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nd}, 1); Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nd}, 1); Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nd}, 1); s90_xrtm_solution(d, solver_, solutions, n_out_phis, out_phis_.p, out_phis_.n[1], out_phis_.n[0], I_p_.p, I_p_.n[3], I_p_.n[2], I_p_.n[1], I_p_.n[0], I_m_.p, I_m_.n[3], I_m_.n[2], I_m_.n[1], I_m_.n[0], K_p_.p, K_p_.n[4], K_p_.n[3], K_p_.n[2], K_p_.n[1], K_p_.n[0], K_m_.p, K_m_.n[4], K_m_.n[3], K_m_.n[2], K_m_.n[1], K_m_.n[0], mean_p_.p, mean_p_.n[0], mean_m_.p, mean_m_.n[0], mean_p_l_.p, mean_p_l_.n[1], mean_p_l_.n[0], mean_m_l_.p, mean_m_l_.n[1], mean_m_l_.n[0], flux_p_.p, flux_p_.n[0], flux_m_.p, flux_m_.n[0], flux_p_l_.p, flux_p_l_.n[1], flux_p_l_.n[0], flux_m_l_.p, flux_m_l_.n[1], flux_m_l_.n[0], flux_div_.p, flux_div_.n[0], flux_div_l_.p, flux_div_l_.n[1], flux_div_l_.n[0], &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_solution(xrtm_data *d, enum xrtm_solver_mask solver, int solutions, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->solution((xrtm_int_cpp::solver_mask) solver, solutions, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_radiance_f77_(void *, int *, int *, double *, double *, double *, double *, double *, int *);
static int f77_xrtm_radiance(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); xrtm_radiance_f77_(d, &solver_, &n_out_phis, out_phis_.p, I_p_.p, I_m_.p, K_p_.p, K_m_.p, &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_radiance(void *, int, int, double *, int, int, double *, int, int, int, int, double *, int, int, int, int, double *, int, int, int, int, int, double *, int, int, int, int, int, int *);
static int f90_xrtm_radiance(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); s90_xrtm_radiance(d, solver_, n_out_phis, out_phis_.p, out_phis_.n[1], out_phis_.n[0], I_p_.p, I_p_.n[3], I_p_.n[2], I_p_.n[1], I_p_.n[0], I_m_.p, I_m_.n[3], I_m_.n[2], I_m_.n[1], I_m_.n[0], K_p_.p, K_p_.n[4], K_p_.n[3], K_p_.n[2], K_p_.n[1], K_p_.n[0], K_m_.p, K_m_.n[4], K_m_.n[3], K_m_.n[2], K_m_.n[1], K_m_.n[0], &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_radiance(xrtm_data *d, enum xrtm_solver_mask solver, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { CPP_TRY { (*(xrtm_int_cpp **) d)->radiance((xrtm_int_cpp::solver_mask) solver, n_out_phis, out_phis, I_p, I_m, K_p, K_m); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_mean_radiance_f77_(void *, int *, double *, double *, double *, double *, int *);
static int f77_xrtm_mean_radiance(xrtm_data *d, enum xrtm_solver_mask solver, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nd}, 1); xrtm_mean_radiance_f77_(d, &solver_, mean_p_.p, mean_m_.p, mean_p_l_.p, mean_m_l_.p, &e_); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_mean_radiance(void *, int, double *, int, double *, int, double *, int, int, double *, int, int, int *);
static int f90_xrtm_mean_radiance(xrtm_data *d, enum xrtm_solver_mask solver, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nd}, 1); s90_xrtm_mean_radiance(d, solver_, mean_p_.p, mean_p_.n[0], mean_m_.p, mean_m_.n[0], mean_p_l_.p, mean_p_l_.n[1], mean_p_l_.n[0], mean_m_l_.p, mean_m_l_.n[1], mean_m_l_.n[0], &e_); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_mean_radiance(xrtm_data *d, enum xrtm_solver_mask solver, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->mean_radiance((xrtm_int_cpp::solver_mask) solver, mean_p, mean_m, mean_p_l, mean_m_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_flux_f77_(void *, int *, double *, double *, double *, double *, int *);
static int f77_xrtm_flux(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nd}, 1); xrtm_flux_f77_(d, &solver_, flux_p_.p, flux_m_.p, flux_p_l_.p, flux_m_l_.p, &e_); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_flux(void *, int, double *, int, double *, int, double *, int, int, double *, int, int, int *);
static int f90_xrtm_flux(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nd}, 1); s90_xrtm_flux(d, solver_, flux_p_.p, flux_p_.n[0], flux_m_.p, flux_m_.n[0], flux_p_l_.p, flux_p_l_.n[1], flux_p_l_.n[0], flux_m_l_.p, flux_m_l_.n[1], flux_m_l_.n[0], &e_); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_flux(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->flux((xrtm_int_cpp::solver_mask) solver, flux_p, flux_m, flux_p_l, flux_m_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_flux_divergence_f77_(void *, int *, double *, double *, int *);
static int f77_xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nd}, 1); xrtm_flux_divergence_f77_(d, &solver_, flux_div_.p, flux_div_l_.p, &e_); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_flux_divergence(void *, int, double *, int, double *, int, int, int *);
static int f90_xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nd}, 1); s90_xrtm_flux_divergence(d, solver_, flux_div_.p, flux_div_.n[0], flux_div_l_.p, flux_div_l_.n[1], flux_div_l_.n[0], &e_); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_flux_divergence(xrtm_data *d, enum xrtm_solver_mask solver, double *flux_div, double **flux_div_l) { CPP_TRY { (*(xrtm_int_cpp **) d)->flux_divergence((xrtm_int_cpp::solver_mask) solver, flux_div, flux_div_l); return 0; } CPP_CATCH(xrtm_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_create_f77_(void *, void *, int *, int *);
static int f77_xrtm_fd_create(xrtm_fd_data *d, xrtm_data *xrtm, int n_derivs) { int e_ = -4321;  xrtm_fd_create_f77_(d, xrtm, &n_derivs, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_create(void *, void *, int, int *);
static int f90_xrtm_fd_create(xrtm_fd_data *d, xrtm_data *xrtm, int n_derivs) { int e_ = -4321;  s90_xrtm_fd_create(d, xrtm, n_derivs, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_create(xrtm_fd_data *d, xrtm_data *xrtm, int n_derivs) { (*(xrtm_fd_int_cpp **) d) = 0; CPP_TRY { (*(xrtm_fd_int_cpp **) d) = new xrtm_fd_int_cpp(bm_raw(xrtm), n_derivs); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_destroy_f77_(void *, int *);
static int f77_xrtm_fd_destroy(xrtm_fd_data *d) { int e_ = -4321;  xrtm_fd_destroy_f77_(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_destroy(void *, int *);
static int f90_xrtm_fd_destroy(xrtm_fd_data *d) { int e_ = -4321;  s90_xrtm_fd_destroy(d, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_destroy(xrtm_fd_data *d) { xrtm_fd_int_cpp *o_ = (*(xrtm_fd_int_cpp **) d); (*(xrtm_fd_int_cpp **) d) = 0; CPP_TRY { delete o_; return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" int xrtm_fd_get_n_derivs_f77_(void *);
static int f77_xrtm_fd_get_n_derivs(xrtm_fd_data *d) {  int r_ = xrtm_fd_get_n_derivs_f77_(d);  return r_; }
extern "C" int s90_xrtm_fd_get_n_derivs(void *);
static int f90_xrtm_fd_get_n_derivs(xrtm_fd_data *d) {  int r_ = s90_xrtm_fd_get_n_derivs(d);  return r_; }
static int cpp_xrtm_fd_get_n_derivs(xrtm_fd_data *d) { CPP_TRY { return (int) (*(xrtm_fd_int_cpp **) d)->get_n_derivs(); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_delta_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_delta(xrtm_fd_data *d, double *delta) { int e_ = -4321; Flat<double, 1> delta_(delta, {bm.nfd}, 0); xrtm_fd_set_delta_f77_(d, delta_.p, &e_); delta_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_delta(void *, double *, int, int *);
static int f90_xrtm_fd_set_delta(xrtm_fd_data *d, double *delta) { int e_ = -4321; Flat<double, 1> delta_(delta, {bm.nfd}, 0); s90_xrtm_fd_set_delta(d, delta_.p, delta_.n[0], &e_); delta_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_delta(xrtm_fd_data *d, double *delta) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_delta(delta); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_get_delta_f77_(void *, double *, int *);
static int f77_xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) { int e_ = -4321; Flat<double, 1> delta_(delta, {bm.nfd}, 1); xrtm_fd_get_delta_f77_(d, delta_.p, &e_); delta_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_get_delta(void *, double *, int, int *);
static int f90_xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) { int e_ = -4321; Flat<double, 1> delta_(delta, {bm.nfd}, 1); s90_xrtm_fd_get_delta(d, delta_.p, delta_.n[0], &e_); delta_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_get_delta(xrtm_fd_data *d, double *delta) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->get_delta(delta); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_f_iso_top_p_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_l) { int e_ = -4321;  xrtm_fd_set_f_iso_top_p_1_f77_(d, &i_deriv, &F_iso_top_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_f_iso_top_p_1(void *, int, double, int *);
static int f90_xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_l) { int e_ = -4321;  s90_xrtm_fd_set_f_iso_top_p_1(d, i_deriv, F_iso_top_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_F_iso_top_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_top_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_F_iso_top_p_1(i_deriv, F_iso_top_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_f_iso_top_p_n_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_l) { int e_ = -4321; Flat<double, 1> F_iso_top_l_(F_iso_top_l, {bm.nfd}, 0); xrtm_fd_set_f_iso_top_p_n_f77_(d, F_iso_top_l_.p, &e_); F_iso_top_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_f_iso_top_p_n(void *, double *, int, int *);
static int f90_xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_l) { int e_ = -4321; Flat<double, 1> F_iso_top_l_(F_iso_top_l, {bm.nfd}, 0); s90_xrtm_fd_set_f_iso_top_p_n(d, F_iso_top_l_.p, F_iso_top_l_.n[0], &e_); F_iso_top_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_F_iso_top_p_n(xrtm_fd_data *d, double *F_iso_top_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_F_iso_top_p_n(F_iso_top_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_f_iso_top_p_f77_(void *, int *);
static double f77_xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {  double r_ = xrtm_fd_get_f_iso_top_p_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_f_iso_top_p(void *, int);
static double f90_xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) {  double r_ = s90_xrtm_fd_get_f_iso_top_p(d, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_F_iso_top_p(xrtm_fd_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_F_iso_top_p(i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_f_iso_bot_p_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_l) { int e_ = -4321;  xrtm_fd_set_f_iso_bot_p_1_f77_(d, &i_deriv, &F_iso_bot_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_f_iso_bot_p_1(void *, int, double, int *);
static int f90_xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_l) { int e_ = -4321;  s90_xrtm_fd_set_f_iso_bot_p_1(d, i_deriv, F_iso_bot_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_F_iso_bot_p_1(xrtm_fd_data *d, int i_deriv, double F_iso_bot_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_F_iso_bot_p_1(i_deriv, F_iso_bot_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_f_iso_bot_p_n_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_l) { int e_ = -4321; Flat<double, 1> F_iso_bot_l_(F_iso_bot_l, {bm.nfd}, 0); xrtm_fd_set_f_iso_bot_p_n_f77_(d, F_iso_bot_l_.p, &e_); F_iso_bot_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_f_iso_bot_p_n(void *, double *, int, int *);
static int f90_xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_l) { int e_ = -4321; Flat<double, 1> F_iso_bot_l_(F_iso_bot_l, {bm.nfd}, 0); s90_xrtm_fd_set_f_iso_bot_p_n(d, F_iso_bot_l_.p, F_iso_bot_l_.n[0], &e_); F_iso_bot_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_F_iso_bot_p_n(xrtm_fd_data *d, double *F_iso_bot_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_F_iso_bot_p_n(F_iso_bot_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_f_iso_bot_p_f77_(void *, int *);
static double f77_xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {  double r_ = xrtm_fd_get_f_iso_bot_p_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_f_iso_bot_p(void *, int);
static double f90_xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) {  double r_ = s90_xrtm_fd_get_f_iso_bot_p(d, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_F_iso_bot_p(xrtm_fd_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_F_iso_bot_p(i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_levels_b_p_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 0); xrtm_fd_set_levels_b_p_1_f77_(d, &i_deriv, levels_b_l_.p, &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_levels_b_p_1(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { int e_ = -4321; Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 0); s90_xrtm_fd_set_levels_b_p_1(d, i_deriv, levels_b_l_.p, levels_b_l_.n[0], &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_levels_b_p_1(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_levels_b_p_1(i_deriv, levels_b_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_levels_b_p_n_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_levels_b_p_n(xrtm_fd_data *d, double **levels_b_l) { int e_ = -4321; Flat<double, 2> levels_b_l_(levels_b_l, {bm.nl + 1, bm.nfd}, 0); xrtm_fd_set_levels_b_p_n_f77_(d, levels_b_l_.p, &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_levels_b_p_n(void *, double *, int, int, int *);
static int f90_xrtm_fd_set_levels_b_p_n(xrtm_fd_data *d, double **levels_b_l) { int e_ = -4321; Flat<double, 2> levels_b_l_(levels_b_l, {bm.nl + 1, bm.nfd}, 0); s90_xrtm_fd_set_levels_b_p_n(d, levels_b_l_.p, levels_b_l_.n[1], levels_b_l_.n[0], &e_); levels_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_levels_b_p_n(xrtm_fd_data *d, double **levels_b_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_levels_b_p_n(levels_b_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_levels_b_p_f77_(void *, int *, double *);
static double f77_xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 1); double r_ = xrtm_fd_get_levels_b_p_f77_(d, &i_deriv, levels_b_l_.p); levels_b_l_.back(); return r_; }
extern "C" double s90_xrtm_fd_get_levels_b_p(void *, int, double *, int);
static double f90_xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { Flat<double, 1> levels_b_l_(levels_b_l, {bm.nl + 1}, 1); double r_ = s90_xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l_.p, levels_b_l_.n[0]); levels_b_l_.back(); return r_; }
static double cpp_xrtm_fd_get_levels_b_p(xrtm_fd_data *d, int i_deriv, double *levels_b_l) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_levels_b_p(i_deriv, levels_b_l); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_surface_b_p_1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_l) { int e_ = -4321;  xrtm_fd_set_surface_b_p_1_f77_(d, &i_deriv, &surface_b_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_surface_b_p_1(void *, int, double, int *);
static int f90_xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_l) { int e_ = -4321;  s90_xrtm_fd_set_surface_b_p_1(d, i_deriv, surface_b_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_surface_b_p_1(xrtm_fd_data *d, int i_deriv, double surface_b_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_surface_b_p_1(i_deriv, surface_b_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_surface_b_p_n_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_surface_b_p_n(xrtm_fd_data *d, double *surface_b_l) { int e_ = -4321; Flat<double, 1> surface_b_l_(surface_b_l, {bm.nfd}, 0); xrtm_fd_set_surface_b_p_n_f77_(d, surface_b_l_.p, &e_); surface_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_surface_b_p_n(void *, double *, int, int *);
static int f90_xrtm_fd_set_surface_b_p_n(xrtm_fd_data *d, double *surface_b_l) { int e_ = -4321; Flat<double, 1> surface_b_l_(surface_b_l, {bm.nfd}, 0); s90_xrtm_fd_set_surface_b_p_n(d, surface_b_l_.p, surface_b_l_.n[0], &e_); surface_b_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_surface_b_p_n(xrtm_fd_data *d, double *surface_b_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_surface_b_p_n(surface_b_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_surface_b_p_f77_(void *, int *);
static double f77_xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {  double r_ = xrtm_fd_get_surface_b_p_f77_(d, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_surface_b_p(void *, int);
static double f90_xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) {  double r_ = s90_xrtm_fd_get_surface_b_p(d, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_surface_b_p(xrtm_fd_data *d, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_surface_b_p(i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_g_p_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_l) { int e_ = -4321;  xrtm_fd_set_g_p_11_f77_(d, &i_layer, &i_deriv, &g_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_g_p_11(void *, int, int, double, int *);
static int f90_xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_l) { int e_ = -4321;  s90_xrtm_fd_set_g_p_11(d, i_layer, i_deriv, g_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_g_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double g_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_g_p_11(i_layer, i_deriv, g_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_g_p_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nl}, 0); xrtm_fd_set_g_p_n1_f77_(d, &i_deriv, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_g_p_n1(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nl}, 0); s90_xrtm_fd_set_g_p_n1(d, i_deriv, g_l_.p, g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_g_p_n1(xrtm_fd_data *d, int i_deriv, double *g_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_g_p_n1(i_deriv, g_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_g_p_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nfd}, 0); xrtm_fd_set_g_p_1n_f77_(d, &i_layer, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_g_p_1n(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_l) { int e_ = -4321; Flat<double, 1> g_l_(g_l, {bm.nfd}, 0); s90_xrtm_fd_set_g_p_1n(d, i_layer, g_l_.p, g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_g_p_1n(xrtm_fd_data *d, int i_layer, double *g_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_g_p_1n(i_layer, g_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_g_p_nn_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_l) { int e_ = -4321; Flat<double, 2> g_l_(g_l, {bm.nl, bm.nfd}, 0); xrtm_fd_set_g_p_nn_f77_(d, g_l_.p, &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_g_p_nn(void *, double *, int, int, int *);
static int f90_xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_l) { int e_ = -4321; Flat<double, 2> g_l_(g_l, {bm.nl, bm.nfd}, 0); s90_xrtm_fd_set_g_p_nn(d, g_l_.p, g_l_.n[1], g_l_.n[0], &e_); g_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_g_p_nn(xrtm_fd_data *d, double **g_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_g_p_nn(g_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_g_p_f77_(void *, int *, int *);
static double f77_xrtm_fd_get_g_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_fd_get_g_p_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_g_p(void *, int, int);
static double f90_xrtm_fd_get_g_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_fd_get_g_p(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_g_p(xrtm_fd_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_g_p(i_layer, i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_coef_p_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **coef_l) { int e_ = -4321; Flat<double, 2> coef_l_(coef_l, {bm.ne, bm.nc(i_layer)}, 0); xrtm_fd_set_coef_p_11_f77_(d, &i_layer, &i_deriv, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_coef_p_11(void *, int, int, double *, int, int, int *);
static int f90_xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **coef_l) { int e_ = -4321; Flat<double, 2> coef_l_(coef_l, {bm.ne, bm.nc(i_layer)}, 0); s90_xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l_.p, coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_coef_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double **coef_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_coef_p_11(i_layer, i_deriv, coef_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_coef_p_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nl, bm.ne, bm.mc}, 0); xrtm_fd_set_coef_p_n1_f77_(d, &i_deriv, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_coef_p_n1(void *, int, double *, int, int, int, int *);
static int f90_xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nl, bm.ne, bm.mc}, 0); s90_xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l_.p, coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_coef_p_n1(xrtm_fd_data *d, int i_deriv, double ***coef_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_coef_p_n1(i_deriv, coef_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_coef_p_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nfd, bm.ne, bm.nc(i_layer)}, 0); xrtm_fd_set_coef_p_1n_f77_(d, &i_layer, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_coef_p_1n(void *, int, double *, int, int, int, int *);
static int f90_xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_l) { int e_ = -4321; Flat<double, 3> coef_l_(coef_l, {bm.nfd, bm.ne, bm.nc(i_layer)}, 0); s90_xrtm_fd_set_coef_p_1n(d, i_layer, coef_l_.p, coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_coef_p_1n(xrtm_fd_data *d, int i_layer, double ***coef_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_coef_p_1n(i_layer, coef_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_coef_p_nn_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_l) { int e_ = -4321; Flat<double, 4> coef_l_(coef_l, {bm.nl, bm.nfd, bm.ne, bm.mc}, 0); xrtm_fd_set_coef_p_nn_f77_(d, coef_l_.p, &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_coef_p_nn(void *, double *, int, int, int, int, int *);
static int f90_xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_l) { int e_ = -4321; Flat<double, 4> coef_l_(coef_l, {bm.nl, bm.nfd, bm.ne, bm.mc}, 0); s90_xrtm_fd_set_coef_p_nn(d, coef_l_.p, coef_l_.n[3], coef_l_.n[2], coef_l_.n[1], coef_l_.n[0], &e_); coef_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_coef_p_nn(xrtm_fd_data *d, double ****coef_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_coef_p_nn(coef_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_coef_p_f77_(void *, int *, int *, int *, int *);
static double f77_xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) {  double r_ = xrtm_fd_get_coef_p_f77_(d, &i_layer, &i_deriv, &i_elem, &i_coef);  return r_; }
extern "C" double s90_xrtm_fd_get_coef_p(void *, int, int, int, int);
static double f90_xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) {  double r_ = s90_xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef);  return r_; }
static double cpp_xrtm_fd_get_coef_p(xrtm_fd_data *d, int i_layer, int i_deriv, int i_elem, int i_coef) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_coef_p(i_layer, i_deriv, i_elem, i_coef); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_omega_p_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double omega_l) { int e_ = -4321;  xrtm_fd_set_omega_p_11_f77_(d, &i_layer, &i_deriv, &omega_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_omega_p_11(void *, int, int, double, int *);
static int f90_xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double omega_l) { int e_ = -4321;  s90_xrtm_fd_set_omega_p_11(d, i_layer, i_deriv, omega_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_omega_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double omega_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_omega_p_11(i_layer, i_deriv, omega_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_omega_p_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nl}, 0); xrtm_fd_set_omega_p_n1_f77_(d, &i_deriv, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_omega_p_n1(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nl}, 0); s90_xrtm_fd_set_omega_p_n1(d, i_deriv, omega_l_.p, omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_omega_p_n1(xrtm_fd_data *d, int i_deriv, double *omega_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_omega_p_n1(i_deriv, omega_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_omega_p_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nfd}, 0); xrtm_fd_set_omega_p_1n_f77_(d, &i_layer, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_omega_p_1n(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_l) { int e_ = -4321; Flat<double, 1> omega_l_(omega_l, {bm.nfd}, 0); s90_xrtm_fd_set_omega_p_1n(d, i_layer, omega_l_.p, omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_omega_p_1n(xrtm_fd_data *d, int i_layer, double *omega_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_omega_p_1n(i_layer, omega_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_omega_p_nn_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_l) { int e_ = -4321; Flat<double, 2> omega_l_(omega_l, {bm.nl, bm.nfd}, 0); xrtm_fd_set_omega_p_nn_f77_(d, omega_l_.p, &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_omega_p_nn(void *, double *, int, int, int *);
static int f90_xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_l) { int e_ = -4321; Flat<double, 2> omega_l_(omega_l, {bm.nl, bm.nfd}, 0); s90_xrtm_fd_set_omega_p_nn(d, omega_l_.p, omega_l_.n[1], omega_l_.n[0], &e_); omega_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_omega_p_nn(xrtm_fd_data *d, double **omega_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_omega_p_nn(omega_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_omega_p_f77_(void *, int *, int *);
static double f77_xrtm_fd_get_omega_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_fd_get_omega_p_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_omega_p(void *, int, int);
static double f90_xrtm_fd_get_omega_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_fd_get_omega_p(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_omega_p(xrtm_fd_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_omega_p(i_layer, i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_ltau_p_11_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau_l) { int e_ = -4321;  xrtm_fd_set_ltau_p_11_f77_(d, &i_layer, &i_deriv, &ltau_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_ltau_p_11(void *, int, int, double, int *);
static int f90_xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau_l) { int e_ = -4321;  s90_xrtm_fd_set_ltau_p_11(d, i_layer, i_deriv, ltau_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_ltau_p_11(xrtm_fd_data *d, int i_layer, int i_deriv, double ltau_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_ltau_p_11(i_layer, i_deriv, ltau_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_ltau_p_n1_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nl}, 0); xrtm_fd_set_ltau_p_n1_f77_(d, &i_deriv, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_ltau_p_n1(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nl}, 0); s90_xrtm_fd_set_ltau_p_n1(d, i_deriv, ltau_l_.p, ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_ltau_p_n1(xrtm_fd_data *d, int i_deriv, double *ltau_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_ltau_p_n1(i_deriv, ltau_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_ltau_p_1n_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nfd}, 0); xrtm_fd_set_ltau_p_1n_f77_(d, &i_layer, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_ltau_p_1n(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_l) { int e_ = -4321; Flat<double, 1> ltau_l_(ltau_l, {bm.nfd}, 0); s90_xrtm_fd_set_ltau_p_1n(d, i_layer, ltau_l_.p, ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_ltau_p_1n(xrtm_fd_data *d, int i_layer, double *ltau_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_ltau_p_1n(i_layer, ltau_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_ltau_p_nn_f77_(void *, double *, int *);
static int f77_xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_l) { int e_ = -4321; Flat<double, 2> ltau_l_(ltau_l, {bm.nl, bm.nfd}, 0); xrtm_fd_set_ltau_p_nn_f77_(d, ltau_l_.p, &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_ltau_p_nn(void *, double *, int, int, int *);
static int f90_xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_l) { int e_ = -4321; Flat<double, 2> ltau_l_(ltau_l, {bm.nl, bm.nfd}, 0); s90_xrtm_fd_set_ltau_p_nn(d, ltau_l_.p, ltau_l_.n[1], ltau_l_.n[0], &e_); ltau_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_ltau_p_nn(xrtm_fd_data *d, double **ltau_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_ltau_p_nn(ltau_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_ltau_p_f77_(void *, int *, int *);
static double f77_xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = xrtm_fd_get_ltau_p_f77_(d, &i_layer, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_ltau_p(void *, int, int);
static double f90_xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) {  double r_ = s90_xrtm_fd_get_ltau_p(d, i_layer, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_ltau_p(xrtm_fd_data *d, int i_layer, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_ltau_p(i_layer, i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_kernel_ampfac_p_1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_l) { int e_ = -4321;  xrtm_fd_set_kernel_ampfac_p_1_f77_(d, &i_kernel, &i_deriv, &ampfac_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_ampfac_p_1(void *, int, int, double, int *);
static int f90_xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_l) { int e_ = -4321;  s90_xrtm_fd_set_kernel_ampfac_p_1(d, i_kernel, i_deriv, ampfac_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_ampfac_p_1(xrtm_fd_data *d, int i_kernel, int i_deriv, double ampfac_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_ampfac_p_1(i_kernel, i_deriv, ampfac_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_kernel_ampfac_p_n_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_l) { int e_ = -4321; Flat<double, 1> ampfac_l_(ampfac_l, {bm.nfd}, 0); xrtm_fd_set_kernel_ampfac_p_n_f77_(d, &i_kernel, ampfac_l_.p, &e_); ampfac_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_ampfac_p_n(void *, int, double *, int, int *);
static int f90_xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_l) { int e_ = -4321; Flat<double, 1> ampfac_l_(ampfac_l, {bm.nfd}, 0); s90_xrtm_fd_set_kernel_ampfac_p_n(d, i_kernel, ampfac_l_.p, ampfac_l_.n[0], &e_); ampfac_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_ampfac_p_n(xrtm_fd_data *d, int i_kernel, double *ampfac_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_ampfac_p_n(i_kernel, ampfac_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_kernel_ampfac_p_f77_(void *, int *, int *);
static double f77_xrtm_fd_get_kernel_ampfac_p(xrtm_fd_data *d, int i_kernel, int i_deriv) {  double r_ = xrtm_fd_get_kernel_ampfac_p_f77_(d, &i_kernel, &i_deriv);  return r_; }
extern "C" double s90_xrtm_fd_get_kernel_ampfac_p(void *, int, int);
static double f90_xrtm_fd_get_kernel_ampfac_p(xrtm_fd_data *d, int i_kernel, int i_deriv) {  double r_ = s90_xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv);  return r_; }
static double cpp_xrtm_fd_get_kernel_ampfac_p(xrtm_fd_data *d, int i_kernel, int i_deriv) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_kernel_ampfac_p(i_kernel, i_deriv); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_set_kernel_params_p_11_f77_(void *, int *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { int e_ = -4321;  xrtm_fd_set_kernel_params_p_11_f77_(d, &i_kernel, &i_deriv, &i_param, &param_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_params_p_11(void *, int, int, int, double, int *);
static int f90_xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { int e_ = -4321;  s90_xrtm_fd_set_kernel_params_p_11(d, i_kernel, i_deriv, i_param, param_l, &e_);  return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_params_p_11(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param, double param_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_params_p_11(i_kernel, i_deriv, i_param, param_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_kernel_params_p_1n_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.np(i_kernel)}, 0); xrtm_fd_set_kernel_params_p_1n_f77_(d, &i_kernel, &i_deriv, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_params_p_1n(void *, int, int, double *, int, int *);
static int f90_xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.np(i_kernel)}, 0); s90_xrtm_fd_set_kernel_params_p_1n(d, i_kernel, i_deriv, params_l_.p, params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_params_p_1n(xrtm_fd_data *d, int i_kernel, int i_deriv, double *params_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_params_p_1n(i_kernel, i_deriv, params_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_kernel_params_p_n1_f77_(void *, int *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.nfd}, 0); xrtm_fd_set_kernel_params_p_n1_f77_(d, &i_kernel, &i_param, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_params_p_n1(void *, int, int, double *, int, int *);
static int f90_xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, double *params_l) { int e_ = -4321; Flat<double, 1> params_l_(params_l, {bm.nfd}, 0); s90_xrtm_fd_set_kernel_params_p_n1(d, i_kernel, i_param, params_l_.p, params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_params_p_n1(xrtm_fd_data *d, int i_kernel, int i_param, double *params_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_params_p_n1(i_kernel, i_param, params_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_set_kernel_params_p_nn_f77_(void *, int *, double *, int *);
static int f77_xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **params_l) { int e_ = -4321; Flat<double, 2> params_l_(params_l, {bm.nfd, bm.np(i_kernel)}, 0); xrtm_fd_set_kernel_params_p_nn_f77_(d, &i_kernel, params_l_.p, &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_set_kernel_params_p_nn(void *, int, double *, int, int, int *);
static int f90_xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **params_l) { int e_ = -4321; Flat<double, 2> params_l_(params_l, {bm.nfd, bm.np(i_kernel)}, 0); s90_xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l_.p, params_l_.n[1], params_l_.n[0], &e_); params_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_set_kernel_params_p_nn(xrtm_fd_data *d, int i_kernel, double **params_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->set_kernel_params_p_nn(i_kernel, params_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" double xrtm_fd_get_kernel_params_p_f77_(void *, int *, int *, int *);
static double f77_xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param) {  double r_ = xrtm_fd_get_kernel_params_p_f77_(d, &i_kernel, &i_deriv, &i_param);  return r_; }
extern "C" double s90_xrtm_fd_get_kernel_params_p(void *, int, int, int);
static double f90_xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param) {  double r_ = s90_xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param);  return r_; }
static double cpp_xrtm_fd_get_kernel_params_p(xrtm_fd_data *d, int i_kernel, int i_deriv, int i_param) { CPP_TRY { return (double) (*(xrtm_fd_int_cpp **) d)->get_kernel_params_p(i_kernel, i_deriv, i_param); } CPP_CATCH(xrtm_fd_int_cpp, XRTM_DBL_ERROR) }
extern "C" void xrtm_fd_solution_f77_(void *, int *, int *, int *, int *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, double *, int *);
static int f77_xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; int method_ = (int) method; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nfd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nfd}, 1); Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nfd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nfd}, 1); Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nfd}, 1); xrtm_fd_solution_f77_(d, &solver_, &solutions, &method_, &n_out_phis, out_phis_.p, I_p_.p, I_m_.p, K_p_.p, K_m_.p, mean_p_.p, mean_m_.p, mean_p_l_.p, mean_m_l_.p, flux_p_.p, flux_m_.p, flux_p_l_.p, flux_m_l_.p, flux_div_.p, flux_div_l_.p, &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_solution(void *, int, int, int, int, double *, int, int, double *, int, int, int, int, double *, int, int, int, int, double *, int, int, int, int, int, double *, int, int, int, int, int, double *, int, double *, int, double *, int, int, double *, int, int, double *, int, double *, int, double *, int, int, double *, int, int, double *, int, double *, int, int, int *);
static int f90_xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { int e_ = -4321; int solver_ = (int) solver; int method_ = (int) method; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 1> mean_p_(mean_p, {bm.no}, 1); Flat<double, 1> mean_m_(mean_m, {bm.no}, 1); Flat<double, 2> mean_p_l_(mean_p_l, {bm.no, bm.nfd}, 1); Flat<double, 2> mean_m_l_(mean_m_l, {bm.no, bm.nfd}, 1); Flat<double, 1> flux_p_(flux_p, {bm.no}, 1); Flat<double, 1> flux_m_(flux_m, {bm.no}, 1); Flat<double, 2> flux_p_l_(flux_p_l, {bm.no, bm.nfd}, 1); Flat<double, 2> flux_m_l_(flux_m_l, {bm.no, bm.nfd}, 1); Flat<double, 1> flux_div_(flux_div, {bm.no}, 1); Flat<double, 2> flux_div_l_(flux_div_l, {bm.no, bm.nfd}, 1); s90_xrtm_fd_solution(d, solver_, solutions, method_, n_out_phis, out_phis_.p, out_phis_.n[1], out_phis_.n[0], I_p_.p, I_p_.n[3], I_p_.n[2], I_p_.n[1], I_p_.n[0], I_m_.p, I_m_.n[3], I_m_.n[2], I_m_.n[1], I_m_.n[0], K_p_.p, K_p_.n[4], K_p_.n[3], K_p_.n[2], K_p_.n[1], K_p_.n[0], K_m_.p, K_m_.n[4], K_m_.n[3], K_m_.n[2], K_m_.n[1], K_m_.n[0], mean_p_.p, mean_p_.n[0], mean_m_.p, mean_m_.n[0], mean_p_l_.p, mean_p_l_.n[1], mean_p_l_.n[0], mean_m_l_.p, mean_m_l_.n[1], mean_m_l_.n[0], flux_p_.p, flux_p_.n[0], flux_m_.p, flux_m_.n[0], flux_p_l_.p, flux_p_l_.n[1], flux_p_l_.n[0], flux_m_l_.p, flux_m_l_.n[1], flux_m_l_.n[0], flux_div_.p, flux_div_.n[0], flux_div_l_.p, flux_div_l_.n[1], flux_div_l_.n[0], &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); mean_p_.back(); mean_m_.back(); mean_p_l_.back(); mean_m_l_.back(); flux_p_.back(); flux_m_.back(); flux_p_l_.back(); flux_m_l_.back(); flux_div_.back(); flux_div_l_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_solution(xrtm_fd_data *d, enum xrtm_solver_mask solver, int solutions, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m, double *mean_p, double *mean_m, double **mean_p_l, double **mean_m_l, double *flux_p, double *flux_m, double **flux_p_l, double **flux_m_l, double *flux_div, double **flux_div_l) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->solution((xrtm_int_cpp::solver_mask) solver, solutions, (xrtm_fd_int_cpp::method_type) method, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
extern "C" void xrtm_fd_radiance_f77_(void *, int *, int *, int *, double *, double *, double *, double *, double *, int *);
static int f77_xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { int e_ = -4321; int solver_ = (int) solver; int method_ = (int) method; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); xrtm_fd_radiance_f77_(d, &solver_, &method_, &n_out_phis, out_phis_.p, I_p_.p, I_m_.p, K_p_.p, K_m_.p, &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); return e_ ? XRTM_INT_ERROR : 0; }
extern "C" void s90_xrtm_fd_radiance(void *, int, int, int, double *, int, int, double *, int, int, int, int, double *, int, int, int, int, double *, int, int, int, int, int, double *, int, int, int, int, int, int *);
static int f90_xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { int e_ = -4321; int solver_ = (int) solver; int method_ = (int) method; Flat<double, 2> out_phis_(out_phis, {bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis)}, 0); Flat<double, 4> I_p_(I_p, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 4> I_m_(I_m, {bm.no, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_p_(K_p, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); Flat<double, 5> K_m_(K_m, {bm.no, bm.nfd, bm.nt2, (n_out_phis < 0 ? 0 : n_out_phis), bm.ns}, 1); s90_xrtm_fd_radiance(d, solver_, method_, n_out_phis, out_phis_.p, out_phis_.n[1], out_phis_.n[0], I_p_.p, I_p_.n[3], I_p_.n[2], I_p_.n[1], I_p_.n[0], I_m_.p, I_m_.n[3], I_m_.n[2], I_m_.n[1], I_m_.n[0], K_p_.p, K_p_.n[4], K_p_.n[3], K_p_.n[2], K_p_.n[1], K_p_.n[0], K_m_.p, K_m_.n[4], K_m_.n[3], K_m_.n[2], K_m_.n[1], K_m_.n[0], &e_); out_phis_.back(); I_p_.back(); I_m_.back(); K_p_.back(); K_m_.back(); return e_ ? XRTM_INT_ERROR : 0; }
static int cpp_xrtm_fd_radiance(xrtm_fd_data *d, enum xrtm_solver_mask solver, enum xrtm_fd_method_type method, int n_out_phis, double **out_phis, double ****I_p, double ****I_m, double *****K_p, double *****K_m) { CPP_TRY { (*(xrtm_fd_int_cpp **) d)->radiance((xrtm_int_cpp::solver_mask) solver, (xrtm_fd_int_cpp::method_type) method, n_out_phis, out_phis, I_p, I_m, K_p, K_m); return 0; } CPP_CATCH(xrtm_fd_int_cpp, XRTM_INT_ERROR) }
static const struct { const char *name; int c, cpp; } bind_constants[] = {{"XRTM_OPTION_CALC_DERIVS", (int) XRTM_OPTION_CALC_DERIVS, (int) xrtm_int_cpp::OPTION_CALC_DERIVS}, {"XRTM_OPTION_REVERSE_DERIVS", (int) XRTM_OPTION_REVERSE_DERIVS, (int) xrtm_int_cpp::OPTION_REVERSE_DERIVS}, {"XRTM_OPTION_DELTA_M", (int) XRTM_OPTION_DELTA_M, (int) xrtm_int_cpp::OPTION_DELTA_M}, {"XRTM_OPTION_N_T_TMS", (int) XRTM_OPTION_N_T_TMS, (int) xrtm_int_cpp::OPTION_N_T_TMS}, {"XRTM_OPTION_FOUR_CONV_OLD", (int) XRTM_OPTION_FOUR_CONV_OLD, (int) xrtm_int_cpp::OPTION_FOUR_CONV_OLD}, {"XRTM_OPTION_FOUR_CONV_NEW", (int) XRTM_OPTION_FOUR_CONV_NEW, (int) xrtm_int_cpp::OPTION_FOUR_CONV_NEW}, {"XRTM_OPTION_NO_AZIMUTHAL", (int) XRTM_OPTION_NO_AZIMUTHAL, (int) xrtm_int_cpp::OPTION_NO_AZIMUTHAL}, {"XRTM_OPTION_OUTPUT_AT_LEVELS", (int) XRTM_OPTION_OUTPUT_AT_LEVELS, (int) xrtm_int_cpp::OPTION_OUTPUT_AT_LEVELS}, {"XRTM_OPTION_OUTPUT_AT_TAUS", (int) XRTM_OPTION_OUTPUT_AT_TAUS, (int) xrtm_int_cpp::OPTION_OUTPUT_AT_TAUS}, {"XRTM_OPTION_PART_SOL_CLASSICAL", (int) XRTM_OPTION_PART_SOL_CLASSICAL, (int) xrtm_int_cpp::OPTION_PART_SOL_CLASSICAL}, {"XRTM_OPTION_PART_SOL_GREENS", (int) XRTM_OPTION_PART_SOL_GREENS, (int) xrtm_int_cpp::OPTION_PART_SOL_GREENS}, {"XRTM_OPTION_PHASE_SCALAR", (int) XRTM_OPTION_PHASE_SCALAR, (int) xrtm_int_cpp::OPTION_PHASE_SCALAR}, {"XRTM_OPTION_PHASE_MATRIX_GC", (int) XRTM_OPTION_PHASE_MATRIX_GC, (int) xrtm_int_cpp::OPTION_PHASE_MATRIX_GC}, {"XRTM_OPTION_PHASE_MATRIX_LC", (int) XRTM_OPTION_PHASE_MATRIX_LC, (int) xrtm_int_cpp::OPTION_PHASE_MATRIX_LC}, {"XRTM_OPTION_PSA", (int) XRTM_OPTION_PSA, (int) xrtm_int_cpp::OPTION_PSA}, {"XRTM_OPTION_QUAD_NORM_GAUS_LEG", (int) XRTM_OPTION_QUAD_NORM_GAUS_LEG, (int) xrtm_int_cpp::OPTION_QUAD_NORM_GAUS_LEG}, {"XRTM_OPTION_QUAD_DOUB_GAUS_LEG", (int) XRTM_OPTION_QUAD_DOUB_GAUS_LEG, (int) xrtm_int_cpp::OPTION_QUAD_DOUB_GAUS_LEG}, {"XRTM_OPTION_QUAD_LOBATTO", (int) XRTM_OPTION_QUAD_LOBATTO, (int) xrtm_int_cpp::OPTION_QUAD_LOBATTO}, {"XRTM_OPTION_SAVE_LEG_POLYS", (int) XRTM_OPTION_SAVE_LEG_POLYS, (int) xrtm_int_cpp::OPTION_SAVE_LEG_POLYS}, {"XRTM_OPTION_SAVE_PHASE_MATS", (int) XRTM_OPTION_SAVE_PHASE_MATS, (int) xrtm_int_cpp::OPTION_SAVE_PHASE_MATS}, {"XRTM_OPTION_SAVE_LOCAL_R_T", (int) XRTM_OPTION_SAVE_LOCAL_R_T, (int) xrtm_int_cpp::OPTION_SAVE_LOCAL_R_T}, {"XRTM_OPTION_SAVE_LAYER_R_T_S", (int) XRTM_OPTION_SAVE_LAYER_R_T_S, (int) xrtm_int_cpp::OPTION_SAVE_LAYER_R_T_S}, {"XRTM_OPTION_SAVE_TOTAL_R_T_S", (int) XRTM_OPTION_SAVE_TOTAL_R_T_S, (int) xrtm_int_cpp::OPTION_SAVE_TOTAL_R_T_S}, {"XRTM_OPTION_SFI", (int) XRTM_OPTION_SFI, (int) xrtm_int_cpp::OPTION_SFI}, {"XRTM_OPTION_SOURCE_SOLAR", (int) XRTM_OPTION_SOURCE_SOLAR, (int) xrtm_int_cpp::OPTION_SOURCE_SOLAR}, {"XRTM_OPTION_SOURCE_THERMAL", (int) XRTM_OPTION_SOURCE_THERMAL, (int) xrtm_int_cpp::OPTION_SOURCE_THERMAL}, {"XRTM_OPTION_STACK_REUSE_ADDING", (int) XRTM_OPTION_STACK_REUSE_ADDING, (int) xrtm_int_cpp::OPTION_STACK_REUSE_ADDING}, {"XRTM_OPTION_TOP_DOWN_ADDING", (int) XRTM_OPTION_TOP_DOWN_ADDING, (int) xrtm_int_cpp::OPTION_TOP_DOWN_ADDING}, {"XRTM_OPTION_BOTTOM_UP_ADDING", (int) XRTM_OPTION_BOTTOM_UP_ADDING, (int) xrtm_int_cpp::OPTION_BOTTOM_UP_ADDING}, {"XRTM_OPTION_UPWELLING_OUTPUT", (int) XRTM_OPTION_UPWELLING_OUTPUT, (int) xrtm_int_cpp::OPTION_UPWELLING_OUTPUT}, {"XRTM_OPTION_DOWNWELLING_OUTPUT", (int) XRTM_OPTION_DOWNWELLING_OUTPUT, (int) xrtm_int_cpp::OPTION_DOWNWELLING_OUTPUT}, {"XRTM_OPTION_VECTOR", (int) XRTM_OPTION_VECTOR, (int) xrtm_int_cpp::OPTION_VECTOR}, {"XRTM_SOLVER_DOUB_ADD", (int) XRTM_SOLVER_DOUB_ADD, (int) xrtm_int_cpp::SOLVER_DOUB_ADD}, {"XRTM_SOLVER_EIG_ADD", (int) XRTM_SOLVER_EIG_ADD, (int) xrtm_int_cpp::SOLVER_EIG_ADD}, {"XRTM_SOLVER_EIG_BVP", (int) XRTM_SOLVER_EIG_BVP, (int) xrtm_int_cpp::SOLVER_EIG_BVP}, {"XRTM_SOLVER_FOUR_STREAM", (int) XRTM_SOLVER_FOUR_STREAM, (int) xrtm_int_cpp::SOLVER_FOUR_STREAM}, {"XRTM_SOLVER_MEM_BVP", (int) XRTM_SOLVER_MEM_BVP, (int) xrtm_int_cpp::SOLVER_MEM_BVP}, {"XRTM_SOLVER_PADE_ADD", (int) XRTM_SOLVER_PADE_ADD, (int) xrtm_int_cpp::SOLVER_PADE_ADD}, {"XRTM_SOLVER_SINGLE", (int) XRTM_SOLVER_SINGLE, (int) xrtm_int_cpp::SOLVER_SINGLE}, {"XRTM_SOLVER_SIX_STREAM", (int) XRTM_SOLVER_SIX_STREAM, (int) xrtm_int_cpp::SOLVER_SIX_STREAM}, {"XRTM_SOLVER_SOS", (int) XRTM_SOLVER_SOS, (int) xrtm_int_cpp::SOLVER_SOS}, {"XRTM_SOLVER_TWO_OS", (int) XRTM_SOLVER_TWO_OS, (int) xrtm_int_cpp::SOLVER_TWO_OS}, {"XRTM_SOLVER_TWO_STREAM", (int) XRTM_SOLVER_TWO_STREAM, (int) xrtm_int_cpp::SOLVER_TWO_STREAM}, {"XRTM_OUTPUT_RADIANCE", (int) XRTM_OUTPUT_RADIANCE, (int) xrtm_int_cpp::OUTPUT_RADIANCE}, {"XRTM_OUTPUT_RADIANCE_MEAN", (int) XRTM_OUTPUT_RADIANCE_MEAN, (int) xrtm_int_cpp::OUTPUT_RADIANCE_MEAN}, {"XRTM_OUTPUT_FLUX", (int) XRTM_OUTPUT_FLUX, (int) xrtm_int_cpp::OUTPUT_FLUX}, {"XRTM_OUTPUT_FLUX_DIVERGENCE", (int) XRTM_OUTPUT_FLUX_DIVERGENCE, (int) xrtm_int_cpp::OUTPUT_FLUX_DIVERGENCE}, {"XRTM_KERNEL_LAMBERTIAN", (int) XRTM_KERNEL_LAMBERTIAN, (int) xrtm_int_cpp::KERNEL_LAMBERTIAN}, {"XRTM_KERNEL_DIRECT_AND_DIFFUSE", (int) XRTM_KERNEL_DIRECT_AND_DIFFUSE, (int) xrtm_int_cpp::KERNEL_DIRECT_AND_DIFFUSE}, {"XRTM_KERNEL_ROUJEAN", (int) XRTM_KERNEL_ROUJEAN, (int) xrtm_int_cpp::KERNEL_ROUJEAN}, {"XRTM_KERNEL_LI_SPARSE", (int) XRTM_KERNEL_LI_SPARSE, (int) xrtm_int_cpp::KERNEL_LI_SPARSE}, {"XRTM_KERNEL_LI_DENSE", (int) XRTM_KERNEL_LI_DENSE, (int) xrtm_int_cpp::KERNEL_LI_DENSE}, {"XRTM_KERNEL_ROSS_THIN", (int) XRTM_KERNEL_ROSS_THIN, (int) xrtm_int_cpp::KERNEL_ROSS_THIN}, {"XRTM_KERNEL_ROSS_THICK", (int) XRTM_KERNEL_ROSS_THICK, (int) xrtm_int_cpp::KERNEL_ROSS_THICK}, {"XRTM_KERNEL_HAPKE", (int) XRTM_KERNEL_HAPKE, (int) xrtm_int_cpp::KERNEL_HAPKE}, {"XRTM_KERNEL_RAHMAN", (int) XRTM_KERNEL_RAHMAN, (int) xrtm_int_cpp::KERNEL_RAHMAN}, {"XRTM_KERNEL_COX_MUNK", (int) XRTM_KERNEL_COX_MUNK, (int) xrtm_int_cpp::KERNEL_COX_MUNK}, {"XRTM_KERNEL_USER_DEFINED", (int) XRTM_KERNEL_USER_DEFINED, (int) xrtm_int_cpp::KERNEL_USER_DEFINED}, {"XRTM_FD_METHOD_FORWARD", (int) XRTM_FD_METHOD_FORWARD, (int) xrtm_fd_int_cpp::METHOD_FORWARD}, {"XRTM_FD_METHOD_BACKWARD", (int) XRTM_FD_METHOD_BACKWARD, (int) xrtm_fd_int_cpp::METHOD_BACKWARD}, {"XRTM_FD_METHOD_CENTRAL", (int) XRTM_FD_METHOD_CENTRAL, (int) xrtm_fd_int_cpp::METHOD_CENTRAL}};
