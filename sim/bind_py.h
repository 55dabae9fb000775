/* Written by tools/mkbind.py. */
#undef xrtm_destroy
#define xrtm_destroy py_xrtm_destroy
#undef xrtm_create
#define xrtm_create py_xrtm_create
#undef xrtm_get_options
#define xrtm_get_options py_xrtm_get_options
#undef xrtm_get_solvers
#define xrtm_get_solvers py_xrtm_get_solvers
#undef xrtm_get_max_coef
#define xrtm_get_max_coef py_xrtm_get_max_coef
#undef xrtm_get_n_quad
#define xrtm_get_n_quad py_xrtm_get_n_quad
#undef xrtm_get_n_stokes
#define xrtm_get_n_stokes py_xrtm_get_n_stokes
#undef xrtm_get_n_derivs
#define xrtm_get_n_derivs py_xrtm_get_n_derivs
#undef xrtm_get_n_layers
#define xrtm_get_n_layers py_xrtm_get_n_layers
#undef xrtm_get_n_kernels
#define xrtm_get_n_kernels py_xrtm_get_n_kernels
#undef xrtm_get_n_kernel_quad
#define xrtm_get_n_kernel_quad py_xrtm_get_n_kernel_quad
#undef xrtm_get_kernel
#define xrtm_get_kernel py_xrtm_get_kernel
#undef xrtm_get_n_out_levels
#define xrtm_get_n_out_levels py_xrtm_get_n_out_levels
#undef xrtm_get_n_out_thetas
#define xrtm_get_n_out_thetas py_xrtm_get_n_out_thetas
#undef xrtm_get_n_out_thetas_2
#define xrtm_get_n_out_thetas_2 py_xrtm_get_n_out_thetas_2
#undef xrtm_set_doub_d_tau
#define xrtm_set_doub_d_tau py_xrtm_set_doub_d_tau
#undef xrtm_get_doub_d_tau
#define xrtm_get_doub_d_tau py_xrtm_get_doub_d_tau
#undef xrtm_set_pade_params
#define xrtm_set_pade_params py_xrtm_set_pade_params
#undef xrtm_get_pade_params
#define xrtm_get_pade_params py_xrtm_get_pade_params
#undef xrtm_set_sos_params
#define xrtm_set_sos_params py_xrtm_set_sos_params
#undef xrtm_get_sos_params
#define xrtm_get_sos_params py_xrtm_get_sos_params
#undef xrtm_set_fourier_tol
#define xrtm_set_fourier_tol py_xrtm_set_fourier_tol
#undef xrtm_get_fourier_tol
#define xrtm_get_fourier_tol py_xrtm_get_fourier_tol
#undef xrtm_set_lambda
#define xrtm_set_lambda py_xrtm_set_lambda
#undef xrtm_get_lambda
#define xrtm_get_lambda py_xrtm_get_lambda
#undef xrtm_set_planet_r
#define xrtm_set_planet_r py_xrtm_set_planet_r
#undef xrtm_get_planet_r
#define xrtm_get_planet_r py_xrtm_get_planet_r
#undef xrtm_set_levels_z
#define xrtm_set_levels_z py_xrtm_set_levels_z
#undef xrtm_get_levels_z
#define xrtm_get_levels_z py_xrtm_get_levels_z
#undef xrtm_set_out_levels
#define xrtm_set_out_levels py_xrtm_set_out_levels
#undef xrtm_get_out_levels
#define xrtm_get_out_levels py_xrtm_get_out_levels
#undef xrtm_set_out_taus
#define xrtm_set_out_taus py_xrtm_set_out_taus
#undef xrtm_get_out_taus
#define xrtm_get_out_taus py_xrtm_get_out_taus
#undef xrtm_set_out_thetas
#define xrtm_set_out_thetas py_xrtm_set_out_thetas
#undef xrtm_get_out_thetas
#define xrtm_get_out_thetas py_xrtm_get_out_thetas
#undef xrtm_set_F_iso_top
#define xrtm_set_F_iso_top py_xrtm_set_F_iso_top
#undef xrtm_get_F_iso_top
#define xrtm_get_F_iso_top py_xrtm_get_F_iso_top
#undef xrtm_set_F_iso_top_l_1
#define xrtm_set_F_iso_top_l_1 py_xrtm_set_F_iso_top_l_1
#undef xrtm_set_F_iso_top_l_n
#define xrtm_set_F_iso_top_l_n py_xrtm_set_F_iso_top_l_n
#undef xrtm_get_F_iso_top_l
#define xrtm_get_F_iso_top_l py_xrtm_get_F_iso_top_l
#undef xrtm_set_F_iso_bot
#define xrtm_set_F_iso_bot py_xrtm_set_F_iso_bot
#undef xrtm_get_F_iso_bot
#define xrtm_get_F_iso_bot py_xrtm_get_F_iso_bot
#undef xrtm_set_F_iso_bot_l_1
#define xrtm_set_F_iso_bot_l_1 py_xrtm_set_F_iso_bot_l_1
#undef xrtm_set_F_iso_bot_l_n
#define xrtm_set_F_iso_bot_l_n py_xrtm_set_F_iso_bot_l_n
#undef xrtm_get_F_iso_bot_l
#define xrtm_get_F_iso_bot_l py_xrtm_get_F_iso_bot_l
#undef xrtm_set_F_0
#define xrtm_set_F_0 py_xrtm_set_F_0
#undef xrtm_get_F_0
#define xrtm_get_F_0 py_xrtm_get_F_0
#undef xrtm_set_theta_0
#define xrtm_set_theta_0 py_xrtm_set_theta_0
#undef xrtm_get_theta_0
#define xrtm_get_theta_0 py_xrtm_get_theta_0
#undef xrtm_set_phi_0
#define xrtm_set_phi_0 py_xrtm_set_phi_0
#undef xrtm_get_phi_0
#define xrtm_get_phi_0 py_xrtm_get_phi_0
#undef xrtm_set_levels_b
#define xrtm_set_levels_b py_xrtm_set_levels_b
#undef xrtm_get_levels_b
#define xrtm_get_levels_b py_xrtm_get_levels_b
#undef xrtm_set_levels_b_l_1
#define xrtm_set_levels_b_l_1 py_xrtm_set_levels_b_l_1
#undef xrtm_set_levels_b_l_n
#define xrtm_set_levels_b_l_n py_xrtm_set_levels_b_l_n
#undef xrtm_get_levels_b_l
#define xrtm_get_levels_b_l py_xrtm_get_levels_b_l
#undef xrtm_set_surface_b
#define xrtm_set_surface_b py_xrtm_set_surface_b
#undef xrtm_get_surface_b
#define xrtm_get_surface_b py_xrtm_get_surface_b
#undef xrtm_set_surface_b_l_1
#define xrtm_set_surface_b_l_1 py_xrtm_set_surface_b_l_1
#undef xrtm_set_surface_b_l_n
#define xrtm_set_surface_b_l_n py_xrtm_set_surface_b_l_n
#undef xrtm_get_surface_b_l
#define xrtm_get_surface_b_l py_xrtm_get_surface_b_l
#undef xrtm_set_g_1
#define xrtm_set_g_1 py_xrtm_set_g_1
#undef xrtm_set_g_n
#define xrtm_set_g_n py_xrtm_set_g_n
#undef xrtm_get_g
#define xrtm_get_g py_xrtm_get_g
#undef xrtm_set_g_l_11
#define xrtm_set_g_l_11 py_xrtm_set_g_l_11
#undef xrtm_set_g_l_n1
#define xrtm_set_g_l_n1 py_xrtm_set_g_l_n1
#undef xrtm_set_g_l_1n
#define xrtm_set_g_l_1n py_xrtm_set_g_l_1n
#undef xrtm_set_g_l_nn
#define xrtm_set_g_l_nn py_xrtm_set_g_l_nn
#undef xrtm_get_g_l
#define xrtm_get_g_l py_xrtm_get_g_l
#undef xrtm_set_coef_1
#define xrtm_set_coef_1 py_xrtm_set_coef_1
#undef xrtm_set_coef_n
#define xrtm_set_coef_n py_xrtm_set_coef_n
#undef xrtm_get_n_coef
#define xrtm_get_n_coef py_xrtm_get_n_coef
#undef xrtm_get_coef
#define xrtm_get_coef py_xrtm_get_coef
#undef xrtm_set_coef_l_11
#define xrtm_set_coef_l_11 py_xrtm_set_coef_l_11
#undef xrtm_set_coef_l_n1
#define xrtm_set_coef_l_n1 py_xrtm_set_coef_l_n1
#undef xrtm_set_coef_l_1n
#define xrtm_set_coef_l_1n py_xrtm_set_coef_l_1n
#undef xrtm_set_coef_l_nn
#define xrtm_set_coef_l_nn py_xrtm_set_coef_l_nn
#undef xrtm_get_coef_l
#define xrtm_get_coef_l py_xrtm_get_coef_l
#undef xrtm_set_omega_1
#define xrtm_set_omega_1 py_xrtm_set_omega_1
#undef xrtm_set_omega_n
#define xrtm_set_omega_n py_xrtm_set_omega_n
#undef xrtm_get_omega
#define xrtm_get_omega py_xrtm_get_omega
#undef xrtm_set_omega_l_11
#define xrtm_set_omega_l_11 py_xrtm_set_omega_l_11
#undef xrtm_set_omega_l_n1
#define xrtm_set_omega_l_n1 py_xrtm_set_omega_l_n1
#undef xrtm_set_omega_l_1n
#define xrtm_set_omega_l_1n py_xrtm_set_omega_l_1n
#undef xrtm_set_omega_l_nn
#define xrtm_set_omega_l_nn py_xrtm_set_omega_l_nn
#undef xrtm_get_omega_l
#define xrtm_get_omega_l py_xrtm_get_omega_l
#undef xrtm_set_ltau_1
#define xrtm_set_ltau_1 py_xrtm_set_ltau_1
#undef xrtm_set_ltau_n
#define xrtm_set_ltau_n py_xrtm_set_ltau_n
#undef xrtm_get_ltau
#define xrtm_get_ltau py_xrtm_get_ltau
#undef xrtm_set_ltau_l_11
#define xrtm_set_ltau_l_11 py_xrtm_set_ltau_l_11
#undef xrtm_set_ltau_l_n1
#define xrtm_set_ltau_l_n1 py_xrtm_set_ltau_l_n1
#undef xrtm_set_ltau_l_1n
#define xrtm_set_ltau_l_1n py_xrtm_set_ltau_l_1n
#undef xrtm_set_ltau_l_nn
#define xrtm_set_ltau_l_nn py_xrtm_set_ltau_l_nn
#undef xrtm_get_ltau_l
#define xrtm_get_ltau_l py_xrtm_get_ltau_l
#undef xrtm_set_kernel_ampfac
#define xrtm_set_kernel_ampfac py_xrtm_set_kernel_ampfac
#undef xrtm_get_kernel_ampfac
#define xrtm_get_kernel_ampfac py_xrtm_get_kernel_ampfac
#undef xrtm_set_kernel_params_1
#define xrtm_set_kernel_params_1 py_xrtm_set_kernel_params_1
#undef xrtm_set_kernel_params_n
#define xrtm_set_kernel_params_n py_xrtm_set_kernel_params_n
#undef xrtm_get_kernel_params
#define xrtm_get_kernel_params py_xrtm_get_kernel_params
#undef xrtm_set_kernel_ampfac_l_1
#define xrtm_set_kernel_ampfac_l_1 py_xrtm_set_kernel_ampfac_l_1
#undef xrtm_set_kernel_ampfac_l_n
#define xrtm_set_kernel_ampfac_l_n py_xrtm_set_kernel_ampfac_l_n
#undef xrtm_get_kernel_ampfac_l
#define xrtm_get_kernel_ampfac_l py_xrtm_get_kernel_ampfac_l
#undef xrtm_set_kernel_params_l_11
#define xrtm_set_kernel_params_l_11 py_xrtm_set_kernel_params_l_11
#undef xrtm_set_kernel_params_l_1n
#define xrtm_set_kernel_params_l_1n py_xrtm_set_kernel_params_l_1n
#undef xrtm_set_kernel_params_l_n1
#define xrtm_set_kernel_params_l_n1 py_xrtm_set_kernel_params_l_n1
#undef xrtm_set_kernel_params_l_nn
#define xrtm_set_kernel_params_l_nn py_xrtm_set_kernel_params_l_nn
#undef xrtm_get_kernel_params_l
#define xrtm_get_kernel_params_l py_xrtm_get_kernel_params_l
#undef xrtm_update_varied_layers
#define xrtm_update_varied_layers py_xrtm_update_varied_layers
#undef xrtm_qx
#define xrtm_qx py_xrtm_qx
#undef xrtm_qw
#define xrtm_qw py_xrtm_qw
#undef xrtm_kernel_qx
#define xrtm_kernel_qx py_xrtm_kernel_qx
#undef xrtm_kernel_qw
#define xrtm_kernel_qw py_xrtm_kernel_qw
#undef xrtm_solution
#define xrtm_solution py_xrtm_solution
#undef xrtm_radiance
#define xrtm_radiance py_xrtm_radiance
#undef xrtm_mean_radiance
#define xrtm_mean_radiance py_xrtm_mean_radiance
#undef xrtm_flux
#define xrtm_flux py_xrtm_flux
#undef xrtm_flux_divergence
#define xrtm_flux_divergence py_xrtm_flux_divergence
#undef xrtm_fd_create
#define xrtm_fd_create(f, d, n) (xrtm_fd_create)(f, RAW(d), n)
#undef xrtm_fd_destroy
#undef xrtm_fd_get_n_derivs
#undef xrtm_fd_set_delta
#undef xrtm_fd_get_delta
#undef xrtm_fd_set_F_iso_top_p_1
#undef xrtm_fd_set_F_iso_top_p_n
#undef xrtm_fd_get_F_iso_top_p
#undef xrtm_fd_set_F_iso_bot_p_1
#undef xrtm_fd_set_F_iso_bot_p_n
#undef xrtm_fd_get_F_iso_bot_p
#undef xrtm_fd_set_levels_b_p_1
#undef xrtm_fd_set_levels_b_p_n
#undef xrtm_fd_get_levels_b_p
#undef xrtm_fd_set_surface_b_p_1
#undef xrtm_fd_set_surface_b_p_n
#undef xrtm_fd_get_surface_b_p
#undef xrtm_fd_set_g_p_11
#undef xrtm_fd_set_g_p_n1
#undef xrtm_fd_set_g_p_1n
#undef xrtm_fd_set_g_p_nn
#undef xrtm_fd_get_g_p
#undef xrtm_fd_set_coef_p_11
#undef xrtm_fd_set_coef_p_n1
#undef xrtm_fd_set_coef_p_1n
#undef xrtm_fd_set_coef_p_nn
#undef xrtm_fd_get_coef_p
#undef xrtm_fd_set_omega_p_11
#undef xrtm_fd_set_omega_p_n1
#undef xrtm_fd_set_omega_p_1n
#undef xrtm_fd_set_omega_p_nn
#undef xrtm_fd_get_omega_p
#undef xrtm_fd_set_ltau_p_11
#undef xrtm_fd_set_ltau_p_n1
#undef xrtm_fd_set_ltau_p_1n
#undef xrtm_fd_set_ltau_p_nn
#undef xrtm_fd_get_ltau_p
#undef xrtm_fd_set_kernel_ampfac_p_1
#undef xrtm_fd_set_kernel_ampfac_p_n
#undef xrtm_fd_get_kernel_ampfac_p
#undef xrtm_fd_set_kernel_params_p_11
#undef xrtm_fd_set_kernel_params_p_1n
#undef xrtm_fd_set_kernel_params_p_n1
#undef xrtm_fd_set_kernel_params_p_nn
#undef xrtm_fd_get_kernel_params_p
#undef xrtm_fd_solution
#undef xrtm_fd_radiance
