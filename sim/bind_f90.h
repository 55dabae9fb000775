/* Written by tools/mkbind.py. */
#undef xrtm_create
#define xrtm_create f90_xrtm_create
#undef xrtm_destroy
#define xrtm_destroy f90_xrtm_destroy
#undef xrtm_get_options
#define xrtm_get_options f90_xrtm_get_options
#undef xrtm_get_solvers
#define xrtm_get_solvers f90_xrtm_get_solvers
#undef xrtm_get_max_coef
#define xrtm_get_max_coef f90_xrtm_get_max_coef
#undef xrtm_get_n_quad
#define xrtm_get_n_quad f90_xrtm_get_n_quad
#undef xrtm_get_n_stokes
#define xrtm_get_n_stokes f90_xrtm_get_n_stokes
#undef xrtm_get_n_derivs
#define xrtm_get_n_derivs f90_xrtm_get_n_derivs
#undef xrtm_get_n_layers
#define xrtm_get_n_layers f90_xrtm_get_n_layers
#undef xrtm_get_n_kernels
#define xrtm_get_n_kernels f90_xrtm_get_n_kernels
#undef xrtm_get_n_kernel_quad
#define xrtm_get_n_kernel_quad f90_xrtm_get_n_kernel_quad
#undef xrtm_get_kernel
#define xrtm_get_kernel f90_xrtm_get_kernel
#undef xrtm_get_n_out_levels
#define xrtm_get_n_out_levels f90_xrtm_get_n_out_levels
#undef xrtm_get_n_out_thetas
#define xrtm_get_n_out_thetas f90_xrtm_get_n_out_thetas
#undef xrtm_get_n_out_thetas_2
#define xrtm_get_n_out_thetas_2 f90_xrtm_get_n_out_thetas_2
#undef xrtm_set_doub_d_tau
#define xrtm_set_doub_d_tau f90_xrtm_set_doub_d_tau
#undef xrtm_get_doub_d_tau
#define xrtm_get_doub_d_tau f90_xrtm_get_doub_d_tau
#undef xrtm_set_pade_params
#define xrtm_set_pade_params f90_xrtm_set_pade_params
#undef xrtm_get_pade_params
#define xrtm_get_pade_params f90_xrtm_get_pade_params
#undef xrtm_set_sos_params
#define xrtm_set_sos_params f90_xrtm_set_sos_params
#undef xrtm_get_sos_params
#define xrtm_get_sos_params f90_xrtm_get_sos_params
#undef xrtm_set_fourier_tol
#define xrtm_set_fourier_tol f90_xrtm_set_fourier_tol
#undef xrtm_get_fourier_tol
#define xrtm_get_fourier_tol f90_xrtm_get_fourier_tol
#undef xrtm_set_lambda
#define xrtm_set_lambda f90_xrtm_set_lambda
#undef xrtm_get_lambda
#define xrtm_get_lambda f90_xrtm_get_lambda
#undef xrtm_set_planet_r
#define xrtm_set_planet_r f90_xrtm_set_planet_r
#undef xrtm_get_planet_r
#define xrtm_get_planet_r f90_xrtm_get_planet_r
#undef xrtm_set_levels_z
#define xrtm_set_levels_z f90_xrtm_set_levels_z
#undef xrtm_get_levels_z
#define xrtm_get_levels_z f90_xrtm_get_levels_z
#undef xrtm_set_out_levels
#define xrtm_set_out_levels f90_xrtm_set_out_levels
#undef xrtm_get_out_levels
#define xrtm_get_out_levels f90_xrtm_get_out_levels
#undef xrtm_set_out_taus
#define xrtm_set_out_taus f90_xrtm_set_out_taus
#undef xrtm_get_out_taus
#define xrtm_get_out_taus f90_xrtm_get_out_taus
#undef xrtm_set_out_thetas
#define xrtm_set_out_thetas f90_xrtm_set_out_thetas
#undef xrtm_get_out_thetas
#define xrtm_get_out_thetas f90_xrtm_get_out_thetas
#undef xrtm_set_F_iso_top
#define xrtm_set_F_iso_top f90_xrtm_set_F_iso_top
#undef xrtm_get_F_iso_top
#define xrtm_get_F_iso_top f90_xrtm_get_F_iso_top
#undef xrtm_set_F_iso_top_l_1
#define xrtm_set_F_iso_top_l_1 f90_xrtm_set_F_iso_top_l_1
#undef xrtm_set_F_iso_top_l_n
#define xrtm_set_F_iso_top_l_n f90_xrtm_set_F_iso_top_l_n
#undef xrtm_get_F_iso_top_l
#define xrtm_get_F_iso_top_l f90_xrtm_get_F_iso_top_l
#undef xrtm_set_F_iso_bot
#define xrtm_set_F_iso_bot f90_xrtm_set_F_iso_bot
#undef xrtm_get_F_iso_bot
#define xrtm_get_F_iso_bot f90_xrtm_get_F_iso_bot
#undef xrtm_set_F_iso_bot_l_1
#define xrtm_set_F_iso_bot_l_1 f90_xrtm_set_F_iso_bot_l_1
#undef xrtm_set_F_iso_bot_l_n
#define xrtm_set_F_iso_bot_l_n f90_xrtm_set_F_iso_bot_l_n
#undef xrtm_get_F_iso_bot_l
#define xrtm_get_F_iso_bot_l f90_xrtm_get_F_iso_bot_l
#undef xrtm_set_F_0
#define xrtm_set_F_0 f90_xrtm_set_F_0
#undef xrtm_get_F_0
#define xrtm_get_F_0 f90_xrtm_get_F_0
#undef xrtm_set_theta_0
#define xrtm_set_theta_0 f90_xrtm_set_theta_0
#undef xrtm_get_theta_0
#define xrtm_get_theta_0 f90_xrtm_get_theta_0
#undef xrtm_set_phi_0
#define xrtm_set_phi_0 f90_xrtm_set_phi_0
#undef xrtm_get_phi_0
#define xrtm_get_phi_0 f90_xrtm_get_phi_0
#undef xrtm_set_levels_b
#define xrtm_set_levels_b f90_xrtm_set_levels_b
#undef xrtm_get_levels_b
#define xrtm_get_levels_b f90_xrtm_get_levels_b
#undef xrtm_set_levels_b_l_1
#define xrtm_set_levels_b_l_1 f90_xrtm_set_levels_b_l_1
#undef xrtm_set_levels_b_l_n
#define xrtm_set_levels_b_l_n f90_xrtm_set_levels_b_l_n
#undef xrtm_get_levels_b_l
#define xrtm_get_levels_b_l f90_xrtm_get_levels_b_l
#undef xrtm_set_surface_b
#define xrtm_set_surface_b f90_xrtm_set_surface_b
#undef xrtm_get_surface_b
#define xrtm_get_surface_b f90_xrtm_get_surface_b
#undef xrtm_set_surface_b_l_1
#define xrtm_set_surface_b_l_1 f90_xrtm_set_surface_b_l_1
#undef xrtm_set_surface_b_l_n
#define xrtm_set_surface_b_l_n f90_xrtm_set_surface_b_l_n
#undef xrtm_get_surface_b_l
#define xrtm_get_surface_b_l f90_xrtm_get_surface_b_l
#undef xrtm_set_g_1
#define xrtm_set_g_1 f90_xrtm_set_g_1
#undef xrtm_set_g_n
#define xrtm_set_g_n f90_xrtm_set_g_n
#undef xrtm_get_g
#define xrtm_get_g f90_xrtm_get_g
#undef xrtm_set_g_l_11
#define xrtm_set_g_l_11 f90_xrtm_set_g_l_11
#undef xrtm_set_g_l_n1
#define xrtm_set_g_l_n1 f90_xrtm_set_g_l_n1
#undef xrtm_set_g_l_1n
#define xrtm_set_g_l_1n f90_xrtm_set_g_l_1n
#undef xrtm_set_g_l_nn
#define xrtm_set_g_l_nn f90_xrtm_set_g_l_nn
#undef xrtm_get_g_l
#define xrtm_get_g_l f90_xrtm_get_g_l
#undef xrtm_set_coef_1
#define xrtm_set_coef_1 f90_xrtm_set_coef_1
#undef xrtm_set_coef_n
#define xrtm_set_coef_n f90_xrtm_set_coef_n
#undef xrtm_get_n_coef
#define xrtm_get_n_coef f90_xrtm_get_n_coef
#undef xrtm_get_coef
#define xrtm_get_coef f90_xrtm_get_coef
#undef xrtm_set_coef_l_11
#define xrtm_set_coef_l_11 f90_xrtm_set_coef_l_11
#undef xrtm_set_coef_l_n1
#define xrtm_set_coef_l_n1 f90_xrtm_set_coef_l_n1
#undef xrtm_set_coef_l_1n
#define xrtm_set_coef_l_1n f90_xrtm_set_coef_l_1n
#undef xrtm_set_coef_l_nn
#define xrtm_set_coef_l_nn f90_xrtm_set_coef_l_nn
#undef xrtm_get_coef_l
#define xrtm_get_coef_l f90_xrtm_get_coef_l
#undef xrtm_set_omega_1
#define xrtm_set_omega_1 f90_xrtm_set_omega_1
#undef xrtm_set_omega_n
#define xrtm_set_omega_n f90_xrtm_set_omega_n
#undef xrtm_get_omega
#define xrtm_get_omega f90_xrtm_get_omega
#undef xrtm_set_omega_l_11
#define xrtm_set_omega_l_11 f90_xrtm_set_omega_l_11
#undef xrtm_set_omega_l_n1
#define xrtm_set_omega_l_n1 f90_xrtm_set_omega_l_n1
#undef xrtm_set_omega_l_1n
#define xrtm_set_omega_l_1n f90_xrtm_set_omega_l_1n
#undef xrtm_set_omega_l_nn
#define xrtm_set_omega_l_nn f90_xrtm_set_omega_l_nn
#undef xrtm_get_omega_l
#define xrtm_get_omega_l f90_xrtm_get_omega_l
#undef xrtm_set_ltau_1
#define xrtm_set_ltau_1 f90_xrtm_set_ltau_1
#undef xrtm_set_ltau_n
#define xrtm_set_ltau_n f90_xrtm_set_ltau_n
#undef xrtm_get_ltau
#define xrtm_get_ltau f90_xrtm_get_ltau
#undef xrtm_set_ltau_l_11
#define xrtm_set_ltau_l_11 f90_xrtm_set_ltau_l_11
#undef xrtm_set_ltau_l_n1
#define xrtm_set_ltau_l_n1 f90_xrtm_set_ltau_l_n1
#undef xrtm_set_ltau_l_1n
#define xrtm_set_ltau_l_1n f90_xrtm_set_ltau_l_1n
#undef xrtm_set_ltau_l_nn
#define xrtm_set_ltau_l_nn f90_xrtm_set_ltau_l_nn
#undef xrtm_get_ltau_l
#define xrtm_get_ltau_l f90_xrtm_get_ltau_l
#undef xrtm_set_kernel_ampfac
#define xrtm_set_kernel_ampfac f90_xrtm_set_kernel_ampfac
#undef xrtm_get_kernel_ampfac
#define xrtm_get_kernel_ampfac f90_xrtm_get_kernel_ampfac
#undef xrtm_set_kernel_params_1
#define xrtm_set_kernel_params_1 f90_xrtm_set_kernel_params_1
#undef xrtm_set_kernel_params_n
#define xrtm_set_kernel_params_n f90_xrtm_set_kernel_params_n
#undef xrtm_get_kernel_params
#define xrtm_get_kernel_params f90_xrtm_get_kernel_params
#undef xrtm_set_kernel_ampfac_l_1
#define xrtm_set_kernel_ampfac_l_1 f90_xrtm_set_kernel_ampfac_l_1
#undef xrtm_set_kernel_ampfac_l_n
#define xrtm_set_kernel_ampfac_l_n f90_xrtm_set_kernel_ampfac_l_n
#undef xrtm_get_kernel_ampfac_l
#define xrtm_get_kernel_ampfac_l f90_xrtm_get_kernel_ampfac_l
#undef xrtm_set_kernel_params_l_11
#define xrtm_set_kernel_params_l_11 f90_xrtm_set_kernel_params_l_11
#undef xrtm_set_kernel_params_l_1n
#define xrtm_set_kernel_params_l_1n f90_xrtm_set_kernel_params_l_1n
#undef xrtm_set_kernel_params_l_n1
#define xrtm_set_kernel_params_l_n1 f90_xrtm_set_kernel_params_l_n1
#undef xrtm_set_kernel_params_l_nn
#define xrtm_set_kernel_params_l_nn f90_xrtm_set_kernel_params_l_nn
#undef xrtm_get_kernel_params_l
#define xrtm_get_kernel_params_l f90_xrtm_get_kernel_params_l
#undef xrtm_update_varied_layers
#define xrtm_update_varied_layers f90_xrtm_update_varied_layers
#undef xrtm_qx
#define xrtm_qx f90_xrtm_qx
#undef xrtm_qw
#define xrtm_qw f90_xrtm_qw
#undef xrtm_kernel_qx
#define xrtm_kernel_qx f90_xrtm_kernel_qx
#undef xrtm_kernel_qw
#define xrtm_kernel_qw f90_xrtm_kernel_qw
#undef xrtm_solution
#define xrtm_solution f90_xrtm_solution
#undef xrtm_radiance
#define xrtm_radiance f90_xrtm_radiance
#undef xrtm_mean_radiance
#define xrtm_mean_radiance f90_xrtm_mean_radiance
#undef xrtm_flux
#define xrtm_flux f90_xrtm_flux
#undef xrtm_flux_divergence
#define xrtm_flux_divergence f90_xrtm_flux_divergence
#undef xrtm_fd_create
#define xrtm_fd_create f90_xrtm_fd_create
#undef xrtm_fd_destroy
#define xrtm_fd_destroy f90_xrtm_fd_destroy
#undef xrtm_fd_get_n_derivs
#define xrtm_fd_get_n_derivs f90_xrtm_fd_get_n_derivs
#undef xrtm_fd_set_delta
#define xrtm_fd_set_delta f90_xrtm_fd_set_delta
#undef xrtm_fd_get_delta
#define xrtm_fd_get_delta f90_xrtm_fd_get_delta
#undef xrtm_fd_set_F_iso_top_p_1
#define xrtm_fd_set_F_iso_top_p_1 f90_xrtm_fd_set_F_iso_top_p_1
#undef xrtm_fd_set_F_iso_top_p_n
#define xrtm_fd_set_F_iso_top_p_n f90_xrtm_fd_set_F_iso_top_p_n
#undef xrtm_fd_get_F_iso_top_p
#define xrtm_fd_get_F_iso_top_p f90_xrtm_fd_get_F_iso_top_p
#undef xrtm_fd_set_F_iso_bot_p_1
#define xrtm_fd_set_F_iso_bot_p_1 f90_xrtm_fd_set_F_iso_bot_p_1
#undef xrtm_fd_set_F_iso_bot_p_n
#define xrtm_fd_set_F_iso_bot_p_n f90_xrtm_fd_set_F_iso_bot_p_n
#undef xrtm_fd_get_F_iso_bot_p
#define xrtm_fd_get_F_iso_bot_p f90_xrtm_fd_get_F_iso_bot_p
#undef xrtm_fd_set_levels_b_p_1
#define xrtm_fd_set_levels_b_p_1 f90_xrtm_fd_set_levels_b_p_1
#undef xrtm_fd_set_levels_b_p_n
#define xrtm_fd_set_levels_b_p_n f90_xrtm_fd_set_levels_b_p_n
#undef xrtm_fd_get_levels_b_p
#define xrtm_fd_get_levels_b_p f90_xrtm_fd_get_levels_b_p
#undef xrtm_fd_set_surface_b_p_1
#define xrtm_fd_set_surface_b_p_1 f90_xrtm_fd_set_surface_b_p_1
#undef xrtm_fd_set_surface_b_p_n
#define xrtm_fd_set_surface_b_p_n f90_xrtm_fd_set_surface_b_p_n
#undef xrtm_fd_get_surface_b_p
#define xrtm_fd_get_surface_b_p f90_xrtm_fd_get_surface_b_p
#undef xrtm_fd_set_g_p_11
#define xrtm_fd_set_g_p_11 f90_xrtm_fd_set_g_p_11
#undef xrtm_fd_set_g_p_n1
#define xrtm_fd_set_g_p_n1 f90_xrtm_fd_set_g_p_n1
#undef xrtm_fd_set_g_p_1n
#define xrtm_fd_set_g_p_1n f90_xrtm_fd_set_g_p_1n
#undef xrtm_fd_set_g_p_nn
#define xrtm_fd_set_g_p_nn f90_xrtm_fd_set_g_p_nn
#undef xrtm_fd_get_g_p
#define xrtm_fd_get_g_p f90_xrtm_fd_get_g_p
#undef xrtm_fd_set_coef_p_11
#define xrtm_fd_set_coef_p_11 f90_xrtm_fd_set_coef_p_11
#undef xrtm_fd_set_coef_p_n1
#define xrtm_fd_set_coef_p_n1 f90_xrtm_fd_set_coef_p_n1
#undef xrtm_fd_set_coef_p_1n
#define xrtm_fd_set_coef_p_1n f90_xrtm_fd_set_coef_p_1n
#undef xrtm_fd_set_coef_p_nn
#define xrtm_fd_set_coef_p_nn f90_xrtm_fd_set_coef_p_nn
#undef xrtm_fd_get_coef_p
#define xrtm_fd_get_coef_p f90_xrtm_fd_get_coef_p
#undef xrtm_fd_set_omega_p_11
#define xrtm_fd_set_omega_p_11 f90_xrtm_fd_set_omega_p_11
#undef xrtm_fd_set_omega_p_n1
#define xrtm_fd_set_omega_p_n1 f90_xrtm_fd_set_omega_p_n1
#undef xrtm_fd_set_omega_p_1n
#define xrtm_fd_set_omega_p_1n f90_xrtm_fd_set_omega_p_1n
#undef xrtm_fd_set_omega_p_nn
#define xrtm_fd_set_omega_p_nn f90_xrtm_fd_set_omega_p_nn
#undef xrtm_fd_get_omega_p
#define xrtm_fd_get_omega_p f90_xrtm_fd_get_omega_p
#undef xrtm_fd_set_ltau_p_11
#define xrtm_fd_set_ltau_p_11 f90_xrtm_fd_set_ltau_p_11
#undef xrtm_fd_set_ltau_p_n1
#define xrtm_fd_set_ltau_p_n1 f90_xrtm_fd_set_ltau_p_n1
#undef xrtm_fd_set_ltau_p_1n
#define xrtm_fd_set_ltau_p_1n f90_xrtm_fd_set_ltau_p_1n
#undef xrtm_fd_set_ltau_p_nn
#define xrtm_fd_set_ltau_p_nn f90_xrtm_fd_set_ltau_p_nn
#undef xrtm_fd_get_ltau_p
#define xrtm_fd_get_ltau_p f90_xrtm_fd_get_ltau_p
#undef xrtm_fd_set_kernel_ampfac_p_1
#define xrtm_fd_set_kernel_ampfac_p_1 f90_xrtm_fd_set_kernel_ampfac_p_1
#undef xrtm_fd_set_kernel_ampfac_p_n
#define xrtm_fd_set_kernel_ampfac_p_n f90_xrtm_fd_set_kernel_ampfac_p_n
#undef xrtm_fd_get_kernel_ampfac_p
#define xrtm_fd_get_kernel_ampfac_p f90_xrtm_fd_get_kernel_ampfac_p
#undef xrtm_fd_set_kernel_params_p_11
#define xrtm_fd_set_kernel_params_p_11 f90_xrtm_fd_set_kernel_params_p_11
#undef xrtm_fd_set_kernel_params_p_1n
#define xrtm_fd_set_kernel_params_p_1n f90_xrtm_fd_set_kernel_params_p_1n
#undef xrtm_fd_set_kernel_params_p_n1
#define xrtm_fd_set_kernel_params_p_n1 f90_xrtm_fd_set_kernel_params_p_n1
#undef xrtm_fd_set_kernel_params_p_nn
#define xrtm_fd_set_kernel_params_p_nn f90_xrtm_fd_set_kernel_params_p_nn
#undef xrtm_fd_get_kernel_params_p
#define xrtm_fd_get_kernel_params_p f90_xrtm_fd_get_kernel_params_p
#undef xrtm_fd_solution
#define xrtm_fd_solution f90_xrtm_fd_solution
#undef xrtm_fd_radiance
#define xrtm_fd_radiance f90_xrtm_fd_radiance
