! Written by tools/mkbind.py.
module sim_shim
  use iso_c_binding
  use xrtm_int_f90
  use xrtm_fd_int_f90
  implicit none
contains
  subroutine s90_xrtm_create(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, kernels_x1, n_out_levels, n_out_thetas, e_) bind(c, name="s90_xrtm_create")
    type(xrtm_type) :: d
    integer(c_int), value :: options
    integer(c_int), value :: solvers
    integer(c_int), value :: max_coef
    integer(c_int), value :: n_quad
    integer(c_int), value :: n_stokes
    integer(c_int), value :: n_derivs
    integer(c_int), value :: n_layers
    integer(c_int), value :: n_theta_0s
    integer(c_int), value :: n_kernels
    integer(c_int), value :: n_kernel_quad
    integer(c_int), value :: kernels_x1
    integer(c_int) :: kernels(kernels_x1)
    integer(c_int), value :: n_out_levels
    integer(c_int), value :: n_out_thetas
    integer(c_int) :: e_
    call xrtm_create_f90(d, options, solvers, max_coef, n_quad, n_stokes, n_derivs, n_layers, n_theta_0s, n_kernels, n_kernel_quad, kernels, n_out_levels, n_out_thetas, e_)
  end subroutine
  subroutine s90_xrtm_destroy(d, e_) bind(c, name="s90_xrtm_destroy")
    type(xrtm_type) :: d
    integer(c_int) :: e_
    call xrtm_destroy_f90(d, e_)
  end subroutine
  function s90_xrtm_get_options(d) result(r_) bind(c, name="s90_xrtm_get_options")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_options_f90(d)
  end function
  function s90_xrtm_get_solvers(d) result(r_) bind(c, name="s90_xrtm_get_solvers")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_solvers_f90(d)
  end function
  function s90_xrtm_get_max_coef(d) result(r_) bind(c, name="s90_xrtm_get_max_coef")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_max_coef_f90(d)
  end function
  function s90_xrtm_get_n_quad(d) result(r_) bind(c, name="s90_xrtm_get_n_quad")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_quad_f90(d)
  end function
  function s90_xrtm_get_n_stokes(d) result(r_) bind(c, name="s90_xrtm_get_n_stokes")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_stokes_f90(d)
  end function
  function s90_xrtm_get_n_derivs(d) result(r_) bind(c, name="s90_xrtm_get_n_derivs")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_derivs_f90(d)
  end function
  function s90_xrtm_get_n_layers(d) result(r_) bind(c, name="s90_xrtm_get_n_layers")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_layers_f90(d)
  end function
  function s90_xrtm_get_n_kernels(d) result(r_) bind(c, name="s90_xrtm_get_n_kernels")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_kernels_f90(d)
  end function
  function s90_xrtm_get_n_kernel_quad(d) result(r_) bind(c, name="s90_xrtm_get_n_kernel_quad")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_kernel_quad_f90(d)
  end function
  function s90_xrtm_get_kernel(d, i_kernel) result(r_) bind(c, name="s90_xrtm_get_kernel")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    r_ = xrtm_get_kernel_f90(d, i_kernel)
  end function
  function s90_xrtm_get_n_out_levels(d) result(r_) bind(c, name="s90_xrtm_get_n_out_levels")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_out_levels_f90(d)
  end function
  function s90_xrtm_get_n_out_thetas(d) result(r_) bind(c, name="s90_xrtm_get_n_out_thetas")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_out_thetas_f90(d)
  end function
  function s90_xrtm_get_n_out_thetas_2(d) result(r_) bind(c, name="s90_xrtm_get_n_out_thetas_2")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_n_out_thetas_2_f90(d)
  end function
  subroutine s90_xrtm_set_doub_d_tau(d, d_tau, e_) bind(c, name="s90_xrtm_set_doub_d_tau")
    type(xrtm_type) :: d
    real(c_double), value :: d_tau
    integer(c_int) :: e_
    call xrtm_set_doub_d_tau_f90(d, d_tau, e_)
  end subroutine
  function s90_xrtm_get_doub_d_tau(d) result(r_) bind(c, name="s90_xrtm_get_doub_d_tau")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_doub_d_tau_f90(d)
  end function
  subroutine s90_xrtm_set_pade_params(d, pade_s, pade_r, e_) bind(c, name="s90_xrtm_set_pade_params")
    type(xrtm_type) :: d
    integer(c_int), value :: pade_s
    integer(c_int), value :: pade_r
    integer(c_int) :: e_
    call xrtm_set_pade_params_f90(d, pade_s, pade_r, e_)
  end subroutine
  subroutine s90_xrtm_get_pade_params(d, pade_s, pade_r, e_) bind(c, name="s90_xrtm_get_pade_params")
    type(xrtm_type) :: d
    integer(c_int) :: pade_s
    integer(c_int) :: pade_r
    integer(c_int) :: e_
    call xrtm_get_pade_params_f90(d, pade_s, pade_r, e_)
  end subroutine
  subroutine s90_xrtm_set_sos_params(d, max_os, max_tau, sos_tol, e_) bind(c, name="s90_xrtm_set_sos_params")
    type(xrtm_type) :: d
    integer(c_int), value :: max_os
    real(c_double), value :: max_tau
    real(c_double), value :: sos_tol
    integer(c_int) :: e_
    call xrtm_set_sos_params_f90(d, max_os, max_tau, sos_tol, e_)
  end subroutine
  subroutine s90_xrtm_get_sos_params(d, max_os, max_tau, sos_tol, e_) bind(c, name="s90_xrtm_get_sos_params")
    type(xrtm_type) :: d
    integer(c_int) :: max_os
    real(c_double) :: max_tau
    real(c_double) :: sos_tol
    integer(c_int) :: e_
    call xrtm_get_sos_params_f90(d, max_os, max_tau, sos_tol, e_)
  end subroutine
  subroutine s90_xrtm_set_fourier_tol(d, fourier_tol, e_) bind(c, name="s90_xrtm_set_fourier_tol")
    type(xrtm_type) :: d
    real(c_double), value :: fourier_tol
    integer(c_int) :: e_
    call xrtm_set_fourier_tol_f90(d, fourier_tol, e_)
  end subroutine
  function s90_xrtm_get_fourier_tol(d) result(r_) bind(c, name="s90_xrtm_get_fourier_tol")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_fourier_tol_f90(d)
  end function
  subroutine s90_xrtm_set_lambda(d, lambda, e_) bind(c, name="s90_xrtm_set_lambda")
    type(xrtm_type) :: d
    real(c_double), value :: lambda
    integer(c_int) :: e_
    call xrtm_set_lambda_f90(d, lambda, e_)
  end subroutine
  function s90_xrtm_get_lambda(d) result(r_) bind(c, name="s90_xrtm_get_lambda")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_lambda_f90(d)
  end function
  subroutine s90_xrtm_set_planet_r(d, planet_r, e_) bind(c, name="s90_xrtm_set_planet_r")
    type(xrtm_type) :: d
    real(c_double), value :: planet_r
    integer(c_int) :: e_
    call xrtm_set_planet_r_f90(d, planet_r, e_)
  end subroutine
  function s90_xrtm_get_planet_r(d) result(r_) bind(c, name="s90_xrtm_get_planet_r")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_planet_r_f90(d)
  end function
  subroutine s90_xrtm_set_levels_z(d, levels_z, levels_z_x1, e_) bind(c, name="s90_xrtm_set_levels_z")
    type(xrtm_type) :: d
    integer(c_int), value :: levels_z_x1
    real(c_double) :: levels_z(levels_z_x1)
    integer(c_int) :: e_
    call xrtm_set_levels_z_f90(d, levels_z, e_)
  end subroutine
  subroutine s90_xrtm_get_levels_z(d, levels_z, levels_z_x1, e_) bind(c, name="s90_xrtm_get_levels_z")
    type(xrtm_type) :: d
    integer(c_int), value :: levels_z_x1
    real(c_double) :: levels_z(levels_z_x1)
    integer(c_int) :: e_
    call xrtm_get_levels_z_f90(d, levels_z, e_)
  end subroutine
  subroutine s90_xrtm_set_out_levels(d, out_levels, out_levels_x1, e_) bind(c, name="s90_xrtm_set_out_levels")
    type(xrtm_type) :: d
    integer(c_int), value :: out_levels_x1
    integer(c_int) :: out_levels(out_levels_x1)
    integer(c_int) :: e_
    call xrtm_set_out_levels_f90(d, out_levels, e_)
  end subroutine
  subroutine s90_xrtm_get_out_levels(d, out_levels, out_levels_x1, e_) bind(c, name="s90_xrtm_get_out_levels")
    type(xrtm_type) :: d
    integer(c_int), value :: out_levels_x1
    integer(c_int) :: out_levels(out_levels_x1)
    integer(c_int) :: e_
    call xrtm_get_out_levels_f90(d, out_levels, e_)
  end subroutine
  subroutine s90_xrtm_set_out_taus(d, out_taus, out_taus_x1, e_) bind(c, name="s90_xrtm_set_out_taus")
    type(xrtm_type) :: d
    integer(c_int), value :: out_taus_x1
    real(c_double) :: out_taus(out_taus_x1)
    integer(c_int) :: e_
    call xrtm_set_out_taus_f90(d, out_taus, e_)
  end subroutine
  subroutine s90_xrtm_get_out_taus(d, out_taus, out_taus_x1, e_) bind(c, name="s90_xrtm_get_out_taus")
    type(xrtm_type) :: d
    integer(c_int), value :: out_taus_x1
    real(c_double) :: out_taus(out_taus_x1)
    integer(c_int) :: e_
    call xrtm_get_out_taus_f90(d, out_taus, e_)
  end subroutine
  subroutine s90_xrtm_set_out_thetas(d, out_thetas, out_thetas_x1, e_) bind(c, name="s90_xrtm_set_out_thetas")
    type(xrtm_type) :: d
    integer(c_int), value :: out_thetas_x1
    real(c_double) :: out_thetas(out_thetas_x1)
    integer(c_int) :: e_
    call xrtm_set_out_thetas_f90(d, out_thetas, e_)
  end subroutine
  subroutine s90_xrtm_get_out_thetas(d, out_thetas, out_thetas_x1, e_) bind(c, name="s90_xrtm_get_out_thetas")
    type(xrtm_type) :: d
    integer(c_int), value :: out_thetas_x1
    real(c_double) :: out_thetas(out_thetas_x1)
    integer(c_int) :: e_
    call xrtm_get_out_thetas_f90(d, out_thetas, e_)
  end subroutine
  subroutine s90_xrtm_set_f_iso_top(d, F_iso_top, e_) bind(c, name="s90_xrtm_set_f_iso_top")
    type(xrtm_type) :: d
    real(c_double), value :: F_iso_top
    integer(c_int) :: e_
    call xrtm_set_F_iso_top_f90(d, F_iso_top, e_)
  end subroutine
  function s90_xrtm_get_f_iso_top(d) result(r_) bind(c, name="s90_xrtm_get_f_iso_top")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_F_iso_top_f90(d)
  end function
  subroutine s90_xrtm_set_f_iso_top_l_1(d, i_deriv, F_iso_top_l, e_) bind(c, name="s90_xrtm_set_f_iso_top_l_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: F_iso_top_l
    integer(c_int) :: e_
    call xrtm_set_F_iso_top_l_1_f90(d, i_deriv, F_iso_top_l, e_)
  end subroutine
  subroutine s90_xrtm_set_f_iso_top_l_n(d, F_iso_top_l, F_iso_top_l_x1, e_) bind(c, name="s90_xrtm_set_f_iso_top_l_n")
    type(xrtm_type) :: d
    integer(c_int), value :: F_iso_top_l_x1
    real(c_double) :: F_iso_top_l(F_iso_top_l_x1)
    integer(c_int) :: e_
    call xrtm_set_F_iso_top_l_n_f90(d, F_iso_top_l, e_)
  end subroutine
  function s90_xrtm_get_f_iso_top_l(d, i_deriv) result(r_) bind(c, name="s90_xrtm_get_f_iso_top_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_F_iso_top_l_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_set_f_iso_bot(d, F_iso_bot, e_) bind(c, name="s90_xrtm_set_f_iso_bot")
    type(xrtm_type) :: d
    real(c_double), value :: F_iso_bot
    integer(c_int) :: e_
    call xrtm_set_F_iso_bot_f90(d, F_iso_bot, e_)
  end subroutine
  function s90_xrtm_get_f_iso_bot(d) result(r_) bind(c, name="s90_xrtm_get_f_iso_bot")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_F_iso_bot_f90(d)
  end function
  subroutine s90_xrtm_set_f_iso_bot_l_1(d, i_deriv, F_iso_bot_l, e_) bind(c, name="s90_xrtm_set_f_iso_bot_l_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: F_iso_bot_l
    integer(c_int) :: e_
    call xrtm_set_F_iso_bot_l_1_f90(d, i_deriv, F_iso_bot_l, e_)
  end subroutine
  subroutine s90_xrtm_set_f_iso_bot_l_n(d, F_iso_bot_l, F_iso_bot_l_x1, e_) bind(c, name="s90_xrtm_set_f_iso_bot_l_n")
    type(xrtm_type) :: d
    integer(c_int), value :: F_iso_bot_l_x1
    real(c_double) :: F_iso_bot_l(F_iso_bot_l_x1)
    integer(c_int) :: e_
    call xrtm_set_F_iso_bot_l_n_f90(d, F_iso_bot_l, e_)
  end subroutine
  function s90_xrtm_get_f_iso_bot_l(d, i_deriv) result(r_) bind(c, name="s90_xrtm_get_f_iso_bot_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_F_iso_bot_l_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_set_f_0(d, F_0, e_) bind(c, name="s90_xrtm_set_f_0")
    type(xrtm_type) :: d
    real(c_double), value :: F_0
    integer(c_int) :: e_
    call xrtm_set_F_0_f90(d, F_0, e_)
  end subroutine
  function s90_xrtm_get_f_0(d) result(r_) bind(c, name="s90_xrtm_get_f_0")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_F_0_f90(d)
  end function
  subroutine s90_xrtm_set_theta_0(d, theta_0, e_) bind(c, name="s90_xrtm_set_theta_0")
    type(xrtm_type) :: d
    real(c_double), value :: theta_0
    integer(c_int) :: e_
    call xrtm_set_theta_0_f90(d, theta_0, e_)
  end subroutine
  function s90_xrtm_get_theta_0(d) result(r_) bind(c, name="s90_xrtm_get_theta_0")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_theta_0_f90(d)
  end function
  subroutine s90_xrtm_set_phi_0(d, phi_0, e_) bind(c, name="s90_xrtm_set_phi_0")
    type(xrtm_type) :: d
    real(c_double), value :: phi_0
    integer(c_int) :: e_
    call xrtm_set_phi_0_f90(d, phi_0, e_)
  end subroutine
  function s90_xrtm_get_phi_0(d) result(r_) bind(c, name="s90_xrtm_get_phi_0")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_phi_0_f90(d)
  end function
  subroutine s90_xrtm_set_levels_b(d, levels_b, levels_b_x1, e_) bind(c, name="s90_xrtm_set_levels_b")
    type(xrtm_type) :: d
    integer(c_int), value :: levels_b_x1
    real(c_double) :: levels_b(levels_b_x1)
    integer(c_int) :: e_
    call xrtm_set_levels_b_f90(d, levels_b, e_)
  end subroutine
  subroutine s90_xrtm_get_levels_b(d, levels_b, levels_b_x1, e_) bind(c, name="s90_xrtm_get_levels_b")
    type(xrtm_type) :: d
    integer(c_int), value :: levels_b_x1
    real(c_double) :: levels_b(levels_b_x1)
    integer(c_int) :: e_
    call xrtm_get_levels_b_f90(d, levels_b, e_)
  end subroutine
  subroutine s90_xrtm_set_levels_b_l_1(d, i_deriv, levels_b_l, levels_b_l_x1, e_) bind(c, name="s90_xrtm_set_levels_b_l_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: levels_b_l_x1
    real(c_double) :: levels_b_l(levels_b_l_x1)
    integer(c_int) :: e_
    call xrtm_set_levels_b_l_1_f90(d, i_deriv, levels_b_l, e_)
  end subroutine
  subroutine s90_xrtm_set_levels_b_l_n(d, levels_b_l, levels_b_l_x1, levels_b_l_x2, e_) bind(c, name="s90_xrtm_set_levels_b_l_n")
    type(xrtm_type) :: d
    integer(c_int), value :: levels_b_l_x1, levels_b_l_x2
    real(c_double) :: levels_b_l(levels_b_l_x1, levels_b_l_x2)
    integer(c_int) :: e_
    call xrtm_set_levels_b_l_n_f90(d, levels_b_l, e_)
  end subroutine
  subroutine s90_xrtm_get_levels_b_l(d, i_deriv, levels_b_l, levels_b_l_x1, e_) bind(c, name="s90_xrtm_get_levels_b_l")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: levels_b_l_x1
    real(c_double) :: levels_b_l(levels_b_l_x1)
    integer(c_int) :: e_
    call xrtm_get_levels_b_l_f90(d, i_deriv, levels_b_l, e_)
  end subroutine
  subroutine s90_xrtm_set_surface_b(d, surface_b, e_) bind(c, name="s90_xrtm_set_surface_b")
    type(xrtm_type) :: d
    real(c_double), value :: surface_b
    integer(c_int) :: e_
    call xrtm_set_surface_b_f90(d, surface_b, e_)
  end subroutine
  function s90_xrtm_get_surface_b(d) result(r_) bind(c, name="s90_xrtm_get_surface_b")
    real(c_double) :: r_
    type(xrtm_type) :: d
    r_ = xrtm_get_surface_b_f90(d)
  end function
  subroutine s90_xrtm_set_surface_b_l_1(d, i_deriv, surface_b_l, e_) bind(c, name="s90_xrtm_set_surface_b_l_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: surface_b_l
    integer(c_int) :: e_
    call xrtm_set_surface_b_l_1_f90(d, i_deriv, surface_b_l, e_)
  end subroutine
  subroutine s90_xrtm_set_surface_b_l_n(d, surface_b_l, surface_b_l_x1, e_) bind(c, name="s90_xrtm_set_surface_b_l_n")
    type(xrtm_type) :: d
    integer(c_int), value :: surface_b_l_x1
    real(c_double) :: surface_b_l(surface_b_l_x1)
    integer(c_int) :: e_
    call xrtm_set_surface_b_l_n_f90(d, surface_b_l, e_)
  end subroutine
  function s90_xrtm_get_surface_b_l(d, i_deriv) result(r_) bind(c, name="s90_xrtm_get_surface_b_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_surface_b_l_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_set_g_1(d, i_layer, g, e_) bind(c, name="s90_xrtm_set_g_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    real(c_double), value :: g
    integer(c_int) :: e_
    call xrtm_set_g_1_f90(d, i_layer, g, e_)
  end subroutine
  subroutine s90_xrtm_set_g_n(d, g, g_x1, e_) bind(c, name="s90_xrtm_set_g_n")
    type(xrtm_type) :: d
    integer(c_int), value :: g_x1
    real(c_double) :: g(g_x1)
    integer(c_int) :: e_
    call xrtm_set_g_n_f90(d, g, e_)
  end subroutine
  function s90_xrtm_get_g(d, i_layer) result(r_) bind(c, name="s90_xrtm_get_g")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    r_ = xrtm_get_g_f90(d, i_layer)
  end function
  subroutine s90_xrtm_set_g_l_11(d, i_layer, i_deriv, g_l, e_) bind(c, name="s90_xrtm_set_g_l_11")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: g_l
    integer(c_int) :: e_
    call xrtm_set_g_l_11_f90(d, i_layer, i_deriv, g_l, e_)
  end subroutine
  subroutine s90_xrtm_set_g_l_n1(d, i_deriv, g_l, g_l_x1, e_) bind(c, name="s90_xrtm_set_g_l_n1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: g_l_x1
    real(c_double) :: g_l(g_l_x1)
    integer(c_int) :: e_
    call xrtm_set_g_l_n1_f90(d, i_deriv, g_l, e_)
  end subroutine
  subroutine s90_xrtm_set_g_l_1n(d, i_layer, g_l, g_l_x1, e_) bind(c, name="s90_xrtm_set_g_l_1n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: g_l_x1
    real(c_double) :: g_l(g_l_x1)
    integer(c_int) :: e_
    call xrtm_set_g_l_1n_f90(d, i_layer, g_l, e_)
  end subroutine
  subroutine s90_xrtm_set_g_l_nn(d, g_l, g_l_x1, g_l_x2, e_) bind(c, name="s90_xrtm_set_g_l_nn")
    type(xrtm_type) :: d
    integer(c_int), value :: g_l_x1, g_l_x2
    real(c_double) :: g_l(g_l_x1, g_l_x2)
    integer(c_int) :: e_
    call xrtm_set_g_l_nn_f90(d, g_l, e_)
  end subroutine
  function s90_xrtm_get_g_l(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_get_g_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_g_l_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_set_coef_1(d, i_layer, n_coef_layer, coef, coef_x1, coef_x2, e_) bind(c, name="s90_xrtm_set_coef_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: n_coef_layer
    integer(c_int), value :: coef_x1, coef_x2
    real(c_double) :: coef(coef_x1, coef_x2)
    integer(c_int) :: e_
    call xrtm_set_coef_1_f90(d, i_layer, n_coef_layer, coef, e_)
  end subroutine
  subroutine s90_xrtm_set_coef_n(d, n_coef_layer, n_coef_layer_x1, coef, coef_x1, coef_x2, coef_x3, e_) bind(c, name="s90_xrtm_set_coef_n")
    type(xrtm_type) :: d
    integer(c_int), value :: n_coef_layer_x1
    integer(c_int) :: n_coef_layer(n_coef_layer_x1)
    integer(c_int), value :: coef_x1, coef_x2, coef_x3
    real(c_double) :: coef(coef_x1, coef_x2, coef_x3)
    integer(c_int) :: e_
    call xrtm_set_coef_n_f90(d, n_coef_layer, coef, e_)
  end subroutine
  function s90_xrtm_get_n_coef(d, i_layer) result(r_) bind(c, name="s90_xrtm_get_n_coef")
    integer(c_int) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    r_ = xrtm_get_n_coef_f90(d, i_layer)
  end function
  function s90_xrtm_get_coef(d, i_layer, i_elem, i_coef) result(r_) bind(c, name="s90_xrtm_get_coef")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_elem
    integer(c_int), value :: i_coef
    r_ = xrtm_get_coef_f90(d, i_layer, i_elem, i_coef)
  end function
  subroutine s90_xrtm_set_coef_l_11(d, i_layer, i_deriv, coef_l, coef_l_x1, coef_l_x2, e_) bind(c, name="s90_xrtm_set_coef_l_11")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    integer(c_int), value :: coef_l_x1, coef_l_x2
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2)
    integer(c_int) :: e_
    call xrtm_set_coef_l_11_f90(d, i_layer, i_deriv, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_set_coef_l_n1(d, i_deriv, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, e_) bind(c, name="s90_xrtm_set_coef_l_n1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3)
    integer(c_int) :: e_
    call xrtm_set_coef_l_n1_f90(d, i_deriv, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_set_coef_l_1n(d, i_layer, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, e_) bind(c, name="s90_xrtm_set_coef_l_1n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3)
    integer(c_int) :: e_
    call xrtm_set_coef_l_1n_f90(d, i_layer, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_set_coef_l_nn(d, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4, e_) bind(c, name="s90_xrtm_set_coef_l_nn")
    type(xrtm_type) :: d
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4)
    integer(c_int) :: e_
    call xrtm_set_coef_l_nn_f90(d, coef_l, e_)
  end subroutine
  function s90_xrtm_get_coef_l(d, i_layer, i_deriv, i_elem, i_coef) result(r_) bind(c, name="s90_xrtm_get_coef_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_elem
    integer(c_int), value :: i_coef
    r_ = xrtm_get_coef_l_f90(d, i_layer, i_deriv, i_elem, i_coef)
  end function
  subroutine s90_xrtm_set_omega_1(d, i_layer, omega, e_) bind(c, name="s90_xrtm_set_omega_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    real(c_double), value :: omega
    integer(c_int) :: e_
    call xrtm_set_omega_1_f90(d, i_layer, omega, e_)
  end subroutine
  subroutine s90_xrtm_set_omega_n(d, omega, omega_x1, e_) bind(c, name="s90_xrtm_set_omega_n")
    type(xrtm_type) :: d
    integer(c_int), value :: omega_x1
    real(c_double) :: omega(omega_x1)
    integer(c_int) :: e_
    call xrtm_set_omega_n_f90(d, omega, e_)
  end subroutine
  function s90_xrtm_get_omega(d, i_layer) result(r_) bind(c, name="s90_xrtm_get_omega")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    r_ = xrtm_get_omega_f90(d, i_layer)
  end function
  subroutine s90_xrtm_set_omega_l_11(d, i_layer, i_deriv, omega_l, e_) bind(c, name="s90_xrtm_set_omega_l_11")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: omega_l
    integer(c_int) :: e_
    call xrtm_set_omega_l_11_f90(d, i_layer, i_deriv, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_set_omega_l_n1(d, i_deriv, omega_l, omega_l_x1, e_) bind(c, name="s90_xrtm_set_omega_l_n1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: omega_l_x1
    real(c_double) :: omega_l(omega_l_x1)
    integer(c_int) :: e_
    call xrtm_set_omega_l_n1_f90(d, i_deriv, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_set_omega_l_1n(d, i_layer, omega_l, omega_l_x1, e_) bind(c, name="s90_xrtm_set_omega_l_1n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: omega_l_x1
    real(c_double) :: omega_l(omega_l_x1)
    integer(c_int) :: e_
    call xrtm_set_omega_l_1n_f90(d, i_layer, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_set_omega_l_nn(d, omega_l, omega_l_x1, omega_l_x2, e_) bind(c, name="s90_xrtm_set_omega_l_nn")
    type(xrtm_type) :: d
    integer(c_int), value :: omega_l_x1, omega_l_x2
    real(c_double) :: omega_l(omega_l_x1, omega_l_x2)
    integer(c_int) :: e_
    call xrtm_set_omega_l_nn_f90(d, omega_l, e_)
  end subroutine
  function s90_xrtm_get_omega_l(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_get_omega_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_omega_l_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_set_ltau_1(d, i_layer, ltau, e_) bind(c, name="s90_xrtm_set_ltau_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    real(c_double), value :: ltau
    integer(c_int) :: e_
    call xrtm_set_ltau_1_f90(d, i_layer, ltau, e_)
  end subroutine
  subroutine s90_xrtm_set_ltau_n(d, ltau, ltau_x1, e_) bind(c, name="s90_xrtm_set_ltau_n")
    type(xrtm_type) :: d
    integer(c_int), value :: ltau_x1
    real(c_double) :: ltau(ltau_x1)
    integer(c_int) :: e_
    call xrtm_set_ltau_n_f90(d, ltau, e_)
  end subroutine
  function s90_xrtm_get_ltau(d, i_layer) result(r_) bind(c, name="s90_xrtm_get_ltau")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    r_ = xrtm_get_ltau_f90(d, i_layer)
  end function
  subroutine s90_xrtm_set_ltau_l_11(d, i_layer, i_deriv, ltau_l, e_) bind(c, name="s90_xrtm_set_ltau_l_11")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: ltau_l
    integer(c_int) :: e_
    call xrtm_set_ltau_l_11_f90(d, i_layer, i_deriv, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_set_ltau_l_n1(d, i_deriv, ltau_l, ltau_l_x1, e_) bind(c, name="s90_xrtm_set_ltau_l_n1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: ltau_l_x1
    real(c_double) :: ltau_l(ltau_l_x1)
    integer(c_int) :: e_
    call xrtm_set_ltau_l_n1_f90(d, i_deriv, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_set_ltau_l_1n(d, i_layer, ltau_l, ltau_l_x1, e_) bind(c, name="s90_xrtm_set_ltau_l_1n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: ltau_l_x1
    real(c_double) :: ltau_l(ltau_l_x1)
    integer(c_int) :: e_
    call xrtm_set_ltau_l_1n_f90(d, i_layer, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_set_ltau_l_nn(d, ltau_l, ltau_l_x1, ltau_l_x2, e_) bind(c, name="s90_xrtm_set_ltau_l_nn")
    type(xrtm_type) :: d
    integer(c_int), value :: ltau_l_x1, ltau_l_x2
    real(c_double) :: ltau_l(ltau_l_x1, ltau_l_x2)
    integer(c_int) :: e_
    call xrtm_set_ltau_l_nn_f90(d, ltau_l, e_)
  end subroutine
  function s90_xrtm_get_ltau_l(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_get_ltau_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_ltau_l_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_set_kernel_ampfac(d, i_kernel, ampfac, e_) bind(c, name="s90_xrtm_set_kernel_ampfac")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    real(c_double), value :: ampfac
    integer(c_int) :: e_
    call xrtm_set_kernel_ampfac_f90(d, i_kernel, ampfac, e_)
  end subroutine
  function s90_xrtm_get_kernel_ampfac(d, i_kernel) result(r_) bind(c, name="s90_xrtm_get_kernel_ampfac")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    r_ = xrtm_get_kernel_ampfac_f90(d, i_kernel)
  end function
  subroutine s90_xrtm_set_kernel_params_1(d, i_kernel, i_param, param, e_) bind(c, name="s90_xrtm_set_kernel_params_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_param
    real(c_double), value :: param
    integer(c_int) :: e_
    call xrtm_set_kernel_params_1_f90(d, i_kernel, i_param, param, e_)
  end subroutine
  subroutine s90_xrtm_set_kernel_params_n(d, i_kernel, params, params_x1, e_) bind(c, name="s90_xrtm_set_kernel_params_n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: params_x1
    real(c_double) :: params(params_x1)
    integer(c_int) :: e_
    call xrtm_set_kernel_params_n_f90(d, i_kernel, params, e_)
  end subroutine
  function s90_xrtm_get_kernel_params(d, i_kernel, i_param) result(r_) bind(c, name="s90_xrtm_get_kernel_params")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_param
    r_ = xrtm_get_kernel_params_f90(d, i_kernel, i_param)
  end function
  subroutine s90_xrtm_set_kernel_ampfac_l_1(d, i_kernel, i_deriv, ampfac_l, e_) bind(c, name="s90_xrtm_set_kernel_ampfac_l_1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    real(c_double), value :: ampfac_l
    integer(c_int) :: e_
    call xrtm_set_kernel_ampfac_l_1_f90(d, i_kernel, i_deriv, ampfac_l, e_)
  end subroutine
  subroutine s90_xrtm_set_kernel_ampfac_l_n(d, i_kernel, ampfac_l, ampfac_l_x1, e_) bind(c, name="s90_xrtm_set_kernel_ampfac_l_n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: ampfac_l_x1
    real(c_double) :: ampfac_l(ampfac_l_x1)
    integer(c_int) :: e_
    call xrtm_set_kernel_ampfac_l_n_f90(d, i_kernel, ampfac_l, e_)
  end subroutine
  function s90_xrtm_get_kernel_ampfac_l(d, i_kernel, i_deriv) result(r_) bind(c, name="s90_xrtm_get_kernel_ampfac_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    r_ = xrtm_get_kernel_ampfac_l_f90(d, i_kernel, i_deriv)
  end function
  subroutine s90_xrtm_set_kernel_params_l_11(d, i_kernel, i_deriv, i_param, param_l, e_) bind(c, name="s90_xrtm_set_kernel_params_l_11")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_param
    real(c_double), value :: param_l
    integer(c_int) :: e_
    call xrtm_set_kernel_params_l_11_f90(d, i_kernel, i_deriv, i_param, param_l, e_)
  end subroutine
  subroutine s90_xrtm_set_kernel_params_l_1n(d, i_kernel, i_deriv, params_l, params_l_x1, e_) bind(c, name="s90_xrtm_set_kernel_params_l_1n")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: params_l_x1
    real(c_double) :: params_l(params_l_x1)
    integer(c_int) :: e_
    call xrtm_set_kernel_params_l_1n_f90(d, i_kernel, i_deriv, params_l, e_)
  end subroutine
  subroutine s90_xrtm_set_kernel_params_l_n1(d, i_kernel, i_param, params_l, params_l_x1, e_) bind(c, name="s90_xrtm_set_kernel_params_l_n1")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_param
    integer(c_int), value :: params_l_x1
    real(c_double) :: params_l(params_l_x1)
    integer(c_int) :: e_
    call xrtm_set_kernel_params_l_n1_f90(d, i_kernel, i_param, params_l, e_)
  end subroutine
  subroutine s90_xrtm_set_kernel_params_l_nn(d, i_kernel, params_l, params_l_x1, params_l_x2, e_) bind(c, name="s90_xrtm_set_kernel_params_l_nn")
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: params_l_x1, params_l_x2
    real(c_double) :: params_l(params_l_x1, params_l_x2)
    integer(c_int) :: e_
    call xrtm_set_kernel_params_l_nn_f90(d, i_kernel, params_l, e_)
  end subroutine
  function s90_xrtm_get_kernel_params_l(d, i_kernel, i_deriv, i_param) result(r_) bind(c, name="s90_xrtm_get_kernel_params_l")
    real(c_double) :: r_
    type(xrtm_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_param
    r_ = xrtm_get_kernel_params_l_f90(d, i_kernel, i_deriv, i_param)
  end function
  subroutine s90_xrtm_update_varied_layers(d, e_) bind(c, name="s90_xrtm_update_varied_layers")
    type(xrtm_type) :: d
    integer(c_int) :: e_
    call xrtm_update_varied_layers_f90(d, e_)
  end subroutine
  subroutine s90_xrtm_qx(d, qx, qx_x1, e_) bind(c, name="s90_xrtm_qx")
    type(xrtm_type) :: d
    integer(c_int), value :: qx_x1
    real(c_double) :: qx(qx_x1)
    integer(c_int) :: e_
    call xrtm_qx_f90(d, qx, e_)
  end subroutine
  subroutine s90_xrtm_qw(d, qw, qw_x1, e_) bind(c, name="s90_xrtm_qw")
    type(xrtm_type) :: d
    integer(c_int), value :: qw_x1
    real(c_double) :: qw(qw_x1)
    integer(c_int) :: e_
    call xrtm_qw_f90(d, qw, e_)
  end subroutine
  subroutine s90_xrtm_kernel_qx(d, kernel_qx, kernel_qx_x1, e_) bind(c, name="s90_xrtm_kernel_qx")
    type(xrtm_type) :: d
    integer(c_int), value :: kernel_qx_x1
    real(c_double) :: kernel_qx(kernel_qx_x1)
    integer(c_int) :: e_
    call xrtm_kernel_qx_f90(d, kernel_qx, e_)
  end subroutine
  subroutine s90_xrtm_kernel_qw(d, kernel_qw, kernel_qw_x1, e_) bind(c, name="s90_xrtm_kernel_qw")
    type(xrtm_type) :: d
    integer(c_int), value :: kernel_qw_x1
    real(c_double) :: kernel_qw(kernel_qw_x1)
    integer(c_int) :: e_
    call xrtm_kernel_qw_f90(d, kernel_qw, e_)
  end subroutine
  subroutine s90_xrtm_solution(d, solver, solutions, n_out_phis, out_phis, out_phis_x1, out_phis_x2, I_p, I_p_x1, I_p_x2, I_p_x3, I_p_x4, I_m, I_m_x1, I_m_x2, I_m_x3, I_m_x4, K_p, K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5, K_m, K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5, mean_p, mean_p_x1, mean_m, mean_m_x1, mean_p_l, mean_p_l_x1, mean_p_l_x2, mean_m_l, mean_m_l_x1, mean_m_l_x2, flux_p, flux_p_x1, flux_m, flux_m_x1, flux_p_l, flux_p_l_x1, flux_p_l_x2, flux_m_l, flux_m_l_x1, flux_m_l_x2, flux_div, flux_div_x1, flux_div_l, flux_div_l_x1, flux_div_l_x2, e_) bind(c, name="s90_xrtm_solution")
    type(xrtm_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: solutions
    integer(c_int), value :: n_out_phis
    integer(c_int), value :: out_phis_x1, out_phis_x2
    real(c_double) :: out_phis(out_phis_x1, out_phis_x2)
    integer(c_int), value :: I_p_x1, I_p_x2, I_p_x3, I_p_x4
    real(c_double) :: I_p(I_p_x1, I_p_x2, I_p_x3, I_p_x4)
    integer(c_int), value :: I_m_x1, I_m_x2, I_m_x3, I_m_x4
    real(c_double) :: I_m(I_m_x1, I_m_x2, I_m_x3, I_m_x4)
    integer(c_int), value :: K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5
    real(c_double) :: K_p(K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5)
    integer(c_int), value :: K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5
    real(c_double) :: K_m(K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5)
    integer(c_int), value :: mean_p_x1
    real(c_double) :: mean_p(mean_p_x1)
    integer(c_int), value :: mean_m_x1
    real(c_double) :: mean_m(mean_m_x1)
    integer(c_int), value :: mean_p_l_x1, mean_p_l_x2
    real(c_double) :: mean_p_l(mean_p_l_x1, mean_p_l_x2)
    integer(c_int), value :: mean_m_l_x1, mean_m_l_x2
    real(c_double) :: mean_m_l(mean_m_l_x1, mean_m_l_x2)
    integer(c_int), value :: flux_p_x1
    real(c_double) :: flux_p(flux_p_x1)
    integer(c_int), value :: flux_m_x1
    real(c_double) :: flux_m(flux_m_x1)
    integer(c_int), value :: flux_p_l_x1, flux_p_l_x2
    real(c_double) :: flux_p_l(flux_p_l_x1, flux_p_l_x2)
    integer(c_int), value :: flux_m_l_x1, flux_m_l_x2
    real(c_double) :: flux_m_l(flux_m_l_x1, flux_m_l_x2)
    integer(c_int), value :: flux_div_x1
    real(c_double) :: flux_div(flux_div_x1)
    integer(c_int), value :: flux_div_l_x1, flux_div_l_x2
    real(c_double) :: flux_div_l(flux_div_l_x1, flux_div_l_x2)
    integer(c_int) :: e_
    call xrtm_solution_f90(d, solver, solutions, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, e_)
  end subroutine
  subroutine s90_xrtm_radiance(d, solver, n_out_phis, out_phis, out_phis_x1, out_phis_x2, I_p, I_p_x1, I_p_x2, I_p_x3, I_p_x4, I_m, I_m_x1, I_m_x2, I_m_x3, I_m_x4, K_p, K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5, K_m, K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5, e_) bind(c, name="s90_xrtm_radiance")
    type(xrtm_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: n_out_phis
    integer(c_int), value :: out_phis_x1, out_phis_x2
    real(c_double) :: out_phis(out_phis_x1, out_phis_x2)
    integer(c_int), value :: I_p_x1, I_p_x2, I_p_x3, I_p_x4
    real(c_double) :: I_p(I_p_x1, I_p_x2, I_p_x3, I_p_x4)
    integer(c_int), value :: I_m_x1, I_m_x2, I_m_x3, I_m_x4
    real(c_double) :: I_m(I_m_x1, I_m_x2, I_m_x3, I_m_x4)
    integer(c_int), value :: K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5
    real(c_double) :: K_p(K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5)
    integer(c_int), value :: K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5
    real(c_double) :: K_m(K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5)
    integer(c_int) :: e_
    call xrtm_radiance_f90(d, solver, n_out_phis, out_phis, I_p, I_m, K_p, K_m, e_)
  end subroutine
  subroutine s90_xrtm_mean_radiance(d, solver, mean_p, mean_p_x1, mean_m, mean_m_x1, mean_p_l, mean_p_l_x1, mean_p_l_x2, mean_m_l, mean_m_l_x1, mean_m_l_x2, e_) bind(c, name="s90_xrtm_mean_radiance")
    type(xrtm_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: mean_p_x1
    real(c_double) :: mean_p(mean_p_x1)
    integer(c_int), value :: mean_m_x1
    real(c_double) :: mean_m(mean_m_x1)
    integer(c_int), value :: mean_p_l_x1, mean_p_l_x2
    real(c_double) :: mean_p_l(mean_p_l_x1, mean_p_l_x2)
    integer(c_int), value :: mean_m_l_x1, mean_m_l_x2
    real(c_double) :: mean_m_l(mean_m_l_x1, mean_m_l_x2)
    integer(c_int) :: e_
    call xrtm_mean_radiance_f90(d, solver, mean_p, mean_m, mean_p_l, mean_m_l, e_)
  end subroutine
  subroutine s90_xrtm_flux(d, solver, flux_p, flux_p_x1, flux_m, flux_m_x1, flux_p_l, flux_p_l_x1, flux_p_l_x2, flux_m_l, flux_m_l_x1, flux_m_l_x2, e_) bind(c, name="s90_xrtm_flux")
    type(xrtm_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: flux_p_x1
    real(c_double) :: flux_p(flux_p_x1)
    integer(c_int), value :: flux_m_x1
    real(c_double) :: flux_m(flux_m_x1)
    integer(c_int), value :: flux_p_l_x1, flux_p_l_x2
    real(c_double) :: flux_p_l(flux_p_l_x1, flux_p_l_x2)
    integer(c_int), value :: flux_m_l_x1, flux_m_l_x2
    real(c_double) :: flux_m_l(flux_m_l_x1, flux_m_l_x2)
    integer(c_int) :: e_
    call xrtm_flux_f90(d, solver, flux_p, flux_m, flux_p_l, flux_m_l, e_)
  end subroutine
  subroutine s90_xrtm_flux_divergence(d, solver, flux_div, flux_div_x1, flux_div_l, flux_div_l_x1, flux_div_l_x2, e_) bind(c, name="s90_xrtm_flux_divergence")
    type(xrtm_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: flux_div_x1
    real(c_double) :: flux_div(flux_div_x1)
    integer(c_int), value :: flux_div_l_x1, flux_div_l_x2
    real(c_double) :: flux_div_l(flux_div_l_x1, flux_div_l_x2)
    integer(c_int) :: e_
    call xrtm_flux_divergence_f90(d, solver, flux_div, flux_div_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_create(d, xrtm, n_derivs, e_) bind(c, name="s90_xrtm_fd_create")
    type(xrtm_fd_type) :: d
    type(xrtm_type) :: xrtm
    integer(c_int), value :: n_derivs
    integer(c_int) :: e_
    call xrtm_fd_create_f90(d, xrtm, n_derivs, e_)
  end subroutine
  subroutine s90_xrtm_fd_destroy(d, e_) bind(c, name="s90_xrtm_fd_destroy")
    type(xrtm_fd_type) :: d
    integer(c_int) :: e_
    call xrtm_fd_destroy_f90(d, e_)
  end subroutine
  function s90_xrtm_fd_get_n_derivs(d) result(r_) bind(c, name="s90_xrtm_fd_get_n_derivs")
    integer(c_int) :: r_
    type(xrtm_fd_type) :: d
    r_ = xrtm_fd_get_n_derivs_f90(d)
  end function
  subroutine s90_xrtm_fd_set_delta(d, delta, delta_x1, e_) bind(c, name="s90_xrtm_fd_set_delta")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: delta_x1
    real(c_double) :: delta(delta_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_delta_f90(d, delta, e_)
  end subroutine
  subroutine s90_xrtm_fd_get_delta(d, delta, delta_x1, e_) bind(c, name="s90_xrtm_fd_get_delta")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: delta_x1
    real(c_double) :: delta(delta_x1)
    integer(c_int) :: e_
    call xrtm_fd_get_delta_f90(d, delta, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_f_iso_top_p_1(d, i_deriv, F_iso_top_l, e_) bind(c, name="s90_xrtm_fd_set_f_iso_top_p_1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: F_iso_top_l
    integer(c_int) :: e_
    call xrtm_fd_set_F_iso_top_p_1_f90(d, i_deriv, F_iso_top_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_f_iso_top_p_n(d, F_iso_top_l, F_iso_top_l_x1, e_) bind(c, name="s90_xrtm_fd_set_f_iso_top_p_n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: F_iso_top_l_x1
    real(c_double) :: F_iso_top_l(F_iso_top_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_F_iso_top_p_n_f90(d, F_iso_top_l, e_)
  end subroutine
  function s90_xrtm_fd_get_f_iso_top_p(d, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_f_iso_top_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_F_iso_top_p_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_f_iso_bot_p_1(d, i_deriv, F_iso_bot_l, e_) bind(c, name="s90_xrtm_fd_set_f_iso_bot_p_1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: F_iso_bot_l
    integer(c_int) :: e_
    call xrtm_fd_set_F_iso_bot_p_1_f90(d, i_deriv, F_iso_bot_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_f_iso_bot_p_n(d, F_iso_bot_l, F_iso_bot_l_x1, e_) bind(c, name="s90_xrtm_fd_set_f_iso_bot_p_n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: F_iso_bot_l_x1
    real(c_double) :: F_iso_bot_l(F_iso_bot_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_F_iso_bot_p_n_f90(d, F_iso_bot_l, e_)
  end subroutine
  function s90_xrtm_fd_get_f_iso_bot_p(d, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_f_iso_bot_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_F_iso_bot_p_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_levels_b_p_1(d, i_deriv, levels_b_l, levels_b_l_x1, e_) bind(c, name="s90_xrtm_fd_set_levels_b_p_1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: levels_b_l_x1
    real(c_double) :: levels_b_l(levels_b_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_levels_b_p_1_f90(d, i_deriv, levels_b_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_levels_b_p_n(d, levels_b_l, levels_b_l_x1, levels_b_l_x2, e_) bind(c, name="s90_xrtm_fd_set_levels_b_p_n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: levels_b_l_x1, levels_b_l_x2
    real(c_double) :: levels_b_l(levels_b_l_x1, levels_b_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_levels_b_p_n_f90(d, levels_b_l, e_)
  end subroutine
  function s90_xrtm_fd_get_levels_b_p(d, i_deriv, levels_b_l, levels_b_l_x1) result(r_) bind(c, name="s90_xrtm_fd_get_levels_b_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: levels_b_l_x1
    real(c_double) :: levels_b_l(levels_b_l_x1)
    r_ = xrtm_fd_get_levels_b_p_f90(d, i_deriv, levels_b_l)
  end function
  subroutine s90_xrtm_fd_set_surface_b_p_1(d, i_deriv, surface_b_l, e_) bind(c, name="s90_xrtm_fd_set_surface_b_p_1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    real(c_double), value :: surface_b_l
    integer(c_int) :: e_
    call xrtm_fd_set_surface_b_p_1_f90(d, i_deriv, surface_b_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_surface_b_p_n(d, surface_b_l, surface_b_l_x1, e_) bind(c, name="s90_xrtm_fd_set_surface_b_p_n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: surface_b_l_x1
    real(c_double) :: surface_b_l(surface_b_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_surface_b_p_n_f90(d, surface_b_l, e_)
  end subroutine
  function s90_xrtm_fd_get_surface_b_p(d, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_surface_b_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_surface_b_p_f90(d, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_g_p_11(d, i_layer, i_deriv, g_l, e_) bind(c, name="s90_xrtm_fd_set_g_p_11")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: g_l
    integer(c_int) :: e_
    call xrtm_fd_set_g_p_11_f90(d, i_layer, i_deriv, g_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_g_p_n1(d, i_deriv, g_l, g_l_x1, e_) bind(c, name="s90_xrtm_fd_set_g_p_n1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: g_l_x1
    real(c_double) :: g_l(g_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_g_p_n1_f90(d, i_deriv, g_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_g_p_1n(d, i_layer, g_l, g_l_x1, e_) bind(c, name="s90_xrtm_fd_set_g_p_1n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: g_l_x1
    real(c_double) :: g_l(g_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_g_p_1n_f90(d, i_layer, g_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_g_p_nn(d, g_l, g_l_x1, g_l_x2, e_) bind(c, name="s90_xrtm_fd_set_g_p_nn")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: g_l_x1, g_l_x2
    real(c_double) :: g_l(g_l_x1, g_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_g_p_nn_f90(d, g_l, e_)
  end subroutine
  function s90_xrtm_fd_get_g_p(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_g_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_g_p_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_coef_p_11(d, i_layer, i_deriv, coef_l, coef_l_x1, coef_l_x2, e_) bind(c, name="s90_xrtm_fd_set_coef_p_11")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    integer(c_int), value :: coef_l_x1, coef_l_x2
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_coef_p_11_f90(d, i_layer, i_deriv, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_coef_p_n1(d, i_deriv, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, e_) bind(c, name="s90_xrtm_fd_set_coef_p_n1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3)
    integer(c_int) :: e_
    call xrtm_fd_set_coef_p_n1_f90(d, i_deriv, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_coef_p_1n(d, i_layer, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, e_) bind(c, name="s90_xrtm_fd_set_coef_p_1n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3)
    integer(c_int) :: e_
    call xrtm_fd_set_coef_p_1n_f90(d, i_layer, coef_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_coef_p_nn(d, coef_l, coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4, e_) bind(c, name="s90_xrtm_fd_set_coef_p_nn")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4
    real(c_double) :: coef_l(coef_l_x1, coef_l_x2, coef_l_x3, coef_l_x4)
    integer(c_int) :: e_
    call xrtm_fd_set_coef_p_nn_f90(d, coef_l, e_)
  end subroutine
  function s90_xrtm_fd_get_coef_p(d, i_layer, i_deriv, i_elem, i_coef) result(r_) bind(c, name="s90_xrtm_fd_get_coef_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_elem
    integer(c_int), value :: i_coef
    r_ = xrtm_fd_get_coef_p_f90(d, i_layer, i_deriv, i_elem, i_coef)
  end function
  subroutine s90_xrtm_fd_set_omega_p_11(d, i_layer, i_deriv, omega_l, e_) bind(c, name="s90_xrtm_fd_set_omega_p_11")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: omega_l
    integer(c_int) :: e_
    call xrtm_fd_set_omega_p_11_f90(d, i_layer, i_deriv, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_omega_p_n1(d, i_deriv, omega_l, omega_l_x1, e_) bind(c, name="s90_xrtm_fd_set_omega_p_n1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: omega_l_x1
    real(c_double) :: omega_l(omega_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_omega_p_n1_f90(d, i_deriv, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_omega_p_1n(d, i_layer, omega_l, omega_l_x1, e_) bind(c, name="s90_xrtm_fd_set_omega_p_1n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: omega_l_x1
    real(c_double) :: omega_l(omega_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_omega_p_1n_f90(d, i_layer, omega_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_omega_p_nn(d, omega_l, omega_l_x1, omega_l_x2, e_) bind(c, name="s90_xrtm_fd_set_omega_p_nn")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: omega_l_x1, omega_l_x2
    real(c_double) :: omega_l(omega_l_x1, omega_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_omega_p_nn_f90(d, omega_l, e_)
  end subroutine
  function s90_xrtm_fd_get_omega_p(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_omega_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_omega_p_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_ltau_p_11(d, i_layer, i_deriv, ltau_l, e_) bind(c, name="s90_xrtm_fd_set_ltau_p_11")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    real(c_double), value :: ltau_l
    integer(c_int) :: e_
    call xrtm_fd_set_ltau_p_11_f90(d, i_layer, i_deriv, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_ltau_p_n1(d, i_deriv, ltau_l, ltau_l_x1, e_) bind(c, name="s90_xrtm_fd_set_ltau_p_n1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_deriv
    integer(c_int), value :: ltau_l_x1
    real(c_double) :: ltau_l(ltau_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_ltau_p_n1_f90(d, i_deriv, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_ltau_p_1n(d, i_layer, ltau_l, ltau_l_x1, e_) bind(c, name="s90_xrtm_fd_set_ltau_p_1n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: ltau_l_x1
    real(c_double) :: ltau_l(ltau_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_ltau_p_1n_f90(d, i_layer, ltau_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_ltau_p_nn(d, ltau_l, ltau_l_x1, ltau_l_x2, e_) bind(c, name="s90_xrtm_fd_set_ltau_p_nn")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: ltau_l_x1, ltau_l_x2
    real(c_double) :: ltau_l(ltau_l_x1, ltau_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_ltau_p_nn_f90(d, ltau_l, e_)
  end subroutine
  function s90_xrtm_fd_get_ltau_p(d, i_layer, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_ltau_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_layer
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_ltau_p_f90(d, i_layer, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_kernel_ampfac_p_1(d, i_kernel, i_deriv, ampfac_l, e_) bind(c, name="s90_xrtm_fd_set_kernel_ampfac_p_1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    real(c_double), value :: ampfac_l
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_ampfac_p_1_f90(d, i_kernel, i_deriv, ampfac_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_kernel_ampfac_p_n(d, i_kernel, ampfac_l, ampfac_l_x1, e_) bind(c, name="s90_xrtm_fd_set_kernel_ampfac_p_n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: ampfac_l_x1
    real(c_double) :: ampfac_l(ampfac_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_ampfac_p_n_f90(d, i_kernel, ampfac_l, e_)
  end subroutine
  function s90_xrtm_fd_get_kernel_ampfac_p(d, i_kernel, i_deriv) result(r_) bind(c, name="s90_xrtm_fd_get_kernel_ampfac_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    r_ = xrtm_fd_get_kernel_ampfac_p_f90(d, i_kernel, i_deriv)
  end function
  subroutine s90_xrtm_fd_set_kernel_params_p_11(d, i_kernel, i_deriv, i_param, param_l, e_) bind(c, name="s90_xrtm_fd_set_kernel_params_p_11")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_param
    real(c_double), value :: param_l
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_params_p_11_f90(d, i_kernel, i_deriv, i_param, param_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_kernel_params_p_1n(d, i_kernel, i_deriv, params_l, params_l_x1, e_) bind(c, name="s90_xrtm_fd_set_kernel_params_p_1n")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: params_l_x1
    real(c_double) :: params_l(params_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_params_p_1n_f90(d, i_kernel, i_deriv, params_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_kernel_params_p_n1(d, i_kernel, i_param, params_l, params_l_x1, e_) bind(c, name="s90_xrtm_fd_set_kernel_params_p_n1")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_param
    integer(c_int), value :: params_l_x1
    real(c_double) :: params_l(params_l_x1)
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_params_p_n1_f90(d, i_kernel, i_param, params_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_set_kernel_params_p_nn(d, i_kernel, params_l, params_l_x1, params_l_x2, e_) bind(c, name="s90_xrtm_fd_set_kernel_params_p_nn")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: params_l_x1, params_l_x2
    real(c_double) :: params_l(params_l_x1, params_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_set_kernel_params_p_nn_f90(d, i_kernel, params_l, e_)
  end subroutine
  function s90_xrtm_fd_get_kernel_params_p(d, i_kernel, i_deriv, i_param) result(r_) bind(c, name="s90_xrtm_fd_get_kernel_params_p")
    real(c_double) :: r_
    type(xrtm_fd_type) :: d
    integer(c_int), value :: i_kernel
    integer(c_int), value :: i_deriv
    integer(c_int), value :: i_param
    r_ = xrtm_fd_get_kernel_params_p_f90(d, i_kernel, i_deriv, i_param)
  end function
  subroutine s90_xrtm_fd_solution(d, solver, solutions, method, n_out_phis, out_phis, out_phis_x1, out_phis_x2, I_p, I_p_x1, I_p_x2, I_p_x3, I_p_x4, I_m, I_m_x1, I_m_x2, I_m_x3, I_m_x4, K_p, K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5, K_m, K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5, mean_p, mean_p_x1, mean_m, mean_m_x1, mean_p_l, mean_p_l_x1, mean_p_l_x2, mean_m_l, mean_m_l_x1, mean_m_l_x2, flux_p, flux_p_x1, flux_m, flux_m_x1, flux_p_l, flux_p_l_x1, flux_p_l_x2, flux_m_l, flux_m_l_x1, flux_m_l_x2, flux_div, flux_div_x1, flux_div_l, flux_div_l_x1, flux_div_l_x2, e_) bind(c, name="s90_xrtm_fd_solution")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: solutions
    integer(c_int), value :: method
    integer(c_int), value :: n_out_phis
    integer(c_int), value :: out_phis_x1, out_phis_x2
    real(c_double) :: out_phis(out_phis_x1, out_phis_x2)
    integer(c_int), value :: I_p_x1, I_p_x2, I_p_x3, I_p_x4
    real(c_double) :: I_p(I_p_x1, I_p_x2, I_p_x3, I_p_x4)
    integer(c_int), value :: I_m_x1, I_m_x2, I_m_x3, I_m_x4
    real(c_double) :: I_m(I_m_x1, I_m_x2, I_m_x3, I_m_x4)
    integer(c_int), value :: K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5
    real(c_double) :: K_p(K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5)
    integer(c_int), value :: K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5
    real(c_double) :: K_m(K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5)
    integer(c_int), value :: mean_p_x1
    real(c_double) :: mean_p(mean_p_x1)
    integer(c_int), value :: mean_m_x1
    real(c_double) :: mean_m(mean_m_x1)
    integer(c_int), value :: mean_p_l_x1, mean_p_l_x2
    real(c_double) :: mean_p_l(mean_p_l_x1, mean_p_l_x2)
    integer(c_int), value :: mean_m_l_x1, mean_m_l_x2
    real(c_double) :: mean_m_l(mean_m_l_x1, mean_m_l_x2)
    integer(c_int), value :: flux_p_x1
    real(c_double) :: flux_p(flux_p_x1)
    integer(c_int), value :: flux_m_x1
    real(c_double) :: flux_m(flux_m_x1)
    integer(c_int), value :: flux_p_l_x1, flux_p_l_x2
    real(c_double) :: flux_p_l(flux_p_l_x1, flux_p_l_x2)
    integer(c_int), value :: flux_m_l_x1, flux_m_l_x2
    real(c_double) :: flux_m_l(flux_m_l_x1, flux_m_l_x2)
    integer(c_int), value :: flux_div_x1
    real(c_double) :: flux_div(flux_div_x1)
    integer(c_int), value :: flux_div_l_x1, flux_div_l_x2
    real(c_double) :: flux_div_l(flux_div_l_x1, flux_div_l_x2)
    integer(c_int) :: e_
    call xrtm_fd_solution_f90(d, solver, solutions, method, n_out_phis, out_phis, I_p, I_m, K_p, K_m, mean_p, mean_m, mean_p_l, mean_m_l, flux_p, flux_m, flux_p_l, flux_m_l, flux_div, flux_div_l, e_)
  end subroutine
  subroutine s90_xrtm_fd_radiance(d, solver, method, n_out_phis, out_phis, out_phis_x1, out_phis_x2, I_p, I_p_x1, I_p_x2, I_p_x3, I_p_x4, I_m, I_m_x1, I_m_x2, I_m_x3, I_m_x4, K_p, K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5, K_m, K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5, e_) bind(c, name="s90_xrtm_fd_radiance")
    type(xrtm_fd_type) :: d
    integer(c_int), value :: solver
    integer(c_int), value :: method
    integer(c_int), value :: n_out_phis
    integer(c_int), value :: out_phis_x1, out_phis_x2
    real(c_double) :: out_phis(out_phis_x1, out_phis_x2)
    integer(c_int), value :: I_p_x1, I_p_x2, I_p_x3, I_p_x4
    real(c_double) :: I_p(I_p_x1, I_p_x2, I_p_x3, I_p_x4)
    integer(c_int), value :: I_m_x1, I_m_x2, I_m_x3, I_m_x4
    real(c_double) :: I_m(I_m_x1, I_m_x2, I_m_x3, I_m_x4)
    integer(c_int), value :: K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5
    real(c_double) :: K_p(K_p_x1, K_p_x2, K_p_x3, K_p_x4, K_p_x5)
    integer(c_int), value :: K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5
    real(c_double) :: K_m(K_m_x1, K_m_x2, K_m_x3, K_m_x4, K_m_x5)
    integer(c_int) :: e_
    call xrtm_fd_radiance_f90(d, solver, method, n_out_phis, out_phis, I_p, I_m, K_p, K_m, e_)
  end subroutine
  function s90_sizes(k) result(r_) bind(c, name="s90_sizes")
    integer(c_int), value :: k
    integer(c_int) :: r_
    type(xrtm_type) :: a
    type(xrtm_fd_type) :: b
    r_ = size(a%data)
    if (k == 1) r_ = size(b%data)
  end function
  subroutine s90_constants(v) bind(c, name="s90_constants")
    integer(c_int) :: v(*)
    v(1) = int(XRTM_OPTION_CALC_DERIVS)
    v(2) = int(XRTM_OPTION_REVERSE_DERIVS)
    v(3) = int(XRTM_OPTION_DELTA_M)
    v(4) = int(XRTM_OPTION_N_T_TMS)
    v(5) = int(XRTM_OPTION_FOUR_CONV_OLD)
    v(6) = int(XRTM_OPTION_FOUR_CONV_NEW)
    v(7) = int(XRTM_OPTION_NO_AZIMUTHAL)
    v(8) = int(XRTM_OPTION_OUTPUT_AT_LEVELS)
    v(9) = int(XRTM_OPTION_OUTPUT_AT_TAUS)
    v(10) = int(XRTM_OPTION_PART_SOL_CLASSICAL)
    v(11) = int(XRTM_OPTION_PART_SOL_GREENS)
    v(12) = int(XRTM_OPTION_PHASE_SCALAR)
    v(13) = int(XRTM_OPTION_PHASE_MATRIX_GC)
    v(14) = int(XRTM_OPTION_PHASE_MATRIX_LC)
    v(15) = int(XRTM_OPTION_PSA)
    v(16) = int(XRTM_OPTION_QUAD_NORM_GAUS_LEG)
    v(17) = int(XRTM_OPTION_QUAD_DOUB_GAUS_LEG)
    v(18) = int(XRTM_OPTION_QUAD_LOBATTO)
    v(19) = int(XRTM_OPTION_SAVE_LEG_POLYS)
    v(20) = int(XRTM_OPTION_SAVE_PHASE_MATS)
    v(21) = int(XRTM_OPTION_SAVE_LOCAL_R_T)
    v(22) = int(XRTM_OPTION_SAVE_LAYER_R_T_S)
    v(23) = int(XRTM_OPTION_SAVE_TOTAL_R_T_S)
    v(24) = int(XRTM_OPTION_SFI)
    v(25) = int(XRTM_OPTION_SOURCE_SOLAR)
    v(26) = int(XRTM_OPTION_SOURCE_THERMAL)
    v(27) = int(XRTM_OPTION_STACK_REUSE_ADDING)
    v(28) = int(XRTM_OPTION_TOP_DOWN_ADDING)
    v(29) = int(XRTM_OPTION_BOTTOM_UP_ADDING)
    v(30) = int(XRTM_OPTION_UPWELLING_OUTPUT)
    v(31) = int(XRTM_OPTION_DOWNWELLING_OUTPUT)
    v(32) = int(XRTM_OPTION_VECTOR)
    v(33) = int(XRTM_SOLVER_DOUB_ADD)
    v(34) = int(XRTM_SOLVER_EIG_ADD)
    v(35) = int(XRTM_SOLVER_EIG_BVP)
    v(36) = int(XRTM_SOLVER_FOUR_STREAM)
    v(37) = int(XRTM_SOLVER_MEM_BVP)
    v(38) = int(XRTM_SOLVER_PADE_ADD)
    v(39) = int(XRTM_SOLVER_SINGLE)
    v(40) = int(XRTM_SOLVER_SIX_STREAM)
    v(41) = int(XRTM_SOLVER_SOS)
    v(42) = int(XRTM_SOLVER_TWO_OS)
    v(43) = int(XRTM_SOLVER_TWO_STREAM)
    v(44) = int(XRTM_OUTPUT_RADIANCE)
    v(45) = int(XRTM_OUTPUT_RADIANCE_MEAN)
    v(46) = int(XRTM_OUTPUT_FLUX)
    v(47) = int(XRTM_OUTPUT_FLUX_DIVERGENCE)
    v(48) = int(XRTM_KERNEL_LAMBERTIAN)
    v(49) = int(XRTM_KERNEL_DIRECT_AND_DIFFUSE)
    v(50) = int(XRTM_KERNEL_ROUJEAN)
    v(51) = int(XRTM_KERNEL_LI_SPARSE)
    v(52) = int(XRTM_KERNEL_LI_DENSE)
    v(53) = int(XRTM_KERNEL_ROSS_THIN)
    v(54) = int(XRTM_KERNEL_ROSS_THICK)
    v(55) = int(XRTM_KERNEL_HAPKE)
    v(56) = int(XRTM_KERNEL_RAHMAN)
    v(57) = int(XRTM_KERNEL_COX_MUNK)
    v(58) = int(XRTM_KERNEL_USER_DEFINED)
    v(59) = int(XRTM_FD_METHOD_FORWARD)
    v(60) = int(XRTM_FD_METHOD_BACKWARD)
    v(61) = int(XRTM_FD_METHOD_CENTRAL)
  end subroutine
end module
