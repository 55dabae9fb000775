c     Written by tools/mkbind.py.
      subroutine s77_constants(n, v)
      implicit none
      include 'xrtm_int_f77.inc'
      include 'xrtm_fd_int_f77.inc'
      integer n(2)
      integer v(*)
      n(1) = N_BYTES_XRTM_TYPE
      n(2) = N_BYTES_XRTM_FD_TYPE
      v(1) = XRTM_OPTION_CALC_DERIVS
      v(2) = XRTM_OPTION_REVERSE_DERIVS
      v(3) = XRTM_OPTION_DELTA_M
      v(4) = XRTM_OPTION_N_T_TMS
      v(5) = XRTM_OPTION_FOUR_CONV_OLD
      v(6) = XRTM_OPTION_FOUR_CONV_NEW
      v(7) = XRTM_OPTION_NO_AZIMUTHAL
      v(8) = XRTM_OPTION_OUTPUT_AT_LEVELS
      v(9) = XRTM_OPTION_OUTPUT_AT_TAUS
      v(10) = XRTM_OPTION_PART_SOL_CLASSICAL
      v(11) = XRTM_OPTION_PART_SOL_GREENS
      v(12) = XRTM_OPTION_PHASE_SCALAR
      v(13) = XRTM_OPTION_PHASE_MATRIX_GC
      v(14) = XRTM_OPTION_PHASE_MATRIX_LC
      v(15) = XRTM_OPTION_PSA
      v(16) = XRTM_OPTION_QUAD_NORM_GAUS_LEG
      v(17) = XRTM_OPTION_QUAD_DOUB_GAUS_LEG
      v(18) = XRTM_OPTION_QUAD_LOBATTO
      v(19) = XRTM_OPTION_SAVE_LEG_POLYS
      v(20) = XRTM_OPTION_SAVE_PHASE_MATS
      v(21) = XRTM_OPTION_SAVE_LOCAL_R_T
      v(22) = XRTM_OPTION_SAVE_LAYER_R_T_S
      v(23) = XRTM_OPTION_SAVE_TOTAL_R_T_S
      v(24) = XRTM_OPTION_SFI
      v(25) = XRTM_OPTION_SOURCE_SOLAR
      v(26) = XRTM_OPTION_SOURCE_THERMAL
      v(27) = XRTM_OPTION_STACK_REUSE_ADDING
      v(28) = XRTM_OPTION_TOP_DOWN_ADDING
      v(29) = XRTM_OPTION_BOTTOM_UP_ADDING
      v(30) = XRTM_OPTION_UPWELLING_OUTPUT
      v(31) = XRTM_OPTION_DOWNWELLING_OUTPUT
      v(32) = XRTM_OPTION_VECTOR
      v(33) = XRTM_SOLVER_DOUB_ADD
      v(34) = XRTM_SOLVER_EIG_ADD
      v(35) = XRTM_SOLVER_EIG_BVP
      v(36) = XRTM_SOLVER_FOUR_STREAM
      v(37) = XRTM_SOLVER_MEM_BVP
      v(38) = XRTM_SOLVER_PADE_ADD
      v(39) = XRTM_SOLVER_SINGLE
      v(40) = XRTM_SOLVER_SIX_STREAM
      v(41) = XRTM_SOLVER_SOS
      v(42) = XRTM_SOLVER_TWO_OS
      v(43) = XRTM_SOLVER_TWO_STREAM
      v(44) = XRTM_OUTPUT_RADIANCE
      v(45) = XRTM_OUTPUT_RADIANCE_MEAN
      v(46) = XRTM_OUTPUT_FLUX
      v(47) = XRTM_OUTPUT_FLUX_DIVERGENCE
      v(48) = XRTM_KERNEL_LAMBERTIAN
      v(49) = XRTM_KERNEL_DIRECT_AND_DIFFUSE
      v(50) = XRTM_KERNEL_ROUJEAN
      v(51) = XRTM_KERNEL_LI_SPARSE
      v(52) = XRTM_KERNEL_LI_DENSE
      v(53) = XRTM_KERNEL_ROSS_THIN
      v(54) = XRTM_KERNEL_ROSS_THICK
      v(55) = XRTM_KERNEL_HAPKE
      v(56) = XRTM_KERNEL_RAHMAN
      v(57) = XRTM_KERNEL_COX_MUNK
      v(58) = XRTM_KERNEL_USER_DEFINED
      v(59) = XRTM_FD_METHOD_FORWARD
      v(60) = XRTM_FD_METHOD_BACKWARD
      v(61) = XRTM_FD_METHOD_CENTRAL
      end
