/* The finite-difference interface: calls, the perturbations it was given, and what its solutions must be. */

/* What the perturbations read back as, against what was given. */
std::string fd_getters(xrtm_fd_data *d, const Inputs &p, const VD &delta) {
     const Config &c = p.c; int nd = c.n_derivs; VD a((size_t) std::max(nd, c.n_layers + 1) + 1, 0.);
     if (xrtm_fd_get_n_derivs(d) != nd) return "the number of derivatives";
     if (xrtm_fd_get_delta(d, a.data())) return "delta"; for (int j = 0; j < nd; ++j) if (a[j] != delta[j]) return "delta";
     for (int j = 0; j < nd; ++j) {
          if (xrtm_fd_get_F_iso_top_p(d, j) != p.ftop_l[j]) return field_name[F_FTOP_L];
          if (xrtm_fd_get_F_iso_bot_p(d, j) != p.fbot_l[j]) return field_name[F_FBOT_L];
          if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) {
               if (xrtm_fd_get_surface_b_p(d, j) != p.surfb_l[j]) return field_name[F_SURFB_L];
               if (xrtm_fd_get_levels_b_p(d, j, a.data()) != 0) return field_name[F_LEVB_L];
               for (int i = 0; i <= c.n_layers; ++i) if (a[i] != p.levb_l[j][i]) return field_name[F_LEVB_L];
          }
          for (int i = 0; i < c.n_layers; ++i) {
               if (xrtm_fd_get_omega_p(d, i, j) != p.omega_l[i][j]) return field_name[F_OMEGA_L];
               if (xrtm_fd_get_ltau_p(d, i, j) != p.ltau_l[i][j]) return field_name[F_LTAU_L];
               for (int e = 0; e < c.n_elem(); ++e) for (int k = 0; k < p.n_coef[i]; ++k) if (xrtm_fd_get_coef_p(d, i, j, e, k) != p.coef_l[i][j][e * c.max_coef + k]) return field_name[F_COEF_L];
          }
          for (int k = 0; k < c.n_kernels(); ++k) {
               if (xrtm_fd_get_kernel_ampfac_p(d, k, j) != p.kamp_l[k][j]) return field_name[F_KAMP_L];
               for (int q = 0; q < kernel_npar(c.kernels[k]); ++q) if (xrtm_fd_get_kernel_params_p(d, k, j, q) != p.kpar_l[k][j][q]) return field_name[F_KPAR_L];
          }
     }
     /* out of range, or of inputs the instance does not have */
     const double E = XRTM_DBL_ERROR; int nl = c.n_layers, nk = c.n_kernels(); bool th = c.opt(XRTM_OPTION_SOURCE_THERMAL);
     for (int j : {-1, nd}) {
          if (xrtm_fd_get_F_iso_top_p(d, j) != E || xrtm_fd_get_F_iso_bot_p(d, j) != E || xrtm_fd_get_surface_b_p(d, j) != E || xrtm_fd_get_levels_b_p(d, j, a.data()) == 0) return "a derivative out of range";
          if (xrtm_fd_get_omega_p(d, 0, j) != E || xrtm_fd_get_ltau_p(d, 0, j) != E || xrtm_fd_get_coef_p(d, 0, j, 0, 0) != E) return "a derivative out of range";
          if (nk && xrtm_fd_get_kernel_ampfac_p(d, 0, j) != E) return "a derivative out of range";
     }
     for (int i : {-1, nl}) if (xrtm_fd_get_omega_p(d, i, 0) != E || xrtm_fd_get_ltau_p(d, i, 0) != E || xrtm_fd_get_coef_p(d, i, 0, 0, 0) != E) return "a layer out of range";
     for (int k : {-1, nk}) if (xrtm_fd_get_kernel_ampfac_p(d, k, 0) != E || xrtm_fd_get_kernel_params_p(d, k, 0, 0) != E) return "a kernel out of range";
     for (int k = 0; k < nk; ++k) for (int q : {-1, kernel_npar(c.kernels[k])}) if (xrtm_fd_get_kernel_params_p(d, k, 0, q) != E) return "a kernel parameter out of range";
     for (int e : {-1, c.n_elem()}) if (xrtm_fd_get_coef_p(d, 0, 0, e, 0) != E) return "an element out of range";
     for (int k : {-1, p.n_coef[0]}) if (p.n_coef[0] > 0 && xrtm_fd_get_coef_p(d, 0, 0, 0, k) != E) return "a coefficient out of range";
     if (!th && (xrtm_fd_get_surface_b_p(d, 0) != E || xrtm_fd_get_levels_b_p(d, 0, a.data()) == 0)) return "thermal inputs of an instance without them";
     return "";
}

/* The inputs of in with f times the perturbations of derivative j added: 1 valid, 0 rejected, -1 not specified. */
static int fd_perturb(const Inputs &in, const Inputs &p, int j, double f, Inputs &r) {
     const Config &c = in.c; r = in; int s = 1;
     auto put = [&](int field, int a, int b, const VI &iv, const VD &v) { if (s != 1) return; Op o = mkset(0, field, a, b, -1, iv, v); s = r.set_expect(o); if (s == 1) r.set_apply(o); };
     put(F_FTOP, -1, -1, {}, {in.sc[F_FTOP] + f * p.ftop_l[j]}); put(F_FBOT, -1, -1, {}, {in.sc[F_FBOT] + f * p.fbot_l[j]});
     if (c.opt(XRTM_OPTION_SOURCE_THERMAL)) { VD b = in.levb; for (size_t i = 0; i < b.size(); ++i) b[i] += f * p.levb_l[j][i]; put(F_LEVB, -1, -1, {}, b); put(F_SURFB, -1, -1, {}, {in.sc[F_SURFB] + f * p.surfb_l[j]}); }
     for (int i = 0; i < c.n_layers; ++i) { int n = in.n_coef[i]; VD v; for (int e = 0; e < c.n_elem(); ++e) for (int k = 0; k < n; ++k) v.push_back(in.coef[i][e * c.max_coef + k] + f * p.coef_l[i][j][e * c.max_coef + k]); put(F_COEF, i, -1, {n}, v); }
     for (int i = 0; i < c.n_layers; ++i) put(F_OMEGA, i, -1, {}, {std::min(in.omega[i], 1. - 1e-5) + f * p.omega_l[i][j]});
     for (int i = 0; i < c.n_layers; ++i) put(F_LTAU, i, -1, {}, {in.ltau[i] + f * p.ltau_l[i][j]});
     for (int k = 0; k < c.n_kernels(); ++k) { put(F_KAMP, k, -1, {}, {in.kamp[k] + f * p.kamp_l[k][j]}); for (int q = 0; q < kernel_npar(c.kernels[k]); ++q) { if (s != 1) break; put(F_KPAR, k, q, {}, {in.kpar[k][q] + f * p.kpar_l[k][j][q]}); } }
     return s;
}

void Exec::op_fd(const Op &o) {
     Inst &I = inst[o.inst]; if (!I.alive) return; xrtm_data *d = I.api->raw(); if (!d) return;
     auto abnormal = [&](const char *fn, bool excuse) {   /* a call that did not return */
          if (!rc) return false;
          st.n["abnormal ends"]++; if (want_transcript) note(std::string(fn) + " abnormal end", &rc, sizeof rc);
          bool af = rt_alloc_fired() > 0, lf = rt_lapack_fired() > 0; std::string w = abn(rc);
          if (P("C12") || (!af && !lf && !excuse) || (P("C14") && af)) fail(h.prop + " " + (rc == RT_EXIT ? "exit " : "signal ") + fn + (lf ? " lapack" : af ? " alloc" : ""), std::string(fn) + " ended by " + w);
          aborted = true; return true;
     };
     if (o.code == O_FD_CREATE) {
          if (I.fd_alive) return; int n = o.iv[0]; memset(&I.fd, 0x5a, sizeof I.fd);
          int s = call(I, &o.f, [&]() { return xrtm_fd_create(&I.fd, d, n); }); if (abnormal("fd create", false)) return;
          info[cur] = {rt_alloc_seen(), 0, s, true}; note("fd create", &s, sizeof s); st.n["fd creations"]++;
          bool must_fail = I.cfg.opt(XRTM_OPTION_CALC_DERIVS) || n < 1;
          if (s == 0 && (must_fail || rt_alloc_fired())) { if (P("C14")) fail("C14 fd create status", must_fail ? "creation with no derivatives or an instance that calculates them succeeded" : "creation succeeded although memory was exhausted"); aborted = true; return; }
          if (s != 0 && !must_fail && !rt_alloc_fired()) { if (P("C14")) fail("C14 fd create status", fmt("creation failed (%d)", s)); aborted = true; return; }
          if (s == 0) { I.fd_alive = true; I.fd_n = n; I.fdp.reset(new Inputs(fd_config(I.cfg, n))); I.fdp->n_coef = I.in.n_coef; I.fd_delta.assign(n, 0.); }
          check_after(o); return;
     }
     if (!I.fd_alive) return;
     Inputs &p = *I.fdp; p.n_coef = I.in.n_coef;
     if (o.code == O_FD_DESTROY) { int s = call(I, 0, [&]() { return xrtm_fd_destroy(&I.fd); }); I.fd_alive = false; if (abnormal("fd destroy", false)) return; if (s && P("C14")) fail("C14 fd destroy status", "destruction failed"); check_after(o); return; }
     if (o.code == O_FD_SET) {
          if (o.iv[0] == N_FIELDS && (int) o.dv.size() != I.fd_n) return;
          if (o.iv[0] != N_FIELDS && !is_linear(o.iv[0])) return;
          if (o.iv[0] == F_COEF_L) for (int x : I.in.hcoef) if (!x) return;   /* the number of coefficients is not known yet */
          int ex = o.iv[0] == N_FIELDS ? 1 : p.set_expect(o); if (ex < 0) return; std::string fn = std::string("fd set ") + (o.iv[0] == N_FIELDS ? "delta" : field_name[o.iv[0]]);
          static VD vals; int s = call(I, 0, [&]() { return fd_give(&I.fd, I.cfg, I.fd_n, o, vals); }); if (abnormal(fn.c_str(), false)) return;
          note(fn, &s, sizeof s); st.n["fd inputs set"]++;
          if ((s == 0) != (ex == 1)) { if (P("C14")) fail("C14 " + fn + " status", fmt("status %d, expected to be %s", s, ex ? "accepted" : "rejected")); else aborted = true; return; }
          if (s == 0) { if (o.iv[0] == N_FIELDS) I.fd_delta = o.dv; else p.set_apply(o); }
          std::string w; call(I, 0, [&]() { w = fd_getters(&I.fd, p, I.fd_delta); return 0; }); if (abnormal("fd getters", false)) return;
          if (!w.empty() && (P("C14") || P("C06"))) { fail(h.prop + " fd getters " + w, w + " does not read back as set after " + fn); return; }
          check_after(o); return;
     }
     /* a finite-difference solution */
     Op q = o; q.code = O_SOLVE; std::string why; int ex = I.in.solve_expect(q, &why); if (ex < 0) { st.n["skipped solves"]++; return; }
     int n = I.fd_n, method = o.iv[4]; static Outs a; Config fc = I.cfg; fc.n_derivs = n; a.shape(fc, o.iv[2], SENTINEL);
     int np = std::max(1, o.iv[2]); static VD ph; ph = o.dv; ph.resize((size_t) I.cfg.n_out2() * np, 0.); static std::vector<double *> rows; rows.resize(I.cfg.n_out2()); for (int i = 0; i < I.cfg.n_out2(); ++i) rows[i] = ph.data() + (size_t) i * np;
     double **phis = rows.data(); enum xrtm_solver_mask sv = (enum xrtm_solver_mask) o.iv[0]; enum xrtm_fd_method_type me = (enum xrtm_fd_method_type) method; int out = o.iv[1];
     std::string sn = std::string(solver_name(o.iv[0])) + (method == 0 ? " forward" : method == 1 ? " backward" : " central");
     #define OP(k, T) ((T) a.ptr(k))
     a.status = call(I, &o.f, [&]() {
          if (o.iv[3] && out == 1) return xrtm_fd_radiance(&I.fd, sv, me, o.iv[2], phis, OP(0, double ****), OP(1, double ****), OP(2, double *****), OP(3, double *****));
          return xrtm_fd_solution(&I.fd, sv, out, me, o.iv[2], phis, OP(0, double ****), OP(1, double ****), OP(2, double *****), OP(3, double *****), OP(4, double *), OP(5, double *), OP(6, double **), OP(7, double **), OP(8, double *), OP(9, double *), OP(10, double **), OP(11, double **), 0, 0); });
     #undef OP
     int rc0 = rc; a.rc = rc; std::string ab = rc ? abn(rc) : ""; bool af = rt_alloc_fired() > 0, lf = rt_lapack_fired() > 0; info[cur] = {rt_alloc_seen(), rt_lapack_seen(), a.status, true};
     /* what it must be */
     static Outs e; std::vector<Outs> x(1); std::vector<double> f; if (method == 0) f = {1.}; else if (method == 1) f = {-1.}; else f = {1., -1.};
     bool unknown = false, must_fail = ex == 0, may_fail = false, nan_ = false;
     bool judge = P("C14") || rc;
     auto solve = [&](const Inputs &in, Outs &b) { ref_solve(in, I.cfg, q, b, false); rc = RT_OK; st.n["reference solutions"]++; if (b.rc || b.status == -9999 || b.status == -9998) unknown = true; else if (b.status) may_fail = true; else if (has_nan(b)) nan_ = true; };
     if (judge && ex == 1 && !nocheck) {
          int ra = rt_alloc_fired(), rl = rt_lapack_fired(); (void) ra; (void) rl;
          solve(I.in, x[0]);
          for (int j = 0; j < n && !unknown && !must_fail; ++j) for (double g : f) {
               static Inputs r; int s = fd_perturb(I.in, p, j, g, r); if (s < 0) unknown = true; else if (s == 0) must_fail = true;
               else { int es = r.solve_expect(q, &why); if (es < 0) unknown = true; else if (es == 0) must_fail = true; else { x.emplace_back(); solve(r, x.back()); } }
               if (unknown || must_fail) break;
          }
     }
     rc = rc0;
     if (rc) { st.n["abnormal ends"]++; if (want_transcript) note("fd solution " + sn + " abnormal end", &rc, sizeof rc);
          if (P("C12") || (P("C14") && (af || !lf) && !unknown)) fail(h.prop + (rc == RT_EXIT ? " exit" : " signal") + " fd solution " + sn + (lf ? " lapack" : af ? " alloc" : ""), "the finite-difference solution ended by " + ab);
          aborted = true; return; }
     note_outs(*this, "fd solution " + sn, a);
     I.in.solved = I.in.solved || ex == 1; st.n["fd solutions"]++; st.n["fd solutions:" + sn]++; if (a.status) st.n["fd solutions failed"]++;
     if (!P("C14")) { if (ex == 0 && a.status == 0) { aborted = true; return; } check_after(o); return; }
     if (a.status && (af || lf)) { st.n["faults reported as errors"]++; check_after(o); return; }
     if (af || lf) st.n["faults absorbed"]++;
     if (must_fail && !unknown && a.status == 0) { fail("C14 fd accepted " + sn, "a finite-difference solution succeeded although a perturbed input or its solution is refused (" + why + ")"); return; }
     if (a.status && !must_fail && !may_fail && !unknown) { fail("C14 fd status " + sn, fmt("the finite-difference solution fails (%d), none of the solutions it is made of does", a.status)); return; }
     if (a.status) { st.n["fd solutions refused"]++; st.nontrivial = true; check_after(o); return; }
     if (unknown || may_fail || nan_) { st.n["fd references not judged"]++; check_after(o); return; }
     unsigned mask = I.cfg.opt(XRTM_OPTION_UPWELLING_OUTPUT) == I.cfg.opt(XRTM_OPTION_DOWNWELLING_OUTPUT) ? 0xfff : I.cfg.opt(XRTM_OPTION_UPWELLING_OUTPUT) ? 0x555 : 0xaaa;
     auto verdict = [&]() -> std::string {
          double tol = 4 * tol_for(h);
          for (int k : {0, 1, 4, 5, 8, 9}) {
               if (!(mask >> k & 1) || x[0].d[k].empty() || x[0].d[k][0] == SENTINEL) continue;
               double S = 0; for (auto &b : x) for (double t : b.d[k]) S = std::max(S, fabs(t));
               for (size_t i = 0; i < a.d[k].size(); ++i) if (!(fabs(a.d[k][i] - x[0].d[k][i]) <= tol * S)) return fmt("%s[%zu] is %.17g, a new instance gives %.17g", out_name[k], i, a.d[k][i], x[0].d[k][i]);
               size_t blk = x[0].d[k].size() / a.nl; const VD &l = a.d[k + 2];
               for (int i = 0; i < a.nl; ++i) for (int j = 0; j < n; ++j) for (size_t t = 0; t < blk; ++t) {
                    size_t at = i * blk + t; double dl = I.fd_delta[j], w = method == 2 ? (x[1 + 2 * j].d[k][at] - x[2 + 2 * j].d[k][at]) / dl : method == 0 ? (x[1 + j].d[k][at] - x[0].d[k][at]) / dl : (x[0].d[k][at] - x[1 + j].d[k][at]) / dl;
                    if (dl == 0.) continue; double g = l[((size_t) i * n + j) * blk + t]; if (g != 0.) st.nontrivial = true;
                    if (!(fabs(g - w) <= tol * S / fabs(dl))) return fmt("%s[%d][%d][%zu] is %.17g, the difference quotient of two solutions is %.17g", out_name[k + 2], i, j, t, g, w);
               }
          }
          return "";
     };
     st.n["fd derivatives compared"] += n;
     std::string w = verdict();
     if (!w.empty()) {   /* do the references depend on what memory contained? */
          rt_heap_knobs k = h.heap; bool un = false;
          for (int fl : {(int) FILL_RANDOM, (int) FILL_BIG}) { k.fill = fl; k.fill_seed += 77; k.reuse = 0; rt_set_knobs(&k); for (size_t m = 0; m < x.size(); ++m) { static Inputs r; static Outs b; if (m == 0) r = I.in; else fd_perturb(I.in, p, (int) (m - 1) / (int) f.size(), f[(m - 1) % f.size()], r); ref_solve(r, I.cfg, q, b, false); rc = RT_OK; if (b.rc || b.status != x[m].status || !compare(b, x[m], tol_for(h), mask).empty()) un = true; } }
          rt_set_knobs(&h.heap);
          if (un) { st.n["unstable references"]++; aborted = true; return; }
          fail("C14 fd value " + sn, w); return;
     }
     check_after(o);
}
