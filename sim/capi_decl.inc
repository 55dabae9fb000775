struct CApi : Api {
     xrtm_data *d = 0; xrtm_data store; bool by2 = false;
     int create(const Config &c) override; int destroy() override; int set(const Op &o) override; GetR get(const Get &g, const Config &c) override;
     int update() override; void clear() override; int solve(const Op &o, double **phis, Outs &r) override; int counts(int *v) override;
     xrtm_data *raw() override { return d; }
     int adjoint(const Op &o, double **phis, Outs &r);
     Config cfg;
     std::vector<double *> p1; std::vector<double **> p2; std::vector<double ***> p3; VD pad;
};
