namespace VP_NS {
    using namespace uncertainties;
    typedef UReal2<double, VP_PROP> W;
    typedef std::vector<double> D;
    double w_fn(const W &x) { return x.first_order_n(); }
    double w_n(const W &x) { return x.n(); }
    double w_s(const W &x) { return x.s(); }
    double w_skew(const W &x) { return x.skew(); }
    double w_kurt(const W &x) { return x.kurt(); }
    double w_m(const W &x, int n) { return x.m(n); }
    double w_grad(const W &y, const W &x) { return y.grad(x); }
    double w_hess(const W &z, const W &x, const W &y) { return z.hess(x, y); }
    bool w_isindep(const W &x) { return x.isindep(); }
    Id w_indepid(const W &x) { return x.indepid(); }
    W w_make7(double n, const std::array<double, 7> &m, double t) { return W(n, m, t); }
    W w_make7d(double n, const std::array<double, 7> &m) { return W(n, m); }
    W w_make6(double n, double s, const std::array<double, 6> &m, double t) { return W(n, s, m, t); }
    W w_make6d(double n, double s, const std::array<double, 6> &m) { return W(n, s, m); }
    W w_make1(double n) { return W(n); }
    W w_make0() { return W(); }
    W w_normal(double mu, double sigma) { return distr::normal<W>(mu, sigma); }
    W w_chisquare(int k) { return distr::chisquare<W>(k); }
    W w_uniform(double a, double b) { return distr::uniform<W>(a, b); }
    int w_cov_it_end(const std::vector<W> &x, D &out) { return cov_matrix(x.begin(), x.end(), out.begin()) - out.begin(); }
    D w_cov_v(const std::vector<W> &x) { return cov_matrix<D>(x); }
    int w_corr_it_end(const std::vector<W> &x, D &out) { return corr_matrix(x.begin(), x.end(), out.begin()) - out.begin(); }
    D w_corr_v(const std::vector<W> &x) { return corr_matrix<D>(x); }
    D w_nom_v(const std::vector<W> &x) { return nom_vector<D>(x); }
    double w_cov2(const W &x, const W &y) { return cov(x, y); }
    double w_corr2(const W &x, const W &y) { return corr(x, y); }
}
