// wrappers for one propagation mode: VP_NS, VP_PROP
namespace VP_NS {
    using namespace uncertainties;
    typedef UReal2<double, VP_PROP> W;
    typedef UReal2<long double, VP_PROP> WL;
    typedef UReal2<double, VP_OTHER> V;
    double w_fn(const W &x) { return x.first_order_n(); }
    double w_n(const W &x) { return x.n(); }
    double w_nom(const W &x) { return nom(x); }
    double w_s(const W &x) { return x.s(); }
    double w_sdev(const W &x) { return sdev(x); }
    double w_skew(const W &x) { return x.skew(); }
    double w_kurt(const W &x) { return x.kurt(); }
    double w_m(const W &x, int n) { return x.m(n); }
    double w_var(const W &x) { return var(x); }
    double w_cov(const W &x, const W &y) { return cov(x, y); }
    double w_corr(const W &x, const W &y) { return corr(x, y); }
    bool w_isindep(const W &x) { return x.isindep(); }
    Id w_indepid(const W &x) { return x.indepid(); }
    Id w_invalid() { return invalid_id; }
    double w_grad(const W &y, const W &x) { return y.grad(x); }
    double w_hess(const W &z, const W &x, const W &y) { return z.hess(x, y); }
    W w_make7(double n, const std::array<double, 7> &m, double t) { return W(n, m, t); }
    W w_make7d(double n, const std::array<double, 7> &m) { return W(n, m); }
    W w_make6(double n, double s, const std::array<double, 6> &m, double t) { return W(n, s, m, t); }
    W w_make6d(double n, double s, const std::array<double, 6> &m) { return W(n, s, m); }
    W w_make1(double n) { return W(n); }
    W w_make0() { return W(); }
    W w_copy(const W &x) { return x; }
    void w_assign(W &x, const W &y) { x = y; }
    WL w_conv(const W &x) { return x; }
    W w_conv_back(const WL &x) { return W(x); }
    W w_prop(const V &x) { return W(x); }
    WL w_prop_conv(const V &x) { return WL(x); }
    W w_unary(const W &x, double f, double d, double dd) { return unary(x, f, d, dd); }
    W w_binary(const W &x, const W &y, double f, double dx, double dy, double dxx, double dyy, double dxy) { return binary(x, y, f, dx, dy, dxx, dyy, dxy); }
    void w_binary_assign(W &x, const W &y, double f, double dx, double dy, double dxx, double dyy, double dxy) { binary_assign(x, y, f, dx, dy, dxx, dyy, dxy); }
    W w_pos(const W &x) { return +x; }
    W w_neg(const W &x) { return -x; }
    W w_add(const W &x, const W &y) { return x + y; }
    W w_sub(const W &x, const W &y) { return x - y; }
    W w_mul(const W &x, const W &y) { return x * y; }
    W w_div(const W &x, const W &y) { return x / y; }
    W w_add_r(const W &x, double y) { return x + y; }
    W w_sub_r(const W &x, double y) { return x - y; }
    W w_mul_r(const W &x, double y) { return x * y; }
    W w_div_r(const W &x, double y) { return x / y; }
    W w_radd(double y, const W &x) { return y + x; }
    W w_rsub(double y, const W &x) { return y - x; }
    W w_rmul(double y, const W &x) { return y * x; }
    W w_rdiv(double y, const W &x) { return y / x; }
#define F1(f) W m_##f(const W &x) { return f(x); }
#define F2(f) W m_##f(const W &x, const W &y) { return f(x, y); }
    F1(abs)
    F2(fmod)
    F2(remainder)
    F2(fmax)
    F2(fmin)
    F1(exp)
    F1(exp2)
    F1(expm1)
    F1(log)
    F1(log10)
    F1(log2)
    F1(log1p)
    F2(pow)
    F1(sqrt)
    F1(cbrt)
    F2(hypot)
    F1(sin)
    F1(cos)
    F1(tan)
    F1(asin)
    F1(acos)
    F1(atan)
    F2(atan2)
    F1(sinh)
    F1(cosh)
    F1(tanh)
    F1(asinh)
    F1(acosh)
    F1(atanh)
    F1(erf)
    F1(erfc)
    bool m_isfinite(const W &x) { return isfinite(x); }
    bool m_isnormal(const W &x) { return isnormal(x); }
#undef F1
#undef F2
}
