// the whole interface of the second-order class: VP_NS, VP_REAL, VP_ALT, VP_PROP, VP_OTHER
namespace VP_NS {
    using namespace uncertainties;
    typedef VP_REAL R;
    typedef UReal2<R, VP_PROP> W;
    typedef std::vector<R> D;
    const R &a_fn(const W &x) { return x.first_order_n(); }
    R w_fn(const W &x) { return x.first_order_n(); }
    R a_n(const W &x) { return x.n(); }
    R a_nom(const W &x) { return nom(x); }
    R a_s(const W &x) { return x.s(); }
    R a_sdev(const W &x) { return sdev(x); }
    R a_skew(const W &x) { return x.skew(); }
    R a_kurt(const W &x) { return x.kurt(); }
    R a_m(const W &x, int n) { return x.m(n); }
    R a_var(const W &x) { return var(x); }
    R a_cov(const W &x, const W &y) { return cov(x, y); }
    R a_corr(const W &x, const W &y) { return corr(x, y); }
    bool a_isindep(const W &x) { return x.isindep(); }
    Id a_indepid(const W &x) { return x.indepid(); }
    R a_grad(const W &y, const W &x) { return y.grad(x); }
    R a_hess(const W &z, const W &x, const W &y) { return z.hess(x, y); }
    W a_make7(R n, const std::array<R, 7> &m, R t) { return W(n, m, t); }
    W a_make7d(R n, const std::array<R, 7> &m) { return W(n, m); }
    W a_make6(R n, R s, const std::array<R, 6> &m, R t) { return W(n, s, m, t); }
    W a_make6d(R n, R s, const std::array<R, 6> &m) { return W(n, s, m); }
    W a_make1(R n) { return W(n); }
    W a_make0() { return W(); }
    W a_copy(const W &x) { return x; }
    W a_move(W &x) { return std::move(x); }
    void a_assign(W &x, const W &y) { x = y; }
    void a_moveassign(W &x, W &y) { x = std::move(y); }
    UReal2<VP_ALT, VP_PROP> a_conv(const W &x) { return x; }
    UReal2<R, VP_OTHER> a_prop(const W &x) { return UReal2<R, VP_OTHER>(x); }
    UReal2<VP_ALT, VP_OTHER> a_prop_conv(const W &x) { return UReal2<VP_ALT, VP_OTHER>(x); }
    W a_unary(const W &x, R f, R d, R dd) { return unary(x, f, d, dd); }
    W a_binary(const W &x, const W &y, R f, R dx, R dy, R dxx, R dyy, R dxy) { return binary(x, y, f, dx, dy, dxx, dyy, dxy); }
    void a_binary_assign(W &x, const W &y, R f, R dx, R dy, R dxx, R dyy, R dxy) { binary_assign(x, y, f, dx, dy, dxx, dyy, dxy); }
    W a_pos(const W &x) { return +x; }
    W a_neg(const W &x) { return -x; }
    W a_add(const W &x, const W &y) { return x + y; }
    W a_sub(const W &x, const W &y) { return x - y; }
    W a_mul(const W &x, const W &y) { return x * y; }
    W a_div(const W &x, const W &y) { return x / y; }
    W a_add_r(const W &x, R y) { return x + y; }
    W a_sub_r(const W &x, R y) { return x - y; }
    W a_mul_r(const W &x, R y) { return x * y; }
    W a_div_r(const W &x, R y) { return x / y; }
    W a_radd(R y, const W &x) { return y + x; }
    W a_rsub(R y, const W &x) { return y - x; }
    W a_rmul(R y, const W &x) { return y * x; }
    W a_rdiv(R y, const W &x) { return y / x; }
#define F1(f) W m_##f(const W &x) { return f(x); }
#define F2(f) W m_##f(const W &x, const W &y) { return f(x, y); }
#include "funlist.inc"
#undef F1
#undef F2
    bool m_isfinite(const W &x) { return isfinite(x); }
    bool m_isnormal(const W &x) { return isnormal(x); }
    W a_normal(R mu, R sigma) { return distr::normal<W>(mu, sigma); }
    W a_chisquare(int k) { return distr::chisquare<W>(k); }
    W a_uniform(R l, R r) { return distr::uniform<W>(l, r); }
    void a_cov_it(const std::vector<W> &x, D &out) { cov_matrix(x.begin(), x.end(), out.begin()); }
    D a_cov_v(const std::vector<W> &x) { return cov_matrix<D>(x); }
    void a_corr_it(const std::vector<W> &x, D &out) { corr_matrix(x.begin(), x.end(), out.begin()); }
    D a_corr_v(const std::vector<W> &x) { return corr_matrix<D>(x); }
    D a_nom_v(const std::vector<W> &x) { return nom_vector<D>(x); }
    W a_k_unary(const W &x, const Unary<R> &f, const Unary<R> &d, const Unary<R> &e) { UUnary2<R, VP_PROP> g; g = uunary2<R, VP_PROP>(f, d, e); return g(x); }
    W a_k_unary_dstep(const W &x, const Unary<R> &f, const Unary<R> &d, R h) { UUnary2<R, VP_PROP> g; g = uunary2<R, VP_PROP>(f, d, h); return g(x); }
    W a_k_unary_ddef(const W &x, const Unary<R> &f, const Unary<R> &d) { UUnary2<R, VP_PROP> g; g = uunary2<R, VP_PROP>(f, d); return g(x); }
    W a_k_unary_step(const W &x, const Unary<R> &f, R h) { UUnary2<R, VP_PROP> g; g = uunary2<R, VP_PROP>(f, h); return g(x); }
    W a_k_unary_def(const W &x, const Unary<R> &f) { UUnary2<R, VP_PROP> g; g = uunary2<R, VP_PROP>(f); return g(x); }
    W a_k_binary(const W &x, const W &y, const Binary<R> &f) { UBinary2<R, VP_PROP> g; g = ubinary2<R, VP_PROP>(f, f, f, f, f, f); return g(x, y); }
    W a_k_binary_dstep(const W &x, const W &y, const Binary<R> &f, R h) { UBinary2<R, VP_PROP> g; g = ubinary2<R, VP_PROP>(f, f, f, h); return g(x, y); }
    W a_k_binary_ddef(const W &x, const W &y, const Binary<R> &f) { UBinary2<R, VP_PROP> g; g = ubinary2<R, VP_PROP>(f, f, f); return g(x, y); }
    W a_k_binary_step(const W &x, const W &y, const Binary<R> &f, R h) { UBinary2<R, VP_PROP> g; g = ubinary2<R, VP_PROP>(f, h); return g(x, y); }
    W a_k_binary_def(const W &x, const W &y, const Binary<R> &f) { UBinary2<R, VP_PROP> g; g = ubinary2<R, VP_PROP>(f); return g(x, y); }
    std::string a_format(const W &x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
    std::string a_format0(const W &x) { return format(x); }
    std::string a_formatm(const W &x) { return x.format(); }
    std::string a_formatm2(const W &x, float e) { return x.format(e, "+"); }
    std::ostream &a_stream(std::ostream &s, const W &x) { return s << x; }
}
