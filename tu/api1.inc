// the whole interface of the first-order class: VP_NS, VP_REAL (numerical type), VP_ALT (another one)
namespace VP_NS {
    using namespace uncertainties;
    typedef VP_REAL R;
    typedef UReal<R> U;
    typedef std::vector<R> D;
    const R &a_n(const U &x) { return x.n(); }
    R u_n(const U &x) { return x.n(); }
    R a_s_const(const U &x) { return x.s(); }
    R a_s(U &x) { return x.s(); }
    R a_nom(const U &x) { return nom(x); }
    R a_sdev(const U &x) { return sdev(x); }
    R a_nomr(const R &x) { return nom(x); }
    R a_sdevr(const R &x) { return sdev(x); }
    bool a_isindep(const U &x) { return x.isindep(); }
    Id a_indepid(const U &x) { return x.indepid(); }
    R a_cov(const U &x, const U &y) { return cov(x, y); }
    R a_var_const(const U &x) { return var(x); }
    R a_var(U &x) { return var(x); }
    R a_corr(const U &x, const U &y) { return corr(x, y); }
    R a_grad(const U &y, const U &x) { return y.grad(x); }
    U a_make(R n, R s) { return U(n, s); }
    U a_make1(R n) { return U(n); }
    U a_make0() { return U(); }
    U a_copy(const U &x) { return x; }
    U a_move(U &x) { return std::move(x); }
    void a_assign(U &x, const U &y) { x = y; }
    void a_moveassign(U &x, U &y) { x = std::move(y); }
    U a_change(const U &x, R n) { return change_nom(x, n); }
    UReal<VP_ALT> a_conv(const U &x) { return x; }
    U a_unary(const U &x, R m, R d) { return unary(x, m, d); }
    U a_binary(const U &x, const U &y, R m, R d, R e) { return binary(x, y, m, d, e); }
    U a_nary(const U *x, int n, R m, const R *d) { return nary(x, x + n, m, d); }
    U a_nary_v(const std::vector<U> &x, R m, const D &d) { return nary(x.begin(), x.end(), m, d.begin()); }
    void a_binary_assign(U &x, const U &y, R m, R d, R e) { x.binary_assign(y, m, d, e); }
    U a_pos(const U &x) { return +x; }
    U a_neg(const U &x) { return -x; }
    U a_add(const U &x, const U &y) { return x + y; }
    U a_sub(const U &x, const U &y) { return x - y; }
    U a_mul(const U &x, const U &y) { return x * y; }
    U a_div(const U &x, const U &y) { return x / y; }
    U a_add_r(const U &x, R y) { return x + y; }
    U a_sub_r(const U &x, R y) { return x - y; }
    U a_mul_r(const U &x, R y) { return x * y; }
    U a_div_r(const U &x, R y) { return x / y; }
    U a_radd(R y, const U &x) { return y + x; }
    U a_rsub(R y, const U &x) { return y - x; }
    U a_rmul(R y, const U &x) { return y * x; }
    U a_rdiv(R y, const U &x) { return y / x; }
    const U &a_iadd(U &x, const U &y) { return x += y; }
    const U &a_isub(U &x, const U &y) { return x -= y; }
    const U &a_imul(U &x, const U &y) { return x *= y; }
    const U &a_idiv(U &x, const U &y) { return x /= y; }
    const U &a_iadd_r(U &x, R y) { return x += y; }
    const U &a_isub_r(U &x, R y) { return x -= y; }
    const U &a_imul_r(U &x, R y) { return x *= y; }
    const U &a_idiv_r(U &x, R y) { return x /= y; }
#define F1(f) U m_##f(const U &x) { return f(x); }
#define F2(f) U m_##f(const U &x, const U &y) { return f(x, y); }
#include "funlist.inc"
#undef F1
#undef F2
    bool m_isfinite(const U &x) { return isfinite(x); }
    bool m_isnormal(const U &x) { return isnormal(x); }
    std::vector<U> a_ureals(const D &mu, const D &cov) { return ureals<std::vector<U> >(mu, cov); }
    void a_cov_it(const std::vector<U> &x, D &out) { cov_matrix(x.begin(), x.end(), out.begin()); }
    D a_cov_v(const std::vector<U> &x) { return cov_matrix<D>(x); }
    void a_corr_it(const std::vector<U> &x, D &out) { corr_matrix(x.begin(), x.end(), out.begin()); }
    D a_corr_v(const std::vector<U> &x) { return corr_matrix<D>(x); }
    D a_corr2cov(const D &sigma, const D &corr) { return corr2cov<D>(sigma, corr); }
    D a_nom_v(const std::vector<U> &x) { return nom_vector<D>(x); }
    U a_k_unary(const U &x, const Unary<R> &f, const Unary<R> &d) { UUnary<R> g; g = uunary<R>(f, d); return g(x); }
    U a_k_unary_step(const U &x, const Unary<R> &f, R h) { UUnary<R> g; g = uunary<R>(f, h); return g(x); }
    U a_k_unary_def(const U &x, const Unary<R> &f) { UUnary<R> g; g = uunary<R>(f); return g(x); }
    U a_k_binary(const U &x, const U &y, const Binary<R> &f, const Binary<R> &d, const Binary<R> &e) { UBinary<R> g; g = ubinary<R>(f, d, e); return g(x, y); }
    U a_k_binary_step(const U &x, const U &y, const Binary<R> &f, R h) { UBinary<R> g; g = ubinary<R>(f, h); return g(x, y); }
    U a_k_binary_def(const U &x, const U &y, const Binary<R> &f) { UBinary<R> g; g = ubinary<R>(f); return g(x, y); }
    R a_step(int order) { return default_step<R>(order); }
    R a_step0() { return default_step<R>(); }
    std::string a_format(const U &x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
    std::string a_format1(const U &x, float errdig) { return format(x, errdig); }
    std::string a_format0(const U &x) { return format(x); }
    std::string a_formatm(const U &x) { return x.format(); }
    std::string a_formatm2(const U &x, float e) { return x.format(e, "+"); }
    std::string a_formatr(R x) { return format(x); }
    std::ostream &a_stream(std::ostream &s, const U &x) { return s << x; }
    std::array<R, 7> a_central(const std::array<R, 8> &m) { return internal::central_moments(m); }
    std::array<R, 6> a_std(const std::array<R, 7> &m) { return internal::std_moments(m); }
    R a_check7(const std::array<R, 7> &m) { return internal::check_moments(m); }
    R a_check6(const std::array<R, 6> &m) { return internal::check_moments(m); }
    void a_throw7(const std::array<R, 7> &m, R t) { internal::check_moments_throw(m, t); }
    void a_throw6(const std::array<R, 6> &m, R t) { internal::check_moments_throw(m, t); }
}
