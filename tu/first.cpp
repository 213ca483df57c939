// Driver for the first-order class: every wrapper calls the public API only.
#include <map>
#include <vector>
#include <utility>
#include <uncertainties/ureal.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
#define VP_PLAIN vpr
#include "plain.inc"
namespace vpd {
    using namespace uncertainties;
    typedef UReal<double> U;
    typedef UReal<long double> UL;
    double u_n(const U &x) { return x.n(); }
    double u_s_const(const U &x) { return x.s(); }
    double u_s(U &x) { return x.s(); }
    double u_nom(const U &x) { return nom(x); }
    double u_sdev(const U &x) { return sdev(x); }
    bool u_isindep(const U &x) { return x.isindep(); }
    Id u_indepid(const U &x) { return x.indepid(); }
    Id u_invalid() { return invalid_id; }
    double u_cov(const U &x, const U &y) { return cov(x, y); }
    double u_var_const(const U &x) { return var(x); }
    double u_var(U &x) { return var(x); }
    double u_corr(const U &x, const U &y) { return corr(x, y); }
    double u_grad(const U &y, const U &x) { return y.grad(x); }
    U u_make(double n, double s) { return U(n, s); }
    U u_make1(double n) { return U(n); }
    U u_make0() { return U(); }
    U u_copy(const U &x) { return x; }
    void u_assign(U &x, const U &y) { x = y; }
    U u_change(const U &x, double n) { return change_nom(x, n); }
    UL u_conv(const U &x) { return x; }
    U u_conv_back(const UL &x) { return x; }
    U u_unary(const U &x, double m, double d) { return unary(x, m, d); }
    U u_binary(const U &x, const U &y, double m, double d, double e) { return binary(x, y, m, d, e); }
    U u_nary1(const U *x, double m, const double *d) { return nary(x, x + 1, m, d); }
    U u_nary0(const U *x, double m, const double *d) { return nary(x, x, m, d); }
    U u_nary2(const U *x, double m, const double *d) { return nary(x, x + 2, m, d); }
    U u_nary3(const U *x, double m, const double *d) { return nary(x, x + 3, m, d); }
    void u_binary_assign(U &x, const U &y, double m, double d, double e) { x.binary_assign(y, m, d, e); }
    U u_pos(const U &x) { return +x; }
    U u_neg(const U &x) { return -x; }
    U u_add(const U &x, const U &y) { return x + y; }
    U u_sub(const U &x, const U &y) { return x - y; }
    U u_mul(const U &x, const U &y) { return x * y; }
    U u_div(const U &x, const U &y) { return x / y; }
    U u_add_r(const U &x, double y) { return x + y; }
    U u_sub_r(const U &x, double y) { return x - y; }
    U u_mul_r(const U &x, double y) { return x * y; }
    U u_div_r(const U &x, double y) { return x / y; }
    U u_radd(double y, const U &x) { return y + x; }
    U u_rsub(double y, const U &x) { return y - x; }
    U u_rmul(double y, const U &x) { return y * x; }
    U u_rdiv(double y, const U &x) { return y / x; }
    void u_iadd(U &x, const U &y) { x += y; }
    void u_isub(U &x, const U &y) { x -= y; }
    void u_imul(U &x, const U &y) { x *= y; }
    void u_idiv(U &x, const U &y) { x /= y; }
    void u_iadd_r(U &x, double y) { x += y; }
    void u_isub_r(U &x, double y) { x -= y; }
    void u_imul_r(U &x, double y) { x *= y; }
    void u_idiv_r(U &x, double y) { x /= y; }
#define F1(f) U m_##f(const U &x) { return f(x); }
#define F2(f) U m_##f(const U &x, const U &y) { return f(x, y); }
    F1(abs)
    F2(fmod)
    F2(remainder)
    F2(fmax)
    F2(fmin)
    F1(exp)
    F1(exp2)
    F1(expm1)
    F1(log)
    F1(log10)
    F1(log2)
    F1(log1p)
    F2(pow)
    F1(sqrt)
    F1(cbrt)
    F2(hypot)
    F1(sin)
    F1(cos)
    F1(tan)
    F1(asin)
    F1(acos)
    F1(atan)
    F2(atan2)
    F1(sinh)
    F1(cosh)
    F1(tanh)
    F1(asinh)
    F1(acosh)
    F1(atanh)
    F1(erf)
    F1(erfc)
    bool m_isfinite(const U &x) { return isfinite(x); }
    bool m_isnormal(const U &x) { return isnormal(x); }
}
