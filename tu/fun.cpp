// Driver for the function factories.  The user functions are declared but not
// defined: they are uninterpreted functions of their arguments.
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/functions.hpp>
#include <uncertainties/impl.hpp>
namespace vpd {
    using namespace uncertainties;
    typedef UReal<double> U;
    double xf(const double &x);
    double xd(const double &x);
    double xdd(const double &x);
    double yf(const double &x, const double &y);
    double yx(const double &x, const double &y);
    double yy(const double &x, const double &y);
    double yxx(const double &x, const double &y);
    double yyy(const double &x, const double &y);
    double yxy(const double &x, const double &y);
    // other functions of the same types
    double gf(const double &x);
    double gd(const double &x);
    double gdd(const double &x);
    double hf(const double &x, const double &y);
    double hx(const double &x, const double &y);
    double hy(const double &x, const double &y);
    double hxx(const double &x, const double &y);
    double hyy(const double &x, const double &y);
    double hxy(const double &x, const double &y);
    double u_n(const U &x) { return x.n(); }
    double u_s(U &x) { return x.s(); }
    double u_cov(const U &x, const U &y) { return cov(x, y); }
    U u_make(double n, double s) { return U(n, s); }
    U u_conv_back(const UReal<long double> &x) { return x; }
    UUnary<double> k_unary() { return uunary<double>(xf, xd); }
    UUnary<double> k_unary_step(const double &h) { return uunary<double>(xf, h); }
    UUnary<double> k_unary_def() { return uunary<double>(xf); }
    UBinary<double> k_binary() { return ubinary<double>(yf, yx, yy); }
    UBinary<double> k_binary_step(const double &h) { return ubinary<double>(yf, h); }
    UBinary<double> k_binary_def() { return ubinary<double>(yf); }
    U f_unary(const U &x) { UUnary<double> g; g = uunary<double>(xf, xd); return g(x); }
    U f_unary_step(const U &x, const double &h) { UUnary<double> g; g = uunary<double>(xf, h); return g(x); }
    U f_unary_def(const U &x) { UUnary<double> g; g = uunary<double>(xf); return g(x); }
    U f_binary(const U &x, const U &y) { UBinary<double> g; g = ubinary<double>(yf, yx, yy); return g(x, y); }
    U f_binary_step(const U &x, const U &y, const double &h) { UBinary<double> g; g = ubinary<double>(yf, h); return g(x, y); }
    U f_binary_def(const U &x, const U &y) { UBinary<double> g; g = ubinary<double>(yf); return g(x, y); }
    U g_unary(const U &x) { UUnary<double> g; g = uunary<double>(gf, gd); return g(x); }
    U g_unary_step(const U &x, const double &h) { UUnary<double> g; g = uunary<double>(gf, h); return g(x); }
    U g_unary_def(const U &x) { UUnary<double> g; g = uunary<double>(gf); return g(x); }
    U g_binary(const U &x, const U &y) { UBinary<double> g; g = ubinary<double>(hf, hx, hy); return g(x, y); }
    U g_binary_step(const U &x, const U &y, const double &h) { UBinary<double> g; g = ubinary<double>(hf, h); return g(x, y); }
    U g_binary_def(const U &x, const U &y) { UBinary<double> g; g = ubinary<double>(hf); return g(x, y); }
    double d_step(int order) { return default_step<double>(order); }
    float d_stepf(int order) { return default_step<float>(order); }
    long double d_stepl(int order) { return default_step<long double>(order); }
    double d_step0() { return default_step<double>(); }
}
#define VP_NS vpe
#define VP_PROP Prop::est
#include "fun.inc"
#undef VP_NS
#undef VP_PROP
#define VP_NS vpm
#define VP_PROP Prop::mean
#include "fun.inc"
