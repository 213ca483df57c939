// Driver for distributions, moment checks, matrix helpers and correlated variables.
#include <vector>
#include <array>
#include <iterator>
#include <stdexcept>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/distr.hpp>
#include <uncertainties/stat.hpp>
#include <uncertainties/ureals.hpp>
#include <uncertainties/impl.hpp>
namespace vpd {
    using namespace uncertainties;
    typedef UReal<double> U;
    typedef UReal<long double> UL;
    typedef std::vector<double> D;
    U u_make(double n, double s) { return U(n, s); }
    U u_conv_back(const UL &x) { return x; }
    double u_n(const U &x) { return x.n(); }
    double u_s(U &x) { return x.s(); }
    double u_cov(const U &x, const U &y) { return cov(x, y); }
    std::vector<U> w_ureals(const D &mu, const D &cov) { return ureals<std::vector<U> >(mu, cov); }
    void w_cov_it(const std::vector<U> &x, D &out) { cov_matrix(x.begin(), x.end(), out.begin()); }
    int w_cov_it_end(const std::vector<U> &x, D &out) { return cov_matrix(x.begin(), x.end(), out.begin()) - out.begin(); }
    D w_cov_v(const std::vector<U> &x) { return cov_matrix<D>(x); }
    int w_corr_it_end(const std::vector<U> &x, D &out) { return corr_matrix(x.begin(), x.end(), out.begin()) - out.begin(); }
    D w_corr_v(const std::vector<U> &x) { return corr_matrix<D>(x); }
    D w_corr2cov(const D &sigma, const D &corr) { return corr2cov<D>(sigma, corr); }
    D w_nom_v(const std::vector<U> &x) { return nom_vector<D>(x); }
    double w_cov2(const U &x, const U &y) { return cov(x, y); }
    double w_corr2(const U &x, const U &y) { return corr(x, y); }
    std::array<double, 7> w_central(const std::array<double, 8> &m) { return internal::central_moments(m); }
    std::array<double, 6> w_std(const std::array<double, 7> &m) { return internal::std_moments(m); }
    double w_check7(const std::array<double, 7> &m) { return internal::check_moments(m); }
    double w_check6(const std::array<double, 6> &m) { return internal::check_moments(m); }
    void w_throw7(const std::array<double, 7> &m, double t) { internal::check_moments_throw(m, t); }
    void w_throw6(const std::array<double, 6> &m, double t) { internal::check_moments_throw(m, t); }
    int w_binom(int n, int k) { return internal::binom_coeff(n, k); }
}
#define VP_NS vpe
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "misc.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS vpm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "misc.inc"
