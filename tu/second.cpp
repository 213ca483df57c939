// Driver for the second-order class, both propagation modes, and its sparse Hessian.
#include <map>
#include <vector>
#include <utility>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/math.hpp>
#include <uncertainties/impl.hpp>
#define VP_PLAIN vpr
#include "plain.inc"
#define VP_NS vpe
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "second.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS vpm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "second.inc"
namespace vph {
    using namespace uncertainties;
    typedef internal::HessGrad<double> H;
    typedef internal::HessGrad<long double> HL;
    struct Visit {
        Id i, j;
        double h;
        const H::Diag *a, *b;
    };
    std::vector<Visit> h_tri(const H &h, bool skip) {
        std::vector<Visit> v;
        const H::ConstTriIt end = h.ctend();
        for (H::ConstTriIt it = h.ctbegin(skip); it != end; ++it) {
            Visit x;
            x.i = it.id1();
            x.j = it.id2();
            x.h = *it;
            x.a = &it.diag1();
            x.b = &it.diag2();
            v.push_back(x);
        }
        return v;
    }
    std::vector<Visit> h_hess(const H &h, bool skip) {
        std::vector<Visit> v;
        const H::ConstHessIt end = h.chend();
        for (H::ConstHessIt it = h.chbegin(skip); it != end; ++it) {
            Visit x;
            x.i = it.id1();
            x.j = it.id2();
            x.h = *it;
            x.a = &it.diag1();
            x.b = &it.diag2();
            v.push_back(x);
        }
        return v;
    }
    std::vector<Visit> h_diag(const H &h) {
        std::vector<Visit> v;
        for (H::ConstDiagIt it = h.cdbegin(); it != h.cdend(); ++it) {
            Visit x;
            x.i = x.j = it->first;
            x.h = it->second.hhess;
            x.a = x.b = &it->second;
            v.push_back(x);
        }
        return v;
    }
    int h_size(const H &h) { return h.size(); }
    const H::Diag &h_diagc(const H &h, Id i) { return h.diag(i); }
    const H::Diag &h_diag_get(const H &h, Id i) { return h.diag_get(i); }
    double h_tri_get(const H &h, Id i, Id j) { return h.tri_get(i, j); }
    double h_tric(const H &h, Id i, Id j) { return h.tri(i, j); }
    const double *h_tri_find(const H &h, Id i, Id j) { return h.tri_find(i, j); }
    double h_hhess_get(const H &h, Id i, Id j) { return h.hhess_get(i, j); }
    void h_set_diag(H &h, Id i, double g) { h.diag(i).grad = g; }
    void h_set_tri(H &h, Id i, Id j, double v) { h.tri(i, j) = v; }
    void h_set_hhess(H &h, Id i, Id j, double v) { h.hhess(i, j) = v; }
    HL h_conv(const H &h) { return h; }
    double h_mom(const H &h, int n) { return internal::compute_mom(h, n); }
    double h_c2(const H &a, const H &b) { return internal::compute_c2(a, b); }
}
