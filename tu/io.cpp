// Driver for formatting.
#include <string>
#include <sstream>
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/io.hpp>
#include <uncertainties/impl.hpp>
namespace vpd {
    using namespace uncertainties;
    typedef UReal<double> U;
    typedef UReal2<double, Prop::est> E;
    typedef UReal2<double, Prop::mean> M;
    double u_n(const U &x) { return x.n(); }
    double u_s(const U &x) { return x.s(); }
    std::string u_format(const U &x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
    std::string u_format1(const U &x, float errdig) { return format(x, errdig); }
    std::string u_format0(const U &x) { return format(x); }
    std::string u_stream(const U &x) { std::ostringstream s; s << x; return s.str(); }
    std::string d_format(double x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
}
namespace vpe {
    using namespace uncertainties;
    typedef UReal2<double, Prop::est> W;
    double w_fn(const W &x) { return x.first_order_n(); }
    std::string w_format(const W &x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
    std::string w_format0(const W &x) { return format(x); }
    std::string w_stream(const W &x) { std::ostringstream s; s << x; return s.str(); }
}
namespace vpm {
    using namespace uncertainties;
    typedef UReal2<double, Prop::mean> W;
    double w_fn(const W &x) { return x.first_order_n(); }
    std::string w_format(const W &x, float errdig, const std::string &sep) { return format(x, errdig, sep); }
    std::string w_format0(const W &x) { return format(x); }
    std::string w_stream(const W &x) { std::ostringstream s; s << x; return s.str(); }
}
