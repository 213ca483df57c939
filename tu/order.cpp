// the whole interface after the headers in a given order; VP_H0 to VP_H9 name them, VP_BEFORE what the user includes first
#ifdef VP_BEFORE_MANY
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <complex>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <valarray>
#include <vector>
#endif
#ifdef VP_BEFORE_MATH
#include <math.h>
#endif
#ifdef VP_BEFORE_STDLIB
#include <stdlib.h>
#endif
#ifdef VP_BEFORE_EIGEN
#include <Eigen/Dense>
#endif
#include VP_H0
#include VP_H1
#include VP_H2
#include VP_H3
#include VP_H4
#include VP_H5
#include VP_H6
#include VP_H7
#include VP_H8
#include VP_H9
#include <array>
#include <map>
#include <ostream>
#include <string>
#include <utility>
#include <vector>
#define VP_REAL double
#define VP_ALT long double
#define VP_NS vad1
#include "api1.inc"
#undef VP_NS
#define VP_NS vade
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS vadm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
namespace vadx {
    using namespace uncertainties;
    std::string a_format(const UReal<double> &x) { return format(x, 2.5f, "+-"); }
    std::string a_format2(const UReal2<double, Prop::est> &x) { return x.format(3); }
    std::string a_formatd(const double &x) { return format(x); }
    void a_stream(std::ostream &o, const UReal<double> &x, const UReal2<double, Prop::mean> &y) { o << x << y; }
}
