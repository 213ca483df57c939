namespace VP_NS {
    using namespace uncertainties;
    using vpd::xf; using vpd::xd; using vpd::xdd;
    using vpd::yf; using vpd::yx; using vpd::yy; using vpd::yxx; using vpd::yyy; using vpd::yxy;
    using vpd::gf; using vpd::gd; using vpd::gdd;
    using vpd::hf; using vpd::hx; using vpd::hy; using vpd::hxx; using vpd::hyy; using vpd::hxy;
    typedef UReal2<double, VP_PROP> W;
    double w_fn(const W &x) { return x.first_order_n(); }
    double w_n(const W &x) { return x.n(); }
    UUnary2<double, VP_PROP> k_unary() { return uunary2<double, VP_PROP>(xf, xd, xdd); }
    UUnary2<double, VP_PROP> k_unary_dstep(const double &h) { return uunary2<double, VP_PROP>(xf, xd, h); }
    UUnary2<double, VP_PROP> k_unary_ddef() { return uunary2<double, VP_PROP>(xf, xd); }
    UUnary2<double, VP_PROP> k_unary_step(const double &h) { return uunary2<double, VP_PROP>(xf, h); }
    UUnary2<double, VP_PROP> k_unary_def() { return uunary2<double, VP_PROP>(xf); }
    UBinary2<double, VP_PROP> k_binary() { return ubinary2<double, VP_PROP>(yf, yx, yy, yxx, yyy, yxy); }
    UBinary2<double, VP_PROP> k_binary_dstep(const double &h) { return ubinary2<double, VP_PROP>(yf, yx, yy, h); }
    UBinary2<double, VP_PROP> k_binary_ddef() { return ubinary2<double, VP_PROP>(yf, yx, yy); }
    UBinary2<double, VP_PROP> k_binary_step(const double &h) { return ubinary2<double, VP_PROP>(yf, h); }
    UBinary2<double, VP_PROP> k_binary_def() { return ubinary2<double, VP_PROP>(yf); }
    W f_unary(const W &x) { UUnary2<double, VP_PROP> g; g = k_unary(); return g(x); }
    W f_unary_dstep(const W &x, const double &h) { UUnary2<double, VP_PROP> g; g = k_unary_dstep(h); return g(x); }
    W f_unary_ddef(const W &x) { UUnary2<double, VP_PROP> g; g = k_unary_ddef(); return g(x); }
    W f_unary_step(const W &x, const double &h) { UUnary2<double, VP_PROP> g; g = k_unary_step(h); return g(x); }
    W f_unary_def(const W &x) { UUnary2<double, VP_PROP> g; g = k_unary_def(); return g(x); }
    W f_binary(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = k_binary(); return g(x, y); }
    W f_binary_dstep(const W &x, const W &y, const double &h) { UBinary2<double, VP_PROP> g; g = k_binary_dstep(h); return g(x, y); }
    W f_binary_ddef(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = k_binary_ddef(); return g(x, y); }
    W f_binary_step(const W &x, const W &y, const double &h) { UBinary2<double, VP_PROP> g; g = k_binary_step(h); return g(x, y); }
    W f_binary_def(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = k_binary_def(); return g(x, y); }
    W g_unary(const W &x) { UUnary2<double, VP_PROP> g; g = uunary2<double, VP_PROP>(gf, gd, gdd); return g(x); }
    W g_unary_dstep(const W &x, const double &h) { UUnary2<double, VP_PROP> g; g = uunary2<double, VP_PROP>(gf, gd, h); return g(x); }
    W g_unary_ddef(const W &x) { UUnary2<double, VP_PROP> g; g = uunary2<double, VP_PROP>(gf, gd); return g(x); }
    W g_unary_step(const W &x, const double &h) { UUnary2<double, VP_PROP> g; g = uunary2<double, VP_PROP>(gf, h); return g(x); }
    W g_unary_def(const W &x) { UUnary2<double, VP_PROP> g; g = uunary2<double, VP_PROP>(gf); return g(x); }
    W g_binary(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = ubinary2<double, VP_PROP>(hf, hx, hy, hxx, hyy, hxy); return g(x, y); }
    W g_binary_dstep(const W &x, const W &y, const double &h) { UBinary2<double, VP_PROP> g; g = ubinary2<double, VP_PROP>(hf, hx, hy, h); return g(x, y); }
    W g_binary_ddef(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = ubinary2<double, VP_PROP>(hf, hx, hy); return g(x, y); }
    W g_binary_step(const W &x, const W &y, const double &h) { UBinary2<double, VP_PROP> g; g = ubinary2<double, VP_PROP>(hf, h); return g(x, y); }
    W g_binary_def(const W &x, const W &y) { UBinary2<double, VP_PROP> g; g = ubinary2<double, VP_PROP>(hf); return g(x, y); }
}
