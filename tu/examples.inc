// the uses shown in the documentation; VP_REAL1, VP_EST, VP_MEAN choose the numerical type
namespace VP_NS {
namespace unc = uncertainties;
typedef VP_TYPE R;
typedef unc::UReal<R> U;
typedef unc::UReal2<R, unc::Prop::est> E;
typedef unc::UReal2<R, unc::Prop::mean> M;
void e_init() {
    U x;
    U x1 = R(1);
    U y = {1, 2};
    U z(1, R(2));
    U w {y};
    x = x1;
    x = R(3);
    x = {R(1), R(2)};
    const R mean = x.n();
    R s = x.s();
    s = unc::nom(x);
    s = unc::sdev(x);
    s = var(x);
    s = cov(x, y);
    s = cov(x, y + x);
    s = cov(x, y - x);
    s = corr(x, x + y);
    s = y.grad(x);
    bool ind = (x + y).isindep();
    unc::Id id = x.indepid();
    ind = id == unc::invalid_id;
    (void) mean; (void) ind;
}
void e_stream(std::ostream &o) {
    U x = {13, R(4) / 10};
    o << x << "\n" << format(x, 3) << "\n" << x.format(3) << "\n" << x.format() << format(x) << x.format(2, "+-") << format(x, 2, "+-");
    E y(0, 1, {0, 3, 0, 15, 0, 105});
    o << y << "\n" << format(y, 3) << "\n" << y.format(3) << y.format();
    M z(0, 1, {0, 3, 0, 15, 0, 105});
    o << z << "\n" << format(z, 3) << "\n" << z.format(3) << z.format() << z.format(2, "+-");
}
void e_sum() {
    U x = R(0);
    for (int i = 0; i < 10; ++i) {
        x = x + U(1, R(1) / 10);
        x += U(1, R(1) / 10);
    }
}
U e_usin(U &x) {
    using std::sin;
    using std::cos;
    R mean = sin(x.n());
    R d = cos(x.n());
    return unary(x, mean, d);
}
U e_umult(U &x, U &y) { return binary(x, y, R(x.n() * y.n()), y.n(), x.n()); }
E e_usin2(E &x) {
    using std::sin;
    using std::cos;
    R mean = sin(x.first_order_n());
    R d = cos(x.first_order_n());
    R dd = -sin(x.first_order_n());
    return unary(x, mean, d, dd);
}
E e_umult2(E &x, E &y) {
    R mean = x.first_order_n() * y.first_order_n();
    return binary(x, y, mean, y.first_order_n(), x.first_order_n(), R(0), R(0), R(1));
}
void e_moments() {
    E x(0, 1, {0, 3, 0, 15, 0, 105});
    x = unc::distr::normal<E>(0, 1);
    M y = unc::distr::uniform<M>(0, 1);
    y = unc::distr::chisquare<M>(3);
    M z(x);
    E w(z);
    R s = x.n() + x.s() + x.skew() + x.kurt() + x.m(2) + x.first_order_n() + cov(x, w) + corr(x, w) + var(x);
    s = x.grad(w) + x.hess(w, w);
    s = unc::nom(x) + unc::sdev(x);
    bool ind = (x + w).isindep();
    unc::Id id = y.indepid();
    ind = id == unc::invalid_id;
    (void) ind; (void) s;
}
void e_functions() {
    unc::UUnary<R> usin;
    usin = unc::uunary<R>([](const R &x) { using std::sin; return R(sin(x)); }, [](const R &x) { using std::cos; return R(cos(x)); });
    U x = {1, R(1) / 10};
    U y = usin(x);
    usin = unc::uunary<R>([](const R &x) { using std::sin; return R(sin(x)); });
    y = usin(x);
    unc::UBinary<R> mul;
    mul = unc::ubinary<R>([](const R &x, const R &y) { return R(x * y); });
    mul = unc::ubinary<R>([](const R &x, const R &y) { return R(x * y); }, [](const R &, const R &y) { return y; },
                          [](const R &x, const R &) { return x; });
    y = mul(x, y);
}
void e_matrices() {
    std::vector<U> x {U(1, 2), U(2), U()};
    std::vector<R> c(x.size() * x.size());
    unc::cov_matrix(x.begin(), x.end(), c.begin());
    unc::corr_matrix(x.begin(), x.end(), c.begin());
    std::vector<R> r = unc::corr_matrix<std::vector<R> >(x);
    r = unc::cov_matrix<std::vector<R> >(x);
    r = unc::nom_vector<std::vector<R> >(x);
    r = unc::corr2cov<std::vector<R> >(std::vector<R>(2), std::vector<R>(4));
    std::vector<U> v = unc::ureals<std::vector<U> >(std::vector<R> {1, 2}, std::vector<R> {1, 0, 0, 1});
    std::vector<E> e {E(1), E()};
    unc::cov_matrix(e.begin(), e.end(), c.begin());
    r = unc::cov_matrix<std::vector<R> >(e);
}
void e_mixed() {
    U x {1, 2}, y {3, 4};
    x = R(2) * x + y / R(3) - R(1);
#ifndef VP_USER
    x = 2 * x + y / 3 - 1;
#endif
#ifndef VP_USER
    x += 1; x -= 1; x *= 2; x /= 2;
#endif
    x += R(1); x -= R(1); x *= R(2); x /= R(2);
    x += y; x -= y; x *= y; x /= y;
    E e = unc::distr::normal<E>(0, 1), f = e;
    e = R(2) * e + f / R(3) - R(1);
#ifndef VP_USER
    e = 2 * e + f / 3 - 1;
#endif
}
void e_containers() {
    std::map<int, U> m;
    m[1] = U(1, 2);
    std::vector<E> v(3, E(1));
    v.push_back(unc::distr::normal<E>(0, 1));
    std::pair<U, E> p(m[1], v[0]);
    std::swap(p.first, m[1]);
}
}
