// P02: limits are inclusive, narrowed to the type, and nothing outside is stored.
#include "bodies.h"

template <typename T> bool in_type(long double v)
{
    if (std::isnan(v)) return false;
    return v >= (long double) std::numeric_limits<T>::lowest() && v <= (long double) std::numeric_limits<T>::max();
}

template <typename T>
void run(mc::Explorer & x)
{
    using lim = std::numeric_limits<T>;
    static double const INF = std::numeric_limits<double>::infinity();
    double const tmin = (double) lim::lowest(), tmax = (double) lim::max();
    // candidate limits: whole numbers, as the limits of integer maps are
    std::vector<double> L = { 0, 1, -1, 7, 100, -100, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 65535,
                              2147483647., 2147483648., -2147483648., -2147483649., 4294967296.,
                              4611686018427387904., -4611686018427387904., -9223372036854775808.,
                              9223372036854774784., 9223372036854775808., 1.8446744073709552e19, -1.8446744073709552e19,
                              3.4028234663852886e38, 1e39, -1e39, 1.7976931348623157e308, -1.7976931348623157e308 };
    if (!lim::is_integer) for (double d : {0.5, -0.25, 1e-30, 5e18, -5e18}) L.push_back(d);
    auto lbl = [&](std::size_t i) { return i == 0 ? std::string("-") : mc::str(L[i - 1]); };
    std::size_t const a = x.choose_l("min", L.size() + 1, lbl);
    std::size_t const b = x.choose_l("max", L.size() + 1, lbl);
    std::optional<double> lo, hi;
    if (a) lo = L[a - 1];
    if (b) hi = L[b - 1];
    // float limits that a float cannot hold are outside this enumeration (rounding)
    if constexpr (std::is_same_v<T, float>) {
        for (auto o : {lo, hi}) if (o && std::fabs(*o) <= tmax && (double) (float) *o != *o) throw mc::Prune();
    }
    std::size_t const how = x.choose_l("how", 3, [](std::size_t i) { return std::string(i == 0 ? "ctor" : i == 1 ? "setters" : "converted"); });
    if (how == 0 && !(lo && hi)) throw mc::Prune();

    bool const disordered = lo && hi && *lo > *hi;
    bool const outside = (lo && *lo > tmax && !in_type<T>(*lo)) || (hi && *hi < tmin);
    MaRC::extrema<T> e;
    std::vector<T> map;
    // data: the neighbourhood of every limit and type boundary
    std::vector<double> D = { NAN, INF, -INF, 0, -0.0, 0.5, -0.5, 1.5, -1.5, 254.5, 255.5, -128.5, 32767.5, -32768.5, 1e300, -1e300, 5e-324,
                              3.4028235677973366e38, 9223372036854775807., 4503599627370497.5 };
    for (double d : {lo.value_or(tmin), hi.value_or(tmax), tmin, tmax, 255., 256., 32768., -32769., 2147483648., -2147483649., 9223372036854775808.}) {
        D.push_back(d); D.push_back(std::nextafter(d, INF)); D.push_back(std::nextafter(d, -INF));
        D.push_back(d + 1); D.push_back(d - 1); D.push_back(d + 0.5); D.push_back(d - 0.5); D.push_back(-d);
    }
    Body body = make_body(true, 10, 10);
    MaRC::SimpleCylindrical m(body, -90, 90, 0, 360, false);
    std::size_t const n = D.size();
    std::size_t next = 0;
    // one line: pixel order is the longitude order; identify pixel by longitude
    FnSource src([&](double, double lon, double & d) {
        // prograde: longitude decreases with sample
        long const i = std::lround((2 * PI - lon) / (2 * PI) * n - 0.5);
        d = D[std::min<long>(std::max<long>(i, 0), n - 1)];
        ++next;
        return true;
    });
    intmax_t const B = 42;
    MaRC::plot_info<T> info(n, 1, MaRC::blank_type(B));
    bool threw = false;
    try {
        if (how == 0) e = MaRC::extrema<T>(*lo, *hi);
        else if (how == 1) { if (lo) e.minimum(*lo); if (hi) e.maximum(*hi); }
        else {
            MaRC::extrema<double> ed;
            if (lo) ed.minimum(*lo);
            if (hi) ed.maximum(*hi);
            e = MaRC::extrema<T>(ed);
        }
        map = m.make_map<T>(src, e, info);
    } catch (std::invalid_argument const &) { threw = true; }
    x.state(mc::mix(mc::mix(sizeof(T) + (lim::is_integer ? 0 : 100), a * 64 + b), how * 2 + threw));
    if (disordered && !outside) {
        // a range narrowed to the type may have collapsed onto the type's limit
        x.check(threw, "disordered", "a minimum above the maximum was accepted");
        return;
    }
    if (threw) {
        x.check(outside || disordered, "refused", "a valid range was refused");
        return;
    }
    T const blank = lim::is_integer ? T(B) : T(NAN);
    for (std::size_t i = 0; i < n; ++i) {
        double const v = D[i];
        bool const ok = in_type<T>(v) && (!lo || v >= *lo) && (!hi || v <= *hi);
        T const want = ok ? static_cast<T>(v) : blank;
        bool const eq = map[i] == want || (map[i] != map[i] && want != want);
        x.checkf(eq, "stored", [&] { return "datum " + mc::str(v) + " gave pixel " + mc::str(map[i]) + ", expected " + mc::str(want); });
    }
    x.steps(n);
    x.check(next == n, "reads", "source read " + mc::str(next) + " times for " + mc::str(n) + " pixels");
}

// NaN limits
template <typename T>
void nan_limits(mc::Explorer & x)
{
    std::size_t const how = x.choose("how", 5);
    bool threw = false;
    try {
        MaRC::extrema<T> e(0., 100.);
        if (how == 0) { MaRC::extrema<T> f(double(NAN), 1.); }
        if (how == 1) { MaRC::extrema<T> f(0., double(NAN)); }
        if (how == 2) e.minimum(double(NAN));
        if (how == 3) e.maximum(double(NAN));
        if (how == 4) { MaRC::extrema<T> f(float(NAN), float(NAN)); }
    } catch (std::invalid_argument const &) { threw = true; }
    x.check(threw, "nan", "NaN accepted as a limit");
    x.state(1000 + how + 10 * sizeof(T));
}

static void body(mc::Explorer & x)
{
    bool const nan = x.flip("nan-limits");
    int const t = x.choose_l("type", 6, [](std::size_t i) { return std::string(std::vector<char const *>{"u8", "i16", "i32", "i64", "f32", "f64"}[i]); });
#define R(T) (nan ? nan_limits<T>(x) : run<T>(x))
    switch (t) {
    case 0: R(std::uint8_t); break;
    case 1: R(std::int16_t); break;
    case 2: R(std::int32_t); break;
    case 3: R(std::int64_t); break;
    case 4: R(float); break;
    case 5: R(double); break;
    }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 3, body); }
