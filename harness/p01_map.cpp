// P01: every pixel of a map plane is the source's datum at its place, or blank.
#include "bodies.h"

// Bare projection with a known layout and any visiting order.
struct RawFactory : MaRC::MapFactory
{
    std::vector<std::size_t> order;
    char const * projection_name() const override { return "raw"; }
    static double la(std::size_t o) { return -1.5 + 0.001 * (o % 3000); }
    static double lo(std::size_t o) { return 6.0 - 0.002 * (o % 2999); }
private:
    void plot_map(std::size_t, std::size_t, plot_type const & plot) const override
    { for (auto o : order) plot(la(o), lo(o), o); }
    void plot_grid(std::size_t, std::size_t, double, double, grid_type &) const override {}
};

struct Outcome { bool found; double v; };

template <typename T> constexpr char const * tname();
template <> constexpr char const * tname<std::uint8_t>() { return "u8"; }
template <> constexpr char const * tname<std::int16_t>() { return "i16"; }
template <> constexpr char const * tname<std::int32_t>() { return "i32"; }
template <> constexpr char const * tname<std::int64_t>() { return "i64"; }
template <> constexpr char const * tname<float>() { return "f32"; }
template <> constexpr char const * tname<double>() { return "f64"; }

// Is datum v storable in T and inside the optional limits?
template <typename T>
bool storable(double v, std::optional<double> lo, std::optional<double> hi)
{
    if (std::isnan(v)) return false;
    if (lo && v < *lo) return false;
    if (hi && v > *hi) return false;
    if constexpr (std::is_integral_v<T>) {
        double const up = std::ldexp(1.0, std::numeric_limits<T>::digits);
        // inclusive upper limit: the type's maximum itself (a datum above it, even
        // by a fraction, is out of the type's range)
        if constexpr (sizeof(T) < 8) {
            if (v > double(std::numeric_limits<T>::max())) return false;
        } else if (v >= up) return false;
        return v >= double(std::numeric_limits<T>::lowest());
    } else
        return v >= double(std::numeric_limits<T>::lowest()) && v <= double(std::numeric_limits<T>::max());
}

template <typename T> bool same(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>) if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b;
}

template <typename T>
void run(mc::Explorer & x, int proj, bool prograde, std::size_t s, std::size_t l,
         std::vector<Outcome> const & oc, bool exhaustive_outcomes, bool large = false)
{
    using lim = std::numeric_limits<T>;
    std::size_t const n = s * l;

    // requested limits
    struct R { char const * name; std::optional<double> lo, hi; };
    static std::vector<R> const ranges = {
        {"none", {}, {}}, {"[3,100]", 3., 100.}, {"[3,-]", 3., {}}, {"[-,100]", {}, 100.}, {"[7,7]", 7., 7.},
        {"[wide]", -1e30, 1e30}, {"[0,0]", 0., 0.} };
    std::size_t const ri = x.choose_l("range", large ? 2 : exhaustive_outcomes ? 4 : ranges.size(),
                                      [&](std::size_t i) { return std::string(ranges[i].name); });
    auto const & r = ranges[ri];

    // blank
    std::optional<std::intmax_t> blank;
    bool const isint = lim::is_integer;
    static std::vector<std::pair<char const *, std::intmax_t>> const blanks = {
        {"none", 0}, {"0", 0}, {"7", 7}, {"-1", -1}, {"255", 255}, {"256", 256}, {"-32768", -32768}, {"-32769", -32769},
        {"32768", 32768}, {"2147483648", 2147483648LL}, {"-2147483649", -2147483649LL},
        {"i64min", INT64_MIN}, {"i64max", INT64_MAX} };
    std::size_t const bi = x.choose_l("blank", large ? 1 : isint ? (exhaustive_outcomes ? 3 : blanks.size()) : 2,
                                      [&](std::size_t i) { return std::string(blanks[i].first); });
    if (bi > 0) blank = blanks[bi].second;

    Body body = make_body(prograde, 3000, 2800);
    std::unique_ptr<MaRC::MapFactory> m;
    std::vector<double> plat, plon;
    if (proj == 4) {
        auto rf = std::make_unique<RawFactory>();
        // order: identity / reverse / evens then odds / only the first half
        std::size_t const o = x.choose("order", large ? 2 : 4);
        for (std::size_t i = 0; i < n; ++i) rf->order.push_back(i);
        if (o == 1) std::reverse(rf->order.begin(), rf->order.end());
        if (o == 2) std::stable_partition(rf->order.begin(), rf->order.end(), [](std::size_t i) { return i % 2 == 0; });
        if (o == 3) rf->order.resize((n + 1) / 2);
        plat.assign(n, NAN); plon.assign(n, NAN);
        for (auto q : rf->order) { plat[q] = RawFactory::la(q); plon[q] = RawFactory::lo(q); }
        m = std::move(rf);
    } else {
        m = make_projection(proj, body);
        Probe p(*m, s, l);
        plat = p.lat; plon = p.lon;
    }
    // outcome of each place
    std::map<std::pair<double, double>, std::size_t> place;
    for (std::size_t p = 0; p < n; ++p)
        if (!std::isnan(plat[p]) && !std::isnan(plon[p])) place.emplace(std::make_pair(plat[p], plon[p]), p);
    std::vector<Outcome> at(n);
    for (std::size_t p = 0; p < n; ++p) at[p] = oc[p % oc.size()];
    bool unknown = false;
    std::size_t reads = 0;
    FnSource src([&](double la, double lo, double & d) {
        ++reads;
        auto it = place.find({la, lo});
        if (it == place.end()) { unknown = true; return false; }
        d = at[it->second].v;
        return at[it->second].found;
    });

    bool const fits = !blank || !isint
        || (*blank >= (std::intmax_t) (isint ? lim::lowest() : 0) && *blank <= (std::intmax_t) (isint ? lim::max() : 0));
    MaRC::plot_info<T> info(s, l, blank);
    MaRC::extrema<T> e;
    // limits narrower than the type only: wider ones must be narrowed by the code
    if (r.lo) e.minimum(*r.lo);
    if (r.hi) e.maximum(*r.hi);
    std::vector<T> map;
    bool threw = false;
    try { map = m->make_map<T>(src, e, info); }
    catch (std::invalid_argument const & ex) { threw = true; }
    if (!x.check(threw == !fits, "blank-refusal", threw ? "refused a blank value (or range) that fits" : "accepted a blank value that does not fit the data type"))
        return;
    if (threw) { x.state(mc::mix(bi, 77 + sizeof(T))); return; }
    x.check(!unknown, "foreign-place", "source asked for a place that belongs to no pixel");
    if (!x.check(map.size() == n, "map-size", "map has " + mc::str(map.size()) + " pixels, not " + mc::str(n))) return;
    std::optional<double> lo, hi;
    if (r.lo) lo = *r.lo; if (r.hi) hi = *r.hi;
    std::uint64_t h = mc::mix(sizeof(T) * 2 + isint, mc::mix(s, l));
    for (std::size_t p = 0; p < n; ++p) {
        T want = isint ? static_cast<T>(blank ? *blank : 0) : static_cast<T>(NAN);
        if (!std::isnan(plat[p])) {
            auto const & o = at[place.at({plat[p], plon[p]})];
            if (o.found && storable<T>(o.v, lo, hi)) want = static_cast<T>(o.v);
        }
        h = mc::mix(h, mc::bits(std::isnan((double) map[p]) ? 0.125 : (double) map[p]));
        x.checkf(same(map[p], want), "pixel", [&] {
            return std::string(tname<T>()) + " pixel " + mc::str(p) + " of " + mc::str(s) + "x" + mc::str(l)
                + " is " + mc::str(map[p]) + ", expected " + mc::str(want); });
    }
    x.steps(n);
    x.state(mc::mix(h, mc::mix(proj, ri * 100 + bi)));
}

static double const INF = std::numeric_limits<double>::infinity();
static std::vector<Outcome> const OC = {
    {true, 5}, {true, 100}, {true, 3}, {true, 2.999}, {true, 100.5}, {true, NAN}, {true, INF}, {true, -INF},
    {false, 50}, {true, 7.9}, {true, 255}, {true, 256}, {true, -1}, {true, -0.5}, {true, 32767}, {true, 32768}, {true, -32768},
    {true, -32769}, {true, 2147483647.}, {true, 2147483648.}, {true, -2147483648.}, {true, -2147483649.},
    {true, 9223372036854774784.}, {true, 9223372036854775808.}, {true, -9223372036854775808.}, {true, -1e19},
    {true, 3.4028234663852886e38}, {true, 3.5e38}, {true, -3.5e38}, {true, 1e300}, {false, NAN}, {true, 0}, {true, 255.5},
    {true, 1e-320}, {true, 99.999999999999} };

static void body(mc::Explorer & x)
{
    int const t = x.choose_l("type", 6, [](std::size_t i) { return std::string(std::vector<char const *>{"u8", "i16", "i32", "i64", "f32", "f64"}[i]); });
    int const proj = x.choose_l("proj", 5, [](std::size_t i) { return std::string(std::vector<char const *>{"simple", "mercator", "pstereo", "ortho", "raw"}[i]); });
    std::vector<Outcome> oc;
    std::size_t s, l;
    bool prograde;
    std::size_t const mode = x.choose_l("mode", 3, [](std::size_t i) { return std::string(i == 0 ? "small" : i == 1 ? "all-outcomes" : "large"); });
    bool const ex = mode == 1;
    if (mode == 2) {
        // sizes beyond 8 and 16 bit counters, every pixel
        static std::vector<std::pair<std::size_t, std::size_t>> const big = {{257, 3}, {3, 257}, {70001, 1}, {300, 260}, {1, 65540}};
        auto const sh = big[x.choose_l("shape", proj == 4 ? 5 : 4, [](std::size_t i) { return mc::str(big[i].first) + "x" + mc::str(big[i].second); })];
        s = sh.first; l = sh.second; prograde = true;
        if (proj == 1 && l > 8 * s) throw mc::Prune();
        if (proj == 2 && s > 8 * l && s > 1000) throw mc::Prune();
        if (!x.thorough() && proj != 4 && proj != 0 && (t == 1 || t == 2 || t == 5)) throw mc::Prune();
        oc = OC;
    } else if (ex) {
        // all outcome vectors on very small maps
        static std::vector<std::pair<std::size_t, std::size_t>> const shapes = {{1, 1}, {2, 1}, {1, 2}, {3, 1}};
        auto const sh = shapes[x.choose("shape", x.thorough() ? 4 : 3)];
        s = sh.first; l = sh.second; prograde = true;
        if (proj == 1 && l > s) throw mc::Prune();
        for (std::size_t i = 0; i < s * l; ++i)
            oc.push_back(OC[x.choose("out", s * l == 1 ? OC.size() : s * l == 2 ? 12 : 10)]);
    } else {
        s = 1 + x.choose("samples-1", x.thorough() ? 9 : 6);
        l = 1 + x.choose("lines-1", x.thorough() ? 9 : 6);
        prograde = x.flip("prograde");
        if (proj == 1 && l > 8 * s) throw mc::Prune();
        std::size_t const rot = x.choose("rotation", x.thorough() ? OC.size() : 4) * (x.thorough() ? 1 : 9);
        for (std::size_t i = 0; i < OC.size(); ++i) oc.push_back(OC[(i + rot) % OC.size()]);
    }
    switch (t) {
    case 0: run<std::uint8_t>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    case 1: run<std::int16_t>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    case 2: run<std::int32_t>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    case 3: run<std::int64_t>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    case 4: run<float>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    case 5: run<double>(x, proj, prograde, s, l, oc, ex, mode == 2); break;
    }
}

int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 4, body); }
