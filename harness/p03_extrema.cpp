// P03: reported extrema are those of the data, whatever the history.
#include "bodies.h"

template <typename T> struct Model { std::optional<T> lo, hi; };

template <typename T> std::string show(std::optional<T> o) { return o ? mc::str(*o) : std::string("unset"); }

template <typename T>
void ops(mc::Explorer & x, T const a, T const b, T const c)
{
    // a < b < c
    using E = MaRC::extrema<T>;
    std::vector<std::pair<Model<T>, E>> others(6);
    others[1] = {{b, c}, E(b, c)};
    others[2] = {{a, c}, E(a, c)};
    others[3].first = {a, {}}; others[3].second.minimum(a);
    others[4].first = {{}, c}; others[4].second.maximum(c);
    others[5] = {{b, b}, E(b, b)};
    E e;
    Model<T> m;
    std::size_t const depth = (x.thorough() ? 6 : 5) - (sizeof(T) != 4 && !x.thorough());
    auto upd = [&](T v) {
        if (!m.lo || v < *m.lo) m.lo = v;
        if (!m.hi || v > *m.hi) m.hi = v;
    };
    for (std::size_t k = 0; k < depth; ++k) {
        std::size_t const op = x.choose_l("op", 19, [](std::size_t i) {
            static char const * n[] = {"stop", "upd(a)", "upd(b)", "upd(c)", "merge{}", "merge[b,c]", "merge[a,c]", "merge[a,-]", "merge[-,c]", "merge[b,b]",
                                       "min=a", "max=c", "reset", "swap[b,c]", "copy/assign", "merge-self", "min=c", "max=a", "max=b"};
            return std::string(n[i]); });
        if (op == 0) break;
        if (op <= 3) { T const v = op == 1 ? a : op == 2 ? b : c; e.update(v); upd(v); }
        else if (op <= 9) {
            auto const & o = others[op - 4];
            e.update(o.second);
            if (o.first.lo && (!m.lo || *o.first.lo < *m.lo)) m.lo = o.first.lo;
            if (o.first.hi && (!m.hi || *o.first.hi > *m.hi)) m.hi = o.first.hi;
        }
        else if (op == 10) { e.minimum(a); m.lo = a; }
        else if (op == 11) { e.maximum(c); m.hi = c; }
        else if (op == 12) { e.reset(); m = {}; }
        else if (op == 13) {
            E t(b, c);
            using std::swap;
            swap(e, t);
            x.check(t.minimum() == m.lo && t.maximum() == m.hi, "swap", "swapped-out extrema differ");
            m = {b, c};
        }
        else if (op == 14) {
            E t(e), u; u = t;
            MaRC::extrema<double> d(u);     // widening conversion and back
            E w; w = MaRC::extrema<T>(d);
            e = std::move(w);
        }
        else if (op == 15) { e.update(e); }
        else if (op == 16) { e.minimum(c); m.lo = c; }
        else if (op == 17) { e.maximum(a); m.hi = a; }
        else { e.maximum(b); m.hi = b; }
        bool const ok = e.minimum() == m.lo && e.maximum() == m.hi;
        x.checkf(ok, "extrema", [&] { return "extrema are [" + show(e.minimum()) + "," + show(e.maximum()) + "], expected ["
                                          + show(m.lo) + "," + show(m.hi) + "]"; });
        bool const valid = m.lo && m.hi && *m.lo <= *m.hi;
        x.check(e.is_valid() == valid, "validity", "is_valid() is wrong");
        if (valid)
            for (T v : {a, b, c})
                x.check(e.in_range(v) == (v >= *m.lo && v <= *m.hi), "in-range", "in_range() is wrong");
        x.steps(1);
        std::uint64_t h = 5;
        h = mc::mix(h, m.lo ? mc::bits(*m.lo) : 1); h = mc::mix(h, m.hi ? mc::bits(*m.hi) : 1);
        x.state(mc::mix(h, k * 10 + sizeof(T)));
        if (!ok) return;
    }
}

template <typename T>
void planes(mc::Explorer & x)
{
    static std::vector<double> const V = { -3.9, 0, 2.7, 9, NAN, 250, -200 };
    std::size_t const n = 2;
    std::size_t const np = 1 + x.choose("planes-1", x.thorough() ? 3 : 2);
    std::optional<std::intmax_t> const blank = x.flip("blank9") ? std::optional<std::intmax_t>(9) : std::nullopt;
    bool const limited = x.flip("limit[-4,100]");
    MaRC::plot_info<T> info(n, 1, blank);
    Body body = make_body(true, 10, 10);
    MaRC::SimpleCylindrical m(body, -90, 90, 0, 360, false);
    std::optional<T> lo, hi;
    for (std::size_t p = 0; p < np; ++p) {
        std::vector<std::optional<double>> d(n);
        for (auto & o : d) {
            auto const i = x.choose_l("v", V.size() + 1, [](std::size_t i) { return i ? mc::str(V[i - 1]) : std::string("none"); });
            if (i) o = V[i - 1];
        }
        FnSource src([&](double, double lon, double & r) {
            auto const & o = d[lon > PI ? 0 : 1];
            if (!o) { r = 1234; return false; }
            r = *o; return true;
        });
        MaRC::extrema<T> e;
        if (limited) { if (std::is_signed_v<T>) e.minimum(-4.); e.maximum(100.); }
        auto const map = m.make_map<T>(src, e, info);
        for (std::size_t i = 0; i < n; ++i) {
            if (!d[i] || std::isnan(*d[i])) continue;
            if (*d[i] < (double) std::numeric_limits<T>::lowest() || *d[i] > (double) std::numeric_limits<T>::max()) continue;
            if (limited && (*d[i] > 100 || (std::is_signed_v<T> && *d[i] < -4))) continue;
            T const v = static_cast<T>(*d[i]);
            if (!lo || v < *lo) lo = v;
            if (!hi || v > *hi) hi = v;
        }
        x.checkf(info.minimum() == lo && info.maximum() == hi, "plane-extrema", [&] {
            return "after plane " + mc::str(p + 1) + " reported [" + show<T>(info.minimum()) + "," + show<T>(info.maximum()) + "], expected ["
                + show(lo) + "," + show(hi) + "]"; });
        x.check(info.data_mapped() == bool(lo), "data-mapped", "data_mapped() is wrong");
        x.steps(n);
        x.state(mc::mix(mc::mix(p, lo ? mc::bits(*lo) : 1), mc::mix(hi ? mc::bits(*hi) : 1, sizeof(T) + 16 * limited)));
    }
}

static void body(mc::Explorer & x)
{
    switch (x.choose_l("part", 10, [](std::size_t i) {
        return std::string(std::vector<char const *>{"ops-int", "ops-u8", "ops-double", "ops-i64", "planes-u8", "planes-i16", "planes-i32", "planes-f32", "planes-f64", "planes-i64"}[i]); })) {
    case 0: ops<int>(x, -7, 0, 12); break;
    case 1: ops<std::uint8_t>(x, 0, 1, 255); break;
    case 2: ops<double>(x, -1e300, -0.25, 4e9); break;
    case 3: ops<std::int64_t>(x, -5, 0, 1LL << 40); break;
    case 4: planes<std::uint8_t>(x); break;
    case 5: planes<std::int16_t>(x); break;
    case 6: planes<std::int32_t>(x); break;
    case 7: planes<float>(x); break;
    case 8: planes<double>(x); break;
    case 9: planes<std::int64_t>(x); break;
    }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 2, body); }
