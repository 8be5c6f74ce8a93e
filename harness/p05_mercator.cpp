// P05: Mercator pixel -> latitude/longitude.
#include "bodies.h"
#include "ref.h"

static void pixels(mc::Explorer & x, bool large)
{
    bool const prograde = x.flip("prograde");
    static std::vector<double> const RATIO = {1, 0.9999, 0.99999999, 0.99665, 0.9351, 0.9, 0.7, 0.5, 0.2};
    double const r = RATIO[x.choose_l("pol/eq", RATIO.size(), [](std::size_t i) { return mc::str(RATIO[i]); })];
    double const eq = x.flip("large") ? 71492 : 1;
    std::size_t const big = x.thorough() ? 41 : 23;
    std::size_t S, L;
    if (large) {
        // sizes beyond 8 and 16 bit counters
        static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{70001, 2}, {300, 260}, {259, 700}, {259, 261}, {192, 161}, {2400, 31}};
        auto const sh = BIG[x.choose_l("shape", BIG.size(), [](std::size_t i) { return mc::str(BIG[i].first) + "x" + mc::str(BIG[i].second); })];
        S = sh.first; L = sh.second;
    } else { S = 1 + x.choose("samples-1", big); L = 1 + x.choose("lines-1", big); }
    // extra larger sizes at the end of the enumeration
    if (S == big) S = 180;
    if (L == big) L = 90;
    if (L > 7 * S) throw mc::Prune();     // rows within 1e-9 rad of a pole
    auto b = make_body(prograde, eq, eq * r);
    ref::Spheroid sp{prograde, eq, eq * r};
    MaRC::Mercator m(b);
    Probe p(m, S, L);
    ref::R const e = sp.ecc();
    std::uint64_t h = mc::mix(S, L);
    double prev = -10;
    for (std::size_t k = 0; k < L; ++k) {
        ref::R const y = (k + 0.5L - L / 2.0L) * 2 * ref::pi / S;
        ref::R const latg = ref::bisect([&](ref::R f) { return ref::isometric(e, f); }, -ref::pi / 2, ref::pi / 2, y);
        ref::R const lat = sp.centric(latg);
        for (std::size_t i = 0; i < S; ++i) {
            ref::R const lon = prograde ? 2 * ref::pi * (1 - (i + 0.5L) / S) : 2 * ref::pi * (i + 0.5L) / S;
            double const a = p.lat[k * S + i], o = p.lon[k * S + i];
            x.checkf(std::fabs(a - lat) < 1e-8, "latitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") latitude " + mc::str(a / DEG) + ", expected " + mc::str((double) lat / DEG); });
            x.checkf(!std::isnan(o) && angdist(o, lon) < 1e-9, "longitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") longitude " + mc::str(o / DEG) + ", expected " + mc::str((double) lon / DEG); });
            h = mc::mix(h, mc::bits(a) ^ mc::bits(o) * 3);
        }
        if (std::fabs(y) < 15)
            x.checkf(p.lat[k * S] > prev, "monotone", [&] { return "row " + mc::str(k) + " does not increase in latitude"; });
        prev = p.lat[k * S];
        x.checkf(std::fabs(p.lat[k * S] + p.lat[(L - 1 - k) * S]) < 1e-8, "symmetry", [&] { return "rows " + mc::str(k) + " and its mirror image differ"; });
    }
    x.steps(S * L);
    x.state(h);
}
// scale factor (distortion): eq_rad / (N cos latg), N the radius of curvature in the prime vertical
static void scale(mc::Explorer & x)
{
    static std::vector<double> const RATIO = {1, 0.99665, 0.9351, 0.9, 0.7, 0.5};
    double const r = RATIO[x.choose_l("pol/eq", RATIO.size(), [](std::size_t i) { return mc::str(RATIO[i]); })];
    int const d = (int) x.choose("latg+89", 179) - 89;
    auto b = make_body(true, 100, 100 * r);
    ref::Spheroid sp{true, 100, 100 * (ref::R) r};
    MaRC::Mercator m(b);
    ref::R const g = d * ref::pi / 180, e = sp.ecc();
    ref::R const want = std::sqrt(1 - e * e * std::sin(g) * std::sin(g)) / std::cos(g);
    double const got = m.distortion((double) g);
    x.checkf(mc::close(got, want, 1e-9), "distortion", [&] { return "distortion " + mc::str(got) + ", expected " + mc::str((double) want); });
    x.state(mc::bits(got));
}
static void body(mc::Explorer & x) { switch (x.choose_l("part", 3, [](std::size_t i) { return std::string(i == 0 ? "pixels" : i == 1 ? "scale-factor" : "large"); })) { case 0: pixels(x, false); break; case 1: scale(x); break; default: pixels(x, true); } }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 5, body); }
