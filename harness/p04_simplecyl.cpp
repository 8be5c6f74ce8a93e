// P04: Simple Cylindrical pixel -> latitude/longitude.
#include "bodies.h"
#include "ref.h"

static std::vector<std::pair<double, double>> const RAD = {{10, 10}, {100, 90}, {71492, 66854}, {1, 0.3}, {1000, 999.9999}};

static void refusals(mc::Explorer & x)
{
    std::vector<double> const bad_lat = {-90.0001, 90.0001, 180, -1e9, NAN, INFINITY}, bad_lon = {-360.001, 360.001, 720, 1e9, NAN, -INFINITY};
    auto b = make_body(x.flip("prograde"), 100, 90);
    bool const g = x.flip("graphic");
    std::size_t const which = x.choose("which", 4);
    auto const & bad = which < 2 ? bad_lat : bad_lon;
    double const v = bad[x.choose_l("value", bad.size(), [&](std::size_t i) { return mc::str(bad[i]); })];
    double a[4] = {-45, 45, 10, 200};
    a[which] = v;
    bool threw = false;
    try { MaRC::SimpleCylindrical m(b, a[0], a[1], a[2], a[3], g); }
    catch (std::invalid_argument const &) { threw = true; }
    x.check(threw, "refusal", "invalid bound accepted");
    x.state(mc::mix(which, mc::bits(v)));
}

static void pixels(mc::Explorer & x, bool large)
{
    bool const prograde = x.flip("prograde");
    auto const rad = RAD[x.choose_l("body", RAD.size(), [](std::size_t i) { return mc::str(RAD[i].first) + "/" + mc::str(RAD[i].second); })];
    bool const graphic = x.flip("graphic");
    static std::vector<std::pair<double, double>> const LA = {{-90, 90}, {0, 90}, {-90, 0}, {-30, 60}, {10, 11}, {-90, -89.5}, {45, 45}, {-0.25, 0.25}, {89, 90}, {-77.5, 3}, {20, 20.001}};
    static std::vector<std::pair<double, double>> const LO = {{0, 360}, {0, 180}, {180, 360}, {350, 10}, {180, 180}, {0, 0}, {359, 1}, {200, 190}, {40, 40.000001}, {359.999999, 1e-6}, {77.0000001, 77}, {90, 91}, {360, 360}, {1, 359}, {300, 0}, {270, 90}, {-180, 180}, {-90, 90}, {-350, 0}, {0.5, 0.25}, {100, 100.05}, {359.999, 0.001}, {12, 12.0001}};
    auto const la = LA[x.choose_l("lat", large ? 4 : LA.size(), [](std::size_t i) { return mc::str(LA[i].first) + ".." + mc::str(LA[i].second); })];
    auto const lo = LO[x.choose_l("lon", large ? 4 : LO.size(), [](std::size_t i) { return mc::str(LO[i].first) + ".." + mc::str(LO[i].second); })];
    static std::vector<std::pair<std::size_t, std::size_t>> SH;
    if (SH.empty()) {
        std::size_t const m = x.thorough() ? 9 : 4;
        for (std::size_t a = 1; a <= m; ++a) for (std::size_t b = 1; b <= m; ++b) SH.push_back({a, b});
        SH.insert(SH.end(), {{16, 9}, {7, 20}, {37, 5}});
        if (x.thorough()) SH.insert(SH.end(), {{360, 180}, {101, 67}, {1, 500}, {500, 1}});
    }
    // sizes beyond 8 and 16 bit counters
    static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{70001, 1}, {1, 70001}, {300, 260}, {301, 263}};
    auto const & shs = large ? BIG : SH;
    auto const sh = shs[x.choose_l("shape", shs.size(), [&](std::size_t i) { return mc::str(shs[i].first) + "x" + mc::str(shs[i].second); })];
    auto b = make_body(prograde, rad.first, rad.second);
    ref::Spheroid sp{prograde, rad.first, rad.second};
    MaRC::SimpleCylindrical m(b, la.first, la.second, lo.first, lo.second, graphic);
    std::size_t const S = sh.first, L = sh.second;
    Probe p(m, S, L);
    ref::R l0 = la.first * ref::pi / 180, l1 = la.second * ref::pi / 180, g0 = lo.first, g1 = lo.second;
    if (graphic) { l0 = sp.graphic(l0); l1 = sp.graphic(l1); }
    if (g0 > g1) g0 -= 360; else if (g0 == g1) g1 += 360;
    std::uint64_t h = mc::mix(S, L);
    for (std::size_t k = 0; k < L; ++k) {
        ref::R lat = l0 + (k + 0.5L) * (l1 - l0) / L;
        if (graphic) lat = sp.centric(lat);
        for (std::size_t i = 0; i < S; ++i) {
            ref::R const lon = (prograde ? g1 - (i + 0.5L) * (g1 - g0) / S : g0 + (i + 0.5L) * (g1 - g0) / S) * ref::pi / 180;
            double const a = p.lat[k * S + i], o = p.lon[k * S + i];
            x.checkf(std::fabs(a - lat) < 1e-9, "latitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") latitude " + mc::str(a / DEG) + ", expected " + mc::str((double) lat / DEG); });
            x.checkf(!std::isnan(o) && angdist(o, lon) < 1e-9, "longitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") longitude " + mc::str(o / DEG) + ", expected " + mc::str((double) lon / DEG); });
            h = mc::mix(h, mc::bits(a) ^ mc::bits(o) * 3);
        }
    }
    x.steps(S * L);
    x.state(h);
}
static void body(mc::Explorer & x) { switch (x.choose_l("part", 3, [](std::size_t i) { return std::string(i == 0 ? "pixels" : i == 1 ? "refusals" : "large"); })) { case 0: pixels(x, false); break; case 1: refusals(x); break; default: pixels(x, true); } }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 5, body); }
