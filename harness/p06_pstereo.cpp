// P06: Polar Stereographic pixel -> latitude/longitude.
#include "bodies.h"
#include "ref.h"

static std::vector<double> const RATIO = {1, 0.99665, 0.99999999, 0.9351, 0.7, 0.4};
static std::vector<double> const MAXL = {NAN, 0, 30, -30, 60, -60, 89, -89, 89.9999, -1e-6, 10.5, -45};

static void pixels(mc::Explorer & x, bool large)
{
    bool const prograde = x.flip("prograde"), north = x.flip("north");
    double const r = large ? 0.9 : RATIO[x.choose_l("pol/eq", RATIO.size(), [](std::size_t i) { return mc::str(RATIO[i]); })];
    double const ml = MAXL[x.choose_l("max_lat", large ? 2 : MAXL.size(), [](std::size_t i) { return mc::str(MAXL[i]); })];
    static std::vector<std::pair<std::size_t, std::size_t>> SH;
    if (SH.empty()) {
        std::size_t const m = x.thorough() ? 9 : 5;
        for (std::size_t a = 1; a <= m; ++a) for (std::size_t b = 1; b <= m; ++b) SH.push_back({a, b});
        SH.insert(SH.end(), {{16, 9}, {7, 20}, {25, 25}});
        if (x.thorough()) SH.insert(SH.end(), {{100, 100}, {64, 31}, {31, 64}});
    }
    static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{300, 250}, {259, 261}};
    auto const & shs = large ? BIG : SH;
    auto const sh = shs[x.choose_l("shape", shs.size() - (large && !x.thorough()), [&](std::size_t i) { return mc::str(shs[i].first) + "x" + mc::str(shs[i].second); })];
    std::size_t const S = sh.first, L = sh.second;
    double const eq = 3000;
    auto b = make_body(prograde, eq, eq * r);
    ref::Spheroid sp{prograde, eq, eq * r};
    MaRC::PolarStereographic m(b, ml, north);
    Probe p(m, S, L);
    ref::R const e = sp.ecc();
    ref::R const edge_lat = (std::isnan(ml) ? 0 : ml * ref::pi / 180) * (north ? 1 : -1);
    ref::R const rmax = ref::stereo(e, sp.graphic(edge_lat));
    std::uint64_t h = mc::mix(S, L);
    std::map<std::pair<std::size_t, std::size_t>, ref::R> known;
    for (std::size_t k = 0; k < L; ++k)
        for (std::size_t i = 0; i < S; ++i) {
            ref::R const X = i + 0.5L - S / 2.0L, Z = k + 0.5L - L / 2.0L;
            ref::R const rho = std::hypot(X, Z) / (std::min(S, L) / 2.0L) * rmax;
            // mirrored pixels share their latitude
            auto const key = std::make_pair(std::min<std::size_t>(i, S - 1 - i), std::min<std::size_t>(k, L - 1 - k));
            auto it = known.find(key);
            if (it == known.end()) it = known.emplace(key, ref::bisect([&](ref::R f) { return ref::stereo(e, f); }, -ref::pi / 2 + 1e-17L, ref::pi / 2, rho)).first;
            ref::R const latg = it->second;
            ref::R const lat = sp.centric(latg) * (north ? 1 : -1);
            // zero longitude toward increasing lines; prograde longitudes run west
            ref::R lon = std::atan2(X, Z);
            if (north != prograde) lon = -lon;
            double const a = p.lat[k * S + i], o = p.lon[k * S + i];
            x.checkf(std::fabs(a - lat) < 1e-7, "latitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") latitude " + mc::str(a / DEG) + ", expected " + mc::str((double) lat / DEG); });
            if (std::hypot(X, Z) > 1e-9)
                x.checkf(!std::isnan(o) && angdist(o, lon) < 1e-9, "longitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") longitude " + mc::str(o / DEG) + ", expected " + mc::str((double) lon / DEG); });
            h = mc::mix(h, mc::bits(a) ^ mc::bits(o) * 3);
        }
    x.steps(S * L);
    x.state(h);
}
static void refusals(mc::Explorer & x)
{
    std::vector<double> const bad = {90, -90, 90.5, -91, 1e6, INFINITY, -INFINITY};
    double const v = bad[x.choose_l("value", bad.size(), [&](std::size_t i) { return mc::str(bad[i]); })];
    auto b = make_body(true, 100, 90);
    bool const n = x.flip("north");
    bool threw = false;
    try { MaRC::PolarStereographic m(b, v, n); } catch (std::invalid_argument const &) { threw = true; }
    x.check(threw, "refusal", "invalid maximum latitude accepted");
    x.state(mc::bits(v));
}
static void body(mc::Explorer & x) { switch (x.choose_l("part", 3, [](std::size_t i) { return std::string(i == 0 ? "pixels" : i == 1 ? "refusals" : "large"); })) { case 0: pixels(x, false); break; case 1: refusals(x); break; default: pixels(x, true); } }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 5, body); }
