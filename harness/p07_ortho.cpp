// P07: Orthographic pixel -> latitude/longitude.
#include "bodies.h"
#include "ref.h"
using ref::R;
using ref::V;

static std::vector<std::pair<double, double>> const RAD = {{1000, 1000}, {1000, 935}, {1000, 500}};

// mode: 0 the general space, 1 large maps, 2 centres at the edge of the visible side and unusual scales
static void pixels(mc::Explorer & x, int mode)
{
    bool const large = mode == 1, edge = mode == 2;
    bool const prograde = x.flip("prograde");
    auto const rad = large ? std::pair<double, double>{71492, 66854} : RAD[x.choose("body", RAD.size())];
    static std::vector<double> const SLAT = {0, 23.5, -60, 90, -90, 89.9, 89.999999, -89.99999999, -5, 45, -89.97};
    static std::vector<double> const SLON = {0, 100, 359, 200};
    static std::vector<double> const PAS = {0, 30, -75, 180, 270, 360, -359, 90};
    double const slat = SLAT[x.choose_l("sublat", x.thorough() ? SLAT.size() : 9, [](std::size_t i) { return mc::str(SLAT[i]); })];
    double const slon = SLON[x.choose_l("sublon", mode ? 2 : SLON.size(), [](std::size_t i) { return mc::str(SLON[i]); })];
    double const pa = PAS[x.choose_l("PA", mode ? 2 : x.thorough() ? PAS.size() : 6, [](std::size_t i) { return mc::str(PAS[i]); })];
    static std::vector<double> const KM = {-1, 137, 450, 30};
    static std::vector<double> const KME = {-1, 0, -55, 999.5, 1000.5, 3000, 1e6, 0.25, 1e-6};
    double const km = large ? (x.flip("km") ? 600. : -1.) : edge ? KME[x.choose_l("km/pix", KME.size(), [](std::size_t i) { return mc::str(KME[i]); })]
        : KM[x.choose_l("km/pix", x.thorough() ? 4 : 3, [](std::size_t i) { return mc::str(KM[i]); })];
    static std::vector<std::pair<std::size_t, std::size_t>> const SH = {{1, 1}, {5, 5}, {8, 6}, {6, 11}, {20, 20}, {33, 16}, {2, 9}};
    static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{300, 260}, {257, 300}, {259, 261}, {70001, 1}, {1, 70001}};
    auto const & shs = large ? BIG : SH;
    auto const sh = edge && !x.thorough() ? SH[2] : shs[x.choose_l("shape", large ? (x.thorough() ? 4 : 2) : x.thorough() ? SH.size() : 5, [&](std::size_t i) { return mc::str(shs[i].first) + "x" + mc::str(shs[i].second); })];
    struct C { MaRC::GeometryType t; double a, b; };
    static std::vector<C> const CS = {{MaRC::DEFAULT, NAN, NAN}, {MaRC::CENTER_GIVEN, 2.5, 4}, {MaRC::CENTER_GIVEN, -3, 7.25}, {MaRC::CENTER_GIVEN, 0, 0},
        {MaRC::LAT_LON_GIVEN, 0, 100}, {MaRC::LAT_LON_GIVEN, 30, 40}, {MaRC::LAT_LON_GIVEN, -50, 350}, {MaRC::LAT_LON_GIVEN, 90, 0}, {MaRC::LAT_LON_GIVEN, -10, 5}, {MaRC::LAT_LON_GIVEN, 60, 250}, {MaRC::LAT_LON_GIVEN, -90, 10}};
    auto c = edge ? C{MaRC::LAT_LON_GIVEN, 0, 0} : CS[x.choose_l("center", large ? 2 : CS.size(), [](std::size_t i) { return (CS[i].t == MaRC::DEFAULT ? "default" : CS[i].t == MaRC::CENTER_GIVEN ? "pix:" + mc::str(CS[i].a) + "," + mc::str(CS[i].b) : "ll:" + mc::str(CS[i].a) + "," + mc::str(CS[i].b)); })];
    std::size_t const S = sh.first, L = sh.second;
    auto b = make_body(prograde, rad.first, rad.second);
    ref::Spheroid sp{prograde, rad.first, rad.second};
    R const rd = ref::pi / 180;

    if (edge && x.flip("ordinary")) c = CS[x.flip("pixel") ? 1 : 0];
    else if (edge) {
        static std::vector<double> const DLON = {0, 20, 60, 180, 130, 300};
        static std::vector<double> const OFF = {1e-4, 1e-2, 1, -1e-4, -1e-2, -1};
        c.b = std::fmod(slon + DLON[x.choose_l("longitude off by", x.thorough() ? 6 : 4, [](std::size_t i) { return mc::str(DLON[i]); })], 360);
        double const off = OFF[x.choose_l("latitude off the edge", OFF.size(), [](std::size_t i) { return mc::str(OFF[i]); })];
        // the latitude at which this meridian leaves the visible side
        V const w = std::fabs(slat) == 90 ? V{0, 0, slat > 0 ? 1.0L : -1.0L} : sp.dir(slat * rd, slon * rd);
        auto const vis = [&](R la) { return ref::dot(sp.normal(sp.point(la, c.b * rd)), w); };
        R lo = -ref::pi / 2, hi = ref::pi / 2;
        if ((vis(lo) < 0) == (vis(hi) < 0)) throw mc::Prune();
        bool const low = vis(lo) < 0;
        for (int i = 0; i < 100; ++i) { R const mid = (lo + hi) / 2; ((vis(mid) < 0) == low ? lo : hi) = mid; }
        c.a = (double) (lo / rd) + off;
        if (std::fabs(c.a) > 90) throw mc::Prune();
    }
    // viewing frame: o toward the observer, east/north on the sky
    V o, east, north;
    bool const polar = std::fabs(slat) == 90;
    R PA = pa * rd;
    if (!polar) {
        o = sp.dir(slat * rd, slon * rd);
        east = ref::unit(ref::cross({0, 0, 1}, o));
        north = ref::cross(o, east);
    } else {
        // polar aspect: zero longitude toward increasing lines, whatever the rest
        o = {0, 0, slat > 0 ? 1.0L : -1.0L};
        north = {1, 0, 0};
        east = ref::cross(north, o);
        PA = 0;
    }
    // the image axes: north on the sky is turned counterclockwise by PA
    V const right = std::cos(PA) * east - std::sin(PA) * north;
    V const up = std::sin(PA) * east + std::cos(PA) * north;
    R const kmp = km > 0 ? (R) km : 2 * (R) rad.first / (0.9L * std::min(S, L));
    R sc = S / 2.0L, lc = L / 2.0L;
    bool refuse = false;
    if (c.t == MaRC::CENTER_GIVEN) { sc = c.a; lc = c.b; }
    if (c.t == MaRC::LAT_LON_GIVEN) {
        V const p = sp.point(c.a * rd, c.b * rd);
        R const vis = ref::dot(sp.normal(p), o);
        if (std::fabs(vis) < 1e-6) throw mc::Prune();
        refuse = vis < 0;
        sc = S / 2.0L - ref::dot(p, right) / kmp;
        lc = L / 2.0L - ref::dot(p, up) / kmp;
    }
    bool threw = false;
    std::unique_ptr<MaRC::Orthographic> m;
    try {
        m = std::make_unique<MaRC::Orthographic>(b, slat, slon, pa, km, MaRC::OrthographicCenter(c.t, c.a, c.b));
    } catch (std::invalid_argument const &) { threw = true; }
    x.check(threw == refuse, "center-visibility", threw ? "visible centre refused" : "invisible centre accepted");
    if (threw || refuse) { x.state(99); return; }
    Probe p(*m, S, L);
    std::uint64_t h = mc::mix(S, L);
    for (std::size_t k = 0; k < L; ++k)
        for (std::size_t i = 0; i < S; ++i) {
            V const q = ((i + 0.5L - sc) * kmp) * right + ((k + 0.5L - lc) * kmp) * up;
            V hit;
            R const rel = sp.hit(q + (10 * sp.a) * o, (-1) * o, hit);
            double const a = p.lat[k * S + i], g = p.lon[k * S + i];
            h = mc::mix(h, mc::bits(std::isnan(a) ? 9 : a) ^ mc::bits(std::isnan(g) ? 9 : g) * 3);
            if (std::fabs(rel) < 1e-7) continue;      // on the limb
            if (!x.checkf(std::isnan(a) == (rel < 0), "disk", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + (rel < 0 ? ") mapped off the disk" : ") not mapped on the disk"); })) return;
            if (rel < 0) continue;
            R const lat = sp.lat_of(hit), lon = sp.lon_of(hit);
            double const tol = 1e-8 + 1e-10 / std::sqrt((double) rel);
            x.checkf(std::fabs(a - lat) < tol * 10, "latitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") latitude " + mc::str(a / DEG) + ", expected " + mc::str((double) lat / DEG); });
            if (std::fabs(std::fabs(lat) - ref::pi / 2) > 1e-5)
                x.checkf(angdist(g, lon) * std::cos((double) lat) < tol * 10, "longitude", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") longitude " + mc::str(g / DEG) + ", expected " + mc::str((double) lon / DEG); });
        }
    x.steps(S * L);
    x.state(h);
}
static void refusals(mc::Explorer & x)
{
    auto b = make_body(true, 100, 90);
    std::size_t const which = x.choose("which", 5);
    std::vector<double> const bad = which == 0 || which == 3 ? std::vector<double>{90.01, -90.01, 1000, NAN} : std::vector<double>{360.1, -360.1, 5000, NAN};
    double const v = bad[x.choose_l("value", bad.size(), [&](std::size_t i) { return mc::str(bad[i]); })];
    double a[5] = {10, 20, 30, 15, 25};
    a[which] = v;
    bool threw = false;
    try { MaRC::Orthographic m(b, a[0], a[1], a[2], -1, MaRC::OrthographicCenter(MaRC::LAT_LON_GIVEN, a[3], a[4])); }
    catch (std::invalid_argument const &) { threw = true; }
    x.check(threw, "refusal", "invalid angle accepted");
    x.state(mc::mix(which, mc::bits(v)));
}
static void body(mc::Explorer & x) { switch (x.choose_l("part", 4, [](std::size_t i) { return std::string(i == 0 ? "pixels" : i == 1 ? "refusals" : i == 2 ? "large" : "edge"); })) { case 0: pixels(x, 0); break; case 1: refusals(x); break; case 2: pixels(x, 1); break; default: pixels(x, 2); } }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 6, body); }
