// P08: grid images against the reference position of meridians and parallels.
#include "bodies.h"
#include "ref.h"
#include <functional>
using ref::R;
using ref::V;

struct UV { double u, v, vis; };     // continuous map position; vis > 0: on the near side
using Place = std::function<void(double, double, std::vector<UV> &)>;   // degrees

static void check_grid(mc::Explorer & x, MaRC::MapFactory const & m, std::size_t S, std::size_t L, Place const & place, double near_poles = 0, double pixels = 0)
{
    static std::vector<std::pair<double, double>> const IV = {{30, 40}, {20, 90}, {45, 120}, {7, 25}, {90, 24}, {180, 360}, {12.5, 200}, {5, 15}, {1, 1}};
    std::size_t const iv = x.choose_l("intervals", x.thorough() ? IV.size() : 3, [](std::size_t i) { return mc::str(IV[i].first) + "/" + mc::str(IV[i].second); });
    double const li = IV[iv].first, gi = IV[iv].second;
    bool const after = iv == 1 && x.flip("after another grid");
    if (after) {
        auto const other = m.make_grid(S + 2, L + 1, 15, 60);
        x.check(other.size() == (S + 2) * (L + 1), "size", "grid size differs from the map size");
    }
    auto const g = m.make_grid(S, L, li, gi);
    if (!x.check(g.size() == S * L, "size", "grid size differs from the map size")) return;
    std::uint64_t h = mc::mix(S, L);
    std::size_t marked = 0;
    for (auto p : g) {
        x.check(p == 0 || p == 255, "value", "grid pixel is neither 0 nor 255");
        h = mc::mix(h, p); marked += p != 0;
    }
    // lines required (even) and allowed
    std::vector<std::pair<double, bool>> lats, lons;
    for (double n = -90; n <= 90; n += li) lats.push_back({n, n > -90 && n < 90});
    bool const even = std::fmod(360, gi) == 0;
    for (double n = gi; n <= 360; n += gi) lons.push_back({n, even});
    if (!even) for (double n = 360; n > 0; n -= gi) lons.push_back({n, false});
    std::vector<char> allowed(S * L, 0);
    double const T = 1.25;
    std::vector<UV> pos;
    auto walk = [&](double la, double lo, bool req) {
        pos.clear();
        place(la, lo, pos);
        for (auto const & p : pos) {
            if (!(p.vis > -0.03) || !(p.u > -2) || !(p.v > -2) || !(p.u < S + 2.) || !(p.v < L + 2.)) continue;
            bool found = false;
            for (long k = std::max(0L, (long) std::floor(p.v) - 2); k <= (long) p.v + 1 && k < (long) L; ++k) {
                if (std::fabs(k + 0.5 - p.v) > T) continue;
                for (long i = std::max(0L, (long) std::floor(p.u) - 2); i <= (long) p.u + 1 && i < (long) S; ++i) {
                    if (std::fabs(i + 0.5 - p.u) > T) continue;
                    allowed[k * S + i] = 1;
                    found = found || g[k * S + i];
                }
            }
            if (req && p.vis > 0.06 && p.u >= 0.5 && p.v >= 0.5 && p.u <= S - 1. && p.v <= L - 1.)
                if (!x.checkf(found, "missing", [&] { return "no grid pixel at latitude " + mc::str(la) + ", longitude " + mc::str(lo) + " which is at sample " + mc::str(p.u) + ", line " + mc::str(p.v); })) return false;
        }
        return true;
    };
    // pixels: length of the longest line on this map
    std::size_t const N = std::max<std::size_t>(S + L > 120 ? 2000 : 720, pixels / 0.7);
    for (auto const & l : lats) for (std::size_t j = 0; j < N; ++j) if (!walk(l.first, j * 360. / N, l.second)) return;
    for (auto const & l : lons) for (std::size_t j = 0; j <= N; ++j) if (!walk(j * 180. / N - 90, l.first, l.second)) return;
    // meridians again, closely spaced near the poles
    for (auto const & l : lons) for (double t = near_poles > 0 ? -17 : 99; t <= 17; t += near_poles) if (!walk(std::atan(std::sinh(t)) / PI * 180, l.first, l.second)) return;
    for (std::size_t q = 0; q < S * L; ++q)
        if (g[q] && !x.checkf(allowed[q], "spurious", [&] { return "pixel (" + mc::str(q % S) + "," + mc::str(q / S) + ") is marked but no grid line passes it"; })) return;
    x.steps(S * L);
    x.state(mc::mix(h, marked));
}

static std::vector<std::pair<std::size_t, std::size_t>> const SHQ = {{1, 1}, {6, 1}, {12, 12}, {25, 14}, {14, 31}, {1, 7}, {41, 40}, {9, 60}, {100, 51}};
static std::pair<std::size_t, std::size_t> shape(mc::Explorer & x, bool big)
{
    auto shs = SHQ;
    if (!x.thorough()) shs.resize(5);
    if (big) shs.push_back({259, 261});       // beyond 8 and 16 bit counters
    return shs[x.choose_l("shape", shs.size(), [&](std::size_t i) { return mc::str(shs[i].first) + "x" + mc::str(shs[i].second); })];
}
static std::vector<double> const RATIO = {1, 0.9351, 0.5};
static double const DR = PI / 180;

static void body(mc::Explorer & x)
{
    std::size_t const kind = x.choose("projection", 4);
    bool const pro = x.flip("prograde");
    double const r = RATIO[x.choose_l("pol/eq", RATIO.size(), [](std::size_t i) { return mc::str(RATIO[i]); })];
    double const a = 1000, c = 1000 * r;
    auto b = make_body(pro, a, c);
    ref::Spheroid sp{pro, a, c};
    auto const sh = shape(x, r == 0.9351);
    double const S = sh.first, L = sh.second;
    if (kind == 0) {
        bool const graphic = x.flip("graphic");
        static std::vector<std::pair<double, double>> const LA = {{-90, 90}, {-30, 60}, {10, 35}, {-90, -20}, {0, 90}};
        static std::vector<std::pair<double, double>> const LO = {{0, 360}, {350, 110}, {180, 180}, {90, 200}, {-180, 180}, {1, 359}, {200, 190}};
        auto const la = LA[x.choose("lats", x.thorough() ? LA.size() : 3)];
        auto const lo = LO[x.choose("lons", x.thorough() ? LO.size() : 5)];
        double l0 = la.first * DR, l1 = la.second * DR, g0 = lo.first, g1 = lo.second;
        if (graphic) { l0 = sp.graphic(l0); l1 = sp.graphic(l1); }
        l0 /= DR; l1 /= DR;
        if (g0 > g1) g0 -= 360; else if (g0 == g1) g1 += 360;
        MaRC::SimpleCylindrical m(b, la.first, la.second, lo.first, lo.second, graphic);
        check_grid(x, m, sh.first, sh.second, [&](double lat, double lon, std::vector<UV> & out) {
            // grid latitudes are in the map's own latitude type
            double const v = (lat - l0) / (l1 - l0) * L;
            for (int t = -2; t <= 2; ++t) {
                double const f = (lon + 360 * t - g0) / (g1 - g0) * S;
                out.push_back({pro ? S - f : f, v, 1});
            }
        });
    } else if (kind == 1) {
        if (L > 5 * S) throw mc::Prune();      // reaches the poles to rounding
        double const e = sp.ecc(), scale = S / (2 * PI);
        MaRC::Mercator m(b);
        check_grid(x, m, sh.first, sh.second, [&](double lat, double lon, std::vector<UV> & out) {
            double const v = ref::isometric(e, sp.graphic(lat * DR)) * scale + L / 2;
            double const f = lon / 360 * S;
            for (int t = -1; t <= 1; ++t) out.push_back({(pro ? S - f : f) + t * S, v, 1});
        }, 0.025);
    } else if (kind == 2) {
        bool const north = x.flip("north");
        static std::vector<double> const ML = {NAN, 40, -40, 70, 89, -85};
        double const ml = ML[x.choose_l("max_lat", x.thorough() || r == 0.9351 ? ML.size() : 4, [](std::size_t i) { return mc::str(ML[i]); })];
        double const e = sp.ecc();
        double const edge = (std::isnan(ml) ? 0 : ml * DR) * (north ? 1 : -1);
        double const scale = std::min(S, L) / 2 / ref::stereo(e, sp.graphic(edge));
        MaRC::PolarStereographic m(b, ml, north);
        check_grid(x, m, sh.first, sh.second, [&](double lat, double lon, std::vector<UV> & out) {
            double const rho = ref::stereo(e, sp.graphic(lat * DR) * (north ? 1 : -1)) * scale;
            double const s = std::sin(lon * DR) * (north == pro ? 1 : -1);
            out.push_back({S / 2 + rho * s, L / 2 + rho * std::cos(lon * DR), 1});
        }, std::fabs(ml) > 80 ? std::min(0.025, 0.7 / (S + L)) : 0, 3.2 * (S + L));
    } else {
        static std::vector<double> const SLAT = {0, 25, -50, 90, -90, 80};
        static std::vector<double> const SLON = {0, 130, 250};
        static std::vector<double> const PAS = {0, 30, -110};
        double const slat = SLAT[x.choose_l("sublat", SLAT.size(), [](std::size_t i) { return mc::str(SLAT[i]); })];
        double const slon = SLON[x.choose_l("sublon", x.thorough() ? SLON.size() : 2, [](std::size_t i) { return mc::str(SLON[i]); })];
        double const pa = PAS[x.choose_l("PA", x.thorough() ? PAS.size() : 2, [](std::size_t i) { return mc::str(PAS[i]); })];
        static std::vector<double> const KM = {-1, 60, 1, 0.2};
        // a closer look at a part of the body, on the largest shape
        bool const close = S == 300 && slon == 130 && pa == 30;
        double const km = KM[x.choose_l("km", close ? x.thorough() ? 4 : 3 : 2, [](std::size_t i) { return mc::str(KM[i]); })];
        std::size_t const ck = x.choose("center", x.thorough() ? 3 : 2);
        double const rd = DR;
        bool const polar = std::fabs(slat) == 90;
        V o, east, north; R PA = pa * rd;
        if (!polar) { o = sp.dir(slat * rd, slon * rd); east = ref::unit(ref::cross({0, 0, 1}, o)); north = ref::cross(o, east); }
        else { o = {0, 0, slat > 0 ? 1.0L : -1.0L}; north = {1, 0, 0}; east = ref::cross(north, o); PA = 0; }
        V const right = std::cos(PA) * east - std::sin(PA) * north, up = std::sin(PA) * east + std::cos(PA) * north;
        R const kmp = km > 0 ? (R) km : 2 * (R) a / (0.9L * std::min(S, L));
        MaRC::OrthographicCenter const oc = ck == 0 ? MaRC::OrthographicCenter() : ck == 1 ? MaRC::OrthographicCenter(MaRC::CENTER_GIVEN, 4.5, 8) : MaRC::OrthographicCenter(MaRC::LAT_LON_GIVEN, slat * 0.9, slon);
        R sc = S / 2, lc = L / 2;
        if (ck == 1) { sc = 4.5; lc = 8; }
        if (ck == 2) { V const p = sp.point(slat * 0.9 * rd, slon * rd); sc -= ref::dot(p, right) / kmp; lc -= ref::dot(p, up) / kmp; }
        MaRC::Orthographic m(b, slat, slon, pa, km, oc);
        check_grid(x, m, sh.first, sh.second, [&](double lat, double lon, std::vector<UV> & out) {
            V const p = sp.point(lat * rd, lon * rd);
            out.push_back({(double) (sc + ref::dot(p, right) / kmp), (double) (lc + ref::dot(p, up) / kmp), (double) ref::dot(sp.normal(p), o)});
        }, 0, (double) (2 * PI * a / kmp));
    }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 6, body); }
