// P16: spheroid geometry.
#include "bodies.h"
#include "ref.h"
#include <marc/Vector.h>
using ref::R; using ref::V;

static std::vector<std::pair<double, double>> const RAD = {
    {1, 1}, {1, 0.999999}, {6378.137, 6356.752}, {71492, 66854}, {60268, 54364}, {100, 50}, {1e-3, 0.3e-3}, {1e9, 9e8}, {10, 0.5}};

static void latitudes(mc::Explorer & x)
{
    auto const rad = RAD[x.choose("body", RAD.size())];
    bool const pro = x.flip("prograde");
    std::size_t const n = x.thorough() ? 7200 : 720;
    auto b = make_body(pro, rad.first, rad.second);
    ref::Spheroid sp{pro, rad.first, rad.second};
    // evenly spaced, and ever closer to the poles, the equator and some latitudes between
    static std::vector<R> const NEAR = [] {
        std::vector<R> v;
        for (R q : {-90.L, -45.L, 0.L, 30.L, 90.L}) for (int m = 0; m < 36; ++m) for (int sg : {-1, 1}) {
            R const l = q + sg * std::pow(10.L, -m / 3.L);
            if (std::fabs(l) < 90) v.push_back(l * ref::pi / 180);
        }
        return v;
    }();
    std::size_t const k = x.choose("lat", n + 1 + NEAR.size());
    R const lat = k <= n ? -ref::pi / 2 + ref::pi * k / n : NEAR[k - n - 1];
    double const c = (double) lat;
    double const g = b->graphic_latitude(c), back = b->centric_latitude(g), cc = b->centric_latitude(c), gback = b->graphic_latitude(cc);
    x.checkf(std::fabs(g - sp.graphic(c)) < 1e-9, "graphic", [&] { return "graphic latitude " + mc::str(g) + ", expected " + mc::str((double) sp.graphic(c)); });
    x.checkf(std::fabs(cc - sp.centric(c)) < 1e-9, "centric", [&] { return "centric latitude " + mc::str(cc) + ", expected " + mc::str((double) sp.centric(c)); });
    x.check(std::fabs(back - c) < 1e-9 && std::fabs(gback - c) < 1e-9, "inverse", "latitude conversions do not invert each other");
    if (k > 0 && k <= n) {
        double const pc = (double) (-ref::pi / 2 + ref::pi * (k - 1) / n);
        x.check(b->graphic_latitude(pc) < g && b->centric_latitude(pc) < cc, "monotone", "latitude conversion not increasing");
    }
    double const r = b->centric_radius(c);
    x.checkf(mc::close(r / rad.first, (double) (sp.radius(lat) / rad.first), 1e-12), "radius", [&] { return "radius " + mc::str(r) + ", expected " + mc::str((double) sp.radius(lat)); });
    R const e2 = sp.ecc() * sp.ecc(), s = std::sin(sp.graphic(c)), w = std::sqrt(1 - e2 * s * s);
    x.checkf(mc::close(b->N(c) / rad.first, (double) (1 / w), 1e-9), "N", [&] { return "prime vertical radius " + mc::str(b->N(c)); });
    x.checkf(mc::close(b->M(c) / rad.first, (double) ((1 - e2) / (w * w * w)), 1e-9), "M", [&] { return "meridional radius " + mc::str(b->M(c)); });
    x.check(mc::close(b->first_eccentricity(), (double) sp.ecc(), 1e-7) && b->eq_rad() == rad.first && b->pol_rad() == rad.second && b->prograde() == pro,
            "attributes", "body attributes differ from those given");
    x.state(mc::mix(mc::bits(g), mc::bits(r)));
    x.steps(6);
}

static void lines(mc::Explorer & x)
{
    auto const rad = RAD[x.choose("body", RAD.size())];
    auto b = make_body(true, rad.first, rad.second);
    ref::Spheroid sp{true, rad.first, rad.second};
    double const a = rad.first;
    static std::vector<double> const RANGE = {1.2, 2, 10, 1000};
    double const range = RANGE[x.choose_l("range/eq", RANGE.size(), [](std::size_t i) { return mc::str(RANGE[i]); })];
    int const ola = -90 + 30 * (int) x.choose("obs-lat", 7), olo = 45 * (int) x.choose("obs-lon", 8);
    std::size_t const ng = x.thorough() ? 13 : 7;
    int const u = (int) x.choose("aim-u", ng) - (int) ng / 2, v = (int) x.choose("aim-v", ng) - (int) ng / 2;
    static std::vector<double> const SC = {1, 1e-3, 250};
    double const scale = SC[x.choose("dvec-scale", SC.size())];
    R const la = ola * ref::pi / 180, lo = olo * ref::pi / 180;
    V const o{std::cos(la) * std::sin(lo), -std::cos(la) * std::cos(lo), std::sin(la)};
    V const obs = (R) (range * a) * o;
    V const t = std::fabs(o.z) > 0.99L ? V{1, 0, 0} : V{0, 0, 1};
    V const e = ref::unit(ref::cross(t, o)), nn = ref::cross(o, e);
    // aim at a point of the plane through the centre, facing the observer
    V const aim = (R) (u * 2.4 / ng * a) * e + (R) (v * 2.4 / ng * a) * nn;
    V const d = (R) scale * (aim - obs);
    MaRC::DVector V0((double) obs.x, (double) obs.y, (double) obs.z), D0((double) d.x, (double) d.y, (double) d.z);
    double lat = 12345, lon = 12345;
    int const rc = b->ellipse_intersection(V0, D0, lat, lon);
    V hit;
    R const rel = sp.hit(obs, d, hit);
    x.state(mc::mix(mc::bits(lat), mc::mix(mc::bits(lon), rc)));
    if (std::fabs(rel) < 1e-7) return;
    x.checkf(rc == (rel < 0 ? 1 : 0), "hit-or-miss", [&] { return "returned " + mc::str(rc) + " for a line that " + (rel < 0 ? "misses" : "meets") + " the body"; });
    if (rel < 0 || rc) return;
    double const tol = 1e-7 * (1 + range / 100) / std::sqrt((double) rel);
    R const wl = sp.lat_of(hit), wo = std::atan2(hit.x, -hit.y);
    x.checkf(std::fabs(lat - wl) < tol, "line-latitude", [&] { return "latitude " + mc::str(lat) + ", expected " + mc::str((double) wl); });
    if (std::fabs(wl) < 1.57)
        x.checkf(angdist(lon, (double) wo) * std::cos((double) wl) < tol, "line-longitude", [&] { return "longitude " + mc::str(lon) + ", expected " + mc::str((double) wo); });
}

static void tangents(mc::Explorer & x)
{
    // exactly tangent, receding and degenerate lines: any verdict, never a crash or NaN
    auto b = make_body(true, 2, x.flip("oblate") ? 1 : 2);
    static std::vector<std::array<double, 6>> const T = {
        {0, -8, 2, 0, 1, 0}, {2, -8, 0, 0, 1, 0}, {-2, -4, 0, 0, 2, 0}, {0, -4, 0, 0, -1, 0}, {0, -4, 0, 0, 1, 0}, {8, 0, 0, 1, 0, 0},
        {0, -2, 0, 1, 0, 0}, {0, -2, 0, 0, 0, 1}, {0, 0, 4, 0, 0, -1}, {0, 0, 4, 0, 0, 1}, {4, 4, 4, 1, 1, 1}, {0, -4, 1, 0, 1, 0}, {2, 0, 0, 0, 1, 0}};
    auto const & t = T[x.choose("line", T.size())];
    double lat = 0.25, lon = 0.25;
    int const rc = b->ellipse_intersection(MaRC::DVector(t[0], t[1], t[2]), MaRC::DVector(t[3], t[4], t[5]), lat, lon);
    x.check((rc == 0 || rc == 1) && !std::isnan(lat) && !std::isnan(lon), "tangent", "tangent line gives NaN or an error");
    x.check(b->ellipse_intersection(MaRC::DVector(0, -4, 0), MaRC::DVector(0, 0, 0), lat, lon) == -1, "degenerate", "a zero direction was accepted");
    x.state(mc::mix(rc, mc::bits(lat)));
}

static void axes(mc::Explorer & x)
{
    // lines parallel to the axes, started before, inside and beyond the body
    bool const oblate = x.flip("oblate");
    double const a = 2, c = oblate ? 1 : 2;
    auto b = make_body(true, a, c);
    std::size_t const ax = x.choose("axis", 3);
    double const sign = x.flip("reverse") ? -1 : 1;
    static std::vector<double> const F = {-1.25, -0.75, -0.5, -0.25, 0, 0.125, 0.5, 0.875, 1.25}, S = {-8, -3, -0.5, 0, 0.25, 3, 16};
    double const u = F[x.choose_l("u", F.size(), [](std::size_t i) { return mc::str(F[i]); })], v = F[x.choose_l("v", F.size(), [](std::size_t i) { return mc::str(F[i]); })];
    double const s = S[x.choose_l("start", S.size(), [](std::size_t i) { return mc::str(S[i]); })];
    double const r[3] = {a, a, c};
    double p[3], d[3] = {0, 0, 0};
    std::size_t const i1 = (ax + 1) % 3, i2 = (ax + 2) % 3;
    p[ax] = s * sign; p[i1] = u * r[i1]; p[i2] = v * r[i2]; d[ax] = sign * 0.5;
    double lat = 12345, lon = 12345;
    int const rc = b->ellipse_intersection(MaRC::DVector(p[0], p[1], p[2]), MaRC::DVector(d[0], d[1], d[2]), lat, lon);
    double const rel = 1 - u * u - v * v;
    x.state(mc::mix(mc::bits(lat), mc::mix(mc::bits(lon), rc)));
    if (std::fabs(rel) < 1e-9) return;
    x.checkf(rc == (rel < 0 ? 1 : 0), "axis-hit-or-miss", [&] { return "returned " + mc::str(rc) + " for a line that " + (rel < 0 ? "misses" : "meets") + " the body"; });
    if (rel < 0 || rc) return;
    double const h = r[ax] * std::sqrt(rel);
    bool ok[2] = {false, false};          // entry and exit point along the direction
    for (int e = 0; e < 2; ++e) {
        double q[3] = {p[0], p[1], p[2]};
        q[ax] = e ? sign * h : -sign * h;
        double const wl = std::atan2(q[2], std::hypot(q[0], q[1])), wo = std::atan2(q[0], -q[1]);
        ok[e] = std::fabs(lat - wl) < 1e-9 && angdist(lon, wo) * std::cos(wl) < 1e-9;
    }
    if (s < -h) x.check(ok[0], "axis-near", "not the nearer intersection");
    else x.check(ok[0] || ok[1], "axis-on-line", "not an intersection of the line with the surface");
}

static void construct(mc::Explorer & x)
{
    static std::vector<double> const V_ = {-1, 0, 1, 2, NAN, -INFINITY, 1.5, -0.0};
    double const e = V_[x.choose_l("eq", V_.size(), [](std::size_t i) { return mc::str(V_[i]); })], p = V_[x.choose_l("pol", V_.size(), [](std::size_t i) { return mc::str(V_[i]); })];
    bool const ok = e > 0 && p > 0 && e >= p;
    bool threw = false;
    try { make_body(true, e, p); } catch (std::invalid_argument const &) { threw = true; }
    x.check(threw == !ok, "radii", ok ? "valid radii refused" : "invalid radii accepted");
    x.state(mc::mix(mc::bits(e), mc::bits(p)));
}

// Several bodies in use at once: the answers of each depend on nothing but itself and the question.
static void several(mc::Explorer & x)
{
    static std::vector<std::pair<double, double>> const B = {{100, 50}, {100, 80}, {100, 100}, {80, 80}, {80, 50}, {100, 79}};
    auto lab = [](std::size_t i) { return mc::str(B[i].first) + "/" + mc::str(B[i].second); };
    std::size_t const n1 = x.choose_l("first", B.size(), lab), n2 = x.choose_l("second", B.size(), lab);
    bool const pro = x.flip("prograde"), pro2 = x.flip("second prograde");
    Body const b[2] = {make_body(pro, B[n1].first, B[n1].second), make_body(pro2, B[n2].first, B[n2].second)};
    ref::Spheroid const sp[2] = {{pro, B[n1].first, B[n1].second}, {pro2, B[n2].first, B[n2].second}};
    std::uint64_t h = 1;
    for (int k = 0; k <= 24; ++k) for (int q = 0; q <= 24; q += 6) {
        double const lat[2] = {(-90 + 7.5 * k) * DEG, (-90 + 7.5 * q) * DEG};
        for (std::size_t f = 0; f < 6; ++f)
            // the same question to both, in turn, and another question in between
            for (std::size_t step = 0; step < 6; ++step) {
                std::size_t const w = step & 1, l = step >= 4 ? 1 : 0;
                double const c = lat[l];
                R const e2 = sp[w].ecc() * sp[w].ecc(), s = std::sin(sp[w].graphic(c)), v = std::sqrt(1 - e2 * s * s), a = B[w ? n2 : n1].first;
                double got = 0; R want = 0;
                switch (f) {
                case 0: got = b[w]->graphic_latitude(c); want = sp[w].graphic(c); break;
                case 1: got = b[w]->centric_latitude(c); want = sp[w].centric(c); break;
                case 2: got = b[w]->centric_radius(c); want = sp[w].radius(c); break;
                case 3: got = b[w]->N(c); want = a / v; break;
                case 4: got = b[w]->M(c); want = a * (1 - e2) / (v * v * v); break;
                default: {
                    V const o{0, -3 * a * std::cos((R) c), 3 * a * std::sin((R) c)}, d{0.1L * a, -o.y, -o.z};
                    double lo; V hit;
                    if (b[w]->ellipse_intersection(MaRC::DVector((double) o.x, (double) o.y, (double) o.z), MaRC::DVector((double) d.x, (double) d.y, (double) d.z), got, lo)) got = 99;
                    want = sp[w].hit(o, d, hit) > 0 ? sp[w].lat_of(hit) : 99;
                } }
                x.checkf(std::fabs(got - want) <= 1e-9 * std::max<R>(1, std::fabs(want)), "several", [&] { return "question " + mc::str(f) + " to body " + mc::str(w + 1) + " at latitude " + mc::str(c / DEG) + " gives " + mc::str(got) + ", expected " + mc::str((double) want); });
                h = mc::mix(h, mc::bits(got));
            }
    }
    x.steps(25 * 5 * 36);
    x.state(h);
}

static void body(mc::Explorer & x)
{
    switch (x.choose("part", 6)) { case 0: latitudes(x); break; case 1: lines(x); break; case 2: tangents(x); break; case 3: axes(x); break; case 4: several(x); break; default: construct(x); }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 3, body); }
