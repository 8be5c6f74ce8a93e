// P09: surface point -> image position, visibility.
#include "camera.h"

static void geometry(mc::Explorer & x)
{
    CamCfg g = choose_camera(x);
    if (x.choose("correction", 2)) g.gll = true;
    Camera const cam(g);
    if (cam.impossible) {
        bool refused = false;
        try { make_geometry(g); } catch (std::exception const &) { refused = true; }
        x.check(refused, "impossible", "geometry in which no orientation shows both the body centre and north as given is accepted");
        x.steps(1);
        return;
    }
    if (cam.ambiguous) throw mc::Prune();
    auto const v = make_geometry(g);
    std::uint64_t h = 1;
    int const NLA = x.thorough() ? 12 : 6, NLO = x.thorough() ? 24 : 12;
    for (int a = 0; a <= NLA; ++a)
        for (int o = 0; o < NLO; ++o) {
            double const lat = -PI / 2 + PI * a / NLA, lon = 2 * PI * o / NLO + 0.01;
            R const mu = cam.mu(lat, lon);
            double px = -777, pz = -777;
            bool const got = v->latlon2pix(lat, lon, px, pz);
            auto at = [&] { return " (lat " + mc::str(lat / DEG) + ", lon " + mc::str(lon / DEG) + ")"; };
            h = mc::mix(h, got ? mc::bits(px) ^ mc::bits(pz) * 3 : 5);
            x.check(!got || v->is_visible(lat, lon), "consistent", "conversion and visibility disagree");
            if (std::fabs(mu) < 1e-9) continue;
            R const depth = cam.depth(cam.sp.point(lat, lon));
            if (std::fabs(depth) < 1e-6 * g.range) continue;
            if (!x.checkf(got == (mu > 0 && depth > 0), "visible", [&] { return std::string(!got ? "visible point refused" : mu > 0 ? "point behind the camera used" : "invisible point used") + at(); })) return;
            if (!got) continue;
            R wx, wz;
            cam.project(cam.sp.point(lat, lon), wx, wz);
            double const tol = 1e-6 * (1 + std::fabs((double) wx) + std::fabs((double) wz));
            x.checkf(std::fabs(px - wx) < tol && std::fabs(pz - wz) < tol, "position", [&] {
                return "image position (" + mc::str(px) + "," + mc::str(pz) + "), expected (" + mc::str((double) wx) + "," + mc::str((double) wz) + ")" + at(); });
        }
    x.steps((NLA + 1) * NLO);
    x.state(h);
}

static void visibility(mc::Explorer & x)
{
    CamCfg g = choose_camera(x, true);
    g.center_kind = 0; g.ca = 20; g.cb = 15;
    static std::vector<double> const LIM = {90, 0, 30, 75.5, -60, -90, 89.99};
    double const lim = LIM[x.choose_l("limit", LIM.size(), [](std::size_t i) { return mc::str(LIM[i]); })];
    bool const term = x.flip("terminator");
    static std::vector<double> const SLA = {0, 20, -80, 90}, SLO = {0, 90, 250, -10};
    double const sla = SLA[x.choose("sunlat", SLA.size())], slo = SLO[x.choose("sunlon", SLO.size())];
    Camera const cam(g);
    if (cam.ambiguous) throw mc::Prune();
    auto const v = make_geometry(g, lim, term, sla, slo);
    V const sun = cam.sp.dir(sla * ref::pi / 180, slo * ref::pi / 180);
    std::uint64_t h = 1;
    for (int a = 0; a <= 6; ++a)
        for (int o = 0; o < 12; ++o) {
            double const lat = -PI / 2 + PI * a / 6, lon = 2 * PI * o / 12;
            R const m = cam.mu(lat, lon) - std::cos(lim * ref::pi / 180), m0 = ref::dot(cam.sp.normal(cam.sp.point(lat, lon)), sun);
            bool const got = v->is_visible(lat, lon);
            h = mc::mix(h, got);
            if (std::fabs(m) < 1e-9 || (term && std::fabs(m0) < 1e-9)) continue;
            x.checkf(got == (m > 0 && (!term || m0 > 0)), "limits", [&] { return std::string(got ? "used" : "refused") + " against the emission angle limit or terminator (lat " + mc::str(lat / DEG) + ", lon " + mc::str(lon / DEG) + ")"; });
        }
    x.steps(84);
    x.state(h);
}

static void refusals(mc::Explorer & x)
{
    MaRC::ViewingGeometry v(make_body(true, 1000, 900));
    static std::vector<double> const VAL = {0, -0.0, 1, 45, 90, 90.0001, -90, -90.0001, 360, 360.001, -360, -360.001, 900, 900.1, 1e154, 1e155, -5, 180, 359.9};
    std::size_t const w = x.choose("setter", 12);
    double const d = VAL[x.choose_l("value", VAL.size(), [](std::size_t i) { return mc::str(VAL[i]); })];
    bool threw = false, ok;
    bool const lat = std::fabs(d) <= 90, lon = std::fabs(d) <= 360;
    try {
        switch (w) {
        case 0: ok = lat; v.sub_observ_lat(d); break;
        case 1: ok = lon; v.sub_observ_lon(d); break;
        case 2: ok = lat; v.sub_solar_lat(d); break;
        case 3: ok = lon; v.sub_solar_lon(d); break;
        case 4: ok = d > 900 && d < 1.3e154; v.range(d); break;
        case 5: ok = d > 0; v.focal_length(d); break;
        case 6: ok = d > 0; v.scale(d); break;
        case 7: ok = lon; v.position_angle(d); break;
        case 8: ok = d > 0; v.km_per_pixel(d); break;
        case 9: ok = lat; v.lat_at_center(d); break;
        case 10: ok = lon; v.lon_at_center(d); break;
        default: ok = lat; v.emi_ang_limit(d); break;
        }
    } catch (std::exception const &) { threw = true; }
    x.check(threw == !ok, "refusal", ok ? "valid value refused" : "invalid value accepted");
    x.state(mc::mix(w, mc::bits(d)));
}
static void incomplete(mc::Explorer & x)
{
    // angular scale needs a range; image scale must come from somewhere
    MaRC::ViewingGeometry v(make_body(true, 1000, 900));
    std::size_t const w = x.choose("missing", 5);
    bool threw = false;
    try {
        if (w == 0) v.arcsec_per_pixel(3);
        else {
            v.sub_observ(1, 2); v.position_angle(0); v.range(5000); v.body_center(1, 1);
            if (w == 1) v.arcsec_per_pixel(0);
            if (w == 2) v.focal_length(3);
            if (w == 3) v.scale(3);
            v.finalize_setup(5, 5);
        }
    } catch (std::exception const &) { threw = true; }
    x.check(threw, "incomplete", "incomplete image scale accepted");
    x.state(w);
}
static void body(mc::Explorer & x)
{
    switch (x.choose("part", 4)) { case 0: geometry(x); break; case 1: visibility(x); break; case 2: refusals(x); break; default: incomplete(x); }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 7, body); }
