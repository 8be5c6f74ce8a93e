// Reference pinhole camera looking at a spheroid, from the definitions.
#ifndef VERIF_CAMERA_H
#define VERIF_CAMERA_H
#include "bodies.h"
#include "ref.h"
#include <marc/ViewingGeometry.h>
#include <marc/GLLGeometricCorrection.h>
using ref::R; using ref::V;

struct CamCfg {
    bool prograde; double a, c;           // body
    double solat, solon, range, pa;       // degrees, km
    int scale_kind; double scale;         // 0: km/pixel, 1: arcsec/pixel, 2: focal length (mm) with pitch
    double pitch;
    int center_kind; double ca, cb;       // 0: body centre sample/line, 1: lat/lon at the optical axis
    double oas, oal; bool oa_given;       // optical axis
    std::size_t samples, lines;
    bool gll = false;
};

struct Camera {
    ref::Spheroid sp;
    V pos, right, fwd, up;
    R f, oas, oal;
    bool ambiguous = false, impossible = false; // impossible: no orientation shows the body centre and north as given
    bool gll; R ff;

    explicit Camera(CamCfg const & g) : sp{g.prograde, g.a, g.c}
    {
        R const rd = ref::pi / 180;
        gll = g.gll; ff = g.samples <= 400 ? 2 : 1;
        oas = g.oa_given ? (R) g.oas : g.samples / 2.0L;
        oal = g.oa_given ? (R) g.oal : g.lines / 2.0L;
        V const o = sp.dir(g.solat * rd, g.solon * rd);
        pos = (R) g.range * o;
        V const n{0, 0, 1};
        R const PA = g.pa * rd;
        R const kmp = g.scale_kind == 1 ? g.range * (g.scale / 3600 * rd) : (R) g.scale;
        if (g.center_kind == 0) {
            R const dx = g.ca - oas, dz = oal - g.cb;       // body centre in the image, from the axis
            R const d = std::hypot(dx, dz);
            // the plane through the body centre square to the axis is imaged at kmp
            f = g.scale_kind == 2 ? (R) g.scale * g.pitch : std::sqrt(((R) g.range / kmp - d) * ((R) g.range / kmp + d));
            V const w = ref::unit({dx, f, dz});             // direction of the body centre, camera coordinates
            // north in camera coordinates: (-s sin PA, t, s cos PA), s >= 0, with a given angle to w
            R const A = -std::sin(PA) * w.x + std::cos(PA) * w.z, hh = std::hypot(A, w.y), rhs = -std::sin(g.solat * rd) / hh;
            if (std::fabs(rhs) > 1) { ambiguous = true; impossible = std::fabs(rhs) > 1 + 1e-6L; return; }
            R const al = std::atan2(w.y, A), be = std::acos(rhs);
            R t1 = al + be, t2 = al - be;
            bool const v1 = std::cos(t1) > 1e-9L, v2 = std::cos(t2) > 1e-9L;
            if (v1 == v2) { ambiguous = true; return; }
            R const th = v1 ? t1 : t2;
            V const nc{-std::sin(PA) * std::cos(th), std::sin(th), std::cos(PA) * std::cos(th)};
            frame(w, nc, (-1) * o, n);
        } else {
            V const p = sp.point(g.ca * rd, g.cb * rd);
            V const ax = ref::unit(p - pos);
            fwd = ax;
            V const nn = n - ref::dot(n, ax) * ax;           // north in the image plane
            if (ref::norm(nn) < 1e-6L) { ambiguous = true; return; }
            V const nu = ref::unit(nn), ea = ref::cross(ax, nu); // right when PA = 0
            up = std::sin(PA) * ea + std::cos(PA) * nu;
            right = std::cos(PA) * ea - std::sin(PA) * nu;
            R const normal = -ref::dot(pos, ax);
            f = g.scale_kind == 2 ? (R) g.scale * g.pitch : normal / kmp;
        }
    }
    // distance of a point in front of the camera, along the axis (negative: behind it)
    R depth(V p) const { return ref::dot(p - pos, fwd); }
    void frame(V w, V nc, V wb, V nb)
    {
        // triads of (centre direction, north) in both coordinate systems
        V const c1 = w, c2 = ref::cross(w, nc), b1 = wb, b2 = ref::cross(wb, nb);
        if (ref::norm(b2) < 1e-4L || ref::norm(c2) < 1e-4L) { ambiguous = true; return; }
        V const C1 = ref::unit(c1), C2 = ref::unit(c2), C3 = ref::cross(C1, C2), B1 = ref::unit(b1), B2 = ref::unit(b2), B3 = ref::cross(B1, B2);
        auto tobody = [&](V e) { return ref::dot(e, C1) * B1 + ref::dot(e, C2) * B2 + ref::dot(e, C3) * B3; };
        right = tobody({1, 0, 0}); fwd = tobody({0, 1, 0}); up = tobody({0, 0, 1});
    }
    void project(V p, R & x, R & z) const
    {
        V const d = p - pos;
        R const y = ref::dot(d, fwd);
        x = oas + ref::dot(d, right) / y * f;
        z = oal - ref::dot(d, up) / y * f;
        if (gll) {
            R const X = x * ff - 400, Y = z * ff - 400, k = 1 + 6.58e-9L * (X * X + Y * Y);
            x = (X * k + 400) / ff; z = (Y * k + 400) / ff;
        }
    }
    // line of sight of an image position (no distortion); the body is met by it, not by its extension behind the camera
    R sees(R x, R z) const
    {
        V q; V const d = ray(x, z);
        R const rel = sp.hit(pos, d, q);
        return rel > 0 && ref::dot(q - pos, d) < 0 ? -rel : rel;
    }
    V ray(R x, R z) const { return (x - oas) * right + f * fwd + (oal - z) * up; }
    R mu(R lat, R lon) const { V const p = sp.point(lat, lon); return ref::dot(sp.normal(p), ref::unit(pos - p)); }
};

inline std::unique_ptr<MaRC::ViewingGeometry> make_geometry(CamCfg const & g, double limit = NAN, bool term = false, double sslat = 0, double sslon = 0)
{
    auto v = std::make_unique<MaRC::ViewingGeometry>(make_body(g.prograde, g.a, g.c));
    v->sub_observ(g.solat, g.solon);
    v->sub_solar(sslat, sslon);
    v->range(g.range);
    v->position_angle(g.pa);
    if (g.scale_kind == 0) v->km_per_pixel(g.scale);
    else if (g.scale_kind == 1) v->arcsec_per_pixel(g.scale);
    else { v->focal_length(g.scale); v->scale(g.pitch); }
    if (g.center_kind == 0) v->body_center(g.ca, g.cb); else v->lat_lon_center(g.ca, g.cb);
    if (g.oa_given) v->optical_axis(g.oas, g.oal);
    if (!std::isnan(limit)) v->emi_ang_limit(limit);
    v->use_terminator(term);
    if (g.gll) v->geometric_correction(std::make_unique<MaRC::GLLGeometricCorrection>(g.samples));
    v->finalize_setup(g.samples, g.lines);
    return v;
}

// The explored space of geometries.
inline CamCfg choose_camera(mc::Explorer & x, bool small = false)
{
    CamCfg g;
    g.prograde = x.flip("prograde");
    static std::vector<std::pair<double, double>> const RAD = {{1000, 935}, {1000, 1000}, {1000, 600}};
    auto const r = RAD[x.choose("body", x.thorough() ? 3 : 2)];
    g.a = r.first; g.c = r.second;
    static std::vector<double> const SLAT = {0, 25, -60, -5, 80};
    static std::vector<double> const SLON = {0, 100, 359, -40};
    static std::vector<double> const PA = {0, 30, -75, 180, 270};
    static std::vector<double> const RANGE = {5000, 1e5, 1500, 1e8};
    auto l = [](std::vector<double> const & v) { return [&v](std::size_t i) { return mc::str(v[i]); }; };
    g.solat = SLAT[x.choose_l("sublat", x.thorough() ? 5 : 3, l(SLAT))];
    g.solon = SLON[x.choose_l("sublon", small ? 2 : x.thorough() ? 4 : 3, l(SLON))];
    g.pa = PA[x.choose_l("PA", small ? 2 : x.thorough() ? 5 : 4, l(PA))];
    g.range = RANGE[x.choose_l("range", small ? 2 : x.thorough() ? 4 : 3, l(RANGE))];
    g.scale_kind = (int) x.choose("scale-kind", 3);
    g.samples = 40; g.lines = 30;
    // about 60 km per pixel at the body
    static std::vector<double> const KM = {60, 200};
    double const km = KM[x.choose_l("km", small ? 1 : 2, l(KM))];
    g.pitch = 20;
    g.scale = g.scale_kind == 0 ? km : g.scale_kind == 1 ? km / g.range * 3600 * 180 / PI : g.range / km / g.pitch;
    g.oa_given = x.flip("oa-given"); g.oas = 12.5; g.oal = 21;
    struct C { int k; double a, b; };
    // body centre on the optical axis, on its line, on its sample or on neither
    std::vector<C> const CS = {{0, 20, 15}, {0, 14.25, 9}, {1, 0, 1e9}, {1, 20, 15}, {1, -35, -25},
                               g.oa_given ? C{0, 30, 21} : C{0, 25, 15}, g.oa_given ? C{0, 12.5, 3} : C{0, 20, 9}, {0, 45, -8}};
    auto const c = CS[x.choose_l("center", x.thorough() ? 8 : 7, [&CS](std::size_t i) { return (CS[i].k ? "ll" : "px") + mc::str(CS[i].a) + "," + mc::str(CS[i].b); })];
    g.center_kind = c.k; g.ca = c.a; g.cb = c.b;
    if (c.k) {       // relative to the sub-observer longitude
        g.cb = c.b > 1e8 ? g.solon : g.solon + c.b;
        if (g.cb > 360) g.cb -= 360;
        if (g.cb < -360) g.cb += 360;
    }
    return g;
}
#endif
