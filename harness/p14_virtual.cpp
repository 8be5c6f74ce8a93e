// P14: computed backplanes.
#include "bodies.h"
#include "ref.h"
#include <marc/MuImage.h>
#include <marc/Mu0Image.h>
#include <marc/CosPhaseImage.h>
#include <marc/LatitudeImage.h>
#include <marc/LongitudeImage.h>
using ref::R; using ref::V;

static std::vector<std::pair<double, double>> const RAD = {{1000, 1000}, {1000, 935}, {1000, 500}, {71492, 66854}, {1000, 999.9999}};
static std::vector<double> const SLAT = {0, 90, -90, 23.5, 89.99999, -60, 45, -1e-7, -89.9}, SLON = {0, 100, 360, -75, 270.5, 180};
static std::vector<double> const RANGE = {1.001, 1.5, 10, 1e5, 1e9};
static std::vector<std::pair<double, double>> const SO = {{1, 0}, {100, 0}, {10000, 128}, {0.5, -3}, {-1, 0}};
static auto lab(std::vector<double> const & v) { return [&v](std::size_t i) { return mc::str(v[i]); }; }

static void body(mc::Explorer & x)
{
    std::size_t const kind = x.choose("plane", 5);        // mu, mu0, phase, latitude, longitude
    bool const pro = x.flip("prograde");
    auto const rad = RAD[x.choose("body", x.thorough() ? 5 : 3)];
    ref::Spheroid const sp{pro, rad.first, rad.second};
    auto b = make_body(pro, rad.first, rad.second);
    double so_lat = 0, so_lon = 0, ss_lat = 0, ss_lon = 0, range = 0;
    bool graphic = false;
    if (kind == 0 || kind == 2) {
        so_lat = SLAT[x.choose_l("sublat", x.thorough() ? SLAT.size() : 5, lab(SLAT))];
        so_lon = SLON[x.choose_l("sublon", x.thorough() ? SLON.size() : 4, lab(SLON))];
        range = rad.first * RANGE[x.choose_l("range/eq", RANGE.size(), lab(RANGE))];
    }
    if (kind == 1 || kind == 2) {
        ss_lat = SLAT[x.choose_l("sunlat", x.thorough() ? SLAT.size() : kind == 2 ? 4 : 7, lab(SLAT))];
        ss_lon = SLON[x.choose_l("sunlon", x.thorough() ? SLON.size() : kind == 2 ? 3 : 6, lab(SLON))];
    }
    if (kind == 3) graphic = x.flip("graphic");
    auto const so = SO[x.choose_l("scale,offset", kind == 2 && !x.thorough() ? 2 : SO.size(), [](std::size_t i) { return mc::str(SO[i].first) + "," + mc::str(SO[i].second); })];
    std::unique_ptr<MaRC::VirtualImage> im;
    switch (kind) {
    case 0: im = std::make_unique<MaRC::MuImage>(b, so_lat, so_lon, range, so.first, so.second); break;
    case 1: im = std::make_unique<MaRC::Mu0Image>(b, ss_lat, ss_lon, so.first, so.second); break;
    case 2: im = std::make_unique<MaRC::CosPhaseImage>(b, so_lat, so_lon, ss_lat, ss_lon, range, so.first, so.second); break;
    case 3: im = std::make_unique<MaRC::LatitudeImage>(b, graphic, so.first, so.second); break;
    default: im = std::make_unique<MaRC::LongitudeImage>(so.first, so.second); break;
    }
    R const rd = ref::pi / 180;
    V const obs = (R) range * sp.dir(so_lat * rd, so_lon * rd), sun = sp.dir(ss_lat * rd, ss_lon * rd);
    x.check(mc::close(im->scale(), 1 / so.first, 1e-15) && mc::close(im->offset(), -so.second / so.first, 1e-15), "recorded", "recorded scale/zero do not invert the applied ones");
    std::uint64_t h = kind;
    int n = 0;
    double const STEP = x.thorough() ? 5 : 10;
    std::vector<double> lats, lons;
    for (double q = -90; q <= 90; q += STEP) lats.push_back(q);
    for (double q = 0; q <= 360; q += 2 * STEP) lons.push_back(q);
    for (double q : {so_lat, ss_lat, 1e-9, -1e-9, 89.999999}) lats.push_back(q);
    for (double q : {so_lon, ss_lon, so_lon + 180, -30.0, 359.999999, 1e-12, -1e-13, 719.0}) lons.push_back(q);
    for (double la : lats) for (double lo : lons) {
        double const lat = std::max(-PI / 2, std::min(PI / 2, la * DEG)), lon = lo * DEG;
        double d = -1e9;
        bool const got = im->read_data(lat, lon, d);
        ++n;
        auto at = [&] { return " at lat " + mc::str(la) + ", lon " + mc::str(lo); };
        if (!x.checkf(got, "refused", [&] { return "no datum on the body" + at(); })) return;
        V const p = sp.point(lat, lon), nm = sp.normal(p);
        R want = 0, tol = 1e-11L;
        switch (kind) {
        case 0: want = ref::dot(nm, ref::unit(obs - p)); tol = 1e-9L; break;
        case 1: want = ref::dot(nm, sun); break;
        case 2: want = ref::dot(ref::unit(obs - p), sun); tol = 1e-9L; break;
        case 3: want = (graphic ? sp.graphic(lat) : (R) lat) / rd; break;
        default: want = std::fmod((R) lon / rd, 360.0L); if (want < 0) want += 360; break;
        }
        R const scaled = want * so.first + so.second, t = tol * std::fabs(so.first) * (kind > 2 ? 100 : 1) + 1e-15L;
        bool ok = std::fabs(d - scaled) <= t;
        if (kind == 4) {        // 0 and 360 are the same place
            R const phys = (d - (R) so.second) / so.first;
            ok = phys >= -1e-9L && phys <= 360 + 1e-9L && (std::fabs(phys - want) < 1e-9L || std::fabs(std::fabs(phys - want) - 360) < 1e-9L);
        }
        x.checkf(ok, kind == 0 ? "mu" : kind == 1 ? "mu0" : kind == 2 ? "phase" : kind == 3 ? "latitude" : "longitude", [&] { return "value " + mc::str(d) + ", expected " + mc::str((double) scaled) + at(); });
        h = mc::mix(h, mc::bits(d));
    }
    x.steps(n);
    x.state(h);
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 5, body); }
