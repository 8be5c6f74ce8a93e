// Shared helpers: projections, sources, probing of a projection's own map.
#ifndef VERIF_BODIES_H
#define VERIF_BODIES_H
#include "mc.h"
#include <marc/MapFactory.h>
#include <marc/SourceImage.h>
#include <marc/plot_info.h>
#include <marc/OblateSpheroid.h>
#include <marc/SimpleCylindrical.h>
#include <marc/Mercator.h>
#include <marc/PolarStereographic.h>
#include <marc/Orthographic.h>
#include <marc/Constants.h>
#include <memory>
#include <optional>

using Body = std::shared_ptr<MaRC::OblateSpheroid>;
constexpr double PI = 3.141592653589793238462643383279502884;
constexpr double DEG = PI / 180;

inline Body make_body(bool prograde, double eq, double pol)
{
    return std::make_shared<MaRC::OblateSpheroid>(prograde, eq, pol);
}

// Source computed from latitude/longitude by a function.
struct FnSource : MaRC::SourceImage
{
    std::function<bool(double, double, double &)> f;
    explicit FnSource(std::function<bool(double, double, double &)> g) : f(std::move(g)) {}
    bool read_data(double lat, double lon, double & d) const override { mc::yield(); return f(lat, lon, d); }
};

// What the projection itself asks the source for, pixel by pixel (NaN: never asked).
struct Probe
{
    std::vector<double> lat, lon;
    Probe(MaRC::MapFactory const & m, std::size_t s, std::size_t l)
    {
        {
            MaRC::plot_info<double> i(s, l);
            FnSource src([](double la, double, double & d) { d = la; return true; });
            lat = m.make_map<double>(src, MaRC::extrema<double>(), i);
        }
        {
            MaRC::plot_info<double> i(s, l);
            FnSource src([](double, double lo, double & d) { d = lo; return true; });
            lon = m.make_map<double>(src, MaRC::extrema<double>(), i);
        }
    }
};

inline double norm2pi(double x)
{
    x = std::fmod(x, 2 * PI);
    if (x < 0) x += 2 * PI;
    return x;
}
// distance between two angles on the circle
inline double angdist(double a, double b)
{
    double d = std::fabs(norm2pi(a) - norm2pi(b));
    return std::min(d, 2 * PI - d);
}

inline std::unique_ptr<MaRC::MapFactory> make_projection(int kind, Body b)
{
    switch (kind) {
    case 0: return std::make_unique<MaRC::SimpleCylindrical>(b, -90., 90., 0., 360., false);
    case 1: return std::make_unique<MaRC::Mercator>(b);
    case 2: return std::make_unique<MaRC::PolarStereographic>(b, 0., true);
    default: return std::make_unique<MaRC::Orthographic>(b, 20., 30., 10., -1., MaRC::OrthographicCenter());
    }
}
#endif
