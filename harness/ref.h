// Reference geometry, written from the definitions, in long double.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cmath>
#include <array>
#include <algorithm>
namespace ref {
using R = long double;
constexpr R pi = 3.14159265358979323846264338327950288L;
struct V { R x, y, z; };
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V operator*(R s, V a) { return {s * a.x, s * a.y, s * a.z}; }
inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline R norm(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { return (1 / norm(a)) * a; }

// Body: equatorial radius a, polar radius c; longitudes of a prograde body increase westward.
struct Spheroid {
    bool prograde; R a, c;
    R east(R lon) const { return prograde ? -lon : lon; }
    // direction of planetocentric latitude/longitude
    V dir(R lat, R lon) const
    { R e = east(lon); return {std::cos(lat) * std::cos(e), std::cos(lat) * std::sin(e), std::sin(lat)}; }
    R radius(R lat) const
    { R cl = std::cos(lat) / a, sl = std::sin(lat) / c; return 1 / std::sqrt(cl * cl + sl * sl); }
    V point(R lat, R lon) const { return radius(lat) * dir(lat, lon); }
    V normal(V p) const { return unit({p.x / (a * a), p.y / (a * a), p.z / (c * c)}); }
    R lat_of(V p) const { return std::atan2(p.z, std::hypot(p.x, p.y)); }
    R lon_of(V p) const { R e = std::atan2(p.y, p.x); return prograde ? -e : e; }
    R graphic(R lat) const { return std::atan2(a * a * std::sin(lat), c * c * std::cos(lat)); }
    R centric(R latg) const { return std::atan2(c * c * std::sin(latg), a * a * std::cos(latg)); }
    R ecc() const { return std::sqrt(std::max<R>(0, 1 - (c / a) * (c / a))); }
    // nearest intersection of p + t d; returns relative discriminant (<0: miss)
    R hit(V p, V d, V & out) const
    {
        V ps{p.x / a, p.y / a, p.z / c}, ds{d.x / a, d.y / a, d.z / c};
        R A = dot(ds, ds), B = dot(ps, ds), C = dot(ps, ps) - 1;
        R disc = B * B - A * C;
        // squared distance of the line from the centre, in units of the surface
        R rel = 1 - (dot(ps, ps) - B * B / A);
        if (disc >= 0) { R t = (-B - std::sqrt(disc)) / A; out = p + t * d; }
        return rel;
    }
};
// Mercator ordinate
inline R isometric(R e, R latg) { R s = std::sin(latg); return std::atanh(s) - (e > 0 ? e * std::atanh(e * s) : 0); }
template <typename F> R bisect(F f, R lo, R hi, R y)
{
    bool inc = f(hi) > f(lo);
    for (int i = 0; i < 200; ++i) { R m = (lo + hi) / 2; if ((f(m) < y) == inc) lo = m; else hi = m; }
    return (lo + hi) / 2;
}
// stereographic radius, up to a constant factor
inline R stereo(R e, R latg)
{ R s = e * std::sin(latg); return std::tan(pi / 4 - latg / 2) * std::pow((1 + s) / (1 - s), e / 2); }
} // namespace ref
#endif
