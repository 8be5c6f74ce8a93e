// P12: interpolation between image pixels.
#include "mc.h"
#include <marc/BilinearInterpolation.h>
#include <marc/NullInterpolation.h>
#include <memory>

static std::vector<double> const VAL = {0, 1, NAN, -7.25, 1e6, 100, -1e-3};

static void quad(mc::Explorer & x)
{
    // the four pixels around the position take every combination of values; the rest are sentinels
    std::size_t const nv = x.thorough() ? 7 : 6;
    auto lab = [](std::size_t i) { return mc::str(VAL[i]); };
    double const q[4] = {VAL[x.choose_l("v00", nv, lab)], VAL[x.choose_l("v10", nv, lab)], VAL[x.choose_l("v01", nv, lab)], VAL[x.choose_l("v11", nv, lab)]};
    std::size_t const S = 4 + x.choose("width", 2), L = 5;
    std::size_t const i = x.choose("i", 3), k = x.choose("k", 3);
    auto img = std::make_unique<double[]>(S * L);
    for (std::size_t j = 0; j < S * L; ++j) img[j] = 1e30;
    img[k * S + i] = q[0]; img[k * S + i + 1] = q[1]; img[(k + 1) * S + i] = q[2]; img[(k + 1) * S + i + 1] = q[3];
    MaRC::BilinearInterpolation const b(S, L, 0, 0, 0, 0);
    static double const FR[] = {0, 0.25, 0.5, 0.75, 0.9990234375, 0.0009765625};
    double lo = INFINITY, hi = -INFINITY;
    for (double v : q) if (!std::isnan(v)) { lo = std::min(lo, v); hi = std::max(hi, v); }
    std::uint64_t h = 7;
    for (double u : FR) for (double w : FR) {
        double const init = -4242; double d = init;
        bool const got = b.interpolate(img.get(), i + u, k + w, d);
        long double sum = 0, ws = 0, used_lo = INFINITY, used_hi = -INFINITY;
        long double const W[4] = {(1.0L - u) * (1.0L - w), (long double) u * (1.0L - w), (1.0L - u) * w, (long double) u * w};
        bool all = true;
        for (int j = 0; j < 4; ++j) {
            if (std::isnan(q[j])) { all = false; continue; }
            if (W[j] == 0) continue;
            sum += W[j] * q[j]; ws += W[j]; used_lo = std::min<long double>(used_lo, q[j]); used_hi = std::max<long double>(used_hi, q[j]);
        }
        auto at = [&] { return " at +(" + mc::str(u) + "," + mc::str(w) + ")"; };
        h = mc::mix(h, got ? mc::bits(d) : 3);
        // "none valid": every pixel NaN => no data; a valid containing pixel => data
        if (lo > hi) { x.checkf(!got, "none-valid", [&] { return "datum although no pixel is valid" + at(); }); continue; }
        if (!std::isnan(q[0]) && !x.checkf(got, "refused", [&] { return "no datum although the pixel is valid" + at(); })) return;
        if (!got) continue;
        double const tol = 1e-9 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi)));
        x.checkf(d >= lo - tol && d <= hi + tol, "range", [&] { return "interpolated " + mc::str(d) + " outside the valid pixels' range [" + mc::str(lo) + "," + mc::str(hi) + "]" + at(); });
        if (u == 0 && w == 0 && !std::isnan(q[0])) x.checkf(std::fabs(d - q[0]) <= tol, "exact", [&] { return "value " + mc::str(d) + " on a pixel holding " + mc::str(q[0]); });
        if (all) x.checkf(std::fabs(d - (double) sum) <= tol, "bilinear", [&] { return "value " + mc::str(d) + ", bilinear value is " + mc::str((double) sum) + at(); });
    }
    x.steps(36);
    x.state(h);
}
static void borders(mc::Explorer & x)
{
    std::size_t const S = 2 + x.choose("samples", 4), L = 2 + x.choose("lines", 4);
    std::size_t const nl = x.choose("l", S), nr = x.choose("r", S - nl), nt = x.choose("t", L), nb = x.choose("b", L - nt);
    auto img = std::make_unique<double[]>(S * L);              // exact size: address sanitizer sees every escape
    for (std::size_t j = 0; j < S * L; ++j) img[j] = (double) j;
    MaRC::BilinearInterpolation const b(S, L, nl, nr, nt, nb);
    std::uint64_t h = 1;
    for (std::size_t k = 0; k <= L + 1; ++k) for (std::size_t i = 0; i <= S + 1; ++i) for (double f : {0.0, 0.5, 0.9375}) {
        double d = -1;
        bool const got = b.interpolate(img.get(), i + f, k + f, d);
        bool const inside = i >= nl && i + 1 < S - nr && k >= nt && k + 1 < L - nb;
        x.checkf(got == inside, "border", [&] { return std::string(got ? "used" : "refused") + " pixel (" + mc::str(i) + "," + mc::str(k) + ") at the border"; });
        if (got) x.check(std::fabs(d - (k * S + i + f * (S + 1))) < 1e-9, "plane", "a plane is not reproduced");
        h = mc::mix(h, got);
    }
    x.steps((L + 2) * (S + 2) * 3);
    x.state(mc::mix(h, S * 10 + L));
}
static void null(mc::Explorer & x)
{
    MaRC::NullInterpolation const n;
    double const v = VAL[x.choose("value", 2)];
    double img[4] = {9, 8, 7, 6}, d = v;
    x.check(n.interpolate(img, 0.5, 0.5, d) && d == v, "null", "no interpolation must keep the pixel value");
    x.state(1);
}
// pixels that are infinite: not looked at where they have no part in the value
static void infinite(mc::Explorer & x)
{
    double const inf = x.flip("negative") ? -INFINITY : INFINITY;
    std::size_t const set = x.choose("infinite pixels", 16);
    std::size_t const S = 4, L = 4, i = 1, k = 1;
    auto img = std::make_unique<double[]>(S * L);
    for (std::size_t j = 0; j < S * L; ++j) img[j] = inf;
    double q[4];
    for (std::size_t j = 0; j < 4; ++j) { q[j] = set >> j & 1 ? inf : 3.0 + j; img[(k + j / 2) * S + i + j % 2] = q[j]; }
    MaRC::BilinearInterpolation const b(S, L, 0, 0, 0, 0);
    std::uint64_t h = set;
    for (double u : {0.0, 0.25, 0.5}) for (double w : {0.0, 0.25, 0.5}) {
        double d = -4242;
        bool const got = b.interpolate(img.get(), i + u, k + w, d);
        double const W[4] = {(1 - u) * (1 - w), u * (1 - w), (1 - u) * w, u * w};
        double want = 0;
        for (int j = 0; j < 4; ++j) if (W[j] > 0) want += W[j] * q[j];
        x.checkf(got && (d == want || std::fabs(d - want) < 1e-9), "infinite", [&] { return "value " + mc::str(d) + " at +(" + mc::str(u) + "," + mc::str(w) + "), expected " + mc::str(want); });
        h = mc::mix(h, mc::bits(d));
    }
    x.steps(9);
    x.state(h);
}
static void body(mc::Explorer & x)
{
    switch (x.choose("part", 4)) { case 0: quad(x); break; case 1: borders(x); break; case 2: infinite(x); break; default: null(x); }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 4, body); }
