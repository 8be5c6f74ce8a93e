// P25: Galileo SSI distortion correction and its inverse.
#include "mc.h"
#include "ref.h"
#include <marc/GLLGeometricCorrection.h>
#include <marc/NullGeometricCorrection.h>
using ref::R;

static void gll(mc::Explorer & x)
{
    static std::vector<std::size_t> const SAMPLES = {400, 800, 1, 401, 399};
    std::size_t const samples = SAMPLES[x.choose_l("samples", SAMPLES.size(), [](std::size_t i) { return mc::str(SAMPLES[i]); })];
    bool const sum = samples <= 400;
    R const f = sum ? 2 : 1;                    // full-frame pixels per image pixel
    R const D = 6.58e-9L;
    MaRC::GLLGeometricCorrection g(samples);
    x.check(g.summation_mode() == sum, "mode", "summation mode wrong");
    int const N = x.thorough() ? 1600 : 400;
    R const size = 800 / f;
    int const k = (int) x.choose("line", N + 1);
    double const line = (double) (size * k / N);
    std::uint64_t h = mc::mix(samples, k);
    for (int i = 0; i <= N; ++i) {
        double const sample = (double) (size * i / N);
        R const X = sample * f - 400, Y = line * f - 400, r2 = X * X + Y * Y;
        double l = line, s = sample;
        g.object_to_image(l, s);
        R const wl = (Y * (1 + D * r2) + 400) / f, ws = (X * (1 + D * r2) + 400) / f;
        auto at = [&] { return " at (" + mc::str(sample) + "," + mc::str(line) + ")"; };
        x.checkf(std::fabs(l - wl) < 1e-9 && std::fabs(s - ws) < 1e-9, "to-image", [&] { return "object to image gives (" + mc::str(s) + "," + mc::str(l) + "), expected (" + mc::str((double) ws) + "," + mc::str((double) wl) + ")" + at(); });
        double bl = l, bs = s;
        g.image_to_object(bl, bs);
        x.checkf(std::fabs(bl - line) < 1e-8 && std::fabs(bs - sample) < 1e-8, "inverse", [&] { return "image to object does not undo object to image" + at() + ": (" + mc::str(bs) + "," + mc::str(bl) + ")"; });
        double ol = line, os = sample;
        g.image_to_object(ol, os);
        double il = ol, is = os;
        g.object_to_image(il, is);
        x.checkf(std::fabs(il - line) < 1e-8 && std::fabs(is - sample) < 1e-8, "inverse2", [&] { return "object to image does not undo image to object" + at(); });
        h = mc::mix(h, mc::bits(l) ^ mc::bits(os) * 7);
    }
    x.steps(4 * (N + 1));
    x.state(h);
}
static void null(mc::Explorer & x)
{
    MaRC::NullGeometricCorrection n;
    double const a = 37.5 * (double) x.choose("line", 30), b = 37.5 * (double) x.choose("sample", 30);
    double l = a, s = b;
    n.object_to_image(l, s);
    x.check(l == a && s == b, "null", "the absent correction moves points");
    n.image_to_object(l, s);
    x.check(l == a && s == b, "null", "the absent correction moves points");
    x.state(mc::mix(mc::bits(a), mc::bits(b)));
}
static void body(mc::Explorer & x) { if (x.choose("correction", 2)) null(x); else gll(x); }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 3, body); }
