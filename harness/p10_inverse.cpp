// P10: image position -> surface point, sky mask.
#include "camera.h"
#include <marc/PhotoImage.h>
#include <marc/PhotoImageParameters.h>
#include <marc/BilinearInterpolation.h>

static void inverse(mc::Explorer & x)
{
    CamCfg g = choose_camera(x);
    if (x.choose("correction", 2)) g.gll = true;
    Camera const cam(g);
    if (cam.ambiguous) throw mc::Prune();
    auto const v = make_geometry(g);
    std::uint64_t h = 1;
    for (int a = 0; a <= 8; ++a)
        for (int o = 0; o < 12; ++o) {
            double const lat = (-90 + 22.5 * a) * DEG, lon = 2 * PI * o / 12 + 0.01;
            double px, pz, bla = NAN, blo = NAN;
            if (!v->latlon2pix(lat, lon, px, pz)) continue;
            R const mu = cam.mu(lat, lon);
            if (mu < 0.02) continue;                              // limb: ill-conditioned
            auto at = [&] { return " (lat " + mc::str(lat / DEG) + ", lon " + mc::str(lon / DEG) + ")"; };
            if (!x.checkf(v->pix2latlon(px, pz, bla, blo), "round-trip-sky", [&] { return "image position of a visible point is reported as sky" + at(); })) return;
            double const tol = 1e-6 * (1 + g.range / 1e6) / (double) mu;
            x.checkf(std::fabs(bla - lat) < tol && angdist(blo, lon) * std::cos(lat) < tol, "round-trip", [&] {
                return "image position converts back to lat " + mc::str(bla / DEG) + ", lon " + mc::str(blo / DEG) + at(); });
            h = mc::mix(h, mc::bits(bla) ^ mc::bits(blo) * 3);
        }
    x.steps(108);
    if (!g.gll)
        for (int k = -20; k <= 50; k += 5)
            for (int i = -20; i <= 60; i += 5) {
                double la = NAN, lo = NAN;
                bool const on = v->pix2latlon(i, k, la, lo);
                R const rel = cam.sees(i, k);
                h = mc::mix(h, on);
                if (std::fabs(rel) < 1e-5) continue;
                if (!x.checkf(on == (rel > 0), "sky", [&] { return "position (" + mc::str(i) + "," + mc::str(k) + (on ? ") of the sky reported on the body" : ") of the body reported as sky"); })) return;
            }
    x.state(h);
}

// Photo of a bright body in front of a dark sky: sky never gets mapped.
static void sky(mc::Explorer & x)
{
    CamCfg g = choose_camera(x, true);
    if (g.range > 1e6) throw mc::Prune();
    Camera const cam(g);
    if (cam.ambiguous) throw mc::Prune();
    bool const remove = x.flip("remove-sky");
    // image: 1 + index in pixels whose whole square is on the body, negative where wholly sky
    std::size_t const S = g.samples, L = g.lines;
    auto rel = [&](R px, R pz) { return cam.sees(px, pz); };
    std::vector<double> img(S * L);
    std::vector<int> kind(S * L);
    for (std::size_t k = 0; k < L; ++k)
        for (std::size_t i = 0; i < S; ++i) {
            int in = 0, n = 0;
            for (R u = -1; u <= 2; u += 0.5L) for (R w = -1; w <= 2; w += 0.5L) { ++n; if (rel(i + u, k + w) > 0) ++in; }
            kind[k * S + i] = in == n ? 1 : in == 0 ? -1 : 0;       // one pixel of margin
            img[k * S + i] = 1 + (double) (k * S + i);
        }
    auto params = std::make_unique<MaRC::PhotoImageParameters>();
    params->remove_sky(remove);
    auto v = make_geometry(g);
    auto const v2 = make_geometry(g);
    MaRC::PhotoImage photo(std::move(img), S, L, std::move(params), std::move(v));
    std::uint64_t h = 2;
    for (int a = 0; a <= 18; ++a)
        for (int o = 0; o < 24; ++o) {
            double const lat = -PI / 2 + PI * a / 18, lon = 2 * PI * o / 24 + 0.005;
            double px, pz, d = -5;
            bool const vis = v2->latlon2pix(lat, lon, px, pz);
            bool const got = photo.read_data(lat, lon, d);
            h = mc::mix(h, got ? mc::bits(d) : 1);
            if (!vis) { x.check(!got, "invisible", "datum for an invisible point"); continue; }
            if (px < 0.01 || pz < 0.01 || px > S - 0.01 || pz > L - 0.01) continue;
            std::size_t const i = (std::size_t) px, k = (std::size_t) pz;
            int const kd = kind[k * S + i];
            if (!remove || kd == 1)
                x.checkf(got, "kept", [&] { return "pixel (" + mc::str(i) + "," + mc::str(k) + ") well inside the disk was dropped"; });
            if (got && remove) x.check(kd >= 0, "sky-used", "datum taken from the sky");
        }
    // every pixel that is sky is dropped: via the mask of the geometry itself
    auto const mask = v2->body_mask(S, L);
    x.check(mask.size() == S * L, "mask-size", "mask has the wrong size");
    for (std::size_t j = 0; j < S * L && j < mask.size(); ++j) {
        if (kind[j] > 0) x.checkf(mask[j], "mask-body", [&] { return "body pixel " + mc::str(j) + " masked as sky"; });
        if (kind[j] < 0) x.checkf(!mask[j], "mask-sky", [&] { return "sky pixel " + mc::str(j) + " not masked"; });
    }
    x.steps(S * L + 19 * 24);
    x.state(h);
}
static void body(mc::Explorer & x) { if (x.choose("part", 2)) sky(x); else inverse(x); }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 7, body); }
