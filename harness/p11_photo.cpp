// P11: which image pixel a photo's datum comes from, and its weight.
#include "camera.h"
#include <marc/PhotoImage.h>
#include <marc/PhotoImageParameters.h>
#include <marc/BilinearInterpolation.h>

struct Cfg { std::size_t S, L, nl, nr, nt, nb; };
static std::vector<std::pair<std::size_t, std::size_t>> const SH = {{2, 2}, {3, 3}, {2, 4}, {4, 3}, {7, 6}, {11, 13}};

static CamCfg camera_for(mc::Explorer & x, std::size_t S, std::size_t L)
{
    CamCfg g;
    g.prograde = x.flip("prograde");
    g.a = 1000; g.c = 935; g.solat = 10; g.solon = 200; g.range = 1e5; g.pa = 20;
    g.scale_kind = 0; g.oa_given = false; g.center_kind = 0; g.samples = S; g.lines = L;
    // the disk is wider than, as wide as, or smaller than the image; centred or shifted off an edge
    static std::vector<double> const FILL = {3, 1, 0.5};
    double const f = FILL[x.choose_l("disk/image", FILL.size(), [](std::size_t i) { return mc::str(FILL[i]); })];
    g.scale = 2000 / (f * std::max(S, L));
    static std::vector<std::pair<double, double>> const OFF = {{0, 0}, {0.45, -0.3}, {-0.6, 0.5}};
    auto const o = OFF[x.choose_l("shift", x.thorough() ? 3 : 2, [](std::size_t i) { return mc::str(OFF[i].first) + "," + mc::str(OFF[i].second); })];
    g.ca = S * (0.5 + o.first); g.cb = L * (0.5 + o.second);
    return g;
}

static void reads(mc::Explorer & x)
{
    auto const sh = SH[x.choose_l("shape", x.thorough() ? 6 : 5, [](std::size_t i) { return mc::str(SH[i].first) + "x" + mc::str(SH[i].second); })];
    std::size_t const S = sh.first, L = sh.second;
    CamCfg const g = camera_for(x, S, L);
    bool const sky = x.flip("remove-sky"), interp = x.flip("interpolate");
    std::size_t const nl = x.choose("left", std::min<std::size_t>(S, 3)), nr = x.choose("right", std::min<std::size_t>(S - nl, 3)),
                      nt = x.choose("top", std::min<std::size_t>(L, 3)), nb = x.choose("bottom", std::min<std::size_t>(L - nt, 3));
    // undefined pixels
    bool const tiny = S * L <= 4;
    std::size_t const pat = x.choose("nan-pattern", tiny ? 16 : 4);
    std::vector<double> img(S * L);
    for (std::size_t j = 0; j < S * L; ++j) {
        bool const nan = tiny ? (pat >> j) & 1 : pat == 0 ? false : pat == 1 ? j % 3 == 0 : pat == 2 ? (j % S == S / 2) : (j / S == L / 2 || j == 0);
        img[j] = nan ? NAN : 10 + (double) j * (j % 2 ? -1 : 1);
    }
    auto const copy = img;
    auto v = make_geometry(g);
    auto const v2 = make_geometry(g);
    std::vector<bool> const mask = v2->body_mask(S, L);
    auto par = std::make_unique<MaRC::PhotoImageParameters>();
    bool const same = nl == nr && nr == nt && nt == nb;
    if (same) par->nibble(nl);
    else { // a strip that is not asked for is not mentioned
        if (nl) par->nibble_left(nl);
        if (nr) par->nibble_right(nr);
        if (nt) par->nibble_top(nt);
        if (nb) par->nibble_bottom(nb);
    }
    par->remove_sky(sky);
    if (interp) par->interpolation_strategy(std::make_unique<MaRC::BilinearInterpolation>(S, L, nl, nr, nt, nb));
    MaRC::PhotoImage photo(std::move(img), S, L, std::move(par), std::move(v));
    std::uint64_t h = mc::mix(S * 100 + L, pat);
    int const NA = x.thorough() ? 40 : 24, NO = x.thorough() ? 72 : 40;
    for (int a = 0; a <= NA; ++a)
        for (int o = 0; o < NO; ++o) {
            double const lat = -PI / 2 + PI * a / NA, lon = 2 * PI * o / NO + 0.003;
            double px = 0, pz = 0;
            bool const vis = v2->latlon2pix(lat, lon, px, pz);
            bool const odd = (a + o) & 1;
            double const init = odd ? -12345 : NAN;
            double d = init, d2 = init, w = 1, w3 = 1, d3 = init;
            bool const got = photo.read_data(lat, lon, d);
            bool const got2 = photo.read_data(lat, lon, d2, w, true);
            bool const got3 = photo.read_data(lat, lon, d3, w3, false);
            bool ok = vis && px >= 0 && pz >= 0 && px < S && pz < L;
            double want = 0;
            std::size_t i = 0, k = 0;
            if (ok) {
                i = (std::size_t) px; k = (std::size_t) pz;
                ok = i >= nl && i < S - nr && k >= nt && k < L - nb && (!sky || mask[k * S + i]) && !std::isnan(copy[k * S + i]);
                if (ok && interp) ok = i + 1 < S - nr && k + 1 < L - nb;
                if (ok) want = copy[k * S + i];
            }
            auto at = [&] { return " at image position (" + mc::str(px) + "," + mc::str(pz) + ")"; };
            h = mc::mix(h, ok ? 1 + k * S + i : 0);
            if (!x.checkf(got == ok && got2 == ok && got3 == ok, "validity", [&] { return std::string(ok ? "valid pixel refused" : "datum without a valid pixel") + at(); })) return;
            if (!ok) {
                x.checkf(mc::bits(d) == mc::bits(init) && mc::bits(d2) == mc::bits(init), "untouched", [&] { return "no datum, but the caller's value was changed" + at(); });
                continue;
            }
            if (!interp)
                x.checkf(d == want && d2 == want && d3 == want, "datum", [&] { return "datum " + mc::str(d) + ", pixel holds " + mc::str(want) + at(); });
            else
                x.checkf(d == d2 && d == d3 && !std::isnan(d), "datum", [&] { return "inconsistent interpolated data" + at(); });
            // weight
            std::size_t wt = std::min(std::min(i, S - i), std::min(k, L - k));
            if (sky) {
                for (std::size_t q = i; q-- > nl;) if (!mask[k * S + q]) { wt = std::min(wt, i - q); break; }
                for (std::size_t q = i + 1; q < S - nr; ++q) if (!mask[k * S + q]) { wt = std::min(wt, q - i); break; }
                for (std::size_t q = k; q-- > nt;) if (!mask[q * S + i]) { wt = std::min(wt, k - q); break; }
                for (std::size_t q = k + 1; q < L - nb; ++q) if (!mask[q * S + i]) { wt = std::min(wt, q - k); break; }
            }
            x.checkf(w == (double) wt, "weight", [&] { return "weight " + mc::str(w) + ", expected " + mc::str(wt) + at(); });
            x.check(w3 == 1, "no-scan", "weight changed although not asked for");
        }
    x.steps((NA + 1) * NO * 3);
    x.state(h);
}

// photos with more samples, lines or pixels than 8 and 16 bit counters hold; every pixel's centre
static void large(mc::Explorer & x)
{
    static std::vector<std::pair<std::size_t, std::size_t>> const BIG = {{300, 260}, {70001, 2}, {2, 70001}};
    auto const sh = BIG[x.choose_l("shape", BIG.size(), [](std::size_t i) { return mc::str(BIG[i].first) + "x" + mc::str(BIG[i].second); })];
    std::size_t const S = sh.first, L = sh.second;
    bool const sky = x.flip("remove-sky"), nib = x.flip("nibble");
    if (sky && S != 300) throw mc::Prune();
    CamCfg g;
    g.prograde = true; g.a = 1000; g.c = 935; g.solat = 10; g.solon = 200; g.range = 1e7; g.pa = 0;
    g.scale_kind = 0; g.oa_given = false; g.center_kind = 0; g.samples = S; g.lines = L;
    g.scale = (sky ? 2200. : 1200.) / std::max(S, L); g.ca = S * 0.5; g.cb = L * 0.5;
    std::size_t const nl = nib && S > 2 ? 259 - (S == 300 ? 200 : 0) : 0, nt = nib && L > 2 ? 258 - (L == 260 ? 200 : 0) : 0;
    std::vector<double> img(S * L);
    for (std::size_t j = 0; j < S * L; ++j) img[j] = (double) j;
    auto const v2 = make_geometry(g);
    std::vector<bool> const mask = v2->body_mask(S, L);
    auto par = std::make_unique<MaRC::PhotoImageParameters>();
    par->nibble_left(nl); par->nibble_right(nl); par->nibble_top(nt); par->nibble_bottom(nt);
    par->remove_sky(sky);
    MaRC::PhotoImage photo(std::move(img), S, L, std::move(par), make_geometry(g));
    std::size_t seen = 0;
    for (std::size_t k = 0; k < L; ++k) for (std::size_t i = 0; i < S; ++i) {
        double lat, lon, px, pz;
        if (!v2->pix2latlon(i + 0.5, k + 0.5, lat, lon) || !v2->latlon2pix(lat, lon, px, pz)) continue;
        if (px < 0 || pz < 0 || px >= S || pz >= L) continue;
        std::size_t const a = (std::size_t) px, b = (std::size_t) pz;
        bool const ok = a >= nl && a < S - nl && b >= nt && b < L - nt && (!sky || mask[b * S + a]);
        double d = NAN, w = 1;
        bool const got = photo.read_data(lat, lon, d, w, true);
        auto at = [&] { return " at image position (" + mc::str(px) + "," + mc::str(pz) + ")"; };
        if (!x.checkf(got == ok, "validity", [&] { return std::string(ok ? "valid pixel refused" : "datum without a valid pixel") + at(); })) return;
        if (!ok) continue;
        ++seen;
        x.checkf(d == (double) (b * S + a), "datum", [&] { return "datum " + mc::str(d) + ", pixel holds " + mc::str(b * S + a) + at(); });
        std::size_t const wt = std::min(std::min(a, S - a), std::min(b, L - b));
        if (!sky) x.checkf(w == (double) wt, "weight", [&] { return "weight " + mc::str(w) + ", expected " + mc::str(wt) + at(); });
        else x.checkf(w <= (double) wt, "weight", [&] { return "weight " + mc::str(w) + " beyond the image edge" + at(); });
    }
    if (seen < 1000) throw std::logic_error("large photo hardly read");
    x.steps(seen);
    x.state(mc::mix(seen, mc::mix(S, nl + sky)));
}
// scales so fine that the body spans more pixels than any integer type counts
static void far_off(mc::Explorer & x)
{
    double const scale = std::pow(10., -2. * (double) x.choose("scale 10^-2n", 12));
    bool const pro = x.flip("prograde"), sky = x.flip("remove-sky");
    std::size_t const S = 5, L = 4;
    CamCfg g{pro, 1000, 900, 0, 50, 1e5, 0, 0, scale, 0, 0, 2.5, 2, 0, 0, false, S, L};
    auto par = std::make_unique<MaRC::PhotoImageParameters>();
    par->remove_sky(sky);
    MaRC::PhotoImage photo(std::vector<double>(S * L, 7.0), S, L, std::move(par), make_geometry(g));
    std::size_t seen = 0;
    for (int a = -89; a <= 89; ++a) for (int o = 0; o < 360; ++o) {
        double const lat = a * DEG, lon = o * DEG;
        // the whole image is less than 10 scale units wide
        double dl = std::fabs(std::remainder(lon - 50 * DEG, 2 * PI));
        bool const near = dl < PI / 2 && std::fabs(std::sin(lat)) * 900 < 10 * scale + 1e-6 && std::sin(dl) * 1000 < 10 * scale + 1e-6; // the rest is rounding
        double d = NAN, w = 1;
        bool const got = photo.read_data(lat, lon, d, w, true);
        seen += got;
        x.checkf(!got || near, "far", [&] { return "datum for latitude " + mc::str(a) + ", longitude " + mc::str(o) + ", which is far outside the image"; });
    }
    if (scale > 1e-9) x.check(seen >= 1, "centre", "no datum at the image's centre");
    x.steps(179 * 360);
    x.state(mc::mix(seen, mc::bits(scale)));
}
static void construct(mc::Explorer & x)
{
    static std::vector<std::size_t> const N = {0, 1, 2, 3, 4, 5, 6, (std::size_t) -1, (std::size_t) -3};
    auto lab = [](std::size_t i) { return mc::str(N[i]); };
    std::size_t const S = x.choose("samples", 5), L = x.choose("lines", 5);
    std::size_t const a = N[x.choose_l("n1", N.size(), lab)], b = N[x.choose_l("n2", N.size(), lab)];
    bool const vertical = x.flip("top/bottom");
    bool const wrongsize = x.flip("wrong-size");
    std::size_t const n = vertical ? L : S;
    bool const ok = S >= 2 && L >= 2 && !wrongsize && a < n && b < n - a;
    auto par = std::make_unique<MaRC::PhotoImageParameters>();
    if (vertical) { par->nibble_top(a); par->nibble_bottom(b); } else { par->nibble_left(a); par->nibble_right(b); }
    CamCfg g{true, 1000, 900, 0, 0, 1e4, 0, 0, 100, 0, 0, 1, 1, 0, 0, false, S, L};
    bool threw = false;
    std::unique_ptr<MaRC::PhotoImage> p;
    try { p = std::make_unique<MaRC::PhotoImage>(std::vector<double>(S * L + (wrongsize ? 1 : 0), 5.0), S, L, std::move(par), make_geometry(g)); }
    catch (std::invalid_argument const &) { threw = true; }
    x.check(threw == !ok, "construct", ok ? "usable photo refused" : "photo without usable pixels accepted");
    if (p) for (int q = -80; q <= 80; q += 10) for (int l = 0; l < 360; l += 10) { double d; p->read_data(q * DEG, l * DEG, d); }
    x.state(mc::mix(mc::mix(S, L), mc::mix(a, b)));
}
static void body(mc::Explorer & x) { switch (x.choose("part", 4)) { case 0: reads(x); break; case 1: construct(x); break; case 2: far_off(x); break; default: large(x); } }
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 6, body); }
