// P13: compositing of overlapping images.
#include "bodies.h"
#include <marc/MosaicImage.h>
#include <marc/first_read.h>
#include <marc/unweighted_average.h>
#include <marc/weighted_average.h>

// A source image with prescribed behaviour.
struct Img : MaRC::SourceImage
{
    bool has; double v, w; bool weighs, scribbles;
    Img(bool h_, double v_, double w_, bool k, bool s) : has(h_), v(v_), w(w_), weighs(k), scribbles(s) {}
    bool read_data(double, double, double & d) const override
    { if (has) { d = v; return true; } if (scribbles) d = 6666; return false; }
    bool read_data(double a, double b, double & d, double & wt, bool scan) const override
    {
        if (!read_data(a, b, d)) { if (scribbles) wt = 1e9; return false; }
        if (weighs && scan) wt = w;
        return true;
    }
};
struct Kind { bool has; double v, w; bool weighs, scribbles; char const * name; };
static std::vector<Kind> const KINDS = {
    {false, 0, 0, false, false, "none"}, {true, 10, 3, true, false, "10w3"}, {true, -4.5, 1, true, false, "-4.5w1"}, {false, 0, 0, false, true, "none*"},
    {true, 200, 0, true, false, "200w0"}, {true, 7, 1, false, false, "7"}, {true, 0, 40, true, false, "0w40"}};

static void body(mc::Explorer & x)
{
    std::size_t const strat = x.choose("strategy", 3);
    std::size_t const n = x.choose("images", x.thorough() ? 7 : 6);
    MaRC::MosaicImage::list_type list;
    long double sum = 0, wsum = 0, wv = 0; std::size_t count = 0; double first = 0, last = 0, lo = INFINITY, hi = -INFINITY;
    std::uint64_t h = strat;
    for (std::size_t i = 0; i < n; ++i) {
        auto const & k = KINDS[x.choose_l("image", KINDS.size(), [](std::size_t j) { return std::string(KINDS[j].name); })];
        list.push_back(std::make_unique<Img>(k.has, k.v, k.w, k.weighs, k.scribbles));
        if (!k.has) continue;
        double const w = k.weighs ? k.w : 1;
        if (!count) first = k.v;
        ++count; last = k.v; sum += k.v; wv += (long double) w * k.v; wsum += w;
        lo = std::min(lo, k.v); hi = std::max(hi, k.v);
        h = mc::mix(h, mc::bits(k.v) + mc::bits(w));
    }
    std::unique_ptr<MaRC::compositing_strategy> s;
    if (strat == 0) s = std::make_unique<MaRC::first_read>();
    else if (strat == 1) s = std::make_unique<MaRC::unweighted_average>();
    else s = std::make_unique<MaRC::weighted_average>();
    MaRC::MosaicImage const m(std::move(list), std::move(s));
    double const init = x.flip("nan-init") ? NAN : -1;
    double d = init;
    bool const got = m.read_data(0.1, 0.2, d);
    if (!x.check(got == (count > 0), "has-data", got ? "data although no image has any" : "no data although an image has some")) return;
    x.state(mc::mix(h, got ? mc::bits(d) : 1));
    if (!got) return;
    double want = 0; bool exact = count == 1 || strat == 0;
    if (strat == 0) want = first;
    else if (count == 1) want = last;
    else if (strat == 1) want = (double) (sum / count);
    else if (wsum > 0) want = (double) (wv / wsum);
    else { x.check(d >= lo && d <= hi, "zero-weights", "value outside the data of the contributing images"); return; }
    x.checkf(exact ? d == want : mc::close(d, want, 1e-12), "value", [&] { return "value " + mc::str(d) + ", expected " + mc::str(want); });
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 4, body); }
