// P15: scale and offset for integer maps.
#include "mc.h"
#include <marc/scale_and_offset.h>

static std::vector<double> const LO = {-1, -90, 0, 1, 5, -5, -180, -1e4, -32768, -0.25, 100, 1000, -2147483648.0, 1e-3, -0.9, 250, 65000, -7.5e8, -3, 12345.678};
static std::vector<double> const WID = {0, 1, 2, 180, 360, 9.9, 10, 9.99, 0.5, 0.11, 0.1, 25.4, 25.6, 100, 99.9, 127, 128, 254, 255, 255.5, 256, 300, 1000, 3276.7, 6553.4, 6553.6,
    9999, 65534, 65535, 65536, 1e6, 2.1e9, 4294967294.0, 4294967295.0, 4294967297.0, 1e12, 9e18, 1.7e19, 1.9e19, 1e-5, 3.3e-7, 1e300};

template <typename T> static void go(mc::Explorer & x)
{
    double const lo = LO[x.choose_l("min", LO.size(), [](std::size_t i) { return mc::str(LO[i]); })];
    std::size_t const w = x.choose_l("width", WID.size() + 3, [](std::size_t i) { return i < WID.size() ? mc::str(WID[i]) : "bad" + mc::str(i - WID.size()); });
    double hi = w < WID.size() ? lo + WID[w] : w == WID.size() ? lo - 1 : w == WID.size() + 1 ? INFINITY : NAN;
    double scale = NAN, offset = NAN;
    bool const got = MaRC::scale_and_offset<T>(lo, hi, scale, offset);
    x.state(mc::mix(sizeof(T) * 2 + got, got ? mc::bits(scale) ^ mc::bits(offset) * 3 : mc::bits(lo)));
    if (std::is_floating_point<T>::value) {
        x.check(got && scale == 1 && offset == 0, "float", "floating point data must not be scaled");
        return;
    }
    long double const TL = (long double) std::numeric_limits<T>::lowest(), TM = (long double) std::numeric_limits<T>::max();
    if (!(hi >= lo) || std::isinf(hi)) { x.check(!got, "bad-range", "scaling found for an empty or infinite range"); return; }
    long double const range = (long double) hi - lo, room = TM - TL;
    // best possible exponent: the data must fit with some offset (or as they are)
    auto feasible = [&](long double s) { return range * s <= room - 1 || (lo * s >= TL && hi * s <= TM); };
    if (!feasible(1)) {
        if (range > room + 1) x.check(!got, "too-wide", "scaling found although the range cannot fit the type");
        if (!got) return;
    } else if (!x.check(got || std::fabs(lo) > 1e15 || std::fabs(hi) > 1e15, "missing", "no scaling found although the range fits the type")) return;
    if (!got) return;
    double const e = std::log10(scale);
    x.checkf(scale >= 1 && std::fabs(e - std::round(e)) < 1e-9, "power-of-ten", [&] { return "scale " + mc::str(scale) + " is not a power of ten of at least 1"; });
    // enough digits kept
    int best = (int) std::round(e);
    if (range > 0) {
        int top = best; while (top < 40 && feasible(std::pow(10.0L, top + 1))) ++top;
        int const slack = (sizeof(T) == 8) + (range < 1);
        x.checkf(best >= top - slack, "digits", [&] { return "scale 1e" + mc::str(best) + " although 1e" + mc::str(top) + " fits"; });
    }
    // every datum fits and is recovered
    long double prev = -INFINITY; double prevp = 0;
    int const N = 200;
    for (int i = 0; i <= N; ++i) {
        double const p = i == 0 ? lo : i == N ? hi : (double) (lo + range * i / N);
        long double const s = (long double) p * scale + offset;
        double const sd = p * scale + offset;
        if (!x.checkf(sd >= (double) TL && s >= TL - 0.5L / 1e3L && (sizeof(T) == 8 ? sd < (double) TM : sd <= (double) TM), "fits", [&] { return "datum " + mc::str(p) + " scaled to " + mc::str(sd) + " does not fit"; })) return;
        T const st = (T) sd;
        long double const back = ((long double) st - offset) / scale;
        // one stored unit, plus the rounding of the double arithmetic itself
        long double const unit = 1.0L / scale + 4 * 2.3e-16L * ((std::fabs((long double) p) * scale + std::fabs((long double) offset)) / scale);
        x.checkf(std::fabs(back - p) <= unit, "recover", [&] { return "datum " + mc::str(p) + " recovered as " + mc::str((double) back); });
        if (i && (long double) p - prevp > 2 * unit) x.check((long double) st > prev, "distinct", "different data stored alike");
        prev = st; prevp = p;
    }
    x.steps(N);
}
static void body(mc::Explorer & x)
{
    switch (x.choose("type", 6)) {
    case 0: go<std::uint8_t>(x); break; case 1: go<std::int16_t>(x); break; case 2: go<std::int32_t>(x); break;
    case 3: go<std::int64_t>(x); break; case 4: go<float>(x); break; default: go<double>(x);
    }
}
int main(int c, char ** v) { mc::Explorer x; return x.main(c, v, 2, body); }
